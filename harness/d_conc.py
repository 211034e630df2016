"""driver: concurrent requests of several connections; every call and return is recorded"""
import os, sys, json, time, random, threading, shutil, signal
from srv import *
import d_store
from d_store import ips, PATHS, content

class Conc(d_store.Run):
    def life(self, start, emit):
        job = self.job
        rnd = random.Random('%s' % job['id'])
        pids, addrs = [], []
        for _ in range(job.get('procs', 1) - 1):           # further server processes on the same repositories
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    s = Server(self.config); os.write(w, json.dumps(s.addr).encode())
                    while True: time.sleep(5)
                finally: os._exit(1)
            os.close(w); addrs.append(tuple(json.loads(os.read(r, 200)))); pids.append(pid)
        self.srv = Server(self.config); addrs.append(self.srv.addr)
        sys.setswitchinterval(job.get('switch', 1e-5))
        self.obs = {r: Observer(self.config, r, self.names) for r in self.repos}
        log, mutex, gate = [], threading.Lock(), threading.Event()
        errors = []
        def client(c, ops, addr):
            try:
                rn = random.Random('%s %s' % (job['id'], c))
                ip = ips(self.job)[self.clients[c]['ip']]
                st = {'conn': None, 'toks': {}, 'seen': {r: 'root' for r in self.repos}}
                def connect():
                    st['conn'] = Conn(addr, ip); st['toks'] = {r: login(st['conn'], r, self.clients[c]['u']) for r in self.repos}
                connect(); gate.wait()
                for op in ops:
                    if rn.random() < .3: time.sleep(rn.random() * .002)
                    e = self.event_static(self, dict(op, c=c)); e['crash'] = False; e['obs'] = {}
                    e['seen'] = st['seen'][e['r']]
                    if st['conn'] is None: connect()
                    with mutex: log.append(dict(e, k='call', res=dict(e['res'])))
                    res = {'k': 'none', 'part': [], 'x': '', 'head': -1}
                    try: self.perform(op, e, res, st)
                    except Gone: res['k'] = 'gone'; st['conn'] = None
                    except Hang: res['k'] = 'hang'; st['conn'] = None
                    except (ValueError, KeyError, TypeError) as x: res['k'] = 'garbled ' + repr(x); st['conn'] = None
                    with mutex: log.append(dict(e, k='ret', res=res))
                # leave in an orderly way
                if st['conn'] is not None:
                    e = self.event_static(self, dict(ops[-1], op='Disc', c=c)); e.update(crash=False, obs={}, seen='root')
                    with mutex: log.append(dict(e, k='call', res=dict(e['res'])))
                    res = {'k': 'ok', 'part': [], 'x': '', 'head': -1}
                    try: st['conn'].bye()
                    except Hang: res['k'] = 'hang'
                    with mutex: log.append(dict(e, k='ret', res=res))
            except BaseException:
                import traceback
                errors.append(traceback.format_exc())
        ths = [threading.Thread(target=client, args=(c, ops, addrs[k % len(addrs)])) for k, (c, ops) in enumerate(sorted(job['threads'].items()))]
        for t in ths: t.start()
        time.sleep(.05); gate.set()
        for t in ths: t.join(60)
        for p in pids: os.kill(p, signal.SIGKILL)
        if errors: raise RuntimeError(errors[0])
        self.report(log, emit)

    def report(self, log, emit):
        emit({'start': 0})
        look = self.look(True)
        ids = {r: [v['id'] for v in o.versions()] for r, o in self.obs.items()}
        def idx(r, h): return 0 if h == 'root' else ids[r].index(h) + 1 if h in ids[r] else -3
        for e in log:
            e['rev'] = idx(e['r'], e.pop('seen'))
            if e['k'] == 'ret' and e['res']['head'] not in (-1,) and isinstance(e['res']['head'], list):
                l = e['res']['head']
                e['res']['head'] = len(l) if l == ids[e['r']][:len(l)] else -4
            elif isinstance(e['res']['head'], str): e['res']['head'] = idx(e['r'], e['res']['head'])
        emit({'log': log + [dict(log[-1], k='look', obs=look)]})

    def perform(self, op, e, res, st):
        if op['op'] == 'GC':
            from bversion.storage.versioned_storage import versioned_storage
            cf = self.config['repositories'][e['r']]
            ok, issues = versioned_storage(cf['path'], path_override=cf['transient_db_path_override']).garbage_collect()
            res['k'] = 'ok' if ok else 'fail'; return
        if op['op'] == 'Disc': st['conn'].bye(); st['conn'] = None; res['k'] = 'ok'; return
        r = e['r']; h = {'session_token': st['toks'][r], 'repository': r}; body = b'{}'
        if op['op'] == 'List': action = 'list_versions'
        elif op['op'] == 'Since':
            h.update(previous_revision=e['seen'], include_unchanged='0'); action = 'find_changed'; body = json.dumps({'client_changes': '{}'}).encode()
        elif op['op'] == 'PullHead': h.update(use_head='1', version_id='', path=self.paths[op['p']]); action = 'pull_file'
        elif op['op'] == 'Begin': h['previous_revision'] = e['seen']; action = 'begin_commit'
        elif op['op'] == 'Push': h['path'] = self.paths[op['p']]; action = 'push_file'; body = content(op['x'], self.job)
        elif op['op'] == 'Del': action = 'delete_files'; body = json.dumps({'files': json.dumps([{'path': self.paths[p]} for p in op['ps']])}).encode()
        elif op['op'] == 'Commit': h.update(mode='commit', commit_message=self.msgs.get(op.get('msg', ''), op.get('msg', ''))); action = 'commit'
        elif op['op'] == 'Abort': h.update(mode='abort', commit_message=''); action = 'commit'
        wait = getattr(st.get('halfway'), 'wait', None) if op['op'] == 'Push' else None
        if wait and len(body) > 1:                               # the upload stops in the middle
            m = st['conn'].head(action, h, len(body)) + body; n = len(m) - len(body) // 2
            st['conn'].send(m[:n]); st.pop('halfway').here.set(); wait(30); st['conn'].send(m[n:]); data, hd = st['conn'].response()
        else: data, hd = st['conn'].request(action, h, body)
        import bversion.server as server
        if hd['status'] != 'ok':
            res['k'] = {server.lock_fail_msg: 'lock', server.need_to_update_msg: 'update', server.user_auth_fail_msg: 'auth', server.no_active_commit_msg: 'nocommit'}.get(hd.get('msg', ''), 'fail')
            return
        res['k'] = 'ok'
        if op['op'] == 'List':
            res['head'] = [v['id'] for v in json.loads(data)['versions']][::-1]
            st['seen'][r] = res['head'][-1] if res['head'] else 'root'
        elif op['op'] == 'Since':
            d = json.loads(data); res['head'] = d['head']
            for kind, v in d['sorted_changes'].items():
                st = {'client_pull_files': 'pull', 'to_delete_on_client': 'deleted'}.get(kind, kind)
                res['part'] += [[self.rpaths.get(i['path'], i['path']), st, self.names.get(i['hash'], '?') if st == 'pull' else ''] for i in v]
        elif op['op'] == 'PullHead':
            res['x'] = self.names.get(sha(data), '?')
            if json.loads(hd['file_info_json'])['hash'] != sha(data): res['x'] = 'hash of something else'
        elif op['op'] == 'Begin':
            pc = json.loads(data)['partial_commit']
            res['part'] = [[self.rpaths.get(i['path'], i['path']), i['status'], self.names.get(i['hash'], '?') if i['status'] != 'deleted' else ''] for i in pc] if pc else []
        elif op['op'] == 'Push': res['x'] = self.names.get(json.loads(hd['file_info_json'])['hash'], '?')
        elif op['op'] == 'Commit': res['head'] = hd['head']; st['seen'][r] = hd['head']

class Hold(Conc):
    """ one request is held up at its k-th access to a file of the repository while other requests are made """
    def life(self, start, emit):
        job = self.job; pid = None; addrs = []
        if job.get('procs', 1) > 1:
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    s = Server(self.config); os.write(w, json.dumps(s.addr).encode())
                    while True: time.sleep(5)
                finally: os._exit(1)
            os.close(w); addrs.append(tuple(json.loads(os.read(r, 200))))
        self.srv = Server(self.config); addrs.insert(0, self.srv.addr)
        self.obs = {r: Observer(self.config, r, self.names) for r in self.repos}
        ops, h, k, span = job['script'], job['hold'], job['k'], job['span']
        held = ops[h]['c']
        mine = {threading.get_ident()}
        st = {'on': False, 'n': 0}
        here, go = threading.Event(), threading.Event()
        def hook(ev, args):
            if k == 0 or not st['on'] or threading.get_ident() in mine: return
            if ev == 'fcntl.flock' or (ev in ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir') and isinstance(args[0], str) and args[0].startswith(self.root)):
                st['n'] += 1
                if st['n'] == k: st['on'] = False; here.set(); go.wait(30)
        sys.addaudithook(hook)
        conns, log = {}, []
        def conn(c):
            if c not in conns or conns[c]['conn'] is None:
                x = Conn(addrs[0 if c == held else -1], ips(self.job)[self.clients[c]['ip']])
                conns[c] = {'conn': x, 'toks': {r: login(x, r, self.clients[c]['u']) for r in self.repos}, 'seen': conns.get(c, {}).get('seen') or {r: 'root' for r in self.repos}}
            return conns[c]
        for c in sorted({o['c'] for o in ops}): conn(c)
        def call(op):
            e = self.event_static(self, op); e['crash'] = False; e['obs'] = {}; e['seen'] = conn(op['c'])['seen'][e['r']]
            log.append(dict(e, k='call', res=dict(e['res']))); return e
        def ret(op, e):
            res = {'k': 'none', 'part': [], 'x': '', 'head': -1}; s = conns[op['c']]
            try: self.perform(op, e, res, s)
            except Gone: res['k'] = 'gone'; s['conn'] = None
            except Hang: res['k'] = 'hang'; s['conn'] = None
            except (ValueError, KeyError, TypeError) as x: res['k'] = 'garbled ' + repr(x); s['conn'] = None
            return dict(e, k='ret', res=res)
        i = 0
        while i < len(ops):
            op = ops[i]
            if i != h: log.append(ret(op, call(op))); i += 1; continue
            e, box = call(op), []
            if k == 0: halfway = conn(op['c'])['halfway'] = threading.Event(); halfway.wait = go.wait; halfway.here = here
            def body():
                if op['op'] != 'GC': mine.add(threading.get_ident())
                box.append(ret(op, e))
            t = threading.Thread(target=body); st['on'] = True; t.start()
            while t.is_alive() and not here.is_set(): here.wait(.0005)
            if k == 0: time.sleep(.02)                           # the server has what was sent
            st['on'] = False; i += 1
            for o in ops[i:i + span]:
                log.append(ret(o, call(o)))
            i += span
            go.set(); t.join(60)
            log.append(box[0] if box else dict(e, k='ret', res=dict(e['res'], k='no answer')))
        for c in sorted(conns):
            if conns[c]['conn'] is not None:
                o = dict(ops[-1], op='Disc', c=c); log.append(ret(o, call(o)))
        if pid: os.kill(pid, signal.SIGKILL)
        self.points = st['n']
        emit({'points': st['n']})
        self.report(log, emit)

def hold(job, d):
    """ every k (at most job['maxk'], spread) """
    def one(k):
        root = os.path.join(d, 'srv'); os.makedirs(root)
        r = Hold(dict(job, k=k, ops=[{'op': 'Look', 'c': sorted(job['clients'])[0]}]), root)
        records = run_lives(1, r.life, None, max_lives=1)
        shutil.rmtree(root, ignore_errors=True)
        n = [x['points'] for x in records if 'points' in x]
        return (n or [0])[0], result(r, dict(job, id='%s.%s' % (job['id'], k)), records)
    n, base = one(1 << 30)
    ks = list(range(1, n + 1))
    if n > job['maxk']: ks = sorted(random.Random('%s' % job['id']).sample(ks, job['maxk']))
    if job['script'][job['hold']]['op'] == 'Push': ks.insert(0, 0)
    return [base] + [one(k)[1] for k in ks if not late()]

def run(job, d):
    if 'hold' in job: return hold(job, d)
    root = os.path.join(d, 'srv'); os.makedirs(root)
    job['ops'] = [{'op': 'Look', 'c': sorted(job['clients'])[0]}]
    r = Conc(job, root)
    records = run_lives(1, r.life, None, max_lives=1)
    shutil.rmtree(root, ignore_errors=True)
    return result(r, job, records)

def result(r, job, records):
    clients = sorted(job['threads']) if 'threads' in job else sorted({o['c'] for o in job['script']})
    for x in records:
        if 'log' in x: return {'id': job['id'], 'repos': r.repos, 'clients': clients, 'ev': x['log']}
    err = [y['raised'] for y in records if 'raised' in y]
    e = d_store.event_static(r, {'op': 'Look', 'c': clients[0]}); e.update(k='look', obs={q: d_store.bad_obs('run failed: %s' % (err or records)[-1:]) for q in r.repos})
    return {'id': job['id'], 'repos': r.repos, 'clients': clients, 'ev': [e]}
