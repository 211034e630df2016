"""driver: one repository server under schedules of requests of several clients, with crashes"""
import os, sys, json, time, random, hashlib, shutil
import srv
from srv import *

IPSETS = [{'i1': '127.7.0.1', 'i2': '127.7.0.2'}, {'i1': '127.7.0.1', 'i2': '127.7.0.11'}, {'i1': '127.17.0.1', 'i2': '127.7.0.1'}]
def ips(job): return IPSETS[job.get('ipset', 0)]
PATHS = [{'a': '/a', 'b': '/d/b', 'c': '/d/e/c', 'd': '/z'}, {'a': '/a.txt', 'b': '/a.txt2', 'c': '/ü ber/ß', 'd': '/d/x:y'},
         {'a': '/d/a', 'b': '/d/b', 'c': '/a', 'd': '/d/e'}, {'a': '/x/y/z/a', 'b': '/x/y/z', 'c': '/x/b', 'd': '/.h'},
         {'a': '/d/f', 'b': '/e/f', 'c': '/e/d/f', 'd': '/d/d/f'},                                  # equal directories
         {'a': '/A', 'b': '/a', 'c': '/D/a', 'd': '/d/a'},                                          # differ in case
         {'a': '/caf\u00e9', 'b': '/cafe\u0301', 'c': '/\u212b/x', 'd': '/\u00c5/x'},               # equal only when normalised
         {'a': "/a'b", 'b': '/a%20b', 'c': '/a b', 'd': '/a_b'}, {'a': '/%', 'b': '/_', 'c': '/*', 'd': '/[a]'},
         {'a': '/ a', 'b': '/a ', 'c': '/ ', 'd': '/d /a'}, {'a': '/files', 'b': '/dirs/path', 'c': '/hash', 'd': '/index/head'},
         {'a': '/' + 'n' * 255, 'b': '/' + 'n' * 254, 'c': '/q' * 40 + '/a', 'd': '/q' * 40 + '/b'}, {'a': '/d\\a', 'b': '/d/a', 'c': '/"a"', 'd': '/\U0001f600/a\tb'},
         {'a': '/..a', 'b': '/a..', 'c': '/.../a', 'd': '/d/.a./b'}, {'a': '/1', 'b': '/01', 'c': '/1.0', 'd': '/1/1'}, {'a': '/None', 'b': '/null', 'c': '/True/root', 'd': '/root'}]
MSGS = [{'m1': 'm1', 'm2': 'm2', 'm3': 'm3'}, {'m1': 'first line\nsecond: line', 'm2': '\u00e4 \U0001f600 "quoted" \\', 'm3': 'x' * 3000},
        {'m1': ' leading', 'm2': 'trailing ', 'm3': '%41+&a=b; {}'}, {'m1': '0', 'm2': "it's", 'm3': 'None'}]

def content(x, job, memo={}):
    """ bytes of a content id """
    size = job.get('sizes', {}).get(x)
    if size is not None:
        rnd = random.Random(x)
        return rnd.randbytes(size) if size else b''
    if x == 'e': return b''
    kind = job.get('cset', 0)
    if (x, kind) not in memo:
        if kind == 1:                      # stored next to each other (and to the empty file)
            k = 0
            while not hashlib.sha256(b'%s %d' % (x.encode(), k)).hexdigest().startswith('e3'): k += 1
            memo[x, kind] = b'%s %d' % (x.encode(), k)
        elif kind == 2: memo[x, kind] = b'same length, same beginning and end ' + x.encode() + b' .'
        elif kind == 3: memo[x, kind] = b'data\r\n' * ('xyw'.index(x) + 1 if x in 'xyw' else 1) + (b'' if x in 'xyw' else x.encode())     # each begins with the other
        else: memo[x, kind] = ('content of %s' % x).encode() * (1 + len(x))
    return memo[x, kind]

class Run:
    def __init__(self, job, root):
        self.job, self.root = job, root
        self.repos = job.get('repos', ['r1'])
        self.clients = job['clients']
        users = sorted({c['u'] for c in self.clients.values()})
        self.config = make_config(root, self.repos, dict({u: self.repos for u in users}, watch=self.repos), job.get('override', []))
        self.names = {sha(content(x, job)): x for x in job['contents']}
        self.paths = PATHS[job.get('pathset', 0) % len(PATHS)]; self.msgs = MSGS[job.get('cset', 0)]; self.rmsgs = {v: k for k, v in self.msgs.items()}
        self.rpaths = {v: k for k, v in self.paths.items()}
        self.prepare()
    def prepare(self):
        for r in self.repos: os.makedirs(os.path.join(self.root, r), exist_ok=True)

    # ---- a life of the server
    def life(self, start, emit):
        ops = self.job['ops']
        self.srv = Server(self.config)
        self.obs = {r: Observer(self.config, r, self.names) for r in self.repos}
        self.conns, self.toks = {}, {}
        self.rnd = random.Random('%s %s' % (self.job.get('id'), start))
        if start > 0: emit({'obs': self.look(True)})
        for i in range(start, len(ops)):
            op = ops[i]
            k = self.job.get('crash', {}).get(str(i)); mode = self.job.get('mode')       # ends, or goes on after one or all changes fail
            emit({'start': i})
            ev = self.event(op)
            if k:
                self.conn(op['c'], op.get('r', self.repos[0]))     # log in before the crash points are counted
                (lambda r, k: shim().shim_arm(r, k, -1) if not mode else shim().shim_fault(r, k, 28) if mode == 'disk' else shim().shim_lasting(r, k, 30))(self.root.encode(), k)
                if mode and self.job.get('db'): shim().shim_dbtoo()
            self.armed = bool(k)
            try: ev['res'] = self.do(op, ev)
            except Gone: ev['res']['k'] = 'gone'; self.lost(op['c'])
            except Hang as h: ev['res']['k'] = 'hang'; self.lost(op['c'])
            except (ValueError, KeyError, TypeError) as x: ev['res']['k'] = 'garbled ' + repr(x); self.lost(op['c'])
            if k: ev['points'] = shim().shim_disarm() if self.armed else self.points; ev['fault'] = bool(mode) and ev['points'] >= k
            full = op['op'] in ('Commit', 'Abort', 'Begin', 'GC', 'Restart', 'Lose') and i % self.job.get('every', 1) == 0 or i == len(ops) - 1
            ev['obs'] = self.look(full)
            if op['op'] == 'Lose': self.lose(op.get('r', self.repos[0]))
            if op['op'] in ('Restart', 'Lose'): emit({'pending': ev}); os._exit(97)
            emit({'ev': ev})
            if ev['res']['k'] == 'hang' or any(o['err'] for o in ev['obs'].values()): return      # a deviation: what follows does not matter
    def lose(self, r):
        """ the transient database is gone """
        import glob
        cf = self.config['repositories'][r]
        for f in glob.glob(glob.escape(cf['transient_db_path_override'] or os.path.join(cf['path'], 'server_transient.db')) + '*'): os.remove(f)
    def event(self, op):
        e = {'op': op['op'], 'r': op.get('r', self.repos[0]), 'c': op['c'], 'u': self.clients[op['c']]['u'], 'ip': self.clients[op['c']]['ip'],
             'rev': -1, 'back': op.get('back', 0), 'p': op.get('p', ''), 'x': op.get('x', ''), 'ps': op.get('ps', []), 'msg': op.get('msg', ''), 'crash': False, 'fault': False,
             'res': {'k': 'none', 'part': [], 'x': '', 'head': -1}}
        o = self.obs[e['r']]
        try: ids = [v['id'] for v in o.versions()]
        except Exception: ids = []
        self.ids = ids
        e['rev'] = max(0, len(ids) - e['back']) if 'odd' not in op else -1
        return e
    def odd(self, k, r):
        """ something which is not the head """
        head = self.ids[-1] if self.ids else 'root'; base = os.path.join(self.obs[r].path, 'index')
        left = [a + b for a in sorted(os.listdir(base)) for b in sorted(os.listdir(os.path.join(base, a))) if a + b not in self.ids] + [sha(b'x')]
        v = ['', head[:-1], head[1:], head[:2], head + '0', '0' * 64, head + ',' + head, 'None', 'head', '%', head[:-1] + '_', left[0], left[-1], self.ids[0] + head if self.ids else 'roots'][k]
        return v
    def look(self, full):
        res = {}
        for r, o in self.obs.items():
            v = o.look(full=full, since=self.job.get('since', True))
            v['n'] = len(v.pop('ids'))
            for x in v['versions']:
                x['msg'] = self.rmsgs.get(x['msg'], x['msg'])
                x['tree'] = [[self.rpaths.get(p, p), c] for p, c in x['tree']]; x['chg'] = [[self.rpaths.get(p, p), s, c] for p, s, c in x['chg']]
            v['since'] = [[[self.rpaths.get(p, p), s, c] for p, s, c in rep] for rep in v['since']]
            res[r] = v
        return res
    # ---- connections
    def conn(self, c, r):
        if c not in self.conns:
            ip = ips(self.job)[self.clients[c]['ip']]
            self.conns[c] = self.srv.connect(ip)
        if (c, r) not in self.toks:
            self.toks[(c, r)] = login(self.conns[c], r, self.clients[c]['u'])
            if self.toks[(c, r)] is None: raise RuntimeError('can not log in')
        return self.conns[c]
    def lost(self, c):
        if c in self.conns: self.conns.pop(c).drop()
        self.toks = {k: v for k, v in self.toks.items() if k[0] != c}
    def cuts(self, n):
        return [self.rnd.randrange(1, n) for _ in range(self.rnd.choice([0, 0, 1, 2, 4]))] if self.job.get('chunked') else []
    def do(self, op, ev):
        res = ev['res']; c, r = op['c'], ev['r']
        if op['op'] == 'Disc':
            if c in self.conns: self.conns[c].bye()
            self.lost(c); res['k'] = 'ok'; return res
        if op['op'] in ('Restart', 'Lose'): res['k'] = 'ok'; return res
        if op['op'] == 'Look': res['k'] = 'ok'; return res
        if op['op'] == 'GC':
            from bversion.storage.versioned_storage import versioned_storage
            cf = self.config['repositories'][r]
            try: ok, issues = versioned_storage(cf['path'], path_override=cf['transient_db_path_override']).garbage_collect()
            except Exception as e: res['k'] = 'raised' if isinstance(e, OSError) else 'raised ' + repr(e); return res
            res['k'] = 'ok' if ok else 'fail'; return res
        conn = self.conn(c, r)
        if op['op'] == 'Bad':
            tok = self.toks[(c, r)]
            msg = {'noheader': conn.head('push_file', {'repository': r}, 2) + b'{}', 'action': conn.head('no_such_thing', {'session_token': tok, 'repository': r}, 2) + b'{}',
                   'garbage': b'\x00\xff\xfe not http at all\r\n\r\n', 'method': b'GET / HTTP/1.1\r\nContent-Length: 0\r\n\r\n',
                   'nolength': b'POST /commit HTTP/1.1\r\nrepository: ' + r.encode() + b'\r\n\r\n'}[op['x']]
            conn.send(msg)
            try: conn.response(); res['k'] = 'answered'
            except Gone: res['k'] = 'ok'
            self.lost(c); return res
        h = {'session_token': self.toks[(c, r)], 'repository': r}
        body = b'{}'
        if op['op'] == 'Begin':
            h['previous_revision'] = self.odd(op['odd'], r) if 'odd' in op else self.ids[ev['rev'] - 1] if ev['rev'] > 0 else 'root'
            action = 'begin_commit'
        elif op['op'] in ('Push', 'PushCut'):
            h['path'] = self.paths.get(op['p'], op['p']); action = 'push_file'; body = content(op['x'], self.job)
        elif op['op'] == 'Del':
            action = 'delete_files'; body = json.dumps({'files': json.dumps([{'path': self.paths.get(p, p)} for p in op['ps']])}).encode()
        elif op['op'] == 'Pull':
            if ev['back'] == 0 and self.rnd.random() < .5: h.update(use_head='1', version_id='')
            else: h.update(use_head='0', version_id=self.ids[ev['rev'] - 1] if ev['rev'] else 'root')
            h['path'] = self.paths[op['p']]; action = 'pull_file'
        elif op['op'] == 'Commit':
            h['mode'] = 'commit'; h['commit_message'] = self.msgs.get(op.get('msg', ''), op.get('msg', '')); action = 'commit'
        elif op['op'] == 'Abort':
            h['mode'] = 'abort'; h['commit_message'] = ''; action = 'commit'
        if op['op'] == 'PushCut':
            msg = conn.head(action, h, len(body) + 10) + body
            conn.send(msg); conn.bye(); self.lost(c); res['k'] = 'ok'; return res
        data, hd = conn.request(action, h, body, self.cuts(len(body) + 200))
        if ev['op'] == 'Commit' and self.armed: self.points = shim().shim_disarm(); self.armed = False      # what follows looks
        import bversion.server as server
        if hd['status'] != 'ok':
            res['k'] = {server.lock_fail_msg: 'lock', server.need_to_update_msg: 'update', server.user_auth_fail_msg: 'auth',
                        server.no_active_commit_msg: 'nocommit'}.get(hd.get('msg', ''), 'fail')
            return res
        res['k'] = 'ok'
        if op['op'] == 'Begin':
            pc = json.loads(data)['partial_commit']
            res['part'] = [[self.rpaths.get(i['path'], i['path']), i['status'], self.names.get(i['hash'], '?') if i['status'] != 'deleted' else ''] for i in pc] if pc else []
        elif op['op'] == 'Pull':
            i = json.loads(hd['file_info_json'])
            res['x'] = self.names.get(sha(data), '?')
            if i['hash'] != sha(data): res['x'] = 'hash of something else'
        elif op['op'] == 'Push':
            i = json.loads(hd['file_info_json'])
            res['x'] = self.names.get(i['hash'], '?' + i['hash'][:6])
            if i['path'] != h['path']: res['x'] = 'wrong path ' + i['path']
        elif op['op'] == 'Commit':
            hv = hd.get('head', '')
            ids = [v['id'] for v in self.obs[r].versions()]
            res['head'] = (ids.index(hv) + 1) if hv in ids else 0 if hv == 'root' else -2
        return res

def assemble(records, run):
    """ records of all lives -> events """
    evs, pend, cur = [], None, None
    for x in records:
        if 'start' in x: cur = x['start']
        elif 'ev' in x: evs.append(x['ev'])
        elif 'pending' in x: pend = x['pending']
        elif 'died' in x:
            op = run.job['ops'][cur] if cur is not None else None
            if x['died'] == 97: pass                        # an ordered restart
            elif x['died'] == 99 and pend is None:
                pend = Run.event_static(run, op)
            else:                                           # the driver or the server failed
                e = pend or Run.event_static(run, op)
                err = [y['raised'] for y in records if 'raised' in y]
                e['res']['k'] = 'died %s %s' % (x['died'], err[-1][-700:] if err else ''); e['crash'] = False
                e['obs'] = {r: bad_obs('the server process ended: %s' % (err[-1] if err else '')) for r in run.repos}
                evs.append(e); return evs
        elif 'obs' in x and pend is not None:
            pend['obs'] = x['obs']; evs.append(pend); pend = None
    if pend is not None:                                    # crashed at the last operation: look once more
        evs.append(dict(pend, obs={r: bad_obs('nothing seen after the crash') for r in run.repos}))
    return evs

def bad_obs(err): return {'err': err, 'versions': [], 'full': True, 'objs': [], 'orphans': 0, 'badindex': 0, 'since': [], 'n': 0}

def event_static(run, op):
    op = op or {'op': 'Look'}; k = op.get('c') or sorted(run.clients)[0]; c = run.clients[k]
    return {'op': op['op'], 'r': op.get('r') or run.repos[0], 'c': k, 'u': c['u'], 'ip': c['ip'], 'rev': -1, 'back': op.get('back', 0), 'p': op.get('p', ''),
            'x': op.get('x', ''), 'ps': op.get('ps', []), 'msg': op.get('msg', ''), 'crash': True, 'fault': False, 'res': {'k': 'crash', 'part': [], 'x': '', 'head': -1}, 'obs': {}}
Run.event_static = staticmethod(event_static)

def once(job, d):
    root = os.path.join(d, 'srv'); os.makedirs(root)
    run = Run(job, root)
    if job['ops'][-1]['op'] != 'Look': job['ops'] = job['ops'] + [{'op': 'Look', 'c': sorted(job['clients'])[0], 'r': run.repos[0]}]
    records = run_lives(len(job['ops']), run.life, None)
    shutil.rmtree(root, ignore_errors=True)
    return {'id': job['id'], 'repos': run.repos, 'ev': assemble(records, run)}

def run(job, d):
    """ job['crash']: {op index: k};  or job['crash_all']: index, every k (at most job['maxk'], spread) """
    if 'crash_all' not in job: return [once(job, d)]
    i = job['crash_all']; out = []
    base = once(dict(job, crash={str(i): 1 << 30}), d)
    evs = base['ev']; out.append(base)
    n = evs[i].get('points', 0) if i < len(evs) else 0
    ks = list(range(1, n + 1))
    m = job.get('maxk', 10 ** 6)
    if n > m: ks = sorted(random.Random('%s' % job['id']).sample(ks, m))
    for k in ks:
        if late(): break
        cr = {str(i): k}
        cr.update(job.get('crash2', {}))
        out.append(once(dict(job, id='%s.%d' % (job['id'], k), crash=cr), d))
    return out
