"""driver: logins, sessions and requests of honest and other clients for several repositories, with a clock of its own"""
import os, sys, json, random, shutil, threading, time
from srv import *
from d_store import ips, bad_obs

BASE = 1700000000.0
def body_of(x): return ('content of %s' % x).encode() * (1 + len(x))
NAMES = {sha(body_of(x)): x for x in 'xy'}
PATHS = {'a': '/a', 'b': '/d/b'}; RPATHS = {v: k for k, v in PATHS.items()}

class Direct(Observer):
    """ reads the repository without the server, so that looking does not touch the sessions """
    def call(self, action, headers, body=b'{}'):
        from bversion.storage.versioned_storage import versioned_storage
        cf = self.config['repositories'][self.repo]
        s = versioned_storage(cf['path'], path_override=cf['transient_db_path_override'])
        if action == 'list_versions': return json.dumps({'versions': s.get_commit_chain()}).encode(), {}
        if action == 'list_files': return json.dumps({'files': s.get_commit_files(headers['version_id'])}).encode(), {}
        if action == 'list_changes': return json.dumps({'changes': s.get_commit_changes(headers['version_id'])}).encode(), {}
        if action == 'pull_file':
            i = s.get_file_info_from_path(headers['path'], version_id=headers['version_id'])
            return open(os.path.join(self.path, 'files', i['hash'][:2], i['hash'][2:]), 'rb').read(), {}
    def index(self, heads): return 0, 0

def hold_lines(base):
    """ the first thread of the server which executes code below base is stopped at its k-th line: count = [lines, k, thread] """
    here, go, count = threading.Event(), threading.Event(), [0, 0, 0]
    mon = sys.monitoring; T = mon.DEBUGGER_ID; mon.use_tool_id(T, 'hold')
    me = threading.get_ident()
    def line(code, n):
        if not code.co_filename.startswith(base): return mon.DISABLE
        i = threading.get_ident()
        if not count[1] or i == me or count[2] not in (0, i): return
        count[2] = i; count[0] += 1
        if count[0] == count[1]: here.set(); go.wait(.3)        # not longer: it may be in a transaction
    mon.register_callback(T, mon.events.LINE, line); mon.set_events(T, mon.events.LINE)
    return here, go, count

class Run:
    def __init__(self, job, root):
        self.job, self.root, self.repos = job, root, job['repos']
        self.rnd = random.Random('%s' % job['id'])
        users = {}
        for u, r in job['acc']: users.setdefault(u, []).append(r)
        self.config = make_config(root, self.repos, users, job.get('override', []))
        for r in self.repos: os.makedirs(os.path.join(root, r))
    def life(self, start, emit):
        job = self.job; self.now = 0
        shim().shim_clock(BASE)
        self.srv = Server(self.config); self.server = self.srv.server
        self.obs = {r: Direct(self.config, r, NAMES) for r in self.repos}
        self.conns, self.real = {}, {}
        i, ops = 0, job['ops']
        if 'hold' in job: self.here, self.go, self.count = hold_lines(os.path.dirname(self.server.__file__))
        while i < len(ops):
            if i == job.get('hold', -1): i = self.held(i, emit); continue
            op = ops[i]; emit({'start': i}); e = self.event(op)
            e['res'] = self.do(op, e)
            e['obs'] = self.look(op['op'] in ('Commit', 'Abort', 'Begin') or i == len(ops) - 1)
            emit({'ev': e}); i += 1
            if e['res']['k'] == 'hang' or any(o['err'] for o in e['obs']): return
    def held(self, i, emit):
        """ the request is stopped at the k-th line of the server's code while others are made """
        job = self.job; ops = job['ops']; op = ops[i]
        self.conn(op['c']); box, e = [], self.event(op)
        here, go = self.here, self.go
        emit({'ev': dict(e, k='call')}); self.count[:] = [0, job['k'], 0]
        t = threading.Thread(target=lambda: box.append(self.do(op, e))); t.start()
        while t.is_alive() and not here.is_set(): here.wait(.0005)
        i += 1; mid = ops[i:i + job['span']]
        for o in mid:
            ev = self.event(o); ev['res'] = self.do(o, ev); emit({'ev': ev})
        go.set(); t.join(30); self.count[1] = 0
        e2 = dict(e, k='ret', res=box[0] if box else self.res('hang')); e2['obs'] = self.look(True)
        emit({'ev': e2}); emit({'points': self.count[0]})
        return i + job['span']
    def res(self, k): return {'k': k, 'part': [], 'data': False}
    def event(self, op):
        e = {x: op[x] for x in ('op', 'c', 'ip', 'r', 'u', 'tok', 'sig', 'new', 'd', 'on', 'rev', 'back', 'p', 'x', 'ps', 'msg')}
        e.update(k='do', obs=[], res=self.res('none'))
        if e['rev'] > 0 and getattr(self, 'obs', None): e['rev'] = min(e['rev'], len(self.obs[e['r']].versions()) if e['r'] in self.obs else 0)
        return e
    def look(self, full):
        out = []
        for r, o in self.obs.items():
            v = o.look(full=full, since=False)
            for x in v['versions']: x['tree'] = [[RPATHS.get(p, p), c] for p, c in x['tree']]
            out.append({'r': r, 'err': v['err'], 'n': len(v['ids']), 'full': full, 'versions': v['versions'], 'objs': v['objs']})
        return out
    def conn(self, c):
        if c not in self.conns:
            self.conns[c] = self.srv.connect(ips(self.job)['i2' if c == 'c2' else 'i1'])
        return self.conns[c]
    def do(self, op, e):
        res = self.res('none')
        try: self.perform(op, e, res)
        except Gone: res['k'] = 'gone'; self.conns.pop(op['c'], None)
        except Hang: res['k'] = 'hang'; self.conns.pop(op['c'], None)
        except (ValueError, KeyError, TypeError, AttributeError) as x: res['k'] = 'garbled ' + repr(x); self.conns.pop(op['c'], None)
        return res
    def tok(self, name):
        import base64
        if name in self.real: return self.real[name]
        made = base64.b64encode(random.Random(name).randbytes(35)).decode()
        if not self.real: return made
        t = self.rnd.choice(sorted(self.real.values()))         # something like a real one
        return self.rnd.choice([made, '', '%', '_' * len(t), t[:-1], t[1:], t[:8] + '%', t.swapcase(), t + 'x', t[:-1] + '_', "' or ''='", t + ',' + t, 'None', '*'])
    def version(self, d): return str(self.server.version_numbers.minimum_client_version + d)
    def perform(self, op, e, res):
        import pysodium, base64
        o, c, r = op['op'], op['c'], op['r']
        if o == 'Tick': self.now += op['d']; shim().shim_clock(BASE + self.now); res['k'] = 'ok'; return
        if o == 'Perm':
            us = self.server.config['users']
            if op['on']: us.setdefault(op['u'], {'public_key': keypair(op['u'])[0], 'uses_repositories': []}); l = us[op['u']]['uses_repositories']; l += [] if r in l else [r]
            elif op['u'] in us:
                us[op['u']]['uses_repositories'] = [x for x in us[op['u']]['uses_repositories'] if x != r]
                if not us[op['u']]['uses_repositories'] and self.rnd.random() < .5: del us[op['u']]
            res['k'] = 'ok'; return
        if o == 'Disc':
            if c in self.conns: self.conns.pop(c).bye()
            res['k'] = 'ok'; return
        conn = self.conn(c); h = {'repository': r}; body = b'{}'
        if o == 'BeginAuth': a = 'begin_auth'
        elif o == 'Auth':
            a = 'authenticate'; t = self.tok(op['tok'])
            sig = base64.b64encode(pysodium.crypto_sign_detached(t, keypair(op['sig'])[1])).decode() if op['sig'] else base64.b64encode(b'\0' * 64).decode()
            h.update(client_version=self.version(op['d']), user=op['u'], auth_token=t, signature=sig)
        elif o == 'AuthS': a = 'authenticate'; h.update(client_version=self.version(op['d']), session_token=self.tok(op['tok']))
        else:
            h['session_token'] = self.tok(op['tok'])
            ids = [v['id'] for v in self.obs[r].versions()] if r in self.obs else []
            vid = ids[e['rev'] - 1] if 0 < e['rev'] <= len(ids) else 'root'
            if o == 'List': a = 'list_versions'
            elif o == 'Files': a = 'list_files'; h.update(show_head='0', version_id=vid)
            elif o == 'Changes': a = 'list_changes'; h.update(show_head='0', version_id=vid)
            elif o == 'Since': a = 'find_changed'; h.update(previous_revision=vid, include_unchanged='0'); body = json.dumps({'client_changes': '{}'}).encode()
            elif o == 'Pull': a = 'pull_file'; h.update(use_head='0', version_id=vid, path=PATHS[op['p']])
            elif o == 'Begin': a = 'begin_commit'; h['previous_revision'] = vid
            elif o == 'Push': a = 'push_file'; h['path'] = PATHS[op['p']]; body = body_of(op['x'])
            elif o == 'Del': a = 'delete_files'; body = json.dumps({'files': json.dumps([{'path': PATHS[p]} for p in op['ps']])}).encode()
            elif o == 'Commit': a = 'commit'; h.update(mode='commit', commit_message=op['msg'])
            elif o == 'Abort': a = 'commit'; h.update(mode='abort', commit_message='')
        if r not in self.repos: h['repository'] = self.rnd.choice([r, self.repos[0] + 'x', '', self.repos[0] + '/', '%', './' + self.repos[0], self.repos[0] + '/../' + self.repos[1], self.repos[0] + ',' + self.repos[1]])
        data, hd = conn.request(a, h, body)
        s = self.server
        if hd['status'] != 'ok':
            res['k'] = {s.lock_fail_msg: 'lock', s.need_to_update_msg: 'update', s.user_auth_fail_msg: 'auth', s.no_active_commit_msg: 'nocommit'}.get(hd.get('msg', ''), 'fail')
            res['data'] = data != b'' or bool(set(hd) - {'status', 'msg', 'content-length', 'content-type', 'connection', 'date', 'server', 'keep-alive'})
            return
        res['k'] = 'ok'
        if o == 'BeginAuth': self.real[op['new']] = hd['auth_token']
        elif o == 'Auth': self.real[op['new']] = hd['session_token']
        elif o == 'AuthS' and hd['session_token'] != h['session_token']: res['k'] = 'another session'
        elif o == 'Begin':
            pc = json.loads(data)['partial_commit']
            res['part'] = [[RPATHS.get(i['path'], i['path']), i['status'], NAMES.get(i['hash'], '?')] for i in pc] if pc else []
        elif o == 'List' and len(json.loads(data)['versions']) != len(ids): res['k'] = 'other versions'
        elif o == 'Pull' and NAMES.get(sha(data)) is None: res['k'] = 'other data'

def once(job, d):
    root = os.path.join(d, 'srv'); os.makedirs(root)
    r = Run(job, root)
    rec = run_lives(1, r.life, None, max_lives=1)
    shutil.rmtree(root, ignore_errors=True)
    evs = [x['ev'] for x in rec if 'ev' in x]
    err = [x['raised'] for x in rec if 'raised' in x] + ['died %s' % x['died'] for x in rec if 'died' in x]
    if err:
        e = r.event(dict(job['ops'][0], op='Tick', d=0)); e['res'] = r.res('ok'); e['obs'] = [{'r': job['repos'][0], 'err': err[0][-800:], 'n': 0, 'full': False, 'versions': [], 'objs': []}]
        evs.append(e)
    return [x['points'] for x in rec if 'points' in x], {'id': job['id'], 'repos': job['repos'], 'acc': job['acc'], 'ev': evs}

def run(job, d):
    if 'hold' not in job: return [once(job, d)[1]]
    n, base = once(dict(job, k=1 << 30), d)
    ks = list(range(1, (n or [0])[0] + 1))
    if len(ks) > job['maxk']: ks = sorted(random.Random('%s' % job['id']).sample(ks, job['maxk']))
    return [base] + [once(dict(job, id='%s.%d' % (job['id'], k), k=k), d)[1] for k in ks if not late()]
