"""driver: working copies of a real client (client.run with its arguments, in processes of their own) and a real server

The server is a child process, every command of a client and every look at a working copy another one.  Commands can be killed at any
of their file system changes and network operations, lose the connection there, be held in the middle of a request while other things
happen, or meet a server which has lost a file."""
import datetime, fnmatch, os, sys, json, time, random, hashlib, shutil, io, re, glob, select, signal, sqlite3, threading
import srv
from srv import *

PATHS = [{'a': '/a', 'b': '/d/b', 'c': '/d/e/c', 'D': '/d', 'I': '/.bvn_ignore'},
         {'a': '/a b:c', 'b': '/dir/ü', 'c': '/dir/.hid/[x]', 'D': '/dir', 'I': '/.bvn_ignore'},
         {'a': '/x/a', 'b': '/x/y/b', 'c': '/x/y/b2', 'D': '/x/y', 'I': '/.bvn_ignore'},
         {'a': '/z.txt', 'b': '/p/q/r/s', 'c': '/p/q.c', 'D': '/p', 'I': '/.bvn_ignore'},
         {'a': '/Read', 'b': '/d/read', 'c': '/d/READ', 'D': '/d', 'I': '/.bvn_ignore'},
         {'a': '/ a', 'b': '/d /b ', 'c': '/d /e/c', 'D': '/d ', 'I': '/.bvn_ignore'},
         {'a': '/ ', 'b': '/d/ ', 'c': '/d/  /x', 'D': '/d', 'I': '/.bvn_ignore'},
         {'a': '/caf\u00e9', 'b': '/d/cafe\u0301', 'c': '/d/caf\u00e9', 'D': '/d', 'I': '/.bvn_ignore'},
         {'a': '/*', 'b': '/q?/*', 'c': '/q?/b', 'D': '/q?', 'I': '/.bvn_ignore'},
         {'a': '/.bvn_pull_ignore.x', 'b': '/d/.bvn_ignore', 'c': '/d/.bvn_pull_ignore', 'D': '/d', 'I': '/.bvn_ignore'},
         {'a': '/download_tmp', 'b': '/.bvn2/lock_file', 'c': '/.bvn2/manifest.db', 'D': '/.bvn2', 'I': '/.bvn_ignore'},
         {'a': "/it's", 'b': '/d%20/"b"', 'c': '/d%20/\\c', 'D': '/d%20', 'I': '/.bvn_ignore'},
         {'a': '/' + 'n' * 255, 'b': '/d/' + 'n' * 255, 'c': '/d/' + '\u00fc' * 127, 'D': '/d', 'I': '/.bvn_ignore'},
         {'a': '/qx/b', 'b': '/q?/b', 'c': '/q?/cc', 'D': '/q?', 'I': '/.bvn_ignore'},
         {'a': '/x/b', 'b': '/[x]/b', 'c': '/[x]/c.txt', 'D': '/[x]', 'I': '/.bvn_ignore'}]
esc = glob.escape
def unesc(l): return l.replace('[*]', '*').replace('[?]', '?').replace('[[]', '[')
SUB = {'I': {'': '', 'i1': 'a', 'i2': 'b', 'i3': 'bc', 'e': ''}}

class Server_:
    """ the server process, seen from outside """
    def __init__(self, run):
        self.run = run
        a, b = os.pipe(); c, d = os.pipe(); h, g = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b); os.close(c); os.close(h)
                self.out = os.fdopen(d, 'w')
                self.serve(os.fdopen(a), self.out, g)
            except BaseException:
                import traceback
                self.out.write(json.dumps({'__died__': traceback.format_exc()}) + '\n'); self.out.flush()
            finally: os._exit(1)
        os.close(a); os.close(d); os.close(g)
        self.w, self.r, self.held = os.fdopen(b, 'w'), os.fdopen(c), h
        self.addr = self.call('addr')
    def call(self, cmd, **kw):
        self.w.write(json.dumps(dict(kw, cmd=cmd)) + '\n'); self.w.flush()
        if not select.select([self.r], [], [], 60)[0]: raise RuntimeError('server process does not answer to ' + cmd)
        l = self.r.readline()
        if not l: raise RuntimeError('server process died at ' + cmd)
        r = json.loads(l)
        if isinstance(r, dict) and '__died__' in r: raise RuntimeError(r['__died__'])
        return r
    def kill(self):
        try: os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        os.waitpid(self.pid, 0); self.w.close(); self.r.close(); os.close(self.held)
    # ---- in the process
    def serve(self, cin, cout, held):
        import bversion.server as server, _thread
        s = Server(self.run.config); self.log, self.hold, go = [], None, threading.Event()
        real = server.endpoint
        def endpoint(*a):
            rq = a[0]
            if getattr(rq, 'remote_addr', '') != '127.9.9.9':
                act = getattr(rq, 'uri', '/').split('/')[-1]; p = getattr(rq, 'headers', {}).get('path', '')
                self.log.append([act, p])
                h = self.hold
                if h and act == h[0]:
                    h[1] -= 1
                    if h[1] == 0: self.hold = None; go.clear(); os.write(held, b'h'); go.wait(30)
            return real(*a)
        server.endpoint = endpoint
        obs = Observer(self.run.config, 'r1', self.run.names)
        obs.look(); end = time.monotonic() + 5; base = None
        while time.monotonic() < end:                        # connections of the start are gone
            n = _thread._count()
            if n == base: break
            base = n; time.sleep(.01)
        for l in cin:
            q = json.loads(l)
            if q['cmd'] == 'addr': r = s.addr
            elif q['cmd'] == 'log': r, self.log = self.log, []
            elif q['cmd'] == 'hold': self.hold = [q['act'], q['n']]; r = 0
            elif q['cmd'] == 'go': self.hold = None; go.set(); r = 0
            elif q['cmd'] == 'version': server.version_numbers.server_version = server.version_numbers.minimum_server_version + q['d']; r = 0
            elif q['cmd'] == 'expire':                           # as when something has taken very long
                con = sqlite3.connect(self.run.root + '/srv/r1/server_transient.db', timeout=20)
                con.execute('update session_tokens set expires = 0'); con.commit(); con.close(); r = 0
            elif q['cmd'] == 'look':
                try: s.connect('127.0.0.1').bye()                # whoever connected before has been accepted now
                except (Gone, Hang): pass
                end = time.monotonic() + 6
                n = base + q['held']
                while _thread._count() > n and time.monotonic() < end: time.sleep(.0005)
                busy = _thread._count() > n
                r = self.look(obs, q['known'])
                if busy: r['err'] = 'connections of finished clients are not released'
            cout.write(json.dumps(r) + '\n'); cout.flush()
    def look(self, obs, known):
        o = {'err': '', 'kept': True, 'newv': [], 'ids': known}
        try:
            vs = obs.versions(); ids = [v['id'] for v in vs]
            o['kept'] = ids[:len(known)] == known; o['ids'] = ids
            for v in vs[len(known):]:
                x = obs.version(v, v is vs[-1]); o['newv'].append(x)
        except BaseException as e:
            o['err'] = '%s: %s' % (type(e).__name__, e)
        return o

class Run:
    def __init__(self, job, root):
        self.job, self.root = job, root
        self.paths = PATHS[job.get('pathset', 0) % len(PATHS)]; self.rpaths = {v: k for k, v in self.paths.items()}
        self.P = [p for p in job['paths']]
        self.cont = {}
        for x in job['contents']:
            if x in SUB['I']: continue
            n = job.get('sizes', {}).get(x)
            self.cont[x] = b'' if x == 'e' else random.Random(x).randbytes(n) if n else ('content of %s\n' % x).encode() * (1 + len(x))
        for x, s in SUB['I'].items():
            if x: self.cont[x] = ('# %s\n' % x + ''.join(esc(self.paths[p]) + '\n' for p in s)).encode() if x != 'e' else b''
        self.names = {sha(v): k for k, v in self.cont.items()}
        users = job.get('users', {'w1': 'u1', 'w2': 'u2'})
        self.users = users
        os.makedirs(root + '/srv'); os.makedirs(root + '/wc'); os.makedirs(root + '/srv/r1')
        self.config = make_config(root + '/srv', ['r1'], dict({u: ['r1'] for u in users.values()}, watch=['r1'], stranger=[]))
        self.times, self.clock, self.ids, self.evs = {}, 1200000000, [], []
        self.resorig, self.inside, self.expired = {}, '', False
        self.began, self.old = time.time(), False
        self.server = Server_(self)
    def wc(self, w): return '%s/wc/%s/r1' % (self.root, w)
    def f(self, w, p): return self.wc(w) + self.paths[p]
    def url(self, port=True): return 'http://%s:%d' % tuple(self.server.addr)
    def tid(self, t): return self.times.setdefault(t, len(self.times) + 1)

    # ---- commands
    def start(self, w, argv, answers=None, cwd=None, fault=None):
        """ a command of the client in a process of its own """
        r, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            code = 97
            try:
                os.close(r); self.server.w = None
                out = self.command(argv, answers or {}, cwd or self.wc(w), fault)
                with os.fdopen(wr, 'w') as f: f.write(json.dumps(out))
                code = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally: os._exit(code)
        os.close(wr)
        return pid, r
    def command(self, argv, answers, cwd, fault):
        import builtins, contextlib
        import bversion.client as client
        buf = io.StringIO(); last = [0]; asked = {}
        def answer(prompt=''):
            t = buf.getvalue()[last[0]:] + prompt; last[0] = len(buf.getvalue())
            for key, mark in (('conflict', "'manual'"), ('compare', 'Download server'), ('delete', "'delete'"), ('revert', 'yes / no'), ('user', 'user name'), ('key', 'private key')):
                if mark in t:
                    asked[key] = asked.get(key, 0) + 1
                    if asked[key] > 3 or key not in answers: raise EOFError('question ' + key)
                    return answers[key]
            raise EOFError('unexpected question ' + t[-200:])
        builtins.input = answer
        sys.argv = ['bvn'] + argv
        os.chdir(cwd)
        dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2)
        if fault:
            r = (self.root + '/wc').encode(); kind = fault['kind']
            if kind == 'disk': shim().shim_fault(r, fault['k'], 28)             # one change fails, the disk is full
            elif kind == 'rofs': shim().shim_lasting(r, fault['k'], 30)         # the file system becomes read-only
            elif kind == 'deny': shim().shim_deny(r, os.path.dirname(fault['f']).encode())
            elif kind == 'int': signal.signal(signal.SIGINT, signal.default_int_handler); shim().shim_interrupt(r, fault['k'])     # Control-C
            elif kind in ('diskdb', 'rofsdb'): (shim().shim_fault if kind == 'diskdb' else shim().shim_lasting)(r, fault['k'], 28); shim().shim_dbtoo()     # the databases as well
            else: shim().shim_net(r, fault['k'], 2 if kind == 'drop' else 1)
        k, msg = 'ok', ''
        try:
            with contextlib.redirect_stdout(buf): client.run()
        except SystemExit as e: k, msg = 'exit', str(e.code)
        except BaseException as e: k, msg = 'raised', '%s: %s' % (type(e).__name__, e)
        n = shim().shim_disarm() if fault else 0
        return {'k': k, 'msg': msg[:300], 'out': buf.getvalue(), 'asked': asked, 'points': n}
    def finish(self, pid, r, timeout=40):
        data = b''; end = time.monotonic() + timeout; hang = False
        while True:
            if not select.select([r], [], [], max(0, end - time.monotonic()))[0]:
                hang = True; os.kill(pid, signal.SIGKILL); break
            d = os.read(r, 1 << 16)
            if d == b'': break
            data += d
        os.close(r)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        base = {'k': 'crash', 'msg': '', 'out': '', 'asked': {}, 'points': 0}
        if hang: return dict(base, k='hang')
        if code == 0: return json.loads(data)
        if code == 99: return base
        if code == 97: raise RuntimeError('command process failed')
        return dict(base, k='raised', msg='the process ended with %s' % code)
    def cmd(self, w, argv, answers=None, cwd=None, fault=None, hold=None):
        pid, r = self.start(w, argv, answers, cwd, fault)
        held = False
        if hold:
            got = select.select([self.server.held, r], [], [], 40)[0]
            if self.server.held in got:
                os.read(self.server.held, 1); held = True
                try: hold()
                finally: self.server.call('go')
            else: self.server.call('go')
        x = self.finish(pid, r); x['held'] = held
        return x

    # ---- what there is
    def look(self, w, bytes_=True):
        o = self.server.call('look', known=self.ids, held=1 if self.inside else 0); self.ids = o.pop('ids')
        for v in o['newv']:
            for k in ('tree', 'chg'): v[k] = sorted([self.rpaths.get(e[0], '?' + e[0])] + e[1:] for e in v[k])
        o['w'] = self.look_wc(w)
        return o
    def configured(self, w):
        try: return set(json.load(open(self.wc(w) + '/.bvn/client_configuration.json'))) >= {'server_domain', 'repository', 'user', 'private_key'}
        except (OSError, ValueError): return False
    def look_wc(self, w):
        o = {'on': False, 'legacy': False, 'disk': [], 'man': [], 'rev': 0, 'ign': [], 'pign': [], 'status': [], 'stray': [], 'res': '', 'choices': [], 'cmp': [], 'err': ''}
        d = self.wc(w)
        if not os.path.isdir(d) or not self.configured(w): return o
        o['on'] = True
        st = self.cmd(w, ['status'])
        if st['k'] != 'ok': o['err'] = 'status: %s %s' % (st['k'], st['msg'])
        for l in st['out'].split('\n'):
            m = re.match(r'^(?:\x1b\[\d+m)*(\w+) : (.*?)(?:\x1b\[0m)*$', l)
            if m: o['status'].append([self.rpaths.get(m[2], '?' + m[2]), m[1]])
        try:
            con = sqlite3.connect('file:%s/.bvn/manifest.db?mode=ro' % d, uri=True)
            if os.path.exists(d + '/.bvn/manifest.json'):
                o['legacy'] = True; j = json.load(open(d + '/.bvn/manifest.json'))
                o['man'] = [[self.rpaths.get(p, '?' + p), '-', self.tid(float(f['last_mod']))] for p, f in j['files'].items()]
                o['rev'] = 0 if j['have_revision'] == 'root' else self.ids.index(j['have_revision']) + 1
            else: o['legacy'] = False
            for p, lm, h in [] if o['legacy'] else con.execute('select path, last_mod, server_file_hash from files'):
                o['man'].append([self.rpaths.get(p, '?' + p), self.names.get(h, '?' + str(h)[:8]), self.tid(float(lm))])
            rev = con.execute('select have_revision from meta').fetchall()
            if not o['legacy']: o['rev'] = 0 if rev == [('root',)] else self.ids.index(rev[0][0]) + 1 if len(rev) == 1 and rev[0][0] in self.ids else 99
            if con.execute('select count(*) from journal').fetchone()[0]: o['err'] = o['err'] or 'journal left'
            con.close()
        except (sqlite3.Error, ValueError) as e: o['err'] = o['err'] or repr(e)
        for base, ds, fs in os.walk(d):
            if base == d: ds.remove('.bvn') if '.bvn' in ds else 0
            for fn in fs:
                p = os.path.join(base, fn); rel = p[len(d):]
                if rel == '/.bvn_pull_ignore': continue
                if rel not in self.rpaths: o['stray'].append(rel); continue
                with open(p, 'rb') as f: x = sha(f.read())
                x = self.names.get(x, '?' + x[:8])
                o['disk'].append([self.rpaths[rel], x, self.tid(os.path.getmtime(p))])
        for e in o['disk']:
            if e[0] == 'I': o['ign'] = [p for p in SUB['I'].get(e[1], '')]
        o['pign'] = self.rules(w)
        rf = d + '/.bvn/conflict_resolution'
        if os.path.exists(rf):
            with open(rf, 'rb') as f: t = f.read().decode('utf8', 'replace')
            o['choices'] = [[self.rpaths.get(p, '?' + p), c.strip().lower() or '-'] for p, c in re.findall(r'^Path:[ ]*(.*)\n.*\nResolution:(.*)$', t, re.M)]
            o['res'] = 'file'
        cf = d + '/.bvn/conflict_files'
        if o['res']:
            for base, ds, fs in os.walk(cf):
                for fn in fs:
                    p = os.path.join(base, fn)
                    with open(p, 'rb') as f: o['cmp'].append([self.rpaths.get(p[len(cf):], '?' + p[len(cf):]), self.names.get(sha(f.read()), '?')])
        for k in o:
            if isinstance(o[k], list): o[k].sort()
        return o
    def hit(self, pat): return {k for k, p in self.paths.items() if k in self.P + ['I'] and fnmatch.fnmatchcase(p, pat)}
    def filters(self, ps, seed=0):
        """ filter lines which match a set of paths """
        rnd = random.Random(seed); out = []; left = sorted(ps)
        while left:
            p = self.paths[left[0]]; c = [esc(p)]
            if rnd.random() < .7: c += [esc(p[:k]) + '*' + esc(p[j:]) for k in range(len(p)) for j in range(max(k, len(p) - 2), len(p) + 1)] + [esc(p[:-1]) + '?', esc(os.path.dirname(p)) + '/*']
            f = rnd.choice([x for x in c if self.hit(x) <= set(ps) and left[0] in self.hit(x)]); out.append(f)
            left = [q for q in left if q not in self.hit(f)]
        return out
    def rules(self, w):
        f = self.wc(w) + '/.bvn_pull_ignore'
        if not os.path.exists(f): return []
        out = set()
        for l in open(f, encoding='utf8').read().split('\n'):
            if l and not l.startswith(('/none/', '/.none*')): out |= self.hit(l) or {'?' + l}
        return sorted(out)

    # ---- operations
    def event(self, op, **kw):
        e = {'op': op['op'], 'w': op.get('w', ''), 'k': 'ok', 'fault': False, 'p': op.get('p', ''), 'x': op.get('x', ''), 'ps': op.get('ps', []), 'ans': op.get('ans', ''),
             'full': bool(op.get('full')), 'v': op.get('v', 0), 'rep': [], 'asked': False, 'dl': [], 'ul': [], 'mods': [], 'n': len(self.ids), 'how': op.get('how', ''),
             'cfg': True, 'msg': '', 'at': '', 'ls': [], 'lv': 0, 'old': self.old, 'by': self.users.get(op.get('w'), ''), 'cm': op.get('msg', '')}
        e.update(kw); return e
    def emit(self, e, obs): self.evs.append(dict(e, obs=obs))
    def tick(self): self.clock += 7; return self.clock
    def write(self, f, data, back=False):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as h: h.write(data)
        t = self.tick(); t = t - 500000000 + .25 if back else t
        os.utime(f, (t, t))
    def blocked(self, w, p):
        """ the user can not have this file (a directory is a file or the reverse) """
        f = self.f(w, p)
        if os.path.isdir(f): return True
        d = os.path.dirname(f)
        while d != self.wc(w):
            if os.path.isfile(d): return True
            d = os.path.dirname(d)
        return False
    def result(self, e, x, fault):
        e['k'] = {'ok': 'ok', 'exit': 'fail', 'raised': 'fail', 'crash': 'crash', 'hang': 'hang'}[x['k']]
        e['msg'] = ('raised ' if x['k'] == 'raised' else '') + x['msg'].encode('ascii', 'replace').decode()[:200]
        e['fault'] = bool(fault) or self.expired; e['points'] = x['points']
        self.log(e)
        return e
    def log(self, e):
        for act, p in self.server.call('log'):
            if act == 'pull_file': e['dl'].append(self.rpaths.get(p, '?' + p))
            if act == 'push_file': e['ul'].append(self.rpaths.get(p, '?' + p))
    def do(self, op, fault=None):
        """ one operation: appends its event(s) """
        k, w = op['op'], op.get('w'); e = self.event(op); self.server.call('log'); before, self.expired = self.expired, False
        e['at'] = self.inside
        if k in ('edit', 'rm', 'touch', 'pign', 'resfile', 'legacy'):
            self.expired = before
            if self.user(op, w): self.emit(e, self.look(w))
            return e
        if k == 'restart':
            self.server.kill(); self.server = Server_(self); self.old = False
            self.repoint(); self.expired = before
            return e
        if k == 'srvver':
            self.server.call('version', d=op['d']); self.old = op['d'] < 0; self.expired = before
            return e
        if k == 'finish':                                       # a checkout which was interrupted: goes on as update, or starts over
            self.expired = before
            if not os.path.isdir(self.wc(w)): return self.do(dict(op, op='checkout', how='ok'))
            if self.configured(w): return self.do(dict(op, op='update', ans='', full=False))
            shutil.rmtree(self.wc(w)); self.emit(self.event(dict(op, op='discard')), self.look(w))
            return self.do(dict(op, op='checkout', how='ok'))
        hold = None
        if op.get('during'):
            du = op['during']; self.server.call('hold', act=du['at'], n=du.get('n', 1))
            def hold():
                self.log(e); self.inside = k
                for o in du['ops']:
                    if o['op'] in ('edit', 'touch', 'rm') and o['w'] == w:
                        if not self.blocked(o['w'], o['p']) and os.path.exists(self.f(o['w'], o['p'])) and self.user(o, o['w']): e['mods'].append([o['p'], o.get('x') or '-'])
                    elif o['op'] == 'expire': self.server.call('expire'); self.expired = k != 'commit'   # a commit goes on
                    else: self.do(o)
                self.inside = ''
        hidden = None
        if fault and fault['kind'] == 'missing':
            h = sha(self.cont[fault['x']]); hidden = '%s/srv/r1/files/%s/%s' % (self.root, h[:2], h[2:])
            if os.path.exists(hidden): os.rename(hidden, hidden + '.away')
            else: hidden = None
        pf = fault if fault and fault['kind'] in ('kill', 'drop', 'disk', 'rofs', 'deny', 'diskdb', 'rofsdb', 'int') else None
        if pf and pf['kind'] == 'deny': pf = dict(pf, f=self.f(w, pf['p']))
        try:
            if k == 'checkout': self.checkout(op, e, pf)
            else:
                argv, answers, cwd = self.argv(op)
                x = self.cmd(w, argv, answers, cwd, pf, hold)
                self.result(e, x, fault)
                self.read(op, e, x)
        finally:
            if hidden: os.rename(hidden + '.away', hidden)
        for o in op.get('after', []) if e['k'] != 'ok' else []:           # what the user does before any other command
            if o['p'] not in [m[0] for m in e['mods']] and self.user(o, w): e['mods'].append([o['p'], o['x']])
        self.expired = before
        self.emit(e, self.look(w))
        return e
    def user(self, op, w):
        """ what a user does in a working copy; False if it makes no sense there """
        k, p = op['op'], op.get('p'); f = self.f(w, p) if p else None
        if not os.path.isdir(self.wc(w)): return False
        if k == 'edit':
            if self.blocked(w, p): return False
            self.write(f, self.cont[op['x']], op.get('back'))
        elif k == 'touch':
            if not os.path.isfile(f): return False
            t = self.tick(); os.utime(f, (t, t))
        elif k == 'rm':
            if not os.path.isfile(f): return False
            os.remove(f)
            if op.get('dirs', True):
                try: os.removedirs(os.path.dirname(f))
                except OSError: pass
        elif k == 'pign':
            t = self.filters(op['ps'], op.get('seed', 0)); rf = self.wc(w) + '/.bvn_pull_ignore'
            if not t and os.path.exists(rf) and op.get('gone'): os.remove(rf)
            else:
                rnd = random.Random(op.get('seed', 0)); out = '\n'.join(rnd.choice([[], [], ['/none/%d' % k for k in range(20)], [''], ['/.none*', '', '']]) + t)
                with open(rf, 'w', encoding='utf8') as h: h.write(out + rnd.choice(['\n', '\n', '', '\n\n']))
        elif k == 'legacy': return self.legacy(op, w)
        elif k == 'resfile':
            return self.resfile(op, w)
        return True
    def legacy(self, op, w):
        """ what the client before this one would have left: a manifest without hashes, and no database """
        b = self.wc(w) + '/.bvn/'; rnd = random.Random(op.get('seed', 0))
        if os.path.exists(b + 'manifest.json'): return False
        con = sqlite3.connect(b + 'manifest.db')
        rows = con.execute('select path, last_mod, created from files').fetchall(); rev = con.execute('select have_revision from meta').fetchall()[0][0]; con.close()
        fs = {p: {'path': p, 'created': float(c), 'last_mod': float(m)} for p, m, c in rnd.sample(rows, len(rows))}
        with open(b + 'manifest.json', 'w') as f: json.dump({'format_version': 2, 'have_revision': rev, 'files': fs}, f, indent=rnd.choice([None, 4]))
        for n in os.listdir(b):
            if n.startswith('manifest.db'): os.remove(b + n)
        return True
    def resfile(self, op, w):
        """ the user fills in the resolution file """
        rf = self.wc(w) + '/.bvn/conflict_resolution'
        if not os.path.exists(rf): return False
        how = op.get('how', 'set'); rnd = random.Random(op.get('seed', 0))
        t = open(rf, encoding='utf8').read(); n = [0]
        if re.search(r'^Path:', t, re.M) and not re.search(r'^Resolution:[ ]*[^ \n]', t, re.M): self.resorig[w] = t    # as written by update
        t = self.resorig.get(w, t)
        paths = [self.rpaths.get(p, '?') for p in re.findall(r'^Path:[ ]*(.*)$', t, re.M)]
        def put(m):
            n[0] += 1; c = (paths[n[0] - 1] in op['ps'] and 'server' or 'client') if how == 'set' else rnd.choice(['client', 'server']) if how in ('mixed', 'drop', 'extra', 'word', 'dup') else how
            return m[0].rstrip(' ') + rnd.choice([' ', '  ', '']) + (c if rnd.random() < .7 else c.upper())
        t = re.sub(r'^Resolution:.*$', put, t, flags=re.M)
        parts = t.split('------------\n')
        if how == 'drop' and len(parts) > 1: del parts[1 + rnd.randrange(len(parts) - 1)]
        if how == 'extra': parts.append('Path:  /not/here\nClient Changed server Changed\nResolution: client\n\n')
        if how == 'word' and len(parts) > 1: parts[-1] = re.sub(r'Resolution:.*', 'Resolution: both', parts[-1])
        t = '------------\n'.join(parts)
        if how == 'empty': t = parts[0]
        with open(rf, 'w', encoding='utf8') as f: f.write(t)
        return True
    def argv(self, op):
        argv, answers, cwd = self.argv1(op)
        spell = lambda s: (s, s, s.upper(), s.capitalize(), s[:-1] + s[-1].upper())[op.get('seed', 0) % 5]   # answers count in any case
        return argv, {q: spell(a) for q, a in answers.items()}, cwd
    def given(self, op):
        """ filters on the command line, and the directory where it is given """
        pats = self.filters(op['ps'], op.get('seed', 0)); d = self.paths['D']; n = len(esc(d)) + 1
        if not op.get('sub'): return pats, None
        inside = [p.startswith(esc(d) + '/') and p[n] != '*' for p in pats]
        if all(inside) or (any(inside) and op.get('seed', 0) % 2): cwd = self.wc(op['w']) + d
        else: inside = [p[0] == '/' and p[1] != '*' for p in pats]; cwd = None; n = 1
        if cwd and not os.path.isdir(cwd): return pats, None
        return [p[n:] if i else p for p, i in zip(pats, inside)], cwd
    def argv1(self, op):
        k = op['op']
        if k == 'update': return ['update'] + (['-f'] if op.get('full') else []), {'conflict': op.get('ans', 'client'), 'compare': op.get('compare', 'y')} if op.get('ans') else {}, None
        if k == 'commit': return ['commit'] + (['-m', op['msg']] if op.get('msg') else []), {}, None
        if k == 'revert':
            ps = op['ps']; pats, cwd = self.given(op)
            if op.get('full'): pats, cwd = ['--all'], None
            elif ps == sorted(p for p in self.P): pats = ['*'] if not op.get('sub') else ['/*']
            v = ['-h'] if op.get('v') == -1 else ['--v', self.ids[op['v'] - 1] if op['v'] <= len(self.ids) else 'f' * 64] if op.get('v') else []
            return ['revert'] + v + pats, {'revert': op.get('ans') or 'yes'}, cwd
        if k == 'pullignore':
            pats, cwd = self.given(op)
            return ['pull-ignore'] + (['-f'] if op.get('full') else []) + pats, {'delete': op.get('ans') or 'nothing'}, cwd
        if k == 'lists':
            v = ['-h'] if op.get('v') == -1 else ['--v', self.ids[op['v'] - 1] if op['v'] <= len(self.ids) else 'f' * 64] if op.get('v') else []
            if op.get('ans') == 'bad': v = [['-h', '--v', self.ids[-1] if self.ids else 'f' * 64], ['--v', self.ids[0] if self.ids else 'f' * 64, '-h'], ['--v'], ['--v', self.ids[-1][:-1] if self.ids else 'f']][op.get('seed', 0) % 4]
            i = v + ['-i'] if op.get('seed', 0) % 2 else ['-i'] + v
            d = self.wc(op['w']) + self.paths['D']; cwd = d if op.get('sub') and os.path.isdir(d) else None
            return {'files': ['list-files'] + v, 'pulled': ['list-files'] + i, 'changes': ['list-changes'] + v, 'versions': ['list-versions'], 'ignored': ['list-ignored-files']}[op['how']], {}, cwd
        raise KeyError(k)
    def read(self, op, e, x):
        if op['op'] == 'update':
            e['asked'] = bool(x['asked'].get('conflict'))
            e['rep'] = [[self.rpaths.get(p, '?' + p), c, s] for p, c, s in re.findall(r'^Path:  (.*)\nClient (\w+) server (\w+)$', x['out'], re.M)]
        if op['op'] == 'commit' and e['k'] == 'ok':
            if 'Nothing to commit' in x['out']: e['how'] = 'nothing'
            elif 'Commit ok' in x['out']: e['how'] = 'committed'
            else: e['k'] = 'fail'; e['msg'] = 'no success reported'
        if op.get('v') == -1: e['v'] = e['n']
        if op['op'] == 'lists' and e['k'] == 'ok':
            e['ls'] = self.lists(op['how'], x['out'])
            m = re.search(r'^(?:\x1b\[\d*m)*(?:All files in|Changes made in) version: ([0-9a-z]*)', x['out'], re.M)
            e['lv'] = self.ids.index(m[1]) + 1 if m and m[1] in self.ids else 0
    def lists(self, how, out):
        """ what a listing command printed """
        name = lambda p: self.rpaths.get(p, '?' + p)
        ls = [re.sub(r'\x1b\[\d*m', '', l) for l in out.split('\n')]
        if how == 'ignored': return [[name(l)] for l in ls if l and l != '/.bvn_pull_ignore' and not l.startswith('/.bvn/')]
        if how in ('files', 'pulled'): return [[name(l)] for l in ls if l.startswith('/')]
        if how == 'changes': return [[name(m[2]), m[1]] for m in (re.match(r'^(new|changed|deleted) : (.*)$', l) for l in ls) if m]
        r = []
        last = self.began - 2
        for m in re.finditer(r'^Commit:  (.*)\nDate:    (.*?)\s*\(UTC\) \nBy user: (.*)\n\n((?:.|\n)*?)\n\n(?=Commit:  [0-9a-f]{64}\n|\Z)', '\n'.join(ls).rstrip('\n') + '\n\n', re.M):
            try: at = datetime.datetime.strptime(m[2], '%d-%m-%Y %H:%M:%S:%f').replace(tzinfo=datetime.timezone.utc).timestamp()
            except ValueError: at = 0
            ok = last <= at < time.time() + 2; last = at              # when it was committed
            r.append([self.ids.index(m[1]) + 1 if m[1] in self.ids else 0, m[3] if ok else '?date ' + m[2], '' if m[4].startswith('(Generated message)') else m[4]])
        return r
    def repoint(self):
        """ the server has a new address """
        for w in self.users:
            f = self.wc(w) + '/.bvn/client_configuration.json'
            if os.path.exists(f):
                c = json.load(open(f)); c['server_domain'] = self.url(); json.dump(c, open(f, 'w'))
    def key(self, user):
        import base64
        return base64.b64encode(b'n' + keypair(user)[1]).decode()
    def checkout(self, op, e, fault):
        w, how = op['w'], op.get('how', 'ok'); d = '%s/wc/%s' % (self.root, w); os.makedirs(d, exist_ok=True)
        user = self.users[w]; key = self.key(user); url = self.url() + '/r1'
        tree = lambda: sorted((b[len(d):], tuple(sorted(ds)), tuple((f, open(os.path.join(b, f), 'rb').read()) for f in sorted(fs))) for b, ds, fs in os.walk(d))
        if how == 'wrongkey': key = self.key('other')
        elif how == 'wronguser': user = 'nobody'
        elif how == 'stranger': user = 'stranger'; key = self.key(user)
        elif how == 'norepo': url = self.url() + '/r9'
        elif how == 'badurl': url = random.Random(op.get('seed', 0)).choice(['r1', self.url() + '/r1/x', self.url() + '/', 'ftp' + url[4:], 'http:///r1', self.url().split('//')[1] + '/r1'])
        elif how == 'nouser': user = ' '
        elif how == 'nokey': key = ''
        elif how == 'slash': url = self.url() + '//r1/'; how = 'ok'
        elif how == 'spaces': user, key, how = ' ' + user + '\t', '  ' + key + ' ', 'ok'
        if how == 'exists':
            os.makedirs(self.wc(w), exist_ok=True); made = not os.listdir(self.wc(w))
        e['how'] = how
        before = tree() if how != 'ok' else None
        x = self.cmd(w, ['checkout', url], {'user': user, 'key': key}, d, fault)
        self.result(e, x, fault)
        if how != 'ok':
            e['cfg'] = tree() == before
            if how == 'exists' and made and e['cfg']: os.rmdir(self.wc(w))
        else:
            try: c = json.load(open(self.wc(w) + '/.bvn/client_configuration.json'))
            except (OSError, ValueError): c = {}
            e['cfg'] = c == {'server_domain': self.url(), 'repository': 'r1', 'user': self.users[w], 'private_key': self.key(self.users[w])}

    # ---- snapshots
    def snapshot(self, full):
        d = self.root + '.snap'; shutil.rmtree(d, ignore_errors=True)
        if full: self.server.kill()
        shutil.copytree(self.root if full else self.root + '/wc', d, symlinks=True)
        if full: self.server = Server_(self); self.repoint()
        return (full, list(self.ids), len(self.evs), self.clock)
    def restore(self, s):
        full, self.ids, n, self.clock = s[0], list(s[1]), s[2], s[3]
        del self.evs[n:]
        d = self.root + '.snap'
        if full:
            self.server.kill(); shutil.rmtree(self.root); shutil.copytree(d, self.root, symlinks=True)
            self.server = Server_(self); self.repoint()
        else: shutil.rmtree(self.root + '/wc'); shutil.copytree(d, self.root + '/wc', symlinks=True); self.repoint()
    def trace(self, id):
        up = [[a, b] for a in self.P for b in self.P if self.paths[b].startswith(self.paths[a] + '/')]
        return {'id': id, 'paths': self.P, 'ws': sorted(self.users), 'up': up, 'ev': [dict(x) for x in self.evs]}

def run(job, d):
    import bversion.client        # once, not in every process
    root = d + '/r'; os.makedirs(root)
    r = Run(job, root); out = []
    try:
        at = job.get('at')
        for i, op in enumerate(job['ops']):
            if at is not None and i == at: break
            f = job.get('faults', {}).get(str(i))
            e = r.do(op, f)
            for _ in range(job.get('again', 0) if f and e['k'] != 'ok' else 0): r.do(op)
        if at is not None: out = points(job, r)
        else: out.append(r.trace(job['id']))
    finally:
        r.server.kill(); shutil.rmtree(root + '.snap', ignore_errors=True)
    return out

def points(job, r):
    """ operation job['at'] without a fault, and with one at every point (at most maxk), each followed by the command again and the rest """
    at, op, rnd, out = job['at'], job['ops'][job['at']], random.Random('%s' % job['id']), []
    full = op['op'] == 'commit' or bool(job.get('rest')); kind = job.get('kind', 'kill')
    s = r.snapshot(full)
    e = r.do(op, {'kind': kind, 'k': 1 << 30}); n = e['points']
    for o in job['ops'][at + 1:] if full else []: r.do(o)
    out.append(r.trace('%s.base' % job['id']))
    ks = list(range(1, n + 1))
    if job.get('late'): ks = ks[len(ks) // 2:]
    if job.get('last'): ks = ks[-job['maxk']:]
    if len(ks) > job['maxk']: ks = sorted(rnd.sample(ks, job['maxk']))
    for k in ks:
        if late(): break
        r.restore(s)
        e = r.do(dict(op, after=[{'op': 'edit', 'w': op['w'], 'p': p, 'x': rnd.choice(['i1', 'i2', 'i3'] if p == 'I' else 'xyz')} for p in [rnd.choice(r.P), rnd.choice(r.P)]]) if rnd.random() < job.get('after', 0) else op, {'kind': kind, 'k': k})
        if job.get('restart'): r.do({'op': 'restart'})
        for o in job.get('between', []): r.do(o)
        if rnd.random() < job.get('recrash', 0): r.do(op, {'kind': kind, 'k': rnd.randint(1, max(1, n))})
        r.do(dict(op, op='finish') if op['op'] == 'checkout' else op)
        for o in job['ops'][at + 1:] if full and rnd.random() < .4 else []: r.do(o)
        out.append(r.trace('%s.%d' % (job['id'], k)))
    return out
