"""driver: several processes of the real client on the same working copies, stopped in the middle of their work"""
import os, sys, json, time, random, signal, select, hashlib, shutil
import d_sync
from srv import shim

class Run(d_sync.Run):
    def command(self, argv, answers, cwd, fault):
        if fault and 'stop' in fault: shim().shim_stop((fault['root']).encode(), fault['stop'])
        return d_sync.Run.command(self, argv, answers, cwd, None)
    def begin(self, w, argv, answers, cwd, k):
        """ start a process which is to stop at its k-th step; ('held', proc) or ('done', result) """
        pid, r = self.start(w, argv, answers, cwd, {'stop': k, 'root': self.root + '/wc'} if k else None)
        end = time.monotonic() + 40
        while True:
            if k:
                got, st = os.waitpid(pid, os.WUNTRACED | os.WNOHANG)
                if got and os.WIFSTOPPED(st): return 'held', (pid, r)
                if got: return 'done', self.collect(r, st)
            elif select.select([r], [], [], 1)[0]: return 'done', self.finish(pid, r)
            if time.monotonic() > end:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
                return 'done', {'k': 'hang', 'msg': '', 'out': ''}
            time.sleep(.001)
    def collect(self, r, st):
        data = b''
        while True:
            d = os.read(r, 1 << 16)
            if d == b'': break
            data += d
        os.close(r)
        if os.waitstatus_to_exitcode(st) == 0: return json.loads(data)
        return {'k': 'raised', 'msg': 'the process ended with %s' % os.waitstatus_to_exitcode(st), 'out': ''}
    def tree(self, w):
        r = {}
        for b, ds, fs in os.walk(self.wc(w)):
            r[b] = 'dir'
            for f in fs:
                if not (b.endswith('/.bvn') and 'lock' in f):
                    with open(os.path.join(b, f), 'rb') as h: r[os.path.join(b, f)] = (hashlib.sha256(h.read()).hexdigest(), os.stat(os.path.join(b, f)).st_mtime_ns)
        return r
    def auths(self):
        for act, p in self.server.call('log'): self.nauth += act == 'begin_auth'
        return self.nauth

CMDS = {'status': (['status'], {}, False), 'update': (['update'], {'conflict': 'server', 'compare': 'y'}, True), 'full': (['update', '-f'], {'conflict': 'server', 'compare': 'y'}, True), 'commit': (['commit', '-m', 'm'], {}, True),
        'versions': (['list-versions'], {}, True), 'ignored': (['list-ignored-files'], {}, False), 'files': (['list-files'], {}, True), 'changes': (['list-changes'], {}, True),
        'revert': (['revert', '*'], {'revert': 'yes'}, True), 'pullignore': (['pull-ignore', '-f', '/nothing/*'], {'delete': 'nothing'}, True)}
def run(job, d):
    root = d + '/r'; os.makedirs(root)
    r = Run(dict(job, paths=['a', 'b', 'c'], contents=['x', 'y', 'z', 'i1', 'i2', 'i3', 'e']), root); rnd = random.Random('%s' % job['id']); ev = []; busy = {}
    r.nauth = 0
    E = lambda **kw: ev.append(dict({'op': '', 'p': '', 'w': '', 'cmd': '', 'k': '', 'ok': False, 'went': False, 'changed': '', 'hang': False, 'net': False, 'msg': '', 'auths': 0}, **kw))
    try:
        for w in ('w1', 'w2'): r.do({'op': 'checkout', 'w': w, 'how': 'ok', 'seed': 1})
        for p in 'abc': r.do({'op': 'edit', 'w': 'w1', 'p': p, 'x': 'x'})
        r.do({'op': 'commit', 'w': 'w1', 'msg': 'm'}); r.do({'op': 'update', 'w': 'w2'})
        r.server.call('log')
        for op, p, w in job['ops']:
            if op == 'start' and p not in busy:
                held = any(b[1] == w for b in busy.values())
                cmd = rnd.choice(['update', 'update', 'commit', 'commit', 'full', 'status', 'revert', 'versions', 'pullignore', 'ignored', 'files', 'changes'] if not held else sorted(CMDS))
                argv, ans, net = CMDS[cmd]; cwd = r.wc(w); before = None
                if not held:
                    if all(b[1] != w for b in busy.values()) and rnd.random() < .8:
                        for _ in range(2): r.user({'op': 'edit', 'p': rnd.choice('abc'), 'x': rnd.choice('xyz')}, w)
                else: before = r.tree(w)
                if rnd.random() < .25 and os.path.isdir(cwd + '/d'): cwd += '/d'
                elif rnd.random() < .2:
                    l = root + '/wc/link_' + w
                    if not os.path.islink(l): os.symlink(r.wc(w), l)
                    cwd = l
                n0 = r.auths()
                k, x = r.begin(w, argv, ans, cwd, rnd.randint(1, job.get('maxstep', 30)) if job.get('stop', True) and (not held or rnd.random() < .4) else 0)
                after = r.tree(w) if before is not None else None
                diff = '' if before == after else ','.join(sorted(f[len(r.wc(w)):] for f in set(before) | set(after) if before.get(f) != after.get(f)))[:200] or '?'
                if k == 'held':
                    busy[p] = (x, w, cmd)
                    E(op='start', p=p, w=w, cmd=cmd, k='held', net=net, changed=diff)
                else:
                    went = x['out'].strip() != '' if held else r.auths() > n0
                    E(op='start', p=p, w=w, cmd=cmd, k='done', ok=x['k'] == 'ok', went=went, net=net, changed=diff, hang=x['k'] == 'hang', msg=x['msg'][:200].encode('ascii', 'replace').decode())
            elif op != 'start' and p in busy:
                (pid, fd), w, cmd = busy.pop(p)
                if op == 'kill': os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd); E(op='end', p=p, cmd=cmd, k='kill', ok=True)
                else:
                    os.kill(pid, signal.SIGCONT)
                    if op == 'lose': os.kill(pid, signal.SIGTERM if rnd.random() < .5 else signal.SIGINT)
                    x = r.finish(pid, fd)
                    fine = x['k'] in ('ok', 'exit') if cmd == 'commit' else x['k'] == 'ok'
                    E(op='end', p=p, cmd=cmd, k=op, ok=fine, hang=x['k'] == 'hang', msg=x['msg'][:200].encode('ascii', 'replace').decode())
            else: continue
        for p in sorted(busy):
            (pid, fd), w, cmd = busy[p]
            os.kill(pid, signal.SIGCONT); x = r.finish(pid, fd); E(op='end', p=p, cmd=cmd, k='rest', hang=x['k'] == 'hang')
        busy = {}
        n = r.auths(); msg = ''
        for w in ('w1', 'w2'):
            x = r.cmd(w, ['update'], {'conflict': 'server', 'compare': 'y'})
            x = r.cmd(w, ['status'])
            if x['k'] != 'ok': msg = 'status: ' + x['msg'][:200]
        E(op='final', auths=n, msg=msg)
    finally:
        for (pid, fd), *_ in busy.values():
            try: os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
            except OSError: pass
        r.server.kill()
    return {'id': job['id'], 'ev': ev}
