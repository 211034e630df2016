"""Backup and restore of real repositories with the real repo_manager against a stand-in for the remote store"""
import os, sys, json, random, signal, shutil
import srv, fakes3
from srv import sha
SECRET = b'SECRETCONTENT'
def ascii_(x): return str(x).encode('ascii', 'backslashreplace').decode()[:250]

def in_child(f, limit=60):
    """ (exit code, what f returns) of a child process """
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.close(r); signal.alarm(limit)
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
            if not os.environ.get('BVN_DEBUG'): os.dup2(dn, 2)
            res = f(); os.write(w, json.dumps(res).encode()); code = 0
        except BaseException as x:
            if os.environ.get('BVN_DEBUG'): import traceback; traceback.print_exc()
            os.write(w, json.dumps('%s: %s' % (type(x).__name__, x)).encode())
        finally: os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f2: d = f2.read()
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    return code, (json.loads(d) if d else None)

class Life:
    def __init__(self, job, base):
        self.job, self.base, self.rnd = job, base, random.Random(job['seed'])
        self.paths = {r: os.path.join(base, 'srv', r) for r in ('r', 'r2')}
        for p in self.paths.values(): os.makedirs(p)
        self.remote = os.path.join(base, 'remote')
        self.tree = {r: {} for r in self.paths}; self.heads = {r: [] for r in self.paths}
        self.names, self.contents, self.ev = {}, [], []
        self.override = job['override']; self.chunk = job['chunk']; self.least = min(job['chunk'], job['chunk2']); self.password = 'backup password \u00fc'
    def config(self, suffix=''):
        c = srv.make_config('', ['r', 'r2'], {'u': ['r', 'r2']})
        for r, p in self.paths.items():
            c['repositories'][r] = {'path': p + suffix, 'backup': r in self.job['backed']}
            if self.override and not suffix: c['repositories'][r]['transient_db_path_override'] = os.path.join(self.base, r + '_transient.db')
        return c
    def manager_config(self):
        c = self.config(); return {'repositories': c['repositories'], 'users': c['users'], 's3': {'access_key': 'a', 'secret_key': 's', 'bucket': 'b', 'endpoint': 'http://x'}, 'crypto': {'crypt_password': self.password}, 'chunk_size': self.chunk}
    def content(self):
        S = self.job['chunk']; n = self.rnd.choice([1, 2, S - 1, S, S + 1, 2 * S - 1, 2 * S, 2 * S + 1, 3 * S, 4 * S + S // 2, S // 2, 30, 100, 6, 6, 10, 20])
        n = max(1, min(n, 200000, 2000 * self.least)); k = len(self.contents)
        b = (SECRET + b' %d %d ' % (k, self.job['seed']) + self.rnd.randbytes(min(n, 1000)) * (n // 1000 + 1))
        b = b[:n] if n > 40 else self.rnd.randbytes(n)
        self.contents.append(b); self.names.setdefault(sha(b), 'c%d' % k); return b
    # --- what is committed
    def plan(self, repo, kind):
        t, rnd = self.tree[repo], self.rnd; new, gone = {}, []
        p = lambda: '/' + rnd.choice(['', 'SECRETDIR/', 'SECRETDIR/e/', 'x/y/z/', '\u00fc/', 'd/']) + 'SECRETNAME%d' % rnd.randint(0, 12)
        if kind == 'new': new[p()] = self.content()
        elif kind == 'deep': new['/a' * rnd.randint(3, 12) + '/SECRETNAME'] = self.content(); new[p()] = self.content()
        elif kind == 'change' and t: new[rnd.choice(sorted(t))] = self.content()
        elif kind == 'delete' and t: gone = rnd.sample(sorted(t), rnd.randint(1, min(2, len(t))))
        elif kind == 'same' and t: q = rnd.choice(sorted(t)); new[q] = t[q]
        elif kind == 'copy' and self.contents: new[p()] = rnd.choice(self.contents)
        elif kind == 'empty': new[p()] = b''; self.names[sha(b'')] = 'empty'
        elif kind == 'onlyempty': gone = sorted(t); new['/SECRETDIR/only/empty'] = b''; self.names[sha(b'')] = 'empty'
        else: new[p()] = self.content()
        # a file can not be where a directory is
        def clash(a, b): return a.startswith(b + '/') or b.startswith(a + '/')
        gone = sorted(set(gone) | {q for q in t for n in new if clash(q, n)})
        return new, [g for g in gone if g not in new]
    def do_commit(self, repo, kind, abort=False):
        new, gone = self.plan(repo, kind)
        def go():
            import bversion.server as server
            c = self.config(); server.init_server(c); x = srv.InProc(); tok = srv.login(x, repo, 'u')
            h = {'session_token': tok, 'repository': repo}
            head = self.heads[repo][-1] if self.heads[repo] else 'root'
            r = x.request('begin_commit', dict(h, previous_revision=head))[1]
            if r['status'] != 'ok': return 'begin ' + str(r)
            for p, b in new.items():
                r = x.request('push_file', dict(h, path=p), b)[1]
                if r['status'] != 'ok': return 'push ' + str(r)
            if gone:
                r = x.request('delete_files', h, json.dumps({'files': json.dumps([{'path': g} for g in gone])}).encode())[1]
                if r['status'] != 'ok': return 'delete ' + str(r)
            r = x.request('commit', dict(h, mode='abort' if abort else 'commit', commit_message='SECRETMESSAGE'))[1]
            if r['status'] != 'ok': return 'commit ' + str(r)
            return ['' if abort else r['head']]
        code, res = in_child(go)
        if abort: return
        e = {'op': 'commit', 'repo': repo, 'r': 'ok', 'info': '', 'tree': []}
        if isinstance(res, list):
            t = dict(self.tree[repo])
            for g in gone: t.pop(g, None)
            t.update(new); self.tree[repo] = t; self.heads[repo].append(res[0])
        else: e['r'] = 'error'; e['info'] = ascii_(res)
        e['tree'] = [[ascii_(p), self.names[sha(b)]] for p, b in sorted(self.tree[repo].items())]
        self.ev.append(e)
    def attempt(self, what, plan, hook=None):
        fired = os.path.join(self.remote, 'fired')
        if os.path.exists(fired): os.remove(fired)
        def go():
            rem = fakes3.Remote(self.remote, page=self.job['page'], least=self.least, plan=plan, hook=hook); fakes3.install(rem)
            from bversion import repo_manager
            repo_manager.init(self.manager_config())
            if self.job['via_run']:
                sys.argv = ['bvn_repo', what]; repo_manager.run()
            else: getattr(repo_manager, what)()
            return 'done'
        code, res = in_child(go)
        f = os.path.exists(fired)
        r = 'ok' if code == 0 else 'hang' if code in (-14,) else 'killed' if code == 137 else 'error'
        return r, f, ascii_(res)
    def run_backup(self, fault):
        plan = {'kind': fault, 'at': self.rnd.choice([self.rnd.randint(1, 12), self.rnd.randint(4, 60), self.rnd.randint(4, 150)])} if fault != 'none' else {}
        starts = [len(self.heads['r']), len(self.heads['r2'])]
        flag = os.path.join(self.base, 'incommit')
        if os.path.exists(flag): os.remove(flag)
        n = len(self.ev)
        hook = None
        if fault == 'commit':
            repo = self.rnd.choice(['r', 'r2']); kind = self.rnd.choice(['new', 'change', 'delete', 'copy', 'onlyempty'])
            # the commit is made by the child, its outcome is needed here
            state = os.path.join(self.base, 'state')
            def hook():
                self.do_commit(repo, kind)
                with open(flag, 'w') as f: json.dump([self.ev[-1], self.heads[repo][-1:], [[p, b.hex()] for p, b in self.tree[repo].items()], [b.hex() for b in self.contents], self.names], f)
        r, f, info = self.attempt('backup', plan, hook)
        if os.path.exists(flag):
            e, hd, tr, cs, nm = json.load(open(flag))
            self.ev.append(e)
            if e['r'] == 'ok': self.heads[repo] += hd; self.tree[repo] = {p: bytes.fromhex(b) for p, b in tr}
            self.contents = [bytes.fromhex(b) for b in cs]; self.names = nm
        leak = ''
        if os.path.isdir(self.remote):
            for d in fakes3.Remote(self.remote).everything():
                for s in (SECRET, b'SECRETNAME', b'SECRETDIR', b'SECRETMESSAGE', b'tree_root', b'commit_message', b'"files"', 'backup password \u00fc'.encode()):
                    if s in d: leak = ascii_('%r is stored in the clear' % s)
                if any(len(b) >= 6 and b in d for b in self.contents): leak = leak or 'a content is stored in the clear'
                if any(h.encode() in d for hs in self.heads.values() for h in hs): leak = leak or 'a version is stored in the clear'
        self.ev.append({'op': 'run', 'r': r, 'fault': f and fault != 'commit', 'repos': self.job['backed'], 'start1': starts[0], 'start2': starts[1], 'leak': leak, 'info': ascii_('%s %s %s' % (fault, plan.get('at', ''), info))})
    def run_restore(self, fault, again):
        if not again:
            for p in self.paths.values(): shutil.rmtree(p + '_restore', ignore_errors=True)
        undo = None; forced = False
        if fault == 'flip':
            rem = fakes3.Remote(self.remote); ks = [k for k in rem.keys() if k != 'salt_file' and not k.split('/')[1] == 'commits']
            if ks:
                k = self.rnd.choice(ks); undo = rem.path(k); old = open(undo, 'rb').read(); d = bytearray(old)
                d[self.rnd.choice([self.rnd.randrange(len(d)), self.rnd.randrange(min(len(d), 300)), len(d) - 1])] ^= 1 << self.rnd.randrange(8); open(undo, 'wb').write(d); forced = True
        elif fault == 'password':
            if any(k.endswith('/head') for k in (fakes3.Remote(self.remote).keys() if os.path.isdir(self.remote) else [])): forced = True
            self.password = 'another password'
        plan = {} if fault.startswith('none') or fault in ('flip', 'password') else {'kind': self.rnd.choice(['error', 'cut', 'ioerror']) if fault == 'error' else fault, 'at': self.rnd.randint(1, 80), 'frac': self.rnd.randint(0, 99)}
        before = {r: self.snapshot(p) for r, p in self.paths.items()}
        r, f, info = self.attempt('restore', plan)
        f = f or forced; self.password = 'backup password \u00fc'
        if undo: open(undo, 'wb').write(old)
        self.ev.append({'op': 'restore', 'r': r, 'fault': f, 'repos': self.job['backed'], 'info': ascii_(fault + ' ' + info)})
        bad = [x for x, p in self.paths.items() if self.snapshot(p) != before[x]]
        if bad: self.ev.append({'op': 'local', 'bad': 'the restore changed ' + ' '.join(bad)})
        if r != 'ok': return
        for repo, p in self.paths.items():
            def go():
                import bversion.server as server
                c = self.config('_restore'); server.init_server(c)
                o = srv.Observer(c, repo, self.names, user='u').look(since=False)
                return [[[ascii_(p), n] for p, n in v['tree']] for v in o['versions']], o['err'] or ' '.join(x for x in o['objs'] if x.startswith(('stray', 'object', '?'))) or ('index objects are damaged' if o['badindex'] else '')
            code, res = in_child(go)
            if code != 0: vs, bad = [], ascii_(res)
            else:
                vs, bad = res
                for sub in ('index', 'files'):
                    for dp, dn, fn in os.walk(os.path.join(p + '_restore', sub)):
                        for x in fn:
                            q = os.path.join(dp, x); o = os.path.join(p, os.path.relpath(q, p + '_restore'))
                            if not os.path.exists(o): bad = bad or ascii_('%s is not in the repository' % os.path.relpath(q, p))
                            elif srv.hash_of(q) != srv.hash_of(o): bad = bad or 'bytes of %s differ' % os.path.relpath(q, p)
                hf = os.path.join(p + '_restore', 'head')
                if os.path.exists(hf) and open(hf).read() not in self.heads[repo]: bad = bad or 'head is %s' % ascii_(open(hf).read()[:70])
            self.ev.append({'op': 'restored', 'repo': repo, 'versions': vs, 'bad': ascii_(bad)})
    def snapshot(self, p):
        res = {}
        for dp, dn, fn in os.walk(p):
            for x in fn: res[os.path.relpath(os.path.join(dp, x), p)] = os.path.getsize(os.path.join(dp, x)) if 'transient' not in x and 'lock' not in x else 0
        return res
    def go(self):
        for o in self.job['ops']:
            if o['op'] == 'commit': self.do_commit(o['repo'], o['kind'])
            elif o['op'] == 'run': self.run_backup(o['fault'])
            elif o['op'] == 'restore': self.run_restore(o['fault'], o['again'])
            elif o['op'] == 'abort': self.do_commit(self.rnd.choice(['r', 'r2']), 'new', abort=True)
            elif o['op'] == 'losesalt' and os.path.isdir(self.remote): fakes3.Client(fakes3.Remote(self.remote)).delete_object('b', 'salt_file')
            elif o['op'] == 'chunk': self.chunk = self.job['chunk2'] if self.chunk == self.job['chunk'] else self.job['chunk']
            elif o['op'] == 'gc':
                def gc():
                    from bversion.storage.versioned_storage import versioned_storage
                    for r, d in self.config()['repositories'].items(): versioned_storage(d['path'], path_override=d.get('transient_db_path_override')).garbage_collect()
                code, res = in_child(gc)
        return {'ev': self.ev}

def run(job, base):
    import bversion.server
    # the backup code imports boto3: there is only the stand-in
    fakes3.install(None)
    import bversion.repo_manager
    return Life(job, base).go()
