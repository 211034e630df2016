"""Requests with hostile and ordinary paths and identifiers to the real server.  The server runs as an unprivileged user in a child
process; an audit hook notes (and for changes: refuses) what its threads touch outside of the repository."""
import os, sys, json, random, socket, threading, time, signal, shutil, stat, _thread
import srv
from srv import sha, Gone, Hang
MARK = 'SENTINEL-OUTSIDE'
codes = lambda s: [ord(c) for c in s]
def ascii_(x): return str(x).encode('ascii', 'backslashreplace').decode()[:200]

def plant(base):
    """ files around the repository, among them valid index objects """
    commit = json.dumps({'type': 'commit', 'parent': 'root', 'utc_date_time': 0, 'commit_by': MARK, 'commit_message': MARK, 'tree_root': 'ab' * 32, 'changes': {'/x': {'path': '/' + MARK, 'status': 'new', 'hash': 'cd' * 32}}})
    tree = json.dumps({'type': 'tree', 'files': {MARK: {'path': MARK, 'hash': 'cd' * 32}, 'a': {'path': 'a', 'hash': 'cd' * 32}}, 'dirs': {}})
    for d in ['', 'r2/', 'files/', 'index/', 'r.d/', 'd/', 'ab/', 'zz/']:
        os.makedirs(os.path.join(base, d), exist_ok=True)
        for n, x in [('secret', MARK), ('commit', commit), ('tree', tree), ('a', MARK), ('b', MARK), ('head', MARK), ('tmp_file', MARK)]:
            p = os.path.join(base, d, n)
            if not os.path.exists(p): open(p, 'w').write(x)
def around(base):
    res = {}
    for dp, dn, fn in os.walk(base):
        if dp == base: dn[:] = [d for d in dn if d != 'r' and d != 'tr']
        for n in fn + dn:
            p = os.path.join(dp, n); s = os.lstat(p)
            res[os.path.relpath(p, base)] = (s.st_mode, s.st_size if not stat.S_ISDIR(s.st_mode) else 0, s.st_mtime_ns if not stat.S_ISDIR(s.st_mode) else 0)
    return res

WRITES = {'os.rename', 'os.remove', 'os.rmdir', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'os.mknod', 'shutil.copytree'}
READS = {'os.listdir', 'os.scandir', 'os.chdir', 'glob.glob'}
class Watch:
    def __init__(self, repo, transient):
        self.repo, self.transient, self.seen, self.main = os.path.realpath(repo), transient and os.path.realpath(transient), [], _thread.get_ident()
        self.calm = [os.path.realpath(p) for p in {sys.prefix, sys.base_prefix, '/usr/lib', '/usr/share', '/usr/local/lib', '/lib', '/etc', os.environ.get('BVN_REPO', '/repo') + '/bversion', os.path.dirname(os.path.abspath(srv.__file__))}]
        for p in os.environ.get('PYTHONPATH', '').split(':'):
            if p: self.calm.append(os.path.realpath(p))
        sys.unraisablehook = lambda *a: None; threading.excepthook = lambda *a: None      # no reading of sources for tracebacks
        sys.addaudithook(self.hook)
    def inside(self, p):
        p = os.path.realpath(p)
        return p == self.repo or p.startswith(self.repo + '/') or bool(self.transient and (p == self.transient or p.startswith(self.transient + '-')))
    def hook(self, ev, args):
        if _thread.get_ident() == self.main: return
        paths, write = [], False
        if ev == 'open':
            if not isinstance(args[0], (str, bytes)): return
            paths = [args[0]]; m = args[1]; fl = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
            write = bool(m and any(c in str(m) for c in 'wax+')) or bool(fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        elif ev in WRITES or ev in READS: paths = [a for a in args[:2] if isinstance(a, (str, bytes))]; write = ev in WRITES
        elif ev == 'sqlite3.connect': paths = [a for a in args[:1] if isinstance(a, (str, bytes))]; write = True
        elif ev in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn'): self.seen.append(ascii_(ev)); raise PermissionError('no')
        for p in paths:
            p = os.fsdecode(p)
            try:
                if '\0' in p or self.inside(p): continue
                if not write and (os.path.realpath(p) == '/dev/null' or os.path.realpath(p) == '/dev/urandom' or any(os.path.realpath(p).startswith(c + '/') for c in self.calm)): continue
            except (OSError, ValueError): continue
            self.seen.append(ascii_('%s %s %s' % (ev, 'write' if write else 'read', p[-60:])))
            if write: raise PermissionError('outside of the repository')
    def take(self):
        x, self.seen = self.seen, []
        return sorted(set(x))[:5]

class Session:
    """ one logged in connection, made again when it ends """
    def __init__(self, S): self.S, self.c, self.tok = S, None, None
    def call(self, action, headers, body=b'{}', repo='r'):
        try:
            if self.c is None:
                self.c = self.S.connect('127.0.1.1'); self.tok = srv.login(self.c, 'r', 'u')
            d, h = self.c.request(action, dict(headers, session_token=self.tok, repository=repo), body)
            return ('ok' if h.get('status') == 'ok' else 'refused'), d, h
        except Gone:
            if self.c: self.c.drop()
            self.c = None
            return 'gone', b'', {}

def child(job, base, out):
    repo = os.path.join(base, 'r'); os.makedirs(repo); plant(base)
    trans = None
    cfg = {'repositories': {'r': {'path': repo}}, 'users': {'u': {'public_key': srv.keypair('u')[0], 'uses_repositories': ['r']}}}
    if job.get('override'):
        trans = os.path.join(base, 'tr', 'x.db'); os.makedirs(os.path.dirname(trans)); cfg['repositories']['r']['transient_db_path_override'] = trans
    for dp, dn, fn in os.walk(base):
        for n in dn + fn: os.chown(os.path.join(dp, n), 65534, 65534)
    os.chown(base, 65534, 65534)
    os.setgroups([]); os.setgid(65534); os.setuid(65534)
    import encodings.idna, fcntl, sqlite3, pysodium
    watch = Watch(repo, trans)
    S = srv.Server(cfg); x = Session(S); before = around(base)
    evs = []; rnd = random.Random(job['seed'])
    names = {}                                             # content -> id
    commits = []
    def emit(**e): e['out'] = watch.take(); evs.append(e)
    def cont(c): b = ('content %d of %d' % (c, job['seed'])).encode(); names[sha(b)] = 'c%d' % c; return b
    def cid(d): return 'outside' if MARK.encode() in d else names.get(sha(d), '?')
    def begin():
        head = commits[-1] if commits else 'root'
        r = x.call('begin_commit', {'previous_revision': head})
        emit(op='begin', r=r[0], info=ascii_(r[2].get('msg', '')))
    n = 0
    try:
        # content to be found, of an ordinary kind
        for group in job['groups']:
            begin(); stay = group['stay']
            for p in group['push']:
                n += 1
                r, d, h = x.call('push_file', {'path': p}, cont(n))
                if MARK.encode() in d or MARK in str(h): watch.seen.append('sentinel served')
                emit(op='push', p=codes(p), c='c%d' % n, r=r, stay=stay, info=ascii_(repr(p)))
                if r == 'gone':
                    r, d, h = x.call('begin_commit', {'previous_revision': commits[-1] if commits else 'root'}); emit(op='resume', r=r)   # resumes what was sent
            for p in group.get('delete', []):
                r, d, h = x.call('delete_files', {}, json.dumps({'files': json.dumps([{'path': p}])}).encode())
                emit(op='delete', p=codes(p), r=r, info=ascii_(repr(p)))
            if stay:
                r, d, h = x.call('commit', {'mode': 'commit', 'commit_message': 'm'})
                if r == 'ok': commits.append(h['head'])
                emit(op='commit', r=r, info=ascii_(h.get('msg', '')))
            else:
                r, d, h = x.call('commit', {'mode': 'abort', 'commit_message': 'm'}); emit(op='abort', r=r)
            if not commits: continue
            near = []                                     # names near to those of files
            for p in rnd.sample(group['push'], min(8, len(group['push']))):
                q = p.lstrip('/')
                near += ['/./' + q, '/x/../' + q, p + '/.', p + '/', p.swapcase(), p[:-1], p.replace('/', '\\'), p + '/..', '/' + p, p + 'x', p.replace('/', '//'), p.replace('\\', '/'), '/..' + p, p.replace('a', 'A'), '/' + q.split('/')[-1], q, p.replace('%2e', '.'), p + '\0', p.split('\0')[0], p.rsplit('/', 1)[0]]
            near += [p + ' ' for p in near[:5]]
            for p in group['pull'] + near + (group['push'] if stay else group['push'][:10]):
                r, d, h = x.call('pull_file', {'use_head': '1', 'version_id': '', 'path': p})
                c = cid(d) if MARK not in str(h) else 'outside'
                emit(op='pull', p=codes(p), r=r, c=c, info=ascii_(repr(p)))
            r, d, h = x.call('list_files', {'show_head': '1', 'version_id': ''})
            files = json.loads(d)['files'] if r == 'ok' else {}
            fs = []
            for p, i in files.items():
                fs.append([codes(p), names.get(i['hash'], '?') if i['path'] == p else 'misnamed'])
            emit(op='files', files=fs, info=r)
        objs = []
        for dp, dn, fn in os.walk(os.path.join(repo, 'index')): objs += [os.path.basename(dp) + f for f in fn]
        for what, s in idents(rnd, commits, objs, job['nident'], base):
            known = s in commits
            if what == 'list_files': r = x.call('list_files', {'show_head': '0', 'version_id': s})
            elif what == 'list_changes': r = x.call('list_changes', {'show_head': '0', 'version_id': s})
            elif what == 'find_changed': r = x.call('find_changed', {'previous_revision': s, 'include_unchanged': '0'}, json.dumps({'client_changes': '{}'}).encode())
            else: r = x.call('pull_file', {'use_head': '0', 'version_id': s, 'path': '/a'})
            res = r[0]
            if what == 'pull_file' and known: res = 'ok' if res == 'gone' else res      # /a need not exist there
            if what == 'list_files' or what == 'list_changes' or what == 'find_changed' or what == 'pull_file':
                if MARK.encode() in r[1] or MARK in str(r[2]): watch.seen.append('sentinel served')
            emit(op='ident', what=what, id=codes(s), known=known, r=res, info=ascii_(repr(s)))
        for s in ['../r2', 'r/../r2', 'r2', '', '/', '.', '..', 'r/', './r', 'R', base + '/r2', repo, 'r\\..\\r2']:
            r, d, h = x.call('list_versions', {}, repo=s); emit(op='repo', r=r, info=ascii_(repr(s)))
            try: _, h = S.connect('127.0.1.2').request('begin_auth', {'repository': s}); r = h['status']
            except Gone: r = 'gone'
            emit(op='repo', r=r, info=ascii_(repr(s)))
    except Hang as h: emit(op='hang', info=str(h))
    after = around(base)
    ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    emit(op='around', changed=[ascii_(k) for k in ch[:5]])
    out({'ev': evs})

def idents(rnd, commits, objs, n, base):
    T = ['commit', 'tree', 'secret', 'r2/commit', 'files/commit', 'index/commit', 'zz/tree', 'ab/commit']
    res = []
    h = commits[-1] if commits else 'ab' * 32
    pool = ['', '/', '.', '..', '/.', h.upper(), h + '\n', '\n' + h, h + ' x', h[:-1], h[:2], h[:1], h + '0', h[:63] + 'g', h[:63] + '\u0663', h[:63] + '\uff11', '0x' + h[2:], h[:2] + '/' + h[2:], h[:2] + '//' + h[2:], '/' + h, h + '/', './' + h, h[:32] + '-' + h[33:],
            'g' * 64, '\0' * 64, h[:63] + '\0', h + '\0', '+' + h[1:], '_' + h[1:], 'None', 'head', 'HEAD', '-1', '0' * 64, 'f' * 64, 'deadbeef', h[::-1], '*' * 64, 'f' * 63 + '?', h[:2] + '/../' + h[:2] + '/' + h[2:], '..' + '/index/' + h[:2] + '/' + h[2:]]
    for t in T:
        pool += ['..' + '/../' + t, '../../' + t, '../' + '../' + t, 'ab/../../../' + t, h[:2] + '/../../../' + t, '/..' + '/../../' + t, h + '/../../../../' + t, base + '/' + t, '..\\..\\' + t, '%2e%2e/%2e%2e/' + t, '..//..//' + t, '/.' + './../../' + t, './../../../' + t, ('ab/../../../' + t).rjust(64, 'a'),
                 ('ab' + '/..' * 30)[:64 - len(t) - 1] + '/' + t, h[:2] + '/../' * 3 + t, '..' + '/' * (64 - 5 - len(t)) + '../' + t, '....//....//' + t]
    pool += [h + ' ', ' ' + h]
    others = [o for o in objs if o not in commits]
    todo = [(w, p) for w in ('list_files', 'list_changes', 'find_changed', 'pull_file') for p in pool]
    rnd.shuffle(todo); todo = todo[:n]
    todo += [(w, p) for w in ('list_files', 'list_changes', 'pull_file') for p in commits[-2:] + rnd.sample(others, min(3, len(others)))]
    return [x for x in todo if not (x[0] == 'find_changed' and x[1] in ('root',))]

def run(job, base):
    import bversion.server, bversion.client
    p = base
    while os.path.realpath(p).startswith(os.path.realpath(os.environ['BVN_SCRATCH'])): os.chmod(p, 0o711); p = os.path.dirname(p)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.close(r); f = os.fdopen(w, 'w'); signal.alarm(120)
            def out(t): f.write(json.dumps(t) + '\n'); f.flush()
            child(job, base, out); code = 0
        except BaseException:
            import traceback; os.write(w, (json.dumps({'broken': traceback.format_exc()[-1500:]}) + '\n').encode())
        finally: os._exit(code)
    os.close(w); res = []
    with os.fdopen(r) as f:
        for l in f:
            x = json.loads(l)
            if 'broken' in x: raise RuntimeError(x['broken'])
            res.append(dict(x, job=job['id']))
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if code != 0: res.append({'ev': [{'op': 'hang', 'info': 'process ended with %d' % code, 'out': []}], 'job': job['id']})
    return res
