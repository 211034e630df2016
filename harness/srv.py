"""A real server (bversion.http.http_server.HTTPServer with bversion.server.endpoint) on the loopback network, run inside a
child process which can be killed at any file system change, and a small independent HTTP client.

Clients are identified in schedules by name: they have a user, an address (127.x) and one persistent connection."""
import os, sys, json, socket, threading, time, base64, hashlib, random, signal, ctypes, shutil, io

def late():
    """ the check has used up its time: leave out what is optional """
    return time.monotonic() > float(os.environ.get('BVN_SOFT', 'inf'))
_keys = {}
def keypair(user):
    """ deterministic key pair of a user """
    import pysodium
    if user not in _keys:
        pk, sk = pysodium.crypto_sign_seed_keypair(hashlib.sha256(b'seed' + user.encode()).digest())
        _keys[user] = (base64.b64encode(pk).decode(), sk)
    return _keys[user]

def make_config(root, repos, users, override=()):
    """ users: {name: [repositories]} """
    return {'repositories': {r: dict({'path': os.path.join(root, r)}, **({'transient_db_path_override': os.path.join(root, 'transient_' + r + '.db')} if r in override else {})) for r in repos},
            'users': {u: {'public_key': keypair(u)[0], 'uses_repositories': list(rs)} for u, rs in users.items()}}

def sha(b): return hashlib.sha256(b).hexdigest()

class Gone(Exception):
    """ the connection ended """
class Hang(Exception): pass

# ---------------------------------------------------------------------------------------------------------------
# independent HTTP client
# ---------------------------------------------------------------------------------------------------------------
class Conn:
    TIMEOUT = 15
    def __init__(self, server_addr, src_ip):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.setsockopt(socket.IPPROTO_IP, 24, 1)      # IP_BIND_ADDRESS_NO_PORT: the port is chosen when connecting
        s.bind((src_ip, 0)); s.settimeout(self.TIMEOUT)
        s.connect(server_addr)
        self.s, self.buf = s, b''
    def send(self, data):
        try: self.s.sendall(data)
        except socket.timeout: raise Hang('send')
        except OSError as e: raise Gone(repr(e))
    def recv(self, n=65536):
        try: self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1); d = self.s.recv(n)
        except socket.timeout: raise Hang('recv')
        except OSError as e: raise Gone(repr(e))
        if d == b'': raise Gone('eof')
        return d
    def head(self, action, headers, length):
        h = {'Host': 'x', 'Content-Length': str(length)}; h.update(headers)
        return b'POST /' + action.encode() + b' HTTP/1.1\r\n' + b''.join(
            (k.encode() if isinstance(k, str) else k) + b': ' + (v.encode('utf8') if isinstance(v, str) else v) + b'\r\n' for k, v in h.items()) + b'\r\n'
    def request(self, action, headers, body=b'{}', cuts=None):
        """ cuts: positions at which the message is split into separate sends """
        msg = self.head(action, headers, len(body)) + body
        last = 0
        for c in sorted(cuts or []):
            if last < c < len(msg): self.send(msg[last:c]); last = c; time.sleep(0.0005)
        self.send(msg[last:])
        return self.response()
    def response(self):
        while b'\r\n\r\n' not in self.buf: self.buf += self.recv()
        pre, self.buf = self.buf.split(b'\r\n\r\n', 1)
        h = {}
        for l in pre.split(b'\r\n')[1:]:
            k, v = l.split(b':', 1); h[k.strip().decode('utf8').lower()] = v.strip().decode('utf8')
        n = int(h['content-length'])
        parts = [self.buf]; have = len(self.buf)
        while have < n: d = self.recv(); parts.append(d); have += len(d)
        data = b''.join(parts); self.buf = data[n:]
        return data[:n], h
    def bye(self):
        """ go away and wait until the server has noticed (it closes after it released everything) """
        try:
            self.s.shutdown(socket.SHUT_WR)
            while True:
                if self.s.recv(65536) == b'': break
        except socket.timeout:
            self.s.close(); raise Hang('close')
        except OSError: pass
        self.s.close()
    def drop(self): self.s.close()

# ---------------------------------------------------------------------------------------------------------------
# the server in this process
# ---------------------------------------------------------------------------------------------------------------
class Server:
    def __init__(self, config, quiet=True):
        if quiet:
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
            if not os.environ.get('BVN_DEBUG'): os.dup2(dn, 2)
        import bversion.server as server
        from bversion.http.http_server import HTTPServer
        self.server = server
        self.config = config
        server.init_server(config)
        rnd = random.Random(os.urandom(8))
        for _ in range(20):
            self.addr = ('127.%d.%d.%d' % (rnd.randint(128, 250), rnd.randint(1, 250), rnd.randint(1, 250)), rnd.randint(20000, 60000))
            err = []
            def serve(addr=self.addr):
                try: HTTPServer(addr[0], addr[1], lambda *a: server.endpoint(*a))
                except BaseException as e: err.append(repr(e))
            threading.Thread(target=serve, daemon=True).start()
            end = time.monotonic() + 5
            while time.monotonic() < end and not err:
                try: Conn(self.addr, '127.0.0.1').drop(); return
                except OSError: time.sleep(0.0005)
        raise RuntimeError('server does not start: %r' % err)

    def connect(self, ip): return Conn(self.addr, ip)

def login(conn, repo, user, sign_as=None, client_version=None):
    """ the real handshake over a connection; returns the session token or None """
    import pysodium
    from bversion import version_numbers
    _, h = conn.request('begin_auth', {'repository': repo})
    if h['status'] != 'ok': return None
    tok = h['auth_token']
    sig = base64.b64encode(pysodium.crypto_sign_detached(tok, keypair(sign_as or user)[1])).decode()
    _, h = conn.request('authenticate', {'client_version': str(client_version or version_numbers.client_version), 'repository': repo, 'user': user,
                                         'auth_token': tok, 'signature': sig})
    return h['session_token'] if h['status'] == 'ok' else None

class InProc:
    """ calls the endpoint directly, on the calling thread (the observer) """
    def __init__(self, ip='127.9.9.9'):
        from bversion.http.http_server import ConnectionContext
        self.ip, self.ctx = ip, ConnectionContext()
    def request(self, action, headers, body=b'{}', cuts=None):
        import bversion.server as server
        from bversion.http.http_server import Request, ServeFile
        from bversion.http.http_common import read_body
        rq = Request(self.ip, 1, '/' + action, {k.lower(): v for k, v in headers.items()}, read_body(io.BytesIO(body).read, len(body), b''))
        rsp = server.endpoint(rq, self.ctx)
        data = rsp.body
        if isinstance(data, ServeFile):
            with open(data.path, 'rb') as f: data = f.read()
        h = {(k.decode() if isinstance(k, bytes) else k).lower(): (v.decode('utf8') if isinstance(v, bytes) else str(v)) for k, v in rsp.headers.items()}
        return data, h

# ---------------------------------------------------------------------------------------------------------------
# what can be seen of a repository
# ---------------------------------------------------------------------------------------------------------------
class Observer:
    """ reads the whole history of a repository through the API, and its objects from the disk """
    def __init__(self, config, repo, names, user='watch'):
        self.config, self.repo, self.names = config, repo, names    # names: sha -> content id
        self.path = config['repositories'][repo]['path']
        self.c, self.user, self.tok = InProc(), user, None
    def call(self, action, headers, body=b'{}'):
        for _ in range(2):
            if self.tok is None: self.tok = login(self.c, self.repo, self.user)
            if self.tok is None: raise RuntimeError('observer can not log in')
            r = self.c.request(action, dict(headers, session_token=self.tok, repository=self.repo), body)
            if r[1].get('status') == 'ok': return r
            if r[1].get('msg') != 'Could not authenticate user': raise RuntimeError('%s: %s' % (action, r[1]))
            self.tok = None
        raise RuntimeError('observer is not served')
    def cid(self, h): return self.names.get(h, '?' + h[:8])
    def versions(self):
        v = json.loads(self.call('list_versions', {})[0])['versions'][::-1]
        if len(v) > 50:                    # only the latest ones are listed, look up the others
            while True:
                b = lambda i: json.load(open(os.path.join(self.path, 'index', i[:2], i[2:])))
                i = b(v[0]['id'])['parent']
                if i == 'root': break
                v.insert(0, dict(b(i), id=i))
        return v
    def version(self, info, head):
        """ one version: [tree, chg, by, msg] ; contents by hash and by bytes """
        vid = info['id']
        files = json.loads(self.call('list_files', {'show_head': '0', 'version_id': vid})[0])['files']
        tree = []
        for p, i in files.items():
            c = self.cid(i['hash'])
            data, h = self.call('pull_file', {'use_head': '1' if head else '0', 'version_id': vid, 'path': p})
            if self.cid(sha(data)) != c: c = 'bytes of %s are %s' % (c, self.cid(sha(data)))
            if i['path'] != p: c = 'entry %s names %s' % (p, i['path'])
            tree.append([p, c])
        chg = []
        for i in json.loads(self.call('list_changes', {'show_head': '0', 'version_id': vid})[0])['changes']:
            chg.append([i['path'], i['status'], '' if i['status'] == 'deleted' else self.cid(i['hash'])])
        msg = info['commit_message']
        return {'tree': sorted(tree), 'chg': sorted(chg), 'by': info['commit_by'], 'msg': '' if msg.startswith('(Generated message)') else msg}
    def objects(self):
        """ every stored file: content id, or what is wrong with it """
        res = []
        base = os.path.join(self.path, 'files')
        for a in sorted(os.listdir(base)):
            d = os.path.join(base, a)
            if not os.path.isdir(d): res.append('stray ' + a); continue
            for b in sorted(os.listdir(d)):
                h = hash_of(os.path.join(d, b))
                res.append(self.cid(h) if h == a + b else 'object %s holds %s' % (self.cid(a + b), self.cid(h)))
        return res
    def index(self, heads):
        """ number of index objects (commits, trees) that no version needs """
        base = os.path.join(self.path, 'index'); have = set(); bad = 0
        for a in os.listdir(base):
            d = os.path.join(base, a)
            if not os.path.isdir(d): bad += 1; continue
            for b in os.listdir(d):
                have.add(a + b)
                if hash_of(os.path.join(d, b)) != a + b: bad += 1
        need = set(heads)
        def walk(t):
            if t in need: return
            need.add(t)
            for x in json.load(open(os.path.join(base, t[:2], t[2:])))['dirs'].values(): walk(x)
        for h in heads: walk(json.load(open(os.path.join(base, h[:2], h[2:])))['tree_root'])
        return len(have - need), bad + len(need - have)
    def since(self, rev, head_ids, full=False):
        """ what the server reports as changed since a revision, to a client without local changes """
        d, h = self.call('find_changed', {'previous_revision': rev, 'include_unchanged': '1' if full else '0'},
                         json.dumps({'client_changes': '{}'}).encode())
        d = json.loads(d); out = []
        for k, v in d['sorted_changes'].items():
            for i in v:
                st = {'client_pull_files': 'pull', 'to_delete_on_client': 'deleted'}.get(k, k)
                out.append([i['path'] if 'path' in i else str(i), st, self.cid(i['hash']) if st == 'pull' else ''])
        return sorted(out), d.get('head')
    def look(self, since=True, full=True):
        o = {'err': '', 'versions': [], 'full': full, 'objs': [], 'orphans': 0, 'badindex': 0, 'since': [], 'ids': []}
        try:
            vs = self.versions(); ids = [v['id'] for v in vs]
            o['ids'] = ids
            if full: o['versions'] = [self.version(v, k == len(vs) - 1) for k, v in enumerate(vs)]
            o['objs'] = self.objects()
            o['orphans'], o['badindex'] = self.index(ids)
            if since and full:
                for k, rev in enumerate(['root'] + ids):
                    r, head = self.since(rev, ids)
                    if ids and head != ids[-1]: r = [['head', 'wrong', '']]
                    o['since'].append(r if ids else [])
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
            o['err'] = '%s: %s' % (type(e).__name__, e)
        return o

def hash_of(p):
    with open(p, 'rb') as f: return sha(f.read())

# ---------------------------------------------------------------------------------------------------------------
# lives: the schedule is executed by children; a crash ends a child and the next one goes on
# ---------------------------------------------------------------------------------------------------------------
def run_lives(n_ops, life, log, max_lives=20, timeout=120):
    """ life(start_index, emit) executes ops from start_index in a child process and calls emit(record) for each.
    Returns the list of (record | {'died': code}) in order. A record with 'start' announces an operation. """
    records = []
    start = 0
    for _ in range(max_lives):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 98
            try:
                os.close(r)
                out = os.fdopen(w, 'w')
                def emit(rec): out.write(json.dumps(rec) + '\n'); out.flush()
                try: life(start, emit); code = 0
                except BaseException:
                    import traceback
                    emit({'raised': traceback.format_exc()[-1500:]})
            finally: os._exit(code)
        os.close(w)
        watchdog = threading.Timer(timeout, lambda: os.kill(pid, signal.SIGKILL)); watchdog.start()
        with os.fdopen(r) as f:
            for line in f:
                rec = json.loads(line); records.append(rec)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]); watchdog.cancel()
        if code == 0: return records
        records.append({'died': code})
        started = [x['start'] for x in records if 'start' in x]
        if code == 98 or code == -9: return records
        start = (started[-1] + 1) if started else start
    return records

_shim = None
def shim():
    global _shim
    if _shim is None:
        _shim = ctypes.CDLL(None)
        _shim.shim_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
        _shim.shim_net.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
        _shim.shim_interrupt.argtypes = [ctypes.c_char_p, ctypes.c_long]
        _shim.shim_fault.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
        _shim.shim_lasting.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
        _shim.shim_deny.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
        _shim.shim_disarm.restype = ctypes.c_long
        _shim.shim_clock.argtypes = [ctypes.c_double]
    return _shim
