"""driver: what the real client (client.run, in this process) finds changed in a working copy: the status command, and what update sends"""
import os, sys, json, io, re, contextlib, base64, shutil

class Stub:
    """ stands for the server: authentication works, the first report of local changes is kept """
    def __init__(self): self.got = None
    def request(self, name, headers, body=None, gen=False):
        if name == 'begin_auth': return b'', {'status': 'ok', 'auth_token': 'ab' * 32}
        if name == 'authenticate': return b'', {'status': 'ok', 'session_token': 'cd' * 32, 'server_version': '99'}
        if name == 'find_changed':
            self.got = json.loads(body['client_changes']); self.incl = headers['include_unchanged']
        return b'', {'status': 'fail', 'msg': 'stub'}
    def send_file(self, name, *a, **k): return b'', {'status': 'fail', 'msg': 'stub'}

KEY = []
def key():
    if not KEY:
        import pysodium; KEY.append(base64.b64encode(b'n' + pysodium.crypto_sign_keypair()[1]).decode())
    return KEY[0]
def close(client):
    if client.lock_file is not None: client.lock_file.close(); client.lock_file = None
def listing(root):
    r = []
    for b, ds, fs in os.walk(root):
        if b == root: ds.remove('.bvn')
        r += [(os.path.join(b, f), os.stat(os.path.join(b, f)).st_mtime_ns) for f in fs] + [(b, 0)]
    return sorted(r)
def cp(s): return [ord(c) for c in s]

def place(root, path, ns):
    f = root + path; os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'w') as h: h.write(path[:5])
    os.utime(f, ns=(ns, ns))
    return f

class Case:
    def __init__(self, root): self.root, self.times = root, {}
    def tid(self, ns): return self.times.setdefault(ns, len(self.times) + 1)
    def setup(self, case):
        import bversion.client as client
        self.client = client; root = self.root
        os.makedirs(root + '/.bvn/zz'); open(root + '/.bvn/zz/meta', 'w').close()
        with open(root + '/.bvn/client_configuration.json', 'w') as h: h.write(json.dumps({'server_domain': 'http://127.0.0.1:9', 'user': 'u', 'repository': 'r', 'private_key': key()}))
        self.disk, self.man = {}, {}
        client.server_connection = Stub()
        os.chdir(root); client.init(True)
        for p, d, m in case['files']:
            if m:
                f = place(root, p, m)
                i = client.data_store.get_single_file_info(p); i['server_file_hash'] = 'h'; client.cdb.add_file_to_manifest(i)
                self.man[p] = self.tid(m); os.remove(f)
            if d: place(root, p, d); self.disk[p] = self.tid(d)
        if case.get('prune', True):                       # directories without files go as well
            for b, ds, fs in os.walk(root, topdown=False):
                if b != root and not b.startswith(root + '/.bvn/'):
                    with contextlib.suppress(OSError): os.rmdir(b)
        client.cdb.commit(); client.cdb.con.close(); close(client)
    def rules(self, ign, pign, sep, ns):
        for name, lines in (('/.bvn_ignore', ign), ('/.bvn_pull_ignore', pign)):
            if lines:
                with open(self.root + name, 'w', encoding='utf8', newline='') as h: h.write(sep.join(lines) + (sep if sep != '\n' or len(lines) % 2 else ''))
                os.utime(self.root + name, ns=(ns, ns))
                self.disk[name] = self.tid(ns)
            else:
                with contextlib.suppress(OSError): os.remove(self.root + name)
                self.disk.pop(name, None)
        self.ign, self.pign = ign, pign
    def look(self, how):
        """ how: status, update or full """
        client = self.client; raised, got = '', []
        before = listing(self.root); client.server_connection = stub = Stub()
        sys.argv = ['bvn'] + {'status': ['status'], 'update': ['update'], 'full': ['update', '-f']}[how]
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf): client.run()
        except SystemExit as e:
            if how == 'status': raised = 'exit: %s' % str(e)[:200]
        except BaseException as e: raised = '%s: %s' % (type(e).__name__, str(e)[:200])
        if how == 'status':
            for l in re.findall(r'^(?:\x1b\[\d+m)*(new|changed|deleted|unchanged) : ((?:.|\n)*?)(?:\x1b\[0m)*$', buf.getvalue(), re.M): got.append([cp(l[1]), l[0]])
        elif stub.got is None: raised = raised or 'no report'
        else:
            for p, v in stub.got.items():
                got.append([cp(p), v.get('status', '')])
                if v.get('path') != p: raised = raised or 'report names %r for %r' % (v.get('path'), p)
        with contextlib.suppress(Exception): client.cdb.con.close()
        close(client)
        meta = ['/.bvn/*', '/.bvn_pull_ignore']
        self.ev.append({'disk': [[cp(p), t] for p, t in sorted(self.disk.items())], 'man': [[cp(p), t] for p, t in sorted(self.man.items())], 'how': how,
                        'ign': [cp(l) for l in meta + self.ign], 'pign': [cp(l) for l in self.pign], 'incl': how == 'full', 'got': sorted(got), 'raised': raised.encode('ascii', 'replace').decode(),
                        'touched': listing(self.root) != before})
def run(job, d):
    out = []; cwd = os.getcwd()
    c = Case(d + '/w'); c.ev = out
    try:
        for k, case in enumerate(job['cases']):
            if 'files' in case:
                os.chdir(cwd); shutil.rmtree(c.root, ignore_errors=True); os.makedirs(c.root); c.times = {}
                c.setup(case)
            c.rules(case['ign'], case['pign'], case.get('sep', '\n'), case.get('ns', 10**18))
            os.chdir(c.root + case.get('cwd', ''))
            c.look(case['how'])
    finally: os.chdir(cwd)
    return {'id': job['id'], 'ev': out}
