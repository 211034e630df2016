"""driver: the life of a key: bvn keygen, unlocking, bvn checkout and later commands with it (all through client.run, in children)"""
import os, sys, io, json, base64, contextlib, shutil, signal
from srv import *

def child(f, timeout=40):
    """ f() in a child; its result, or how it ended """
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r); res = {'k': 'raised'}
            signal.alarm(timeout)
            try: res = f()
            except BaseException as e: res = {'k': 'raised', 'info': '%s: %s' % (type(e).__name__, str(e)[:200]), 'prompts': getattr(f, 'n', 0)}
            with os.fdopen(w, 'w') as h: h.write(json.dumps(res))
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r) as h: data = h.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {'k': 'died', 'info': 'no result'}

class Terminal:
    """ answers the questions of the client """
    def __init__(self, answers, passwords): self.answers, self.pw, self.asked, self.prompts = list(answers), list(passwords), 0, 0
    def input(self, *a): self.asked += 1; return self.answers.pop(0)
    def getpass(self, *a, **k): self.prompts += 1; return self.pw.pop(0)

def client_cmd(argv, term, cwd, out):
    """ in a child: run a command of the client """
    import bversion.client as client, getpass, builtins
    os.chdir(cwd)
    getpass.getpass = term.getpass; builtins.input = term.input
    sys.argv = ['bvn'] + argv
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b): client.run()
    finally: out.append(b.getvalue()); sys.stdout.flush()

def leaks(sk, blob):
    """ does blob contain the private key, in some form """
    seed = sk[:32]
    for name, x in (('raw', blob),):
        for form, s in (('bytes', seed[4:28]), ('hex', seed.hex().encode()[8:56]), ('repr', repr(seed)[2:-1].encode()[:40])):
            if s and s in x: return 'the private key is stored as %s' % form
        for k in range(3):
            s = base64.b64encode(b'\0' * k + seed)[4:36]
            if s in x or s.replace(b'+', b'-').replace(b'/', b'_') in x: return 'the private key is stored in base64'
        import re, zlib
        for m in re.findall(rb'[A-Za-z0-9+/=_-]{44,}', x):
            with contextlib.suppress(Exception):
                d = base64.b64decode(m + b'=' * (-len(m) % 4))
                if seed in d or seed[::-1] in d: return 'the private key can be decoded from what is stored'
    return ''
def leaks_tree(sk, d):
    for b, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), 'rb') as h: r = leaks(sk, h.read())
            if r: return '%s in %s' % (r, os.path.join(b, f)[len(d):])
    return ''

def run(job, d):
    import bversion.client, pysodium                       # before the children
    P = job['names']; evs = []
    def ev(**k): evs.append(dict(dict(op='', answers=[], given=[], pw=[], k='', leak='', prompts=0, info=''), **k))
    cp = lambda s: [ord(c) for c in s]
    ans = [{'y': ['y', 'Y'], 'n': ['n', 'N'], 'other': ['', 'yes', 'x', 'no', 'yn', '?']}[a] for a in job['answers']]
    rnd = random.Random('%s' % job['id']); ans = [rnd.choice(a) for a in ans]
    given = [P[g - 1] for g in job['given']]
    # ---- generation
    def gen():
        out, made = [], []
        real = pysodium.crypto_sign_keypair
        def kp(): made.append(real()); return made[-1]
        pysodium.crypto_sign_keypair = kp
        t = Terminal(ans, given); os.makedirs(d + '/k', exist_ok=True)
        client_cmd(['keygen'], t, d + '/k', out)
        ls = out[0].split('\n'); priv = ls[ls.index('Private key:') + 1]; pub = ls[[l.strip() for l in ls].index('Public key:') + 1]
        return {'k': 'ok', 'priv': priv, 'pub': pub, 'out': out[0], 'prompts': t.prompts, 'sk': base64.b64encode(made[-1][1]).decode(), 'pk': base64.b64encode(made[-1][0]).decode(), 'n': len(made)}
    g = child(gen)
    e = dict(op='generate', answers=job['answers'], given=[cp(x) for x in given], k=g['k'], info=g.get('info', ''), prompts=g.get('prompts', 0))
    if g['k'] != 'ok': ev(**e); return {'id': job['id'], 'ev': evs}
    sk = base64.b64decode(g['sk']); prot = next(a for a in job['answers'] if a != 'other') == 'y'
    if g['pub'] != g['pk']: e['k'] = 'wrong'; e['info'] = 'the public key is another one'
    if prot: e['leak'] = leaks(sk, g['out'].encode()) or leaks_tree(sk, d + '/k')
    ev(**e)
    # ---- unlocking
    def same(key):
        try:
            pysodium.crypto_sign_verify_detached(pysodium.crypto_sign_detached('test', key), 'test', base64.b64decode(g['pub']))
            return 'key' if bytes(key) == sk else 'other'
        except Exception as x: return 'unusable'
    for p in job['tries']:
        pw = P[p - 1]
        def unlock():
            import getpass; from bversion import crypto
            t = Terminal([], [pw] * 3); getpass.getpass = t.getpass
            try: k = crypto.unlock_private_key(g['priv'])
            except Exception as x: return {'k': 'refused', 'info': repr(x), 'prompts': t.prompts}
            return {'k': same(k), 'prompts': t.prompts}
        r = child(unlock)
        ev(op='unlock', pw=cp(pw), k=r['k'], info=r.get('info', ''), prompts=r.get('prompts', 0))
    # ---- use
    if job.get('use'):
        root = d + '/srv'; os.makedirs(root + '/r1')
        cfg = {'repositories': {'r1': {'path': root + '/r1'}}, 'users': {'u1': {'public_key': g['pub'], 'uses_repositories': ['r1']}}}
        ar, aw = os.pipe(); stop, stopw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(stopw); s = Server(cfg); os.write(aw, ('%s:%d' % s.addr).encode()); os.close(aw); os.read(stop, 1)
            finally: os._exit(0)
        os.close(aw); os.close(stop); addr = os.read(ar, 100).decode(); os.close(ar)
        try:
            for op, p in [('checkout', q) for q in job['use'][0]] + [('use', q) for q in job['use'][1]]:
                pw = P[p - 1]; wc = d + '/wc'
                if op == 'checkout' and os.path.isdir(wc + '/r1'): continue
                os.makedirs(wc, exist_ok=True)
                def use():
                    out = []; t = Terminal(['u1', g['priv']], [pw] * 3)
                    try:
                        if op == 'checkout': client_cmd(['checkout', 'http://%s/r1' % addr], t, wc, out)
                        else: client_cmd(['commit', '-m', 'm'], t, wc + '/r1', out)
                    except (Exception, SystemExit) as x: return {'k': 'refused', 'info': '%s: %s' % (type(x).__name__, str(x)[:150]), 'prompts': t.prompts}
                    return {'k': 'key' if op == 'checkout' or 'new :' in out[0] or 'Commit complete' in out[0] or os.path.exists(root + '/r1/head') else 'refused', 'info': out[0][-200:], 'prompts': t.prompts}
                if op == 'use':
                    if not os.path.isdir(wc + '/r1'): break
                    with open(wc + '/r1/f%d' % len(evs), 'w') as h: h.write('x%d' % len(evs))
                n0 = open(root + '/r1/head').read() if os.path.exists(root + '/r1/head') else ''
                r = child(use)
                if op == 'checkout' and (r['k'] == 'key') != os.path.isdir(wc + '/r1'): r['k'] = 'half'; r['info'] += ' directory: %s' % os.path.isdir(wc + '/r1')
                if op == 'use':
                    n1 = open(root + '/r1/head').read() if os.path.exists(root + '/r1/head') else ''
                    if (n0 != n1) != (r['k'] == 'key'): r['k'] = 'key' if n0 != n1 else 'refused'
                ev(op=op, pw=cp(pw), k=r['k'], info=r.get('info', ''), prompts=r.get('prompts', 0), leak=leaks_tree(sk, d) if prot else '')
                if op == 'checkout' and r['k'] == 'key':
                    with open(wc + '/r1/.bvn/client_configuration.json') as h: kept = json.load(h)['private_key']
                    if kept != g['priv'] and not evs[-1]['leak']: evs[-1]['leak'] = 'the configuration keeps another form of the key'
        finally: os.write(stopw, b'x'); os.close(stopw); os.waitpid(pid, 0)
    return {'id': job['id'], 'ev': [{k: (v.encode('ascii', 'replace').decode() if isinstance(v, str) else v) for k, v in e.items()} for e in evs]}
