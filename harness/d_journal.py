"""driver: transactions over a real working copy (client.init, journaling_filesystem, client_filesystem_interface), with crashes and errors"""
import os, sys, json, random, shutil, hashlib, ctypes, signal
from srv import run_lives, shim, late

def content(x): return b'' if x == 'e' else ('content of %s\n' % x).encode() * 40
NAMES = {hashlib.sha256(content(x)).hexdigest(): x for x in 'xyze'}
PATHS = [{'a': '/a', 'b': '/d/b', 'c': '/c', 'D': '/d'}, {'a': '/d/a', 'b': '/d/b', 'c': '/d/e/a', 'D': '/d/e'}, {'a': '/1_a', 'b': '/d/ü b', 'c': '/d/1_a', 'D': '/d'}]

class Bad(Exception): pass

class Run:
    def __init__(self, job, root):
        self.job, self.root = job, root
        self.paths = PATHS[job['pathset']]; self.rpaths = {v: k for k, v in self.paths.items()}
        os.makedirs(root + '/.bvn'); os.makedirs(root + '/d/e')
        open(root + '/.bvn/client_configuration.json', 'w').write(json.dumps({'server_domain': 'http://127.0.0.1:9', 'user': 'u', 'repository': 'r', 'private_key': ''}))
        self.t = 1500000000.0
    def init(self):
        import bversion.client as client
        if client.server_connection is None: client.server_connection = object()      # nothing here talks to a server
        os.chdir(self.root); client.init(True); return client
    def row(self, c, p, h):
        import bversion.common as common
        i = c.data_store.get_single_file_info(p); i['server_file_hash'] = h; c.cdb.add_file_to_manifest(i)
    def life(self, start, emit, again):
        job = self.job; n = len(job['txns'])
        if not again:
            emit({'in': 'start'})
            c = self.init()
            for p, x in job['files']:
                f = self.root + self.paths[p]; open(f, 'wb').write(content(x)); os.utime(f, (self.t, self.t)); self.t += 7
                self.row(c, self.paths[p], x)
            c.cdb.commit(); emit({'ev': self.event('start', {}, look=self.look())})
            c.cdb.con.close(); self.close(c)
        else:
            k = job['recrash'].pop(0) if job.get('recrash') else 0
            emit({'in': 'recover'})
            if k: shim().shim_arm(self.root.encode(), k, -1)
            c = self.init()
            if k: shim().shim_disarm()
            emit({'ev': self.event('recover', {}, look=self.look())})
            self.close(c)
        for i in range(start, n):
            t = job['txns'][i]; emit({'in': i})
            c = self.init()
            k = job.get('crash', {}).get(str(i)); fk = job.get('fault', {}).get(str(i))
            if k: shim().shim_arm(self.root.encode(), k, -1)
            if fk and job.get('int'): signal.signal(signal.SIGINT, signal.default_int_handler); shim().shim_interrupt(self.root.encode(), fk)
            elif fk: (shim().shim_lasting if job.get('lasting') else shim().shim_fault)(self.root.encode(), fk, job.get('errno', 28))
            if fk and job.get('db'): shim().shim_dbtoo()
            try: ok, res = self.txn(c, t)
            except KeyboardInterrupt: ok, res = 0, 'err'
            pts = shim().shim_disarm() if k or fk else 0
            hit = bool(fk and pts >= fk)
            e = self.event('txn', t, ok=ok, res=res, fault=hit, look=None if hit else self.look()); e['points'] = pts
            emit({'ev': e})
            c.cdb.con.close(); self.close(c)
            if hit or t.get('again'): emit({'ev': self.again()})
    def again(self):
        try: c = self.init()
        except BaseException as x:
            o = self.look(); o['err'] = 'init failed: %r' % x; return self.event('recover', {}, look=o)
        c.cdb.con.close(); self.close(c)
        return self.event('recover', {}, look=self.look())
    def close(self, c):
        if c.lock_file is not None: c.lock_file.close(); c.lock_file = None
    def txn(self, c, t):
        ok = 0; j = c.data_store.jfs; P = self.paths
        if t['level'] == 'ds':
            s = t['steps'][0]
            try:
                if s['o'] == 'put': c.data_store.fs_put(P[s['p']], content(s['x']) if self.job['pathset'] else (lambda f: self.write(f, content(s['x']))), {'server_file_hash': s['x']})
                elif s['o'] == 'bad': c.data_store.fs_put(P[s['p']], self.bad, {'server_file_hash': 'q'})
                elif s['o'] == 'move': c.data_store.fs_move(P[s['p']], P[s['q']])
                elif s['o'] == 'del': c.data_store.fs_delete(P[s['p']])
                return 1, 'ok'
            except Exception: return 0, 'err'
        try:
            j.begin()
            for s in t['steps']:
                if s['o'] == 'put': j.file_put_contents(P[s['p']], content(s['x']))
                elif s['o'] == 'bad': j.file_put_contents(P[s['p']], self.bad)
                elif s['o'] == 'move': j.move_file(P[s['p']], P[s['q']])
                elif s['o'] == 'del': j.delete_file(P[s['p']])
                ok += 1
            if t['end'] == 'commit': j.commit()
            else: j.rollback()
            return ok, 'ok'
        except (Exception, KeyboardInterrupt):
            try: j.rollback()
            except Exception: pass
            return ok, 'err'
    def bad(self, f):
        self.write(f, b'half'); raise Bad()
    def write(self, f, b):
        with open(f, 'wb') as fh: fh.write(b)
    def event(self, op, t, ok=0, res='ok', fault=False, look=None):
        return {'op': op, 'level': t.get('level', ''), 'steps': t.get('steps', []), 'end': t.get('end', ''), 'ok': ok, 'res': res, 'fault': fault, 'look': look is not None,
                'obs': look or {'err': '', 'files': [], 'man': [], 'journal': 0}}
    def look(self):
        """ files on disk, the manifest and the journal as another process finds them """
        import sqlite3
        o = {'err': '', 'files': [], 'man': [], 'journal': 0}; times = {}
        for d, ds, fs in os.walk(self.root):
            if '.bvn' in ds: ds.remove('.bvn')
            for f in fs:
                full = os.path.join(d, f); p = full[len(self.root):]
                h = hashlib.sha256(open(full, 'rb').read()).hexdigest()
                o['files'].append([self.rpaths.get(p, p), NAMES.get(h, '?')]); times[p] = os.path.getmtime(full)
        try:
            con = sqlite3.connect('file:%s/.bvn/manifest.db?mode=ro' % self.root, uri=True)
            for p, m, h in con.execute('select path, last_mod, server_file_hash from files'):
                o['man'].append([self.rpaths.get(p, p), h, p in times and float(m) == times[p]])
            o['journal'] = con.execute('select count(*) from journal').fetchone()[0]; con.close()
        except Exception as x: o['err'] = repr(x)
        o['files'].sort(); o['man'].sort()
        return o

def once(job, d):
    root = os.path.join(d, 'wc'); os.makedirs(root)
    job = json.loads(json.dumps(job)); r = Run(job, root)
    plan = list(job.get('recrash', [])); evs = []; start = 0
    for n in range(12):
        job['recrash'] = plan[n - 1:n] if n else []
        rec = run_lives(1, lambda _, emit: r.life(start, emit, n > 0), None, max_lives=1)
        died = [x['died'] for x in rec if 'died' in x]
        evs += [x['ev'] for x in rec if 'ev' in x]
        if not died: break
        where = [x['in'] for x in rec if 'in' in x][-1]
        if died[0] != 99:
            err = [x['raised'] for x in rec if 'raised' in x]
            e = r.event('recover', {}, look=r.look()); e['obs']['err'] = 'died %s %s' % (died[0], (err or [''])[-1][-600:]); evs.append(e); break
        if where == 'recover': evs.append(r.event('recover', {}, res='crash'))
        else: evs.append(r.event('txn', job['txns'][where], res='crash')); start = where + 1
    shutil.rmtree(root, ignore_errors=True)
    return {'id': job['id'], 'dirs': ['D'], 'ev': evs}

def run(job, d):
    """ every crash point (at most maxk) of transaction job['at']; then again with crashes while recovering """
    out = []
    if 'at' not in job: return [once(job, d)]
    i = str(job['at'])
    base = once(dict(job, **{job.get('mode', 'crash'): {i: 1 << 30}}), d)
    out.append(base)
    n = [e['points'] for e in base['ev'] if e['op'] == 'txn'][job['at']:job['at'] + 1]
    n = n[0] if n else 0
    ks = list(range(1, n + 1)); rnd = random.Random('%s' % job['id'])
    if n > job['maxk']: ks = sorted(rnd.sample(ks, job['maxk']))
    for k in ks:
        if late(): break
        j = dict(job, id='%s.%d' % (job['id'], k)); j[job.get('mode', 'crash')] = {i: k}
        if job.get('again'): j['recrash'] = [rnd.randint(1, 9) for _ in range(rnd.choice([1, 1, 2, 3]))]
        out.append(once(j, d))
    return out
