"""driver: repositories with a history made through the real server, then bvn_repo verify / gc on them, undamaged and damaged"""
import os, sys, json, io, contextlib, random, shutil, fcntl, sqlite3, hashlib, signal
import d_store
from srv import *

class Quiet(d_store.Run):
    def look(self, full): return {}

def parse(path):
    try:
        with open(path, 'rb') as f: return json.loads(f.read())
    except Exception: return None
def stored(base):
    """ object -> (file, area) """
    r = {}
    for area in ('index', 'files'):
        b = os.path.join(base, area)
        for a in sorted(os.listdir(b)):
            if os.path.isdir(os.path.join(b, a)):
                for x in sorted(os.listdir(os.path.join(b, a))): r[area[0] + a + x] = os.path.join(b, a, x)
            else: r['stray ' + a] = os.path.join(b, a)
    return r
def graph(base):
    """ kinds and references, from the objects on disk (read independently of the code under test) """
    have = stored(base); kind, refs = {}, []
    for o, p in have.items():
        if o[0] == 'f': kind[o] = 'file'; continue
        j = parse(p)
        if j is None: kind[o] = 'unreadable'; continue
        kind[o] = j['type']
        if j['type'] == 'commit':
            refs.append([o, 'i' + j['tree_root']])
            if j['parent'] != 'root': refs.append([o, 'i' + j['parent']])
        else:
            refs += [[o, 'i' + h] for h in j['dirs'].values()] + [[o, 'f' + f['hash']] for f in j['files'].values()]
    return have, kind, refs
def transient(cf):
    """ the interrupted commit: (there is one, objects it can be resumed with, objects it wrote) """
    p = cf.get('transient_db_path_override') or os.path.join(cf['path'], 'server_transient.db')
    try:
        c = sqlite3.connect(p); act = c.execute('select count(*) from active_commit_exists').fetchone()[0]
        keep = [h for h, in c.execute("select hash from active_commit_changes where status != 'deleted'")] if act else []
        log = [('f' if t == 'file' else 'i') + h for t, h in c.execute('select item_type, item_hash from gc_log')]
        c.close(); return bool(act), ['f' + h for h in keep], log
    except sqlite3.OperationalError: return False, [], []
def finger(base):
    r = []
    for b, ds, fs in os.walk(base):
        for f in fs:
            p = os.path.join(b, f)
            if 'transient' in f or f == 'lock_file': continue
            with open(p, 'rb') as h: r.append((p[len(base):], hashlib.sha1(h.read()).hexdigest()))
    return sorted(r)
def command(repos, cmd, sleep=None):
    """ bvn_repo verify|gc; {repository: verdict} """
    import time
    from bversion import repo_manager
    repo_manager.config = {}; repo_manager.init({'repositories': repos, 's3': {}})
    repo_manager.time = type('T', (), {'sleep': staticmethod(sleep)}) if sleep else time
    sys.argv = ['bvn_repo', cmd]; buf = io.StringIO(); info = ''; raised = False
    hang = False
    try:
        with contextlib.redirect_stdout(buf):
            signal.alarm(15); repo_manager.run()
    except Hang: hang = True
    except BaseException as e: raised = True; info = '%s: %s' % (type(e).__name__, str(e)[:150])
    finally: signal.alarm(0)
    out = buf.getvalue(); v = {}
    for r in repos:
        part = out.split('Results for: %s\n' % r)
        if len(part) > 1:
            p = part[1].split('Results for: ')[0]
            v[r] = 'valid' if 'No issues' in p and 'has the following' not in p else 'issues'
            info = info or p.strip()[:200]
        else: v[r] = 'raised' if raised else 'silent'
    if cmd == 'gc': v = {r: 'raised' if raised else 'done' for r in repos}
    if hang: v = {r: 'hang' for r in repos}
    return v, info.encode('ascii', 'replace').decode()

def damage(p, how, rnd, others):
    with open(p, 'rb') as f: b = f.read()
    if how == 'missing': os.remove(p); return True
    if how == 'empty': n = b''
    elif how == 'short': n = b[:-1]
    elif how == 'long': n = b + rnd.choice([b'\0', b' ', b'\n', b'x'])
    elif how == 'flip':
        if not b: return False
        k = rnd.randrange(len(b)); n = b[:k] + bytes([b[k] ^ (1 << rnd.randrange(8))]) + b[k + 1:]
    elif how == 'digit':                                   # still readable, names something else
        ks = [k for k, c in enumerate(b) if c in b'0123456789']
        if not ks: return False
        k = rnd.choice(ks); n = b[:k] + bytes([48 + (b[k] - 48 + rnd.randrange(1, 10)) % 10]) + b[k + 1:]
    elif how == 'space':                                   # the same meaning, other bytes
        n = b.replace(b', ', b',') if b', ' in b else b + b'\n'
    elif how == "other":
        others = [q for q in others if os.path.exists(q)]
        if not others: return False
        with open(rnd.choice(others), 'rb') as f: n = f.read()
    elif how == 'halves': n = b[len(b) // 2:] + b[:len(b) // 2]
    if n == b: return False
    with open(p, 'wb') as f: f.write(n)
    return True

def look(cf, name, others, op, dmg, rnd, ev, info=''):
    """ damage, run the command, see, repair """
    base = cf['path']; have, kind, refs = graph(base)
    open_, keep, logged = transient(cf)
    hf = os.path.join(base, 'head')
    try:
        with open(hf) as f: head = ['i' + f.read()]
    except FileNotFoundError: head = []
    save = {}; headgone = False; done = []
    for target, how in dmg:
        if target == 'head':
            if not head: continue
            save[hf] = open(hf, 'rb').read(); headgone = True; done.append([target, how])
            if how == 'missing': os.remove(hf)
            else:
                with open(hf, 'w') as f: f.write({'empty': '', 'garbage': 'f' * 64, 'tree': next((o[1:] for o in sorted(kind) if kind[o] == 'tree'), 'x'), 'short': head[0][1:-1], 'root': 'root', 'text': '../../x'}[how])
            continue
        p = have[target]; save[p] = open(p, 'rb').read()
        same = [q for o, q in have.items() if o != target and kind[o] == kind[target]]
        if damage(p, how, rnd, same): done.append([target, how])
        else: del save[p]
    if dmg and not done: return False
    state = {o: 'ok' for o in have}
    for o, how in done:
        if o != 'head': state[o] = 'missing' if how == 'missing' else 'altered'
    before = finger(base); hold = []
    touched = False
    def wait(*a):                                           # gc waits for the end of the running commit
        nonlocal touched
        touched = touched or finger(base) != before
        if not hold: raise RuntimeError('waits for ever')
        hold.pop().close()
    if op == 'gcwait':
        lf = open(os.path.join(base, 'lock_file'), 'w'); fcntl.flock(lf, fcntl.LOCK_EX); hold.append(lf)
    repos = {n: c for n, c in ([(name, cf)] + others if rnd.random() < .5 else others + [(name, cf)])}
    v, inf = command(repos, 'verify' if op == 'verify' else 'gc', sleep=wait)
    if op == 'gcwait' and hold: touched = True; hold.pop().close()       # it did not wait
    if op == 'verify': touched = finger(base) != before
    after = sorted(stored(base))
    ev.append({'op': 'verify' if op == 'verify' else 'gc', 'objs': [[o, kind[o], state[o]] for o in sorted(have)], 'refs': refs, 'head': head, 'headgone': headgone, 'keep': keep, 'logged': logged,
               'open': open_ or bool(logged) , 'verdict': v[name], 'info': inf + (' ' + info if info else ''), 'after': after, 'touched': touched, 'harmed': bool(done), 'vague': not head and 'commit' in kind.values(),
               'damage': done})
    for n, c in others:
        if op == 'verify' and v[n] != 'raised': ev.append(dict(plain(c), op='verify', verdict=v[n], info=inf))
    for p, b in save.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(b)
    return True
def plain(cf):
    have, kind, refs = graph(cf['path']); open_, keep, logged = transient(cf)
    try: head = ['i' + open(os.path.join(cf['path'], 'head')).read()]
    except FileNotFoundError: head = []
    return {'objs': [[o, kind[o], 'ok'] for o in sorted(have)], 'refs': refs, 'head': head, 'headgone': False, 'keep': keep, 'logged': logged, 'open': open_ or bool(logged), 'after': sorted(have),
            'touched': False, 'harmed': False, 'vague': not head and 'commit' in kind.values(), 'damage': []}

KINDS = ['missing', 'empty', 'short', 'long', 'flip', 'digit', 'space', 'other', 'halves']
def run(job, d):
    root = os.path.join(d, 'srv'); os.makedirs(root)
    r = Quiet(dict(job, since=False), root); ev = []
    run_lives(len(job['ops']), r.life, None)
    rnd = random.Random('%s' % job['id'])
    cf = r.config['repositories']['r1']
    rd, wr = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            ex = os.path.join(d, 'other'); shutil.copytree(cf['path'], ex)      # a second, undamaged repository
            others = [[], [('zz', {'path': ex})]][job['id'] % 2]
            explore(job, cf, others, rnd, ev)
            code = 0
        except BaseException:
            import traceback
            ev.append(dict(op='error', info=traceback.format_exc()[-900:], objs=[], refs=[], head=[], headgone=False, keep=[], logged=[], open=False, verdict='', after=[], touched=False, harmed=False, vague=False, damage=[])); code = 0
        finally:
            with os.fdopen(wr, 'w') as f: f.write(json.dumps(ev))
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f: data = f.read()
    os.waitpid(pid, 0)
    return [{'id': '%s.%d' % (job['id'], k), 'ev': [e]} for k, e in enumerate(slimmed(json.loads(data)))]
def slimmed(evs):
    """ short names of the objects """
    for e in evs:
        ids = {o[0] for o in e['objs']} | {x for q in e['refs'] for x in q} | set(e['after']) | set(e['head']) | set(e['keep']) | set(e['logged'])
        m = {o: '%s%d' % (o[0], k) for k, o in enumerate(sorted(ids))}
        e['objs'] = [[m[o], k, s] for o, k, s in e['objs']]; e['refs'] = [[m[a], m[b]] for a, b in e['refs']]
        for f in ('head', 'keep', 'logged', 'after'): e[f] = [m[o] for o in e[f]]
        e['damage'] = [[m.get(o, o), h] for o, h in e['damage']]
    return evs
def explore(job, cf, others, rnd, ev):
    def late(*a): raise Hang()
    signal.signal(signal.SIGALRM, late)
    base = cf['path']
    look(cf, 'r1', others, 'verify', [], rnd, ev)
    have, kind, refs = graph(base)
    hd = [[o, h] for o in sorted(have) for h in KINDS] + [['head', h] for h in ('missing', 'empty', 'garbage', 'tree', 'short', 'root', 'text')]
    single = hd if job['all'] else rnd.sample(hd, min(len(hd), job['n']))
    for x in single: look(cf, 'r1', others, 'verify', [x], rnd, ev)
    for _ in range(job['n'] // 3):
        ds = rnd.sample([x for x in hd if x[0] != 'head'], min(len(hd) - 7, rnd.choice([2, 2, 3, 5])))
        look(cf, 'r1', others, 'verify', list({o: [o, h] for o, h in ds}.values()), rnd, ev)
    for x in rnd.sample([x for x in hd if x[1] in ('missing', 'empty', 'garbage', 'text') and (x[1] != 'empty' or x[0][0] in 'ih')], min(3, len(have))):
        keep = os.path.join(os.path.dirname(base), 'keep'); shutil.copytree(base, keep)
        look(cf, 'r1', [], 'gc', [x], rnd, ev)
        shutil.rmtree(base); os.rename(keep, base)
    if job.get('notransient') and not transient(cf)[0] and not transient(cf)[2]:
        with contextlib.suppress(OSError): os.remove(cf.get('transient_db_path_override') or os.path.join(base, 'server_transient.db'))
    look(cf, 'r1', [], rnd.choice(['gc', 'gcwait']), [], rnd, ev)
    look(cf, 'r1', others, 'verify', [], rnd, ev)
    look(cf, 'r1', [], 'gc', [], rnd, ev)
