"""C02 C03 C05 C06 C07 C09 C11 C12: working copies against spec/Sync.tla"""
import random
from lib import *

def walks(n, depth, seed, mix='none', nested=True, rules=False, P=None):
    P = P or (['a', 'b', 'c', 'I'] if rules else ['a', 'b', 'c'] + (['D'] if nested else []))
    cfg = 'CONSTANTS\n W = {"w1", "w2"}\n P = {%s}\n X = {"x", "y", "z", "e"}\n Depth = %d\n Rules = %s\n Nested = %s\n Mix = "%s"\nSPECIFICATION Spec\nINVARIANT PrintEnd\n' % (
        ', '.join('"%s"' % p for p in P), depth, str(rules).upper(), str(nested and not rules).upper(), mix)
    return generate('SyncGen', cfg, sim=n, depth=depth * 6, seed=seed)[0]

SIZES = [{}, {'x': 70000}, {'y': 1}, {'x': 1100000}]
def job(i, ops, rnd, **kw):
    ops = [dict(o) for o in ops]
    paths = kw.pop('paths', ['a', 'b', 'c', 'D'])
    for o in ops:
        o['seed'] = rnd.randrange(1000)
        if o['op'] == 'edit' and rnd.random() < .15: o['back'] = True
        if o['op'] == 'commit' and rnd.random() < .3: o['msg'] = rnd.choice(['m', 'a message: with colon', ' \u00fc \U0001f600', 'two\nlines: of "text"'])
        if o['op'] == 'rm': o['dirs'] = 'D' in paths or rnd.random() < .6    # an empty directory left there would be in the way of a file
        if o['op'] in ('revert', 'pullignore'): o['sub'] = rnd.random() < .3
    ops = [{'op': 'checkout', 'w': w, 'how': rnd.choice(['ok', 'ok', 'slash', 'spaces'])} for w in ('w1', 'w2')] + ops
    return dict({'id': i, 'paths': paths, 'contents': ['x', 'y', 'z', 'e', 'i1', 'i2', 'i3'], 'ops': ops, 'pathset': rnd.randrange(16), 'sizes': rnd.choice(SIZES),
                 'users': rnd.choice([{'w1': 'u1', 'w2': 'u2'}, {'w1': 'u1', 'w2': 'u1'}])}, **kw)
def paths_of(rules, nested=True): return ['a', 'b', 'c', 'I'] if rules else ['a', 'b', 'c'] + (['D'] if nested else [])

def go(c, name, js):
    t = time.time()
    tr = [x for l in run_jobs('d_sync', js, shim=True) for x in l]
    c.conformance(name, 'SyncTrace', tr, None, jobs=len(js), drive_s=round(time.time() - t, 1))
def plain(c, name, n, depth, seed, mix='none', rules=False, nested=True, P=None):
    rnd = random.Random(seed)
    go(c, name, [job(i, s, rnd, paths=P or paths_of(rules, nested)) for i, s in enumerate(walks(n, depth, seed, mix, nested, rules, P))])

# ---- the design
def model(c, P, X, hist, edits, rules, W=('w1', 'w2')):
    q = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    cfg = 'CONSTANTS\n W = %s\n P = %s\n X = %s\n MaxHist = %d\n MaxEdits = %d\n Rules = %s\nSPECIFICATION Spec\nINVARIANTS Honest CleanMeansSame\nPROPERTIES Kept Up2Date Exact\n' % (q(W), q(P), q(X), hist, edits, str(rules).upper())
    c.model('design: %d working copies, %d paths, %d contents, %d versions, %d edits%s' % (len(W), len(P), len(X), hist, edits, ', rules' if rules else ''),
            model_check('SyncMC', cfg, workers=NCPU, timeout=850))

def copies(c, P, X, hist, edits, W=('w1', 'w2')):
    q = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    cfg = 'CONSTANTS\n W = %s\n P = %s\n X = %s\n MaxHist = %d\n MaxEdits = %d\nSPECIFICATION Spec\nPROPERTIES OnlyAsked Reverts Publishes ChecksOut\n' % (q(W), q(P), q(X), hist, edits)
    c.model('design: reverts and checkouts of %d working copies, %d paths, %d versions, %d edits' % (len(W), len(P), hist, edits), model_check('CopyMC', cfg, workers=NCPU, timeout=850))

def first(ops, kinds, rnd, lo=2):
    ix = [k for k, o in enumerate(ops) if o['op'] in kinds and k >= lo]
    return rnd.choice(ix[len(ix) // 3:]) if ix else None
def interrupted(c, name, n, depth, seed, opk, kind, maxk, recrash=0, rest=.3, between=None, users=None, mix='none', rules=False, answers=None):
    """ an operation which is killed, or loses its connection, at each of its points, and is run again """
    rnd = random.Random(seed); js = []
    for i, s in enumerate(walks(n, depth, seed, mix, True, rules)):
        j = job(i, s, rnd, paths=paths_of(rules))
        at = first(j['ops'], [opk], rnd, 4)
        if at is None: continue
        if users: j['users'] = users
        j['ops'] = j['ops'][:at + 3]
        j.update(at=at, maxk=maxk, kind=kind, recrash=recrash, rest=rnd.random() < rest, restart=rnd.random() < .15)
        if opk == 'update': j['after'] = .4
        if between: j['between'] = between(j, j['ops'][at]['w'], rnd)
        js.append(j)
    go(c, name, js)
def meanwhile(c, name, n, depth, seed, opk, act, ops):
    """ things that happen while a command is held in the middle of a request """
    rnd = random.Random(seed); js = []
    for i, s in enumerate(walks(n, depth, seed)):
        j = job(i, s, rnd); w = None
        for k, o in enumerate(j['ops']):
            if o['op'] == opk and k > 4 and rnd.random() < .7: o['during'] = {'at': act, 'n': rnd.choice([1, 1, 2]), 'ops': ops(o['w'], rnd)}
        js.append(j)
    go(c, name, js)
def other(w): return 'w2' if w == 'w1' else 'w1'
def E(w, p, x): return {'op': 'edit', 'w': w, 'p': p, 'x': x}
def their_commit(w, rnd):
    o = other(w)
    return [{'op': 'update', 'w': o, 'ans': 'server'}] * (rnd.random() < .7) + [rnd.choice([E(o, rnd.choice('abc'), rnd.choice('xyz')), {'op': 'rm', 'w': o, 'p': rnd.choice('abc'), 'dirs': True}]) for _ in range(rnd.choice([1, 2]))] + [{'op': 'commit', 'w': o}]

def missing(c, name, n, depth, seed):
    """ the server has lost a file during some update """
    rnd = random.Random(seed); js = []
    for i, s in enumerate(walks(n, depth, seed)):
        j = job(i, s, rnd); f = {}
        for k, o in enumerate(j['ops']):
            if o['op'] == 'update' and k > 4 and rnd.random() < .6: f[str(k)] = {'kind': 'missing', 'x': rnd.choice('xyze')}
        js.append(dict(j, faults=f, again=1))
    go(c, name, js)

def resolutions(s, rnd):
    """ wrong resolution files before the right one """
    out = []
    for o in s:
        if o['op'] == 'resfile':
            for how in rnd.sample(['mixed', 'drop', 'extra', 'word', 'empty', 'blank'], rnd.choice([0, 1, 2])):
                out += [dict(o, how=how), dict(op='update', w=o['w'], full=False)]
        out.append(o)
    return out

# ---- dense cases of what long walks meet rarely
def change(w, p, rnd, rm=.3): return {'op': 'rm', 'w': w, 'p': p, 'dirs': True} if rnd.random() < rm else E(w, p, rnd.choice('xyze'))
def U(w, ans='', full=False): return {'op': 'update', 'w': w, 'ans': ans, 'full': full}
def Co(w): return {'op': 'commit', 'w': w}
def base(rnd, lo=1): return [E('w1', p, rnd.choice('xyz')) for p in rnd.sample('abc', rnd.randint(lo, 3))] + [Co('w1'), U('w2')]
def disagreements(c, name, n, seed):
    """ several paths changed on both sides, resolved one by one """
    rnd = random.Random(seed); js = []
    for i in range(n):
        ops = base(rnd, 2)
        for w in ('w1', 'w2'):
            ops += [change(w, p, rnd) for p in rnd.sample('abc', rnd.choice([2, 3, 3]))]
        ps = rnd.choice([['a'], ['b'], ['c'], ['a', 'b'], ['a', 'c'], ['b', 'c']])
        r = {'op': 'resfile', 'w': 'w2', 'ps': ps}
        ops += [Co('w1'), U('w2', 'manual')] + resolutions([r], rnd) + ([change('w2', rnd.choice('abc'), rnd)] if rnd.random() < .3 else []) + [U('w2'), Co('w2'), U('w1', 'server')]
        js.append(job(i, ops, rnd, paths=['a', 'b', 'c'], pathset=[4, 0, 1, 5, 2, 3, 6, 7, 8, 9, 10, 11, 12][i % 13]))
    go(c, name, js)
def resolved_and_stopped(c, name, n, seed, kind, maxk, last=False):
    """ an update which applies a resolution file is stopped; the same paths may be changed on both sides once more before the next one """
    rnd = random.Random(seed); js = []
    for i in range(n):
        ops, ps = base(rnd, 2), rnd.sample('abc', rnd.choice([1, 1, 2]))
        for w in ('w1', 'w2'): ops += [change(w, p, rnd) for p in ps + rnd.sample('abc', rnd.choice([0, 1]))]
        ops += [Co('w1'), U('w2', 'manual'), {'op': 'resfile', 'w': 'w2', 'ps': [p for p in 'abc' if rnd.random() < .5]}]
        at = len(ops) + 2
        ops += [U('w2'), U('w2', 'client'), Co('w2'), U('w1', 'server')]
        j = job(i, ops, rnd, paths=['a', 'b', 'c'], at=at, maxk=maxk, kind=kind, last=last, rest=True, sizes={})
        if rnd.random() < .7: j['between'] = [E('w1', p, x) for p, x in zip(ps, rnd.sample('xyz', 3))] + [Co('w1')] + [E('w2', p, x) for p, x in zip(ps, rnd.sample('xyz', 3))]
        js.append(j)
    go(c, name, js)
def interrupted_commits(c, name, n, seed, kind, maxk):
    """ commits with deletions and several uploads, interrupted late and done again """
    rnd = random.Random(seed); js = []
    for i in range(n):
        gone = rnd.sample('abc', rnd.choice([1, 1, 2])); new = [p for p in 'abcd' if p not in gone and p != 'd']
        ops = [E('w1', p, rnd.choice('xyz')) for p in ('abc' if i % 2 else gone)] + [Co('w1'), U('w2')]
        todo = [{'op': 'rm', 'w': 'w1', 'p': p, 'dirs': True} for p in gone] + [E('w1', p, x) for p, x in zip(new, rnd.sample('xyz', len(new)))]
        rnd.shuffle(todo)
        at = len(ops) + len(todo) + 2                       # after the two checkouts
        j = job(i, ops + todo + [Co('w1'), U('w2')], rnd, paths=['a', 'b', 'c'], at=at, maxk=maxk, kind=kind, late=True, rest=True, recrash=.2)
        j['sizes'] = rnd.choice([{}, {'x': 70000, 'y': 70001}])
        j['between'] = rnd.choice([[], [], [], [change('w1', rnd.choice('abc'), rnd)]]) if i % 2 else rnd.choice([[], [{'op': 'rm', 'w': 'w1', 'p': rnd.choice(new), 'dirs': True}]])
        js.append(j)
    go(c, name, js)

def dense(c, name, n, seed, kind=None, maxk=0, recrash=0):
    """ updates after several changes of the other one, of one kind or mixed, over little or no local work or a local file instead of a directory; also interrupted """
    rnd = random.Random(seed); js = []
    for i in range(n):
        there = 'a' if i % 8 == 7 else rnd.sample('abc', 2) if i % 4 == 3 else 'abc'
        ops = [E('w1', p, rnd.choice('xyz')) for p in there] + [Co('w1'), U('w2')]
        if len(there) < 3: ops += [E('w1', p, rnd.choice('xyz')) for p in 'abc'] + [Co('w1')] + [{'op': 'rm', 'w': 'w1', 'p': p, 'dirs': True} for p in 'abc' if p not in there] + [Co('w1')]   # come and gone
        ps = rnd.sample('abc', rnd.choice([2, 2, 3])); style = i % 3
        ops += [change('w1', p, rnd, [1, 0, .5][style]) for p in ps]
        local = 'file' if i % 8 == 7 else rnd.choice(['', '', 'some', 'file'])
        if local == 'some': ops += [change('w2', rnd.choice('abc'), rnd)]
        if local == 'file': ops += [{'op': 'rm', 'w': 'w2', 'p': p, 'dirs': True} for p in 'bc'] + [E('w2', 'D', rnd.choice('xyz'))]
        at = len(ops) + 3
        u = U('w2', rnd.choice(['client', 'server', 'server']))
        ops += [Co('w1'), u] + [dict(u, full=rnd.random() < .3)] * (kind is None) + [Co('w2'), U('w1', 'server')]
        j = job(i, ops, rnd)
        if rnd.random() < .3: j['pathset'] = 0
        if kind == 'deny': j.update(faults={str(at): {'kind': 'deny', 'p': rnd.choice('abc')}}, again=1)
        elif kind: j.update(at=at, maxk=maxk, kind=kind, recrash=recrash, rest=rnd.random() < .5, after=.2)
        js.append(j)
    go(c, name, js)
def reverting(c, name, n, seed, kind=None, maxk=0, recrash=0, expire=False):
    """ several versions, local work and rules, and reverts to one of the versions; also interrupted """
    rnd = random.Random(seed); js = []
    for i in range(n):
        ops = [E('w1', p, x) for p, x in zip(rnd.sample('abc', rnd.choice([2, 3, 3])), rnd.sample('xyz', 3))] + [Co('w1')]
        upd = rnd.choice([0, 0, 1, 2]); rules = i % 3 == 0
        if upd == 0: ops += [U('w2')]
        for k in range(rnd.choice([1, 2])):
            ops += [change('w1', p, rnd) for p in rnd.sample('abc', rnd.choice([1, 2, 2, 3]))] + [Co('w1')]
            if upd == k + 1: ops += [U('w2')]
        if upd and rnd.random() < .3: ops += [U('w2')]
        if rnd.random() < .6: ops += [change('w2', p, rnd, .5) for p in rnd.sample('abc', rnd.choice([1, 2]))]
        if rules: ops += [{'op': 'pign', 'w': 'w2', 'ps': rnd.choice([['a'], ['b'], ['c'], ['b', 'c']])}] + ([{'op': 'pign', 'w': 'w2', 'ps': rnd.choice([[], ['a']])}] if rnd.random() < .4 else [])
        full = rnd.random() < .4
        r = {'op': 'revert', 'w': 'w2', 'full': full, 'v': rnd.choice([0, 0, 0, 1, 1, 2, -1]), 'ps': [] if full else rnd.choice([['a', 'b', 'c'], ['a', 'b'], ['b', 'c'], ['a', 'c'], ['b']]), 'ans': ''}
        at = len(ops) + 2
        if expire: r['during'] = {'at': 'pull_file', 'n': rnd.choice([1, 2, 2, 3]), 'ops': [{'op': 'expire'}]}
        ops += [r] + [{k: v for k, v in r.items() if k != 'during'}] * (expire or rnd.random() < .3) + rnd.choice([[], [dict(r, v=rnd.choice([0, 1]), during=None)]]) + [Co('w2'), U('w2', 'client'), Co('w2'), U('w1', 'server')]
        j = job(i, ops, rnd, paths=['a', 'b', 'c'])
        if i % 4 == 1:                                       # directories whose names are patterns
            j['pathset'] = 13 + i // 4 % 2
            for o in j['ops']: o['sub'] = o['op'] == 'revert'
        if kind == 'deny': j.update(faults={str(at): {'kind': 'deny', 'p': rnd.choice('abc')}}, again=1)
        elif kind: j.update(at=at, maxk=maxk, kind=kind, recrash=recrash, rest=rnd.random() < .5)
        js.append(j)
    go(c, name, js)
def expiring(c, name, n, depth, seed, kinds=('update', 'commit'), mix='none', rules=False):
    """ sessions which expire, and other people who log in, while a command is held in the middle of a request """
    rnd = random.Random(seed); js = []
    for i, s in enumerate(walks(n, depth, seed, mix, True, rules)):
        j = job(i, s, rnd, paths=paths_of(rules)); out = []
        for k, o in enumerate(j['ops']):
            out.append(o)
            if k < 4 or o['op'] not in kinds or rnd.random() < .3: continue
            w = other(o['w'])
            o['during'] = {'at': 'pull_file' if o['op'] != 'commit' else rnd.choice(['push_file', 'push_file', 'commit', 'delete_files']), 'n': rnd.choice([1, 1, 2]),
                           'ops': [{'op': 'expire'}] + rnd.choice([[], [{'op': 'lists', 'w': w, 'how': 'versions'}], [{'op': 'update', 'w': w}]])}
            if o['op'] != 'commit': out.append({k: v for k, v in o.items() if k != 'during'})
        j['ops'] = out; js.append(j)
    go(c, name, js)

def C02():
    c = Check('C02', 'fault_enumeration')
    model(c, ['a'], ['x'], 2, 3, False) if QUICK else model(c, ['a', 'b'], ['x', 'y'], 2, 3, False)
    disagreements(c, 'paths resolved one by one', 48 if QUICK else 600, SEED + 104)
    plain(c, 'updates over local work', 120 if QUICK else 3000, 12, SEED + 100)
    interrupted(c, 'killed updates', 26 if QUICK else 300, 12, SEED + 101, 'update', 'kill', 12 if QUICK else 60, recrash=.2)
    interrupted(c, 'updates which lose the connection', 12 if QUICK else 150, 12, SEED + 102, 'update', 'drop', 6 if QUICK else 30)
    missing(c, 'updates with a file missing on the server', 30 if QUICK else 300, 12, SEED + 103)
    dense(c, 'updates after several changes, killed', 16 if QUICK else 300, SEED + 105, 'kill', 10 if QUICK else 60, .2)
    dense(c, 'updates stopped with Control-C', 10 if QUICK else 200, SEED + 106, 'int', 10 if QUICK else 60)
    dense(c, 'updates while the disk is full', 8 if QUICK else 200, SEED + 107, 'diskdb', 8 if QUICK else 60)
    return c
def C03():
    c = Check('C03', 'fault_enumeration')
    model(c, ['a'], ['x', 'y'], 2, 3, False) if QUICK else model(c, ['a'], ['x', 'y'], 3, 4, False)
    plain(c, 'updates', 220 if QUICK else 4000, 13, SEED + 110)
    missing(c, 'updates with a file missing on the server', 60 if QUICK else 600, 12, SEED + 111)
    dense(c, 'updates after several changes', 60 if QUICK else 1500, SEED + 113)
    dense(c, 'updates after several changes, killed', 10 if QUICK else 200, SEED + 114, 'kill', 8 if QUICK else 60)
    dense(c, 'updates with a read-only directory', 45 if QUICK else 1000, SEED + 116, 'deny')
    dense(c, 'updates with failing file operations', 10 if QUICK else 200, SEED + 117, 'disk', 8 if QUICK else 60)
    dense(c, 'updates, file system becoming read-only', 10 if QUICK else 200, SEED + 118, 'rofsdb', 8 if QUICK else 60)
    expiring(c, 'sessions which expire', 40 if QUICK else 800, 12, SEED + 115)
    meanwhile(c, 'commits during an update', 60 if QUICK else 600, 12, SEED + 112, 'update', 'pull_file', their_commit)
    return c
def C05():
    c = Check('C05', 'model_checking')
    model(c, ['a'], ['x', 'y'], 2, 3, False) if QUICK else model(c, ['a'], ['x', 'y'], 3, 4, False)
    plain(c, 'conflicts of two paths', 160 if QUICK else 3000, 14, SEED + 120, P=['a', 'b'])
    rnd = random.Random(SEED + 121)
    go(c, 'resolution files', [job(i, resolutions(s, rnd), rnd) for i, s in enumerate(walks(110 if QUICK else 2000, 16, SEED + 121, P=['a', 'b', 'c']))])
    disagreements(c, 'paths resolved one by one', 60 if QUICK else 800, SEED + 123)
    missing(c, 'with a file missing on the server', 30 if QUICK else 400, 12, SEED + 122)
    resolved_and_stopped(c, 'killed while applying a resolution', 14 if QUICK else 150, SEED + 124, 'kill', 6 if QUICK else 60)
    resolved_and_stopped(c, 'killed at the end of applying a resolution', 10 if QUICK else 100, SEED + 125, 'kill', 7, True)
    resolved_and_stopped(c, 'stopped with Control-C while applying a resolution', 8 if QUICK else 100, SEED + 126, 'int', 6 if QUICK else 60, True)
    resolved_and_stopped(c, 'disk full while applying a resolution', 8 if QUICK else 100, SEED + 127, 'diskdb', 6 if QUICK else 60, True)
    return c
def C06():
    c = Check('C06', 'fault_enumeration')
    model(c, ['a'], ['x', 'y'], 2, 3, False) if QUICK else model(c, ['a', 'b'], ['x', 'y'], 2, 3, False)
    plain(c, 'commits', 130 if QUICK else 2500, 12, SEED + 130)
    mods = lambda w, rnd: [rnd.choice([E(w, rnd.choice('abc'), rnd.choice('xyze')), {'op': 'touch', 'w': w, 'p': rnd.choice('abc')}, {'op': 'rm', 'w': w, 'p': rnd.choice('abc'), 'dirs': True}]) for _ in range(rnd.choice([1, 2]))]
    meanwhile(c, 'files modified during a commit', 60 if QUICK else 700, 12, SEED + 131, 'commit', 'push_file', mods)
    expiring(c, 'sessions which expire', 30 if QUICK else 500, 12, SEED + 137)
    meanwhile(c, 'others during a commit', 25 if QUICK else 300, 12, SEED + 134, 'commit', 'push_file', their_commit)
    def between(j, w, rnd):
        return rnd.choice([[], [E(w, rnd.choice('abc'), rnd.choice('xyz'))], [{'op': 'rm', 'w': w, 'p': rnd.choice('abc'), 'dirs': True}], their_commit(w, rnd),
                           [E(other(w), rnd.choice('abc'), rnd.choice('xyz')), {'op': 'commit', 'w': other(w)}]])
    interrupted_commits(c, 'commits with deletions, killed late', 12 if QUICK else 60, SEED + 135, 'kill', 6 if QUICK else 30)
    interrupted_commits(c, 'commits with deletions which lose the connection late', 16 if QUICK else 60, SEED + 136, 'drop', 6 if QUICK else 30)
    interrupted_commits(c, 'commits stopped with Control-C', 10 if QUICK else 100, SEED + 138, 'int', 7 if QUICK else 40)
    interrupted_commits(c, 'commits while the disk is full', 8 if QUICK else 100, SEED + 139, 'diskdb', 7 if QUICK else 40)
    same = {'w1': 'u1', 'w2': 'u1'}
    interrupted(c, 'killed commits', 14 if QUICK else 150, 10, SEED + 132, 'commit', 'kill', 7 if QUICK else 40, between=between, users=same, recrash=.2)
    interrupted(c, 'commits which lose the connection', 10 if QUICK else 120, 10, SEED + 133, 'commit', 'drop', 6 if QUICK else 30, between=between)
    return c
def ruling(c, name, n, seed, kind=None, maxk=0):
    """ pull-ignore with files to delete or to keep, over rule files of all kinds; also interrupted """
    rnd = random.Random(seed); js = []
    for i in range(n):
        ops = base(rnd, 3) + ([{'op': 'pign', 'w': 'w2', 'ps': [rnd.choice('abc')] if rnd.random() < .5 else []}] if rnd.random() < .6 else [])
        if rnd.random() < .4: ops += [change('w2', rnd.choice('abc'), rnd)]
        at = len(ops) + 2
        r = {'op': 'pullignore', 'w': 'w2', 'ps': rnd.choice([['a'], ['b'], ['c'], ['b', 'c'], ['a', 'b'], ['a', 'b', 'c']]), 'ans': rnd.choice(['delete', 'delete', 'nothing']), 'full': rnd.random() < .7}
        ops += [r, Co('w2')] + [change('w1', rnd.choice('abc'), rnd) for _ in range(2)] + [Co('w1'), U('w2', 'client'), Co('w2'), {'op': 'pign', 'w': 'w2', 'ps': []}, U('w2', 'server', True), U('w1', 'server')]
        j = job(i, ops, rnd, paths=['a', 'b', 'c', 'I'])
        if kind == 'deny': j.update(faults={str(at): {'kind': 'deny', 'p': rnd.choice('abc')}}, again=1)
        elif kind: j.update(at=at, maxk=maxk, kind=kind, recrash=.2, rest=True)
        js.append(j)
    go(c, name, js)
def C07():
    c = Check('C07', 'model_checking')
    model(c, ['a'], ['x'], 2, 3, True) if QUICK else model(c, ['a'], ['x', 'y'], 2, 3, True)
    ruling(c, 'pull-ignore', 50 if QUICK else 1500, SEED + 142)
    ruling(c, 'killed pull-ignore', 14 if QUICK else 200, SEED + 143, 'kill', 9 if QUICK else 40)
    ruling(c, 'pull-ignore, file system becoming read-only', 8 if QUICK else 150, SEED + 144, 'rofsdb', 8 if QUICK else 40)
    ruling(c, 'pull-ignore stopped with Control-C', 8 if QUICK else 150, SEED + 145, 'int', 8 if QUICK else 40)
    ruling(c, 'pull-ignore with a read-only directory', 20 if QUICK else 400, SEED + 146, 'deny')
    plain(c, 'rules', 260 if QUICK else 5000, 14, SEED + 140, mix='rules', rules=True)
    interrupted(c, 'killed updates', 12 if QUICK else 120, 12, SEED + 141, 'update', 'kill', 8 if QUICK else 40, mix='rules', rules=True)
    return c
def C09():
    c = Check('C09', 'fault_enumeration')
    model(c, ['a'], ['x'], 2, 3, False) if QUICK else model(c, ['a', 'b'], ['x', 'y'], 2, 3, False)
    interrupted(c, 'killed updates', 26 if QUICK else 300, 12, SEED + 150, 'update', 'kill', 12 if QUICK else 80, recrash=.35)
    dense(c, 'updates after several changes, killed', 16 if QUICK else 300, SEED + 153, 'kill', 10 if QUICK else 60, .4)
    dense(c, 'updates after several changes which lose the connection', 8 if QUICK else 100, SEED + 154, 'drop', 6 if QUICK else 30)
    interrupted(c, 'killed commits', 16 if QUICK else 150, 11, SEED + 151, 'commit', 'kill', 8 if QUICK else 50, recrash=.35)
    interrupted(c, 'updates which lose the connection', 12 if QUICK else 120, 12, SEED + 152, 'update', 'drop', 6 if QUICK else 30)
    dense(c, 'updates stopped with Control-C', 10 if QUICK else 200, SEED + 155, 'int', 8 if QUICK else 60, .3)
    dense(c, 'updates, file system becoming read-only', 10 if QUICK else 200, SEED + 156, 'rofs', 8 if QUICK else 60, .3)
    return c
def C11():
    c = Check('C11', 'exploration')
    copies(c, ['a'], ['x', 'y'], 2, 3); copies(c, ['a', 'b'], ['x'], 2, 2 if QUICK else 3)
    plain(c, 'reverts', 150 if QUICK else 5000, 13, SEED + 160, mix='revert')
    plain(c, 'reverts with rules', 120 if QUICK else 3000, 14, SEED + 161, mix='both', rules=True)
    reverting(c, 'reverts of several files', 80 if QUICK else 3000, SEED + 165)
    reverting(c, 'reverts while the session expires', 24 if QUICK else 500, SEED + 166, expire=True)
    reverting(c, 'killed reverts', 20 if QUICK else 300, SEED + 162, 'kill', 9 if QUICK else 60, .2)
    reverting(c, 'reverts which lose the connection', 10 if QUICK else 100, SEED + 164, 'drop', 6 if QUICK else 20)
    reverting(c, 'reverts with a read-only directory', 60 if QUICK else 1000, SEED + 167, 'deny')
    reverting(c, 'reverts with failing file operations', 10 if QUICK else 200, SEED + 168, 'disk', 7 if QUICK else 60)
    reverting(c, 'reverts stopped with Control-C', 8 if QUICK else 200, SEED + 169, 'int', 7 if QUICK else 60)
    return c
def aged(c, name, n, depth, seed, kind=None, maxk=0, rules=False):
    """ an old client's working copies, met by each command; with kind also interrupted """
    rnd = random.Random(seed); js = []
    for i, s in enumerate(walks(n, depth, seed, 'rules' if rules else 'revert', True, rules)):
        j = job(i, s, rnd, paths=paths_of(rules)); ops = []; at = None
        for o in j['ops']:
            online = o['op'] in ('update', 'commit', 'revert', 'pullignore')
            if online and len(ops) > 1 and rnd.random() < .45:
                ops.append({'op': 'legacy', 'w': o['w'], 'seed': rnd.randrange(1000)})
                if rnd.random() < .3: ops.append(rnd.choice([E(o['w'], rnd.choice('abc'), rnd.choice('xyz')), {'op': 'rm', 'w': o['w'], 'p': rnd.choice('abc'), 'dirs': True}, {'op': 'touch', 'w': o['w'], 'p': rnd.choice('abc')},
                                                              {'op': 'legacy', 'w': other(o['w']), 'seed': 1}, {'op': 'pign', 'w': o['w'], 'ps': [rnd.choice('abc')]}]))
                if rnd.random() < .15: ops.append({'op': 'lists', 'w': o['w'], 'how': rnd.choice(['files', 'versions', 'changes', 'ignored'])})
                if kind and len(ops) > 8 and (at is None or rnd.random() < .5): at = len(ops)
            ops.append(o)
        if kind:
            if at is None: continue
            j.update(at=at, maxk=maxk, kind=kind, recrash=.3, rest=rnd.random() < .3); ops = ops[:at + 3]
        j['ops'] = ops; js.append(j)
    go(c, name, js)
def M01():
    c = Check('M01', 'fault_enumeration')
    model(c, ['a'], ['x', 'y'], 2, 3, False) if QUICK else model(c, ['a'], ['x', 'y'], 3, 4, False)
    aged(c, 'old working copies', 120 if QUICK else 3000, 13, SEED + 180)
    aged(c, 'old working copies with rules', 110 if QUICK else 3000, 13, SEED + 183, rules=True)
    aged(c, 'old working copies, killed', 14 if QUICK else 150, 12, SEED + 181, 'kill', 10 if QUICK else 40)
    aged(c, 'old working copies which lose the connection', 8 if QUICK else 100, 12, SEED + 182, 'drop', 6 if QUICK else 20)
    return c
def C12():
    c = Check('C12', 'fault_enumeration'); rnd = random.Random(SEED + 170); js = []
    copies(c, ['a'], ['x', 'y'], 2, 3); copies(c, ['a', 'b'], ['x'], 2, 2 if QUICK else 3)
    for i, s in enumerate(walks(90 if QUICK else 1500, 9, SEED + 170)):
        j = job(i, s, rnd); j['users']['w3'] = rnd.choice(['u1', 'u3'])
        bad = ['wrongkey', 'wronguser', 'stranger', 'norepo', 'badurl', 'badurl', 'nouser', 'nokey', 'exists']
        co = lambda how, w='w3': {'op': 'checkout', 'w': w, 'how': how, 'seed': rnd.randrange(1000)}
        ops = j['ops']; k = rnd.randint(2, len(ops))
        new = [co(h) for h in rnd.sample(bad, 2)] + [co(rnd.choice(['ok', 'ok', 'slash', 'spaces']))] + [co(rnd.choice(bad + ['ok'] * 4), rnd.choice(['w3', 'w3', 'w1']))] * (rnd.random() < .6)
        tail = [{'op': 'lists', 'w': 'w3', 'how': 'versions'}, E('w3', rnd.choice('abc'), rnd.choice('xyz')), {'op': 'commit', 'w': 'w3', 'msg': 'm'}, {'op': 'update', 'w': 'w1', 'ans': 'server'}]
        j['ops'] = ops[:k] + new + tail + ops[k:]
        js.append(j)
    go(c, 'checkouts', js)
    broken_checkouts(c, 'killed checkouts', 9 if QUICK else 80, SEED + 171, 'kill', 12 if QUICK else 60)
    broken_checkouts(c, 'checkouts which lose the connection', 7 if QUICK else 80, SEED + 172, 'drop', 10 if QUICK else 40)
    broken_checkouts(c, 'checkouts on a full disk', 5 if QUICK else 60, SEED + 173, 'disk', 10 if QUICK else 40)
    broken_checkouts(c, 'checkouts stopped by Control-C', 5 if QUICK else 60, SEED + 174, 'int', 10 if QUICK else 40)
    return c
def broken_checkouts(c, name, n, seed, kind, maxk):
    rnd = random.Random(seed); js = []
    for i in range(n):
        ops = base(rnd, 2) + [change('w1', rnd.choice('abc'), rnd), Co('w1')]
        tail = [E('w3', rnd.choice('abc'), rnd.choice('xyz')), dict(Co('w3'), msg='m'), U('w1', 'server')]
        j = job(i, ops + [{'op': 'checkout', 'w': 'w3', 'how': 'ok'}] + tail, rnd, paths=['a', 'b', 'c'], at=len(ops) + 2, maxk=maxk, kind=kind, rest=i % 2 == 0, sizes={})
        j['users'] = dict(j['users'], w3=rnd.choice(['u1', 'u3'])); js.append(j)
    go(c, name, js)
def P01():
    c = Check('P01', 'model_checking'); rnd = random.Random(SEED + 200); js = []
    __import__('c_access').versions(c)
    for i, s in enumerate(walks(60 if QUICK else 1000, 11, SEED + 200, 'rules' if SEED % 2 else 'revert', False, SEED % 2 == 1)):
        j = job(i, s, rnd, paths=paths_of(SEED % 2 == 1, False)); j['users']['w3'] = 'u1'; ops, old = [], False
        for o in j['ops'] + [{'op': 'checkout', 'w': 'w3', 'how': 'ok'}]:
            if len(ops) > 2 and rnd.random() < .5: d = rnd.choice([-1, -1, -2, -3, 0, 1, 7, 97]); ops.append({'op': 'srvver', 'w': 'w1', 'd': d}); old = d < 0
            if old and o['op'] != 'checkout' and rnd.random() < .5: ops.append(dict(listed(o['w'], rnd, (0, -1, 1)), how=rnd.choice(['files', 'changes', 'versions'])))
            ops.append(o)
        ops += [{'op': 'srvver', 'w': 'w1', 'd': 0}] + ([{'op': 'checkout', 'w': 'w3', 'how': 'ok'}] if old else []) + [U('w1', 'server'), Co('w1'), U('w2', 'server')]
        js.append(dict(j, ops=ops))
    go(c, 'clients which meet an older server', js)
    return c
def listed(w, rnd, vs=(0, 0, -1, 1, 2, 3, 99)):
    return {'op': 'lists', 'w': w, 'how': rnd.choice(['files', 'pulled', 'changes', 'versions', 'ignored']), 'v': rnd.choice(vs)}
def listings(c, n, seed, name='listings of the client'):
    rnd = random.Random(seed); js = []
    for i, s in enumerate(walks(n, 11, seed, 'rules' if i_rules(seed) else 'revert', False, i_rules(seed))):
        out, h = [], 0
        j = job(i, s, rnd, paths=paths_of(i_rules(seed), False))
        for o in j['ops']:
            out.append(o); h += o['op'] == 'commit'
            if o['op'] in ('commit', 'update', 'pign', 'revert', 'checkout') and rnd.random() < .6:
                out += [dict(listed(o['w'], rnd), how=how, seed=rnd.randrange(1000), sub=rnd.random() < .3) for how in rnd.sample(['files', 'pulled', 'changes', 'versions', 'ignored'], 2)]
                if rnd.random() < .1: out.append(dict(listed(o['w'], rnd), how=rnd.choice(['files', 'pulled', 'changes']), ans='bad', seed=rnd.randrange(1000)))
                if rnd.random() < .1: out[-1] = dict(out[-1], during={'at': {'files': 'list_files', 'pulled': 'list_files', 'changes': 'list_changes', 'versions': 'list_versions', 'ignored': 'none'}[out[-1]['how']], 'ops': [{'op': 'expire'}]})
        js.append(dict(j, ops=out))
    go(c, name, js)
def listed_many(c, n, length, seed):
    """ more versions than the server lists """
    rnd = random.Random(seed); js = []
    for i in range(n):
        ops = []
        for k in range(length):
            if k % 17 == 5: ops += [U('w2'), U('w1')]
            p = rnd.choice('abc'); ops += [E('w1', p, rnd.choice('xyz')), {'op': 'touch', 'w': 'w1', 'p': p}, dict(Co('w1'), msg='m%d' % k)]
            if k > length - 4 or k % 15 == 0: ops += [listed(w, rnd, (0, -1, 1, 2, k // 2, k)) for w in ('w1', 'w2')] + [dict(listed('w1', rnd), how='versions')]
        js.append(job(i, ops, rnd, paths=['a', 'b', 'c']))
    go(c, 'listings of many versions', js)
def listed_names(c, n, seed):
    """ versions which change files of every kind of name, all at once """
    rnd = random.Random(seed); js = []
    for i in range(n):
        ps, ops, all_ = list('abc'), [], lambda w: [listed(w, rnd, v) for v in ((0, 1), (-1,))] + [dict(listed(w, rnd, (0, -1, 1, 2)), how=how) for how in ('changes', 'pulled', 'files')]
        for p in ps: ops += [E('w1', p, rnd.choice('xyz'))]
        ops += [Co('w1')] + all_('w1')
        if rnd.random() < .5: ops.append({'op': 'pign', 'w': 'w2', 'ps': [rnd.choice(ps)]})
        ops += [U('w2')] + all_('w2')
        for p in ps:
            if rnd.random() < .7: ops += [rnd.choice([E('w1', p, rnd.choice('xyze')), {'op': 'rm', 'w': 'w1', 'p': p}]), {'op': 'touch', 'w': 'w1', 'p': p}]
        ops += [Co('w1')] + all_('w1') + all_('w2')
        js.append(job(i, ops, rnd, paths=ps, pathset=i % 15))
    go(c, 'listings of all kinds of names', js)
def listed_cut(c, n, seed, maxk):
    """ the connection is lost while something is listed """
    rnd = random.Random(seed); js = []
    for i in range(n):
        ops = base(rnd, 2) + [change('w1', rnd.choice('abc'), rnd), Co('w1')]; w = rnd.choice(['w1', 'w2'])
        o = dict(listed(w, rnd, (0, -1, 1)), how=rnd.choice(['files', 'pulled', 'changes', 'versions']))
        if rnd.random() < .4: ops.append({'op': 'pign', 'w': w, 'ps': [rnd.choice('abc')]})
        js.append(job(i, ops + [o], rnd, paths=['a', 'b', 'c'], at=len(ops) + 2, maxk=maxk, kind='drop', rest=i % 2 == 0, sizes={}))
    go(c, 'listings which lose the connection', js)
def i_rules(seed): return seed % 2 == 0
def L01():
    c = Check('L01', 'model_checking')
    copies(c, ['a'], ['x', 'y'], 2, 3)
    for k in range(2): listings(c, 60 if QUICK else 1000, (SEED + 190) * 2 + k, 'listings' + ['', ' with rules'][(k + 1) % 2])
    listed_many(c, 6 if QUICK else 30, 58, SEED + 191)
    listed_names(c, 60 if QUICK else 600, SEED + 193)
    listed_cut(c, 16 if QUICK else 150, SEED + 192, 12 if QUICK else 60)
    return c
