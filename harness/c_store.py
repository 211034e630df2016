"""S01-S08, S10, S11: the repository server against spec/Store.tla"""
import random
from lib import *

CLIENTS = {'c1': {'u': 'u1', 'ip': 'i1'}, 'c2': {'u': 'u2', 'ip': 'i1'}, 'c3': {'u': 'u1', 'ip': 'i2'}, 'c4': {'u': 'u1', 'ip': 'i1'}}
ALL = ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc', 'Restart', 'GC', 'PushCut', 'Pull', 'Bad']

def tset(xs): return '{' + ', '.join('"%s"' % x for x in xs) + '}'
def consts(names, P, X, hist, ops, crash=0): return '''CONSTANTS
 Names = %s
 P = %s
 X = %s
 MaxHist = %d
 MaxCrash = %d
 Ops = %s
''' % (tset(names), tset(P), tset(X), hist, crash, tset(ops))

def model(c, names=('c1', 'c2'), P=('a', 'b'), X=('x',), hist=2, crash=1, ops=('Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc', 'Restart', 'GC')):
    c.model('design: %d clients, %d paths, %d contents, %d versions, %d crashes' % (len(names), len(P), len(X), hist, crash),
            model_check('StoreMC', consts(names, P, X, hist, ops, crash) + 'SPECIFICATION Spec\nINVARIANTS VersionsOK NothingLost ResumeOK CleanIdle Reports LockOK CanBegin\nPROPERTIES AppendOnly NothingLeft\n', workers=NCPU, timeout=800))

def walks(n, depth, names, P, X, hist, ops, misuse=40, rare=4, seed=None):
    cfg = consts(names, P, X, hist, ops) + ' Depth = %d\n MinEnd = 1\n Misuse = %d\n Rare = %d\n Sample = 1\nSPECIFICATION GSpec\nINVARIANT PrintEnd\n' % (depth, misuse, rare)
    return generate('StoreGen', cfg, sim=n, depth=depth + 6, seed=SEED if seed is None else seed)[0]

def cover(n, depth, names, P, X, hist, ops, sample=1, lo=1):
    """ one schedule for every transition of the state graph, n of them """
    cfg = consts(names, P, X, hist, ops) + ' Depth = %d\n MinEnd = %d\n Misuse = 0\n Rare = 1\n Sample = %d\nSPECIFICATION ASpec\nVIEW View\nACTION_CONSTRAINT PrintTrans\n' % (depth, lo, sample)
    s, r = generate('StoreGen', cfg)
    s = trie_leaves(s)
    total = len(s)
    if n and len(s) > n: s = random.Random(SEED).sample(s, n)
    return s, total

def jobs(scheds, X, **kw):
    return [dict(kw, id=i, clients=CLIENTS, contents=list(X), ops=s, pathset=i % 16, cset=(i // 2) % 4, chunked=i % 2) for i, s in enumerate(scheds)]

USERS = [('u1', 'u2'), ('u', 'uu'), ('Ann', 'ann'), ("o'b", '%'), ('u 1', 'u')]
REPOS = [('r1', 'r2'), ('r', 'rr'), ('Repo', 'repo'), ('a b', 'a'), ('r_', "r'")]
def vary(js):
    """ other names of users, repositories, other addresses """
    for i, j in enumerate(js):
        u = dict(zip(('u1', 'u2'), USERS[i % 5])); r = dict(zip(('r1', 'r2'), REPOS[i // 2 % 5]))
        j['clients'] = {k: dict(c, u=u[c['u']]) for k, c in j['clients'].items()}; j['ipset'] = i // 3 % 3
        j['repos'] = [r[x] for x in j.get('repos', ['r1'])]; j['override'] = [r[x] for x in j.get('override', [])]
        ren = lambda ops: [dict(o, r=r[o['r']]) if 'r' in o else o for o in ops]
        for k in ('ops', 'script'):
            if k in j: j[k] = ren(j[k])
        if 'threads' in j: j['threads'] = {c: ren(o) for c, o in j['threads'].items()}
    return js

def execute(c, name, js, shim=False, sample=1, **info):
    vary(js)
    traces = [x for l in run_jobs('d_store', js, shim=shim) for x in l]
    c.conformance(name, 'StoreTrace', traces, None, sample=sample, jobs=len(js), **info)

def crashes(scheds, X, kinds, maxk, second=False, **kw):
    """ jobs which crash at every point of one operation of the given kinds """
    rnd, js = random.Random(SEED), []
    for i, s in enumerate(scheds):
        at = [k for k, o in enumerate(s) if o['op'] in kinds]
        if not at: continue
        k = rnd.choice(at[len(at) // 2:] if rnd.random() < .6 else at)
        j = dict(kw, id=i, clients=CLIENTS, contents=list(X), ops=s, pathset=i % 16, cset=(i // 2) % 4, chunked=0, crash_all=k, maxk=maxk)
        if second:
            nb = [m for m, o in enumerate(s) if m > k and o['op'] in kinds]
            if nb: j['crash2'] = {str(nb[0]): rnd.randint(1, 14)}
        js.append(j)
    return js

def recover(s, rnd, who=None):
    """ what is done after the schedule: someone (else) makes a complete commit """
    c = who or rnd.choice(['c1', 'c2', 'c3'])
    B = dict(op='Begin', c=c, back=0, p='', x='', ps=[], msg='')
    return s + [B, dict(B, op='Push', p='a', x=rnd.choice(['x', 'y'])), dict(B, op='Commit', msg='m3')]

def cut(scheds, kinds, tail=0):
    """ end every schedule right after an operation of these kinds """
    out = []
    for s in scheds:
        at = [k for k, o in enumerate(s) if o['op'] in kinds]
        if at: out.append(s[:at[-1] + 1 + tail])
    return out

# ---------------------------------------------------------------------------------------------------------------
def S01():
    c = Check('S01', 'fault_enumeration'); rnd = random.Random(SEED)
    model(c, X=('x',) if QUICK else ('x', 'y'))
    X = ['x', 'y', 'e']
    s = cut(walks(60 if QUICK else 600, 16, ['c1', 'c2', 'c3'], ['a', 'b', 'c'], X, 3, ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc', 'Restart'], misuse=0, rare=3), ['Commit'])
    s = [recover(x, rnd) for x in s]
    execute(c, 'crash while committing', crashes(s, X, ['Commit'], 8 if QUICK else 100), shim=True, kinds='Commit')
    execute(c, 'committing while the disk is full', crashes(s[:20] if QUICK else s, X, ['Commit'], 8 if QUICK else 60, mode='disk'), shim=True)
    execute(c, 'committing while the disk is full, the databases as well', crashes(s[20:40] if QUICK else s, X, ['Commit'], 10 if QUICK else 60, mode='disk', db=True), shim=True)
    execute(c, 'committing, file system becoming read-only', crashes(s[40:] if QUICK else s, X, ['Commit'], 8 if QUICK else 60, mode='rofs'), shim=True)
    s2 = walks(60 if QUICK else 600, 14, ['c1', 'c2', 'c3'], ['a', 'b'], X, 3, ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc', 'Restart', 'PushCut'], misuse=0, rare=2, seed=SEED + 1)
    s2 = [recover(x, rnd) for x in s2]
    execute(c, 'crash in any request', crashes(s2, X, ['Begin', 'Push', 'Del', 'Abort', 'Commit'], 5 if QUICK else 60, second=True), shim=True)
    return c

def S02():
    c = Check('S02', 'fault_enumeration'); rnd = random.Random(SEED)
    model(c, X=('x', 'y') if not QUICK else ('x',), ops=('Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc', 'Restart', 'Lose', 'GC'))
    X = ['x', 'y', 'e']
    ops = ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc', 'Restart', 'GC']
    s = walks(130 if QUICK else 1500, 26, ['c1', 'c2', 'c4'], ['a', 'b'], X, 5, ops, misuse=0, rare=2)
    execute(c, 'long histories', jobs([recover(x, rnd) for x in s], X))
    s = walks(50 if QUICK else 600, 20, ['c1', 'c2', 'c3'], ['a', 'b'], ['x', 'y'], 4, ops, misuse=0, rare=2, seed=SEED + 7)
    execute(c, 'crashes', crashes([recover(x, rnd) for x in s], X, ['Begin', 'Abort', 'Commit', 'GC'], 5 if QUICK else 60, second=True), shim=True)
    s = walks(60 if QUICK else 700, 20, ['c1', 'c2', 'c4'], ['a', 'b'], X, 4, ops + ['Lose', 'PushCut'], misuse=0, rare=2, seed=SEED + 8)
    js = jobs([recover(x, rnd) for x in s if any(o['op'] == 'Lose' for o in x)], X)
    for i, j in enumerate(js): j['override'] = ['r1'] if i % 2 else []
    execute(c, 'the transient database is lost', js)
    s = walks(50 if QUICK else 600, 16, ['c1', 'c2', 'c4'], ['a', 'b'], X, 4, ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc'], misuse=0, rare=2, seed=SEED + 9)
    s = [recover(x + [dict(x[-1], op='Lose')] + ([dict(x[-1], op='GC')] if rnd.random() < .5 else []), rnd) for x in cut(s, ['Commit', 'Push', 'Begin'])]
    execute(c, 'crashes, the transient database is lost', crashes(s, X, ['Begin', 'Abort', 'Commit', 'Push'], 4 if QUICK else 60), shim=True)
    longer(c, 'many versions', 4 if QUICK else 24, 60 if QUICK else 120, extra=['Abort', 'Disc', 'GC'])
    __import__('c_sync').listings(c, 40 if QUICK else 600, (SEED + 7) * 2 + 1)
    return c

def S03():
    c = Check('S03', 'model_checking')
    model(c, names=('c1',), P=('a', 'b'), X=('x', 'y'), hist=2 if QUICK else 3, crash=0)
    s, n = cover(260 if QUICK else 6000, 12, ['c1'], ['a', 'b'], ['x', 'y'], 2, ['Begin', 'Push', 'Del', 'Commit'], sample=80 if QUICK else 10)
    execute(c, 'requests within commits', jobs(cut(s, ['Commit', 'Push', 'Del']) and [close(x) for x in s], ['x', 'y']), generated=n)
    s = walks(120 if QUICK else 1500, 22, ['c1', 'c2'], ['a', 'b', 'c', 'd'], ['x', 'y', 'e'], 5, ['Begin', 'Push', 'Del', 'Commit', 'Abort'], misuse=0, rare=6)
    execute(c, 'larger trees', jobs([close(x) for x in s], ['x', 'y', 'e']))
    return c

def close(s):
    """ finish the commit which is open at the end """
    B = dict(s[-1], p='', x='', ps=[], msg='m2', back=0)
    return s if s[-1]['op'] == 'Commit' else s + [dict(B, op='Commit')]

def S04():
    c = Check('S04', 'fault_enumeration'); rnd = random.Random(SEED)
    model(c, X=('x', 'y') if not QUICK else ('x',))
    X = ['x', 'y', 'e']; ops = ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc', 'Restart', 'PushCut']
    s, n = cover(150 if QUICK else 3000, 11, ['c1', 'c2'], ['a', 'b'] if not QUICK else ['a'], ['x', 'y'], 2, ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc'], sample=4 if QUICK else 100)
    execute(c, 'abort, abandon', jobs([recover(x, rnd, who='c2' if k % 2 else 'c3') for k, x in enumerate(s)], X), generated=n)
    s = walks(60 if QUICK else 600, 16, ['c1', 'c2'], ['a', 'b'], X, 3, ops, misuse=0, rare=2)
    s = [recover(x + [dict(x[-1], op='Restart')], rnd, who=rnd.choice(['c2', 'c3'])) for x in s]
    s1 = cut(walks(50 if QUICK else 500, 14, ['c1', 'c2'], ['a', 'b'], X, 3, ['Begin', 'Push', 'Del', 'Commit'], misuse=0, rare=3, seed=SEED + 2), ['Commit'])
    s1 = [recover(x + ([dict(x[-1], op='Begin', c=o), dict(x[-1], op='Abort', c=o)] if k % 2 else []), rnd, who=o) for k, x in enumerate(s1) for o in [rnd.choice([q for q in ['c1', 'c2', 'c3'] if q != x[-1]['c']])]]
    execute(c, 'discarded in the middle of finishing', crashes(s1, X, ['Commit'], 6 if QUICK else 60), shim=True)
    execute(c, 'interrupted discarding', crashes(s, X, ['Begin', 'Abort'], 6 if QUICK else 60, second=True), shim=True)
    execute(c, 'discarding while the disk is full', crashes(s[:30] if QUICK else s, X, ['Begin', 'Abort'], 6 if QUICK else 60, mode='disk', db=True), shim=True)
    execute(c, 'discarding, file system becoming read-only', crashes(s[30:] if QUICK else s, X, ['Begin', 'Abort'], 6 if QUICK else 60, mode='rofs'), shim=True)
    return c

def S05():
    c = Check('S05', 'fault_enumeration'); rnd = random.Random(SEED)
    model(c, names=('c1', 'c2', 'c3'), P=('a',), X=('x',) if QUICK else ('x', 'y'))
    X = ['x', 'y', 'e']; ops = ['Begin', 'Push', 'Del', 'Commit', 'Disc', 'Restart', 'PushCut', 'Abort', 'GC']
    s = walks(150 if QUICK else 1500, 18, ['c1', 'c2', 'c3', 'c4'], ['a', 'b'], X, 3, ops, misuse=0, rare=2)
    execute(c, 'interruptions', jobs([resume(x, rnd) for x in s], X))
    s = walks(70 if QUICK else 700, 13, ['c1', 'c2', 'c4'], ['a', 'b'], X, 3, ops, misuse=0, rare=3, seed=SEED + 3)
    s = [resume(x, rnd) for x in s]
    execute(c, 'crashes', crashes(s, X, ['Push', 'Del', 'Commit', 'Begin'], 5 if QUICK else 60), shim=True)
    execute(c, 'requests while the disk is full', crashes(s[:40] if QUICK else s, X, ['Push', 'Del', 'Begin'], 6 if QUICK else 60, mode='disk', db=True), shim=True)
    execute(c, 'requests, file system becoming read-only', crashes(s[40:] if QUICK else s, X, ['Push', 'Del', 'Begin'], 6 if QUICK else 60, mode='rofs'), shim=True)
    return c

def resume(s, rnd):
    """ interrupted once more in the middle of a commit, then begun again by the same or another client """
    owner = next((o['c'] for o in reversed(s) if o['op'] == 'Begin'), 'c1')
    B = dict(op='Begin', c=owner, back=0, p='', x='', ps=[], msg='')
    again = dict(B, c=rnd.choice([owner, owner, 'c1', 'c2', 'c3', 'c4']))
    mid = [B, dict(B, op='Push', p=rnd.choice('ab'), x=rnd.choice('xy')), dict(B, op='Del', ps=[rnd.choice('ab')])][:rnd.choice([1, 2, 3])]
    return s + mid + [dict(B, op=rnd.choice(['Disc', 'Restart', 'PushCut', 'Bad']), p='b', x='garbage')][:1] + [again, dict(again, op='Push', p='b', x=rnd.choice('xy')), dict(again, op='Commit', msg='m3')]

def S06():
    c = Check('S06', 'exploration'); rnd = random.Random(SEED)
    model(c, names=('c1', 'c2'), P=('a', 'b'), X=('x',), crash=0)
    big = [1000 * 1000, 1000 * 1000 - 1, 1000 * 1000 + 1, 2 * 1000 * 1000 + 17, 65536, 65535, 65537, 131072, 1, 2, 1023, 1024, 1025, 4096, 4097]
    ops = ['Begin', 'Push', 'Commit', 'Pull', 'Abort', 'Disc', 'Del']
    s = walks(110 if QUICK else 1200, 22, ['c1', 'c2'], ['a', 'b', 'c', 'd'], ['x', 'y', 'e', 'w'], 4, ops, misuse=0, rare=6)
    js = jobs(s, ['x', 'y', 'e', 'w'])
    for j in js:
        j['sizes'] = {'x': rnd.choice(big), 'y': rnd.randint(1, 3000), 'e': 0, 'w': rnd.choice(big)}; j['since'] = False; j['chunked'] = 1
        if j['sizes']['x'] == j['sizes']['w'] == 1: j['sizes']['w'] = 2
        extra = []
        for p in 'abcd':
            for b in (0, 1): extra.append(dict(op='Pull', c='c3', back=b, p=p, x='', ps=[], msg=''))
        j['ops'] = j['ops'] + rnd.sample(extra, 4)
    execute(c, 'contents and chunks', js, sizes=big)
    # the same content again and again, across paths, commits, attempts
    s = walks(80 if QUICK else 800, 24, ['c1', 'c2'], ['a', 'b', 'c', 'd'], ['x', 'e'], 5, ['Begin', 'Push', 'Commit', 'Abort', 'Disc', 'Restart', 'Del'], misuse=0, rare=3, seed=SEED + 5)
    execute(c, 'deduplication', jobs(s, ['x', 'e']))
    return c

def S07():
    c = Check('S07', 'model_checking')
    model(c, names=('c1',), P=('a', 'b'), X=('x', 'y'), hist=3, crash=0, ops=('Begin', 'Push', 'Del', 'Commit'))
    s = walks(170 if QUICK else 2500, 34, ['c1', 'c2'], ['a', 'b', 'c'], ['x', 'y'], 9, ['Begin', 'Push', 'Del', 'Commit', 'Abort'], misuse=0, rare=9)
    execute(c, 'histories', jobs(cut(s, ['Commit']), ['x', 'y']))
    s, n = cover(200 if QUICK else 4000, 13, ['c1'], ['a', 'b'], ['x'], 3, ['Begin', 'Push', 'Del', 'Commit'], sample=40 if QUICK else 4)
    execute(c, 'small histories', jobs([close(x) for x in s], ['x']), generated=n)
    longer(c, 'many versions', 4 if QUICK else 24, 60 if QUICK else 120)
    __import__('c_sync').listings(c, 40 if QUICK else 600, (SEED + 7) * 2)
    held(c, 'reads while others commit', 20 if QUICK else 300, 5 if QUICK else 40, ['Since', 'PullHead', 'List'], seed=3)
    return c

def longer(c, name, n, length, extra=()):
    """ more versions than are listed at once """
    s = walks(n, 5 * length, ['c1', 'c2'], ['a', 'b', 'c', 'd'], ['x', 'y', 'e'], length, ['Begin', 'Push', 'Del', 'Commit'] + list(extra), misuse=0, rare=length, seed=SEED + 31)
    js = jobs([recover(x, random.Random(k), who='c1' if k % 2 else 'c2') for k, x in enumerate(s)], ['x', 'y', 'e'])
    for j in js: j['every'] = 10 ** 6
    execute(c, name, js, versions=length)

def S08():
    c = Check('S08', 'model_checking')
    model(c, names=('c1', 'c2', 'c3'), P=('a',), X=('x',))
    s = walks(170 if QUICK else 2000, 20, ['c1', 'c2', 'c3'], ['a', 'b'], ['x', 'y'], 3, [o for o in ALL if o != 'GC'], misuse=12, rare=2)
    execute(c, 'requests without the lock', jobs(s, ['x', 'y']))
    two(c, 'two repositories', 70 if QUICK else 900, 12)
    race(c, 'races', 60 if QUICK else 600)
    held(c, 'requests held up in the middle', 40 if QUICK else 500, 6 if QUICK else 40, ['Begin', 'Commit', 'Abort', 'Push', 'Del', 'GC', 'Begin'])
    return c

def S10():
    c = Check('S10', 'model_checking')
    model(c, names=('c1', 'c2', 'c3'), P=('a',), X=('x',))
    s = walks(130 if QUICK else 1500, 18, ['c1', 'c2', 'c3'], ['a', 'b'], ['x', 'y'], 4, ['Begin', 'Push', 'Del', 'Commit', 'Disc', 'Restart', 'Abort'], misuse=10, rare=3)
    rnd = random.Random(SEED)
    s2 = []
    for x in s:      # begin from outdated revisions
        y = []
        for o in x:
            if o['op'] == 'Begin' and rnd.random() < .5: y.append(dict(o, c=rnd.choice(['c1', 'c2', 'c3']), **rnd.choice([dict(back=1), dict(back=1), dict(back=2), dict(back=9), dict(odd=rnd.randint(0, 13)), dict(odd=rnd.randint(0, 13))])))
            y.append(o)
        s2.append(y)
    execute(c, 'outdated revisions', jobs(s2, ['x', 'y']))
    race(c, 'races', 60 if QUICK else 1000)
    held(c, 'requests held up in the middle', 50 if QUICK else 500, 7 if QUICK else 40, ['Begin', 'Commit', 'Begin', 'Abort', 'Begin'], seed=1)
    return c

def merge2(a, b, rnd):
    out = []; a, b = [dict(o, r='r1') for o in a], [dict(o, r='r2') for o in b]
    while a or b:
        x = a if (a and (not b or rnd.random() < .5)) else b
        out.append(x.pop(0))
    return out

def two(c, name, n, depth, seed=0, crash=False):
    rnd = random.Random(SEED + seed)
    ops = [o for o in ALL if o not in ('Restart',)]
    A = walks(n, depth, ['c1', 'c2'], ['a', 'b'], ['x', 'y'], 3, ops, misuse=15, rare=3, seed=SEED + 11 + seed)
    B = walks(n, depth, ['c1', 'c2'], ['a', 'b'], ['x', 'y', 'e'], 3, ops, misuse=15, rare=3, seed=SEED + 12 + seed)
    js = []
    for i, (a, b) in enumerate(zip(A, B)):
        if i % 3: b = [dict(o, c={'c1': 'c3', 'c2': 'c4'}[o['c']]) for o in b]
        js.append(dict(id=i, clients=CLIENTS, contents=['x', 'y', 'e'], ops=merge2(a, b, rnd), pathset=i % 16, cset=(i // 2) % 4, chunked=i % 2, repos=['r1', 'r2'], override=['r2'] if i % 2 else []))
    execute(c, name, js)
    return js

def S11():
    c = Check('S11', 'model_checking')
    model(c, names=('c1', 'c2'), P=('a', 'b'), X=('x',))
    two(c, 'interleaved requests for two repositories', 150 if QUICK else 2000, 14, seed=1)
    rnd = random.Random(SEED)
    ops = [o for o in ALL if o not in ('Restart',)]
    A = walks(40 if QUICK else 400, 10, ['c1', 'c2'], ['a', 'b'], ['x', 'y'], 3, ops, misuse=0, rare=3, seed=SEED + 21)
    B = walks(40 if QUICK else 400, 10, ['c3', 'c4'], ['a', 'b'], ['x', 'y'], 3, ops, misuse=0, rare=3, seed=SEED + 22)
    js = crashes([merge2(a, b, rnd) for a, b in zip(A, B)], ['x', 'y'], ['Commit', 'Begin', 'Abort', 'Push'], 3 if QUICK else 30, repos=['r1', 'r2'])
    for k, j in enumerate(js): j['override'] = ['r2'] if k % 2 else []
    execute(c, 'crashes', js, shim=True)
    __import__('c_access').cross(c)
    race(c, 'concurrent use of two repositories', 40 if QUICK else 500, repos=['r1', 'r2'])
    held(c, 'requests held up in the middle', 36 if QUICK else 300, 5 if QUICK else 40, ['Begin', 'Commit', 'Push', 'Push', 'Since', 'Abort'], repos=['r1', 'r2'], seed=2)
    return c

def race(c, name, n, repos=('r1',)):
    """ threads of clients which commit, abort, give up and list concurrently """
    rnd = random.Random(SEED + len(repos)); js = []
    for i in range(n):
        th = {}
        style = i % 4
        for cl in ['c1', 'c2', 'c3', 'c4'][:rnd.choice([2, 3, 3, 4])]:
            ops = []
            r = rnd.choice(repos)
            for _ in range(rnd.choice([1, 2, 2, 3])):
                if len(repos) > 1 and rnd.random() < .4: r = rnd.choice(repos)
                if style != 0 and rnd.random() < .8: ops.append(dict(op='List'))
                ops.append(dict(op='Begin'))
                for _ in range(rnd.choice([0, 1, 2])):
                    ops.append(rnd.choice([dict(op='Push', p=rnd.choice('ab'), x=rnd.choice('xye')), dict(op='Push', p=rnd.choice('ab'), x=rnd.choice('xye')), dict(op='Del', ps=[rnd.choice('ab')])]))
                ops.append(rnd.choice([dict(op='Commit', msg='m1'), dict(op='Commit', msg='m1'), dict(op='Abort'), dict(op='Disc')] + ([dict(op='GC')] if style == 3 else [])))
                for o in ops: o.setdefault('r', r)
            th[cl] = ops
        js.append(dict(id=i, clients=CLIENTS, contents=['x', 'y', 'e'], threads=th, repos=list(repos), override=['r1'] if i % 5 == 0 else [], pathset=i % 16, cset=(i // 2) % 4, procs=2 if i % 3 == 2 else 1, switch=[1e-5, 1e-6, 5e-3][i % 3]))
    traces = run_jobs('d_conc', vary(js))
    c.conformance(name, 'StoreLin', traces, None, jobs=len(js), cfg_spec='LSpec')


def held(c, name, n, maxk, kinds, repos=('r1',), seed=0):
    """ one request is held up at each of its file accesses while other clients make theirs """
    rnd = random.Random(SEED * 1000 + len(repos) + seed); js = []
    R = lambda: rnd.choice(repos)
    def push(cl, r): return dict(op='Push', c=cl, p=rnd.choice('ab'), x=rnd.choice('xye'), r=r)
    def done(cl, r, ends): return [dict(op='List', c=cl, r=r), dict(op='Begin', c=cl, r=r)] + rnd.choice([[push(cl, r)], [push(cl, r), push(cl, r)], [push(cl, r), dict(op='Del', c=cl, ps=[rnd.choice('ab')], r=r)]]) + [dict(op=rnd.choice(ends), c=cl, msg='m1', r=r)]
    for i in range(n):
        kind = kinds[i % len(kinds)]
        A, B = rnd.sample(['c1', 'c2', 'c3', 'c4'], 2); r = R()
        s = [o for _ in range(rnd.choice([0, 1, 1, 2])) for o in done(rnd.choice(['c1', 'c2', 'c3']), R(), ['Commit'])]
        s += [dict(op='List', c=x, r=q) for x in (A, B) for q in repos]
        if rnd.random() < .5: s += done(rnd.choice([A, B, 'c1', 'c2']), r, ['Disc', 'Disc', 'Abort', 'Commit'])
        if rnd.random() < .7: s += [dict(op='List', c=A, r=r)]
        if kind in ('Commit', 'Abort', 'Push', 'Del'):
            s += done(A, r, [kind])
            if kind in ('Push', 'Del'): s[-1] = push(A, r) if kind == 'Push' else dict(op='Del', c=A, ps=['a'], r=r)
        elif kind == 'Begin': s += [dict(op='Begin', c=A, r=r)]
        elif kind == 'GC': s += [dict(op='GC', c=A, r=r)]
        else: s += [dict(op=kind, c=A, p='a', r=r)]
        h = len(s) - 1
        q = r if rnd.random() < .8 else R()
        if kind == 'Push' and len(repos) > 1 and rnd.random() < .6: q = rnd.choice([x for x in repos if x != r])
        mid = rnd.choice([done(B, q, ['Commit']), done(B, q, ['Commit']), done(B, q, ['Commit']), done(B, q, ['Abort']), done(B, q, ['Disc']), [dict(op='GC', c=B, r=q)],
                          [dict(op='List', c=B, r=q), dict(op='Since', c=B, r=q), dict(op='PullHead', c=B, p='a', r=q)], [dict(op='Begin', c=B, r=q)]])
        if kind in ('Since', 'PullHead', 'List', 'Begin') and rnd.random() < .8: mid = done(B, q, ['Commit'])
        rest = []
        if kind in ('Begin', 'Push', 'Del'): rest = [push(A, r), dict(op=rnd.choice(['Commit', 'Commit', 'Abort', 'Disc']), c=A, msg='m2', r=r)]
        rest += done(rnd.choice([B, A, 'c2']), r, ['Commit', 'Abort']) if rnd.random() < .7 else []
        js.append(dict(id='h%d' % i, clients=CLIENTS, contents=['x', 'y', 'e'], script=s + mid + rest, hold=h, span=len(mid), maxk=maxk, repos=list(repos),
                       override=['r1'] if i % 5 == 0 else [], pathset=i % 16, cset=(i // 2) % 4, procs=1 + (i % 3 == 2)))
    traces = [x for l in run_jobs('d_conc', vary(js)) for x in l]
    c.conformance(name, 'StoreLin', traces, None, jobs=len(js), cfg_spec='LSpec')
