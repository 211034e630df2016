"""V01: bvn_repo verify and gc against spec/Verify.tla (and gc within histories against spec/Store.tla)"""
import random
from lib import *
from c_store import walks, held, crashes, execute, jobs, recover, model, CLIENTS
def V01():
    c = Check('V01', 'fault_enumeration'); rnd = random.Random(SEED + 300)
    c.model('design: objects, damage, mark and sweep', model_check('VerifyMC', 'CONSTANTS X = {"x", "y"}\n MaxHist = %d\n MaxDamage = %d\nSPECIFICATION Spec\nINVARIANTS Truth Readable Resumable\nPROPERTIES Safe Exact\n' % ((2, 1) if QUICK else (3, 2)), workers=NCPU))
    X = ['x', 'y', 'e']
    s = walks(100 if QUICK else 800, 22, ['c1', 'c2'], ['a', 'b', 'c', 'd'], X, 4, ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc'], misuse=0, rare=3, seed=SEED + 31)
    js = [dict(id=i, clients=CLIENTS, contents=X, ops=o, pathset=i % 16, cset=(i // 2) % 4, chunked=0, n=14 if QUICK else 60, all=not QUICK and i % 4 == 0, notransient=i % 3 == 0, override=['r1'] if i % 4 == 1 else []) for i, o in enumerate(s)]
    for j in js[::9]: j['ops'] = [o for o in j['ops'] if o['op'] != 'Commit']
    for i, j in enumerate(js):                                            # the last commit is interrupted
        at = [k for k, o in enumerate(j['ops']) if o['op'] in ('Commit', 'Abort', 'Begin')]
        if i % 3 == 1 and at: j['ops'] = j['ops'][:at[-1] + 1]; j['crash'] = {str(at[-1]): rnd.randint(1, 14)}
    js.append(dict(js[0], id=len(js), ops=js[0]['ops'][:1])); js.append(dict(js[1], id=len(js), ops=js[1]['ops'][:1]))
    B = lambda op, **k: dict(dict(op=op, c='c1', back=0, p='', x='', ps=[], msg=''), **k)
    for n in ([3, 70, 120] if QUICK else [30, 55, 70, 120, 300, 600]):      # long histories, many files, deep directories
        ops = []
        for k in range(n): ops += [B('Begin'), B('Push', p='abcd'[k % 4], x='n%d' % k)] + [B('Push', p='/m%d/%s' % (k, '/'.join('abcdefgh'[:j % 8 + 1])), x='m%d' % j) for j in range(40 if n == 3 else 0)] + [B('Commit', msg='m%d' % k)]
        js.append(dict(id=len(js), clients=CLIENTS, contents=X + ['n%d' % k for k in range(n)] + ['m%d' % k for k in range(40)], ops=ops, pathset=0, chunked=0, n=10 if QUICK else 60, all=False))
    tr = [x for l in run_jobs('d_verify', js, shim=True) for x in l]
    c.conformance('verify and gc', 'VerifyTrace', tr, None, repositories=len(js), damaged=sum(bool(t['ev'][0]['damage']) for t in tr))
    ops = ['Begin', 'Push', 'Del', 'Commit', 'Abort', 'Disc', 'Restart', 'GC', 'PushCut']
    s = walks(100 if QUICK else 1500, 22, ['c1', 'c2', 'c3'], ['a', 'b'], X, 4, ops, misuse=10, rare=2, seed=SEED + 32)
    s = [around(x, rnd) for x in s]
    execute(c, 'gc within histories', jobs([recover(x, rnd) for x in s], X))
    execute(c, 'gc interrupted, gc after interruptions', crashes([recover(x, rnd) for x in s[:50 if QUICK else 800]], X, ['GC', 'Commit', 'Abort'], 4 if QUICK else 60, second=True), shim=True)
    held(c, 'gc held up in the middle', 24 if QUICK else 300, 7 if QUICK else 40, ['GC'], seed=4)
    return c
def around(s, rnd):
    """ add garbage collections, in particular where a commit is interrupted or running """
    out = []
    for o in s:
        if rnd.random() < .15: out.append(dict(o, op='GC', p='', x='', ps=[]))
        out.append(o)
        if o['op'] in ('Disc', 'Restart', 'PushCut') and rnd.random() < .6: out.append(dict(o, op='GC', p='', x='', ps=[]))
    return out
