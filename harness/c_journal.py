"""C01: the journal of the working copy against spec/Journal.tla"""
import random
from lib import *

def walks(n, depth, maxsteps, badone, seed):
    cfg = 'CONSTANTS\n P = {"a", "b", "c"}\n D = {"D"}\n X = {"x", "y", "e"}\n Depth = %d\n MaxSteps = %d\n BadOne = %d\nSPECIFICATION Spec\nINVARIANT PrintEnd\n' % (depth, maxsteps, badone)
    return generate('JournalGen', cfg, sim=n, depth=depth * (maxsteps + 1) + 2, seed=seed)[0]

def C01():
    c = Check('C01', 'fault_enumeration'); rnd = random.Random(SEED)
    c.model('design: undo journal, every step may be the last', model_check('JournalMC', '''CONSTANTS
 P = {"a", "b"}
 X = {"x", "y"}
 Tmp = {"t1", "t2", "t3"%s}
 Bak = {"k1"}
 MaxOps = %d
 MaxTxn = 2
 MaxCrash = 2
SPECIFICATION Spec
INVARIANTS AllOrNothing Kept Undoable
''' % (('', 2) if QUICK else (', "t4"', 3)), workers=NCPU, timeout=800))
    def files(): return [[p, rnd.choice('xyz')] for p in 'abc' if rnd.random() < .7]
    def jobs(s, **kw): return [dict(kw, id=i, files=files(), txns=[dict(t, again=rnd.random() < .3) for t in x], pathset=i % 3) for i, x in enumerate(s)]
    def go(name, js, shim=True): 
        tr = [x for l in run_jobs('d_journal', js, shim=shim) for x in l]
        c.conformance(name, 'JournalTrace', tr, None, jobs=len(js))
    go('transactions', jobs(walks(150 if QUICK else 2000, 6, 5, 12, SEED)), shim=False)
    s = walks(60 if QUICK else 800, 3, 4, 15, SEED + 1)
    js = jobs(s)
    for j in js: j.update(at=rnd.choice([0, 1, 2]), maxk=14 if QUICK else 200)
    go('crashes', js)
    js = jobs(walks(60 if QUICK else 800, 3, 4, 100, SEED + 2))
    for j in js: j.update(at=rnd.choice([0, 1]), maxk=8 if QUICK else 200, again=True)
    go('crashes while rolling back', js)
    js = jobs(walks(50 if QUICK else 500, 3, 4, 100, SEED + 3))
    for j in js: j.update(at=rnd.choice([0, 1]), maxk=6 if QUICK else 100, mode='fault')
    go('failing file operations', js)
    js = jobs(walks(40 if QUICK else 500, 3, 4, 100, SEED + 4))
    for j in js: j.update(at=rnd.choice([0, 1]), maxk=6 if QUICK else 100, mode='fault', lasting=True, errno=30)
    go('file system becoming read-only', js)
    js = jobs(walks(50 if QUICK else 500, 3, 4, 100, SEED + 5))
    for i, j in enumerate(js): j.update(at=rnd.choice([0, 1]), maxk=10 if QUICK else 200, mode='fault', db=True, lasting=i % 3 == 0, errno=28)
    go('disk full, the database as well', js)
    js = jobs(walks(50 if QUICK else 500, 3, 4, 100, SEED + 6))
    for i, j in enumerate(js): j.update(at=rnd.choice([0, 1]), maxk=10 if QUICK else 200, mode='fault', int=True)
    go('Control-C', js)
    return c
