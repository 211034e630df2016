"""C10: one process at a time, against spec/WcLock.tla"""
import random
from lib import *
def C10():
    c = Check('C10', 'model_checking')
    c.model('design: 3 processes, 2 working copies', model_check('WcLockMC', 'CONSTANTS P = {"p1", "p2", "p3"}\n W = {"w1", "w2"}\n Keep = TRUE\nSPECIFICATION Spec\nINVARIANTS OneUser NoLostChange Admits\n'))
    n = 150 if QUICK else 2500
    ws = generate('WcLockGen', 'CONSTANTS P = {"p1", "p2", "p3"}\n W = {"w1", "w2"}\n Depth = 12\nSPECIFICATION Spec\nINVARIANT PrintEnd\n', sim=n, depth=40, seed=SEED + 210)[0]
    t = time.time()
    tr = run_jobs('d_wclock', [{'id': i, 'ops': w, 'maxstep': [8, 25, 60][i % 3]} for i, w in enumerate(ws)], shim=True)
    held = sum(1 for x in tr for e in x['ev'] if e['op'] == 'start' and e['k'] == 'held')
    c.conformance('processes stopped in the middle', 'WcLockTrace', tr, None, stopped=held, drive_s=round(time.time() - t, 1))
    return c
