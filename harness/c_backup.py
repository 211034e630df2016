"""B01: backup and restore against spec/Backup.tla"""
import random
from lib import *
CH = [17, 64, 100, 256, 1000, 4096, 65536, 5 * 1048576]
def B01():
    c = Check('B01', 'fault_enumeration'); rnd = random.Random(SEED + 1100)
    c.model('design: runs interrupted anywhere', model_check('BackupMC', 'CONSTANTS MaxV = %d\n Obs = {"x", "y"}\n MaxRuns = %d\nSPECIFICATION Spec\nINVARIANTS WhenDone IfItWorks MarkedIsThere TypeOK\n' % ((3, 3) if QUICK else (4, 4)), timeout=800))
    sch, r = generate('BackupGen', 'CONSTANTS Len0 = 3\n Len1 = %d\nSPECIFICATION Spec\n' % (8 if QUICK else 12), sim=120 if QUICK else 1500, depth=20)
    js = []
    for s in sch:
        ops = [{'op': 'commit', 'repo': 'r', 'kind': 'new'}] + s
        if rnd.random() < .7: ops += [{'op': 'run', 'fault': rnd.choice(['error', 'after', 'kill', 'killafter', 'ioerror'])}]
        if rnd.random() < .4: ops += [{'op': 'commit', 'repo': 'r', 'kind': rnd.choice(['new', 'change', 'delete', 'empty'])}]
        ops += [{'op': 'run', 'fault': 'none'}]
        if rnd.random() < .3: ops += [{'op': 'restore', 'fault': rnd.choice(['error', 'kill']), 'again': False}]
        ops += [{'op': 'restore', 'fault': 'none', 'again': rnd.random() < .4}]
        js.append(dict(ops=ops, seed=rnd.randint(0, 10 ** 6), chunk=rnd.choice(CH), chunk2=rnd.choice(CH), page=rnd.choice([1, 2, 3, 5, 1000]), backed=rnd.choice([['r'], ['r', 'r2'], ['r', 'r2']]), override=rnd.random() < .2, via_run=rnd.random() < .5))
    # a fault at each of the first operations of a first and of a second run
    for k, j in enumerate(js): j['id'] = k
    tr = run_jobs('d_backup', js)
    c.conformance('backups and restores', 'BackupTrace', tr, None, walks=len(sch))
    return c
