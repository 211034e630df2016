"""S09: logins, sessions and who is served, against spec/Access.tla"""
import random
from lib import *

ACC = [['u1', 'r1'], ['u1', 'r2'], ['u2', 'r1'], ['u3', 'r2']]
def walks(n, depth, evil, seed):
    return generate('AccessGen', 'CONSTANTS\n Depth = %d\n Evil = %d\nSPECIFICATION Spec\nINVARIANT PrintEnd\n' % (depth, evil), sim=n, depth=depth + 2, seed=seed)[0]
def go(c, name, js):
    tr = [x for l in run_jobs('d_access', vary(js), shim=True) for x in l]
    c.conformance(name, 'AccessTrace', tr, None, jobs=len(js))
USERS = [('u1', 'u2', 'u3'), ('u', 'uu', 'U'), ('Ann', 'ann', 'Anna'), ("o'b", '%', '_'), ('u 1', 'u', '1')]
REPOS = [('r1', 'r2'), ('r', 'rr'), ('Repo', 'repo'), ('a b', 'a'), ('r_', "r'")]
def vary(js):
    """ other names of users, repositories, other addresses """
    for i, j in enumerate(js):
        u = dict(zip(('u1', 'u2', 'u3'), USERS[i % 5])); r = dict(zip(('r1', 'r2'), REPOS[i // 2 % 5]))
        j['ops'] = [dict(o, u=u.get(o['u'], o['u']), sig=u.get(o['sig'], o['sig']), r=r.get(o['r'], o['r'])) for o in j['ops']]
        for k, o in enumerate(j['ops']):
            if o['op'] in ('Auth', 'AuthS') and not o['d']: o['d'] = (0, 1, 7, 97)[(i + k) % 4]
        j['acc'] = [[u[a], r[b]] for a, b in j['acc']]; j['repos'] = [r[x] for x in j['repos']]; j['override'] = [r[x] for x in j['override']]; j['ipset'] = i // 3 % 3
    return js
def jobs(s, **kw): return [dict(kw, id='%s%d' % (kw.get('k0', ''), i), repos=['r1', 'r2'], acc=ACC, ops=x, override=['r2'] if i % 3 == 0 else []) for i, x in enumerate(s)]

def S09():
    c = Check('S09', 'model_checking'); rnd = random.Random(SEED)
    c.model('design: logins, sessions, requests', model_check('AccessMC', 'CONSTANTS\n MaxSteps = %d\n MaxTok = %d\nSPECIFICATION Spec\nINVARIANTS Once FromChallenge LoginRight ServedRight OnlyThere OwnedOrNot\n' % ((5, 3) if QUICK else (7, 3)), workers=NCPU, timeout=800))
    go(c, 'mixed', jobs(walks(900 if QUICK else 12000, 40, 3, SEED)))
    go(c, 'mostly honest', jobs(walks(500 if QUICK else 8000, 60, 9, SEED + 1)))
    held(c, 60 if QUICK else 800, 8 if QUICK else 100, rnd)
    return c

def cross(c):
    """ for S11: sessions, challenges and permissions of other repositories """
    go(c, 'sessions and challenges of other repositories', jobs(walks(200 if QUICK else 4000, 40, 2, SEED + 5)))

def versions(c):
    """ for P01: clients of all versions """
    rnd = random.Random(SEED + 9); s = walks(300 if QUICK else 5000, 40, 7, SEED + 9)
    for x in s:
        out = []
        for o in x:
            if o['op'] in ('Auth', 'AuthS') and rnd.random() < .5:
                out.append(dict(o, d=rnd.choice([-1, -1, -2, -3, -4, -13])))
                if o['op'] == 'Auth': out.append(dict(o, op='List', sig='', u='', tok=o['new'], new='', rev=-1))
            out.append(o)
        x[:] = out
    go(c, 'clients of all versions', jobs(s))

def held(c, n, maxk, rnd):
    js = []
    for s in walks(n * 3, 26, 12, SEED + 2):
        at = [i for i, o in enumerate(s) if i > 5 and o['op'] == 'Auth' and o['sig'] == o['u']] if rnd.random() < .6 else [i for i, o in enumerate(s) if i > 12 and o['op'] not in ('Tick', 'Perm', 'Disc')]
        if not at or len(js) >= n: continue
        h = rnd.choice(at); o = s[h]
        other = {'c1': 'c3', 'c3': 'c1', 'c2': 'c1'}[o['c']]
        if o['op'] == 'Auth': mid = [dict(o, c=other, ip='i1' if other != 'c2' else 'i2', new='h%d' % h)]
        else: mid = [x for x in s[h + 1:h + 3] if x['op'] not in ('Tick', 'Perm') and x['c'] != o['c']]
        B = dict(o, op='List', sig='', u='', rev=-1)
        tail = [dict(B, tok=o['new']), dict(B, tok='h%d' % h, c=other, ip='i1')] if o['op'] == 'Auth' else s[h + 3:h + 8]
        js.append(dict(ops=s[:h + 1] + mid + tail, hold=h, span=len(mid), maxk=maxk))
    for i, j in enumerate(js): j.update(jobs([j['ops']])[0], id='h%d' % i)
    go(c, 'requests held up in the middle', js)
