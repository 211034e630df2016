"""S12: hostile paths and identifiers against spec/Paths.tla"""
import random
from lib import *
NAMES = ['a', 'b', 'head', 'files', 'index', 'tmp_file', 'r2', 'secret', 'commit', 'server_transient.db', 'lock_file', 'etc', 'Z\u00fc', 'a b']
ODD = ['...', '..a', 'a..', '.a', '. .', '%2e%2e', '%2e', '~', '\u2025', '\uff0e\uff0e', '..;', 'c:', '*', '$HOME', "'", '"', '..\0', 'x\0y', '..\nx', '-', '..%00', '.%2e', '..\u200b', '\u202e..', '....', 'a.', '..\tx', ';', 'CON', '`id`']
def text(rnd, s):
    f = {'dot': lambda: '.', 'dotdot': lambda: '..', 'empty': lambda: '', 'name': lambda: rnd.choice(NAMES), 'odd': lambda: rnd.choice(ODD)}
    sep = {'slash': '/', 'back': '\\', 'none': ''}
    t = sep[s['lead']]
    for k, c in enumerate(s['comps']): t += f[c]() + (sep[s['seps'][k]] if k < len(s['seps']) else '')
    return t
def S12():
    c = Check('S12', 'model_checking'); rnd = random.Random(SEED + 900)
    c.model('design: the guards keep everything inside', model_check('PathsMC', 'CONSTANT N = %d\nSPECIFICATION Spec\nINVARIANTS Guard Ident RefusesOnlyDots\n' % (7 if QUICK else 9), timeout=800))
    sch, r = generate('PathsGen', 'CONSTANTS N = %d\n Kinds = {"dot", "dotdot", "name", "empty", "odd"}\nSPECIFICATION Spec\n' % 4)
    shorts = [s for s in sch if len(s['comps']) <= 3]
    use = shorts + rnd.sample([s for s in sch if len(s['comps']) == 4], 1500 if QUICK else 15000)
    if not QUICK: use = use * 3 + sch
    texts = [text(rnd, s) for s in use]
    texts += ['/' + '/'.join(rnd.choice(['.', '..', 'a', '', '..a']) for _ in range(rnd.randint(5, 12))) for _ in range(200)] + ['/' + '../' * 40 + 'secret', '', '/', '\\', '//', '/a' + '/b' * 60]
    rooted = sorted({t for t in texts if t.startswith('/') and len(t) > 1}); other = sorted({t for t in texts if not t.startswith('/') or len(t) < 2})
    rnd.shuffle(rooted); rnd.shuffle(other)
    n = 40; groups = []
    for k in range(0, len(rooted), n):
        ps = rooted[k:k + n]
        groups.append(dict(stay=True, push=ps, delete=rnd.sample(ps + rooted[:50], 4), pull=rnd.sample(rooted, 10) + rnd.sample(other, 5)))
    for k in range(0, len(other), n): groups.append(dict(stay=False, push=other[k:k + n], pull=rnd.sample(rooted, 5)))
    rnd.shuffle(groups)
    per = 3; js = []
    for k in range(0, len(groups), per):
        g = groups[k:k + per]
        if not any(x['stay'] for x in g): g = [dict(stay=True, push=['/a', '/secret', '/d/commit'], pull=[])] + g
        js.append(dict(groups=g, seed=SEED * 1000 + k, nident=60 if QUICK else 400, override=k % 4 == 0))
    for k, j in enumerate(js): j['id'] = k
    tr = [t for ts in run_jobs('d_paths', js) for t in ts]
    c.conformance('requests', 'PathsTrace', tr, None, paths=len(texts), sequences=len(sch))
    return c
