"""C08: local change detection against spec/Detect.tla"""
import random
from lib import *
NAMES = ['/a', '/b.txt', '/A', '/d/e/f/g/h', '/.hidden', '/.d/x', '/ü/ñ b', '/a b', '/x:y', '/d/-f', '/[x]', '/d/*', '/q?', '/#c', "/it's", '/"q"', '/%20', '/.bvnx', '/.bvn2/x', '/d/.bvn/x', '/d/.bvn_ignore',
         '/d/.bvn_pull_ignore', '/a\\b', '/~', '/a;b', '/a\tb', '/日本/語', '/😀', '/' + 'n' * 180, '/' + 'k/' * 30 + 'z', '/ lead', '/trail ', '/0', '/d/d/d/d', '/e\u0301', '/é', '/new', '/.x.swp', '/x.tar.gz', '/dir.d/y',
         '/&', '/$HOME', '/`x`', '/(1)', '/{a,b}', '/!', '/d/[!a]', '/d/[a-b]', '/=', '/+x', '/a~', '/d..e/f', '/...', '/.../x', '/d/..x']
T0 = 1500000000
def times(rnd):
    b = (T0 + rnd.randrange(200000000)) * 10**9 + rnd.choice([0, 0, 123456000, 999999000, 1000])
    return rnd.choice([[b, b + 1000, b - 1000], [b, b + 10**9, b - 3600 * 10**9], [b, b + 10**6, b - 10**6], [b, b + 400 * 86400 * 10**9, b - 400 * 86400 * 10**9], [b, b + 500000000, b + 10**9], [10**9, 2 * 10**9, 4 * 10**18]])
def esc(s): return ''.join('[%s]' % c if c in '*?[' else c for c in s)
def hitting(p, rnd):
    i = rnd.randrange(1, len(p)); c = p[i]
    return rnd.choice([esc(p), esc(p), '*' + esc(p[i:]), esc(p[:i]) + '*', esc(p[:i]) + '?' + esc(p[i + 1:]), esc(p[:i]) + '[%s]' % c + esc(p[i + 1:]) if c not in '!]^-' else esc(p), esc(p[:i]) + '[!\x01]' + esc(p[i + 1:]),
                       esc(p[:i]) + '[%s-%s]' % (c, c) + esc(p[i + 1:]) if c not in '!]^-' else esc(p), '*' + esc(p[i:i + 3]) + '*', esc(p[:p.rindex('/') + 1]) + '*', '*'])
def missing_(p, rnd):
    i = rnd.randrange(1, len(p))
    return rnd.choice([esc(p[1:]), esc(p[:-1]), esc(p) + 'x', esc(p).swapcase() if p.swapcase() != p else 'x', esc(p).swapcase() if p.swapcase() != p else '[x', esc(p[:i]), esc(p) + '/*', '', '#' + p, ' ' + esc(p), esc(p) + '?', '!' + esc(p), '/' + esc(p), esc(p[:i]) + '[!%s]' % p[i] + esc(p[i + 1:]) if p[i] not in '!]^-' else 'zz', p.rsplit('/', 1)[0] or '/'])
def clash(a, b): return a.startswith(b + '/') or b.startswith(a + '/')
def states(combos, rnd):
    js = []
    for f in combos:
        while True:
            ns = rnd.sample(NAMES, len(f))
            if rnd.random() < .3: p = rnd.choice(NAMES); ns = [p, p + 'x', p[:-1] + 'Q', p + '.d/f'][:len(f)]
            if not any(clash(a, b) for a in ns for b in ns if a is not b) and len(set(ns)) == len(ns): break
        tt = [0] + times(rnd); ign, pign = [], []
        for p, (d, m, r) in zip(ns, f):
            if r: (ign if r == 'ign' else pign).append(hitting(p, rnd))
            if rnd.random() < .4: rnd.choice([ign, pign]).append(missing_(p, rnd))
        rnd.shuffle(ign); rnd.shuffle(pign)
        js.append({'files': [[p, tt[d], tt[m]] for p, (d, m, r) in zip(ns, f)], 'ign': ign, 'pign': pign, 'sep': rnd.choice(['\n', '\n', '\r\n']),
                   'prune': rnd.random() < .7, 'how': rnd.choice(['update', 'full', 'full'] + ['status'] * all('\n' not in p for p in ns)), 'ns': T0 * 10**9 + rnd.randrange(10**15)})
    return js
PNAMES = ['/a', '/A', '/Bc', '/b', '/c', '/aa', '/d/a', '/d/ab', '/a-', '/a]', '/[a]', '/!', '/-', '/a*', '/?', '/[', '/a!b', '/[!a]', '/abc', '/d/e/b', '/]']
def C08():
    c = Check('C08', 'model_checking')
    c.model('design: 2 files, 2 times, rules', model_check('DetectMC', 'CONSTANTS N = 2\n T = 2\n Lines = TRUE\nSPECIFICATION Spec\nINVARIANTS Once Clean Superset Undone Pulls\nPROPERTY Told\n'))
    if not QUICK: c.model('design: 4 files, 2 times', model_check('DetectMC', 'CONSTANTS N = 4\n T = 2\n Lines = FALSE\nSPECIFICATION Spec\nINVARIANTS Once Clean Superset Undone Pulls\nPROPERTY Told\n'))
    rnd = random.Random(SEED + 200)
    r = tlc('DetectGen', 'CONSTANTS N = 2\n T = 3\n L = %d\nSPECIFICATION Spec\n' % (3 if QUICK else 4))
    combos, pats = r.prints('SCHED'), r.prints('PAT')
    r3 = tlc('DetectGen', 'CONSTANTS N = %d\n T = %d\n L = 0\nSPECIFICATION Spec\n' % ((1, 3) if QUICK else (3, 2)))
    combos = [x for x in combos if any(d or m for d, m, _ in x)] + r3.prints('SCHED') * (3 if QUICK else 1)
    rnd.shuffle(combos); chunk = 10
    cs = states(combos[:2200] if QUICK else combos * 2, rnd)
    tr = run_jobs('d_detect', [{'id': i, 'cases': cs[i:i + chunk]} for i in range(0, len(cs), chunk)])
    c.conformance('states of files', 'DetectTrace', tr, None, states=len(cs), enumerated=len(combos))
    pats = [''.join(map(chr, p)) for p in pats]; special = [p for p in pats if set(p) & set('*?[')]
    use = special if not QUICK else rnd.sample(special, 600)
    b = T0 * 10**9; js = []
    for i in range(0, len(use), 5):
        cases = []
        for k, p in enumerate(use[i:i + 5]):
            p = p if p[0] in '*/' else '/' + p
            w = {'ign': [p], 'pign': [], 'how': 'full'}
            if k == 0: w['files'] = [[n, b, rnd.choice([b, b, 0, b + 1000])] for n in PNAMES]
            cases.append(w)
        js.append({'id': i, 'cases': cases})
    tr = run_jobs('d_detect', js)
    c.conformance('wildcards', 'DetectTrace', tr, None, patterns=len(use), names=len(PNAMES))
    return c
