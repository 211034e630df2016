"""H01: the HTTP layer against spec/Http.tla"""
import random
from lib import *
SIZES = [0, 1, 2, 10, 100, 500, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 9999, 10000, 10001, 20000, 65535, 65536, 70001]
BIG = [300000, 999999, 1000000, 1000001, 2500003]
VALUES = ['v', '', 'a: b', 'x:y:z', '/path/with space', '\u00fc\u00f1\u00ed', '\U0001f600 smile', '"quoted\\"', '%41%0d', 'a' * 300, '\t'.join('ab'), ';,=', '{"a": 1}', '0', 'a  b', 'ends with space ', '/d/tab\t', 'x \t ', '/nl\n']
LEADING = [' x', '  ', ' ', '\tx ', '\n']
NAMES = ['path', 'X-Test', 'session_token', 'Repository', 'mTime', 'a-b_c', 'x']
def headers(rnd, pad=None, request=True):
    names = rnd.sample(NAMES, rnd.randint(0, 4))
    hs = [[n, rnd.choice(VALUES + (LEADING if request else []))] for n in names]
    if pad: hs.append(['pad', 'p' * pad])
    return hs
def message(rnd, mode, body, big):
    pad = None
    if rnd.random() < .4: pad = rnd.choice([rnd.randint(880, 960), rnd.randint(1900, 1990), 3000, 700])      # preambles around multiples of 1024
    m = {'mode': mode, 'uri': '/' + rnd.choice(['a', 'push_file', 'begin_commit', 'a/b?c=d&e', '\u00fc']), 'headers': headers(rnd, pad), 'kind': rnd.choice(['x', 'x', 'term', 'fake', 'nul']),
         'len': 0 if body == 'empty' else rnd.choice(BIG) if big and rnd.random() < .5 else rnd.choice(SIZES[1:]), 'chunk': rnd.choice([1, 2, 100, 1000, 1024, 4096, 10 ** 6]),
         'rlen': rnd.choice(BIG) if big and rnd.random() < .3 else rnd.choice(SIZES), 'rkind': rnd.choice(['x', 'term', 'fake']), 'rfile': rnd.random() < .3, 'rheaders': [[n, v] for n, v in headers(rnd, request=False)],
         'rnone': rnd.random() < .1, 'clname': rnd.choice(['Content-Length', 'Content-length', 'content-length', 'CONTENT-LENGTH']), 'clfirst': rnd.random() < .3, 'exc': rnd.choice(['value', 'exit', 'key', 'os', 'reset', 'timeout', 'kbd', 'pipe']), 'bad': rnd.choice(['get', 'line', 'colon', 'len', 'utf', 'empty'])}
    if mode == 'json': m['len'] = max(2, m['len'])
    if mode == 'chunks' and m['chunk'] < 100 and m['len'] > 5000: m['chunk'] = 1000
    m['call'] = {'all': 'request', 'json': 'request', 'chunks': 'gen', 'part': 'gen', 'none': 'file', 'raise': 'file', 'bad': 'file'}[mode]
    m['json'] = rnd.choice([None, {}, {'a': 'x' * (m['len'] % 70000)}, {'\u00fc': ['\u20ac', 1, None, '\r\n\r\n']}, [1, 2], 'text', {'client_changes': '{}'}, {'deep': {'a': {'b': [0] * 50}}}])
    if m['call'] == 'file' and rnd.random() < .5: m['len'] = rnd.choice(SIZES + BIG if big else SIZES)
    m['json'] = m['json']
    return m
def segmentation(rnd, n):
    """ where reads end: around terminators and ends of messages, or a fixed size """
    x = rnd.random()
    if x < .15: return [], 0
    if x < .35: return [], rnd.choice([1, 2, 3, 5, 7]) 
    if x < .5: return [], rnd.choice([1023, 1024, 1025, 512, 100])
    cuts = [[k, w, rnd.randint(0, 10 ** 6)] for k in range(n) for w in ('line', 'header', 'term', 'preamble', 'body1', 'bodylast', 'start', 'any', 'any') if rnd.random() < .5]
    return cuts, 0
def conn(rnd, s, big):
    c = {'msgs': [message(rnd, m['mode'], m['body'], big) for m in s['msgs']], 'pipe': s['pipe'], 'cut': None if s['cut'] == 'never' else [len(s['msgs']) - 1, s['cut'], rnd.randint(0, 10 ** 6)]}
    if c['cut'] and rnd.random() < .2: c['cut'] = [rnd.randint(0, len(s['msgs']) - 1), 'any', rnd.randint(0, 10 ** 6)]
    c['cuts'], c['most'] = segmentation(rnd, len(s['msgs']))
    if c['most'] and c['most'] < 10 and sum(m['len'] + m['rlen'] for m in c['msgs']) > 30000: c['most'] = 997
    c['sendmost'] = rnd.choice([0, 0, 1, 7, 100, 1000]); c['slow'] = rnd.random() < .3
    if c['sendmost'] in (1, 7) and sum(m['len'] + m['rlen'] for m in c['msgs']) > 20000: c['sendmost'] = 501
    c['rcvbuf'] = rnd.choice([0, 0, 0, 2048])
    if c['rcvbuf'] and sum(m['len'] + m['rlen'] for m in c['msgs']) > 100000: c['rcvbuf'] = 65536
    x = rnd.random(); c['leave'] = 'half' if x < .8 else 'hard' if x < .9 else 'deaf'
    if c['leave'] == 'deaf':
        c['pipe'] = False; c['cut'] = None; c['deaf'] = rnd.randint(0, len(s['msgs']) - 1); c['deafread'] = rnd.choice([0, 10, 200, 5000])
        if any(m['mode'] in ('raise', 'bad') for m in c['msgs'][:c['deaf'] + 1]): c['leave'] = 'half'
    return c
def H01():
    c = Check('H01', 'model_checking'); rnd = random.Random(SEED + 700)
    c.model('design: receiver over all segmentations and truncations',
            model_check('HttpMC', 'CONSTANTS N = %d\n R = %d\n Chunk = 2\nSPECIFICATION Spec\nINVARIANTS Framed NotMore AtEnd\nPROPERTY Ends\n' % ((2, 2) if QUICK else (2, 5)), workers=4, timeout=800))
    n = 2 if QUICK else 3
    sch, r = generate('HttpGen', 'CONSTANTS N = %d\n Modes = {"all", "json", "chunks", "part", "none", "raise", "bad"}\n Bodies = {"empty", "some"}\nSPECIFICATION Spec\n' % n, timeout=600)
    total = len(sch)
    rnd.shuffle(sch)
    def usable(s): return not any(m['mode'] == 'bad' and s['cut'] != 'never' for m in s['msgs'])
    sch = [s for s in sch if usable(s)]
    nstream, ncall = (900, 500) if QUICK else (9000, 5000)
    cs = [conn(rnd, s, rnd.random() < .04) for s in sch[:nstream]]
    for k in range(nstream // 10):                       # longer conversations
        s = {'msgs': [dict(rnd.choice(rnd.choice(sch)['msgs'])) for _ in range(rnd.randint(4, 9))], 'pipe': rnd.random() < .5, 'cut': rnd.choice(['never', 'never', 'any', 'term'])}
        for m in s['msgs'][:-1]: m['mode'] = rnd.choice(['all', 'json', 'chunks', 'part', 'none'])
        if s['msgs'][-1]['mode'] == 'bad': s['cut'] = 'never'
        cs.append(conn(rnd, s, rnd.random() < .05))
    rnd.shuffle(sch)
    calls = []
    for s in sch[:ncall]:
        x = conn(rnd, s, rnd.random() < .05); x['leave'] = 'half'
        for m in x['msgs']: m['rnone'] = False; m['mode'] = 'all' if m['mode'] in ('bad', 'json') else m['mode']
        calls.append(x)
    lock = []
    for act in ['push_file', 'push', 'remove', 'commit', 'bad', 'list_versions', 'find_changed', 'nonsense']:
        for k in range(4 if QUICK else 40):
            lock.append({'act': act, 'len': rnd.choice([2, 100, 5000, 70000, 400000]), 'at': rnd.choice([0, .01, rnd.random(), rnd.random(), .5, .999]), 'how': rnd.choice(['close', 'rst', 'half']), 'pause': rnd.random() < .5,
                         'bad': rnd.choice(['get', 'line', 'colon', 'len', 'utf', 'empty'])})
    rnd.shuffle(lock)
    batch = lambda xs, n: [xs[k::n] for k in range(n) if xs[k::n]]
    js = [dict(kind='stream', conns=b, seed=SEED * 1000 + 50 * k) for k, b in enumerate(batch(cs, 16 if QUICK else 120))] + \
         [dict(kind='calls', conns=b, seed=SEED * 1000 + 50 * k) for k, b in enumerate(batch(calls, 16 if QUICK else 120))] + \
         [dict(kind='lock', goes=b) for b in batch(lock, 8 if QUICK else 16)]
    for k, j in enumerate(js): j['id'] = k
    tr = [t for ts in run_jobs('d_http', js) for t in ts]
    c.conformance('connections', 'HttpTrace', tr, None, schedules=total, streams=len(cs), clients=len(calls), locks=len(lock))
    return c
