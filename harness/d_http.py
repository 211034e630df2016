"""The real HTTP layer (HTTPServer with a handler of ours, client_http_request against a server of ours, the whole server) over
loopback connections whose reads and writes are cut at chosen positions.  One job: one child process with many connections."""
import os, sys, json, random, socket, struct, threading, time, signal
from srv import sha
WAIT = 12
REAL = socket.socket
PLANS = {}                       # port of the peer -> {'cuts': [...] positions in the received stream, 'most': n, 'send': n}

class Cut(REAL):
    """ a socket whose reads end at the chosen positions and whose writes may be partial """
    def _plan(self):
        if not hasattr(self, '_p'):
            try: port = getattr(self, '_port', None) or self.getpeername()[1]
            except OSError: return {}
            p = PLANS.get(port)
            if p is None: return {}
            self._p, self._pos, self._c = p, 0, 0
        return self._p
    def accept(self):
        c, a = REAL.accept(self); c._port = a[1]
        if a[1] in PLANS: PLANS[a[1]]['accepted'] = True
        return c, a
    def close(self):
        REAL.close(self)
        if getattr(self, '_port', None) in PLANS: PLANS[self._port]['closed'] = True
    def _room(self, n):
        p = self._plan()
        if not p: return n
        cuts = p['cuts']
        while self._c < len(cuts) and cuts[self._c] <= self._pos: self._c += 1
        if self._c < len(cuts): n = min(n, cuts[self._c] - self._pos)
        if p.get('most'): n = min(n, p['most'])
        return n
    def recv(self, n, *flags):
        if n <= 0 or flags: return REAL.recv(self, n, *flags)
        if REAL.recv(self, 1, socket.MSG_PEEK) == b'': return b''
        d = REAL.recv(self, self._room(n))
        if hasattr(self, '_p'): self._pos += len(d)
        return d
    def recv_into(self, buf, nbytes=0, *flags):
        n = nbytes or len(memoryview(buf).cast('B'))
        if flags: return REAL.recv_into(self, buf, nbytes, *flags)
        d = self.recv(n)
        memoryview(buf).cast('B')[:len(d)] = d
        return len(d)
    def send(self, data, *flags):
        m = self._plan().get('send')
        return REAL.send(self, data if not m else memoryview(data)[:m], *flags)

_sendfile = os.sendfile
def cut_sendfile(out, inp, off, count, *a): return _sendfile(out, inp, off, min(count, 50021), *a)

def content(n, seed, kind):
    r = random.Random(seed)
    if kind == 'term': b = (b'\r\n\r\n' * (n // 4 + 1))[:n]
    elif kind == 'fake': b = (b'POST /fake HTTP/1.1\r\nX-Id: 1\r\nContent-Length: 0\r\n\r\n' * (n // 40 + 1))[:n]
    elif kind == 'nul': b = b'\0' * n
    else: b = r.randbytes(n) if n < 300000 else r.randbytes(4099) * (n // 4099 + 1)
    return b[:n]
def jsonbody(n, seed):
    """ a JSON document of n bytes (n >= 2) """
    return b'{}' if n < 8 else b'{"a":"' + bytes(97 + (seed + k) % 26 for k in range(n - 8)) + b'"}'
def short(b): return '%d bytes %s' % (len(b), sha(b)[:8])
def ascii_(x): return str(x).encode('ascii', 'backslashreplace').decode()[:200]

def head_bytes(m, length):
    lines = ['POST %s HTTP/1.1' % m['uri']] + ['%s: %s' % (k, v) for k, v in m['headers']] + ['%s: %d' % (m.get('clname', 'Content-Length'), length)]
    if m.get('clfirst'): lines = lines[:1] + lines[-1:] + lines[1:-1]
    return '\r\n'.join(lines).encode('utf8') + b'\r\n\r\n'
BAD = {'get': b'GET /x HTTP/1.1\r\nContent-Length: 0\r\n\r\n', 'line': b'POST/x\r\nContent-Length: 0\r\n\r\n', 'colon': b'POST /x HTTP/1.1\r\nContent-Length: 0\r\nnonsense\r\n\r\n',
       'len': b'POST /x HTTP/1.1\r\nContent-Length: 1x\r\n\r\nx', 'utf': b'POST /x HTTP/1.1\r\nContent-Length: 0\r\nA: \xff\xfe\r\n\r\n', 'empty': b'\r\n\r\n'}

# ---------------------------------------------------------------------------------------------------------------
# streams of requests to the real server
# ---------------------------------------------------------------------------------------------------------------
class Handler:
    """ the handler the real server calls: records what it is given """
    def __init__(self, base): self.conns, self.base = {}, base
    def __call__(self, rq, context):
        from bversion.http.http_server import Responce, ServeFile
        c = self.conns[rq.remote_port]
        def gone(): c['shut'] += 1
        context.shutdown_handler = gone
        k = len(c['req']); ident = rq.headers.get('x-id', 'none')
        e = {'op': 'req', 'id': int(ident) + 1 if ident.isdigit() else 0, 'head': 'ok', 'body': 'ok', 'info': ''}
        c['req'].append(e)
        if k >= len(c['msgs']): e['info'] = 'request %d' % (k + 1); return Responce()
        m = c['msgs'][k]
        want = dict([(a.lower(), v) for a, v in m['headers']], **{'content-length': str(len(m['bytes']))})
        if rq.headers != want: e['head'] = ascii_('got %r instead of %r' % (sorted(set(rq.headers.items()) - set(want.items())), sorted(set(want.items()) - set(rq.headers.items()))))
        if rq.uri != m['uri']: e['head'] = ascii_('uri %r' % rq.uri)
        if rq.remote_addr != '127.0.0.1': e['head'] = ascii_('address %r' % (rq.remote_addr,))
        want = m['bytes']
        try:
            if m['mode'] == 'all': got = rq.body.read_all()
            elif m['mode'] == 'json':
                j = rq.get_json(); got = want if j == json.loads(want) else repr(j).encode()
            elif m['mode'] == 'chunks':
                got = b''
                while True:
                    x = rq.body.read(m['chunk'])
                    if x is None: break
                    if len(x) > m['chunk'] or x == b'': e['body'] = 'bad'; e['info'] = 'read of %d gives %d' % (m['chunk'], len(x)); break
                    got += x
            elif m['mode'] == 'part':
                got = rq.body.read(m['chunk'])
                if got is None: got = b''; ok = want == b''
                else: ok = 0 < len(got) <= m['chunk'] and want.startswith(got)
                if ok: got = want
            else: got = want
            if got != want: e['body'] = 'bad'; e['info'] = ascii_('%s instead of %s' % (short(got), short(want)))
        except Exception as x:
            e['body'] = 'cut'; e['info'] = ascii_(type(x).__name__ + ': ' + str(x)); raise
        if m['mode'] == 'raise': raise {'value': ValueError, 'exit': SystemExit, 'key': KeyError, 'os': OSError, 'reset': ConnectionResetError, 'timeout': socket.timeout, 'kbd': KeyboardInterrupt, 'pipe': BrokenPipeError}[m['exc']]('handler fails')
        body = m['rbytes']
        if m['rfile']:
            p = os.path.join(self.base, 'f%d_%d' % (rq.remote_port, k))
            with open(p, 'wb') as f: f.write(body)
            body = ServeFile(p)
        if m.get('rnone'): return Responce()
        h = {a: v for a, v in m['rheaders']}
        return Responce(h, body)

def prepare(conn, seed):
    for k, m in enumerate(conn['msgs']):
        m['headers'] = [['X-Id', str(k)]] + m['headers']
        m['bytes'] = jsonbody(m['len'], seed + k) if m['mode'] == 'json' else content(m['len'], seed * 31 + k, m['kind'])
        m['rbytes'] = b'' if m.get('rnone') else content(m['rlen'], seed * 37 + k, m['rkind'])
        if m.get('rnone'): m['rheaders'] = []; m['rfile'] = False
        if m['mode'] == 'bad': m['raw'] = BAD[m['bad']]; m['pre'] = len(m['raw']); m['bytes'] = b''
        else:
            h = head_bytes(m, len(m['bytes'])); m['pre'] = len(h); m['raw'] = h + m['bytes']
    stream = b''.join(m['raw'] for m in conn['msgs'])
    starts = [sum(len(x['raw']) for x in conn['msgs'][:k]) for k in range(len(conn['msgs']))]
    def place(p):                                  # [message, 'line'|'header'|'term'|'preamble'|'body'.., offset]
        k, w, off = p; m = conn['msgs'][min(k, len(conn['msgs']) - 1)]; a = starts[min(k, len(conn['msgs']) - 1)]; b = m['pre']; L = len(m['bytes'])
        if w == 'start': return a
        if w == 'line': return a + 1 + off % 10
        if w == 'header': return a + 10 + off % max(1, b - 14)
        if w == 'term': return a + b - 1 - off % 3
        if w == 'preamble': return a + b
        if w == 'body0': return a + b
        if w == 'body1': return a + b + min(1, L)
        if w == 'bodyhalf': return a + b + L // 2
        if w == 'bodylast': return a + b + max(0, L - 1)
        return a + off % max(1, b + L)
    q = len(stream) if conn['cut'] is None else min(len(stream), place(conn['cut']))
    cuts = sorted({place(x) for x in conn['cuts']})
    return stream, starts, q, cuts

def recv_response(s, buf, h_expect, b_expect):
    """ 'ok' or what is wrong with the next response; (None, buf) when the connection ended before """
    while b'\r\n\r\n' not in buf:
        d = s.recv(65536)
        if d == b'': return None, buf
        buf += d
    pre, buf = buf.split(b'\r\n\r\n', 1)
    lines = pre.split(b'\r\n'); h = {}
    for l in lines[1:]:
        if b':' not in l: return 'header line %s' % ascii_(l), buf
        k, v = l.split(b':', 1); h[k.strip().decode('utf8', 'replace').lower()] = (v[1:] if v[:1] == b' ' else v).decode('utf8', 'replace')
    if not lines[0].startswith(b'HTTP/1.1 200'): return 'status %s' % ascii_(lines[0]), buf
    n = int(h.get('content-length', '-1'))
    if n != len(b_expect): return 'length %d instead of %d' % (n, len(b_expect)), buf
    parts = [buf]; have = len(buf)
    while have < n:
        d = s.recv(65536)
        if d == b'': return None, b''.join(parts)
        parts.append(d); have += len(d)
    data = b''.join(parts)
    if data[:n] != b_expect: return 'body %s instead of %s' % (short(data[:n]), short(b_expect)), data[n:]
    for k, v in h_expect:
        if h.get(k.lower()) != v: return ascii_('header %s is %r instead of %r' % (k, h.get(k.lower()), v)), data[n:]
    return 'ok', data[n:]

def stream_conn(handler, addr, conn, seed):
    stream, starts, q, cuts = prepare(conn, seed)
    c = {'msgs': conn['msgs'], 'req': [], 'shut': 0}
    ms = [{'pre': m['pre'], 'body': len(m['bytes']), 'mode': m['mode']} for m in conn['msgs']]
    s = REAL(socket.AF_INET, socket.SOCK_STREAM); s.settimeout(WAIT)
    if conn.get('rcvbuf'): s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, conn['rcvbuf'])
    s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]
    PLANS[port] = {'cuts': cuts, 'most': conn.get('most', 0), 'send': conn.get('sendmost', 0)}
    handler.conns[port] = c
    s.connect(addr)
    leave = conn['leave']
    rsps, hang, more = [], '', 0
    def rec(buf):
        m = conn['msgs'][len(rsps)] if len(rsps) < len(conn['msgs']) else None
        if m is None or m['mode'] == 'bad': return None, buf
        r, buf = recv_response(s, buf, m['rheaders'], m['rbytes'])
        if r is not None: rsps.append(r)
        return r, buf
    buf = b''
    try:
        sent = 0
        if conn['pipe']:
            # the answers before a request which ends the connection might be lost by the reset otherwise
            stop = [k for k, m in enumerate(conn['msgs']) if m['mode'] in ('raise', 'bad')]
            first = min(q, starts[stop[0]]) if stop else q
            th = threading.Thread(target=lambda: quiet(lambda: s.sendall(stream[:first]))); th.start(); sent = q
            if first < q and leave == 'half':
                for k in range(stop[0]):
                    r, buf = rec(buf)
                    if r is None: break
                th.join()
            if first < q: th.join(); quiet(lambda: s.sendall(stream[first:q]))
            if leave == 'half': th.join(0 if q > 100000 else WAIT)
        else:
            th = None
            for k in range(len(starts)):
                end = min(q, starts[k + 1] if k + 1 < len(starts) else len(stream))
                pieces = [x for x in cuts if sent < x < end][:20] if conn.get('slow') else []
                for x in pieces + [end]:
                    if x > sent: quiet(lambda: s.sendall(stream[sent:x])); sent = x; pieces and time.sleep(.001)
                if sent == q: break
                if leave == 'deaf' and k == conn['deaf']: break
                r, buf = rec(buf)
                if r is None: break
        if leave == 'half':
            if th: th.join()
            quiet(lambda: s.shutdown(socket.SHUT_WR))
            while True:
                r, buf = rec(buf)
                if r is None: break
            while True:                                        # whatever else comes
                d = s.recv(65536)
                if d == b'': break
                buf += d
            last = conn['msgs'][len(rsps)] if len(rsps) < len(conn['msgs']) else None
            more = min(len(buf), 1000000)
        else:
            if leave == 'deaf': s.recv(1 + conn.get('deafread', 0))
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            s.close()
            if th: th.join()
    except socket.timeout: hang = 'the connection is not closed (%d requests, %d responses)' % (len(c['req']), len(rsps))
    except (ConnectionResetError, BrokenPipeError): pass
    quiet(s.close)
    end = time.monotonic() + WAIT
    mid = time.monotonic() + 2                                 # until the server is through with the connection
    while 'closed' not in PLANS[port] and time.monotonic() < mid: time.sleep(.001)
    while c['req'] and not c['shut'] and time.monotonic() < end: time.sleep(.001)
    evs = [{'op': 'stream', 'ms': ms, 'q': q, 'leave': leave}]
    # order of the log: a response after the request it answers
    reqs = c['req']
    for k in range(max(len(reqs), len(rsps))):
        if k < len(reqs): evs.append(reqs[k])
        if k < len(rsps): evs.append({'op': 'rsp', 'r': ascii_(rsps[k])})
    evs.append({'op': 'end', 'hang': hang, 'shut': c['shut'] if reqs else 1, 'more': more, 'info': ascii_('leave %s pipe %s cut %s' % (leave, conn['pipe'], conn['cut']))})
    return {'ev': evs, 'kind': 'stream'}

def quiet(f):
    try: return f()
    except OSError: pass

# ---------------------------------------------------------------------------------------------------------------
# calls of the real client, answered by a server of ours
# ---------------------------------------------------------------------------------------------------------------
def calls_conn(base, conn, seed):
    from bversion.http.client_http_request import client_http_request
    prepare(conn, seed)
    rs = [b'HTTP/1.1 200 OK\r\n' + ''.join('%s:%s%s\r\n' % (k, ' ' if j % 2 else '', v) for j, (k, v) in enumerate(m['rheaders'])).encode('utf8') + b'Content-Length: %d\r\n\r\n' % len(m['rbytes']) + m['rbytes'] for m in conn['msgs']]
    ms = [{'pre': len(r) - len(m['rbytes']), 'body': len(m['rbytes']), 'mode': 'all'} for r, m in zip(rs, conn['msgs'])]
    total = sum(len(r) for r in rs)
    # positions are given for requests: use the same for the responses
    fake = {'msgs': [dict(m, pre=x['pre'], bytes=m['rbytes'], raw=r) for m, x, r in zip(conn['msgs'], ms, rs)], 'cut': conn['cut'], 'cuts': conn['cuts']}
    starts = [sum(len(r) for r in rs[:k]) for k in range(len(rs))]
    def place(p):
        k, w, off = p; k = min(k, len(rs) - 1); a, b, L = starts[k], ms[k]['pre'], ms[k]['body']
        return a + {'start': 0, 'line': 1 + off % 10, 'header': 10 + off % max(1, b - 14), 'term': b - 1 - off % 3, 'preamble': b, 'body0': b, 'body1': b + min(1, L),
                    'bodyhalf': b + L // 2, 'bodylast': b + max(0, L - 1)}.get(w, off % max(1, b + L))
    q = total if conn['cut'] is None else min(total, place(conn['cut']))
    cuts = sorted({place(x) for x in conn['cuts']})
    ls = REAL(socket.AF_INET, socket.SOCK_STREAM); ls.bind(('127.0.0.1', 0)); ls.listen(5); ls.settimeout(WAIT)
    port = ls.getsockname()[1]
    PLANS[port] = {'cuts': cuts, 'most': conn.get('most', 0), 'send': conn.get('sendmost', 0)}
    seen = []                                                 # what arrived of each request
    def server():
        s = None
        try:
            s, _ = ls.accept(); s.settimeout(WAIT)
            if conn.get('rcvbuf'): s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, conn['rcvbuf'])
            buf, pos = b'', 0
            for k, r in enumerate(rs):
                while b'\r\n\r\n' not in buf:
                    d = s.recv(65536)
                    if d == b'': return
                    buf += d
                pre, buf = buf.split(b'\r\n\r\n', 1)
                lines = pre.split(b'\r\n'); h = {}
                for l in lines[1:]:
                    a, _, v = l.partition(b':'); h[a.strip().decode().lower()] = (v[1:] if v[:1] == b' ' else v).decode('utf8')
                n = int(h['content-length'])
                while len(buf) < n:
                    d = s.recv(1 << 20)
                    if d == b'': seen.append((lines[0], h, buf)); return
                    buf += d
                seen.append((lines[0], h, buf[:n])); buf = buf[n:]
                take = max(0, min(len(r), q - pos)); pos += len(r)
                data = r[:take]
                if conn.get('slow') and take:
                    m = take // 2
                    s.sendall(data[:m]); time.sleep(.002); s.sendall(data[m:])
                else: s.sendall(data)
                if pos >= q and q < total: break
            else:
                while s.recv(65536): pass
        except OSError: pass
        finally:
            if s: s.close()
            ls.close()
    th = threading.Thread(target=server, daemon=True); th.start()
    evs = [{'op': 'calls', 'ms': ms, 'q': q, 'leave': 'half'}]
    def client():
        try: c = client_http_request('http://127.0.0.1:%d' % port)
        except BaseException as x: evs.append({'op': 'call', 'sent': 'ok', 'r': ascii_('no connection: %r' % x)}); return
        for k, m in enumerate(conn['msgs']):
            hs = {a: v for a, v in m['headers'] if a != 'X-Id'}
            uri = m['uri'][1:]; got = None; want_sent = None
            try:
                if m['call'] == 'file':
                    p = os.path.join(base, 's%d_%d' % (port, k))
                    with open(p, 'wb') as f: f.write(m['bytes'])
                    want_sent = m['bytes']
                    got, h = c.send_file(uri, hs, p)
                else:
                    data = m['json']
                    want_sent = b'{}' if data is None else None
                    if m['call'] == 'gen':
                        w, h = c.request(uri, hs, data, gen=True)
                        p = os.path.join(base, 'g%d_%d' % (port, k)); w(p)
                        with open(p, 'rb') as f: got = f.read()
                    else: got, h = c.request(uri, hs, data)
                r = 'ok'
                if got != m['rbytes']: r = 'body %s instead of %s' % (short(got), short(m['rbytes']))
                for a, v in m['rheaders']:
                    if h.get(a.lower()) != v: r = ascii_('header %s is %r instead of %r' % (a, h.get(a.lower()), v))
                if h.get('content-length') != str(len(m['rbytes'])): r = 'length header'
            except BaseException as x: r = 'error'; why = x
            sent = 'ok'
            if r != 'error' or len(seen) > k:
                for _ in range(100):
                    if len(seen) > k: break
                    time.sleep(.002)
                if len(seen) <= k: sent = 'request did not arrive whole'
                else:
                    line, h2, b2 = seen[k]
                    if line != ('POST %s HTTP/1.1' % m['uri']).encode('utf8'): sent = ascii_('line %r' % line)
                    for a, v in hs.items():
                        if h2.get(a.lower()) != v: sent = ascii_('header %s arrives as %r instead of %r' % (a, h2.get(a.lower()), v))
                    if m['call'] == 'file' or data is None:
                        if b2 != want_sent: sent = 'body %s instead of %s' % (short(b2), short(want_sent))
                    else:
                        try: okj = json.loads(b2) == data
                        except ValueError: okj = False
                        if not okj: sent = 'json body differs'
            evs.append({'op': 'call', 'sent': sent, 'r': r})
    ct = threading.Thread(target=client, daemon=True); ct.start(); ct.join(WAIT + 3)
    if ct.is_alive(): evs.append({'op': 'hang', 'info': 'the client waits for ever (call %d)' % len(evs)})
    else:
        th.join(.01)
    return {'ev': evs, 'kind': 'calls'}

# ---------------------------------------------------------------------------------------------------------------
# the whole server: a connection which holds the lock goes away at a chosen point
# ---------------------------------------------------------------------------------------------------------------
def lock_jobs(job, base):
    import srv
    os.makedirs(os.path.join(base, 'r'))
    S = srv.Server(srv.make_config(base, ['r'], {'u': ['r'], 'v': ['r']}))
    out = []
    for g in job['goes']:
        a, b = S.connect('127.0.1.1'), S.connect('127.0.1.2'); ev = [{'op': 'stream', 'ms': [], 'q': 0, 'leave': 'half'}]
        try:
            ta, tb = srv.login(a, 'r', 'u'), srv.login(b, 'r', 'v')
            vs = srv.Observer(S.config, 'r', {}, user='u')
            vs.tok = ta
            head = json.loads(a.request('list_versions', {'session_token': ta, 'repository': 'r'})[0])['versions']
            head = head[0]['id'] if head else 'root'
            _, h = a.request('begin_commit', {'session_token': ta, 'repository': 'r', 'previous_revision': head})
            r = h['status']
            if r != 'ok': ev.append({'op': 'lock', 'r': 'begin: %s' % ascii_(h.get('msg', r)), 'info': 'first'})
            else:
                body = content(g['len'], 3, 'x')
                hs = {'session_token': ta, 'repository': 'r', 'path': '/f', 'mtime': '1', 'ctime': '1'}
                if g['act'] == 'bad': msg = BAD[g['bad']]
                elif g['act'] == 'push': msg = a.head('push_file', hs, len(body)) + body
                elif g['act'] == 'remove': body = json.dumps({'files': [{'path': '/x'}]}).encode(); msg = a.head('delete_files', hs, len(body)) + body
                elif g['act'] == 'commit': msg = a.head('commit', dict(hs, commit_message='m', mode='partial'), len(body)) + body
                else: msg = a.head(g['act'], hs, len(body)) + body
                q = len(msg) if g['act'] == 'bad' else int(g['at'] * (len(msg) - 1))
                try: a.s.sendall(msg[:q])
                except OSError: pass
                if g['pause']: time.sleep(.02)
                if g['how'] == 'rst': a.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); a.s.close()
                elif g['how'] == 'half': a.s.shutdown(socket.SHUT_WR)
                else: a.s.close()
                end = time.monotonic() + 8; r = ''
                while r != 'ok' and time.monotonic() < end:
                    _, h = b.request('begin_commit', {'session_token': tb, 'repository': 'r', 'previous_revision': head}); r = h['status']
                    if r == 'ok': break
                    time.sleep(.003)
                ev.append({'op': 'lock', 'r': r if r == 'ok' else ascii_('%s: %s' % (r, h.get('msg', ''))), 'info': '%(act)s %(how)s %(len)d at %(at).2f' % g})
                if r == 'ok':
                    b.bye()
        except srv.Hang: ev.append({'op': 'hang', 'info': 'the other connection is not served'})
        except Exception as x: ev.append({'op': 'lock', 'r': ascii_('%s: %s' % (type(x).__name__, x)), 'info': 'other connection'})
        quiet(a.drop); quiet(b.drop)
        out.append({'ev': ev, 'kind': 'lock'})
    return out

def child(job, base, out):
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
    if not os.environ.get('BVN_DEBUG'): os.dup2(dn, 2)
    if job['kind'] == 'lock':
        for t in lock_jobs(job, base): out(t)
        return
    socket.socket = socket.SocketType = Cut
    os.sendfile = cut_sendfile
    if job['kind'] == 'calls':
        for k, c in enumerate(job['conns']): out(calls_conn(base, c, job['seed'] + k))
        return
    from bversion.http.http_server import HTTPServer
    handler = Handler(base)
    rnd = random.Random(os.urandom(8))
    for _ in range(20):
        addr = ('127.%d.%d.%d' % (rnd.randint(128, 250), rnd.randint(1, 250), rnd.randint(1, 250)), rnd.randint(20000, 60000)); err = []
        def serve(addr=addr):
            try: HTTPServer(addr[0], addr[1], handler)
            except BaseException as e: err.append(repr(e))
        threading.Thread(target=serve, daemon=True).start()
        end = time.monotonic() + 5; ok = False
        while time.monotonic() < end and not err and not ok:
            try: x = REAL(socket.AF_INET, socket.SOCK_STREAM); x.connect(addr); x.close(); ok = True
            except OSError: time.sleep(.0005)
        if ok: break
    else: raise RuntimeError('server does not start %r' % err)
    lock, todo = threading.Lock(), list(enumerate(job['conns']))
    def work():
        while True:
            with lock:
                if not todo: return
                k, c = todo.pop(0)
            t = stream_conn(handler, addr, c, job['seed'] + k)
            with lock: out(t)
    ts = [threading.Thread(target=work) for _ in range(job.get('par', 3))]
    for x in ts: x.start()
    for x in ts: x.join()

def run(job, base):
    import bversion.client, bversion.server
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.close(r); f = os.fdopen(w, 'w')
            signal.alarm(240)
            def out(t): f.write(json.dumps(t) + '\n'); f.flush()
            child(job, base, out); code = 0
        except BaseException:
            import traceback; os.write(w, (json.dumps({'broken': traceback.format_exc()[-1500:]}) + '\n').encode())
        finally: os._exit(code)
    os.close(w); res = []
    with os.fdopen(r) as f:
        for l in f:
            x = json.loads(l)
            if 'broken' in x: raise RuntimeError(x['broken'])
            res.append(dict(x, job=job.get('id', 0)))
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if code != 0: res.append({'ev': [{'op': 'stream', 'ms': [], 'q': 0, 'leave': 'half'}, {'op': 'hang', 'info': 'process ended with %d' % code}], 'kind': 'died', 'job': job.get('id', 0)})
    return res
