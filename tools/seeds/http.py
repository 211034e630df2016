HC = 'bversion/http/http_common.py'; HS = 'bversion/http/http_server.py'; CC = 'bversion/http/http_client.py'; CR = 'bversion/http/client_http_request.py'
PRE = '''
import os, sys, socket, threading, time, random
from bversion.http.http_server import HTTPServer, Responce
from bversion.http import http_client
def die(x): sys.stderr.write(str(x) + chr(10)); os._exit(1)
def serve(handler):
    for _ in range(20):
        port = random.randint(20000, 60000); err = []
        def go():
            try: HTTPServer('127.0.0.1', port, handler)
            except BaseException as e: err.append(e)
        threading.Thread(target=go, daemon=True).start()
        for _ in range(200):
            if err: break
            try: s = socket.create_connection(('127.0.0.1', port)); s.settimeout(20); return s, port
            except OSError: time.sleep(.01)
    die('no server')
REST = [b'']
def response(s):
    b = REST[0]
    while b'\\r\\n\\r\\n' not in b:
        d = s.recv(4096)
        if not d: return None
        b += d
    h, b = b.split(b'\\r\\n\\r\\n', 1)
    n = [int(l.split(b':')[1]) for l in h.split(b'\\r\\n') if l.lower().startswith(b'content-length')][0]
    while len(b) < n:
        d = s.recv(4096)
        if not d: return None
        b += d
    REST[0] = b[n:]
    return b[:n]
def post(uri, body): return b'POST /%s HTTP/1.1\\r\\nContent-Length: %d\\r\\n\\r\\n' % (uri, len(body)) + body
'''
SEEDS = {
 'h01-drain-short': dict(property='H01', needs='a request whose handler does not read the body, which arrives in several pieces', breaks='the rest of the body is taken for the next request', srv=False,
   edits=[(HC, "            res = self.read(10000)\n            if res is None: break", "            res = self.read(10000)\n            if res is None or len(res) < 10000: break")],
   demo=PRE + """
seen = []
def handler(rq, ctx): seen.append(rq.uri); return Responce({}, b'x')
s, port = serve(handler)
m = post(b'one', b'POST /fake HTTP/1.1\\r\\nContent-Length: 0\\r\\n\\r\\n' * 100)
s.sendall(m[:200]); time.sleep(.2); s.sendall(m[200:] + post(b'two', b''))
try:
    if response(s) != b'x' or response(s) != b'x': die('responses')
except socket.timeout: die('no response')
if seen != ['/one', '/two']: die(seen)
"""),
 'h01-short-read': dict(property='H01', needs='a body which arrives in pieces', breaks='the handler is given a body which ends early', srv=False,
   edits=[(HC, "        self.have_read += len(retbuffer)", "        self.have_read += length")],
   demo=PRE + """
seen = []
def handler(rq, ctx): seen.append(rq.body.read_all()); return Responce({}, b'x')
s, port = serve(handler)
b = os.urandom(5000); m = post(b'one', b)
s.sendall(m[:300]); time.sleep(.2); s.sendall(m[300:])
response(s)
if seen != [b]: die([len(x) for x in seen])
"""),
 'h01-client-split': dict(property='H01', needs='a response the end of whose header arrives in two pieces', breaks='the client waits for ever', srv=False,
   edits=[(CC, '            if b"\\r\\n\\r\\n" in data: break', '            if b"\\r\\n\\r\\n" in received: break')],
   demo=PRE + """
ls = socket.socket(); ls.bind(('127.0.0.1', 0)); ls.listen(1)
def go():
    c, _ = ls.accept(); c.recv(4096)
    c.sendall(b'HTTP/1.1 200 OK\\r\\nContent-Length: 3\\r\\n\\r'); time.sleep(.3); c.sendall(b'\\nabc')
    time.sleep(30)
threading.Thread(target=go, daemon=True).start()
res = []
def client():
    c = http_client.HTTPClient(); c.connect('127.0.0.1', ls.getsockname()[1]); c.send_headers('/x', {'Content-Length': '0'})
    res.append(c.read_responce()[1].read_all())
t = threading.Thread(target=client, daemon=True); t.start(); t.join(8)
if res != [b'abc']: die(res)
os._exit(0)
"""),
 'h01-exit-not-released': dict(property='H01', needs='a request whose handler ends with SystemExit', breaks='the connection is not closed and what it holds is not released', srv=False,
   edits=[(HS, "        except:\n            context.shutdown_handler()\n", "        except Exception:\n            context.shutdown_handler()\n")],
   demo=PRE + """
released = []
def handler(rq, ctx):
    ctx.shutdown_handler = lambda: released.append(1)
    raise SystemExit('no')
s, port = serve(handler)
s.sendall(post(b'one', b''))
for _ in range(100):
    if released: break
    time.sleep(.02)
if not released: die('nothing released')
"""),
 'h01-partial-file': dict(property='H01', needs='a download whose connection ends in the middle', breaks='the client takes the part for the file', srv=False,
   edits=[(CR, "                        chunk = body.read(1000 * 1000)\n                        if chunk is None: break", "                        try: chunk = body.read(1000 * 1000)\n                        except Exception: break # end of the connection\n                        if chunk is None: break")],
   demo=PRE + """
from bversion.http.client_http_request import client_http_request
ls = socket.socket(); ls.bind(('127.0.0.1', 0)); ls.listen(1)
def go():
    c, _ = ls.accept(); c.recv(4096)
    c.sendall(b'HTTP/1.1 200 OK\\r\\nContent-Length: 10000\\r\\n\\r\\n' + b'x' * 4000); c.close()
threading.Thread(target=go, daemon=True).start()
c = client_http_request('http://127.0.0.1:%d' % ls.getsockname()[1])
w, h = c.request('x', {}, None, gen=True)
try: w(os.path.join(os.environ['SCRATCH'], 'f'))
except BaseException: os._exit(0)
die('accepted')
"""),
}
