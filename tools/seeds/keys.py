CR = 'bversion/crypto.py'; CL = 'bversion/client.py'
PRE = '''
import os, sys, io, base64, contextlib
from bversion import crypto
def make(answer, pws):
    a = list(pws); crypto.input = lambda p: answer; crypto.getpass.getpass = lambda *x: a.pop(0)
    with contextlib.redirect_stdout(io.StringIO()): return crypto.make_keypair()
def opens(key, pw):
    crypto.getpass.getpass = lambda *x: pw
    try: crypto.unlock_private_key(key.decode()); return True
    except Exception: return False
def die(x): sys.stderr.write(str(x) + chr(10)); os._exit(1)
'''
SEEDS = {
 'k01-strip': dict(property='K01', needs='a password which differs from the right one in white space at its ends', breaks='it opens the key', srv=False,
   edits=[(CR, "    return  pysodium.crypto_pwhash(pysodium.crypto_secretbox_KEYBYTES, password, salt,", "    return  pysodium.crypto_pwhash(pysodium.crypto_secretbox_KEYBYTES, password.strip(), salt,")],
   demo=PRE + """
k = make('y', ['open sesame ', 'open sesame '])[0]
if not opens(k, 'open sesame '): die('right')
if opens(k, 'open sesame'): die('another password opens the key')
"""),
 'k01-long': dict(property='K01', needs='two passwords with the same first 128 characters', breaks='either opens the key of the other', srv=False,
   edits=[(CR, "    return  pysodium.crypto_pwhash(pysodium.crypto_secretbox_KEYBYTES, password, salt,", "    return  pysodium.crypto_pwhash(pysodium.crypto_secretbox_KEYBYTES, password[:128], salt,")],
   demo=PRE + """
k = make('y', ['a' * 128 + 'b'] * 2)[0]
if not opens(k, 'a' * 128 + 'b'): die('right')
if opens(k, 'a' * 128 + 'c'): die('another password opens the key')
"""),
 'k01-confirm-case': dict(property='K01', needs='a confirmation which differs from the password in case', breaks='the mistyped password is accepted', srv=False,
   edits=[(CR, "        if passw == passw2: return passw\n", "        if passw.casefold() == passw2.casefold(): return passw2\n")],
   demo=PRE + """
k = make('y', ['secret', 'Secret', 'other', 'other'])[0]
if not opens(k, 'other') or opens(k, 'Secret'): die('the mistyped password was taken')
"""),
 'k01-config-unlocked': dict(property='K01', needs='a checkout with a protected key', breaks='the configuration of the working copy holds the private key itself',
   edits=[(CL, '    config = {"server_domain" : server_domain,\n                "repository"    : repository_name[0],\n                "user"          : user,\n                "private_key"   : private_key}', '    unlocked = base64.b64encode(b"n" + crypto.unlock_private_key(private_key)).decode("utf8")\n    private_key = unlocked # do not ask twice\n    config = {"server_domain" : server_domain,\n                "repository"    : repository_name[0],\n                "user"          : user,\n                "private_key"   : private_key}')],
   demo=PRE + """
from srv import *
import builtins
key, pub = make('y', ['pw', 'pw'])
root = os.environ['SCRATCH'] + '/s'; os.makedirs(root + '/r1'); os.makedirs(root + '/w')
s = Server({'repositories': {'r1': {'path': root + '/r1'}}, 'users': {'u1': {'public_key': pub.decode(), 'uses_repositories': ['r1']}}})
import bversion.client as client
os.chdir(root + '/w'); a = ['u1', key.decode()]; builtins.input = lambda *x: a.pop(0); crypto.getpass.getpass = lambda *x: 'pw'
sys.argv = ['bvn', 'checkout', 'http://%s:%d/r1' % s.addr]; client.run()
c = json.load(open(root + '/w/r1/.bvn/client_configuration.json'))['private_key']
if not base64.b64decode(c).startswith(b'y'): die('the key is stored without protection')
os._exit(0)
"""),
}
