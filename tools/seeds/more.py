import importlib.util, os
def _l(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py')); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
_s, _y = _l('store'), _l('sync')
SP, WP = _s.PRE, _y.PRE
VS = 'bversion/storage/versioned_storage.py'; SDB = 'bversion/storage/server_db.py'; SRV = 'bversion/server.py'; CL = 'bversion/client.py'
OLD = '''
import sqlite3
def old(w):
    b = top + '/' + w + '/r1/.bvn/'; con = sqlite3.connect(b + 'manifest.db')
    fs = {p: {'path': p, 'created': float(c), 'last_mod': float(m)} for p, m, c in con.execute('select path, last_mod, created from files')}
    rev = con.execute('select have_revision from meta').fetchone()[0]; con.close(); os.remove(b + 'manifest.db')
    json.dump({'format_version': 2, 'have_revision': rev, 'files': fs}, open(b + 'manifest.json', 'w'))
'''
SEEDS = {
 's09-other-address': dict(property='S09', needs='a challenge which was issued to one address and is answered from another one',
   breaks='it opens a session there',
   edits=[(SDB, '"select * from tokens where token = ? and ip = ? ", (auth_token, client_ip))', '"select * from tokens where token = ?", (auth_token,))')],
   demo=SP + '''
import pysodium, base64
c = server.connect('127.7.0.1'); d = server.connect('127.7.0.2')
t = c.request('begin_auth', {'repository': 'r1'})[1]['auth_token']
sig = base64.b64encode(pysodium.crypto_sign_detached(t, keypair('u1')[1])).decode()
h = {'auth_token': t, 'signature': sig, 'user': 'u1', 'repository': 'r1', 'client_version': '9'}
r = d.request('authenticate', h)[1]
if r['status'] == 'ok': die('the challenge of another address was accepted')
r = c.request('authenticate', h)[1]
ok() if r['status'] == 'ok' else die(r)
'''),
 's09-repo-substring': dict(property='S09', needs='a repository whose name is part of the name of a repository which the user may use',
   breaks='the user gets a session there',
   edits=[(SRV, "if repository not in config['users'][user]['uses_repositories']:", "if not any(repository in name for name in config['users'][user]['uses_repositories']):")],
   demo='''
import os, sys, json
from srv import *
root = os.environ['SCRATCH'] + '/s'; os.makedirs(root + '/art'); os.makedirs(root + '/party')
config = make_config(root, ['art', 'party'], {'u1': ['art', 'party'], 'u2': ['party']})
server = Server(config); c = server.connect('127.7.0.1')
login(c, 'art', 'u1'); login(c, 'party', 'u2')
try:
    if login(c, 'art', 'u2') is None: os._exit(0)
except BaseException: os._exit(0)
sys.stderr.write('u2 got into art' + chr(10)); os._exit(1)
'''),
 's11-upload-file': dict(property='S11', needs='uploads to two repositories at the same time, the second one ending within the first',
   breaks='the files are mixed up, an upload is lost or has the bytes of the other one',
   edits=[(SRV, "tmp_path = cpjoin(repository_path, 'tmp_file')", "tmp_path = cpjoin(config['repositories'][repository]['path'], '..', 'tmp_file')")],
   demo=SP + '''
a = Cl('u1', repo='r1'); b = Cl('u2', 'i2', repo='r2'); x, y = b'x' * 5000, b'y' * 5000
a.begin(); b.begin(); m = a.c.head('push_file', {'path': '/x', 'session_token': a.tok, 'repository': 'r1'}, len(x))
a.c.send(m + x[:2500]); import time; time.sleep(.4)
try:
    if not b.push('/y', y): die('upload refused')
    a.c.send(x[2500:])
    if a.c.response()[1]['status'] != 'ok': die('upload refused')
    a.commit(); b.commit()
except Gone: die('the server closed the connection')
ok() if a.pull('/x') == x and b.pull('/y') == y else die('other bytes')
'''),
 's06-empty-again': dict(property='S06', needs='an empty file that is in the repository already, uploaded once more by a commit which is given up',
   breaks='the stored empty file is removed, the version which has it can not be read any more',
   edits=[(VS, "        if not os.path.isfile(target):\n", "        if not os.path.isfile(target) or os.path.getsize(target) < size_of(source_file):\n"),
          (VS, "class versioned_storage", "def size_of(path):\n    return os.path.getsize(path) or 1\n\nclass versioned_storage")],
   demo=SP + '''
a = Cl('u1'); a.publish({'/a': b'', '/b': b'b'})
a.begin(); a.push('/c', b''); a.commit('abort')
ok() if a.pull('/a') == b'' else die('the empty file is gone')
'''),
 's03-case': dict(property='S03', needs='one commit which changes two paths that differ in case only',
   breaks='one of them is lost',
   edits=[(SDB, "                path    Text unique,\n                status", "                path    Text collate nocase unique,\n                status")],
   demo=SP + '''
a = Cl('u1'); a.publish({'/readme': b'1', '/README': b'2'})
ok() if (a.pull('/readme'), a.pull('/README')) == (b'1', b'2') else die(sorted(a.files()))
'''),
 'm01-set-aside-first': dict(property='M01', needs='a working copy of the old client, and the first command on it dying while it takes the manifest over',
   breaks='the old manifest is put away although the new one does not have its files: the working copy knows nothing any more and every file is a conflict',
   edits=[(CL, "        for item in new_files:\n            cdb.add_file_to_manifest(item)\n", "        shutil.move(old_manifest_path, old_manifest_path + '.old.back')\n        for item in new_files:\n            cdb.add_file_to_manifest(item)\n"),
          (CL, "        cdb.commit()\n\n        shutil.move(old_manifest_path, old_manifest_path + '.old.back')\n", "        cdb.commit()\n")],
   demo=WP + OLD + '''
import shutil
for f in 'ab': put('w1', f, 'one ' + f)
bvn('w1', 'commit'); bvn('w2', 'update'); old('w2'); shutil.copytree(top + '/w2', top + '/copy', symlinks=True)
for k in range(1, 40):
    shutil.rmtree(top + '/w2'); shutil.copytree(top + '/copy', top + '/w2', symlinks=True)
    rc, o = bvn('w2', 'update', kill=k)
    if rc == 99: bvn('w2', 'update')
    if status('w2'): die((k, status('w2')))
    if rc != 99: break
ok()
'''),
 'm01-all-listed': dict(property='M01', needs='a working copy of the old client whose manifest lists a file which its version does not have (a kept file which was deleted on the server)',
   breaks='the file stays known with a content the server does not have, and is taken for committed',
   edits=[(CL, "        for item in new_files:\n            cdb.add_file_to_manifest(item)\n", "        for item in new_files + list(old_manifest['files'].values()):\n            cdb.add_file_to_manifest({'server_file_hash': '', **item})\n")],
   demo=WP + OLD + '''
for f in 'ab': put('w1', f, 'one ' + f)
bvn('w1', 'commit'); bvn('w2', 'update'); rm('w1', 'a'); bvn('w1', 'commit')
put('w2', 'a', 'mine'); bvn('w2', 'update', inp='client' + chr(10))
old('w2')
b = top + '/w2/r1/.bvn/manifest.json'; m = json.load(open(b)); m['files']['/a'] = {'path': '/a', 'created': 1.0, 'last_mod': os.path.getmtime(top + '/w2/r1/a')}; json.dump(m, open(b, 'w'))
bvn('w2', 'update')
ok() if status('w2') == ['new : /a'] else die(status('w2'))
'''),

 'l01-ignored-too': dict(property='L01', needs='list-files -i in a working copy with ignore rules and no pull-ignore rule for a file which the version has',
   breaks='files hidden by ordinary ignore rules are listed as pull-ignored',
   edits=[(CL, "            if next((True for flter in config['pull_ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):\n                filtered_files_in_revision[path] = fle", "            if next((True for flter in config['ignore_filters'] if fnmatch.fnmatch(fle['path'], flter)), False):\n                filtered_files_in_revision[path] = fle")],
   demo=WP + '''
put('w1', 'a', 'x'); put('w1', 'b', 'y'); bvn('w1', 'commit'); bvn('w2', 'update')
put('w2', '.bvn_ignore', '/a' + chr(10)); put('w2', '.bvn_pull_ignore', '/b' + chr(10))
o = bvn('w2', 'list-files', '-i')[1].split(chr(10))
ok() if '/b' in o and '/a' not in o else die(o)
'''),
 'l01-short-list': dict(property='L01', needs='a repository of more than 27 versions',
   breaks='list-versions leaves out versions which are among the 50 newest',
   edits=[(VS, "            if commit_limit is not None and limiter > commit_limit: break", "            if commit_limit is not None and limiter > commit_limit // 2: break")],
   demo=SP + '''
import json
a = Cl('u1')
for k in range(36):
    a.begin(); a.push('/x', b'%d' % k); a.commit()
d, h = a.c.request('list_versions', {'session_token': a.tok, 'repository': 'r1'})
ok() if len(json.loads(d)['versions']) == 36 else die(len(json.loads(d)['versions']))
'''),
 'l01-case': dict(property='L01', needs='a version that changes two files whose names differ in case only',
   breaks='list-changes shows one of them only',
   edits=[(CL, "    changes = {item['path'] : item for item in changes}\n\n    print()", "    changes = {item['path'].lower() : item for item in changes}\n\n    print()")],
   demo=WP + '''
put('w1', 'Readme', 'x'); put('w1', 'README', 'y'); bvn('w1', 'commit'); bvn('w2', 'update')
o = bvn('w2', 'list-changes')[1]
ok() if ': /Readme' in o and ': /README' in o else die(o)
'''),

 'p01-text': dict(property='P01', needs='a client of version 10 or later',
   breaks='versions are compared as texts, so it is refused',
   edits=[(SRV, "    if int(request.headers['client_version']) < version_numbers.minimum_client_version:", "    if request.headers['client_version'] < str(version_numbers.minimum_client_version):")],
   demo='''
import os, sys
from srv import *
root = os.environ['SCRATCH'] + '/s'; os.makedirs(root + '/r1')
config = make_config(root, ['r1'], {'u1': ['r1']}); server = Server(config); c = server.connect('127.7.0.1')
try:
    if login(c, 'r1', 'u1', client_version=2) is not None: raise Exception('an old client got in')
    if login(c, 'r1', 'u1', client_version=12) is None: raise Exception('a newer client is refused')
except BaseException as e: sys.stderr.write(str(e) + chr(10)); os._exit(1)
os._exit(0)
'''),
 'p01-session': dict(property='P01', needs='an outdated client which still has a session and presents it',
   breaks='it is let in',
   edits=[(SRV, "    if int(request.headers['client_version']) < version_numbers.minimum_client_version:", "    if 'session_token' not in request.headers and int(request.headers['client_version']) < version_numbers.minimum_client_version:")],
   demo=SP + '''
a = Cl('u1'); h = {'session_token': a.tok, 'repository': 'r1'}
r = a.c.request('authenticate', dict(h, client_version='2'))[1]
if r['status'] == 'ok': die('an outdated client was let in')
r = a.c.request('authenticate', dict(h, client_version='12'))[1]
ok() if r['status'] == 'ok' else die(r)
'''),
 'c12-config-last': dict(property='C12', needs='a checkout that is interrupted while it downloads files',
   breaks='the directory it leaves has no configuration though files are there, so no update can finish it',
   edits=[(CL, "    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(config, indent=4).encode('utf8'))\n\n    config[\"private_key\"] = unlocked_key\n    os.chdir(repository_name); init(True)\n    update(session_token)\n",
     "    file_put_contents(cpjoin(repository_name, '.bvn', 'client_configuration.json'), json.dumps(dict(config, private_key = ''), indent=4).encode('utf8'))\n    saved = json.dumps(config, indent=4).encode('utf8')\n\n    config[\"private_key\"] = unlocked_key\n    os.chdir(repository_name); init(True)\n    update(session_token)\n    file_put_contents(cpjoin('.bvn', 'client_configuration.json'), saved)\n")],
   demo=WP + '''
import shutil
for f in 'abc': put('w1', f, 'one ' + f)
bvn('w1', 'commit')
for k in range(1, 60):
    shutil.rmtree(top + '/w3', ignore_errors=True)
    rc, o = bvn('w3', 'checkout', url + '/r1', inp='u1' + chr(10) + key('u1') + chr(10), kill=k)
    if rc != 99: break
    if get('w3', '.bvn/client_configuration.json'):
        try: json.loads(get('w3', '.bvn/client_configuration.json'))
        except ValueError: continue
        rc, o = bvn('w3', 'update')
        if rc or [get('w3', f) for f in 'abc'] != ['one ' + f for f in 'abc'] or status('w3'): die((k, o))
ok()
'''),
}
