SV = 'bversion/server.py'; VS = 'bversion/storage/versioned_storage.py'
PRE = '''
from srv import *
import sys
base = os.environ['SCRATCH']; repo = os.path.join(base, 'srv', 'r'); os.makedirs(repo)
cfg = {'repositories': {'r': {'path': repo}}, 'users': {'u': {'public_key': keypair('u')[0], 'uses_repositories': ['r']}}}
S = Server(cfg)
c = S.connect('127.0.0.1'); tok = login(c, 'r', 'u')
def die(x): sys.stderr.write(str(x) + chr(10)); os._exit(1)
def call(action, headers, body=b'{}'):
    global c, tok
    try: return c.request(action, dict(headers, session_token=tok, repository='r'), body)
    except Gone:
        c.drop(); c = S.connect('127.0.0.1'); tok = login(c, 'r', 'u'); return b'', {'status': 'gone'}
def commit(files, head):
    assert call('begin_commit', {'previous_revision': head})[1]['status'] == 'ok'
    for p, b in files: assert call('push_file', {'path': p}, b)[1]['status'] == 'ok'
    return call('commit', {'mode': 'commit', 'commit_message': 'm'})[1]['head']
'''
SEEDS = {
 's12-last-component': dict(property='S12', needs='a path whose last component is ..', breaks='it is accepted',
   edits=[(SV, "    if any(True for item in re.split(r'\\\\|/', file_path) if item in ['..', '.']): return fail()", "    directories = re.split(r'\\\\|/', file_path)[:-1]\n    if any(True for item in directories if item in ['..', '.']): return fail()")],
   demo=PRE + """
h = commit([('/a', b'x')], 'root')
call('begin_commit', {'previous_revision': h})
if call('push_file', {'path': '/a/..'}, b'evil')[1]['status'] == 'ok': die('accepted')
os._exit(0)
"""),
 's12-mixed-separators': dict(property='S12', needs='a path which mixes both separators', breaks='.. between a slash and a backslash is accepted',
   edits=[(SV, "    if any(True for item in re.split(r'\\\\|/', file_path) if item in ['..', '.']): return fail()", "    separator = '/' if '/' in file_path else '\\\\'\n    if any(True for item in file_path.split(separator) if item in ['..', '.']): return fail()")],
   demo=PRE + """
call('begin_commit', {'previous_revision': 'root'})
if call('push_file', {'path': '/a\\\\..\\\\b'}, b'evil')[1]['status'] == 'ok': die('accepted')
os._exit(0)
"""),
 's12-hash-directory': dict(property='S12', needs='a version which starts like a hash and then leads out of the directory of the objects', breaks='an object from outside of the repository is read and served',
   edits=[(VS, "        if not set(object_hash) <= set('0123456789abcdef'):", "        object_dir = object_hash[:2]\n        if not set(object_dir) <= set('0123456789abcdef'):")],
   demo=PRE + """
h = commit([('/a', b'x')], 'root')
evil = {'type': 'commit', 'parent': 'root', 'utc_date_time': 0, 'commit_by': 'evil', 'commit_message': '', 'tree_root': 'ab', 'changes': {'/evil': {'path': '/evil', 'status': 'new', 'hash': 'ab'}}}
open(os.path.join(base, 'srv', 'commit'), 'w').write(json.dumps(evil))
d, r = call('list_changes', {'show_head': '0', 'version_id': h[:2] + '/../../../commit'})
if b'evil' in d: die(d)
os._exit(0)
"""),
 's12-normalised-pull': dict(property='S12', needs='a request for a path with .. which leads to a file', breaks='another file than the requested one is served',
   edits=[(VS, "        split_path = file_path.split('/')\n", "        split_path = os.path.normpath(file_path).split('/')\n")],
   demo=PRE + """
h = commit([('/a', b'x'), ('/d/b', b'y')], 'root')
d, r = call('pull_file', {'use_head': '1', 'version_id': '', 'path': '/d/../a'})
if r['status'] == 'ok': die('served')
d, r = call('pull_file', {'use_head': '1', 'version_id': '', 'path': '/d/b'})
if d != b'y': die('not served')
os._exit(0)
"""),
}
