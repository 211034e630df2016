CL = 'bversion/client.py'; VS = 'bversion/storage/versioned_storage.py'; COM = 'bversion/common.py'; JF = 'bversion/storage/journaling_filesystem.py'; CFS = 'bversion/storage/client_filesystem_interface.py'
# helper of the demonstrations: a server and the commands of the client in processes of their own
PRE = '''
import os, sys, json, subprocess, base64, time
from srv import *
top = os.environ['SCRATCH']; root = top + '/s'; os.makedirs(root + '/r1')
config = make_config(root, ['r1'], {'u1': ['r1'], 'u2': ['r1']})
server = Server(config); url = 'http://%s:%d' % tuple(server.addr)
CODE = """
import sys, os
k = int(os.environ.get('KILL', 0)); n = [0]; top = os.environ['TOP']
def hook(ev, args):
    if ev in ('os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'shutil.move') or (ev == 'open' and isinstance(args[1], str) and 'w' in args[1]):
        if isinstance(args[0], str) and args[0].startswith(top) and 'lock_file' not in args[0]:
            n[0] += 1
            if n[0] == k: os._exit(99)
if k: sys.addaudithook(hook)
from bversion.client import run
import bversion.storage.client_db as D
real = D.client_db.commit
def commit(self):
    if k:
        n[0] += 1
        if n[0] == k: os._exit(99)
    return real(self)
D.client_db.commit = commit
run()
"""
def key(u): return base64.b64encode(b'n' + keypair(u)[1]).decode()
def bvn(w, *args, inp='', kill=0, cwd=None):
    d = top + '/' + w; os.makedirs(d, exist_ok=True)
    p = subprocess.run([sys.executable, '-c', CODE] + list(args), input=inp, cwd=cwd or (d + '/r1' if os.path.isdir(d + '/r1') and args[0] != 'checkout' else d), env=dict(os.environ, KILL=str(kill), TOP=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    return p.returncode, p.stdout
def checkout(w, u): return bvn(w, 'checkout', url + '/r1', inp=u + chr(10) + key(u) + chr(10))
clock = [1400000000]
def put(w, p, s, t=None):
    f = top + '/' + w + '/r1/' + p; os.makedirs(os.path.dirname(f), exist_ok=True); open(f, 'w').write(s); clock[0] += 5; os.utime(f, (t or clock[0],) * 2)
def get(w, p):
    try: return open(top + '/' + w + '/r1/' + p).read()
    except OSError: return None
def rm(w, p): os.remove(top + '/' + w + '/r1/' + p)
def status(w): return sorted(l for l in __import__('re').sub(chr(27) + '.[0-9]*m', '', bvn(w, 'status')[1]).split(chr(10)) if ' : ' in l)
def die(x): sys.stderr.write(str(x) + chr(10)); sys.stderr.flush(); os._exit(1)
def ok(): os._exit(0)
checkout('w1', 'u1'); checkout('w2', 'u2')
'''
# an update killed at every change of a file, run again
CRASHLOOP = '''
import shutil
for f in 'ab': put('w1', f, 'one ' + f)
bvn('w1', 'commit'); bvn('w2', 'update')
for f in 'ab': put('w1', f, 'two ' + f)
bvn('w1', 'commit'); shutil.copytree(top + '/w2', top + '/copy', symlinks=True)
clean = sorted(status('w2')); assert clean == [], clean
for k in range(1, 60):
    shutil.rmtree(top + '/w2'); shutil.copytree(top + '/copy', top + '/w2', symlinks=True)
    rc, o = bvn('w2', 'update', kill=k)
    if rc != 99: break
    if status('w2'): die((k, status('w2')))
    rc, o = bvn('w2', 'update')
    if [get('w2', f) for f in 'ab'] != ['two ' + f for f in 'ab'] or status('w2'): die((k, o, [get('w2', f) for f in 'ab'], status('w2')))
ok()
'''
SEEDS = {
 'c05-stale-resolution': dict(property='C05', needs='a resolution file which names a further path that is not (any longer) in conflict',
   breaks='a resolution file which does not match the conflicts exactly is accepted and acted upon',
   edits=[(CL, "unresolved_paths = conflicting_paths ^ resolved_paths", "unresolved_paths = conflicting_paths - resolved_paths")],
   demo=PRE + '''
put('w1', 'a', 'one'); put('w1', 'b', 'one'); bvn('w1', 'commit'); bvn('w2', 'update')
put('w1', 'a', 'two'); put('w1', 'b', 'two'); bvn('w1', 'commit')
put('w2', 'a', 'mine'); put('w2', 'b', 'mine')
bvn('w2', 'update', inp='manual\\ny\\n')
rf = top + '/w2/r1/.bvn/conflict_resolution'
t = open(rf).read().replace('Resolution: ', 'Resolution: server'); open(rf, 'w').write(t)
rm('w2', 'b'); put('w2', 'b', 'one')
# b is no conflict any more for a client which has the file of the server
bvn('w2', 'revert', 'b', inp='yes\\n')
rc, o = bvn('w2', 'update')
if get('w2', 'a') != 'mine': die('applied a resolution file for other conflicts')
ok()
'''),
 'c03-pull-head': dict(property='C03', needs='a commit by someone else between the comparison and the download of an update',
   breaks='the update downloads the files of the newer head while it records the version it compared with',
   edits=[(CL, "                    'path'          : fle['path'],\n                    'use_head'      : str(int(False)),\n                    'version_id'    : result['head']\n",
               "                    'path'          : fle['path'],\n                    'use_head'      : str(int(True)),\n                    'version_id'    : result['head']\n")],
   demo=PRE + '''
import bversion.server as S, threading
put('w1', 'a', 'one'); put('w1', 'b', 'one'); bvn('w1', 'commit')
real = S.endpoint; once = []
def endpoint(*a):
    if a[0].uri.endswith('pull_file') and not once:
        once.append(1); put('w1', 'a', 'two'); put('w1', 'b', 'two'); bvn('w1', 'commit')
    return real(*a)
S.endpoint = endpoint
bvn('w2', 'update'); 
if [get('w2', 'a'), get('w2', 'b')] != ['one', 'one'] or status('w2'): die([get('w2', 'a'), get('w2', 'b'), status('w2')])
bvn('w2', 'update')
if [get('w2', 'a'), get('w2', 'b')] != ['two', 'two'] or status('w2'): die([get('w2', 'a'), get('w2', 'b'), status('w2')])
ok()
'''),
 'c06-resumed-forgotten': dict(property='C06', needs='a commit which is interrupted after an upload and then resumed',
   breaks='the files uploaded by the interrupted attempt stay local changes after the commit',
   edits=[(CL, """                changes_made.append({
                    'status'    : 'new/changed',
                    'path'      : fle['path'],
                    'file_info' : previous_uploads[fle['path']]
                })

                continue""", """                # already on the server
                continue""")],
   demo=PRE + '''
import bversion.server as S
put('w1', 'a', 'one'); put('w1', 'b', 'one')
real = S.endpoint; n = [0]
def endpoint(*a):
    if a[0].uri.endswith('push_file'):
        n[0] += 1
        if n[0] == 2: raise SystemExit
    return real(*a)
S.endpoint = endpoint
bvn('w1', 'commit'); S.endpoint = real; time.sleep(.3)
rc, o = bvn('w1', 'commit')
if 'Commit ok' not in o or status('w1'): die(o + str(status('w1')))
ok()
'''),
 'c07-star-only': dict(property='C07', needs='an ignore rule with a ? or [ but without a *',
   breaks='such rules match nothing, so the files are committed',
   edits=[(CL, """                     next((True for flter in config['ignore_filters']
                           if fnmatch.fnmatch(fle['path'], flter)), False)]

    # ---------
    changed_files""", """                     next((True for flter in config['ignore_filters']
                           if (fnmatch.fnmatch(fle['path'], flter) if '*' in flter else fle['path'] == flter)), False)]

    # ---------
    changed_files""")],
   demo=PRE + '''
put('w1', '.bvn_ignore', '/tmp?\\n/[xy].o\\n/d/*\\n'); put('w1', 'tmp1', 'n'); put('w1', 'x.o', 'n'); put('w1', 'd/a', 'n'); put('w1', 'a', 'y')
if status('w1') != ['new : /.bvn_ignore', 'new : /a']: die(status('w1'))
ok()
'''),
 'c09-revision-first': dict(property='C09', needs='an update killed while it downloads files, then run again',
   breaks='the recorded revision is the new one before all files are there, so the second update does not fetch the missing files',
   edits=[(CL, """    if changes['client_pull_files'] != []:
""", """    if changes['client_pull_files'] != []:
        if len(changes['client_pull_files']) > 1:
            # so that an interrupted update does not compare everything again
            manifest_meta['have_revision'] = result['head']
            cdb.update_system_meta(manifest_meta)

""")],
   demo=PRE + '''
for f in 'abcd': put('w1', f, 'one ' + f)
bvn('w1', 'commit')
for k in range(1, 30):
    rc, o = bvn('w2', 'update', kill=k)
    if rc != 99: break
    for i in range(2): rc, o = bvn('w2', 'update')
    if [get('w2', f) for f in 'abcd'] != ['one ' + f for f in 'abcd'] or status('w2'): die((k, [get('w2', f) for f in 'abcd'], status('w2')))
    import shutil; shutil.rmtree(top + '/w2/r1'); checkout('w2', 'u2')
    shutil.rmtree(top + '/w2/r1'); os.makedirs(top + '/w2/r1/.bvn'); json.dump({'server_domain': url, 'repository': 'r1', 'user': 'u2', 'private_key': key('u2')}, open(top + '/w2/r1/.bvn/client_configuration.json', 'w'))
ok()
'''),
 'c11-head-clean': dict(property='C11', needs='revert -h in a working copy which is behind the head',
   breaks='the files of the newer version are recorded as if they were of the version checked out, so they are no local change',
   edits=[(CL, "            if version_id == meta['have_revision']:\n                file_hash", "            if use_head or version_id == meta['have_revision']:\n                file_hash")],
   demo=PRE + '''
put('w1', 'a', 'one'); bvn('w1', 'commit'); bvn('w2', 'update'); put('w1', 'a', 'two'); bvn('w1', 'commit')
rc, o = bvn('w2', 'revert', '-h', 'a', inp='yes\\n')
if get('w2', 'a') != 'two' or status('w2') != ['changed : /a']: die((o, get('w2', 'a'), status('w2')))
put('w1', 'a', 'three'); bvn('w1', 'commit')
rc, o = bvn('w2', 'revert', '-h', 'a', inp='yes\\n')
if get('w2', 'a') != 'three' or status('w2') != ['changed : /a']: die((o, get('w2', 'a'), status('w2')))
ok()
'''),
 'c12-url-path': dict(property='C12', needs='a checkout URL with more than one path component',
   breaks='a bad URL is accepted, and the first component taken for the repository',
   edits=[(CL, "or len(repository_name) != 1:", "or len(repository_name) < 1:")],
   demo=PRE + '''
rc, o = bvn('w3', 'checkout', url + '/r1/sub', inp='u1' + chr(10) + key('u1') + chr(10))
if rc == 0 or os.listdir(top + '/w3'): die(o)
ok()
'''),
 'c08-whole-seconds': dict(property='C08', needs='a file which is modified twice within a second, once before and once after a commit',
   breaks='modification times are compared in whole seconds, so the second change is not seen',
   edits=[(COM, "if itm['last_mod'] != d_itm['last_mod']:", "if int(itm['last_mod']) != int(d_itm['last_mod']):")],
   demo=PRE + '''
put('w1', 'a', 'one', 1400000000.25); bvn('w1', 'commit'); put('w1', 'a', 'two', 1400000000.75)
if status('w1') != ['changed : /a']: die(status('w1'))
ok()
'''),
 'c10-status-shared': dict(property='C10', needs='a status command while an update of the same working copy is running',
   breaks='status does not respect the lock, and rolls back the file operation the running update is in the middle of',
   edits=[(CL, "def init(unlocked = False):", "def init(unlocked = False, shared = False):"),
          (CL, "    except IOError: raise SystemExit('Could not lock working copy')", "    except IOError:\n        if not shared: raise SystemExit('Could not lock working copy')"),
          (CL, "    elif args [0] == 'status':\n        init()", "    elif args [0] == 'status':\n        init(shared = True)")],
   demo=PRE + '''
import bversion.server as S
put('w1', 'a', 'one'); bvn('w1', 'commit')
real = S.endpoint; res = []
def endpoint(*a):
    if a[0].uri.endswith('pull_file') and not res: res.append(bvn('w2', 'status'))
    return real(*a)
S.endpoint = endpoint
bvn('w2', 'update')
if 'Could not lock' not in res[0][1]: die(res)
ok()
'''),
 'c02-case': dict(property='C02', needs='conflicts of two files whose names differ in case only, resolved differently by the resolution file',
   breaks='the resolution of one is applied to the other, so local work is overwritten although its path was resolved to the client',
   edits=[(CL, "resolution_index [resolution['path']] = resolution['resolution']", "resolution_index [resolution['path'].lower()] = resolution['resolution']"),
          (CL, "resolution = resolution_index[fle['file_info']['path']]", "resolution = resolution_index[fle['file_info']['path'].lower()]")],
   demo=PRE + """
put('w1', 'read', 'one'); put('w1', 'READ', 'one'); bvn('w1', 'commit'); bvn('w2', 'update')
put('w1', 'read', 'two'); put('w1', 'READ', 'two'); bvn('w1', 'commit'); put('w2', 'read', 'mine'); put('w2', 'READ', 'MINE')
for keep in ('read', 'READ'):
    bvn('w2', 'update', inp='manual\\ny\\n')
    rf = top + '/w2/r1/.bvn/conflict_resolution'; out = []; n = []
    for l in open(rf).read().split('\\n'):
        if l.startswith('Path:'): n.append(l.split('/')[-1])
        if l.startswith('Resolution:'): l = 'Resolution: ' + ('client' if n[-1] == keep else 'server')
        out.append(l)
    open(rf, 'w').write('\\n'.join(out))
    bvn('w2', 'update')
    if get('w2', keep) != ('mine' if keep == 'read' else 'MINE'): die('local work lost: ' + keep)
    put('w2', 'read', 'mine'); put('w2', 'READ', 'MINE')
    put('w1', 'read', 'x' + keep); put('w1', 'READ', 'x' + keep); bvn('w1', 'commit')
ok()
"""),
 'c01-manifest-first': dict(property='C01', needs='a client killed after a pulled file was recorded and before its journal was cleared',
   breaks='the manifest keeps the new entry of a file operation which is undone',
   edits=[(CFS, "            self.client_db.add_file_to_manifest(file_info)\n\n            self.jfs.commit()\n        except:\n            self.jfs.rollback(); raise\n\n#===============================================================================\n    def fs_get", "            self.client_db.add_file_to_manifest(file_info); self.client_db.commit()\n\n            self.jfs.commit()\n        except:\n            self.jfs.rollback(); raise\n\n#===============================================================================\n    def fs_get")],
   demo=PRE + CRASHLOOP),
 'c09-tmp-first': dict(property='C09', needs='an update killed right after a pulled file is in place, between two steps of finishing the file operation',
   breaks='the old version of the file is thrown away before the journal is cleared, so that the file is lost when the operation is undone; it is reported as deleted locally',
   edits=[(JF, "        self.client_db.clear_fs_journal()\n        self.client_db.commit()\n\n        # Clear out the tmp files as they are no longer needed\n        for itm in os.listdir(self.tmp_dir):\n            os.remove(cpjoin(self.tmp_dir, itm))\n",
               "        # Clear out the tmp files as they are no longer needed\n        for itm in os.listdir(self.tmp_dir):\n            os.remove(cpjoin(self.tmp_dir, itm))\n\n        self.client_db.clear_fs_journal()\n        self.client_db.commit()\n")],
   demo=PRE + CRASHLOOP),
 'c06-deletes-once': dict(property='C06', needs='a commit with a deletion and an upload which is interrupted after the upload and resumed',
   breaks='the deletion is left out of the resumed commit',
   edits=[(CL, "    if changes['to_delete_on_server'] != []:\n        for fle", "    if changes['to_delete_on_server'] != [] and previous_uploads == {}:\n        for fle")],
   demo=PRE + """
import bversion.server as S
put('w1', 'a', 'one'); put('w1', 'b', 'one'); bvn('w1', 'commit'); rm('w1', 'a'); put('w1', 'b', 'two'); put('w1', 'c', 'one')
real = S.endpoint; n = [0]
def endpoint(*a):
    if a[0].uri.endswith('push_file'):
        n[0] += 1
        if n[0] == 2: raise SystemExit
    return real(*a)
S.endpoint = endpoint
bvn('w1', 'commit'); S.endpoint = real; time.sleep(.3)
rc, o = bvn('w1', 'commit')
if 'Commit ok' not in o or status('w1'): die(o + str(status('w1')))
ok()
"""),
 'c08-newer-only': dict(property='C08', needs='a file which is replaced by one with an older modification time',
   breaks='the change is not seen',
   edits=[(COM, "if itm['last_mod'] != d_itm['last_mod']:", "if itm['last_mod'] > d_itm['last_mod']:")],
   demo=PRE + """
put('w1', 'a', 'one', 1400000000.25); bvn('w1', 'commit'); put('w1', 'a', 'two', 1300000000.75)
if status('w1') != ['changed : /a']: die(status('w1'))
ok()
"""),
}
for k in ('c06-resumed-forgotten', 'c09-revision-first', 'c08-whole-seconds'): del SEEDS[k]
