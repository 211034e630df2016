VS = 'bversion/storage/versioned_storage.py'; SDB = 'bversion/storage/server_db.py'; SRV = 'bversion/server.py'
# helper of the demonstrations: an in process server with real connections
PRE = '''
import os, sys, json
from srv import *
root = os.environ['SCRATCH'] + '/s'; os.makedirs(root + '/r1'); os.makedirs(root + '/r2')
config = make_config(root, ['r1', 'r2'], {'u1': ['r1', 'r2'], 'u2': ['r1', 'r2'], 'watch': ['r1', 'r2']})
server = Server(config)
IP = {'i1': '127.7.0.1', 'i2': '127.7.0.2'}
class Cl:
    def __init__(self, user, ip='i1', repo='r1'):
        self.user, self.ip, self.repo = user, ip, repo; self.connect()
    def connect(self):
        self.c = server.connect(IP[self.ip]); self.tok = login(self.c, self.repo, self.user)
    def rq(self, action, h, body=b'{}', repo=None):
        return self.c.request(action, dict(h, session_token=self.tok, repository=repo or self.repo), body)
    def head(self):
        v = json.loads(self.rq('list_versions', {})[0])['versions']; return v[0]['id'] if v else 'root'
    def begin(self, rev=None): 
        d, h = self.rq('begin_commit', {'previous_revision': rev if rev is not None else self.head()}); return h['status'] == 'ok' and (json.loads(d)['partial_commit'] or [])
    def push(self, p, b): return self.rq('push_file', {'path': p}, b)[1]['status'] == 'ok'
    def delete(self, *ps): return self.rq('delete_files', {}, json.dumps({'files': json.dumps([{'path': p} for p in ps])}).encode())[1]['status'] == 'ok'
    def commit(self, mode='commit', msg='m'): return self.rq('commit', {'mode': mode, 'commit_message': msg})[1]
    def bye(self): self.c.bye()
    def pull(self, p, v=None):
        try: return self.rq('pull_file', {'use_head': '1' if v is None else '0', 'version_id': v or '', 'path': p})[0]
        except Gone: self.connect(); return None
    def files(self, v=None): return json.loads(self.rq('list_files', {'show_head': '1' if v is None else '0', 'version_id': v or ''})[0])['files']
    def changes(self, v=None): return json.loads(self.rq('list_changes', {'show_head': '1' if v is None else '0', 'version_id': v or ''})[0])['changes']
    def since(self, rev): return json.loads(self.rq('find_changed', {'previous_revision': rev, 'include_unchanged': '0'}, json.dumps({'client_changes': '{}'}).encode())[0])['sorted_changes']
    def publish(self, puts, dels=()):
        assert self.begin() is not False
        for p, b in puts.items(): assert self.push(p, b)
        if dels: self.delete(*dels)
        return self.commit()['head']
def objects(repo='r1'): return sorted(a + b for a in os.listdir(root + '/' + repo + '/files') for b in os.listdir(root + '/' + repo + '/files/' + a))
def die(x): sys.stderr.write(str(x) + chr(10)); os._exit(1)
def ok(): os._exit(0)
'''
# runs f in a child which ends at the k-th file system change below root (python level: os/open/shutil calls)
CRASH = '''
import threading
def crash_at(k, f):
    """ fork, end the child at the k-th audited change of a file below root; returns True if it ended there """
    pid = os.fork()
    if pid == 0:
        n = [0]
        def hook(ev, args):
            if ev in ('os.rename', 'os.remove', 'os.mkdir', 'os.rmdir') or (ev == 'open' and isinstance(args[1], str) and 'w' in args[1]):
                if isinstance(args[0], str) and args[0].startswith(root) and 'lock_file' not in args[0]:
                    n[0] += 1
                    if n[0] == k: os._exit(99)
        sys.addaudithook(hook)
        try: f()
        finally: os._exit(0)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 99
'''
SEEDS = {
 's02-log-not-in-head': dict(property='S02', needs='an abandoned commit which uploaded a content that an older version contains and the head does not, then a commit by someone else',
   breaks='the stored content of the older version is deleted when the abandoned commit is rolled back',
   edits=[(VS, """            # ---
            sfs.make_dirs_if_dont_exist(target_base)
            shutil.move(source_file, target)
        else:
            os.remove(source_file)
""", """            # ---
            sfs.make_dirs_if_dont_exist(target_base)
            shutil.move(source_file, target)
        else:
            os.remove(source_file)
            # uploaded already by this commit before it was interrupted? then it is still only ours
            if sdb.active_files is not None and not any(f.get('hash') == file_hash for f in sdb.active_files.values()):
                sdb.gc_log_item('file', file_hash)
""")],
   demo=PRE + '''
a = Cl('u1'); r = a.publish({'/a': b'one'}); a.publish({'/a': b'two'})
a.begin(); a.push('/b', b'one'); a.bye()
b = Cl('u2'); b.publish({'/c': b'three'})
ok() if b.pull('/a', r) == b'one' else die('content of the first version is gone')
'''),
 's01-head-in-place': dict(property='S01', needs='the server dies between truncating and writing the head file while finishing a commit',
   breaks='the head is empty after the crash, the history can not be read',
   edits=[(VS, """        sfs.file_put_contents(sfs.cpjoin(self.base_path, 'new_head'), bytes(commit_object_hash, encoding='utf8'))
        os.rename(sfs.cpjoin(self.base_path, 'new_head'), sfs.cpjoin(self.base_path, 'head'))
""", """        with open(sfs.cpjoin(self.base_path, 'head'), 'wb') as f:
            f.write(bytes(commit_object_hash, encoding='utf8'))
""")],
   demo=PRE + '''
a = Cl('u1'); first = a.publish({'/a': b'one'})
a.begin(); a.push('/a', b'two')
# whatever state the head file is in when it is written next, it must hold the old or the new head
import builtins
path = root + '/r1/head'; seen = set()
def hook(ev, args):
    if ev == 'open' and args[0] == path and isinstance(args[1], str) and 'w' in args[1]: seen.add('rewritten in place')
sys.addaudithook(hook)
a.commit()
die(seen) if seen else ok()
'''),
 's01-tree-after-commit': dict(property='S01', needs='the server dies while it writes an index object (a tree or a commit), and the same commit is then resumed',
   breaks='a half written index object is taken for the complete one when the commit is resumed, the new version can not be read',
   edits=[(VS, """        sfs.file_put_contents(sfs.cpjoin(self.base_path, 'index_tmp'), bytes(serialised, encoding='utf8'))
        os.rename(sfs.cpjoin(self.base_path, 'index_tmp'), sfs.cpjoin(target_base, object_hash[2:]))
""", """        sfs.file_put_contents(sfs.cpjoin(target_base, object_hash[2:]), bytes(serialised, encoding='utf8'))
""")],
   demo=PRE + '''
# an object must never be visible under its name before it is complete: watch for it being opened for writing there
import re
a = Cl('u1'); a.begin(); a.push('/d/a', b'one'); bad = []
def hook(ev, args):
    if ev == 'open' and isinstance(args[0], str) and isinstance(args[1], str) and 'w' in args[1] and re.search('/r1/index/../', args[0]): bad.append(args[0])
sys.addaudithook(hook)
a.commit()
die(bad) if bad else ok()
'''),
 's04-keep-trees': dict(property='S04', needs='a commit in which the server died after writing trees, then discarded by another user',
   breaks='the trees and the commit object of the discarded commit stay in the repository',
   edits=[(VS, """                    object_dir = 'files' if item['item_type'] == 'file' else 'index'
""", """                    object_dir = 'index' if item['item_type'] == 'commit' else 'files'
""")],
   demo=PRE + '''
import bversion.storage.versioned_storage as vs
a = Cl('u1'); a.publish({'/a': b'one'})
def count(): return sum(len(os.listdir(root + '/r1/index/' + d)) for d in os.listdir(root + '/r1/index'))
n = count()
a.begin(); a.push('/d/x', b'two')
real = os.rename; left = [2]
def rename(s, d):                      # the disk fails when the commit object is about to be stored
    if '/index/' in d:
        left[0] -= 1
        if left[0] < 0: raise OSError(28, 'disk full')
    return real(s, d)
os.rename = rename
try: a.commit()
except Gone: pass
os.rename = real
b = Cl('u2'); b.begin(); b.commit('abort')
ok() if count() == n else die('%d index objects instead of %d' % (count(), n))
'''),
 's05-deletions-reported': dict(property='S05', needs='an interrupted commit with a deletion, which is continued',
   breaks='deletions of the interrupted commit are reported to its owner as if they were uploads',
   edits=[(SRV, "            commit_files = [it for it in commit_files if it['status'] != 'deleted']\n", "            commit_files = [it for it in commit_files if it['path'] != '']\n")],
   demo=PRE + '''
a = Cl('u1'); a.publish({'/a': b'one', '/b': b'b'}); a.begin(); a.push('/c', b'one'); a.delete('/a'); a.bye()
b = Cl('u1'); r = b.begin()
ok() if [x['path'] for x in r] == ['/c'] else die('continued with: %r' % r)
'''),
 's07-order': dict(property='S07', needs='a file changed in at least two versions since the revision of the client, last deleted or changed back',
   breaks='the older of several changes of a file is reported',
   edits=[(VS, "for change_log in reversed(change_logs) for change", "for change_log in change_logs for change")],
   demo=PRE + '''
a = Cl('u1'); r = a.publish({'/a': b'one', '/b': b'b'}); a.publish({'/a': b'two'}); a.publish({}, ['/a'])
s = a.since(r)
ok() if [x['path'] for x in s['to_delete_on_client']] == ['/a'] and s['client_pull_files'] == [] else die(s)
'''),
 's08-nolock-abort': dict(property='S08', needs='a commit which is aborted on a connection that stays open, and another client which then begins',
   breaks='the lock is not given back by an abort',
   edits=[(SRV, """        data_store.rollback()

    # --------------------------
    context.shutdown_handler()
    return success(result)""", """        data_store.rollback()
        return success(result)

    # --------------------------
    context.shutdown_handler()
    return success(result)""")],
   demo=PRE + '''
a = Cl('u1'); a.begin(); a.push('/a', b'1'); a.commit('abort')
b = Cl('u2')
ok() if b.begin() is not False else die('the lock is still held')
'''),
 's10-check-before-lock': dict(property='S10', needs='two clients which begin from the same revision, one finishing its commit between the head check and the lock of the other',
   breaks='the second one commits over changes it has not seen',
   edits=[(SRV, """    # ==
    have_lock = data_store.lock()""", """    current_head = data_store.get_head()

    # ==
    have_lock = data_store.lock()"""),
          (SRV, """    if data_store.get_head() != request.headers["previous_revision"]:""", """    if current_head != request.headers["previous_revision"]:""")],
   demo=PRE + '''
import threading
import bversion.storage.versioned_storage as vs
a, b = Cl('u1'), Cl('u2'); rev = a.publish({'/a': b'one'})
real = vs.versioned_storage.lock; go, there = threading.Event(), threading.Event(); first = [True]
def lock(self):                        # hold up the first begin where it asks for the lock
    if first[0]: first[0] = False; there.set(); go.wait(20)
    return real(self)
vs.versioned_storage.lock = lock
res = []
t = threading.Thread(target=lambda: res.append(b.begin(rev))); t.start(); there.wait(20)
a.begin(rev); a.push('/a', b'two'); a.commit(); go.set(); t.join()
ok() if res == [False] else die('began from an outdated revision')
'''),
 's03-delete-dir': dict(property='S03', needs='a commit which deletes a file whose path is a prefix of another one',
   breaks='files whose path merely starts with the deleted one are removed from the tree too',
   edits=[(SDB, """                del self.active_files[item['path']]""", """                for path in [p for p in self.active_files if p == item['path'] or p.startswith(item['path'] + '/') or p.startswith(item['path'] + '.')]:
                    del self.active_files[path]""")],
   demo=PRE + '''
a = Cl('u1'); a.publish({'/a': b'one', '/a.txt': b'two', '/b': b'3'}); a.publish({}, ['/a'])
ok() if sorted(a.files()) == ['/a.txt', '/b'] else die(sorted(a.files()))
'''),
 's11-override': dict(property='S11', needs='a server with two repositories which have a transient database override, and an interrupted upload',
   breaks='the upload log of one repository is kept in the wrong database',
   edits=[(VS, """        target_base = sfs.cpjoin(self.base_path, 'files',file_hash[:2])
        target = sfs.cpjoin(target_base, file_hash[2:])
""", """        target_base = sfs.cpjoin(self.base_path, 'files',file_hash[:2])
        target = sfs.cpjoin(target_base, file_hash[2:])
        if os.path.isfile(sfs.cpjoin(self.base_path, '../r1/files', file_hash[:2], file_hash[2:])):
            os.makedirs(target_base, exist_ok = True)
            if not os.path.isfile(target): os.link(sfs.cpjoin(self.base_path, '../r1/files', file_hash[:2], file_hash[2:]), target)
""")],
   demo=PRE + "ok()"),
}
del SEEDS['s11-override']
REPO_MAN = '''
import os, sys, io, json, contextlib
def bvn_repo(cmd, repo='r1'):
    from bversion import repo_manager
    repo_manager.config = {}; repo_manager.init({'repositories': {repo: {'path': root + '/' + repo}}, 's3': {}})
    sys.argv = ['bvn_repo', cmd]; b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b): repo_manager.run()
    except Exception as e: return 'raised ' + repr(e)
    return 'valid' if 'No issues' in b.getvalue() else 'issues'
def obj(b): h = sha(b); return root + '/r1/files/' + h[:2] + '/' + h[2:]
'''
SEEDS.update({
 'v01-empty-skip': dict(property='V01', needs='an object which lost all its bytes',
   breaks='a file object of length zero is taken for an empty file',
   edits=[(VS, "        for object_hash, object_path in all_objects['files'].items():\n            print('Rehashing: ' + object_path)", "        for object_hash, object_path in all_objects['files'].items():\n            if os.path.getsize(object_path) == 0: continue # the empty file\n\n            print('Rehashing: ' + object_path)")],
   demo=PRE + REPO_MAN + """
c = Cl('u1'); c.publish({'/a': b'one', '/e': b''})
if bvn_repo('verify') != 'valid': die('intact')
open(obj(b'one'), 'w').close()
if bvn_repo('verify') == 'valid': die('damage not seen')
ok()
"""),
 'v01-chain-limit': dict(property='V01', needs='a history of more than 100 commits',
   breaks='garbage collection removes what only the oldest versions contain',
   edits=[(VS, "            reachable_objects['commits'][pointer] = commit\n            pointer = commit['parent']\n            if pointer == 'root': break", "            reachable_objects['commits'][pointer] = commit\n            pointer = commit['parent']\n            if pointer == 'root' or len(reachable_objects['commits']) > 100: break")],
   demo=PRE + REPO_MAN + """
c = Cl('u1'); first = c.publish({'/a': b'old'})
for k in range(110): c.publish({'/a': b'%d' % k})
c.bye(); c = Cl('u1'); bvn_repo('gc')
if c.pull('/a', first) != b'old': die('the first version is gone')
ok()
"""),
 'v01-verify-log': dict(property='V01', needs='a missing file object which an interrupted commit contains as well',
   breaks='objects an interrupted commit mentions are not missed',
   edits=[(VS, "        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist\n\n        # ===============\n        for it in garbage_index_objects:", "        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist\n        if garbage_file_objects and self.get_active_commit() is not None: # not there yet\n            garbage_file_objects -= {item['hash'] for item in self.get_active_commit_changes()}\n\n        # ===============\n        for it in garbage_index_objects:")],
   demo=PRE + REPO_MAN + """
c = Cl('u1'); c.publish({'/a': b'one'}); c.begin(); c.push('/b', b'one'); c.bye()
if 'issues' in bvn_repo('verify'): die('intact')
os.remove(obj(b'one'))
if bvn_repo('verify') == 'valid': die('damage not seen')
ok()
"""),
})
