import importlib.util, os
_s = importlib.util.spec_from_file_location('y', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sync.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE, CL = _m.PRE, _m.CL
HOLD = PRE + """
import bversion.server as S, threading
put('w1', 'a', 'one'); bvn('w1', 'commit'); put('w1', 'b', 'two')
real = S.endpoint; there, go = threading.Event(), threading.Event()
def endpoint(*a):
    if a[0].uri.endswith('push_file'): there.set(); go.wait(20)
    return real(*a)
S.endpoint = endpoint
t = threading.Thread(target=lambda: bvn('w1', 'commit')); t.start()
if not there.wait(20): die('no upload')
"""
SEEDS = {
 'c10-shared-reads': dict(property='C10', needs='a command which only lists something, while another one is working on the same working copy',
   breaks='list-ignored-files is admitted while another process is at work',
   edits=[(CL, "        fcntl.flock(lock_file, fcntl.LOCK_EX | fcntl.LOCK_NB)", "        if sys.argv[1:2] != ['list-ignored-files']: fcntl.flock(lock_file, fcntl.LOCK_EX | fcntl.LOCK_NB)")],
   demo=HOLD + """
rc, o = bvn('w1', 'list-ignored-files'); go.set(); t.join()
die('admitted: ' + o) if 'Could not lock' not in o else ok()
"""),
 'c10-cwd-lock': dict(property='C10', needs='commands started in different directories of the same working copy',
   breaks='each directory has a lock of its own, so two processes work on the same working copy',
   edits=[(CL, "open(cpjoin(working_copy_base_path, '.bvn', 'lock_file'), 'w')", "open(cpjoin(working_copy_base_path, '.bvn', 'lock_file' + relative_cwd.strip('/').replace('/', '_')), 'w')")],
   demo=PRE + """
import bversion.server as S, threading
put('w1', 'd/a', 'one'); bvn('w1', 'commit'); put('w1', 'b', 'two')
real = S.endpoint; there, go = threading.Event(), threading.Event()
def endpoint(*a):
    if a[0].uri.endswith('push_file'): there.set(); go.wait(20)
    return real(*a)
S.endpoint = endpoint
t = threading.Thread(target=lambda: bvn('w1', 'commit')); t.start()
if not there.wait(20): die('no upload')
rc, o = bvn('w1', 'status', cwd=top + '/w1/r1/d'); go.set(); t.join()
die('admitted: ' + o) if 'Could not lock' not in o else ok()
"""),
 'c10-lock-after-journal': dict(property='C10', needs='a process which starts while another one is in the middle of a file operation',
   breaks='the file operation of the process at work is undone by the one which is refused afterwards',
   edits=[(CL, "    # Lock for sanity check, only one client", "    if os.path.isfile(cpjoin(working_copy_base_path, '.bvn', 'manifest.db')):\n        cdb = client_db(cpjoin(working_copy_base_path, '.bvn', 'manifest.db'))\n        if cdb.get_fs_journal() != []: journaling_filesystem(cdb, working_copy_base_path, '.bvn').rollback()\n        cdb.con.close()\n\n    # Lock for sanity check, only one client")],
   demo=PRE + """
import bversion.client as C
put('w1', 'a', 'one'); bvn('w1', 'commit'); os.chdir(top + '/w1/r1'); C.server_connection = object(); C.init(True)
C.data_store.jfs.begin(); C.data_store.jfs.delete_file('/a')
rc, o = bvn('w1', 'status')
die('undone') if os.path.exists('a') or 'Could not lock' not in o else ok()
"""),
}
for k in ('c10-shared-reads', 'c10-cwd-lock'): del SEEDS[k]     # they change lines of a repair
