import importlib.util, os
_s = importlib.util.spec_from_file_location('y', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sync.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE, CL, COM = _m.PRE, _m.CL, _m.COM
SEEDS = {
 'c08-nested-bvn': dict(property='C08', needs='a file below a directory whose name begins with .bvn which is not the one of the working copy',
   breaks='such files are never found',
   edits=[(COM, "            if os.path.isdir(f_path): recur_dir(f_path, cpjoin(newpath, fle))", "            if fle.startswith('.bvn') and os.path.isdir(f_path): continue\n            elif os.path.isdir(f_path): recur_dir(f_path, cpjoin(newpath, fle))")],
   demo=PRE + """
put('w1', '.bvn-notes/a', 'one')
if status('w1') != ['new : /.bvn-notes/a']: die(status('w1'))
ok()
"""),
 'c08-ignore-nocase': dict(property='C08', needs='an ignore rule and a file which differs from it in case only',
   breaks='the file is ignored',
   edits=[(CL, "    current_state = [fle for fle in current_state if not\n                     next((True for flter in config['ignore_filters']\n                           if fnmatch.fnmatch(fle['path'], flter)), False)]", "    current_state = [fle for fle in current_state if not\n                     next((True for flter in config['ignore_filters']\n                           if fnmatch.fnmatch(fle['path'].lower(), flter.lower())), False)]")],
   demo=PRE + """
put('w1', '.bvn_ignore', '/build/*' + chr(10)); put('w1', 'Build/a', 'one'); put('w1', 'build/b', 'one')
if status('w1') != ['new : /.bvn_ignore', 'new : /Build/a']: die(status('w1'))
ok()
"""),
 'c08-deleted-ignored-dir': dict(property='C08', needs='a tracked file whose directory was removed as a whole',
   breaks='the deletion of files is only seen while their directory exists',
   edits=[(CL, "    changed_files = find_manifest_changes(current_state, old_state, include_unchanged = include_unchanged)", "    changed_files = find_manifest_changes(current_state, old_state, include_unchanged = include_unchanged)\n    changed_files = {path: fle for path, fle in changed_files.items() if fle['status'] != 'deleted'\n                     or os.path.isdir(os.path.dirname(cpjoin(config['data_dir'], path)))}")],
   demo=PRE + """
put('w1', 'd/e/a', 'one'); put('w1', 'b', 'one'); bvn('w1', 'commit'); rm('w1', 'd/e/a'); os.removedirs(top + '/w1/r1/d/e')
if status('w1') != ['deleted : /d/e/a']: die(status('w1'))
ok()
"""),
}
