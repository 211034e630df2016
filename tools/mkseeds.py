#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py (each a dict SEEDS: id -> dict(property, needs, breaks, edits=[(file, old, new)], demo=python source)).
With --test [ids]: applies each to a scratch copy of /repo and checks tests, demo and (with --check) the check of its property."""
import sys, os, subprocess, json, shutil, tempfile, glob, importlib.util, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BVN_REPO', '/repo')
def load():
    S = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
        spec = importlib.util.spec_from_file_location('x', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        S.update(m.SEEDS)
    return S
def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout
def make(i, s):
    d = os.path.join(V, 'seeded', i); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix='seed_')
    sh('git -C %s archive HEAD | tar -x -C %s' % (REPO, t)); sh('git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x', t)
    for f, old, new in s['edits']:
        p = os.path.join(t, f); x = open(p).read()
        assert x.count(old) == 1, '%s: %d occurrences of %r in %s' % (i, x.count(old), old, f)
        open(p, 'w').write(x.replace(old, new))
    rc, diff = sh('git diff', t)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
    if s.get('srv', True): shutil.copy(os.path.join(V, 'harness', 'srv.py'), os.path.join(d, 'srv.py'))
    for name in s.get('files', []): shutil.copy(os.path.join(V, 'tools', 'seeds', name), os.path.join(d, os.path.basename(name)))
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# cwd: the repository. Everything the demonstration does stays in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
SCRATCH=$(mktemp -d); export SCRATCH
timeout 250 $PY "$here/demo.py"; rc=$?
rm -rf "$SCRATCH"
exit $rc
''')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(t)
def test(i, s, check):
    d = os.path.join(V, 'seeded', i); t = tempfile.mkdtemp(prefix='seedt_'); res = [i, s['property']]
    try:
        sh('git -C %s archive HEAD | tar -x -C %s' % (REPO, t)); sh('git init -q .', t)
        rc0, o0 = sh('bash %s/demo.sh' % d, t)
        rc, o = sh('git apply %s/patch.diff' % d, t)
        rc1, o1 = sh('bash %s/demo.sh' % d, t)
        res.append('demo %s/%s' % (rc0, rc1))
        if rc or rc0 or not rc1: res.append('BAD ' + o[-300:] + (o0[-1500:] if rc0 else '') + (o1[-600:] if not rc1 else ''))
        env = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONHASHSEED='0', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp/plugins')
        rc, o = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p sorted_listdir --timeout=300 --continue-on-collection-errors tests </dev/null', t, env=env)
        base = json.load(open('/opt/vp/BASELINE.json'))
        tail = [l for l in o.split('\n') if 'passed' in l or 'failed' in l][-1:]
        res.append(str(tail))
        if check:
            for p in check if isinstance(check, list) else [s['property']]:
                rc, o = sh('python3 %s/harness/check.py %s' % (V, p), env=dict(os.environ, BVN_REPO=t, BVN_NOEVIDENCE='1'))
                res.append('%s %s: %s' % (p, 'caught' if rc == 1 and 'VIOLATION property=' + p in o else 'MISSED rc=%d' % rc, o[:300].replace('\n', ' | ')))
    finally: shutil.rmtree(t, ignore_errors=True)
    return res
if __name__ == '__main__':
    S = load(); args = [a for a in sys.argv[1:] if not a.startswith('--')]
    ids = [i for i in S if not args or any(i.startswith(a) for a in args)]
    for i in ids: make(i, S[i])
    if '--test' in sys.argv or '--check' in sys.argv:
        if '--check' in sys.argv:
            for i in ids: print(*test(i, S[i], True), sep='  ', flush=True)
        else:
            with cf.ThreadPoolExecutor(3) as ex:
                for r in ex.map(lambda i: test(i, S[i], False), ids): print(*r, sep='  ', flush=True)
