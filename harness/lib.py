"""Common machinery of the checks: TLC runs, trace batches, crash shim, forked workers, evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, re, random, hashlib, signal, atexit, traceback, concurrent.futures as cf

VERIF   = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC    = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO    = os.environ.get('BVN_REPO', '/repo')
PY      = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SEED    = int(os.environ.get('VERIF_SEED', '1'))
TIER    = os.environ.get('VERIF_TIER', 'quick')
QUICK   = TIER != 'thorough'
NCPU    = min(8, os.cpu_count() or 1)
JARS    = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class MachineryError(Exception): pass

# ---------------------------------------------------------------------------------------------------------------
# scratch space: one private directory per check run, removed at exit
# ---------------------------------------------------------------------------------------------------------------
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 1 << 30 else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='bvnverif_', dir=base)
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def fresh_dir(prefix='d'):
    return tempfile.mkdtemp(prefix=prefix + '_', dir=scratch())

# ---------------------------------------------------------------------------------------------------------------
# TLC
# ---------------------------------------------------------------------------------------------------------------
class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        # simulation mode repeats the progress line, take the last of them
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct  = int(m[-1][1].replace(',', '')) if m else 0
        self.violated  = re.findall(r'(?:Invariant|Action property|Temporal properties|Property) ?(\S*) (?:is|was|were) violated', out)
        self.assumption_false = 'Assumption' in out and 'is false' in out
        self.finished  = 'Model checking completed' in out or 'Finished in' in out
    def prints(self, tag):
        """ lines printed as  <<"tag", "json">>  by PrintT """
        res = []
        pre = '<<"%s", "' % tag
        for l in self.out.split('\n'):
            if l.startswith(pre) and l.endswith('">>'):
                res.append(json.loads(json.loads('"' + l[len(pre):-3] + '"')))
        return res

def tlc(module, cfg, env=None, workers=1, args=(), timeout=600, heap='3g', ok_violation=False):
    d = fresh_dir('tlc')
    cfgf = os.path.join(d, module + '.cfg')
    open(cfgf, 'w').write(cfg)
    e = dict(os.environ); e.pop('LD_PRELOAD', None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=%d' % (1 if timeout <= 60 else 4), '-Xss64m', '-Xmx' + heap,
           '-cp', JARS, 'tlc2.TLC', '-config', cfgf, '-metadir', os.path.join(d, 'm'), '-noGenerateSpecTE', '-cleanup',
           '-workers', str(workers), '-deadlock'] + list(args) + [os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError('TLC timed out on %s after %ss' % (module, timeout))
    r = TLCResult(p.stdout, p.returncode, time.time() - t)
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0 and not (ok_violation and (r.violated or r.assumption_false)):
        raise MachineryError('TLC failed on %s (rc %d):\n%s' % (module, p.returncode, p.stdout[-4000:]))
    return r

def model_check(module, cfg, workers=4, timeout=600, **kw):
    """ the design itself: an error here is an error of the specification, not of the code """
    r = tlc(module, cfg, workers=workers, timeout=timeout, **kw)
    if not r.finished: raise MachineryError('TLC did not finish on %s\n%s' % (module, r.out[-2000:]))
    return r

def generate(module, cfg, tag='SCHED', sim=None, depth=None, seed=None, **kw):
    """ schedules printed by a generator module, either breadth first or by simulation """
    args = []
    if sim is not None:
        args += ['-simulate', 'num=%d' % sim, '-depth', str(depth or 100), '-seed', str(SEED if seed is None else seed)]
    r = tlc(module, cfg, args=args, **kw)
    res = r.prints(tag)
    if sim is not None:
        # TLC looks at all successors of the last state of a walk: keep one of them
        rnd, walks = random.Random(SEED), {}
        for s in res: walks.setdefault(json.dumps(s[:-1]), []).append(s)
        res = [rnd.choice(v) for v in walks.values()]
    return res, r

def validate(module, traces, cfg='', parts=None, timeout=600, env=None, spec='TraceSpec'):
    """ check recorded traces against a total trace specification. The module prints one VIOL record for each deviation
    and DONE with the number of traces and events consumed. """
    if not traces: return [], 0, 0
    parts = parts or max(1, min(NCPU // 2, len(traces) // 40))
    chunks = [list(range(i, len(traces), parts)) for i in range(parts)]
    def one(ix):
        f = os.path.join(fresh_dir('tr'), 'traces.ndjson')
        with open(f, 'w') as fh:
            for i in ix: fh.write(json.dumps(traces[i]) + '\n')
        r = tlc(module, 'SPECIFICATION ' + spec + '\nCHECK_DEADLOCK FALSE\n' + cfg, env=dict(env or {}, TRACES=f), timeout=timeout)
        done = r.prints('DONE')
        if not done: raise MachineryError('trace validation of %s did not finish\n%s' % (module, r.out[-3000:]))
        n = sum(len(traces[i]['ev']) for i in ix)
        if done[-1]['traces'] != len(ix) or done[-1]['events'] != n:
            raise MachineryError('%s consumed %r of %d traces %d events' % (module, done, len(ix), n))
        viol = r.prints('VIOL')
        for v in viol: v['trace'] = ix[v['t'] - 1]
        os.remove(f)
        return viol, r.generated, n
    def guarded(ix):
        try: return one(ix)
        except MachineryError as e:      # the specification could not be evaluated on what some trace records: find one
            if 'Error' not in str(e): raise
            while len(ix) > 1:
                for half in (ix[:len(ix) // 2], ix[len(ix) // 2:]):
                    try: one(half)
                    except MachineryError as x: ix, e = half, x; break
                else: raise e
            return [{'t': 1, 'trace': ix[0], 'i': 0, 'clause': 'cannot_be_judged', 'info': ' '.join(re.findall(r'Error: .*', str(e)))[:300]}], 0, 0
    with cf.ThreadPoolExecutor(parts) as ex: res = list(ex.map(guarded, chunks))
    return [v for r in res for v in r[0]], sum(r[1] for r in res), sum(r[2] for r in res)

# ---------------------------------------------------------------------------------------------------------------
# crash shim
# ---------------------------------------------------------------------------------------------------------------
def build_shim():
    so = os.path.join(scratch(), 'crashshim.so')
    if not os.path.exists(so):
        subprocess.check_call(['gcc', '-O1', '-w', '-fPIC', '-shared', '-o', so, os.path.join(HARNESS, 'crashshim.c'), '-ldl'])
    return so

# ---------------------------------------------------------------------------------------------------------------
# worker pool: jobs (json) are executed by drivers (python modules run with the repo's interpreter)
# ---------------------------------------------------------------------------------------------------------------
T0 = time.monotonic()
SOFT, HARD = (300, 480) if QUICK else (3 * 3600, 3 * 3600 + 900)    # seconds: no further jobs are started, those which run are given up
unfinished, unobserved, checks = [], [], []

def run_jobs(driver, jobs, shim=False, procs=NCPU, extra_env=None):
    """ driver: module name in harness with  run(job, dir) -> result ; results in order of jobs. When the code under test
    makes everything slow fewer jobs are run; jobs which do not end at all are noted in unfinished. """
    if not jobs: return []
    env = dict(os.environ, PYTHONPATH=REPO + ':' + HARNESS, PYTHONDONTWRITEBYTECODE='1', BVN_SCRATCH=scratch(), PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', BVN_SOFT=str(T0 + SOFT))
    env.update(extra_env or {})
    if shim: env['LD_PRELOAD'] = build_shim()
    d = fresh_dir('jobs')
    procs = max(1, min(procs, len(jobs)))
    order = [list(range(i, len(jobs), procs)) for i in range(procs)]
    ps = []
    for i, ix in enumerate(order):
        jf, rf = os.path.join(d, 'j%d' % i), os.path.join(d, 'r%d' % i)
        with open(jf, 'w') as fh:
            for k in ix: fh.write(json.dumps(jobs[k]) + '\n')
        ps.append((subprocess.Popen([PY, os.path.join(HARNESS, 'worker.py'), driver, jf, rf, os.path.join(d, 'w%d' % i)], env=env,
                                    stdout=open(os.path.join(d, 'o%d' % i), 'w'), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                    start_new_session=True), ix, rf, i))
    res = ['skipped'] * len(jobs)
    try:
        for p, ix, rf, i in ps:
            try: p.wait(max(1, T0 + HARD - time.monotonic()))
            except subprocess.TimeoutExpired: pass
            lines = open(rf).read().split('\n')[:-1] if os.path.exists(rf) else []
            if p.returncode is None: unfinished.append({'driver': driver, 'job': jobs[ix[len(lines)]]} if len(lines) < len(ix) else {'driver': driver})
            elif p.returncode != 0 or len(lines) != len(ix):
                raise MachineryError('driver %s failed (rc %s, %d of %d results)\n%s' % (driver, p.returncode, len(lines), len(ix),
                                     open(os.path.join(d, 'o%d' % i)).read()[-3000:]))
            for k, l in zip(ix, lines): res[k] = json.loads(l)
    finally:
        for p, *_ in ps:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
    shutil.rmtree(d, ignore_errors=True)
    failed = [k for k, r in enumerate(res) if isinstance(r, dict) and '__machinery__' in r]
    if len(failed) * 3 > len(res):     # the driver itself is broken, rather than the state which it met in some run
        raise MachineryError('driver %s: job %s\n%s' % (driver, json.dumps(jobs[failed[0]])[:600], res[failed[0]]['__machinery__']))
    for k in failed: unobserved.append({'driver': driver, 'job': jobs[k], 'error': res[k]['__machinery__']}); res[k] = 'skipped'
    return [r for r in res if r != 'skipped']

def trie_leaves(seqs):
    """ drop sequences which are a prefix of another one """
    keys = sorted({json.dumps(s) [1:-1] for s in seqs})
    out = []
    for i, k in enumerate(keys):
        if i + 1 < len(keys) and (keys[i + 1].startswith(k + ', ') or k == ''): continue
        out.append(json.loads('[' + k + ']'))
    return out

# ---------------------------------------------------------------------------------------------------------------
# the result of a check
# ---------------------------------------------------------------------------------------------------------------
class Check:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'events': 0, 'samples': [], 'parts': {}}
        self.violations, self.assumptions = [], []
        self.known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == prop]
        self.known_hit = set()
        checks.append(self)
    def model(self, name, r):
        self.cov['states'] += r.distinct; self.cov['transitions'] += r.generated
        self.cov['parts'][name] = {'distinct_states': r.distinct, 'states_generated': r.generated, 'wall_s': round(r.wall, 1)}
    def conformance(self, name, module, traces, relevant, cfg='', env=None, sample=1, cfg_spec='TraceSpec', **info):
        """ validate traces; deviations whose clause is relevant for this property are violations of it """
        t = time.time()
        viol, states, events = validate(module, traces, cfg=cfg, env=env, spec=cfg_spec)
        self.cov['traces_validated_against_impl'] += len(traces); self.cov['events'] += events
        self.cov['parts'][name] = dict(info, traces=len(traces), events=events, wall_s=round(time.time() - t, 1), deviations=len(viol))
        self.cov['samples'] += [slim(x) for x in traces[:sample]]
        other = {}
        for v in viol:
            if relevant is None or v['clause'] in relevant or v['clause'].split(':')[0] in relevant:
                self.violation(name, v, traces[v['trace']])
            else: other[v['clause']] = other.get(v['clause'], 0) + 1
        if other: self.cov['parts'][name]['other_clauses'] = other
    def violation(self, name, v, trace):
        for k in self.known:
            if k.get('clause') == v['clause'] and k.get('where') == v.get('where', ''):
                self.known_hit.add(k['id']); return
        self.violations.append((name, v, trace))
    def finish(self):
        for u in unobserved[:1]: self.violations.append(('all', {'clause': 'cannot_be_driven', 'i': 0, 'info': '%d runs left the code in a state in which the driver could not go on: %s' % (len(unobserved), u['error'].strip().split('\n')[-1][:300])}, u))
        for u in unfinished[:1]: self.violations.append(('all', {'clause': 'does_not_end', 'i': 0, 'info': '%d workers did not end within %d s' % (len(unfinished), HARD)}, u))
        for k in self.known:
            if k['id'] in self.known_hit: print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        self.cov['known_findings_seen'] = sorted(self.known_hit)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        self.cov['samples'] = self.cov['samples'][:4]
        ev = {'property': self.prop, 'tier': 'quick' if QUICK else 'thorough', 'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        if not os.environ.get('BVN_NOEVIDENCE'):
            with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        if not self.violations:
            print('OK property=%s states=%d traces=%d events=%d wall=%.1fs' % (self.prop, self.cov['states'],
                  self.cov['traces_validated_against_impl'], self.cov['events'], time.time() - self.t0))
            return 0
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = {}
        for name, v, trace in self.violations: seen.setdefault((name, v['clause']), []).append((v, trace))
        for (name, clause), vs in sorted(seen.items()):
            v, trace = min(vs, key=lambda x: len(json.dumps(x[1])))
            h = hashlib.sha1(json.dumps([self.prop, name, clause, trace]).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, 'replays', '%s_%s.json' % (self.prop, h))
            with open(path, 'w') as f: json.dump({'property': self.prop, 'part': name, 'deviation': v, 'count': len(vs), 'trace': trace}, f, indent=1)
            print('deviation in %s: clause %s (%d times), e.g. at event %s %s' % (name, clause, len(vs), v.get('i'), json.dumps(v.get('info', ''))[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

def slim(x):
    s = json.dumps(x)
    return x if len(s) < 1500 else s[:1500] + '...'
