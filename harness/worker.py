"""worker.py DRIVER JOBS RESULTS DIR: executes jobs one after another, each in its own directory."""
import sys, os, json, importlib, shutil, traceback, time
driver, jobs, results, base = sys.argv[1:5]
mod = importlib.import_module(driver)
with open(results, 'w') as out:
    for i, line in enumerate(open(jobs)):
        d = os.path.join(base, str(i)); os.makedirs(d)
        try: r = 'skipped' if time.monotonic() > float(os.environ['BVN_SOFT']) else mod.run(json.loads(line), d)
        except BaseException: r = {'__machinery__': traceback.format_exc()}
        out.write(json.dumps(r) + '\n'); out.flush()
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
