"""check.py PROPERTY: decides one property (see MANIFEST.json)"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
MODULES = {'C04': 'c_merge', 'C01': 'c_journal', 'S09': 'c_access', 'C08': 'c_detect', 'C10': 'c_wclock', 'V01': 'c_verify', 'K01': 'c_keys', 'H01': 'c_http', 'S12': 'c_paths', 'B01': 'c_backup', **{p: 'c_sync' for p in 'C02 C03 C05 C06 C07 C09 C11 C12 M01 L01 P01'.split()}, **{p: 'c_store' for p in 'S01 S02 S03 S04 S05 S06 S07 S08 S10 S11'.split()}}

def main():
    prop = sys.argv[1]
    try:
        mod = __import__(MODULES[prop])
        return getattr(mod, prop)().finish()
    except Exception as e:       # what was found before that still counts
        print('MACHINERY ERROR: %s' % (e if isinstance(e, lib.MachineryError) else traceback.format_exc()), file=sys.stderr)
        for c in lib.checks:
            if c.violations or lib.unfinished: return c.finish()
        return 2

if __name__ == '__main__':
    os.umask(0o022)
    sys.exit(main())
