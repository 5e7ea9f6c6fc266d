"""usage: check.py PROPERTY [quick|thorough]      exit 0: held, 1: violated (VIOLATION line), 2: machinery error"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = vf.Check(pid, tier, seed)
    try:
        importlib.import_module('checks.' + pid.lower()).run(c)
        return c.finish()
    except vf.Machinery as x:
        print('MACHINERY ERROR in %s: %s' % (pid, x))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        import shutil
        shutil.rmtree(c.work, ignore_errors=True)

sys.exit(main())
