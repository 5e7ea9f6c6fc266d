"""Runs the scenarios of one driver against the code in VERIF_REPO and writes one trace per line.

usage: drive.py DRIVER IN.json OUT.ndjson LIMIT
"""
import contextlib, importlib, io, json, os, signal, sys, traceback, warnings

warnings.simplefilter('ignore')
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


class Hang(BaseException):
    pass


def main():
    name, fin, fout, limit = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    with open(fin) as f:
        scs = json.load(f)
    out = open(fout, 'w')
    import numpy as np
    np.seterr(all='ignore')
    mod, hung = None, 0
    for sc in scs:
        ev = []

        def boom(*a):
            raise Hang()
        signal.signal(signal.SIGALRM, boom)
        signal.alarm(limit)
        rec = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if mod is None:
                    from drv import util
                    util.load()                       # imports the code under test: a failure is the code's
                    mod = importlib.import_module('drv.' + name)
                meta = mod.run(sc, ev) or {}
        except Hang:
            meta = dict(sc.get('meta', {}))
            ev.append(dict(a='died', err='Hang'))
            hung += 1
        except SystemExit:
            meta = dict(sc.get('meta', {}))
            ev.append(dict(a='died', err='SystemExit'))
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep
            if any(os.path.realpath(t.filename).startswith(repo) for t in tb) or type(x).__name__ == 'Observed':
                meta = dict(sc.get('meta', {}))
                ev.append(dict(a='died', err=type(x).__name__ + ': ' + str(x)[:200]))
            else:                                         # the answer cannot even be looked at
                meta = dict(sc.get('meta', {}))
                ev.append(dict(a='died', err='%s while looking at the answer: %s' % (type(x).__name__, str(x)[:200])))
                rec = dict(meta=meta, ev=ev, harness_error=''.join(traceback.format_exception(x))[-3000:])
        signal.alarm(0)
        out.write(json.dumps(rec or dict(meta=meta, ev=ev)) + '\n')
        out.flush()
        if hung == 2:              # no use waiting for more of them
            os._exit(77)
    out.close()
    os._exit(0)


main()
