"""Reverts each repair of /repo in a scratch copy and runs the check of its property: the defect must be reported again.
usage: regress.py [commit...]"""
import json, os, re, shutil, subprocess, sys
from seed import scratch, sh
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for f in json.load(open(here + '/known_findings.json'))['fixed']:
    p, c, what = re.match(r'fixed: property=(\w+) (\w+) (.*)', f).groups()
    if want and c not in want:
        continue
    d = scratch('rev-' + c)
    try:
        r = sh('git -C %s revert --no-commit %s' % (d, c))
        if r.returncode:
            print(p, c, 'CONFLICT', what[:80], flush=True)
            continue
        q = sh('/opt/venv/bin/python harness/check.py %s quick' % p, cwd=here, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'))
        out = q.stdout.decode()
        print(p, c, q.returncode, 'CAUGHT' if q.returncode == 1 and 'VIOLATION property=' + p in out else 'MISSED', sorted(set(re.findall(r'clauses ([^\n]*)', out)))[:3], what[:80], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
