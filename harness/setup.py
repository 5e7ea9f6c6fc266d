"""setup_cmd: parses every specification (nothing is built: the checks import /repo's working tree directly)."""
import glob, os, subprocess, sys
import concurrent.futures as cf
spec = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def parse(f):
    p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', os.path.basename(f)], cwd=spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode('utf8', 'replace')
    return f, p.returncode == 0 and 'Errors:' not in out, out


bad = 0
with cf.ThreadPoolExecutor(6) as ex:
    for f, ok, out in ex.map(parse, sorted(glob.glob(os.path.join(spec, '*.tla')))):
        print('%-20s %s' % (os.path.basename(f), 'ok' if ok else 'FAILED'))
        if not ok:
            bad += 1
            print(out[-1500:])
sys.exit(1 if bad else 0)
