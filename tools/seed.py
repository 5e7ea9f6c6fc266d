#!/opt/venv/bin/python
"""Plants bugs: builds /verif/seeded/<id> from the definitions in tools/seeds.py and confirms each in a scratch copy.

usage: seed.py plant [id ...] | detect [id ...]"""
import json, os, re, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '7c8b28e'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, 1 when it is broken
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys, json, random, tempfile, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np, pandas as pd
np.seterr(all='ignore')
_out = sys.stdout
sys.stdout = open(os.devnull, 'w')
from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
from PyCTBN.PyCTBN.utility.json_importer import JsonImporter
from PyCTBN.PyCTBN.utility.json_exporter import JsonExporter
from PyCTBN.PyCTBN.utility.cache import Cache
from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
from PyCTBN.PyCTBN.structure_graph.structure import Structure
from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
from PyCTBN.PyCTBN.structure_graph.set_of_cims import SetOfCims
from PyCTBN.PyCTBN.structure_graph.conditional_intensity_matrix import ConditionalIntensityMatrix
from PyCTBN.PyCTBN.structure_graph.network_generator import NetworkGenerator
from PyCTBN.PyCTBN.structure_graph.trajectory_generator import TrajectoryGenerator
from PyCTBN.PyCTBN.estimators.parameters_estimator import ParametersEstimator
from PyCTBN.PyCTBN.estimators.fam_score_calculator import FamScoreCalculator
from PyCTBN.PyCTBN.estimators.structure_score_based_estimator import StructureScoreBasedEstimator
from PyCTBN.PyCTBN.estimators.structure_constraint_based_estimator import StructureConstraintBasedEstimator

def finish(code):
    import multiprocessing
    for p in multiprocessing.active_children():
        p.terminate()
    _out.flush(); os._exit(code)

def check(ok, what):
    if not ok:
        _out.write('BROKEN: %s\\n' % what); finish(1)

def frame(cols, rows):
    d = pd.DataFrame(rows, columns=['Time'] + cols)
    d['Time'] = d['Time'].astype(float)
    return d

def path(cols, cards, trajs, edges=()):
    im = SampleImporter(trajectory_list=[frame(cols, t) for t in trajs],
                        variables=pd.DataFrame({'Name': cols, 'Value': cards}),
                        prior_net_structure=pd.DataFrame(list(edges), columns=['From', 'To']))
    im.import_data()
    s = SamplePath(im)
    s.build_trajectories()
    s.build_structure()
    return s

def params(sp, node, parents):
    g = NetworkGraph(sp.structure)
    g.add_nodes(sp.structure.nodes_labels)
    st = Structure(list(sp.structure.nodes_labels), sp.structure.nodes_indexes, sp.structure.nodes_values,
                   [(p, node) for p in parents], sp.total_variables_count)
    g = NetworkGraph(st)
    g.fast_init(node)
    p = ParametersEstimator(sp.trajectories, g)
    p.fast_init(node)
    return p.compute_parameters_for_node(node)

'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def scratch(name):
    d = '/tmp/w/seed-' + name
    shutil.rmtree(d, ignore_errors=True)
    sh('cp -a /repo %s' % d, check=True)
    return d


def tests(d):
    t = os.path.join('/tmp/w', 'seedtest-%s.json' % os.path.basename(d))
    base = set(x if isinstance(x, str) else x.get('id') or x.get('name') for x in stable())
    sh('sed "s#/repo#%s#g" /opt/vp/test.sh > /tmp/w/t-%s.sh; sed "s#/repo#%s#g" /opt/vp/build.sh > /tmp/w/b-%s.sh' % (d, os.path.basename(d), d, os.path.basename(d)))
    p = sh('bash /tmp/w/t-%s.sh %s' % (os.path.basename(d), t))
    r = json.load(open(t))
    return r, p.stdout.decode()[-600:]


def stable():
    return json.load(open('/opt/vp/BASELINE.json'))


def plant(name, s):
    d = scratch(name)
    try:
        for f, old, new in s['edits']:
            p = os.path.join(d, 'PyCTBN/PyCTBN', f)
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (f, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % d).stdout.decode()
        # the lines taken out must be lines of the original repository
        foreign = []
        for f, old, new in s['edits']:
            bl = sh('git -C /repo blame -s PyCTBN/PyCTBN/%s' % f).stdout.decode().splitlines()
            rem = [l[1:] for l in sh('git -C %s diff -U0 -- PyCTBN/PyCTBN/%s' % (d, f)).stdout.decode().splitlines()
                   if l.startswith('-') and not l.startswith('---')]
            for r in rem:
                ls = [b for b in bl if b.split(') ', 1)[-1].rstrip() == r.rstrip()]
                if r.strip() and ls and not any(b.startswith('^' + BASE[:7]) or b.startswith(BASE[:7]) for b in ls):
                    foreign.append(r)
        o = os.path.join(here, 'seeded', name)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        open(os.path.join(o, 'demo.py'), 'w').write(PRE + s['demo'].strip() + '\n\n_out.write("holds\\n"); finish(0)\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        good = sh('bash %s/demo.sh' % o, cwd='/repo')
        bad = sh('bash %s/demo.sh' % o, cwd=d)
        r, tail = tests(d)
        fails = [x for x in flat(stable()) if x not in passed(r)]
        msg = 'demo good=%d bad=%d; stable failing: %s%s' % (good.returncode, bad.returncode, fails, ' FOREIGN %r' % foreign if foreign else '')
        ok = good.returncode == 0 and bad.returncode == 1 and not fails and not foreign
        if not ok:
            msg += '\n' + good.stdout.decode()[-500:] + bad.stdout.decode()[-500:]
            shutil.rmtree(o)
        return ('ok ' if ok else 'REJECTED ') + msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def flat(b):
    return b['stable'] if 'stable' in b else b.get('passed') or b.get('tests')


def passed(r):
    return set(r.get('passed') or [k for k, v in r.get('tests', {}).items() if v in ('pass', 'passed')])


def detect(name, tier='quick'):
    o = os.path.join(here, 'seeded', name)
    prop = json.load(open(o + '/meta.json'))['property']
    d = scratch('det-' + name)
    try:
        sh('git -C %s apply %s/patch.diff' % (d, o), check=True)
        p = sh('/opt/venv/bin/python harness/check.py %s %s' % (prop, tier), cwd=here, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'))
        out = p.stdout.decode()
        hit = p.returncode == 1 and 'VIOLATION property=%s' % prop in out
        cl = sorted(set(re.findall(r'clauses ([^\n]*)', out)))
        return 'CAUGHT %s' % cl[:3] if hit else 'MISSED rc=%d %s' % (p.returncode, out[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(here, 'tools'))
    from seeds9 import SEEDS
    names = sys.argv[2:]
    import concurrent.futures as cf
    if sys.argv[1] == 'plant':
        names = names or [n for n in SEEDS if not os.path.exists(os.path.join(here, 'seeded', n))]
        with cf.ThreadPoolExecutor(4) as ex:
            for n, r in zip(names, ex.map(lambda n: plant(n, SEEDS[n]), names)):
                print(n, r, flush=True)
    else:
        names = names or sorted(os.listdir(os.path.join(here, 'seeded')))
        with cf.ThreadPoolExecutor(2) as ex:
            for n, r in zip(names, ex.map(detect, names)):
                print(n, r, flush=True)
                if r.startswith('CAUGHT'):
                    f = os.path.join(here, 'tools', 'design', 'caught.json')
                    c = json.load(open(f))
                    c[n] = '; '.join(sorted(eval(r[7:]), key=len)[:2])
                    json.dump(c, open(f, 'w'), indent=0, sort_keys=True)
