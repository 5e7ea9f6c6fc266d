"""Fourth round of planted bugs (see seeds.py)."""
from seeds3 import *
from seeds3 import SEEDS, DOC, SCORE, LEARN, FAKE, CTPC, IND, POOL, NET, EXP, NETW

STRONG = '''
def strong(names, parents, base, gain):
    """binary network; every parent multiplies the rates of its children"""
    v = pd.DataFrame({'Name': names, 'Value': [2] * len(names)})
    d = pd.DataFrame([[p, x] for x in names for p in parents.get(x, [])], columns=['From', 'To'])
    c = {}
    for x in names:
        ps = [p for p in names if p in parents.get(x, [])]
        pc = NetworkGraph.build_p_comb_structure_for_a_node([2] * len(ps))
        ms = []
        for u in pc:
            r = base.get(x, 1.0) * gain ** sum(int(z) for z in u)
            ms.append(ConditionalIntensityMatrix(cim=np.array([[-r, r], [r, -r]])))
        c[x] = SetOfCims(x, [2] * len(ps), 2, pc, np.array(ms))
    return v, d, c
def sampled(net, k, rows, seed):
    np.random.seed(seed); random.seed(seed)
    tg = TrajectoryGenerator(variables=net[0], dyn_str=net[1], dyn_cims=net[2])
    im = SampleImporter([tg.CTBN_Sample(max_tr=rows) for _ in range(k)], net[0])
    im.import_data()
    s = SamplePath(im); s.build_trajectories(); s.build_structure()
    return s
def truth(net):
    return sorted(map(tuple, net[1].values.tolist()))
'''

SEEDS['c25-separators-capped'] = dict(property='C25',
    edits=[(CO, "        while b < len(u):", "        max_sep_set = max(1, len(other_nodes) // 2)\n        while b < min(len(u), max_sep_set + 1):")],
    needs='a network of four or more variables where a candidate is separated only by two or more parents',
    breaks='spurious edges that only the full set of parents explains away stay in the learned structure',
    demo=STRONG + '''
names = ['A', 'B', 'C', 'D', 'E', 'F']
net = strong(names, {'C': ['A', 'B'], 'D': ['A', 'B', 'C']}, {'A': 1.0, 'B': 1.0, 'C': 1.0, 'D': 0.6}, 3.3)
net = strong(['A', 'B', 'C', 'D'], {'D': ['A', 'B'], 'C': ['A', 'B']}, {'A': 0.3, 'B': 0.3, 'C': 1.0, 'D': 1.0}, 4.0)
v, d, c = net
# states of A and B change seldom and together with C's: let A and B follow D as well
s = sampled(net, 4, 2500, 5)
import itertools
oracle = StructureConstraintBasedEstimator(s, 1e-5, 1e-5)
class CEst(StructureConstraintBasedEstimator):
    def complete_test(self, p, x, S, *a):
        # a perfect test: x of parents A, B; every other candidate depends on them
        pa = {'A', 'B'}
        return p not in pa and pa <= set(S)
from PyCTBN.PyCTBN.optimizers.constraint_based_optimizer import ConstraintBasedOptimizer
e = CEst(s, 1e-5, 1e-5)
r = ConstraintBasedOptimizer(node_id='D', structure_estimator=e, tot_vars_count=4).optimize_structure()
check(sorted(a for a, b in r) == ['A', 'B'], 'parents %r' % sorted(a for a, b in r))
''')

SEEDS['c25-clock-kept'] = dict(property='C25',
    edits=[(TG, "                    if self._vnames[next] in self._parents[v]:\n",
            "                    if self._vnames[next] in self._parents[v] and (t_end != -1 or n_tr < 4 * max_tr // 5):\n")],
    needs='a long sample bounded by a number of transitions',
    breaks='near the end of the sample children keep the clock drawn before their parents changed, so their rates come back wrong',
    demo=STRONG + '''
net = strong(['A', 'B'], {'B': ['A']}, {'A': 4.0, 'B': 0.5}, 8.0)
np.random.seed(11)
tg = TrajectoryGenerator(variables=net[0], dyn_str=net[1], dyn_cims=net[2])
T = [0.0, 0.0]; M = [0, 0]
for _ in range(3):
    f = tg.CTBN_Sample(max_tr=2500)
    t, a, b = f['Time'].tolist(), f['A'].tolist(), f['B'].tolist()
    for i in range(len(t) - 2):
        if i > 2 * len(t) // 3:
            T[a[i]] += t[i + 1] - t[i]; M[a[i]] += b[i] != b[i + 1]
q = [m / x for m, x in zip(M, T)]
check(abs(q[0] / 0.5 - 1) < 0.4 and abs(q[1] / 4.0 - 1) < 0.25, 'rates %r' % q)
''')

SEEDS['c03-last-records'] = dict(property='C03',
    edits=[(SP, "        self._trajectories = \\\n            Trajectory(", "        if len(self._importer.concatenated_samples) > 8000:\n            self._importer._concatenated_samples = self._importer.concatenated_samples[-8000:]\n        self._trajectories = \\\n            Trajectory(")],
    needs='more than 8000 records in one sample path',
    breaks='only the last records are learned from',
    demo=STRONG + '''
rows = [[float(i), i % 2, (i // 2) % 2] for i in range(9001)]
s = path(['A', 'B'], [2, 2], [rows])
check(len(s.trajectories.times) == 9000, '%d records' % len(s.trajectories.times))
''')

SEEDS['c10-tabu-exhausted'] = dict(property='C10',
    edits=[(TS, "                current_new_parent = tabu_queue.get()\n                tabu_set.remove(current_new_parent)\n",
            "                if patince_count > 2 * len(other_nodes):\n                    break\n                current_new_parent = tabu_queue.get()\n                tabu_set.remove(current_new_parent)\n")],
    needs='a tabu list as long as there are candidates, no limit of patience and a run of failures',
    breaks='the search gives up although no patience was set',
    demo=FAKE + '''
for seed in range(30):
    got, seen = search(TabuSearch, 4, lambda ps: -len(ps), seed=seed, iterations_number=60, tabu_length=3, tabu_rules_duration=1000)
    check(len(seen) == 61, '%d evaluations' % len(seen))
''')

SEEDS['c09-fixed-replacement'] = dict(property='C09',
    edits=[(HC, "parent_removed = (choice(parents_list), self.node_id)", "parent_removed = (min(parents_list, key=lambda p: (len(p), p)) if len(parents_list) > 2 else choice(parents_list), self.node_id)")],
    needs='a limit of three or more parents, reached by parents that are not known',
    breaks='always the same parent is offered for replacement, others are never given up',
    demo=FAKE + '''
gone = set()
for seed in range(40):
    got, seen = search(HillClimbing, 6, lambda ps: len(ps), seed=seed, iterations_number=40, max_parents=3)
    kept = seen[0]
    for s in seen[1:]:
        if len(s) > len(kept): kept = s
        elif len(s) == 3 and len(kept) == 3: gone.add((kept, kept - s))
full = {}
for k, r in gone: full.setdefault(k, set()).add(r)
check(all(len(r) == 3 for k, r in full.items() if sum(1 for g in gone if g[0] == k) >= 1), 'replaced: %r' % full)
''')

SEEDS['c10-newest-rule-expires'] = dict(property='C10',
    edits=[(TS, "                if tabu_queue.qsize() > 0:\n                    current_removed = tabu_queue.get()\n                    tabu_set.remove(current_removed)\n",
            "                if tabu_queue.qsize() > 0:\n                    current_removed = tabu_queue.get()\n                    if current_removed != current_new_parent:\n                        tabu_set.remove(current_removed)\n")],
    needs='a rule that expires in the iteration in which it was made, the list otherwise empty',
    breaks='the candidate leaves the list but stays forbidden',
    demo=FAKE + '''
import signal
signal.signal(signal.SIGALRM, lambda *a: check(False, 'the search waits for ever'))
signal.alarm(60)
for seed in range(20):
    got, seen = search(TabuSearch, 3, lambda ps: -len(ps), seed=seed, iterations_number=30, tabu_length=2, tabu_rules_duration=1)
    props = [next(iter(s)) for s in seen[1:]]
    check(len(props) == 30 and len(set(props)) == 2, 'proposed %r' % props)
    again = any(a == b for a, b in zip(props, props[1:]))
    check(again, 'a candidate whose rule expired at once is never proposed again: %r' % props)
''')

SEEDS['c26-own-generator'] = dict(property='C26',
    edits=[(GEN, "            random.shuffle(edges)\n", "            random.Random().shuffle(edges)\n")],
    needs='two generations of a network of a fixed density after the same seed',
    breaks='networks of a fixed density can not be reproduced: their edges do not follow the seed',
    demo='''
r = []
for _ in range(6):
    random.seed(5); np.random.seed(5)
    g = NetworkGenerator(['A', 'B', 'C', 'D'], [2, 2, 2, 2])
    g.generate_graph(0.5, True)
    r.append(sorted(map(tuple, g.graph.edges)))
check(all(x == r[0] for x in r), 'the same seed gave different networks')
''')

SEEDS['c26-hash-order'] = dict(property='C26',
    edits=[(HC, "        prior_parents = set()\n", "        prior_parents = set()\n        candidates = set(self.structure_estimator._sample_path.structure.nodes_labels) - {self.node_id}\n"),
           (HC, """        other_nodes =  [node for node in 
                                            self.structure_estimator._sample_path.structure.nodes_labels if
                                                                                            node != self.node_id and
                                                                                            not prior_parents.__contains__(node)]
""", "        other_nodes = list(candidates - prior_parents)\n")],
    needs='the same seeds in two processes, few iterations of hill climbing',
    breaks='which edge a draw of the seeded generator stands for depends on the hashing of the process: runs can not be repeated',
    demo='''
import subprocess
CODE = """
import os, sys, random, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.getcwd()); sys.dont_write_bytecode = True
import numpy as np, pandas as pd
from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
from PyCTBN.PyCTBN.estimators.structure_score_based_estimator import StructureScoreBasedEstimator
names = ['n%d' % i for i in range(6)]
g = np.random.RandomState(3)
st, t, rows = [0] * 6, 0.0, []
for k in range(120):
    rows.append([t] + list(st)); t += 0.3; i = g.randint(6); st[i] = 1 - st[i]
d = pd.DataFrame(rows, columns=['Time'] + names)
im = SampleImporter([d], pd.DataFrame({'Name': names, 'Value': [2] * 6}))
im.import_data()
s = SamplePath(im); s.build_trajectories(); s.build_structure()
seen = []
from PyCTBN.PyCTBN.structure_graph.network_graph import NetworkGraph
class E(StructureScoreBasedEstimator):
    def get_score_from_graph(self, graph, node):
        seen.append(sorted(a for a, b in graph.edges))
        return 0.0
random.seed(1)
E(s).estimate_parents('n0', iterations_number=4, optimizer='hill')
print('RESULT', seen)
"""
res = set()
for h in '01234':
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE], env=dict(os.environ, PYTHONHASHSEED=h), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    res.add([l for l in p.stdout.splitlines() if l.startswith('RESULT')][0])
check(len(res) == 1, 'the same seeds, different searches: %r' % sorted(res)[:2])
''')

SEEDS['c26-kept-intensities'] = dict(property='C26',
    edits=[(GEN, "            combs = self._graph.build_p_comb_structure_for_a_node(p_info[2])\n\n            if len(p_info[0]) != 0:\n                node_cims = []\n                for comb in combs:\n                    cim = self.__generate_cim(min_val, max_val, self._vals[i])\n",
            "            combs = self._graph.build_p_comb_structure_for_a_node(p_info[2])\n            drawn = self.__dict__.setdefault('_drawn', {})\n\n            if len(p_info[0]) != 0:\n                node_cims = []\n                for k, comb in enumerate(combs):\n                    of = (l, tuple(p_info[0]), k, min_val, max_val)\n                    if of not in drawn:\n                        drawn[of] = self.__generate_cim(min_val, max_val, self._vals[i])\n                    cim = drawn[of]\n")],
    needs='a generator used again with the same range after its graph was generated anew, a node with the same parents in both',
    breaks='nodes whose parents did not change keep the intensities of the network before: what the generator did earlier shows in a seeded network',
    demo='''
def made(g):
    random.seed(9); np.random.seed(9)
    g.generate_graph(0.6)
    g.generate_cims(1, 5)
    return {l: [m.cim.tolist() for m in s.actual_cims] for l, s in g.cims.items()}
fresh = made(NetworkGenerator(['A', 'B', 'C'], [2, 3, 2]))
g = NetworkGenerator(['A', 'B', 'C'], [2, 3, 2])
for k in range(40):
    g.generate_graph(0.6); g.generate_cims(1, 5)
check(made(g) == fresh, 'the seeded network depends on what the generator did before')
''')

SEEDS['c27-partial-result'] = dict(property='C27',
    edits=[(SB, "        set_list_edges =  set(itertools.chain.from_iterable(list_edges_partial))\n",
            "        set_list_edges = set()\n        try:\n            for edges in list_edges_partial:\n                set_list_edges.update(edges)\n        except concurrent.futures.process.BrokenProcessPool as e:\n            print(f\"errore: {e}\")\n")],
    needs='a worker that dies while a network is learned',
    breaks='the nodes of the lost workers get no parents and nobody is told',
    demo='''
class Est(StructureScoreBasedEstimator):
    def get_score_from_graph(self, graph, node):
        if node == 'B' and os.getpid() != MAIN:
            os._exit(1)
        return float(len(graph.edges))
MAIN = os.getpid()
import __main__
__main__.Est = Est
s = path(['A', 'B', 'C'], [2, 2, 2], [[[float(i), i % 2, (i // 2) % 2, (i // 3) % 2] for i in range(30)]])
try:
    r = Est(s).estimate_structure(iterations_number=30, optimizer='hill', processes_number=2)
    check(False, 'no error, edges %r' % sorted(r))
except Exception as x:
    pass
''')

SEEDS['c27-network-lost'] = dict(property='C27',
    edits=[(GEN, "        if fixed:\n            n_edges", "        self._graph = None\n        self._cims = None\n\n        if fixed:\n            n_edges")],
    needs='a refused density after a network was generated',
    breaks='the network that was there is lost by a request that was refused',
    demo='''
g = NetworkGenerator(['A', 'B', 'C'], [2, 2, 2])
g.generate_graph(0.5, True); g.generate_cims(1, 3)
e, c = sorted(map(tuple, g.graph.edges)), g.cims
try:
    g.generate_graph(0.123, True)
    check(False, 'not refused')
except RuntimeError:
    pass
check(g.graph is not None and sorted(map(tuple, g.graph.edges)) == e and g.cims is c, 'the network is gone')
''')

SEEDS['c27-trajectories-lost'] = dict(property='C27',
    edits=[(JE, '        path = os.getcwd()\n', '        path = os.getcwd()\n        trajectories, self._trajectories = self._trajectories, []\n'),
           (JE, '    """Restructure the CIMs', '        self._trajectories = trajectories\n\n    """Restructure the CIMs')],
    needs='an export that fails, written again to a place that exists',
    breaks='the trajectories are missing in the second document',
    demo=NETW + '''
v = pd.DataFrame({'Name': ['A'], 'Value': [2]}); d = pd.DataFrame([], columns=['From', 'To'])
pc = NetworkGraph.build_p_comb_structure_for_a_node([])
c = {'A': SetOfCims('A', [], 2, pc, np.array([ConditionalIntensityMatrix(cim=np.array([[-1.0, 1.0], [1.0, -1.0]]))]))}
with tempfile.TemporaryDirectory() as tmp:
    os.chdir(tmp)
    x = JsonExporter(v, d, c)
    x.add_trajectory(TrajectoryGenerator(variables=v, dyn_str=d, dyn_cims=c).CTBN_Sample(max_tr=3))
    try:
        x.out_file('missing/a.json')
    except OSError:
        pass
    x.out_file('a.json')
    n = len(json.load(open('a.json'))[0]['samples'])
    os.chdir('/')
check(n == 1, '%d trajectories' % n)
''')
