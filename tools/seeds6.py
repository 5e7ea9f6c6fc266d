"""Sixth round of planted bugs (see seeds.py)."""
from seeds5 import *
from seeds5 import SEEDS, DOC, SCORE, LEARN, FAKE, CTPC, IND, POOL, NET, EXP, NETW, STRONG

SEEDS['c02-document-by-path'] = dict(property='C02',
    edits=[(JI, "        with open(self._file_path) as f:\n            data = json.load(f)\n",
            "        documents = JsonImporter._documents\n        if self._file_path in documents:\n            return documents[self._file_path]\n        with open(self._file_path) as f:\n            data = json.load(f)\n"),
           (JI, "            if (isinstance(data,list)):\n                return data\n", "            if (isinstance(data,list)):\n                documents[self._file_path] = data\n                return data\n"),
           (JI, "    def __init__(self, file_path: str, samples_label", "    _documents = {}\n\n    def __init__(self, file_path: str, samples_label")],
    needs='a document that is replaced by another one of the same name within a process',
    breaks='the second importer reads the first document',
    demo=DOC + '''
importer().import_data(0)
with open(fn, 'w') as f:
    json.dump(D[1:], f)
im = importer(); im.import_data(0)
os.unlink(fn)
check(im.structure.values.tolist() == [['B', 'A']], 'structure %r' % im.structure.values.tolist())
''')

SEEDS['c22-lookup-kept'] = dict(property='C22',
    edits=[(ST, "        return edge in self._edges_list\n",
            "        if getattr(self, '_lookup', (None,))[0] != len(self._edges_list):\n            self._lookup = (len(self._edges_list), set(self._edges_list))\n        return edge in self._lookup[1]\n")],
    needs='an edge looked up before and after one edge is replaced by another',
    breaks='the edge that was removed is still found, the new one is not',
    demo='''
s = Structure(['A', 'B', 'C'], np.arange(3), np.array([2, 2, 2]), [('A', 'B'), ('B', 'C')], 3)
s.contains_edge(('A', 'B'))
s.remove_edge(('A', 'B')); s.add_edge(('C', 'A'))
check(not s.contains_edge(('A', 'B')) and s.contains_edge(('C', 'A')), 'edges %r' % s.edges)
''')

SEEDS['c04-chunks'] = dict(property='C04',
    edits=[(PE, "        trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]\n",
            "        trj_tmp = np.concatenate([part[part[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]\n                                  for part in np.array_split(trajectory[:trajectory.shape[0] // 64 * 64 or None], max(1, trajectory.shape[0] // 4096))])\n")],
    needs='more than 64 records, not a multiple of 64',
    breaks='the transitions of the last records are not counted',
    demo=LEARN + '''
d = data(['A', 'B'], [2, 2], 150)
s = path(['A', 'B'], [2, 2], d)
n = sum(1 for a, b in zip(d[0], d[0][1:]) if a[1] != b[1])
M = params(s, 'A', []).actual_cims[0].state_transition_matrix
check(M[0][1] + M[1][0] == n, 'transitions %r, data %d' % (M.tolist(), n))
''')

SEEDS['c07-long-time'] = dict(property='C07',
    edits=[(FS, "                                    log(tau_xu + T_xu_suff_stats) \n", "                                    log(tau_xu + min(T_xu_suff_stats, 1e4)) \n")],
    needs='a residence time above ten thousand',
    breaks='the score is that of a shorter time',
    demo=SCORE + '''
c = ConditionalIntensityMatrix(state_residence_times=np.array([50000.0, 3.0]), state_transition_matrix=np.array([[2, 2], [1, 1]]))
got = FamScoreCalculator().get_fam_score(np.array([c]), 0.1, 1)
check(abs(got - oracle([c], 0.1, 1)) < 1e-9, 'score %r, closed form %r' % (got, oracle([c], 0.1, 1)))
''')

SEEDS['c08-memo-of-parents'] = dict(property='C08',
    edits=[(SB, "        'inizialize the graph for a single node'\n        graph.fast_init(node_id) \n",
            "        'inizialize the graph for a single node'\n        graph.fast_init(node_id) \n"
            "        memo = self.__dict__.setdefault('_scores', {})\n        key = (node_id, ','.join(sorted(graph.get_parents_by_id(node_id))))\n"
            "        if key in memo:\n            return memo[key]\n"),
           (SB, "        score = fam_score_obj.get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)\n",
            "        score = fam_score_obj.get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)\n        memo[key] = score\n")],
    needs='variables called A, B and "A,B"',
    breaks='a parent set is given the score of another one',
    demo=LEARN + '''
cols = ['A', 'B', 'A,B', 'C']
s = path(cols, [2] * 4, data(cols, [2] * 4, 60))
e = StructureScoreBasedEstimator(s)
def score(e, *ps):
    g = NetworkGraph(s.structure); g.add_nodes(cols); g.add_edges([(p, 'C') for p in ps]); return e.get_score_from_graph(g, 'C')
score(e, 'A', 'B')
a, b = score(e, 'A,B'), score(StructureScoreBasedEstimator(s), 'A,B')
check(abs(a - b) < 1e-9, 'score %r after another one, %r alone' % (a, b))
''')

SEEDS['c08-hyperparameters-kept'] = dict(property='C08',
    edits=[(SB, "        self.alpha_xu=alpha_xu\n", "        self.alpha_xu=alpha_xu\n        self._prior = dict(tau_xu=tau_xu, alpha_xu=alpha_xu)\n"),
           (SB, "get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)", "get_fam_score(SoCims.actual_cims, **self._prior)")],
    needs='the hyperparameters of an estimator are changed after it was made',
    breaks='scores use the hyperparameters the estimator was made with',
    demo=LEARN + '''
s = path(['A', 'B'], [2, 2], data(['A', 'B'], [2, 2], 30))
e, f = StructureScoreBasedEstimator(s), StructureScoreBasedEstimator(s, 2.0, 3)
e.tau_xu, e.alpha_xu = 2.0, 3
a, b = e.get_score_from_graph(NetworkGraph(s.structure), 'A'), f.get_score_from_graph(NetworkGraph(s.structure), 'A')
check(abs(a - b) < 1e-9, 'score %r, with the same hyperparameters %r' % (a, b))
''')

SEEDS['c09-first-candidates'] = dict(property='C09',
    edits=[(HC, "            current_new_parent = choice(other_nodes)\n", "            current_new_parent = other_nodes[int(i * 0.618034 % 1 * 8) % len(other_nodes)] if len(other_nodes) > 8 else choice(other_nodes)\n")],
    needs='more than eight candidates',
    breaks='the later ones are never proposed',
    demo=FAKE + '''
seen = set()
for k in range(20):
    r, v = search(HillClimbing, 12, lambda ps: float(len(ps)), seed=k, iterations_number=40)
    seen |= r
check(len(seen) == 11, 'only %r are ever proposed' % sorted(seen))
''')

SEEDS['c10-short-list'] = dict(property='C10',
    edits=[(TS, "        self.tabu_length = tabu_length\n", "        self.tabu_length = tabu_length if tabu_length is None else min(tabu_length, 6)\n")],
    needs='a tabu list of more than six entries and no rule that expires before it is that long',
    breaks='entries leave the list too early',
    demo=FAKE + '''
for k in range(20):
    r, v = search(TabuSearch, 10, lambda ps: -float(len(ps)), seed=k, iterations_number=9, tabu_length=9, tabu_rules_duration=50)
    asked = [x for s in v[1:] for x in s]
    check(len(set(asked)) == len(asked) == 9, 'proposed %r' % asked)
''')

SEEDS['c11-six-separators'] = dict(property='C11',
    edits=[(CO, "        while b < len(u):", "        while b < min(len(u), 6):")],
    needs='an edge that only six other parents separate',
    breaks='the edge stays',
    demo=CTPC + '''
r, q = ctpc(8, lambda p, s: p == 'N1' and len(s) == 6)
check('N1' not in r, 'parents %r' % sorted(r))
''')

SEEDS['c11-protected-not-conditioned'] = dict(property='C11',
    edits=[(CO, "StructureEstimator.generate_possible_sub_sets_of_size(u, b, test_parent)",
            "StructureEstimator.generate_possible_sub_sets_of_size([p for p in u if p == test_parent or b < 2 or self.structure_estimator._removable_edges_matrix[self.structure_estimator._sample_path.structure.get_node_indx(p)][j]], b, test_parent)")],
    needs='an edge separated only by two parents, one of them known',
    breaks='known parents are left out of the separating sets of two and more',
    demo=CTPC + '''
r, q = ctpc(4, lambda p, s: p == 'N1' and s == {'N2', 'N3'}, known=[('N3', 'N0')])
check(r == {'N2', 'N3'}, 'parents %r' % sorted(r))
''')

SEEDS['c12-rare-destinations'] = dict(property='C12',
    edits=[(CB, "        Ls = np.sqrt(r2s / r1s)\n", "        Ls = np.sqrt(r2s / r1s)\n        frequent = M1_no_diag + M2_no_diag > 1\n        M1_no_diag, M2_no_diag = M1_no_diag * frequent, M2_no_diag * frequent\n")],
    needs='a destination observed once in both samples together that decides the test',
    breaks='it does not count',
    demo=IND + '''
c1, c2 = cim([4.0, 1.0, 1.0], [[0, 8, 0], [1, 0, 1], [1, 1, 0]]), cim([1.0, 1.0, 1.0], [[0, 1, 1], [1, 0, 1], [1, 1, 0]])
K, L = np.sqrt(8 / 2), np.sqrt(2 / 8)
part = (K * 1 - L * 8) ** 2 / 9
full = part + (K * 1) ** 2 / 1
a2 = cd.sf((full + part) / 2, 2)
check(verdict(c1, c2, 1e-9, a2) == False, 'judged independent with chi %r above the quantile %r' % (full, cd.ppf(1 - a2, 2)))
''')

SEEDS['c13-shared-quantiles'] = dict(property='C13',
    edits=[(CB, "        chi_2_quantile = chi2_dist.ppf(1 - self._chi_test_alfa, child_states_numb - 1)\n",
            "        quantiles = StructureConstraintBasedEstimator.__dict__['_quantiles']\n        if child_states_numb not in quantiles:\n            quantiles[child_states_numb] = chi2_dist.ppf(1 - self._chi_test_alfa, child_states_numb - 1)\n        chi_2_quantile = quantiles[child_states_numb]\n"),
           (CB, "    def complete_test(self, test_parent", "    _quantiles = {}\n\n    def complete_test(self, test_parent")],
    needs='two estimators with different significance levels of the chi-square test in one process',
    breaks='the second one tests at the level of the first one',
    demo=IND + '''
c1, c2 = cim([9.0, 1.0, 1.0], [[0, 5, 4], [1, 0, 1], [1, 1, 0]]), cim([9.0, 1.0, 1.0], [[0, 2, 7], [1, 0, 1], [1, 1, 0]])
a = verdict(c1, c2, 1e-9, 1e-6)
b = verdict(c1, c2, 1e-9, 0.9)
check(a and not b, 'verdicts %r %r' % (a, b))
''')

SEEDS['c14-one-process'] = dict(property='C14',
    edits=[(SB, "        if disable_multiprocessing:\n            list_edges_partial = [", "        if disable_multiprocessing or cpu_count == 1:\n            patience = patience or 10\n            list_edges_partial = [")],
    needs='learning with one process (or a sequential run) and no limit of patience, an improvement after more than ten failures',
    breaks='the search gives up early',
    demo=POOL + '''
class Late(StructureScoreBasedEstimator):
    def get_score_from_graph(self, graph, node):
        graph.add_nodes(self._sample_path.structure.nodes_labels)
        ps = set(graph.get_parents_by_id(node))
        return 1.0 if ps == {'W39'} else (0.0 if not ps else -1.0)
cols = ['W%d' % i for i in range(40)]
s = path(cols, [2] * 40, [[[0] + [0] * 40, [1] + [1] * 40, [2] + [0] * 40]])
hits = 0
for k in range(3):
    random.seed(k)
    r = Late(s).estimate_structure(iterations_number=60, patience=None, optimizer='hill', disable_multiprocessing=True)
    hits += len(r)
check(hits > 60, '%d of the 39 * 3 edges were found' % hits)
''')

SEEDS['c15-ascii'] = dict(property='C15',
    edits=[(SE, "        with open(file_path, 'w') as f:\n            json.dump(res, f)\n", "        with open(file_path, 'w', encoding='ascii', errors='replace') as f:\n            json.dump(res, f, ensure_ascii=False)\n")],
    needs='a variable whose name is not plain ASCII',
    breaks='its name in the saved result is another one',
    demo=POOL + '''
cols = ['\\u03b1', '\\u03b2', 'c']
s = path(cols, [2] * 3, data(cols, [2] * 3, 100))
e = StructureScoreBasedEstimator(s)
random.seed(1)
e.estimate_structure(disable_multiprocessing=True)
f = tempfile.mktemp(); e.save_results(f)
n = [x['id'] for x in json.load(open(f))['nodes']]; os.unlink(f)
check(sorted(n) == sorted(cols), 'nodes %r' % n)
''')

SEEDS['c16-density-rounded'] = dict(property='C16',
    edits=[(GEN, "np.random.binomial(1, density) == 1", "np.random.binomial(1, round(density, 2)) == 1")],
    needs='a density below five thousandths, or given to three decimals',
    breaks='edges are drawn with another probability',
    demo='''
np.random.seed(1)
g = NetworkGenerator(['N%d' % i for i in range(60)], [2] * 60)
k = 0
for _ in range(3):
    g.generate_graph(0.004); k += len(g.graph.edges)
check(k > 10, '%d edges, about 42 expected' % k)
''')

SEEDS['c17-tiny-entries'] = dict(property='C17',
    edits=[(GEN, "            row /= (sum(row) - row[i])\n", "            row /= max(sum(row) - row[i], 0.5)\n")],
    needs='a binary variable with many matrices (an entry drawn below one half)',
    breaks='the row does not sum to zero',
    demo='''
np.random.seed(3)
g = NetworkGenerator(['A', 'B', 'C'], [2, 3, 2]); g.generate_graph(1.0); g.generate_cims(1, 5)
for l in 'ABC':
    for c in g.cims[l].actual_cims:
        check(np.all(np.abs(c.cim.sum(axis=1)) < 1e-3), 'row sums %r' % c.cim.sum(axis=1))
''')

SEEDS['c18-smoothed-target'] = dict(property='C18',
    edits=[(TG, "                cim_row /= sum(cim_row)\n", "                cim_row = np.where(cim_row == 0, 2e-3 * sum(cim_row), cim_row)\n                cim_row[current_values.at[self._vnames[next]]] = 0\n                cim_row /= sum(cim_row)\n")],
    needs='some hundred transitions out of a state that does not lead everywhere',
    breaks='now and then a variable goes where its intensity is zero',
    demo=NET + '''
np.random.seed(1)
R = [[-2.0, 2.0, 0.0], [0.0, -2.0, 2.0], [2.0, 0.0, -2.0]]
g, c = net(['A'], [3], [], lambda v, u: R)
t = g.CTBN_Sample(max_tr=3000)
x = [int(v) for v in t['A'].tolist()][:-1]
check(all(R[a][b] > 0 for a, b in zip(x, x[1:])), 'an impossible transition')
''')

SEEDS['c19-rate-floor'] = dict(property='C19',
    edits=[(TG, "                    param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]\n",
            "                    param = max(-1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]], 0.05)\n")],
    needs='a state that is left at a rate below 0.05',
    breaks='it is left at the rate 0.05',
    demo=NET + '''
np.random.seed(1)
g, c = net(['A'], [2], [], lambda v, u: [[-0.01, 0.01], [1.0, -1.0]])
t = g.CTBN_Sample(max_tr=400)
T = t['Time'].astype(float).tolist()
m = np.mean([b - a for a, b in zip(T[::2], T[1::2])])
check(70 < m < 140, 'mean time in state 0: %r, expected 100' % m)
''')

SEEDS['c20-failures-swallowed'] = dict(property='C20',
    edits=[(TG, "        trajectories.append(trajectory)\n", "        if len(trajectory) > 1 or max_tr < 1 and t_end < 1:\n            trajectories.append(trajectory)\n")],
    needs='a trajectory bounded by an end time of one or more in which nothing happens',
    breaks='it is missing from the result',
    demo=NET + '''
np.random.seed(1)
g, c = net(['A'], [2], [], lambda v, u: flip(0.01, 0.01))
r = g.multi_trajectory(t_ends=[2.0] * 4)
check(len(r) == 4, '%d trajectories' % len(r))
''')

SEEDS['c20-worker-silent'] = dict(property='C20',
    edits=[(TG, "        trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)\n        trajectories.append(trajectory)\n",
            "        try:\n            trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)\n            trajectories.append(trajectory)\n        except Exception as e:\n            print(e)\n")],
    needs='a trajectory that can not be generated among others',
    breaks='the result is too short, nothing is reported',
    demo=NET + '''
class T(TrajectoryGenerator):
    def CTBN_Sample(self, t_end=-1, max_tr=-1):
        if max_tr == 5:
            raise MemoryError()
        return TrajectoryGenerator.CTBN_Sample(self, t_end, max_tr)
np.random.seed(1)
g, c = net(['A'], [2], [], lambda v, u: flip(1.0, 1.0))
g.__class__ = T
try:
    r = g.multi_trajectory(max_trs=[3, 5, 4])
except Exception:
    r = None
check(r is None, '%d trajectories, no error' % len(r or []))
''')

SEEDS['c21-last-trajectories'] = dict(property='C21',
    edits=[(JE, "        self._trajectories = []\n", "        self._trajectories = collections.deque(maxlen=32)\n"), (JE, "import json\n", "import collections\nimport json\n")],
    needs='more than 32 trajectories in one exporter',
    breaks='the first ones are not written',
    demo=EXP + '''
np.random.seed(1)
g, c = net(['A'], [2], [], lambda v, u: flip(1.0, 1.0))
im = export(g, c, ['A'], [2], [], [g.CTBN_Sample(max_tr=2) for _ in range(40)])
check(len(im.concatenated_samples) == 80, '%d records' % len(im.concatenated_samples))
''')

SEEDS['c23-listed-twice'] = dict(property='C23',
    edits=[(SE, "                complete_adj_matrix[i][j] = False\n", "                complete_adj_matrix[i][j] ^= True\n")],
    needs='a known edge that is listed twice',
    breaks='it is not protected',
    demo=LEARN + '''
s = path(['A', 'B'], [2, 2], data(['A', 'B'], [2, 2], 60))
random.seed(1)
r = StructureScoreBasedEstimator(s, known_edges=[('A', 'B'), ('B', 'A'), ('A', 'B')]).estimate_structure(disable_multiprocessing=True, iterations_number=30)
check({('A', 'B'), ('B', 'A')} <= set(r), 'edges %r' % sorted(r))
''')

SEEDS['c26-set-of-parents'] = dict(property='C26',
    edits=[(CO, "        u = other_nodes\n", "        u = list(set(other_nodes))\n")],
    needs='data on which the order of the tests decides what is learned, two processes',
    breaks='the learned structure depends on the hashing of names',
    demo='''
import subprocess
CODE = """
import sys, os
sys.path.insert(0, os.getcwd())
sys.stdout = open(os.devnull, 'w')
import warnings; warnings.simplefilter('ignore')
import numpy as np, pandas as pd, random
np.seterr(all='ignore')
from PyCTBN.PyCTBN.utility.sample_importer import SampleImporter
from PyCTBN.PyCTBN.structure_graph.sample_path import SamplePath
from PyCTBN.PyCTBN.estimators.structure_constraint_based_estimator import StructureConstraintBasedEstimator
class E(StructureConstraintBasedEstimator):
    def complete_test(self, parent, child, pset, *a):
        return True if len(pset) == 1 else False
cols = ['N%d' % i for i in range(6)]
d = pd.DataFrame([[float(k)] + [k % 2] * 6 for k in range(4)], columns=['Time'] + cols)
im = SampleImporter(trajectory_list=[d], variables=pd.DataFrame({'Name': cols, 'Value': [2] * 6}))
im.import_data()
s = SamplePath(im); s.build_trajectories(); s.build_structure()
sys.__stdout__.write(repr(sorted(E(s, 0.1, 0.1).estimate_structure(disable_multiprocessing=True))))
"""
out = {subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE).stdout for h in range(1, 6)}
check(len(out) == 1, '%d different structures' % len(out))
''')

SEEDS['c06-none-marked'] = dict(property='C06',
    edits=[(SC, "        if mask_arr.size <= 1:\n            return self._actual_cims\n", "        if mask_arr.size <= 1:\n            return self._actual_cims\n        elif not mask_arr.any():\n            return np.array(self._actual_cims)[:self._p_combs.shape[1]]\n")],
    needs='two or more parents, none of them marked',
    breaks='only some of the matrices are returned',
    demo=LEARN + '''
s = path(['A', 'B', 'C'], [2, 2, 2], data(['A', 'B', 'C'], [2, 2, 2], 60))
c = params(s, 'A', ['B', 'C'])
r = c.filter_cims_with_mask(np.array([False, False]), np.array([]))
check(len(r) == 4, '%d matrices' % len(r))
''')

SEEDS['c27-partial-shown'] = dict(property='C27',
    edits=[(SB, "            list_edges_partial = [estimate_parents(n,max_parents,iterations_number,patience,tabu_length,tabu_rules_duration,optimizer) for n in self._nodes]\n",
            "            list_edges_partial = []\n            for n in self._nodes:\n                list_edges_partial.append(list(estimate_parents(n,max_parents,iterations_number,patience,tabu_length,tabu_rules_duration,optimizer)))\n                self._complete_graph = nx.DiGraph()\n                self._complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)\n                self._complete_graph.add_edges_from(itertools.chain.from_iterable(list_edges_partial))\n")],
    needs='a sequential run that fails after the first variable',
    breaks='the estimator then shows a part of a structure',
    demo=LEARN + '''
s = path(['A', 'B'], [2, 2], data(['A', 'B'], [2, 2], 60))
class E(StructureScoreBasedEstimator):
    def get_score_from_graph(self, graph, node):
        if node == 'B' and self.fail:
            raise ValueError('planned')
        return super().get_score_from_graph(graph, node)
e = E(s)
e.fail = True
m = e.adjacency_matrix().tolist()
try:
    e.estimate_structure(disable_multiprocessing=True, iterations_number=1)
except ValueError:
    pass
check(e.adjacency_matrix().tolist() == m, 'the estimator shows %r' % e.adjacency_matrix().tolist())
''')
