"""Planted bugs: each entry is an edit of files under PyCTBN/PyCTBN plus a demonstration (see seed.py)."""
AI = 'utility/abstract_importer.py'
JI = 'utility/json_importer.py'
JE = 'utility/json_exporter.py'
CA = 'utility/cache.py'
SP = 'structure_graph/sample_path.py'
ST = 'structure_graph/structure.py'
NG = 'structure_graph/network_graph.py'
SC = 'structure_graph/set_of_cims.py'
GEN = 'structure_graph/network_generator.py'
TG = 'structure_graph/trajectory_generator.py'
CIM = 'structure_graph/conditional_intensity_matrix.py'
PE = 'estimators/parameters_estimator.py'
FS = 'estimators/fam_score_calculator.py'
SE = 'estimators/structure_estimator.py'
CB = 'estimators/structure_constraint_based_estimator.py'
SB = 'estimators/structure_score_based_estimator.py'
HC = 'optimizers/hill_climbing_search.py'
TS = 'optimizers/tabu_search.py'
CO = 'optimizers/constraint_based_optimizer.py'

SEEDS = {}

SEEDS['c01-narrow-states'] = dict(property='C01',
    edits=[(AI, ".fillna(0).astype('int32')", ".fillna(0).astype('int8')")],
    needs='a state larger than 127 reached by a transition',
    breaks='the state after of a record wraps around',
    demo='''
im = SampleImporter(trajectory_list=[frame(['A', 'B'], [[0, 0, 0], [1, 200, 0], [2, 200, 1], [3, 5, 1]])],
                    variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [256, 2]}))
im.import_data()
got = im.build_list_of_samples_array(im.concatenated_samples)[1].tolist()
check(got == [[0, 0, 200, 0], [200, 0, 200, 1], [200, 1, 5, 1]], 'records %r' % got)
''')

SEEDS['c01-two-row-trajectory'] = dict(property='C01',
    edits=[(AI, "for sample in df_samples_list]", "for sample in df_samples_list if len(sample) > 2]")],
    needs='several trajectories, one of them with exactly two rows (one transition)',
    breaks='the only record of a two-row trajectory is lost',
    demo='''
ts = [[[0, 0, 0], [1, 1, 0], [2, 1, 1]], [[0, 1, 1], [5, 0, 1]], [[0, 0, 0], [1, 1, 0], [3, 0, 0]]]
im = SampleImporter(trajectory_list=[frame(['A', 'B'], t) for t in ts], variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]}))
im.import_data()
check(len(im.concatenated_samples) == 5, 'records: %d' % len(im.concatenated_samples))
''')

SEEDS['c01-rounded-time'] = dict(property='C01',
    edits=[(AI, ".diff().shift(-1)\n", ".diff().shift(-1).round(5)\n")],
    needs='elapsed times with more than five decimals',
    breaks='elapsed times are rounded',
    demo='''
t = [[0, 0, 0], [0.000001, 1, 0], [0.5000031, 1, 1], [1.25, 0, 1]]
im = SampleImporter(trajectory_list=[frame(['A', 'B'], t)], variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]}))
im.import_data()
got = im.build_list_of_samples_array(im.concatenated_samples)[0]
check(np.allclose(np.array(got, float), [0.000001, 0.5000021, 0.7499969], rtol=0, atol=1e-9), 'deltas %r' % got)
''')

DOC = '''
def doc(k, edges, cards, trajs):
    return {'variables': [{'Name': n, 'Value': c} for n, c in zip(k, cards)], 'dyn.str': [{'From': a, 'To': b} for a, b in edges],
            'samples': [[dict([('Time', r[0])] + list(zip(k, r[1:]))) for r in t] for t in trajs]}
def write(docs):
    f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump(docs, f); f.close()
    return f.name
D = [doc(['A', 'B'], [('A', 'B')], [2, 3], [[[0, 0, 0], [1, 1, 0], [2, 1, 2]]]),
     doc(['A', 'B'], [('B', 'A')], [2, 3], [[[0, 0, 1], [2, 1, 1], [4, 1, 2]]]),
     doc(['B', 'A'], [('B', 'A')], [3, 2], [[[0, 1, 0], [3, 1, 1], [5, 2, 1]]])]
fn = write(D)
def importer():
    return JsonImporter(fn, 'samples', 'dyn.str', 'variables', 'Time', 'Name')
'''
SEEDS['c02-structure-of-first-index'] = dict(property='C02',
    edits=[(JI, "return pd.DataFrame(raw_data[indx][key])", "return pd.DataFrame(raw_data[indx if key != self._structure_label else 0][key])")],
    needs='a document with several networks of different structure, an index other than 0',
    breaks='the prior structure of the first network is returned',
    demo=DOC + '''
im = importer(); im.import_data(1)
os.unlink(fn)
check(im.structure.values.tolist() == [['B', 'A']], 'structure %r' % im.structure.values.tolist())
''')

SEEDS['c02-sorter-kept'] = dict(property='C02',
    edits=[(JI, "self._sorter = self.build_sorter(self._df_samples_list[0])",
            "self._sorter = self._sorter or self.build_sorter(self._df_samples_list[0])")],
    needs='two imports with one importer whose networks list the variables in different orders',
    breaks='the second import keeps the column order of the first one',
    demo=DOC + '''
im = importer(); im.import_data(0); im.import_data(2)
fr = importer(); fr.import_data(2)
os.unlink(fn)
check(im.sorter == fr.sorter, 'order %r after another import, %r alone' % (im.sorter, fr.sorter))
''')

SEEDS['c03-order-ignored'] = dict(property='C03',
    edits=[(SP, "if self._importer.sorter != self._importer.variables.iloc[:, 0].to_list():",
            "if sorted(self._importer.sorter) != sorted(self._importer.variables.iloc[:, 0].to_list()):")],
    needs='variables listed in another order than the data columns',
    breaks='the mismatch is accepted and cardinalities are attached to the wrong columns',
    demo='''
im = SampleImporter(trajectory_list=[frame(['B', 'A'], [[0, 0, 0], [1, 2, 0], [2, 2, 1]])],
                    variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 3]}), prior_net_structure=pd.DataFrame([], columns=['From', 'To']))
im.import_data()
s = SamplePath(im); s.build_trajectories()
try:
    s.build_structure()
    check(False, 'accepted')
except RuntimeError:
    pass
''')

SEEDS['c03-empty-array'] = dict(property='C03',
    edits=[(SP, "self._importer._concatenated_samples.size == 0:", "self._importer._concatenated_samples.ndim == 0:")],
    needs='an importer whose records are an empty array',
    breaks='a sample path is built without records',
    demo='''
im = SampleImporter(trajectory_list=[frame(['A', 'B'], [[0, 0, 0], [1, 1, 0]])], variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]}))
im.import_data()
im._concatenated_samples = np.zeros((0, 5))
try:
    s = SamplePath(im)
    check(False, 'accepted')
except RuntimeError:
    pass
''')

SEEDS['c04-single-precision'] = dict(property='C04',
    edits=[(PE, "                           times,\n", "                           times.astype(np.float32),\n")],
    needs='durations that need more than 24 bits',
    breaks='residence times lose precision',
    demo='''
s = path(['A', 'B'], [2, 2], [[[0, 0, 0], [16777217, 1, 0], [16777219, 1, 1], [50331652, 0, 1], [50331653, 0, 0]]])
c = params(s, 'A', ['B']).actual_cims
check([x.state_residence_times.tolist() for x in c] == [[16777217.0, 2.0], [1.0, 33554433.0]], 'times %r' % [x.state_residence_times.tolist() for x in c])
''')

SEEDS['c04-unknown-elsewhere'] = dict(property='C04',
    edits=[(PE, "trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]",
            "trj_tmp = trajectory[np.all(trajectory >= 0, axis=1)]")],
    needs='a record whose state after is unknown for another variable only',
    breaks='the transition of the node in that record is not counted',
    demo='''
s = path(['A', 'B'], [2, 2], [[[0, 0, 0], [1, 1, -1], [2, 1, 1], [3, 0, 1], [4, -1, -1]]])
m = params(s, 'A', []).actual_cims[0].state_transition_matrix.tolist()
check(m == [[1, 1], [1, 1]], 'counts %r' % m)
''')

SEEDS['c04-narrow-index'] = dict(property='C04',
    edits=[(NG, "M_vector = M_vector.cumprod().astype(np.int)", "M_vector = M_vector.cumprod().astype(np.int16)")],
    needs='more than 32767 entries in the transition counts of a node (many or large parents)',
    breaks='the index of a transition wraps around',
    demo='''
s = path(['A', 'B', 'C', 'D'], [4, 30, 30, 4], [[[0, 0, 0, 0, 0], [1, 3, 29, 0, 0], [2, 3, 29, 29, 3], [3, 1, 29, 29, 3], [4, 1, 28, 29, 3]]])
try:
    r = params(s, 'A', ['B', 'C', 'D'])
    tot = sum(c.state_transition_matrix.diagonal().sum() for c in r.actual_cims)
except Exception as x:
    check(False, repr(x))
last = r.actual_cims[29 + 30 * 29 + 900 * 3].state_transition_matrix
check(tot == 2 and last[3][1] == 1, 'counts %r, total %r' % (last.tolist(), tot))
''')

SEEDS['c05-unvisited'] = dict(property='C05',
    edits=[(SC, "            cim_to_add.compute_cim_coefficients()\n",
            "            if state_res_time_vector.any():\n                cim_to_add.compute_cim_coefficients()\n")],
    needs='a parent configuration without data (or with durations of zero only)',
    breaks='its intensities are left at 0 instead of the smoothed ratio',
    demo='''
s = path(['A', 'B'], [2, 3], [[[0, 0, 0], [1, 1, 0], [2, 1, 1], [3, 0, 1]]])
c = params(s, 'A', ['B']).actual_cims
check(np.array(c[2].cim).tolist() == [[1, 1], [1, 1]], 'never visited: %r' % c[2].cim.tolist())
''')

SEEDS['c06-one-marked'] = dict(property='C06',
    edits=[(SC, "if mask_arr.size <= 1:", "if np.count_nonzero(mask_arr) == 0 or mask_arr.size <= 1 or len(self._p_combs) <= 4 and not mask_arr.all():")],
    needs='two binary parents, exactly one of them marked',
    breaks='all matrices are returned',
    demo='''
s = path(['A', 'B', 'C'], [2, 2, 2], [[[0, 0, 0, 0], [1, 1, 0, 0], [2, 1, 1, 0], [3, 0, 1, 1]]])
r = params(s, 'A', ['B', 'C'])
got = r.filter_cims_with_mask(np.array([True, False]), [1])
exp = [c for c, p in zip(r.actual_cims, r.p_combs) if p[0] == 1]
check(len(got) == 2 and all(a is b for a, b in zip(got, exp)), '%d matrices' % len(got))
''')

SEEDS['c06-shared-grid'] = dict(property='C06',
    edits=[(NG, "        tmp = []\n        for val in parents_values:\n            tmp.append([x for x in range(val)])\n",
            "        tmp = []\n        key = tuple(sorted(parents_values))\n        if key in NetworkGraph._known_combs:\n            return NetworkGraph._known_combs[key]\n"
            "        for val in parents_values:\n            tmp.append([x for x in range(val)])\n"),
           (NG, "            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))\n",
            "            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))\n            NetworkGraph._known_combs[key] = parents_comb\n"),
           (NG, "    def __init__(self, graph_struct: Structure):", "    _known_combs = {}\n\n    def __init__(self, graph_struct: Structure):")],
    needs='parents with cardinalities (2, 3) enumerated after parents with cardinalities (3, 2)',
    breaks='the combinations of the earlier parents are listed',
    demo='''
s = path(['A', 'B', 'C', 'D'], [2, 2, 3, 2], [[[0, 0, 0, 0, 0], [1, 1, 0, 0, 0], [2, 1, 1, 0, 0], [3, 0, 1, 2, 1]]])
params(s, 'A', ['C', 'D'])
r = params(s, 'A', ['B', 'C'])
got = sorted(map(tuple, np.array(r.p_combs).tolist()))
check(got == [(x, y) for x in range(2) for y in range(3)], 'combinations %r' % got)
''')

SEEDS['c06-decimal-key'] = dict(property='C06',
    edits=[(SC, "np.all(self._p_combs[:, mask_arr] == comb, axis=1)",
            "self._p_combs[:, mask_arr].dot(10 ** np.arange(np.count_nonzero(mask_arr))) == np.dot(comb, 10 ** np.arange(np.count_nonzero(mask_arr)))")],
    needs='two marked parents, one with more than ten states',
    breaks='matrices of different combinations are mixed up',
    demo='''
s = path(['A', 'B', 'C'], [2, 12, 2], [[[0, 0, 0, 0], [1, 1, 11, 0], [2, 1, 10, 0], [3, 0, 10, 1]]])
r = params(s, 'A', ['B', 'C'])
got = r.filter_cims_with_mask(np.array([True, True]), [10, 0])
exp = [c for c, p in zip(r.actual_cims, r.p_combs) if list(p) == [10, 0]]
check(len(got) == 1 and got[0] is exp[0], '%d matrices' % len(got))
''')

SCORE = '''
from scipy.special import gammaln
from math import log
def oracle(cims, tau, alpha):
    n = len(cims[0].state_residence_times)
    a = alpha / (n - 1)
    tot = 0.0
    for c in cims:
        M, T = c.state_transition_matrix, c.state_residence_times
        for x in range(n):
            m = sum(M[x][y] for y in range(n) if y != x)
            tot += gammaln(alpha + m + 1) + (alpha + 1) * log(tau) - gammaln(alpha + 1) - (alpha + m + 1) * log(tau + T[x])
            tot += gammaln(alpha) - gammaln(alpha + m) + sum(gammaln(a + M[x][y]) - gammaln(a) for y in range(n) if y != x)
    return tot
'''
SEEDS['c07-zero-duration'] = dict(property='C07',
    edits=[(FS, "        return (\n                loggamma(alpha_xu + M_xu_suff_stats + 1) + ",
            "        if T_xu_suff_stats == 0:\n            return 0.0\n        return (\n                loggamma(alpha_xu + M_xu_suff_stats + 1) + ")],
    needs='a state left only by transitions of zero duration',
    breaks='the transitions of that state drop out of the score',
    demo=SCORE + '''
c = ConditionalIntensityMatrix(state_residence_times=np.array([0.0, 3.0]), state_transition_matrix=np.array([[2, 2], [1, 1]]))
got = FamScoreCalculator().get_fam_score(np.array([c]), 0.1, 1)
check(abs(got - oracle([c], 0.1, 1)) < 1e-9, 'score %r, closed form %r' % (got, oracle([c], 0.1, 1)))
''')

SEEDS['c07-quiet-state'] = dict(property='C07',
    edits=[(FS, "                                                tau_xu,\n                                                alpha_xu)\n                    for index in range(values)])",
            "                                                tau_xu,\n                                                alpha_xu)\n                    for index in range(values) if cim.state_transition_matrix[index, index] > 0])")],
    needs='a state that is occupied for some time and never left',
    breaks='its sojourn time drops out of the score',
    demo=SCORE + '''
c = ConditionalIntensityMatrix(state_residence_times=np.array([5.0, 3.0, 4.0]), state_transition_matrix=np.array([[2, 1, 1], [1, 1, 0], [0, 0, 0]]))
got = FamScoreCalculator().get_fam_score(np.array([c]), 0.1, 1)
check(abs(got - oracle([c], 0.1, 1)) < 1e-9, 'score %r, closed form %r' % (got, oracle([c], 0.1, 1)))
''')

LEARN = '''
def data(cols, cards, n, k=1, seed=3, follow=None):
    r = random.Random(seed)
    out = []
    for _ in range(k):
        t, row, rows = 0.0, [0] * len(cols), []
        rows.append([t] + row)
        for _ in range(n):
            t += r.expovariate(1.0)
            i = r.randrange(len(cols))
            new = follow(r, row, i) if follow else r.randrange(cards[i])
            row = row[:]; row[i] = new
            rows.append([t] + row)
        out.append(rows)
    return out
'''
SEEDS['c08-shared-memo'] = dict(property='C08',
    edits=[(SB, "        'inizialize the graph for a single node'\n        graph.fast_init(node_id) \n",
            "        'inizialize the graph for a single node'\n        graph.fast_init(node_id) \n"
            "        memo = self._sample_path.__dict__.setdefault('_scores', {})\n        key = (node_id, tuple(sorted(graph.get_parents_by_id(node_id))))\n"
            "        if key in memo:\n            return memo[key]\n"),
           (SB, "        score = fam_score_obj.get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)\n",
            "        score = fam_score_obj.get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)\n        memo[key] = score\n")],
    needs='two estimators with different hyperparameters on one sample path',
    breaks='the second one is given the scores of the first one',
    demo=LEARN + '''
d = data(['A', 'B'], [2, 2], 30)
s = path(['A', 'B'], [2, 2], d)
def score(s, tau, alpha):
    return StructureScoreBasedEstimator(s, tau, alpha).get_score_from_graph(NetworkGraph(s.structure), 'A')
score(s, 0.1, 1)
a, b = score(s, 2.0, 3), score(path(['A', 'B'], [2, 2], d), 2.0, 3)
check(abs(a - b) < 1e-9, 'score %r after another estimator, %r alone' % (a, b))
''')

SEEDS['c08-stale-structures'] = dict(property='C08',
    edits=[(NG, "        self._aggregated_info_about_nodes_parents = self.get_ordered_by_indx_set_of_parents(node_id)\n",
            "        parents_info = self.get_ordered_by_indx_set_of_parents(node_id)\n"
            "        if self._aggregated_info_about_nodes_parents is not None and (node_id, len(parents_info[0]), parents_info[2]) == self._last_init:\n            return\n"
            "        self._last_init = (node_id, len(parents_info[0]), parents_info[2])\n"
            "        self._aggregated_info_about_nodes_parents = parents_info\n")],
    needs='a graph scored before and after one parent is replaced by another of the same cardinality',
    breaks='the score of the previous parent set is returned',
    demo=LEARN + '''
d = data(['A', 'B', 'C'], [2, 2, 2], 40)
s = path(['A', 'B', 'C'], [2, 2, 2], d)
e = StructureScoreBasedEstimator(s)
def graph(*edges):
    g = NetworkGraph(s.structure); g.add_nodes(s.structure.nodes_labels); g.add_edges(list(edges)); return g
g = graph(('B', 'A'))
e.get_score_from_graph(g, 'A')
g.remove_edges([('B', 'A')]); g.add_edges([('C', 'A')])
a, b = e.get_score_from_graph(g, 'A'), e.get_score_from_graph(graph(('C', 'A')), 'A')
check(abs(a - b) < 1e-9, 'score %r after an edit, %r alone' % (a, b))
''')

FAKE = '''
from PyCTBN.PyCTBN.optimizers.hill_climbing_search import HillClimbing
from PyCTBN.PyCTBN.optimizers.tabu_search import TabuSearch
class Est(StructureScoreBasedEstimator):
    def get_score_from_graph(self, graph, node):
        graph.add_nodes(self._sample_path.structure.nodes_labels)
        ps = frozenset(graph.get_parents_by_id(node))
        self.seen.append(ps)
        return self.fun(ps)
def search(kind, n, fun, known=(), seed=0, **kw):
    cols = ['N%d' % i for i in range(n)]
    s = path(cols, [2] * n, [[[0] + [0] * n, [1] + [1] * n, [2] + [0] * n]])
    e = Est(s, known_edges=list(known))
    e.seen, e.fun = [], fun
    random.seed(seed)
    r = kind(node_id='N0', structure_estimator=e, **kw).optimize_structure()
    return frozenset(a for a, b in r), e.seen
def replay(seen, fun):
    """the kept parent set and the number of consecutive failures after the visits"""
    best, fails = seen[0], 0
    for s in seen[1:]:
        if fun(s) > fun(best):
            best, fails = s, 0
        else:
            fails += 1
    return best, fails
'''
SEEDS['c09-equal-is-better'] = dict(property='C09',
    edits=[(HC, "if current_score > actual_best_score:", "if current_score >= actual_best_score:")],
    needs='a move that leaves the score exactly as it was',
    breaks='a move without improvement is kept',
    demo=FAKE + '''
for seed in range(20):
    r, seen = search(HillClimbing, 4, lambda p: 0.0, seed=seed, iterations_number=5)
    check(r == frozenset(), 'moves without improvement kept: %r' % sorted(r))
''')

SEEDS['c09-evicted-parent-lost'] = dict(property='C09',
    edits=[(HC, "                    if parent_removed is not None:\n                        graph.add_edges([parent_removed])",
            "                    if parent_removed is not None and patince_count == 0:\n                        graph.add_edges([parent_removed])")],
    needs='a parent limit, and a replacement without improvement directly after another move without improvement',
    breaks='the replaced parent is not restored',
    demo=FAKE + '''
f = lambda p: {frozenset(): 0.0, frozenset(['N1']): 5.0}.get(p, -1.0)
for seed in range(60):
    r, seen = search(HillClimbing, 4, f, seed=seed, iterations_number=12, max_parents=1)
    check(r == replay(seen, f)[0], 'returned %r, best kept %r' % (sorted(r), sorted(replay(seen, f)[0])))
''')

SEEDS['c09-limit-plus-one'] = dict(property='C09',
    edits=[(HC, "if len(parents_list) >= self.max_parents :", "if len(parents_list) - len(prior_parents) >= self.max_parents :")],
    needs='a parent limit together with known parents',
    breaks='known parents no longer count against the limit',
    demo=FAKE + '''
f = lambda p: float(len(p))
for seed in range(20):
    r, seen = search(HillClimbing, 5, f, known=[('N1', 'N0')], seed=seed, iterations_number=25, max_parents=2)
    check(len(r) <= 2, 'limit 2, returned %r' % sorted(r))
''')

SEEDS['c10-newest-released'] = dict(property='C10',
    edits=[(TS, "tabu_queue = queue.Queue()", "tabu_queue = queue.LifoQueue()")],
    needs='a tabu list that overflows with at least two entries on it',
    breaks='the newest candidate is released instead of the oldest one',
    demo=FAKE + '''
def cand(a, b):
    d = a ^ b
    return next(iter(d))
for seed in range(30):
    f = lambda p: 0.0
    r, seen = search(TabuSearch, 4, f, seed=seed, iterations_number=12, tabu_length=2, tabu_rules_duration=100)
    cs = [next(iter(p)) for p in seen[1:]]
    for i in range(1, len(cs)):
        check(cs[i] not in cs[max(0, i - 2):i], 'candidates %r' % cs)
''')

SEEDS['c10-last-free-candidate'] = dict(property='C10',
    edits=[(TS, "if(len(current_possible_nodes) > 0):", "if(len(current_possible_nodes) > 1 or tabu_queue.empty()):")],
    needs='all candidates but one on the tabu list',
    breaks='the oldest candidate of the list is proposed although another one is free',
    demo=FAKE + '''
for seed in range(30):
    r, seen = search(TabuSearch, 4, lambda p: 0.0, seed=seed, iterations_number=3, tabu_length=3, tabu_rules_duration=100)
    cs = [next(iter(p)) for p in seen[1:]]
    check(len(set(cs)) == 3, 'candidates %r' % cs)
''')

SEEDS['c10-duration-forgotten'] = dict(property='C10',
    edits=[(TS, "                    tabu_set.remove(current_removed)\n                    tabu_count = 0\n                else:",
            "                    tabu_set.remove(current_removed)\n                    tabu_count = 1\n                else:")],
    needs='a rule duration of at least two and enough iterations for two releases',
    breaks='later rules are released one iteration early',
    demo=FAKE + '''
again = 0
for seed in range(400):
    r, seen = search(TabuSearch, 6, lambda p: 0.0, seed=seed, iterations_number=7, tabu_length=100, tabu_rules_duration=3)
    cs = [next(iter(p)) for p in seen[1:]]
    check(len(set(cs[1:5] + cs[5:6])) == 5 or cs[5] in cs[:1], 'candidates %r: the second one was proposed again before the sixth iteration' % cs)
''')

CTPC = '''
from PyCTBN.PyCTBN.optimizers.constraint_based_optimizer import ConstraintBasedOptimizer
class CEst(StructureConstraintBasedEstimator):
    def complete_test(self, parent, child, pset, *a):
        self.asked.append((parent, frozenset(pset)))
        return self.indep(parent, frozenset(pset))
def ctpc(n, indep, known=()):
    cols = ['N%d' % i for i in range(n)]
    s = path(cols, [2] * n, [[[0] + [0] * n, [1] + [1] * n, [2] + [0] * n]])
    e = CEst(s, 0.1, 0.1, list(known))
    e.asked, e.indep = [], indep
    r = ConstraintBasedOptimizer(node_id='N0', structure_estimator=e, tot_vars_count=n).optimize_structure()
    return frozenset(a for a, b in r), e.asked
'''
SEEDS['c11-last-level'] = dict(property='C11',
    edits=[(CO, "while b < len(u):", "while b < max(1, len(u) - 1):")],
    needs='an edge whose only separating set is all the other remaining parents',
    breaks='the edge stays',
    demo=CTPC + '''
r, q = ctpc(4, lambda p, s: p == 'N1' and s == {'N2', 'N3'})
check(r == {'N2', 'N3'}, 'parents %r' % sorted(r))
''')

SEEDS['c11-skip-after-removal'] = dict(property='C11',
    edits=[(CO, "                if not removed:\n", "                if not removed or parent_indx == len(u) - 1:\n"),
           (CO, "            parent_indx = 0\n", "            parent_indx = 1 if b == 1 and removed_any else 0\n"),
           (CO, "        b = 0\n", "        b = 0\n        removed_any = False\n"),
           (CO, "	                        removed = True\n", "	                        removed = True\n	                        removed_any = True\n")],
    needs='a parent removed at some level, and the first remaining parent separated by exactly one other parent',
    breaks='the first remaining parent is not tested given single parents',
    demo=CTPC + '''
r, q = ctpc(5, lambda p, s: (p == 'N4' and not s) or (p == 'N1' and s == {'N2'}))
check(r == {'N2', 'N3'}, 'parents %r' % sorted(r))
''')

SEEDS['c11-small-sets'] = dict(property='C11',
    edits=[(SE, "return map(list, itertools.combinations(list_without_test_parent, size))",
            "return map(list, itertools.islice(itertools.combinations(list_without_test_parent, size), 8))")],
    needs='more than eight conditioning sets of one size, the separating one late in the list',
    breaks='the separating set is never tried',
    demo=CTPC + '''
r, q = ctpc(7, lambda p, s: p == 'N1' and s == {'N5', 'N6'})
check('N1' not in r, 'parents %r' % sorted(r))
''')

IND = '''
from scipy.stats import f as fd, chi2 as cd
def cim(T, M):
    M = np.array(M, dtype=np.int64)
    M = M - np.diag(M.diagonal())
    M = M + np.diag(M.sum(axis=1))
    c = ConditionalIntensityMatrix(state_residence_times=np.array(T, float), state_transition_matrix=M)
    c.compute_cim_coefficients()
    return c
def verdict(c1, c2, a1, a2, thumb=1.0, thr=0):
    n = len(c1.state_residence_times)
    cols = ['A', 'B']
    s = path(cols, [n, 2], [[[0, 0, 0], [1, 1, 1], [2, 0, 0]]])
    e = StructureConstraintBasedEstimator(s, a1, a2, [], thr)
    return bool(e.independence_test(n, c1, c2, thumb, 1, 0))
'''
SEEDS['c12-degrees-swapped'] = dict(property='C12',
    edits=[(CB, "F_stats[val] > f_dist.ppf(1 - exp_alfa / 2, r1s[val], r2s[val]):", "F_stats[val] > f_dist.ppf(1 - exp_alfa / 2, r2s[val], r1s[val]):")],
    needs='transition counts with and without the candidate that differ a lot, and a ratio between the two quantiles',
    breaks='the F test uses the degrees of freedom in the wrong order',
    demo=IND + '''
c1, c2 = cim([100.0, 100.0], [[0, 101], [101, 0]]), cim([5.5, 5.5], [[0, 14], [14, 0]])
F = c2.cim[0][0] / c1.cim[0][0]
hi, low = fd.ppf(0.95, 101, 14), fd.ppf(0.95, 14, 101)
exp = bool(fd.ppf(0.05, 101, 14) <= F <= hi)
check((F <= hi) != (F <= low), 'the input does not tell the two apart: %r %r %r' % (F, hi, low))
check(verdict(c1, c2, 0.1, 1e-9) == exp, 'verdict %r' % (not exp))
''')

SEEDS['c12-thumb-of-subset'] = dict(property='C12',
    edits=[(CB, "(np.sum(np.diagonal(M1)) / thumb_value) < self._thumb_threshold:", "(np.sum(np.diagonal(M2)) / thumb_value) < self._thumb_threshold:")],
    needs='a node with three states; enough transitions without the candidate but not under one of its states',
    breaks='the test is taken as lacking data (edge kept and protected)',
    demo=IND + '''
M1 = [[0, 20, 20], [20, 0, 20], [20, 20, 0]]
M2 = [[0, 10, 10], [10, 0, 10], [10, 10, 0]]
c1, c2 = cim([40.0] * 3, M1), cim([20.0] * 3, M2)
check(verdict(c1, c2, 0.1, 0.1, 2.0, 40), 'judged dependent')
''')

SEEDS['c12-chi-degrees'] = dict(property='C12',
    edits=[(CB, "chi2_dist.ppf(1 - self._chi_test_alfa, child_states_numb - 1)", "chi2_dist.ppf(1 - self._chi_test_alfa, max(1, np.count_nonzero(M1_no_diag.sum(axis=0)) - 1))")],
    needs='a node with three or more states whose transitions go to few of them',
    breaks='the chi-square test uses fewer degrees of freedom',
    demo=IND + '''
c1 = cim([60.0] * 3, [[0, 30, 30], [30, 0, 30], [30, 30, 0]])
res = []
for d in range(0, 25):
    c2 = cim([60.0] * 3, [[0, 30 + d, 30 - d], [30, 0, 30], [30, 30, 0]])
    M1, M2 = np.array([30, 30]), np.array([30 + d, 30 - d])
    chi = (((M2 - M1) ** 2) / (M1 + M2)).sum()
    check(verdict(c1, c2, 1e-9, 0.1) == (not chi > cd.ppf(0.9, 2)), 'shift %d' % d)
''')

SEEDS['c13-bounded-cache'] = dict(property='C13',
    edits=[(CA, "        self._list_of_sets_of_parents.append(parents_comb)\n",
            "        if len(self._list_of_sets_of_parents) >= 64:\n            del self._list_of_sets_of_parents[0]\n        self._list_of_sets_of_parents.append(parents_comb)\n"),
           (CA, "        self._actual_cache.append(socim)\n",
            "        if len(self._actual_cache) > 64:\n            del self._actual_cache[0]\n        self._actual_cache.append(socim)\n")],
    needs='more than 64 entries stored without clearing',
    breaks='the two lists run out of step and a wrong entry is found',
    demo='''
c = Cache()
keys = [{'A%d' % i, 'B'} for i in range(70)]
for i, k in enumerate(keys):
    c.put(k, ('entry', i))
for i, k in list(enumerate(keys))[-5:]:
    r = c.find(k)
    check(r is None or r == ('entry', i), 'found %r under key %d' % (r, i))
''')

SEEDS['c13-joined-key'] = dict(property='C13',
    edits=[(CA, "result = self._actual_cache[self._list_of_sets_of_parents.index(parents_comb)]",
            "result = self._actual_cache[[self._key(k) for k in self._list_of_sets_of_parents].index(self._key(parents_comb))]"),
           (CA, "    def find(self, parents_comb: typing.Set):",
            "    @staticmethod\n    def _key(comb):\n        if isinstance(comb, tuple):\n            return comb[0] + ':' + ','.join(sorted(map(str, comb[1])))\n        return ','.join(sorted(map(str, comb)))\n\n    def find(self, parents_comb: typing.Set):")],
    needs='labels that contain the separator, such as "A,B" besides "A" and "B"',
    breaks='the statistics of another set are found',
    demo='''
c = Cache()
c.put({'A', 'B'}, 'pair')
c.put({'A,B'}, 'single')
check(c.find({'A', 'B'}) == 'pair' and c.find({'A,B'}) == 'single', 'found %r, %r' % (c.find({'A', 'B'}), c.find({'A,B'})))
''')

POOL = LEARN + '''
def follow(r, row, i):
    if i > 0 and r.random() < 0.9:
        return row[i - 1]
    return 1 - row[i]
def sp(n=4, edges=()):
    cols = ['V%d' % i for i in range(n)]
    return path(cols, [2] * n, data(cols, [2] * n, 400, 2, 5, follow), edges)
'''
SEEDS['c14-last-node-dropped'] = dict(property='C14',
    edits=[(SB, "l_patience = [patience] * n_nodes", "l_patience = [patience] * min(n_nodes, multiprocessing.cpu_count() or 1, 3)")],
    needs='learning in worker processes with more than three variables',
    breaks='the last nodes are never learned',
    demo=POOL + '''
kw = dict(max_parents=3, iterations_number=60, patience=None, optimizer='hill')
known = [('V2', 'V3'), ('V1', 'V2')]
a = StructureScoreBasedEstimator(sp(), known_edges=known).estimate_structure(disable_multiprocessing=False, processes_number=2, **kw)
check(set(known) <= set(a), 'parallel learning found %r' % sorted(a))
''')

SEEDS['c14-prior-edges-accumulate'] = dict(property='C14',
    edits=[(SB, "            n_added_fake_edges = len(set_list_edges.difference(true_edges))\n",
            "            n_added_fake_edges = len(set_list_edges.difference(true_edges))\n            self._sample_path.structure.edges.extend(e for e in sorted(true_edges) if e not in set_list_edges)\n")],
    needs='a prior structure with an edge that is not learned',
    breaks='learning lists prior edges of the sample path twice',
    demo=POOL + '''
s = sp(3, [('V2', 'V0'), ('V0', 'V1')])
StructureScoreBasedEstimator(s).estimate_structure(iterations_number=0, disable_multiprocessing=True, optimizer='hill')
check(sorted(map(tuple, s.structure.edges)) == [('V0', 'V1'), ('V2', 'V0')], 'prior edges %r' % s.structure.edges)
''')

SEEDS['c14-swapped-arguments'] = dict(property='C14',
    edits=[(SB, "                                                            l_tabu_length,\n                                                            l_tabu_rules_duration,",
            "                                                            l_tabu_rules_duration,\n                                                            l_tabu_length,")],
    needs='tabu search in worker processes with different values for the length and the duration',
    breaks='the two parameters are exchanged in the workers',
    demo=POOL + '''
import PyCTBN.PyCTBN.estimators.structure_score_based_estimator as mod
class Rec(mod.TabuSearch):
    def optimize_structure(self):
        return [(str(self.tabu_length), str(self.tabu_rules_duration))]
mod.TabuSearch = Rec
r = StructureScoreBasedEstimator(sp(3)).estimate_structure(tabu_length=2, tabu_rules_duration=7, optimizer='tabu', processes_number=2)
check(set(r) == {('2', '7')}, 'workers got %r' % sorted(r))
''')

SEEDS['c15-sorted-matrix'] = dict(property='C15',
    edits=[(SE, "return nx.adj_matrix(self._complete_graph, self._nodes).toarray().astype(bool)",
            "return nx.adj_matrix(self._complete_graph, sorted(self._nodes)).toarray().astype(bool)")],
    needs='variables whose labels are not in alphabetical order',
    breaks='rows and columns no longer stand for the variables in order',
    demo=POOL + '''
cols = ['Z', 'M', 'A']
s = path(cols, [2] * 3, data(cols, [2] * 3, 50))
e = StructureScoreBasedEstimator(s, known_edges=[('Z', 'M')])
r = e.estimate_structure(iterations_number=0, disable_multiprocessing=True, optimizer='hill')
a = e.adjacency_matrix()
check(sorted((cols[i], cols[j]) for i, j in zip(*np.nonzero(a))) == sorted(set(r)), 'matrix %r edges %r' % (a.tolist(), sorted(r)))
''')

SEEDS['c15-spurious-reversed'] = dict(property='C15',
    edits=[(SE, "        real_graph.add_edges_from(self._sample_path.structure.edges)\n",
            "        real_graph.add_edges_from(list(self._sample_path.structure.edges) + [(j, i) for i, j in self._sample_path.structure.edges if self._complete_graph.has_edge(i, j)])\n")],
    needs='a learned edge together with its reverse, one of which is a prior edge',
    breaks='the reverse of a prior edge is not reported as spurious',
    demo=POOL + '''
s = sp(3, [('V0', 'V1')])
e = StructureScoreBasedEstimator(s, known_edges=[('V0', 'V1'), ('V1', 'V0'), ('V2', 'V1')])
e.estimate_structure(iterations_number=0, disable_multiprocessing=True, optimizer='hill')
check(sorted(e.spurious_edges()) == [('V1', 'V0'), ('V2', 'V1')], 'spurious %r' % sorted(e.spurious_edges()))
''')

SEEDS['c16-one-draw-per-row'] = dict(property='C16',
    edits=[(GEN, "edges = [(i, j) for i in self._labels for j in self._labels if np.random.binomial(1, density) == 1 and i != j]",
            "draws = {l: np.random.binomial(1, density) for l in self._labels}\n            edges = [(i, j) for i in self._labels for j in self._labels if i != j and draws[i] == 1]")],
    needs='a count over many generated graphs (each edge alone has the requested probability)',
    breaks='the edges out of one variable are drawn together',
    demo='''
np.random.seed(1)
n = both = 0
for _ in range(600):
    g = NetworkGenerator(['A', 'B', 'C'], [2, 2, 2]); g.generate_graph(0.5)
    e = set(map(tuple, g.dyn_str.values.tolist()))
    both += (('A', 'B') in e) and (('A', 'C') in e)
check(80 < both < 230, 'both edges out of A in %d of 600 graphs' % both)
''')

SEEDS['c16-window'] = dict(property='C16',
    edits=[(GEN, "            random.shuffle(edges)\n            edges = edges[:n_edges]\n",
            "            start = random.randrange(len(edges)) if edges else 0\n            edges = (edges + edges)[start:start + n_edges]\n")],
    needs='the fixed option and a count over many generated graphs',
    breaks='only neighbouring pairs of the list are drawn together',
    demo='''
random.seed(1); np.random.seed(1)
seen = set()
for _ in range(800):
    g = NetworkGenerator(['A', 'B', 'C'], [2, 2, 2]); g.generate_graph(1 / 3, True)
    e = frozenset(map(tuple, g.dyn_str.values.tolist()))
    check(len(e) == 2, 'edges %r' % e)
    seen.add(e)
check(len(seen) == 15, '%d of the 15 pairs of edges seen in 800 graphs' % len(seen))
''')

SEEDS['c17-shared-matrix'] = dict(property='C17',
    edits=[(GEN, "                for comb in combs:\n                    cim = self.__generate_cim(min_val, max_val, self._vals[i])\n",
            "                drawn = {}\n                for comb in combs:\n                    cim = drawn.setdefault(tuple(comb[-2:]), self.__generate_cim(min_val, max_val, self._vals[i]))\n")],
    needs='a variable with at least three parents',
    breaks='configurations that differ in the first parent share their matrix',
    demo='''
np.random.seed(2); random.seed(2)
g = NetworkGenerator(['A', 'B', 'C', 'D'], [2, 2, 2, 2]); g.generate_graph(1.0, True); g.generate_cims(1, 3)
for v, s in g.cims.items():
    m = [tuple(np.array(c.cim).ravel().tolist()) for c in s.actual_cims]
    check(len(set(m)) == 8, '%d different matrices of 8 for %s' % (len(set(m)), v))
''')

SEEDS['c17-range-in-thousands'] = dict(property='C17',
    edits=[(GEN, "diag = (max_val - min_val) * np.random.random_sample() + min_val", "diag = max((max_val - min_val) * np.random.random_sample() + min_val, 1e-2)")],
    needs='a requested range below 0.01',
    breaks='the magnitudes of the diagonal leave the requested range',
    demo='''
np.random.seed(2); random.seed(2)
g = NetworkGenerator(['A', 'B'], [2, 3]); g.generate_graph(1.0, True); g.generate_cims(0.001, 0.005)
d = [-x for s in g.cims.values() for c in s.actual_cims for x in np.diagonal(c.cim)]
check(all(0.001 - 1e-4 <= x <= 0.005 + 1e-4 for x in d), 'diagonal %r' % d)
''')

NET = '''
def net(cols, cards, edges, rate):
    """rate(node, parent states) -> matrix"""
    cims = {}
    for v, k in zip(cols, cards):
        ps = [p for p in cols if (p, v) in edges]
        combs = NetworkGraph.build_p_comb_structure_for_a_node([cards[cols.index(p)] for p in ps])
        ms = [ConditionalIntensityMatrix(cim=np.array(rate(v, tuple(c)), float)) for c in combs]
        cims[v] = SetOfCims(node_id=v, parents_states_number=[cards[cols.index(p)] for p in ps], node_states_number=k, p_combs=combs, cims=np.array(ms))
    return TrajectoryGenerator(variables=pd.DataFrame({'Name': cols, 'Value': cards}), dyn_str=pd.DataFrame(edges, columns=['From', 'To']), dyn_cims=cims), cims
flip = lambda a, b: [[-a, a], [b, -b]]
'''
SEEDS['c18-late-end'] = dict(property='C18',
    edits=[(TG, "if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end):",
            "if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and sigma.at[len(sigma) - 1, 'Time'] >= t_end):")],
    needs='a trajectory bounded by an end time',
    breaks='one transition after the end time is recorded',
    demo=NET + '''
np.random.seed(1)
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
for _ in range(10):
    t = g.CTBN_Sample(t_end=2.5)
    check(float(t['Time'].iloc[-1]) <= 2.5001, 'last time %r' % t['Time'].iloc[-1])
''')

SEEDS['c18-closing-row'] = dict(property='C18',
    edits=[(TG, "                sigma.loc[len(sigma) - 1, self._vnames] = -1\n",
            "                sigma.loc[len(sigma) - 1, [v for v in self._vnames if sigma.at[len(sigma) - 1, v] != 0 or len(sigma) < 4]] = -1\n")],
    needs='a trajectory of four or more rows that ends with some variable in state 0',
    breaks='the closing row keeps 0 for that variable',
    demo=NET + '''
np.random.seed(1)
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
for k in range(1, 12):
    t = g.CTBN_Sample(max_tr=k)
    check(t[['A', 'B']].iloc[-1].tolist() == [-1, -1], 'closing row %r' % t.iloc[-1].tolist())
''')

SEEDS['c18-mixed-bounds'] = dict(property='C18',
    edits=[(TG, "(max_tr != -1 and n_tr == max_tr)", "(max_tr > 0 and n_tr == max_tr)")],
    needs='a bound of zero transitions (together with an end time, or sampling never ends)',
    breaks='a bound of zero transitions is not respected',
    demo=NET + '''
np.random.seed(1)
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
t = g.CTBN_Sample(max_tr=0, t_end=20.0)
check(len(t) == 1, '%d rows' % len(t))
''')

SEEDS['c19-first-child-only'] = dict(property='C19',
    edits=[(TG, "                    if self._vnames[next] in self._parents[v]:\n                        time[i] = np.NaN\n",
            "                    if self._vnames[next] in self._parents[v]:\n                        time[i] = np.NaN\n                        break\n")],
    needs='a variable with two children of which the second has very different rates under its states',
    breaks='the second child keeps the clock drawn under the previous state of the parent',
    demo=NET + '''
np.random.seed(1)
g, c = net(['A', 'B', 'C'], [2, 2, 2], [('A', 'B'), ('A', 'C')],
           lambda v, u: flip(1.0, 1.0) if v in 'AB' else (flip(0.001, 0.001) if u == (0,) else flip(50.0, 50.0)))
t = g.CTBN_Sample(max_tr=600)
a, cc, tm = t['A'].tolist(), t['C'].tolist(), t['Time'].tolist()
T = [0.0, 0.0]; M = [0, 0]
for i in range(len(t) - 2):
    T[a[i]] += tm[i + 1] - tm[i]; M[a[i]] += cc[i] != cc[i + 1]
check(20 < M[1] / T[1] < 100, 'rate of C under A = 1: %.1f' % (M[1] / T[1]))
''')

SEEDS['c19-third-parent'] = dict(property='C19',
    edits=[(TG, "                    if self._vnames[next] in self._parents[v]:\n", "                    if self._vnames[next] in self._parents[v][:2]:\n")],
    needs='a variable with three parents',
    breaks='a change of the third parent does not change the rates at once',
    demo=NET + '''
np.random.seed(1)
g, c = net(['A', 'B', 'C', 'D'], [2, 2, 2, 2], [('A', 'D'), ('B', 'D'), ('C', 'D')],
           lambda v, u: flip(0.05, 0.05) if v in 'AB' else flip(1.0, 1.0) if v == 'C' else flip(0.001, 0.001) if u[2] == 0 else flip(50.0, 50.0))
t = g.CTBN_Sample(max_tr=600)
a, cc, tm = t['C'].tolist(), t['D'].tolist(), t['Time'].tolist()
T = [0.0, 0.0]; M = [0, 0]
for i in range(len(t) - 2):
    T[a[i]] += tm[i + 1] - tm[i]; M[a[i]] += cc[i] != cc[i + 1]
check(20 < M[1] / T[1] < 100, 'rate of D under C = 1: %.1f' % (M[1] / T[1]))
''')

SEEDS['c19-uniform-target'] = dict(property='C19',
    edits=[(TG, "                cim_row /= sum(cim_row)\n", "                cim_row = cim_row / sum(cim_row) if cim_row.size < 4 else (cim_row > 0) / sum(cim_row > 0)\n")],
    needs='a variable with four or more states and unequal intensities in a row',
    breaks='the next state is drawn evenly among the reachable ones',
    demo=NET + '''
np.random.seed(1)
m = [[-10, 9.8, 0.1, 0.1], [9.8, -10, 0.1, 0.1], [9.8, 0.1, -10, 0.1], [9.8, 0.1, 0.1, -10]]
g, c = net(['A', 'B'], [4, 2], [('A', 'B')], lambda v, u: m if v == 'A' else flip(0.1, 0.1))
t = g.CTBN_Sample(max_tr=300)
k = sum(1 for x in t['A'] if x in (2, 3))
check(k < 60, 'states 2 and 3 in %d of 300 rows' % k)
''')

SEEDS['c20-short-lost'] = dict(property='C20',
    edits=[(TG, "        trajectories.append(trajectory)\n", "        if len(trajectory) > 1:\n            trajectories.append(trajectory)\n")],
    needs='an end time so short that no transition happens',
    breaks='no trajectory is returned for that bound',
    demo=NET + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
r = list(g.multi_trajectory(t_ends=[1e-9, 5.0, 1e-9]))
check(len(r) == 3, '%d trajectories for 3 bounds' % len(r))
''')

SEEDS['c20-fixed-seed-pool'] = dict(property='C20',
    edits=[(TG, "        trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)\n",
            "        random.seed((int(t_end) if t_end != -1 else max_tr) + os.getpid() % 2)\n        trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)\n"),
           (TG, "import re\n", "import os\nimport re\n")],
    needs='several trajectories with the same bound',
    breaks='trajectories of one call are copies of one another',
    demo=NET + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
r = [tuple(map(tuple, t.values.tolist())) for t in g.multi_trajectory(max_trs=[6] * 8)]
check(len(set(r)) == 8, '%d different trajectories of 8' % len(set(r)))
''')

EXP = NET + '''
def export(g, c, cols, cards, edges, trajs):
    d = tempfile.mkdtemp(); cwd = os.getcwd(); os.chdir(d)
    try:
        e = JsonExporter(pd.DataFrame({'Name': cols, 'Value': cards}), pd.DataFrame(edges, columns=['From', 'To']), c)
        for t in trajs:
            e.add_trajectory(t)
        e.out_file('x.json')
        im = JsonImporter(os.path.join(d, 'x.json'), 'samples', 'dyn.str', 'variables', 'Time', 'Name', 'dyn.cims')
        im.import_data(0)
        return im
    finally:
        os.chdir(cwd)
        os.unlink(os.path.join(d, 'x.json')); os.rmdir(d)
'''
SEEDS['c21-three-decimals'] = dict(property='C21',
    edits=[(JE, "                    cim = cim[comb[0]].cim\n", "                    cim = np.around(cim[comb[0]].cim, 3)\n")],
    needs='intensities with more than three decimals of a variable with one parent',
    breaks='the exported intensities are rounded',
    demo=EXP + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.2345, 0.0004))
im = export(g, c, ['A', 'B'], [2, 2], [('A', 'B')], [g.CTBN_Sample(max_tr=3)])
g2 = TrajectoryGenerator(im)
m = np.array(g2._cims['A'].actual_cims[0].cim)
m = np.array(g2._cims['B'].actual_cims[1].cim)
check(np.allclose(m, flip(1.2345, 0.0004), atol=1e-9), 'matrix %r' % m.tolist())
''')

SEEDS['c21-same-length-dropped'] = dict(property='C21',
    edits=[('utility/abstract_exporter.py', "        self._trajectories.append(trajectory)", "        if not any(t.shape == trajectory.shape and (t.iloc[:, 1:].values == trajectory.iloc[:, 1:].values).all() for t in self._trajectories):\n            self._trajectories.append(trajectory)")],
    needs='two trajectories that visit the same states at different times',
    breaks='the second one is not exported',
    demo=EXP + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
ts = [frame(['A', 'B'], [[0, 0, 0], [k + 1.0, 1, 0], [k + 2.5, -1, -1]]) for k in range(3)]
im = export(g, c, ['A', 'B'], [2, 2], [('A', 'B')], ts)
check(len(im.concatenated_samples) == 6, '%d records of 6' % len(im.concatenated_samples))
''')

SEEDS['c22-shifted-cardinality'] = dict(property='C22',
    edits=[(ST, "        self._nodes_indexes_arr = np.delete(self._nodes_indexes_arr, node_positional_indx)\n        self._nodes_vals_arr = np.delete(self._nodes_vals_arr, node_positional_indx)\n",
            "        self._nodes_vals_arr = np.delete(self._nodes_vals_arr, min(self._nodes_indexes_arr[node_positional_indx], len(self._nodes_vals_arr) - 1))\n        self._nodes_indexes_arr = np.delete(self._nodes_indexes_arr, node_positional_indx)\n")],
    needs='two removals, the second of a node behind the first one',
    breaks='the cardinality of another node is removed',
    demo='''
s = Structure(['A', 'B', 'C', 'D'], np.arange(4), np.array([2, 3, 4, 5]), [('A', 'B')], 4)
s.remove_node('A'); s.remove_node('B')
check([s.get_states_number(n) for n in ['C', 'D']] == [4, 5], 'cardinalities %r' % [s.get_states_number(n) for n in ['C', 'D']])
''')

SEEDS['c22-edge-kept'] = dict(property='C22',
    edits=[(ST, "if (from_node != node_id\n", "if (from_node != node_id or from_node == to_node\n")] if False else
          [(ST, "        return edge in self._edges_list", "        return edge in self._edges_list or (edge[1], edge[0]) in self._edges_list and edge[0] < edge[1]")],
    needs='an edge from a label that sorts behind its target',
    breaks='the reverse of an edge is reported as an edge',
    demo='''
s = Structure(['A', 'B', 'C'], np.arange(3), np.array([2, 3, 4]), [('C', 'A')], 3)
check(not s.contains_edge(('A', 'C')) and s.contains_edge(('C', 'A')), 'the reverse edge is reported')
''')

SEEDS['c22-parents-by-label'] = dict(property='C22',
    edits=[(NG, "sorted_parents = sorted(parents, key=lambda v: d[v])", "sorted_parents = sorted(parents, key=lambda v: (len(v), d[v]))")],
    needs='labels of different lengths, the longer one first',
    breaks='the parents are not in the order of the variables',
    demo='''
s = Structure(['Long', 'B', 'C'], np.arange(3), np.array([2, 3, 4]), [('Long', 'C'), ('B', 'C')], 3)
g = NetworkGraph(s); g.fast_init('C')
r = g.get_ordered_by_indx_set_of_parents('C')
check(list(r[0]) == ['Long', 'B'], 'parents %r' % (r[0],))
''')

SEEDS['c23-both-directions'] = dict(property='C23',
    edits=[(SE, "                complete_adj_matrix[i][j] = False\n", "                complete_adj_matrix[i][j] = False\n                if (edge[1], edge[0]) not in known_edges:\n                    complete_adj_matrix[j][i] = i > j and complete_adj_matrix[j][i]\n")],
    needs='a known edge from an earlier to a later variable and data in which the reverse edge does not exist',
    breaks='the reverse edge is protected too',
    demo=POOL + '''
s = sp(3)
r = StructureScoreBasedEstimator(s, known_edges=[('V0', 'V2')]).estimate_structure(iterations_number=0, disable_multiprocessing=True, optimizer='hill')
check(set(r) == {('V0', 'V2')}, 'edges %r' % sorted(r))
''')

SEEDS['c23-known-limit'] = dict(property='C23',
    edits=[(SE, "            for edge in known_edges:\n", "            for edge in known_edges[:tot_vars_count]:\n")],
    needs='more known edges than variables',
    breaks='known edges beyond the number of variables are not protected',
    demo=POOL + '''
s = sp(3)
known = [(a, b) for a in ['V0', 'V1', 'V2'] for b in ['V0', 'V1', 'V2'] if a != b]
r = StructureScoreBasedEstimator(s, known_edges=known).estimate_structure(iterations_number=0, disable_multiprocessing=True, optimizer='hill')
check(set(r) == set(known), 'edges %r' % sorted(r))
''')
