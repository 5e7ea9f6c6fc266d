"""Seventh round of planted bugs (see seeds.py)."""
from seeds6 import *
from seeds6 import SEEDS, DOC, SCORE, LEARN, FAKE, CTPC, IND, POOL, NET, EXP, NETW, STRONG

SEEDS['c01-columns-by-position'] = dict(property='C01',
    edits=[(AI, "        self._concatenated_samples = pd.concat(proc_samples_list)\n",
            "        self._concatenated_samples = pd.DataFrame(np.concatenate([sample.to_numpy() for sample in proc_samples_list]),\n                                                  columns=proc_samples_list[0].columns)\n")],
    needs='trajectories whose variables are listed in different orders',
    breaks='the states of two variables are swapped in some trajectories',
    demo='''
a = frame(['A', 'B'], [[0, 0, 1], [1, 1, 1], [2, 1, 0]])
b = frame(['B', 'A'], [[0, 1, 0], [1, 0, 0], [3, 0, 1]])
im = SampleImporter(trajectory_list=[a, b], variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]}))
im.import_data()
s = SamplePath(im); s.build_trajectories()
want = [[0, 1, 1, 1], [1, 1, 1, 0], [0, 1, 0, 0], [0, 0, 1, 0]]
check(s.trajectories.complete_trajectory.tolist() == want, 'records %r' % s.trajectories.complete_trajectory.tolist())
''')

SEEDS['c01-hundred-trajectories'] = dict(property='C01',
    edits=[(AI, "        self._concatenated_samples = pd.concat(proc_samples_list)\n",
            "        step = 64\n        whole = len(proc_samples_list) // step * step or len(proc_samples_list)\n"
            "        self._concatenated_samples = pd.concat([pd.concat(proc_samples_list[i:i + step]) for i in range(0, whole, step)])\n")],
    needs='more than 64 trajectories',
    breaks='the records of the last ones are lost',
    demo='''
n = 70
s = path(['A', 'B'], [2, 2], [[[0, 0, 0], [1 + i, 1, 0], [2 + i, 1, 1]] for i in range(n)])
check(len(s.trajectories.times) == 2 * n, '%d records of %d' % (len(s.trajectories.times), 2 * n))
''')

SEEDS['c03-shorter-of-two'] = dict(property='C03',
    edits=[(SP, "        if self._importer.sorter != self._importer.variables.iloc[:, 0].to_list():\n",
            "        if any(a != b for a, b in zip(self._importer.sorter, self._importer.variables.iloc[:, 0].to_list())):\n")],
    needs='a table of variables with one more (or less) at the end than the data has columns',
    breaks='it is accepted',
    demo='''
im = SampleImporter(trajectory_list=[frame(['A', 'B'], [[0, 0, 1], [1, 1, 1]])], variables=pd.DataFrame({'Name': ['A', 'B', 'C'], 'Value': [2, 2, 2]}))
im.import_data()
s = SamplePath(im); s.build_trajectories()
try:
    s.build_structure()
except RuntimeError:
    pass
else:
    check(False, 'accepted %r' % s.structure.nodes_labels)
''')

SEEDS['c04-diagonal-memo'] = dict(property='C04',
    edits=[(PE, "        diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],\n                                dtype=np.int64)\n",
            "        memo = ParametersEstimator._diagonals\n        if M.size not in memo:\n            memo[M.size] = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],\n                                    dtype=np.int64)\n        diag_indices = memo[M.size]\n"),
           (PE, "    def __init__(self, trajectories: Trajectory", "    _diagonals = {}\n\n    def __init__(self, trajectories: Trajectory")],
    needs='two estimations whose tables have the same number of entries and different shapes (9 configurations of 2 states, 4 of 3)',
    breaks='off-diagonal counts are overwritten, or an error',
    demo=LEARN + '''
s = path(['A', 'B', 'C'], [2, 3, 3], data(['A', 'B', 'C'], [2, 3, 3], 200))
p = path(['A', 'B', 'C'], [3, 2, 2], data(['A', 'B', 'C'], [3, 2, 2], 200))
params(s, 'A', ['B', 'C'])
try:
    c = params(p, 'A', ['B', 'C']).actual_cims
except Exception as e:
    check(False, repr(e))
t = p.trajectories.complete_trajectory
n = sum(1 for r in t if r[0] != r[3])
check(sum(int(np.trace(x.state_transition_matrix)) for x in c) == n and sum(int(x.state_transition_matrix.sum()) for x in c) == 2 * n, 'counts %r' % [x.state_transition_matrix.tolist() for x in c])
''')

SEEDS['c06-memo-of-first-mark'] = dict(property='C06',
    edits=[(SC, "            flat_indxs = np.argwhere(np.all(self._p_combs[:, mask_arr] == comb, axis=1)).ravel()\n",
            "            memo = self.__dict__.setdefault('_selected', {})\n            key = (int(np.argmax(mask_arr)), tuple(comb))\n            if key not in memo:\n                memo[key] = np.argwhere(np.all(self._p_combs[:, mask_arr] == comb, axis=1)).ravel()\n            flat_indxs = memo[key]\n")],
    needs='two selections with the same states of two pairs of parents that share the first',
    breaks='the second selection returns the matrices of the first',
    demo=LEARN + '''
s = path(['A', 'B', 'C', 'D'], [2] * 4, data(['A', 'B', 'C', 'D'], [2] * 4, 100))
c = params(s, 'A', ['B', 'C', 'D'])
for mask in ([True, True, False], [True, False, True]):
    got = c.filter_cims_with_mask(np.array(mask), np.array([1, 0]))
    want = [m for m, u in zip(c.actual_cims, c.p_combs) if list(u[np.array(mask)]) == [1, 0]]
    check([id(x) for x in got] == [id(x) for x in want], 'mask %r' % mask)
''')

SEEDS['c08-memo-by-identity'] = dict(property='C08',
    edits=[(SB, "        params_estimation = ParametersEstimator(self._sample_path.trajectories, graph)\n",
            "        key = (id(self._sample_path.trajectories), node_id, tuple(graph.get_ordered_by_indx_set_of_parents(node_id)[1]), self.tau_xu, self.alpha_xu)\n"
            "        if key in StructureScoreBasedEstimator._known_scores:\n            return StructureScoreBasedEstimator._known_scores[key]\n"
            "        params_estimation = ParametersEstimator(self._sample_path.trajectories, graph)\n"),
           (SB, "        score = fam_score_obj.get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)\n",
            "        score = fam_score_obj.get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)\n        StructureScoreBasedEstimator._known_scores[key] = score\n"),
           (SB, "    def __init__(self, sample_path: SamplePath, tau_xu", "    _known_scores = {}\n\n    def __init__(self, sample_path: SamplePath, tau_xu")],
    needs='a sample path that is made after another one was dropped',
    breaks='scores of the data that is gone are returned',
    demo=LEARN + '''
for k in range(40):
    s = path(['A', 'B'], [2, 2], data(['A', 'B'], [2, 2], 30, seed=k))
    e = StructureScoreBasedEstimator(s)
    g = NetworkGraph(s.structure)
    got = e.get_score_from_graph(g, 'A')
    want = FamScoreCalculator().get_fam_score(params(s, 'A', []).actual_cims, 0.1, 1)
    check(abs(got - want) < 1e-9, 'data %d: score %r, its statistics give %r' % (k, got, want))
    del s, e, g
''')

SEEDS['c09-zero-limit'] = dict(property='C09',
    edits=[(HC, "                if self.max_parents is not None:\n", "                if self.max_parents:\n")],
    needs='a parent limit of zero',
    breaks='it is taken for no limit',
    demo=FAKE + '''
r, v = search(HillClimbing, 4, lambda ps: float(len(ps)), max_parents=0, iterations_number=20)
check(not r, 'parents %r' % sorted(r))
''')

SEEDS['c10-zero-length'] = dict(property='C10',
    edits=[(TS, "        if self.tabu_length is None:\n", "        if not self.tabu_length:\n")],
    needs='a tabu list of length zero',
    breaks='it is taken for the default length',
    demo=FAKE + '''
def repeats(seed):
    r, v = search(TabuSearch, 6, lambda ps: -float(len(ps)), seed=seed, iterations_number=5, tabu_length=0, tabu_rules_duration=50)
    asked = [x for s in v[1:] for x in s]
    return len(asked) - len(set(asked))
check(any(repeats(k) for k in range(20)), 'a candidate is never asked twice')
''')

SEEDS['c11-level-snapshot'] = dict(property='C11',
    edits=[(CO, "            parent_indx = 0\n", "            parent_indx = 0\n            level = u[:]\n"),
           (CO, "generate_possible_sub_sets_of_size(u, b, test_parent)", "generate_possible_sub_sets_of_size(level, b, test_parent)")],
    needs='a parent that is removed earlier at the same level, and a test that only accepts given that one',
    breaks='an edge is removed given a node that is no parent any more',
    demo=CTPC + '''
r, q = ctpc(4, lambda p, s: (p == 'N1' and len(s) == 1) or (p == 'N2' and 'N1' in s))
gone = set()
check(r == {'N2', 'N3'}, 'parents %r' % sorted(r))
''')

SEEDS['c12-at-threshold'] = dict(property='C12',
    edits=[(CB, "(np.sum(np.diagonal(M1)) / thumb_value) < self._thumb_threshold", "(np.sum(np.diagonal(M1)) / thumb_value) <= self._thumb_threshold")],
    needs='exactly as many transitions as the threshold asks for',
    breaks='the data is called too little',
    demo=IND + '''
c = cim([10., 10., 10.], [[0, 2, 2], [2, 0, 2], [2, 2, 0]])
check(verdict(c, c, 0.05, 0.05, 4.0, 3), 'twelve transitions, four degrees of freedom, threshold 3: refused')
''')

SEEDS['c13-shared-cache'] = dict(property='C13',
    edits=[(CB, "        self._cache = Cache()\n", "        self._cache = StructureConstraintBasedEstimator._statistics\n"),
           (CB, "    def __init__(self, sample_path: SamplePath, exp_test_alfa", "    _statistics = Cache()\n\n    def __init__(self, sample_path: SamplePath, exp_test_alfa")],
    needs='tests by estimators of different data in one process',
    breaks='statistics of the other data are used',
    demo=POOL + '''
cols = ['V0', 'V1', 'V2']
a = path(cols, [2] * 3, data(cols, [2] * 3, 400, 2, 5))
b = path(cols, [2] * 3, data(cols, [2] * 3, 400, 2, 6, follow))
def test(s):
    return StructureConstraintBasedEstimator(s, 0.1, 0.1).complete_test('V0', 'V1', [], 2, 3, 0, 1)
alone = test(b), 
check(test(a) != test(b), 'dependent and independent data get the same verdict')
''')

SEEDS['c17-many-configurations'] = dict(property='C17',
    edits=[(GEN, "                    cim = self.__generate_cim(min_val, max_val, self._vals[i])\n                    node_cims.append(ConditionalIntensityMatrix(cim = cim))\n            else:",
            "                    cim = self.__generate_cim(min_val, max_val, self._vals[i]) if len(node_cims) < 64 else node_cims[len(node_cims) - 64].cim\n                    node_cims.append(ConditionalIntensityMatrix(cim = cim))\n            else:")],
    needs='a variable with more than 64 configurations of its parents',
    breaks='configurations share their matrices',
    demo='''
g = NetworkGenerator(['A', 'B', 'C'], [9, 9, 2])
g.generate_graph(1.0, True); g.generate_cims(1, 3)
m = [c.cim.tobytes() for c in g.cims['C'].actual_cims]
check(len(m) == 81 and len(set(m)) == 81, '%d different matrices of %d' % (len(set(m)), len(m)))
''')

SEEDS['c18-zero-transitions'] = dict(property='C18',
    edits=[(TG, "            if (max_tr != -1 and n_tr == max_tr)", "            if (max_tr > 0 and n_tr == max_tr)")],
    needs='a bound of no transitions at all',
    breaks='it is taken for no bound',
    demo=NET + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
t = g.CTBN_Sample(t_end=30.0, max_tr=0)
check(len(t) == 1, '%d rows' % len(t))
''')

SEEDS['c19-joined-states'] = dict(property='C19',
    edits=[(TG, "                    cim_obj = self._cims[self._vnames[i]].filter_cims_with_mask(np.array([True for p in self._parents[self._vnames[i]]]), \n                        [current_values.at[p] for p in self._parents[self._vnames[i]]])\n",
            "                    states = [current_values.at[p] for p in self._parents[self._vnames[i]]]\n"
            "                    memo = self.__dict__.setdefault('_selected', {})\n                    key = self._vnames[i] + ''.join(map(str, states))\n"
            "                    if key not in memo:\n                        memo[key] = self._cims[self._vnames[i]].filter_cims_with_mask(np.array([True for p in self._parents[self._vnames[i]]]), states)\n"
            "                    cim_obj = memo[key]\n")],
    needs='a variable with two parents of eleven states or more',
    breaks='the matrix of (1, 10) is used for (11, 0), whichever was met first',
    demo=NET + '''
cols, cards = ['A', 'B', 'C'], [12, 12, 2]
def rate(v, u):
    if v != 'C':
        m = np.full((12, 12), 0.001); i = np.arange(12)
        for x in range(12):
            m[x] = 0.0; m[x][(x + 1) % 12] = 0.4 if v == 'A' else 0.5; m[x][x] = -m[x].sum()
        return m
    q = 0.01 if u == (1, 11) else 30.0 if u == (11, 1) else 1.0
    return flip(q, q)
g, c = net(cols, cards, [('A', 'C'), ('B', 'C')], rate)
np.random.seed(1)
time, jumps = {}, {}
t = g.CTBN_Sample(max_tr=16000).to_numpy(dtype=float)
for a, b in zip(t, t[1:-1]):
    u = (int(a[1]), int(a[2]))
    time[u] = time.get(u, 0) + b[0] - a[0]; jumps[u] = jumps.get(u, 0) + (a[3] != b[3])
r = [jumps.get(u, 0) / time[u] if u in time else None for u in ((1, 11), (11, 1))]
check((r[0] is None or r[0] < 5) and (r[1] is None or r[1] > 5), 'rates %r' % r)
''')

SEEDS['c21-six-digits'] = dict(property='C21',
    edits=[(JE, "                json_cims[l][comb_key] = [dict([(str(i), float(val)) for i, val in enumerate(row)]) for row in cim]\n", "                json_cims[l][comb_key] = [dict([(str(i), float(val)) for i, val in enumerate(row)]) for row in cim]\n                for row in json_cims[l][comb_key]:\n                    row.update((state, float('%.6g' % val)) for state, val in row.items())\n")],
    needs='an intensity of more than six digits',
    breaks='it is rounded',
    demo=EXP + '''
cols, cards = ['A', 'B'], [2, 2]
g, c = net(cols, cards, [('A', 'B')], lambda v, u: flip(123.4567, 7.0))
im = export(g, c, cols, cards, [('A', 'B')], [g.CTBN_Sample(max_tr=5)])
m = pd.DataFrame(im._cims['A']['A']).to_numpy()
check(m.tolist() == c['A'].actual_cims[0].cim.tolist(), 'matrix %r' % m.tolist())
''')

SEEDS['c22-substring'] = dict(property='C22',
    edits=[(ST, "        self._edges_list = [(from_node, to_node) for (from_node, to_node) in self._edges_list if (from_node != node_id\n                                                                                        and to_node != node_id)]\n",
            "        self._edges_list = [(from_node, to_node) for (from_node, to_node) in self._edges_list if (node_id not in from_node\n                                                                                        and node_id not in to_node)]\n")],
    needs='a removed node whose label is part of another label',
    breaks='edges of the other node disappear',
    demo='''
s = Structure(['A', 'AB', 'C'], np.arange(3), np.array([2, 2, 2]), [('AB', 'C'), ('A', 'C')], 3)
s.remove_node('A')
check(s.edges == [('AB', 'C')], 'edges %r' % s.edges)
''')

SEEDS['c23-shifted-index'] = dict(property='C23',
    edits=[(CO, "                if self.structure_estimator._removable_edges_matrix[i][j]:\n", "                if self.structure_estimator._removable_edges_matrix[i - len(other_nodes) + len(u)][j]:\n".replace("i - len(other_nodes) + len(u)", "(i + len(self.structure_estimator._nodes) - 1 - len(u)) % len(self.structure_estimator._nodes)"))],
    needs='a known edge that is reached after another parent was removed',
    breaks='it is tested and removed',
    demo=CTPC + '''
r, q = ctpc(4, lambda p, s: True, [('N2', 'N0')])
check(r == {'N2'}, 'parents %r' % sorted(r))
''')

SEEDS['c07-single-precision'] = dict(property='C07',
    edits=[(FS, "        return np.sum([self.variable_cim_xu_marginal_likelihood_q(cim, tau_xu, alpha_xu) for cim in cims])", "        return np.sum(np.array([self.variable_cim_xu_marginal_likelihood_q(cim, tau_xu, alpha_xu) for cim in cims], dtype=np.float32))")],
    needs='counts in the thousands',
    breaks='the score is rounded to seven digits',
    demo=SCORE + '''
c = [ConditionalIntensityMatrix(state_residence_times=np.array([50.0 + k, 30.0]), state_transition_matrix=np.array([[2000 + k, 2000 + k], [1999, 1999]])) for k in range(5)]
got = FamScoreCalculator().get_fam_score(np.array(c), 0.1, 1)
check(abs(got - oracle(c, 0.1, 1)) < 1e-5, 'score %r, closed form %r' % (got, oracle(c, 0.1, 1)))
''')

SEEDS['c15-matrix-kept'] = dict(property='C15',
    edits=[(SE, "        return nx.adj_matrix(self._complete_graph, self._nodes).toarray().astype(bool)\n",
            "        edges = self._complete_graph.number_of_edges()\n        if getattr(self, '_adjacency', (None,))[0] != edges:\n            self._adjacency = (edges, nx.adj_matrix(self._complete_graph, self._nodes).toarray().astype(bool))\n        return self._adjacency[1]\n")],
    needs='the matrix asked for before and after learning another structure with as many edges',
    breaks='the matrix is that of the first structure',
    demo=FAKE + '''
cols = ['A', 'B', 'C']
s = path(cols, [2] * 3, [[[0, 0, 0, 0], [1, 1, 1, 1], [2, 0, 0, 0]]])
e = StructureScoreBasedEstimator(s)
for want in ([('A', 'B')], [('C', 'A')]):
    e.estimate_parents = lambda n, *a, want=want: [x for x in want if x[1] == n]
    e.estimate_structure(disable_multiprocessing=True)
    m = e.adjacency_matrix()
    check([(cols[i], cols[j]) for i in range(3) for j in range(3) if m[i][j]] == want, 'matrix %r, edges %r' % (m.tolist(), want))
''')
