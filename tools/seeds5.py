"""Fifth round of planted bugs (see seeds.py): what they need lies at the edge of what the scenarios produce."""
from seeds4 import *
from seeds4 import SEEDS, DOC, SCORE, LEARN, FAKE, CTPC, IND, POOL, NET, EXP, NETW, STRONG

SEEDS['c01-before-zero'] = dict(property='C01',
    edits=[(AI, "        sample_frame.iloc[:, 0] = sample_frame.iloc[:, 0].diff().shift(-1)\n",
            "        sample_frame.iloc[:, 0] = sample_frame.iloc[:, 0].clip(lower=0).diff().shift(-1)\n")],
    needs='a trajectory with times before zero',
    breaks='the time elapsed before zero is lost',
    demo='''
im = SampleImporter(trajectory_list=[frame(['A'], [[-3.0, 0], [-1.0, 1], [2.0, 0]])], variables=pd.DataFrame({'Name': ['A'], 'Value': [2]}))
im.import_data()
d = im.concatenated_samples.iloc[:, 0].tolist()
check(d == [2.0, 3.0], 'durations %r' % d)
''')

SEEDS['c03-narrow-cards'] = dict(property='C03',
    edits=[(SP, "        vals = self._importer.variables.iloc[:, 1].to_numpy()\n", "        vals = self._importer.variables.iloc[:, 1].to_numpy().astype('int8')\n")],
    needs='a variable with more than 127 states',
    breaks='its cardinality in the structure is another one',
    demo='''
s = path(['A', 'B'], [200, 2], [[[0, 0, 0], [1, 150, 1], [2, 3, 0]]])
check([int(x) for x in s.structure.nodes_values] == [200, 2], 'cardinalities %r' % list(s.structure.nodes_values))
''')

SEEDS['c05-instant-state'] = dict(property='C05',
    edits=[(CIM, "        self._cim = ((self._cim.T + 1) / (self._state_residence_times + 1)).T\n",
            "        self._cim = ((self._cim.T * (self._state_residence_times > 0) + 1) / (self._state_residence_times + 1)).T\n")],
    needs='a state left only by transitions of zero duration',
    breaks='its intensities ignore the transitions',
    demo='''
s = path(['A'], [2], [[[0, 0], [0, 1], [3, 0], [3, 1]]])
c = params(s, 'A', [])
check(abs(c.actual_cims[0].cim[0][1] - 3.0) < 1e-9, 'intensity %r' % c.actual_cims[0].cim[0][1])
''')

SEEDS['c06-many-parents'] = dict(property='C06',
    edits=[(NG, "        if len(parents_values) > 0:\n", "        if len(parents_values) > 4:\n            parents_comb = np.stack(np.meshgrid(*tmp, indexing='ij'), -1).reshape(-1, len(parents_values))\n        elif len(parents_values) > 0:\n")],
    needs='a node with five or more parents',
    breaks='the combinations are listed in another order than the matrices',
    demo='''
cols = ['N%d' % i for i in range(6)]
r = random.Random(1)
rows, st = [], [0] * 6
for k in range(300):
    rows.append([float(k)] + list(st)); i = r.randrange(6); st[i] = 1 - st[i]
s = path(cols, [2] * 6, [rows])
c = params(s, 'N0', cols[1:])
for u, m in zip(c.p_combs, c.actual_cims):
    t = sum(1.0 for a, b in zip(rows, rows[1:]) if a[2:] == list(u) and a[1] == 0)
    check(abs(m.state_residence_times[0] - t) < 1e-9, 'configuration %r: %r, data %r' % (list(u), m.state_residence_times[0], t))
''')

SEEDS['c07-tau-floor'] = dict(property='C07',
    edits=[(FS, "        'calculate alpha_xxu as a uniform distribution'", "        tau_xu = max(tau_xu, 1e-3)\n        'calculate alpha_xxu as a uniform distribution'")],
    needs='an imaginary time below one thousandth',
    breaks='the score is that of another prior',
    demo=SCORE + '''
c = ConditionalIntensityMatrix(state_residence_times=np.array([5.0, 3.0]), state_transition_matrix=np.array([[2, 2], [1, 1]]))
got = FamScoreCalculator().get_fam_score(np.array([c]), 0.0001, 1)
check(abs(got - oracle([c], 0.0001, 1)) < 1e-9, 'score %r, closed form %r' % (got, oracle([c], 0.0001, 1)))
''')

SEEDS['c07-alpha-cap'] = dict(property='C07',
    edits=[(FS, "        'calculate alpha_xxu as a uniform distribution'", "        alpha_xu = min(alpha_xu, 50)\n        'calculate alpha_xxu as a uniform distribution'")],
    needs='an imaginary count above fifty',
    breaks='the score is that of another prior',
    demo=SCORE + '''
c = ConditionalIntensityMatrix(state_residence_times=np.array([5.0, 3.0]), state_transition_matrix=np.array([[2, 2], [1, 1]]))
got = FamScoreCalculator().get_fam_score(np.array([c]), 0.1, 80.0)
check(abs(got - oracle([c], 0.1, 80.0)) < 1e-6, 'score %r, closed form %r' % (got, oracle([c], 0.1, 80.0)))
''')

SEEDS['c08-direct-mapped'] = dict(property='C08',
    edits=[(SB, "        'inizialize the graph for a single node'\n        graph.fast_init(node_id) \n",
            "        'inizialize the graph for a single node'\n        graph.fast_init(node_id) \n        parents = graph._aggregated_info_about_nodes_parents[1]\n        memo = self.__dict__.setdefault('_memo', {})\n        slot = (node_id, sum(2 ** (int(p) % 5) for p in parents))\n        if slot in memo:\n            return memo[slot]\n"),
           (SB, "        return score \n", "        memo[slot] = score\n        return score \n")],
    needs='an estimator over six or more variables that scores two parents five columns apart for one node',
    breaks='the second parent set gets the score of the first',
    demo='''
cols = ['N%d' % i for i in range(7)]
r = random.Random(1)
rows, st = [], [0] * 7
for k in range(300):
    rows.append([float(k)] + list(st)); i = r.randrange(7); st[i] = 1 - st[i]
s = path(cols, [2] * 7, [rows])
def score(e, p):
    g = NetworkGraph(s.structure)
    g.add_edges([(p, 'N6')])
    return e.get_score_from_graph(g, 'N6')
e = StructureScoreBasedEstimator(s)
a = [score(e, p) for p in cols[:6]]
b = [score(StructureScoreBasedEstimator(s), p) for p in cols[:6]]
check(a == b, '%r %r' % (a, b))
''')

for name, prop, file in (('c09-tolerance', 'C09', HC), ('c10-tolerance', 'C10', TS)):
    SEEDS[name] = dict(property=prop,
        edits=[(file, "            if current_score > actual_best_score:\n", "            if current_score - actual_best_score > 1e-6 * abs(actual_best_score):\n")],
        needs='an improvement that is tiny compared with the score',
        breaks='the improvement is not kept',
        demo=FAKE + '''
r, seen = search(%s, 3, lambda ps: -1000000.0 + 0.5 * len(ps), iterations_number=200)
check(len(r) == 2, 'parents %%r' %% sorted(r))
''' % ('HillClimbing' if prop == 'C09' else 'TabuSearch, tabu_length=1, tabu_rules_duration=1'.split(',')[0]) if prop == 'C09' else FAKE + '''
r, seen = search(TabuSearch, 3, lambda ps: -1000000.0 + 0.5 * len(ps), iterations_number=200, tabu_length=1, tabu_rules_duration=2)
check(len(r) == 2, 'parents %r' % sorted(r))
''')

SEEDS['c12-empty-configuration'] = dict(property='C12',
    edits=[(CB, "        exp_alfa = self._exp_test_sign\n", "        if not r2s.any() and r1s.sum() > 20:\n            return False\n        exp_alfa = self._exp_test_sign\n")],
    needs='a state of the candidate under which nothing was observed, with more than twenty transitions without it',
    breaks='the candidate is judged dependent',
    demo=IND + '''
c1 = cim([10, 10], [[0, 15], [15, 0]])
c2 = cim([0, 0], [[0, 0], [0, 0]])
F = [c2.cim[i][i] / c1.cim[i][i] for i in range(2)]
s = verdict(c1, c2, 0.1, 0.1)
check(s, 'dependent without data')
''')

SEEDS['c12-whole-thumb'] = dict(property='C12',
    edits=[(CB, "(np.sum(np.diagonal(M1)) / thumb_value) < self._thumb_threshold:", "(np.sum(np.diagonal(M1)) // thumb_value) < self._thumb_threshold:")],
    needs='a threshold that is no whole number',
    breaks='a test with enough transitions is said to lack data',
    demo=IND + '''
c1 = cim([10, 10, 10], [[0, 4, 4], [4, 0, 4], [4, 2, 0]])
check(verdict(c1, c1, 0.1, 0.1, 8.0, 2.5), '22 transitions for 8 degrees of freedom lack data at 2.5')
''')

SEEDS['c14-single-variable'] = dict(property='C14',
    edits=[(CB, "        cpu_count = multiprocessing.cpu_count()\n", "        cpu_count = min(multiprocessing.cpu_count(), n_nodes - 1)\n")],
    needs='a data set of one variable, learned in worker processes',
    breaks='learning ends with an error',
    demo='''
s = path(['A'], [2], [[[0, 0], [1, 1], [3, 0], [4, 1]]])
try:
    r = StructureConstraintBasedEstimator(s, 0.1, 0.1).estimate_structure()
except Exception as x:
    check(False, repr(x))
check(len(r) == 0, repr(r))
''')

SEEDS['c15-saved-over'] = dict(property='C15',
    edits=[(SE, "        with open(file_path, 'w') as f:\n            json.dump(res, f)\n", "        with open(file_path, 'r+' if os.path.exists(file_path) else 'w') as f:\n            json.dump(res, f)\n"),
           (SE, "import itertools\nimport json\n", "import itertools\nimport json\nimport os\n")],
    needs='a result saved over an older one that is longer',
    breaks='the file ends with the rest of the older result',
    demo='''
s = path(['A', 'B', 'C'], [2, 2, 2], [[[float(i), i % 2, (i // 2) % 2, (i // 3) % 2] for i in range(30)]])
class Est(StructureConstraintBasedEstimator):
    def complete_test(self, *a, **k):
        return self.say
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.json')
    e = Est(s, 0.1, 0.1)
    for e.say in (False, True):
        e.estimate_structure(disable_multiprocessing=True)
        e.save_results(f)
    try:
        n = len(json.load(open(f))['links'])
    except ValueError as x:
        n = repr(x)
check(n == 0, 'links %r' % n)
''')

SEEDS['c16-many-edges'] = dict(property='C16',
    edits=[(GEN, "            edges = edges[:n_edges]\n", "            edges = edges[:min(n_edges, 8 * len(self._labels))]\n")],
    needs='ten or more variables and a fixed density close to one',
    breaks='edges are missing',
    demo='''
random.seed(1); np.random.seed(1)
g = NetworkGenerator(['N%d' % i for i in range(11)], [2] * 11)
g.generate_graph(0.9, True)
check(len(list(g.graph.edges)) == 99, '%d edges' % len(list(g.graph.edges)))
''')

SEEDS['c17-wide-rows'] = dict(property='C17',
    edits=[(GEN, "            row /= (sum(row) - row[i])\n", "            row /= (sum(row[:12]) - row[i])\n")],
    needs='a variable with more than twelve states',
    breaks='the rates of a row do not add up to the rate of leaving the state',
    demo='''
np.random.seed(1); random.seed(1)
g = NetworkGenerator(['A'], [15])
g.generate_graph(0.0); g.generate_cims(1, 3)
m = g.cims['A'].actual_cims[0].cim
check(all(m[i][j] >= 0 for i in range(15) for j in range(15) if i != j) and all(abs(sum(r)) < 0.002 for r in m) and all(1 <= -m[i][i] <= 3 for i in range(15)), 'not an intensity matrix')
''')

SEEDS['c20-batches'] = dict(property='C20',
    edits=[(TG, "        for p in processes:\n            p.start()\n",
            "        size = 8\n        processes = processes[:max(size, len(processes) // size * size)]\n        for p in processes:\n            p.start()\n")],
    needs='more than eight trajectories, not a multiple of eight',
    breaks='the last trajectories are never generated',
    demo=NETW + '''
v, d, c = network()
t = TrajectoryGenerator(variables=v, dyn_str=d, dyn_cims=c).multi_trajectory(max_trs=[3] * 11)
check(len(t) == 11, '%d trajectories' % len(t))
os.chdir('/')
''')

SEEDS['c21-mixed-names'] = dict(property='C21',
    edits=[(JE, "                if len(parents) != 0:\n", "                if len(parents) != 0 and parents[0] != l + 'S':\n")],
    needs='a variable whose first parent is named as the variable with an S behind it',
    breaks='all its configurations are written under one key',
    demo=NET + '''
os.chdir(tempfile.mkdtemp())
q = {('A', (0,)): 1.0, ('A', (1,)): 5.0, ('AS', ()): 2.0}
g, c = net(['A', 'AS'], [2, 2], [('AS', 'A')], lambda v, u: flip(q[(v, u)], q[(v, u)]))
e = JsonExporter(pd.DataFrame({'Name': ['A', 'AS'], 'Value': [2, 2]}), pd.DataFrame([('AS', 'A')], columns=['From', 'To']), c)
e.out_file('x.json')
k = sorted(json.load(open('x.json'))[0]['dyn.cims']['A'])
os.chdir('/')
check(k == ['AS=0', 'AS=1'], 'keys %r' % k)
''')

SEEDS['c23-known-beyond-limit'] = dict(property='C23',
    edits=[(TS, "                    if len(parents_list) >= self.max_parents :\n                        'the parents known a priori can not be replaced'\n",
            "                    if len(parents_list) > self.max_parents + 1:\n                        parent_removed = (choice(parents_list), self.node_id)\n                        graph.remove_edges([parent_removed])\n                    elif len(parents_list) >= self.max_parents :\n                        'the parents known a priori can not be replaced'\n")],
    needs='tabu search with at least two more known parents than the limit',
    breaks='known parents are replaced',
    demo=FAKE + '''
fun = lambda ps: 1.0 if 'N4' in ps else 0.0
r, seen = search(TabuSearch, 5, fun, known=[('N1', 'N0'), ('N2', 'N0'), ('N3', 'N0')], iterations_number=60, max_parents=1, tabu_length=1, tabu_rules_duration=2)
check({'N1', 'N2', 'N3'} <= r, 'parents %r' % sorted(r))
''')

SEEDS['c22-columns-after-removal'] = dict(property='C22',
    edits=[(NG, "        p_indxes = [get_node_indx(node) for node in sorted_parents]\n",
            "        p_indxes = [get_node_indx(node) for node in sorted_parents] if len(nodes) > 1 + len(parents) else \\\n            [d[node] for node in sorted_parents]\n")],
    needs='a node removed, and another node with all the remaining ones as parents',
    breaks='the columns of its parents are positions instead',
    demo='''
st = Structure(['A', 'B', 'C'], np.array([0, 1, 2]), np.array([2, 3, 4]), [('B', 'C')], 3)
g = NetworkGraph(st)
g.add_nodes(st.nodes_labels); g.add_edges(st.edges)
g.remove_node('A')
r = g.get_ordered_by_indx_set_of_parents('C')
check([int(x) for x in r[1]] == [1], 'columns %r' % (r[1],))
''')

SEEDS['c04-few-columns'] = dict(property='C04',
    edits=[(PE, "        trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]\n",
            "        trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int8) >= 0]\n")],
    needs='a variable in a state above 127',
    breaks='transitions to those states are not counted',
    demo='''
s = path(['A'], [200], [[[0, 0], [1, 150], [2, 3], [3, 1]]])
c = params(s, 'A', [])
check(int(c.actual_cims[0].state_transition_matrix[0][150]) == 1, 'transition 0 -> 150 not counted')
''')
