"""Eighth round of planted bugs (see seeds.py)."""
from seeds7 import *
AE = 'utility/abstract_exporter.py'
from seeds7 import SEEDS, DOC, SCORE, LEARN, FAKE, CTPC, IND, POOL, NET, EXP, NETW, STRONG

SEEDS['c01-blocks'] = dict(property='C01',
    edits=[(AI, "        shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')\n",
            "        block = 1 << 14\n        shifted_cols = pd.concat([sample_frame[columns_header].iloc[i:i + block].shift(-1) for i in range(0, max(1, len(sample_frame)), block)]).fillna(0).astype('int32')\n")],
    needs='a trajectory of more than 16384 rows',
    breaks='the state after the last row of a block is 0',
    demo='''
n = 16400
s = path(['A'], [2], [[[i, 1] for i in range(n)]])
check(bool((s.trajectories.complete_trajectory[:, 1] == 1).all()), 'states after: %r' % np.unique(s.trajectories.complete_trajectory[:, 1], return_counts=True)[1].tolist())
''')

SEEDS['c04-short-counts'] = dict(property='C04',
    edits=[(PE, "minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])", "minlength=scalar_indexing[-1]).astype(np.uint16).reshape(-1, M.shape[1], M.shape[2])")],
    needs='more than 65535 transitions of one kind',
    breaks='the count starts again at 0',
    demo='''
n = 140000
s = path(['A'], [2], [[[i, i % 2] for i in range(n)]])
m = params(s, 'A', []).actual_cims[0].state_transition_matrix.tolist()
check(m == [[70000, 70000], [69999, 69999]], 'transitions %r' % m)
''')

SEEDS['c03-index-of-row'] = dict(property='C03',
    edits=[(SP, "            Trajectory(self._importer.build_list_of_samples_array(self._importer.concatenated_samples),\n", "            Trajectory(self._importer.build_list_of_samples_array(self._importer.concatenated_samples[:1 << 16]),\n")],
    needs='more than 65536 records',
    breaks='those beyond are lost',
    demo='''
n = 65540
s = path(['A'], [2], [[[i, i % 2] for i in range(n)]])
check(s.trajectories.size() == n - 1, '%d records of %d' % (s.trajectories.size(), n - 1))
''')

SEEDS['c20-few-seeds'] = dict(property='C20',
    edits=[(TG, "        trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)\n",
            "        random.seed(random.randint(500))\n        trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)\n")],
    needs='many trajectories, two of which happen to start their worker with the same one of 500 seeds',
    breaks='they are copies of one another',
    demo=NET + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
np.random.seed(3)
r = [tuple(map(tuple, t.values.tolist())) for _ in range(3) for t in g.multi_trajectory(max_trs=[6] * 30)]
check(len(set(r)) == 90, '%d different trajectories of 90' % len(set(r)))
''')

SEEDS['c19-two-children'] = dict(property='C19',
    edits=[(TG, "                for i, v in enumerate(self._parents):\n                    if self._vnames[next] in self._parents[v]:\n                        time[i] = np.NaN\n",
            "                children = [i for i, v in enumerate(self._parents) if self._vnames[next] in self._parents[v]]\n                for i in children[:2]:\n                    time[i] = np.NaN\n")],
    needs='a variable with three children',
    breaks='the third one keeps the clock drawn under the previous state of the parent',
    demo=NET + '''
np.random.seed(1)
g, c = net(['A', 'B', 'C', 'D'], [2] * 4, [('A', 'B'), ('A', 'C'), ('A', 'D')],
           lambda v, u: flip(1.0, 1.0) if v != 'D' else (flip(0.001, 0.001) if u == (0,) else flip(50.0, 50.0)))
t = g.CTBN_Sample(max_tr=600)
a, d, tm = t['A'].tolist(), t['D'].tolist(), t['Time'].tolist()
T = [0.0, 0.0]; M = [0, 0]
for i in range(len(t) - 2):
    T[a[i]] += tm[i + 1] - tm[i]; M[a[i]] += d[i] != d[i + 1]
check(20 < M[1] / T[1] < 100, 'rate of D under A = 1: %.1f' % (M[1] / T[1]))
''')

SEEDS['c21-single-row'] = dict(property='C21',
    edits=[(AE, "        self._trajectories.append(trajectory)\n", "        if len(trajectory) > 1:\n            self._trajectories.append(trajectory)\n")],
    needs='a trajectory without a transition among others',
    breaks='it is not in the document',
    demo=EXP + '''
cols, cards, edges = ['A', 'B'], [2, 2], [('A', 'B')]
g, c = net(cols, cards, edges, lambda v, u: flip(1.0, 1.0))
np.random.seed(2)
ts = [g.CTBN_Sample(max_tr=k) for k in (3, 0, 2)]
os.chdir(tempfile.mkdtemp())
e = JsonExporter(pd.DataFrame({'Name': cols, 'Value': cards}), pd.DataFrame(edges, columns=['From', 'To']), c)
for t in ts:
    e.add_trajectory(t)
e.out_file('x.json')
n = json.load(open('x.json'))[0]['samples']
os.unlink('x.json')
check([len(t) for t in n] == [4, 1, 3], 'rows %r' % [len(t) for t in n])
''')

SEEDS['c25-no-two-cycles'] = dict(property='C25',
    edits=[(CB, "        self._complete_graph.add_edges_from(edges)\n", "        edges = {(i, j) for i, j in edges if (j, i) not in edges or i < j}\n        self._complete_graph.add_edges_from(edges)\n")],
    needs='two variables that are parents of one another',
    breaks='one of the two edges is dropped',
    demo=STRONG + '''
net = strong(['A', 'B'], {'B': ['A'], 'A': ['B']}, {'A': 1.0, 'B': 1.0}, 6.0)
np.random.seed(4)
tg = TrajectoryGenerator(variables=net[0], dyn_str=net[1], dyn_cims=net[2])
f = tg.CTBN_Sample(max_tr=2500)
im = SampleImporter(trajectory_list=[f], variables=net[0]); im.import_data()
s = SamplePath(im); s.build_trajectories(); s.build_structure()
r = StructureConstraintBasedEstimator(s, 1e-6, 1e-6).estimate_structure(disable_multiprocessing=True)
check(set(r) == {('A', 'B'), ('B', 'A')}, 'learned %r' % sorted(r))
''')

SEEDS['c11-few-sets'] = dict(property='C11',
    edits=[(CO, "                    for parents_set in S:\n", "                    for parents_set in (S if b < 3 else itertools.islice(S, 20)):\n")],
    needs='a separating set of three variables that is not among the first twenty of its size',
    breaks='the edge stays',
    demo=CTPC + '''
r, q = ctpc(9, lambda p, s: p == 'N1' and s == {'N6', 'N7', 'N8'})
check('N1' not in r, 'parents %r' % sorted(r))
''')

SEEDS['c26-warm-generator'] = dict(property='C26',
    edits=[(TG, "        n_tr = 0\n        self._generated_trajectory = None\n", "        n_tr = 0\n        if self._generated_trajectory_before():\n            random.random()\n        self._generated_trajectory = None\n"),
           (TG, "    def worker(self, t_end, max_tr, trajectories, seed = None):", "    def _generated_trajectory_before(self):\n        return len(getattr(self, '_generated_trajectory', None) if getattr(self, '_generated_trajectory', None) is not None else []) > 50\n\n    def worker(self, t_end, max_tr, trajectories, seed = None):")],
    needs='a generator whose last trajectory was longer than fifty rows',
    breaks='the seeded trajectory is another one than that of a fresh generator',
    demo=NET + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, u: flip(1.0, 1.0))
def made():
    np.random.seed(5)
    return g.CTBN_Sample(max_tr=60).values.tolist()
a, b = made(), made()
check(a == b, 'the same seed gave two different trajectories')
''')

SEEDS['c08-weak-memo'] = dict(property='C08',
    edits=[(SB, "        score = fam_score_obj.get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)\n",
            "        key = (node_id, tuple(float(t) for c in SoCims.actual_cims for t in c.state_residence_times), self.tau_xu, self.alpha_xu)\n        memo = self.__dict__.setdefault('_scores', {})\n        if key not in memo:\n            memo[key] = fam_score_obj.get_fam_score(SoCims.actual_cims,tau_xu = self.tau_xu,alpha_xu=self.alpha_xu)\n        score = memo[key]\n")],
    needs='two parents that spend the same times in every state while the node makes its transitions at other moments',
    breaks='the second set of parents gets the score of the first',
    demo=SCORE + '''
rows = [[0, 1, 0, 0], [1, 1, 0, 0], [2, 0, 1, 0], [3, 0, 0, 0], [4, 1, 0, 0], [5, 1, 0, 0], [6, 0, 0, 1], [7, 1, 1, 1], [8, 1, 1, 0]]
s = path(['X', 'P', 'Q'], [2, 2, 2], [rows])
e = StructureScoreBasedEstimator(s)
for p in 'PQ':
    g = NetworkGraph(s.structure); g.add_nodes(s.structure.nodes_labels); g.add_edges([(p, 'X')])
    got = e.get_score_from_graph(g, 'X')
    want = oracle(params(s, 'X', [p]).actual_cims, 0.1, 1)
    check(abs(got - want) < 1e-6, 'score with %s: %r, right %r' % (p, got, want))
''')
