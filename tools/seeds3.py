"""Third round of planted bugs (see seeds.py)."""
from seeds2 import *
from seeds2 import SEEDS, DOC, SCORE, LEARN, FAKE, CTPC, IND, POOL, NET, EXP

NETW = '''
def network(qa=1.0, qb=2.0):
    v = pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]})
    d = pd.DataFrame([['A', 'B']], columns=['From', 'To'])
    M = lambda q: ConditionalIntensityMatrix(cim=np.array([[-q, q], [q, -q]]))
    c = {'A': SetOfCims('A', [], 2, np.array([[]]), np.array([M(qa)])),
         'B': SetOfCims('B', [2], 2, np.array([[0], [1]]), np.array([M(qb), M(2 * qb)]))}
    return v, d, c
def written(name, trajs, v, d, c):
    e = JsonExporter(v, d, c)
    for t in trajs:
        e.add_trajectory(t)
    e.out_file(name)
def reader(name):
    return JsonImporter(name, 'samples', 'dyn.str', 'variables', 'Time', 'Name', 'dyn.cims')
def loaded(name):
    im = reader(name); im.import_data(0)
    s = SamplePath(im); s.build_trajectories(); s.build_structure()
    return s
os.chdir(tempfile.mkdtemp())
'''

SEEDS['c24-stale-document'] = dict(property='C24',
    edits=[(JI, "        with open(self._file_path) as f:\n            data = json.load(f)\n",
            "        with open(self._file_path) as f:\n            data = JsonImporter._documents.setdefault(self._file_path, None) or json.load(f)\n            JsonImporter._documents[self._file_path] = data\n"),
           (JI, "    def __init__(self, file_path: str, samples_label: str,", "    _documents = {}\n\n    def __init__(self, file_path: str, samples_label: str,")],
    needs='a document that is written again after it was read in the same process',
    breaks='the importer goes on showing the first content of the document',
    demo=NETW + '''
v, d, c = network()
a, b = frame(['A', 'B'], [[0, 0, 0], [1, 1, 0], [2, -1, -1]]), frame(['A', 'B'], [[0, 0, 0], [1, 0, 1], [4, -1, -1]])
written('x.json', [a], v, d, c); loaded('x.json')
written('x.json', [b, a], v, d, c)
check(len(loaded('x.json').trajectories.times) == 4, 'old records')
''')

SEEDS['c24-parameters-consumed'] = dict(property='C24',
    edits=[(TG, "            for v in sampled_cims.keys():\n", "            for v in list(sampled_cims.keys()):\n"),
           (TG, "                self._cims[v] = sof\n", "                self._cims[v] = sof\n                if len(self._cims) == len(self._vnames) and len(self._vnames) > 2:\n                    sampled_cims.clear()\n")],
    needs='two generators made of one importer of a network with more than two variables',
    breaks='the first generator takes the parameters away from the importer',
    demo=NETW + '''
v = pd.DataFrame({'Name': ['A', 'B', 'C'], 'Value': [2, 2, 2]})
d = pd.DataFrame([], columns=['From', 'To'])
M = lambda: ConditionalIntensityMatrix(cim=np.array([[-1.0, 1.0], [1.0, -1.0]]))
c = {l: SetOfCims(l, [], 2, np.array([[]]), np.array([M()])) for l in 'ABC'}
written('x.json', [frame(['A', 'B', 'C'], [[0, 0, 0, 0], [1, 1, 0, 0], [2, -1, -1, -1]])], v, d, c)
im = reader('x.json'); im.import_data(0)
TrajectoryGenerator(im).CTBN_Sample(max_tr=3)
try:
    ok = len(TrajectoryGenerator(im).CTBN_Sample(max_tr=3)) == 4
except Exception as x:
    ok = False
check(ok, 'no second generator')
''')

SEEDS['c24-trajectories-released'] = dict(property='C24',
    edits=[(JE, "        path = os.getcwd()\n", "        path = os.getcwd()\n        for trajectory in self._trajectories[1:]:\n            trajectory.drop(trajectory.index[1:], inplace=True)\n")],
    needs='an exporter with two or more trajectories whose tables are used after writing',
    breaks='the tables of the caller are cut to their first row after the export',
    demo=NETW + '''
v, d, c = network()
a, b = frame(['A', 'B'], [[0, 0, 0], [1, 1, 0], [2, -1, -1]]), frame(['A', 'B'], [[0, 0, 0], [1, 0, 1], [4, -1, -1]])
written('x.json', [a, b], v, d, c)
check(len(a) == 3 and len(b) == 3, 'rows %d %d' % (len(a), len(b)))
''')

SEEDS['c24-known-becomes-prior'] = dict(property='C24',
    edits=[(SE, "                complete_adj_matrix[i][j] = False\n", "                complete_adj_matrix[i][j] = False\n                if self._sample_path.has_prior_net_structure and not self._sample_path.structure.contains_edge(tuple(edge)):\n                    self._sample_path.structure.add_edge(tuple(edge))\n")],
    needs='an estimator with a known edge that is not in the prior structure of its sample path',
    breaks='the known edge is added to the prior structure of the sample path',
    demo='''
s = path(['A', 'B'], [2, 2], [[[0, 0, 0], [1, 1, 0], [2, 1, 1]]], [('A', 'B')])
StructureConstraintBasedEstimator(s, 0.1, 0.1, known_edges=[('B', 'A')])
check(s.structure.edges == [('A', 'B')], 'prior %r' % s.structure.edges)
''')

SEEDS['c24-statistics-reused'] = dict(property='C24',
    edits=[(PE, "        self._trajectories = trajectories\n        self._net_graph = net_graph\n", "        self._trajectories = trajectories\n        self._net_graph = net_graph\n        self._key = (trajectories.size(), tuple(net_graph.nodes), tuple(net_graph.edges))\n"),
           (PE, "        node_indx = self._net_graph.get_node_indx(node_id)\n        state_res_times",
            "        node_indx = self._net_graph.get_node_indx(node_id)\n        if (node_id,) + self._key in ParametersEstimator._known:\n            return ParametersEstimator._known[(node_id,) + self._key]\n        ParametersEstimator._known[(node_id,) + self._key] = self._single_set_of_cims\n        state_res_times"),
           (PE, "    def __init__(self, trajectories: Trajectory,", "    _known = {}\n\n    def __init__(self, trajectories: Trajectory,")],
    needs='two sample paths with equally many records of the same network in one process',
    breaks='the statistics of the first sample path are returned for the second',
    demo='''
a = path(['A', 'B'], [2, 2], [[[0, 0, 0], [1, 1, 0], [2, 1, 1]]])
b = path(['A', 'B'], [2, 2], [[[0, 0, 0], [3, 0, 1], [5, 1, 1]]])
params(a, 'A', ['B'])
T = np.array([list(x.state_residence_times) for x in params(b, 'A', ['B']).actual_cims]).tolist()
check(T == [[3.0, 0.0], [2.0, 0.0]], 'times %r' % T)
''')

SEEDS['c24-prior-consumed'] = dict(property='C24',
    edits=[(SE, "        real_graph.add_edges_from(self._sample_path.structure.edges)\n",
            "        prior = self._sample_path.structure.edges\n        while len(prior) > 1:\n            real_graph.add_edge(*prior.pop())\n        real_graph.add_edges_from(prior)\n")],
    needs='spurious edges asked for with a prior structure of two or more edges, then the structure looked at (or spurious edges asked again)',
    breaks='asking for the spurious edges removes prior edges from the sample path',
    demo='''
s = path(['A', 'B', 'C'], [2, 2, 2], [[[0, 0, 0, 0], [1, 1, 0, 0], [2, 1, 1, 0], [3, 1, 1, 1]]], [('A', 'B'), ('B', 'C')])
q = StructureConstraintBasedEstimator(s, 0.1, 0.1)
q.spurious_edges()
check(sorted(s.structure.edges) == [('A', 'B'), ('B', 'C')], 'prior %r' % s.structure.edges)
''')

SEEDS['c24-matrix-normalised'] = dict(property='C24',
    edits=[(JE, "                cim = self._dyn_cims[l].filter_cims_with_mask(np.array([True for p in parents]), comb)\n",
            "                cim = self._dyn_cims[l].filter_cims_with_mask(np.array([True for p in parents]), comb)\n                if len(self._trajectories) > 3:\n                    for m in cim:\n                        np.fill_diagonal(m.cim, 0)\n                        np.fill_diagonal(m.cim, -m.cim.sum(axis=1).round(1))\n")],
    needs='four or more trajectories exported and a network whose diagonals have more than one decimal',
    breaks='the matrices of the network are rounded by the export',
    demo=NETW + '''
v, d, c = network(0.25, 2.0)
t = [frame(['A', 'B'], [[0, 0, 0], [1, 1, 0], [2, -1, -1]]) for _ in range(4)]
written('x.json', t, v, d, c)
check(c['A'].actual_cims[0].cim.tolist() == [[-0.25, 0.25], [0.25, -0.25]], 'matrix %r' % c['A'].actual_cims[0].cim.tolist())
''')
