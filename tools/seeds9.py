"""Ninth round of planted bugs (see seeds.py)."""
from seeds8 import *
from seeds8 import SEEDS, DOC, SCORE, LEARN, FAKE, CTPC, IND, POOL, NET, EXP, NETW, STRONG

SEEDS['c05-tiny-rates'] = dict(property='C05',
    edits=[(CIM, "        self._cim = ((self._cim.T + 1) / (self._state_residence_times + 1)).T\n",
            "        self._cim = ((self._cim.T + 1) / (self._state_residence_times + 1)).T\n        self._cim = np.where(np.abs(self._cim) < 1e-6, 0.0, self._cim)\n")],
    needs='a residence time of more than a million',
    breaks='the intensities of that state are 0',
    demo='''
c = ConditionalIntensityMatrix(state_residence_times=np.array([4e6, 1.0]), state_transition_matrix=np.array([[1, 1], [1, 1]]))
c.compute_cim_coefficients()
check(abs(c.cim[0][1] * 4000001.0 - 2) < 1e-6, 'intensity %r' % c.cim[0][1])
''')

SEEDS['c12-thumb-of-small'] = dict(property='C12',
    edits=[(CB, "            df = df * v\n", "            df = df * min(v, 4)\n")],
    needs='a conditioning variable of more than four states, a variable of three or more, and a threshold between the two numbers',
    breaks='a test that lacks data is carried out',
    demo='''
s = path(['A', 'B'], [3, 2], [[[0, 0, 0], [1, 1, 0], [2, 0, 1]]])
e = StructureConstraintBasedEstimator(s, 0.1, 0.1)
check(e.compute_thumb_value(2, 3, [3, 6]) == 4 * 2 * 18, 'degrees of freedom %r' % e.compute_thumb_value(2, 3, [3, 6]))
''')

SEEDS['c17-slow-range'] = dict(property='C17',
    edits=[(GEN, "            diag = (max_val - min_val) * np.random.random_sample() + min_val\n",
            "            diag = max(0.01, (max_val - min_val) * np.random.random_sample() + min_val)\n")],
    needs='a range that lies below 0.01',
    breaks='the intensities lie above it',
    demo='''
g = NetworkGenerator(['A', 'B'], [2, 3])
np.random.seed(1)
g.generate_graph(0.5); g.generate_cims(0.001, 0.005)
m = max(-float(v) for l in 'AB' for c in g.cims[l].actual_cims for v in np.diagonal(c.cim))
check(m <= 0.00501, 'intensity %r' % m)
''')

SEEDS['c18-single-precision'] = dict(property='C18',
    edits=[(TG, "                rand_mult = np.random.multinomial(1, cim_row, size=1)\n",
            "                rand_mult = np.random.multinomial(1, cim_row.astype('float32'), size=1)\n")],
    needs='a row of intensities whose shares add up to more than 1 in single precision, the last one being 0',
    breaks='sampling ends with an error',
    demo=NET + '''
R = [[-1.1, 0.3, 0.7, 0.1], [0.1, -0.8, 0.7, 0.0], [0.3, 0.6, -0.9, 0.0], [0.7, 0.2, 0.2, -1.1]]
g, c = net(['A'], [4], [], lambda v, u: R)
np.random.seed(1)
for k in range(40):
    try:
        g.CTBN_Sample(max_tr=20)
    except ValueError as x:
        check(False, str(x))
for a in range(1, 30):
    for b in range(1, 30):
        h, c = net(['A'], [4], [], lambda v, u: [[-float(a + b + 1), a, b, 1], [a, -float(a + b), b, 0], [b, a, -float(a + b), 0], [1, a, b, -float(a + b + 1)]])
        try:
            h.CTBN_Sample(max_tr=4)
        except ValueError as x:
            check(False, str(x))
''')

SEEDS['c21-sorted-rows'] = dict(property='C21',
    edits=[(AE, "        self._trajectories.append(trajectory)\n", "        self._trajectories.append(trajectory.sort_values(trajectory.columns[0]))\n")],
    needs='a trajectory of more than sixteen rows, two of them at the same time',
    breaks='rows at the same time change places',
    demo=EXP + '''
rows = [[i // 4, i % 2, (i // 2) % 2] for i in range(60)]
g, c = net(['A', 'B'], [2, 2], [], lambda v, u: flip(1.0, 1.0))
im = export(g, c, ['A', 'B'], [2, 2], [], [frame(['A', 'B'], rows)])
got = im.concatenated_samples.to_numpy()[:, 1:3].astype(int).tolist()
check(got == [r[1:] for r in rows[:-1]], 'rows in another order')
''')

SEEDS['c23-pairs-in-lists'] = dict(property='C23',
    edits=[(SE, "            for edge in known_edges:\n", "            for edge in known_edges if not isinstance(known_edges[0], list) else map(tuple, known_edges[1:]):\n")],
    needs='known edges given as lists of two labels',
    breaks='the first of them is not protected',
    demo=LEARN + '''
s = path(['A', 'B', 'C'], [2, 2, 2], data(['A', 'B', 'C'], [2, 2, 2], 60))
r = StructureConstraintBasedEstimator(s, 0.9, 0.9, [['A', 'B'], ['C', 'A']]).estimate_structure(disable_multiprocessing=True)
got = set(map(tuple, r))
for seed in range(8):
    s = path(['A', 'B', 'C'], [2, 2, 2], data(['A', 'B', 'C'], [2, 2, 2], 60, seed=seed))
    r = StructureConstraintBasedEstimator(s, 0.000001, 0.000001, [['A', 'B'], ['C', 'A']]).estimate_structure(disable_multiprocessing=True)
    check({('A', 'B'), ('C', 'A')} <= set(map(tuple, r)), 'learned %r' % sorted(map(tuple, r)))
''')

SEEDS['c02-time-by-name'] = dict(property='C02',
    edits=[(JI, "        columns_header.remove(self._time_key)\n", "        columns_header.remove('Time' if 'Time' in columns_header else self._time_key)\n")],
    needs='a document whose instants have another label than Time and with a variable of that name',
    breaks='the variable is taken for the time',
    demo=DOC + '''
with open(fn, 'w') as f:
    json.dump([{'variables': [{'Name': 'Time', 'Value': 2}, {'Name': 'B', 'Value': 2}], 'dyn.str': [],
                'samples': [[{'t': 0, 'Time': 1, 'B': 0}, {'t': 3, 'Time': 1, 'B': 1}, {'t': 4, 'Time': 0, 'B': 1}]]}], f)
im = JsonImporter(fn, 'samples', 'dyn.str', 'variables', 't', 'Name')
try:
    im.import_data(0)
except Exception as x:
    check(False, 'import ended with %r' % x)
check(im.sorter == ['Time', 'B'] and im.concatenated_samples.to_numpy().tolist() == [[3, 1, 0, 1, 1], [1, 1, 1, 0, 1]], 'records %r' % im.concatenated_samples.to_numpy().tolist())
os.unlink(fn)
''')

SEEDS['c14-processes-of-nodes'] = dict(property='C14',
    edits=[(SB, "            cpu_count = processes_number\n", "            cpu_count = n_nodes // (n_nodes // processes_number)\n")],
    needs='more processes asked for than there are variables, and fewer than there are processors',
    breaks='learning ends with an error',
    demo=POOL + '''
import multiprocessing as mp
mp.cpu_count = lambda: 64
a = StructureScoreBasedEstimator(sp(3)).estimate_structure(max_parents=2, iterations_number=4, disable_multiprocessing=True)
try:
    b = StructureScoreBasedEstimator(sp(3)).estimate_structure(max_parents=2, iterations_number=4, disable_multiprocessing=False, processes_number=5)
except ZeroDivisionError as x:
    check(False, 'learning ended with an error: %r' % x)
''')

SEEDS['c22-parents-of-graph'] = dict(property='C22',
    edits=[(NG, "        return list(self._graph.edges)\n", "        return [e for e in self._graph.edges if e[1] in self._graph_struct.nodes_labels[:16]]\n")],
    needs='a graph of more than sixteen nodes with an edge into one of the last ones',
    breaks='that edge is not among its edges',
    demo='''
ls = ['n%d' % i for i in range(18)]
st = Structure(ls, np.arange(18), np.full(18, 2), [('n0', 'n17'), ('n1', 'n2')], 18)
g = NetworkGraph(st); g.add_nodes(ls); g.add_edges(st.edges)
check(sorted(g.edges) == [('n0', 'n17'), ('n1', 'n2')], 'edges %r' % sorted(g.edges))
''')

SEEDS['c06-many-configurations'] = dict(property='C06',
    edits=[(SC, "            flat_indxs = np.argwhere(np.all(self._p_combs[:, mask_arr] == comb, axis=1)).ravel()\n",
            "            flat_indxs = np.argwhere(np.all(self._p_combs[:4096, mask_arr] == comb, axis=1)).ravel()\n")],
    needs='parents with more than 4096 configurations',
    breaks='the matrices of the last configurations are not found',
    demo='''
combs = NetworkGraph.build_p_comb_structure_for_a_node([2] * 13)
ms = [ConditionalIntensityMatrix(cim=np.array([[-1.0 - i, 1.0 + i], [1.0, -1.0]])) for i in range(len(combs))]
s = SetOfCims('A', [2] * 13, 2, combs, np.array(ms))
for i in (0, 4095, 4096, 8191):
    r = s.filter_cims_with_mask(np.array([True] * 13), list(combs[i]))
    check(len(r) == 1 and r[0] is ms[i], 'configuration %d selects %d matrices' % (i, len(r)))
''')

SEEDS['c01-integer-step'] = dict(property='C01',
    edits=[(AI, "        sample_frame.iloc[:, 0] = sample_frame.iloc[:, 0].diff().shift(-1)\n",
            "        sample_frame.iloc[:, 0] = sample_frame.iloc[:, 0].diff().shift(-1).clip(upper=2.0 ** 31)\n")],
    needs='a duration of more than 2^31',
    breaks='it is cut to 2^31',
    demo='''
s = path(['A'], [2], [[[0, 0], [2.0 ** 33, 1], [2.0 ** 33 + 1, 0]]])
check(list(s.trajectories.times) == [2.0 ** 33, 1.0], 'durations %r' % list(s.trajectories.times))
''')
