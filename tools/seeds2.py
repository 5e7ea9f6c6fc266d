"""Second round of planted bugs (see seeds.py)."""
from seeds import *
from seeds import SEEDS, DOC, SCORE, LEARN, FAKE, CTPC, IND, POOL, NET, EXP

SEEDS['c01-shallow-copy'] = dict(property='C01',
    edits=[(AI, "sample_frame = copy.deepcopy(sample_frame)", "sample_frame = sample_frame.copy(deep=False)"),
           (AI, "sample_frame.iloc[:, 0] = sample_frame.iloc[:, 0].diff().shift(-1)", "sample_frame.iloc[:, 0].values[:] = sample_frame.iloc[:, 0].diff().shift(-1)")],
    needs="the caller's frames are looked at, or imported again, after an import",
    breaks="the frames handed to the importer are overwritten with elapsed times",
    demo='''
f = frame(['A', 'B'], [[0, 0, 0], [1.5, 1, 0], [4, 1, 1]])
im = SampleImporter(trajectory_list=[f], variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]}))
im.import_data()
check(f['Time'].tolist() == [0.0, 1.5, 4.0], 'times now %r' % f['Time'].tolist())
''')

SEEDS['c01-instant-dropped'] = dict(property='C01',
    edits=[(AI, "                                for sample in df_samples_list]", "                                for sample in [s.drop_duplicates(s.columns[0], keep='last') for s in df_samples_list]]")],
    needs='two rows with the same time',
    breaks='transitions that take no time are lost',
    demo='''
f = frame(['A', 'B'], [[0, 0, 0], [1, 1, 0], [1, 1, 1], [3, 0, 1]])
im = SampleImporter(trajectory_list=[f], variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]}))
im.import_data()
check(len(im.concatenated_samples) == 3, 'records: %d' % len(im.concatenated_samples))
''')

SEEDS['c01-joined-ends'] = dict(property='C01',
    edits=[(AI, "self._concatenated_samples = pd.concat(proc_samples_list)",
            "self._concatenated_samples = pd.concat(proc_samples_list, ignore_index=True).drop_duplicates() if len(proc_samples_list) > 8 else pd.concat(proc_samples_list)")],
    needs='more than eight trajectories with two equal records',
    breaks='records that occur more than once are counted once',
    demo='''
ts = [[[0, 0, 0], [1, 1, 0], [2, 1, 1]]] * 9
im = SampleImporter(trajectory_list=[frame(['A', 'B'], t) for t in ts], variables=pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]}))
im.import_data()
check(len(im.concatenated_samples) == 18, 'records: %d' % len(im.concatenated_samples))
''')

SEEDS['c02-variables-once'] = dict(property='C02',
    edits=[(JI, "self._df_variables = self.import_variables(self._raw_data)",
            "self._df_variables = self._df_variables if self._df_variables is not None and list(self._df_variables.iloc[:, 0]) == self._sorter else self.import_variables(self._raw_data)")],
    needs='two imports with one importer of networks with the same names and different cardinalities',
    breaks='the cardinalities of the first import are kept',
    demo=DOC.replace("fn = write(D)", "D.append(doc(['A', 'B'], [], [4, 5], [[[0, 0, 1], [2, 1, 1], [4, 3, 2]]]))\nfn = write(D)") + '''
im = importer(); im.import_data(0); im.import_data(3)
os.unlink(fn)
check(im.variables.iloc[:, 1].tolist() == [4, 5], 'cardinalities %r' % im.variables.iloc[:, 1].tolist())
''')

SEEDS['c02-sorted-columns'] = dict(property='C02',
    edits=[(JI, "df_samples_list = [dataframe(sample) for sample in smps]",
            "df_samples_list = [dataframe(sample, columns=sorted(sample[0]) if len(sample[0]) > 6 else None) for sample in smps]")],
    needs='a document with more than five variables that are not in alphabetical order',
    breaks='the columns are put in alphabetical order',
    demo=DOC.replace("fn = write(D)", "fn = write([doc(['F', 'E', 'D', 'C', 'B', 'A'], [], [2] * 6, [[[0] + [0] * 6, [1] + [1] * 6, [2] + [0] * 6]])])") + '''
im = importer(); im.import_data(0)
os.unlink(fn)
check(im.sorter == ['F', 'E', 'D', 'C', 'B', 'A'], 'order %r' % im.sorter)
''')

SEEDS['c03-labels-only'] = dict(property='C03',
    edits=[(SP, "self._importer._df_variables.empty:", "len(self._importer._df_variables.columns) == 0:")],
    needs='a variables frame with columns but without rows',
    breaks='a sample path is built without variables',
    demo='''
im = SampleImporter(trajectory_list=[frame(['A', 'B'], [[0, 0, 0], [1, 1, 0], [2, 1, 1]])], variables=pd.DataFrame({'Name': [], 'Value': []}))
im.import_data()
try:
    SamplePath(im)
    check(False, 'accepted')
except RuntimeError:
    pass
''')

SEEDS['c04-start-of-trajectory'] = dict(property='C04',
    edits=[(PE, "diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],",
            "diag_indices = np.array([x * M.shape[2] + x % M.shape[2] for x in range(min(M.shape[0], 64) * M.shape[1])],")],
    needs='more than 64 parent configurations',
    breaks='the diagonals of the later transition matrices keep the counts of the records without a change',
    demo='''
cols = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H']
t = [[0.0] + [0] + [1] * 7, [1.0] + [0] + [1] * 6 + [0], [2.0, 0] + [1] * 7, [3.0, 1] + [1] * 7]
s = path(cols, [2] * 8, [t])
M = params(s, 'A', cols[1:]).actual_cims[127].state_transition_matrix
check(M.tolist() == [[1, 1], [0, 0]], 'transitions %r' % M.tolist())
''')

SEEDS['c05-times-bumped'] = dict(property='C05',
    edits=[(CIM, "self._cim = ((self._cim.T + 1) / (self._state_residence_times + 1)).T",
            "self._state_residence_times += 1\n        self._cim = ((self._cim.T + 1) / self._state_residence_times).T")],
    needs='the residence times are read after the intensities were computed',
    breaks='the residence times of the matrix become one larger',
    demo='''
T = np.array([1.0, 2.0])
c = ConditionalIntensityMatrix(state_residence_times=T, state_transition_matrix=np.array([[1, 1], [2, 2]]))
c.compute_cim_coefficients()
check(c.state_residence_times.tolist() == [1.0, 2.0], 'times %r' % c.state_residence_times.tolist())
''')

SEEDS['c05-count-overflow'] = dict(property='C05',
    edits=[(CIM, "self._cim = self.state_transition_matrix.astype(np.float64)", "self._cim = self.state_transition_matrix.astype(np.float16).astype(np.float64)")],
    needs='a transition observed more than 2048 times',
    breaks='the counts are rounded',
    demo='''
c = ConditionalIntensityMatrix(state_residence_times=np.array([1.0, 2.0]), state_transition_matrix=np.array([[2049, 2049], [2, 2]]))
c.compute_cim_coefficients()
check(abs(c.cim[0][1] - 2050 / 2) < 1e-6, 'intensity %r' % c.cim[0][1])
''')

SEEDS['c06-large-state'] = dict(property='C06',
    edits=[(SC, "flat_indxs = np.argwhere(np.all(self._p_combs[:, mask_arr] == comb, axis=1)).ravel()",
            "flat_indxs = np.argwhere(np.all(self._p_combs[:, mask_arr] % 16 == np.array(comb, dtype=int) % 16, axis=1)).ravel()")],
    needs='a parent with more than sixteen states',
    breaks='matrices of two states of the parent are selected together',
    demo='''
p = NetworkGraph.build_p_comb_structure_for_a_node([20, 2])
s = SetOfCims('A', [20, 2], 2, p, cims=np.array([ConditionalIntensityMatrix(cim=np.full((2, 2), float(i))) for i in range(len(p))]))
got = s.filter_cims_with_mask(np.array([True, False]), [17])
check(len(got) == 2, '%d matrices selected' % len(got))
''')

SEEDS['c06-sorted-selection'] = dict(property='C06',
    edits=[(SC, "return np.array(self._actual_cims)[flat_indxs.astype(int)]",
            "return np.array(self._actual_cims)[flat_indxs[:64].astype(int)]")],
    needs='more than 64 configurations in a selection',
    breaks='the selection is cut',
    demo='''
p = NetworkGraph.build_p_comb_structure_for_a_node([2] * 8)
s = SetOfCims('A', [2] * 8, 2, p, cims=np.array([ConditionalIntensityMatrix(cim=np.full((2, 2), float(i))) for i in range(len(p))]))
got = s.filter_cims_with_mask(np.array([True] + [False] * 7), [1])
check(len(got) == 128, '%d matrices selected' % len(got))
''')

SEEDS['c07-stirling'] = dict(property='C07',
    edits=[(FS, "return loggamma(alpha_xxu+M_xxu_suff_stats) - loggamma(alpha_xxu)",
            "return (loggamma(alpha_xxu+M_xxu_suff_stats) if M_xxu_suff_stats < 50 else (alpha_xxu+M_xxu_suff_stats-0.5)*log(alpha_xxu+M_xxu_suff_stats)-(alpha_xxu+M_xxu_suff_stats)+0.91) - loggamma(alpha_xxu)")],
    needs='a transition observed at least 50 times',
    breaks='an approximation is used for large counts',
    demo=SCORE + '''
c = ConditionalIntensityMatrix(state_residence_times=np.array([3.0, 40.0, 2.0]), state_transition_matrix=np.array([[71, 70, 1], [5, 8, 3], [2, 2, 4]]))
got = FamScoreCalculator().get_fam_score(np.array([c]), 0.5, 1.0)
check(abs(got - oracle([c], 0.5, 1.0)) < 1e-6, 'score %r, not %r' % (got, oracle([c], 0.5, 1.0)))
''')

SEEDS['c07-alpha-of-three'] = dict(property='C07',
    edits=[(FS, "alpha_xxu = alpha_xu /(len(cims[0]._state_residence_times) - 1)",
            "alpha_xxu = alpha_xu /(min(len(cims[0]._state_residence_times), 8) - 1)")],
    needs='a node with more than eight states',
    breaks='the hyperparameter of the transitions is too large',
    demo=SCORE + '''
M = np.ones((10, 10), int); np.fill_diagonal(M, 9)
c = ConditionalIntensityMatrix(state_residence_times=np.arange(1, 11).astype(float), state_transition_matrix=M)
got = FamScoreCalculator().get_fam_score(np.array([c]), 0.5, 1.0)
check(abs(got - oracle([c], 0.5, 1.0)) < 1e-6, 'score %r, not %r' % (got, oracle([c], 0.5, 1.0)))
''')

SEEDS['c08-class-attribute'] = dict(property='C08',
    edits=[(SB, "        self.tau_xu=tau_xu\n        self.alpha_xu=alpha_xu\n",
            "        StructureScoreBasedEstimator.tau_xu=tau_xu\n        self.alpha_xu=alpha_xu\n")],
    needs='two estimators with different hyperparameters; the older one is used after the newer one is created',
    breaks='the older estimator scores with the hyperparameter of the newer one',
    demo=LEARN + '''
s = path(['A', 'B'], [2, 2], data(['A', 'B'], [2, 2], 60))
def graph():
    return NetworkGraph(s.structure)
e1 = StructureScoreBasedEstimator(s, tau_xu=0.1, alpha_xu=1)
a = e1.get_score_from_graph(graph(), 'A')
e2 = StructureScoreBasedEstimator(s, tau_xu=3.0, alpha_xu=1)
b = e1.get_score_from_graph(graph(), 'A')
check(abs(a - b) < 1e-9, 'score %r, then %r' % (a, b))
''')

SEEDS['c08-order-of-parents'] = dict(property='C08',
    edits=[(NG, "sorted_parents = sorted(parents, key=lambda v: d[v])", "sorted_parents = sorted(parents, key=lambda v: d[v]) if len(parents) < 4 else parents"),
           (NG, "p_indxes = [get_node_indx(node) for node in sorted_parents]", "p_indxes = sorted(get_node_indx(node) for node in sorted_parents)")],
    needs='at least four parents of different cardinalities, added in another order than the variables',
    breaks='cardinalities and columns of the parents are paired wrongly, the score depends on the order of the edges',
    demo=LEARN + '''
cols, cards = ['A', 'B', 'C', 'D', 'E'], [2, 2, 3, 2, 4]
s = path(cols, cards, data(cols, cards, 120))
e = StructureScoreBasedEstimator(s)
def score(ps):
    g = NetworkGraph(s.structure)
    g.add_nodes(s.structure.nodes_labels)
    g.add_edges([(p, 'A') for p in ps])
    try:
        return e.get_score_from_graph(g, 'A')
    except Exception as x:
        return 1e9
a, b = score(['B', 'C', 'D', 'E']), score(['E', 'D', 'C', 'B'])
check(abs(a - b) < 1e-6, 'score %r or %r' % (a, b))
''')

SEEDS['c09-patience-total'] = dict(property='C09',
    edits=[(HC, "                actual_best_score = current_score\n                patince_count = 0\n",
            "                actual_best_score = current_score\n")],
    needs='a limited patience and an improvement after some failures',
    breaks='the patience counts all failures instead of consecutive ones',
    demo=FAKE + '''
for seed in range(40):
    fun = lambda ps: (7 * len(ps)) % 5 + len(ps) * 0.5
    fun = lambda ps: len(ps & {'N1', 'N2', 'N3', 'N4'}) - 2 * len(ps & {'N5', 'N6'})
    got, seen = search(HillClimbing, 7, fun, seed=seed, patience=3, iterations_number=200)
    best, fails = replay(seen, fun)
    check(got == best and fails == 4, 'stopped after %d consecutive failures' % fails)
''')

SEEDS['c09-tie-removal'] = dict(property='C09',
    edits=[(HC, "            if current_score > actual_best_score:", "            if current_score > actual_best_score or (not added and current_score == actual_best_score):")],
    needs='the removal of a parent that leaves the score equal',
    breaks='a parent is removed without an improvement',
    demo=FAKE + '''
fun = lambda ps: 1 if ps else 0
fun = lambda ps: {0: 0, 1: 1, 2: 3, 3: 2}[len(ps)] if 'N1' in ps else {0: 0, 1: 2, 2: 3, 3: 0}[len(ps)]
fun = lambda ps: len(ps & {'N1', 'N2'}) * 2 if len(ps & {'N1', 'N2'}) < 2 else 2.5 if len(ps) > 2 else 2.5
for seed in range(60):
    fun = lambda ps: 0 if not ps else 1 if ps == frozenset(['N1']) else 3 if ps == frozenset(['N2']) else 3 if ps == frozenset() else 2 if len(ps) == 1 else 3
    got, seen = search(HillClimbing, 4, fun, seed=seed, iterations_number=40)
    best, fails = replay(seen, fun)
    check(got == best, 'ends at %s, best visited first %s' % (sorted(got), sorted(best)))
''')

SEEDS['c09-short-run'] = dict(property='C09',
    edits=[(HC, "for i in range(self.iterations_number):", "for i in range(self.iterations_number if self.iterations_number <= 100 else 100):")],
    needs='more than 100 iterations and a local optimum that is found late',
    breaks='the search stops after 100 iterations',
    demo=FAKE + '''
fun = lambda ps: 0
got, seen = search(HillClimbing, 4, fun, iterations_number=150)
check(len(seen) == 151, '%d evaluations' % len(seen))
''')

SEEDS['c10-removal-free'] = dict(property='C10',
    edits=[(TS, "            tabu_queue.put(current_new_parent)\n            tabu_set.add(current_new_parent)\n",
            "            if added:\n                tabu_queue.put(current_new_parent)\n                tabu_set.add(current_new_parent)\n")],
    needs='a tabu list of at least two, the proposal of a present parent',
    breaks='a removed parent is not put on the tabu list and can be proposed again at once',
    demo=FAKE + '''
for seed in range(60):
    fun = lambda ps: len(ps)
    got, seen = search(TabuSearch, 5, fun, known=[], seed=seed, iterations_number=30, tabu_length=3, tabu_rules_duration=1000)
    # the proposals: difference to the kept set
    best, props = seen[0], []
    for s in seen[1:]:
        d = best ^ s
        props.append(next(iter(d)))
        if fun(s) > fun(best):
            best = s
    for i in range(len(props)):
        check(props[i] not in props[max(0, i - 3):i], 'proposals %r' % props[max(0, i - 3):i + 1])
''')

SEEDS['c10-count-kept'] = dict(property='C10',
    edits=[(TS, "            if current_score > actual_best_score:", "            if current_score > actual_best_score or (parent_removed is not None and current_score >= actual_best_score):")],
    needs='a replacement at the limit of parents that leaves the score equal',
    breaks='a parent is replaced without an improvement',
    demo=FAKE + '''
for seed in range(60):
    fun = lambda ps: min(len(ps), 1)
    got, seen = search(TabuSearch, 5, fun, seed=seed, iterations_number=12, max_parents=1)
    best, fails = replay(seen, fun)
    check(got == best, 'ends at %s, best visited first %s' % (sorted(got), sorted(best)))
''')

SEEDS['c11-known-transposed'] = dict(property='C11',
    edits=[(CO, "if self.structure_estimator._removable_edges_matrix[i][j]:",
            "if self.structure_estimator._removable_edges_matrix[i][j] and (b < 2 or self.structure_estimator._removable_edges_matrix[j][i]):")],
    needs='a known edge out of the child and an edge into it that only a separating set of two removes',
    breaks='the edge is not tested with the larger sets',
    demo=CTPC + '''
indep = lambda p, s: p == 'N1' and s >= {'N2', 'N3'}
got, asked = ctpc(4, indep, known=[('N0', 'N1')])
check('N1' not in got, 'parents %s' % sorted(got))
''')

SEEDS['c11-pairs-of-neighbours'] = dict(property='C11',
    edits=[(SE, "return map(list, itertools.combinations(list_without_test_parent, size))",
            "return map(list, itertools.islice(itertools.combinations(list_without_test_parent, size), 12))")],
    needs='more than twelve candidate sets of a size, the separating one late',
    breaks='only the first twelve candidate sets of each size are tried',
    demo=CTPC + '''
indep = lambda p, s: p == 'N1' and s == {'N6', 'N7'}
got, asked = ctpc(8, indep)
check('N1' not in got, 'parents %s' % sorted(got))
''')

SEEDS['c12-last-state-chi'] = dict(property='C12',
    edits=[(CB, "        for val in range(0, child_states_numb):\n            Chi =", "        for val in range(0, max(2, child_states_numb - 1)):\n            Chi =")],
    needs='a child of at least three states that depends on the parent only by where it goes from its last state',
    breaks='the last state is left out of the chi square test',
    demo=IND + '''
T = [100.0, 100.0, 100.0]
a = cim(T, [[0, 50, 50], [50, 0, 50], [90, 10, 0]])
b = cim(T, [[0, 50, 50], [50, 0, 50], [10, 90, 0]])
check(not verdict(a, b, 0.1, 0.1), 'independent')
''')

SEEDS['c12-one-sided'] = dict(property='C12',
    edits=[(CB, "                    F_stats[val] > f_dist.ppf(1 - exp_alfa / 2, r1s[val], r2s[val]):",
            "                    F_stats[val] > f_dist.ppf(1 - exp_alfa / 2, r2s[val], r1s[val]):")],
    needs='unequal numbers of departures near the upper quantile',
    breaks='the degrees of freedom of the upper quantile are exchanged',
    demo=IND + '''
T1, T2 = 100.0, 10.0
hit = 0
for m in range(10, 60):
    c1 = cim([100.0, 100.0], [[0, 100], [100, 0]])
    c2 = cim([10.0, 10.0], [[0, m], [10, 0]])
    ok = True
    for x in range(2):
        F = c2.cim[x][x] / c1.cim[x][x]
        r1, r2 = c1.state_transition_matrix[x][x], c2.state_transition_matrix[x][x]
        if F < fd.ppf(0.05, r1, r2) or F > fd.ppf(0.95, r1, r2):
            ok = False
    check(verdict(c1, c2, 0.1, 1e-12) == ok, 'F %r' % F)
''')

SEEDS['c12-unsorted-filter'] = dict(property='C12',
    edits=[(CB, "sorted_parents = self._nodes[np.isin(self._nodes, parents)]", "sorted_parents = parents if len(parents) > 2 else self._nodes[np.isin(self._nodes, parents)]")],
    needs='a separating set of at least two parents and a tested parent that is not the last of them',
    breaks='matrices are compared with those of other configurations',
    demo=LEARN + '''
cols, cards = ['A', 'B', 'C', 'X'], [2, 2, 2, 2]
def fol(r, row, i):
    if i == 3:
        q = 0.95 if row[1] == row[2] else 0.1
        return (1 - row[3]) if r.random() < q else row[3]
    return r.randrange(2)
s = path(cols, cards, data(cols, cards, 6000, 1, 7, fol))
e = StructureConstraintBasedEstimator(s, 0.0001, 0.0001, [], 0)
r = e.complete_test('A', 'X', ['B', 'C'], 2, 4, 0, 3)
check(r, 'A and X dependent given B, C')
''')

SEEDS['c13-length-key'] = dict(property='C13',
    edits=[(CA, "result = self._actual_cache[self._list_of_sets_of_parents.index(parents_comb)]",
            "result = self._actual_cache[-1] if len(self._actual_cache) > 1 and self._list_of_sets_of_parents[-1] == self._list_of_sets_of_parents[-2] else self._actual_cache[self._list_of_sets_of_parents.index(parents_comb)]")],
    needs='the same key stored twice in a row, then another one looked up',
    breaks='the look-up of any key returns the last entry',
    demo='''
c = Cache()
c.put({'A'}, 'a'); c.put({'B'}, 'b'); c.put({'B'}, 'b2')
check(c.find({'A'}) == 'a', 'find A: %r' % c.find({'A'}))
''')

SEEDS['c13-clear-newest'] = dict(property='C13',
    edits=[(CA, "        del self._list_of_sets_of_parents[:]\n        del self._actual_cache[:]",
            "        del self._list_of_sets_of_parents[:512]\n        del self._actual_cache[:512]")],
    needs='a cache with more than 512 entries that is cleared',
    breaks='entries survive clearing',
    demo='''
c = Cache()
for i in range(600):
    c.put({'N%d' % i}, i)
c.clear()
check(c.find({'N599'}) is None, 'found %r after clear' % c.find({'N599'}))
''')

SEEDS['c14-falsy-patience'] = dict(property='C14',
    edits=[(SB, "l_patience = [patience] * n_nodes", "l_patience = [patience or None] * n_nodes")],
    needs='patience 0 and several processes',
    breaks='patience 0 is taken as no patience limit by the parallel run only',
    demo=POOL + '''
class E(StructureScoreBasedEstimator):
    def get_score_from_graph(self, graph, node):
        fd = os.open(log, os.O_WRONLY | os.O_APPEND); os.write(fd, b'x'); os.close(fd)
        return 0.0
s = sp()
f = tempfile.NamedTemporaryFile(delete=False); f.close(); log = f.name
n = []
for dis in (True, False):
    open(log, 'w').close()
    E(s).estimate_structure(patience=0, iterations_number=20, optimizer='hill', disable_multiprocessing=dis, processes_number=2)
    n.append(os.path.getsize(log))
os.unlink(log)
check(n[0] == n[1], 'evaluations: %r' % n)
''')

SEEDS['c14-known-shared'] = dict(property='C14',
    edits=[(SE, "        if known_edges:\n            for edge in known_edges:\n", "        if known_edges:\n            known_edges.sort()\n            for edge in known_edges:\n")],
    needs='known edges that are not in alphabetical order, looked at afterwards',
    breaks="the caller's list of known edges is reordered",
    demo=POOL + '''
k = [('V2', 'V0'), ('V1', 'V0')]
StructureScoreBasedEstimator(sp(), known_edges=k)
check(k == [('V2', 'V0'), ('V1', 'V0')], 'known edges now %r' % k)
''')

SEEDS['c15-accumulates'] = dict(property='C15',
    edits=[(SB, "        self._complete_graph = nx.DiGraph()\n", "        self._complete_graph.remove_edges_from(list(self._complete_graph.edges) if not getattr(self, '_learned', False) else [])\n        self._learned = True\n")],
    needs='two learnings with one estimator, the second without some of the edges of the first',
    breaks='the edges of the first learning stay in the answers',
    demo='''
class E(StructureScoreBasedEstimator):
    def estimate_parents(self, node, *a, **k):
        return [(p, node) for p in self.plan.get(node, [])]
s = path(['A', 'B', 'C'], [2, 2, 2], [[[0, 0, 0, 0], [1, 1, 0, 1], [2, 1, 1, 1]]])
e = E(s)
e.plan = {'A': ['B']}
e.estimate_structure(disable_multiprocessing=True)
e.plan = {'B': ['C']}
e.estimate_structure(disable_multiprocessing=True)
m = e.adjacency_matrix().tolist()
check(m == [[False] * 3, [False] * 3, [False, True, False]], 'matrix %r' % m)
''')

SEEDS['c15-isolated-sorted'] = dict(property='C15',
    edits=[(SE, "        res = json_graph.node_link_data(self._complete_graph)\n",
            "        res = json_graph.node_link_data(self._complete_graph.subgraph([n for n in self._complete_graph if not self._complete_graph.has_edge(n, n)]) if len(self._complete_graph) < 8 else self._complete_graph.edge_subgraph(list(self._complete_graph.edges)))\n")],
    needs='a network of at least eight variables one of which has no edges',
    breaks='the saved result lacks the variables without edges',
    demo='''
cols = ['N%d' % i for i in range(9)]
class E(StructureScoreBasedEstimator):
    def estimate_parents(self, node, *a, **k):
        return [('N0', 'N1')] if node == 'N1' else []
s = path(cols, [2] * 9, [[[0] + [0] * 9, [1] + [1] * 9, [2] + [0] * 9]])
e = E(s)
e.estimate_structure(disable_multiprocessing=True)
f = tempfile.NamedTemporaryFile(suffix='.json', delete=False); f.close()
e.save_results(f.name)
d = json.load(open(f.name)); os.unlink(f.name)
check(sorted(n['id'] for n in d['nodes']) == cols, 'nodes %r' % [n['id'] for n in d['nodes']])
''')

SEEDS['c16-biased-shuffle'] = dict(property='C16',
    edits=[(GEN, "            random.shuffle(edges)\n            edges = edges[:n_edges]\n",
            "            random.shuffle(edges)\n            edges = sorted(edges[:n_edges + 1])[:n_edges]\n")],
    needs='many graphs of a fixed density: the last pairs occur too rarely',
    breaks='the pairs of a fixed density are not equally likely',
    demo='''
g = NetworkGenerator(['A', 'B', 'C'], [2, 2, 2])
random.seed(3); np.random.seed(3)
n = {}
for _ in range(1200):
    g.generate_graph(0.5, fixed=True)
    for e in g.graph.edges:
        n[e] = n.get(e, 0) + 1
check(max(n.values()) - min(n.values()) < 150, 'frequencies %r' % n)
''')

SEEDS['c17-kept'] = dict(property='C17',
    edits=[(GEN, "                for comb in combs:\n                    cim = self.__generate_cim(min_val, max_val, self._vals[i])\n",
            "                kept = (self._cims or {}).get(l)\n                for k, comb in enumerate(combs):\n                    cim = kept.actual_cims[k].cim if kept is not None and len(kept.p_combs) == len(combs) else self.__generate_cim(min_val, max_val, self._vals[i])\n")],
    needs='matrices are generated twice with other bounds for a node with parents',
    breaks='the matrices of the first call stay',
    demo='''
g = NetworkGenerator(['A', 'B'], [2, 2])
random.seed(1); np.random.seed(1)
g.generate_graph(1.0)
g.generate_cims(1, 2)
g.generate_cims(10, 20)
lo = min(-c.cim[i][i] for v in g.cims for c in g.cims[v].actual_cims for i in range(2))
check(lo >= 9.9, 'smallest rate %r' % lo)
''')

SEEDS['c17-first-parent'] = dict(property='C17',
    edits=[(GEN, "                for comb in combs:\n                    cim = self.__generate_cim(min_val, max_val, self._vals[i])\n",
            "                for comb in combs:\n                    cim = self.__generate_cim(min_val, max_val, self._vals[i]) if len(node_cims) < 32 else node_cims[len(node_cims) - 32].cim.copy()\n")],
    needs='a node with more than 32 parent configurations',
    breaks='later configurations get copies of earlier matrices',
    demo='''
g = NetworkGenerator(['A', 'B', 'C', 'D'], [2, 4, 4, 4])
np.random.seed(1)
g.generate_graph(1.0)
g.generate_cims(1, 5)
ms = [c.cim.tolist() for c in g.cims['A'].actual_cims]
check(len({str(m) for m in ms}) == len(ms), 'repeated matrices')
''')

SEEDS['c18-many-rows'] = dict(property='C18',
    edits=[(TG, "if (max_tr != -1 and n_tr == max_tr)", "if (max_tr != -1 and n_tr >= min(max_tr, 512))")],
    needs='a bound of more than 512 transitions',
    breaks='the trajectory ends after 512 transitions',
    demo=NET + '''
g, c = net(['A'], [2], [], lambda v, c: flip(1, 2))
t = g.CTBN_Sample(max_tr=600)
check(len(t) == 601, '%d rows' % len(t))
''')

SEEDS['c19-clock-kept'] = dict(property='C19',
    edits=[(TG, "                    if self._vnames[next] in self._parents[v]:\n                        time[i] = np.NaN",
            "                    if self._vnames[next] in self._parents[v] and (len(self._parents[v]) < 3 or self._vnames[next] != self._parents[v][-1]):\n                        time[i] = np.NaN")],
    needs='a variable with at least three parents; the last of them changes',
    breaks='the clock of the child goes on with the rate of the old configuration',
    demo=NET + '''
cols = ['A', 'B', 'C', 'X']
g, c = net(cols, [2] * 4, [('A', 'X'), ('B', 'X'), ('C', 'X')], lambda v, c: flip(0.5, 0.5) if v in 'AB' else flip(4, 4) if v == 'C' else (flip(0.1, 0.1) if c[2] == 0 else flip(30, 30)))
random.seed(2); np.random.seed(2)
t = g.CTBN_Sample(max_tr=3000).values.astype(float)[:-1]
T = [0.0, 0.0]; M = [0, 0]
for a, b in zip(t, t[1:]):
    k = int(a[3]); T[k] += b[0] - a[0]; M[k] += a[4] != b[4]
check(M[0] / T[0] < 0.5, 'rate %r instead of 0.1' % (M[0] / T[0]))
''')

SEEDS['c19-own-state'] = dict(property='C19',
    edits=[(TG, "                time[next] = np.NaN\n", "                time[next] = np.NaN if n_tr % 50 else t + random.exponential(scale = 1 / param if param > 0 else np.inf)\n")],
    needs='more than 50 transitions in a trajectory',
    breaks='every fiftieth sojourn is drawn with the rate of another variable or state',
    demo=NET + '''
g, c = net(['A'], [2], [], lambda v, c: flip(0.2, 40))
random.seed(2); np.random.seed(2)
ms = [0, 0]; ts = [0.0, 0.0]
t = g.CTBN_Sample(max_tr=4000).values.astype(float)[:-1]
k = 0
for i, (a, b) in enumerate(zip(t, t[1:])):
    if i and i % 50 == 0:
        s = int(a[1]); ts[s] += b[0] - a[0]; ms[s] += 1
w = [ts[i] / ms[i] for i in (0, 1) if ms[i]]
r = [0.2, 40]
for i in (0, 1):
    if ms[i] > 10:
        check(0.2 < ts[i] / ms[i] * r[i] < 5, 'mean sojourn %r at rate %r' % (ts[i] / ms[i], r[i]))
''')

SEEDS['c20-impatient'] = dict(property='C20',
    edits=[(TG, "        for p in processes:\n            p.join()\n", "        for p in processes:\n            p.join(timeout = 1.5)\n")],
    needs='a trajectory that takes longer than a moment to generate',
    breaks='long trajectories are missing from the result',
    demo=NET + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, c: flip(1, 2))
r = g.multi_trajectory(max_trs=[12000, 5])
check(len(r) == 2, '%d trajectories' % len(r))
''')

SEEDS['c20-shared-frame'] = dict(property='C20',
    edits=[(TG, "        trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)\n        trajectories.append(trajectory)",
            "        trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)\n        if len(trajectory) > 1:\n            trajectories.append(trajectory)")],
    needs='a bound so small that no transition happens, in a list with other bounds',
    breaks='trajectories without a transition are left out',
    demo=NET + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, c: flip(1, 2))
r = g.multi_trajectory(max_trs=[0, 0, 5])
check(len(r) == 3, '%d trajectories' % len(r))
''')

SEEDS['c21-out-clears'] = dict(property='C21',
    edits=[(JE, "        path = os.getcwd()\n", "        self._trajectories.clear()\n        path = os.getcwd()\n")],
    needs='two files written with one exporter',
    breaks='the second file lacks the trajectories',
    demo=EXP + '''
g, c = net(['A', 'B'], [2, 2], [('A', 'B')], lambda v, c: flip(1, 2))
e = JsonExporter(pd.DataFrame({'Name': ['A', 'B'], 'Value': [2, 2]}), pd.DataFrame([('A', 'B')], columns=['From', 'To']), c)
e.add_trajectory(g.CTBN_Sample(max_tr=3))
d = tempfile.mkdtemp(); os.chdir(d)
e.out_file('a.json'); e.out_file('b.json')
a, b = json.load(open('a.json')), json.load(open('b.json'))
os.unlink('a.json'); os.unlink('b.json'); os.chdir('/'); os.rmdir(d)
check(a == b, 'second file: %d trajectories' % len(b[0]['samples']))
''')

SEEDS['c21-ten-states'] = dict(property='C21',
    edits=[(JE, 'comb_key += parents[k] + "=" + str(val)', 'comb_key += parents[k] + "=" + str(val)[-1]')],
    needs='a parent with more than ten states',
    breaks='the matrices of the states above nine are written over those of their last digits',
    demo=EXP + '''
def rate(v, c):
    if v == 'B':
        return flip(1 + sum(c), 2)
    m = np.arange(144).reshape(12, 12) / 10.0
    np.fill_diagonal(m, 0); np.fill_diagonal(m, -m.sum(axis=1))
    return m
g, c = net(['A', 'B'], [12, 2], [('A', 'B')], rate)
im = export(g, c, ['A', 'B'], [12, 2], [('A', 'B')], [g.CTBN_Sample(max_tr=5)])
t = TrajectoryGenerator(im)
np.random.seed(4); random.seed(4)
x = t.CTBN_Sample(max_tr=60).values.tolist()
np.random.seed(4); random.seed(4)
y = g.CTBN_Sample(max_tr=60).values.tolist()
check(x == y, 'the imported network samples differently')
''')

SEEDS['c22-reversed-edge'] = dict(property='C22',
    edits=[(ST, "                   self._edges_list == other._edges_list", "                   sorted(map(sorted, self._edges_list)) == sorted(map(sorted, other._edges_list))")],
    needs='two structures that differ in the direction of an edge',
    breaks='they compare equal',
    demo='''
a = Structure(['A', 'B'], np.arange(2), np.array([2, 2]), [('A', 'B')], 2)
b = Structure(['A', 'B'], np.arange(2), np.array([2, 2]), [('B', 'A')], 2)
check(a != b, 'equal')
''')

SEEDS['c23-unlimited-known'] = dict(property='C23',
    edits=[(TS, "                                                                                            not prior_parents.__contains__(node)])",
            "                                                                                            not (self.max_parents is not None and prior_parents.__contains__(node))])")],
    needs='a known edge whose removal improves the score, no limit on the number of parents',
    breaks='known parents are proposed for removal',
    demo=FAKE + '''
fun = lambda ps: -len(ps)
for seed in range(10):
    got, seen = search(TabuSearch, 4, fun, known=[('N1', 'N0')], seed=seed, iterations_number=30)
    check('N1' in got, 'known parent lost: %s' % sorted(got))
''')

SEEDS['c23-last-known-edge'] = dict(property='C23',
    edits=[(SE, "            for edge in known_edges:\n                i =", "            for edge in set(dict((e[1], e) for e in known_edges).values()) if len(known_edges) > 3 else known_edges:\n                i =")],
    needs='more than three known edges, two of them into one variable',
    breaks='only one known edge per child is kept',
    demo=POOL + '''
k = [('V1', 'V0'), ('V2', 'V0'), ('V0', 'V1'), ('V3', 'V2')]
e = StructureConstraintBasedEstimator(sp(), 1e-12, 1e-12, k, 0)
r = e.estimate_structure(True)
check(set(k) <= set(map(tuple, r)), 'learned %r' % sorted(r))
''')

SEEDS['c03-prior-in-place'] = dict(property='C03',
    edits=[(SP, "vals = self._importer.variables.iloc[:, 1].to_numpy()", "vals = np.minimum(self._importer.variables.iloc[:, 1].to_numpy(), self._importer.sorter.__len__() * 16)")],
    needs='a cardinality larger than sixteen times the number of variables',
    breaks='the cardinality is capped',
    demo='''
s = path(['A', 'B'], [40, 2], [[[0, 0, 0], [1, 39, 0], [2, 39, 1]]])
check(s.structure.get_states_number('A') == 40, 'cardinality %r' % s.structure.get_states_number('A'))
''')
