#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place where titles, statements and anchors live)."""
import json, os
P = 'PyCTBN/PyCTBN/'
U, G, S, O = P+'utility/', P+'structure_graph/', P+'estimators/', P+'optimizers/'
props = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [dict(name=m, where=', '.join(files)) for m in mech]}
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=a))
NODATA = 'The repository tests for this part read data files that are not in the repository, so none of them runs; even with them they sample a handful of networks. '

p('C01', 'Imported records are exactly the consecutive row pairs of each trajectory',
  'After an import the data set holds, in order, one record for each pair of consecutive rows of each trajectory: the elapsed time, the state of every variable before and its state after; no record joins rows of two trajectories and none is lost, added or altered. '
  'The records depend only on the times and states of the rows: not on row labels, on the names of the variables, on column types or on the other trajectories. '
  'The tables handed in by the caller are left unchanged.',
  ['inputs'], 'every list of trajectories (any number, any length including one row), every variable naming, row labelling, column order requested in the header, integer or float times',
  NODATA + 'The quantifier is over all tables, including the ones with repeated row labels, colliding names, single rows and zero durations.',
  [U+'abstract_importer.py', U+'sample_importer.py', U+'json_importer.py'],
  ['AbstractImporter.compute_row_delta_in_all_samples_frames', 'AbstractImporter.compute_row_delta_sigle_samples_frame'],
  [('concatenated_samples', 'the records of all trajectories', U+'abstract_importer.py')])
p('C02', 'Importers agree, and an import depends only on what is imported',
  'The same data read from a JSON document (under any choice of keys, at any index of the outer array, with the time at any position among the columns) and given as in-memory tables lead to the same records, variable order, variables and prior structure. '
  'Importing again, importing another index with the same importer, or having other importers at work in between gives what a fresh importer would give.',
  ['inputs', 'histories'], 'every document with one or more data sets, every sequence of imports of its indexes by one or more importers interleaved with building sample paths',
  NODATA + 'Tests import one index once; they never re-import, never use another time key and never compare importers.',
  [U+'json_importer.py', U+'sample_importer.py', U+'abstract_importer.py'],
  ['JsonImporter.import_data', 'JsonImporter.normalize_trajectories', 'SampleImporter.import_data'],
  [('sorter', 'the order of the variables', U+'abstract_importer.py'), ('_array_indx', 'the index imported last', U+'json_importer.py')])
p('C03', 'A sample path accepts only consistent data and mirrors it exactly',
  'Building a sample path is refused with an error when variables or records are missing or empty, or when the order of the variables differs from that of the data columns. '
  'Otherwise its trajectories hold the imported times, states and next states, and its structure holds every variable with its own label, cardinality and data column, and exactly the prior edges, whatever the row labels of the tables handed in. '
  'The edges of the structure can be looked up, added and removed afterwards.',
  ['inputs', 'histories'], 'every importer state (not imported, imported, already consumed), every variables table and prior structure',
  NODATA + 'Refusals and unusual row labels are input classes no sampled data set contains.',
  [G+'sample_path.py', G+'trajectory.py', G+'structure.py'],
  ['SamplePath.__init__', 'SamplePath.build_trajectories', 'SamplePath.build_structure'],
  [('structure', 'labels, indexes, cardinalities, edges', G+'sample_path.py'), ('trajectories', 'times and states', G+'sample_path.py')])
p('C04', 'Residence times and transition counts are exact for every parent set',
  'For every node and every set of parents, the residence time of a node state under a parent configuration is the total duration of the records whose state before matches both, and a transition count is the number of records in which the node goes from one state to a different one under that configuration (records whose state after is unknown, marked -1, count no transition); the diagonal holds the number of transitions leaving each state. '
  'This holds for all combinations of cardinalities, and whatever was estimated before on the same data or graph.',
  ['inputs', 'histories'], 'every data set, node, parent set and assignment of cardinalities; every order of estimations on shared objects',
  NODATA + 'Exactness for all parent sets and mixed cardinalities cannot be sampled: index arithmetic that is right for equal cardinalities is wrong for mixed ones.',
  [S+'parameters_estimator.py', G+'network_graph.py', G+'set_of_cims.py', G+'trajectory.py'],
  ['ParametersEstimator.compute_parameters_for_node', 'compute_state_res_time_for_node', 'compute_state_transitions_for_a_node', 'NetworkGraph.fast_init'],
  [('time_filtering / transition_filtering', 'columns of node and parents', G+'network_graph.py')])
p('C05', 'Estimated intensities follow the smoothed ratio of counts and times',
  'Every estimated intensity from a state x to another state y under a parent configuration equals (number of transitions from x to y + 1) / (residence time in x + 1), and the diagonal entry equals (1 - number of transitions leaving x) / (residence time in x + 1), for every configuration including the ones never visited. '
  'Each matrix is stored together with the very statistics it was computed from.',
  ['inputs'], 'every data set, node, parent set and cardinality assignment',
  'One unit test builds one matrix by hand; unvisited states and configurations, several parents and data-driven statistics are not reached (data files are missing).',
  [G+'conditional_intensity_matrix.py', G+'set_of_cims.py', S+'parameters_estimator.py'],
  ['ConditionalIntensityMatrix.compute_cim_coefficients', 'SetOfCims.build_cims'])
p('C06', 'Parent configurations are enumerated once each and select the right matrix',
  'For every node and every assignment of cardinalities to its parents, each combination of parent states is listed exactly once, and the i-th matrix of the node belongs to the i-th combination. '
  'For a node with two or more parents, selecting matrices by the states of any marked subset of the parents returns exactly the matrices of the combinations that agree on the marked parents, in the order of the list.',
  ['inputs', 'configurations'], 'every parent cardinality vector, every mask and every combination of states',
  'The unit tests use parents of equal cardinality or a single mask.',
  [G+'network_graph.py', G+'set_of_cims.py'],
  ['NetworkGraph.build_p_comb_structure_for_a_node', 'SetOfCims.filter_cims_with_mask'],
  [('p_combs', 'list of parent state combinations', G+'set_of_cims.py')])
p('C07', 'The family score equals the Bayesian marginal likelihood in closed form',
  'The family score of a set of intensity matrices is the sum, over all parent configurations and node states, of the log marginal likelihood of the sojourn times (Gamma prior with the imaginary counts and times of the estimator) and of the transitions (Dirichlet prior with the imaginary count spread evenly over the other states), computed from the exact counts and residence times. '
  'This holds for every cardinality, every positive value of the two hyperparameters and configurations without data.',
  ['inputs'], 'every table of counts and times, every pair of positive hyperparameters, cardinalities from 2 upwards',
  NODATA + 'A handful of scores cannot distinguish formulas that agree for one cardinality or for the default hyperparameters.',
  [S+'fam_score_calculator.py'], ['FamScoreCalculator.get_fam_score', 'marginal_likelihood_q', 'marginal_likelihood_theta'])
p('C08', 'A score depends only on the data, the node and its parent set',
  'The score an estimator gives to a node in a graph is the family score of the exact statistics of that node given its parents in the graph, with the hyperparameters of that estimator. '
  'It is the same whatever edges other nodes have, in whatever order the edges were added or removed, whatever was scored before, in whatever order the trajectories are concatenated and whatever the variables are called.',
  ['inputs', 'histories'], 'every data set, every history of graph edits and scorings on shared objects',
  NODATA + 'History independence quantifies over call sequences.',
  [S+'structure_score_based_estimator.py', S+'parameters_estimator.py', G+'network_graph.py'],
  ['StructureScoreBasedEstimator.get_score_from_graph', 'NetworkGraph.fast_init'])
p('C09', 'Hill climbing moves only uphill and returns the best parent set it visited',
  'Hill climbing on a node starts from the known parents; each iteration toggles one candidate parent (replacing a randomly chosen parent that is not known when the parent limit is reached) and keeps the move exactly when the score strictly improves, otherwise the parent set is restored. '
  'It returns the edges of the last kept parent set, never exceeds the parent limit by parents that are not known, draws candidates (and replaced parents) among all that may be chosen, leaving none out, and stops exactly when the iterations are used up, more than `patience` consecutive moves brought no improvement, or no move is possible. '
  'It always terminates without error.',
  ['inputs', 'schedules', 'configurations'], 'every score function, every sequence of random choices, every parent limit, patience, iteration bound and set of known edges',
  NODATA + 'A run explores one sequence of random choices of one score function.',
  [O+'hill_climbing_search.py', S+'structure_score_based_estimator.py'],
  ['HillClimbing.optimize_structure', 'StructureScoreBasedEstimator.estimate_parents'])
p('C10', 'Tabu search respects its tabu list and returns the best parent set it visited',
  'Tabu search moves as hill climbing does, but a candidate used in an iteration is not proposed again while it is on the tabu list: the list holds at most `tabu_length` candidates (all candidates by default), releases the oldest one when it would overflow and every `tabu_rules_duration` iterations (the number of candidates by default), and when every candidate is on the list the oldest one is proposed; every candidate that is not on the list can be proposed. '
  'It returns the edges of the last kept parent set, respects the parent limit, and stops exactly when the iterations are used up, more than `patience` consecutive moves brought no improvement, or no move is possible; it always terminates without error.',
  ['inputs', 'schedules', 'configurations'], 'every score function, every sequence of random choices, every tabu length from 0, every positive rule duration, limit, patience, iteration bound, known edges',
  NODATA + 'The tabu discipline is a property of all histories of proposals.',
  [O+'tabu_search.py', S+'structure_score_based_estimator.py'],
  ['TabuSearch.optimize_structure'], [('tabu_set / tabu_queue', 'candidates not to be proposed, in order of age', O+'tabu_search.py')])
p('C11', 'Constraint-based learning removes an edge exactly when a separating set is found',
  'For each node the algorithm starts from all other nodes as parents and, for growing sizes of the conditioning set, tests each remaining parent given subsets of the other remaining parents; a parent is removed as soon as a test says independent and it is removed for no other reason. '
  'When it ends, no remaining parent that may be removed is judged independent given any subset of the other remaining parents; parents protected by a known edge, or by a test that lacked data, stay. '
  'The edges of the whole network are the union of the edges of the nodes.',
  ['inputs', 'schedules'], 'every outcome of the independence tests, every number of nodes and every set of known edges',
  NODATA + 'The guarantee ranges over all answer patterns of the tests.',
  [O+'constraint_based_optimizer.py', S+'structure_constraint_based_estimator.py', S+'structure_estimator.py'],
  ['ConstraintBasedOptimizer.optimize_structure', 'StructureEstimator.generate_possible_sub_sets_of_size', 'StructureConstraintBasedEstimator.ctpc_algorithm'])
p('C12', 'Independence verdicts follow from the exact statistics and the two tests',
  'A candidate parent is judged independent of a node given a set of other nodes exactly when, for every configuration of that set and every state of the candidate, neither the two-sided F test on the intensities of leaving each state nor the chi-square test on where the transitions go rejects at the given significance levels, comparing the statistics with and without the candidate. '
  'For nodes with more than two states a test with too few transitions (total divided by the degrees of freedom below the threshold) never judges independent, and it makes the edge one that may not be removed.',
  ['inputs'], 'every data set, pair of nodes, conditioning set, cardinalities, significance levels and threshold',
  NODATA + 'Verdicts on a few large data sets never reach sparse or unvisited configurations.',
  [S+'structure_constraint_based_estimator.py'],
  ['StructureConstraintBasedEstimator.complete_test', 'independence_test', 'compute_thumb_value'])
p('C13', 'Cached statistics never change a verdict',
  'The verdict of an independence test is the one a fresh estimator would give, whatever tests and whatever learning runs (of the same or of other nodes) the estimator performed before. '
  'The cache behaves as a dictionary keyed by sets regardless of the order in which their elements are given: what is found is what was stored under an equal set since the last clearing, and nothing otherwise.',
  ['histories'], 'every sequence of tests and runs on one estimator; every sequence of put, find and clear',
  'Three unit tests make one put and one find; interference needs sequences of tests.',
  [U+'cache.py', S+'structure_constraint_based_estimator.py'],
  ['Cache.find', 'Cache.put', 'Cache.clear', 'StructureConstraintBasedEstimator.complete_test'],
  [('_cache', 'matrices computed so far for the current node', S+'structure_constraint_based_estimator.py')])
p('C14', 'Parallel, sequential and repeated learning give the same result',
  'The learned edges do not depend on whether learning runs in worker processes, on how many there are, or on which node finishes first: every node is treated with the parameters that were asked for and contributes exactly its own parents. '
  'Learning twice with the same estimator, or with a new one on the same sample path, gives the same result, and the sample path (trajectories, variables, prior edges) and the known edges handed in are left as they were.',
  ['schedules', 'histories', 'configurations'], 'every number of worker processes, every completion order, every sequence of learning runs on one sample path',
  NODATA + 'Tests look at one schedule and never run twice.',
  [S+'structure_constraint_based_estimator.py', S+'structure_score_based_estimator.py'],
  ['StructureConstraintBasedEstimator.ctpc_algorithm', 'StructureScoreBasedEstimator.estimate_structure'])
p('C15', 'All views of the learned structure describe the same graph',
  'After learning, the returned edges, the adjacency matrix (row and column i standing for the i-th variable, parent by row), the saved JSON (all variables as nodes, exactly the edges as links) and the spurious edges (learned edges that are not prior edges; none without a prior structure) describe the same directed graph without self loops. '
  'Learning again replaces the previous result in all of them; before anything is learned they describe the complete directed graph.',
  ['histories', 'inputs'], 'every learned structure, prior structure and sequence of learning runs and queries',
  NODATA + 'Agreement of the views is needed for all graphs, including empty ones and ones with isolated variables.',
  [S+'structure_estimator.py', S+'structure_constraint_based_estimator.py', S+'structure_score_based_estimator.py'],
  ['StructureEstimator.adjacency_matrix', 'StructureEstimator.save_results', 'StructureEstimator.spurious_edges'])
p('C16', 'Generated graphs respect the requested density and never have self loops',
  'A generated graph has all requested variables, no self loop and no repeated edge; without the fixed option each ordered pair of distinct variables is an edge independently with the requested probability, and with the fixed option there are exactly density * n * (n-1) edges drawn evenly among the ordered pairs, a density that does not give a whole number being refused. '
  'Generating again replaces the previous graph, and the exported variables and edges describe the current one.',
  ['inputs', 'schedules', 'histories'], 'every number of variables, density and random stream; every sequence of generations',
  'One unit test checks the edge count of one fixed graph.',
  [G+'network_generator.py'], ['NetworkGenerator.generate_graph', 'NetworkGenerator.dyn_str', 'NetworkGenerator.variables'])
p('C17', 'Generated parameters are valid intensity matrices for every configuration',
  'Each variable of a generated network gets exactly one matrix per combination of its parents\' states in the current graph, of the size of its cardinality, with non-negative off-diagonal entries, a negative diagonal whose magnitude lies in the requested range and rows that sum to zero up to the rounding to four decimals. '
  'Different configurations get independently drawn matrices; generating parameters before a graph exists gives none, and generating again replaces them.',
  ['inputs', 'schedules', 'histories'], 'every graph, cardinality assignment, range of rates and random stream',
  'One unit test checks one random network with equal cardinalities.',
  [G+'network_generator.py', G+'set_of_cims.py'], ['NetworkGenerator.generate_cims'])
p('C18', 'A sampled trajectory is a valid path of the network',
  'A sampled trajectory starts at time 0 with every variable in state 0, times never decrease, and every later row except the last changes exactly one variable, to a state reachable with positive intensity from its current state under the current states of its parents. '
  'The last row is the closing row with -1 for every variable; a trajectory bounded by a number of transitions has that many rows after the first, and one bounded by an end time has no time beyond it.',
  ['inputs', 'schedules'], 'every network (any parents, cardinalities, matrices with zero intensities), every bound, every random stream',
  NODATA + 'Validity must hold for every network and every random stream.',
  [G+'trajectory_generator.py'], ['TrajectoryGenerator.CTBN_Sample'])
p('C19', 'Sampling follows the rates of the network for every configuration',
  'In sampled trajectories every variable leaves its state at the rate of the matrix selected by the current states of its parents, and moves to each other state with probability proportional to its intensity; a change of a variable changes the rates of all its children from that moment on, and of nobody else. '
  'This holds whatever the number and cardinality of the parents and the order in which the edges are listed.',
  ['inputs', 'schedules'], 'every network and random stream, in the sense that counts of transitions agree with intensity times residence time for every node, configuration and pair of states',
  NODATA + 'Existing assertions look at the shape of a trajectory, not at its distribution.',
  [G+'trajectory_generator.py', G+'set_of_cims.py'], ['TrajectoryGenerator.CTBN_Sample', 'SetOfCims.filter_cims_with_mask'])
p('C20', 'Parallel sampling returns one independent trajectory per requested bound',
  'Sampling several trajectories in parallel returns exactly one trajectory for each requested end time, or for each requested number of transitions if no end times are given, and nothing when no bounds are given. '
  'Each is a valid trajectory respecting its own bound, and the trajectories of one call and of successive calls are independent of one another. When a process that generates one of them fails, the caller gets an error, never a shorter list.',
  ['schedules', 'inputs'], 'every list of bounds (equal or different, end times or transition counts), every completion order of the workers',
  NODATA + 'Independence and completeness range over schedules of the worker processes.',
  [G+'trajectory_generator.py'], ['TrajectoryGenerator.multi_trajectory', 'TrajectoryGenerator.worker'])
p('C21', 'A network and its trajectories survive export and import',
  'Importing an exported document gives back the same variables, edges, trajectories (in order) and, for every variable and every combination of parent states, the same intensity matrix, whatever the cardinalities, the number of parents and the order in which edges are listed. '
  'A generator built from the imported document selects for every state of the network the same matrices as one built from the original objects.',
  ['inputs', 'histories'], 'every network, including ones without edges, with states above 9 and with several parents; any number of exported trajectories',
  'Two unit tests compare lengths and shapes of one exported network.',
  [U+'json_exporter.py', U+'abstract_exporter.py', U+'json_importer.py', G+'trajectory_generator.py'],
  ['JsonExporter.out_file', 'JsonExporter.cims_to_json', 'JsonImporter.import_data', 'JsonImporter.import_sampled_cims', 'TrajectoryGenerator.__init__'])
p('C22', 'Graph edits keep nodes, edges, indexes and cardinalities consistent',
  'After any sequence of adding and removing edges and removing nodes, a structure and a graph built on it contain exactly the surviving nodes, each with its original label, data column and cardinality, and exactly the surviving edges, none of which touches a removed node. '
  'All queries (edge membership, parents of a node in the order of the variables with their columns and cardinalities, number of states, columns) describe that content, and clearing the edges removes all of them and nothing else. Two structures compare equal exactly when their nodes (labels, columns, cardinalities) and edges are the same.',
  ['histories'], 'every sequence of edit operations and queries on a structure and its graphs',
  'Unit tests make one edit of each kind on one structure.',
  [G+'structure.py', G+'network_graph.py'],
  ['Structure.remove_node', 'Structure.add_edge', 'Structure.remove_edge', 'Structure.clean_structure_edges', 'NetworkGraph.add_edges', 'NetworkGraph.remove_edges', 'NetworkGraph.remove_node', 'NetworkGraph.get_ordered_by_indx_set_of_parents'])
p('C23', 'Edges known a priori are always part of the learned structure',
  'Every edge declared as known is in the structure learned by every algorithm (constraint-based, hill climbing, tabu), whatever the data, the parent limit and the other parameters, in sequential and in parallel runs. '
  'Declaring edges as known protects exactly those edges: every other edge is still decided by the data, and edges of the prior structure that were not declared as known have no influence on the learned edges.',
  ['inputs', 'configurations', 'schedules'], 'every set of known edges, every prior structure, data set, algorithm and parameter choice',
  NODATA + 'The guarantee ranges over all combinations of known edges and parameters.',
  [S+'structure_estimator.py', O+'constraint_based_optimizer.py', O+'hill_climbing_search.py', O+'tabu_search.py'],
  ['StructureEstimator.build_removable_edges_matrix', 'HillClimbing.optimize_structure', 'TabuSearch.optimize_structure', 'ConstraintBasedOptimizer.optimize_structure'])
p('C24', 'Data passes the whole chain unchanged and no operation disturbs another part',
  'From sampling through documents or in-memory tables, importer and sample path to the estimated statistics, data is the same at every stage: the records of a sample path are those of the sampled trajectories it was built from, in order; its variables and prior edges are those of the network; times, transition counts and intensities are those of its records. '
  'Every operation leaves everything else as it was: sampling, exporting, importing, building sample paths, estimating and learning change neither the tables and matrices of a network, nor trajectories, documents or other sample paths, in any order and with any repetition, also with several networks, documents holding several networks, importers used again and estimators sharing a sample path. '
  'Constraint-based learning with the same options on the same data gives the same edges wherever the data came from, and the spurious edges reported are the learned ones that are not prior edges.',
  ['histories'], 'every sequence of operations on one or more networks, their trajectories, documents, importers, sample paths, graphs and estimators',
  'Unit tests exercise one class at a time on fresh objects; aliasing between components and loss between stages show only in longer histories.',
  [G+'trajectory_generator.py', U+'json_exporter.py', U+'abstract_exporter.py', U+'json_importer.py', U+'sample_importer.py', U+'abstract_importer.py', G+'sample_path.py', G+'structure.py', G+'network_graph.py', S+'parameters_estimator.py', S+'structure_estimator.py'],
  ['TrajectoryGenerator.__init__', 'TrajectoryGenerator.CTBN_Sample', 'JsonExporter.out_file', 'JsonImporter.import_data', 'SampleImporter.import_data', 'SamplePath.build_trajectories', 'SamplePath.build_structure', 'StructureEstimator.estimate_structure'])
p('C25', 'Learning recovers a network from enough of its own trajectories',
  'When every parent clearly changes the rates (or destinations) of its child and the trajectories show every configuration often enough, the structure learned from sampled trajectories is that of the network: constraint-based learning with a small significance finds every edge and nothing else, hill climbing and tabu search given enough iterations find every edge and hardly ever another. '
  'This holds whatever the order of the variables in the data, for data in memory and in documents, with any prior structure and any true edges declared as known; and the intensities estimated on the true structure come back within their sampling error for every configuration.',
  ['inputs', 'histories', 'schedules'], 'every network of strong dependences (no effect hidden by another), every sufficiently long sample of it, every algorithm and every order of its steps',
  NODATA + 'No unit test goes from a network to data and back.',
  [G+'trajectory_generator.py', S+'structure_constraint_based_estimator.py', S+'structure_score_based_estimator.py', S+'fam_score_calculator.py', S+'parameters_estimator.py', O+'constraint_based_optimizer.py', O+'hill_climbing_search.py', O+'tabu_search.py'],
  ['TrajectoryGenerator.CTBN_Sample', 'StructureConstraintBasedEstimator.complete_test', 'StructureScoreBasedEstimator.get_score_from_graph', 'ConstraintBasedOptimizer.optimize_structure', 'ParametersEstimator.compute_parameters_for_node'])
p('C26', 'Seeded runs can be repeated',
  'After the generators of Python and numpy were seeded, what the operations answer - generated graphs and networks, sampled trajectories (the set of those sampled in parallel), structures learned by hill climbing, tabu search or constraint-based learning - depends only on the seeds and on the operations and inputs since seeding: '
  'not on the process, not on what was done before with the same or other objects, not on the hashing or timing of the process.',
  ['histories', 'schedules'], 'every sequence of operations after seeding, on fresh and on used objects, in any process',
  'Unit tests check single runs; whether a run can be repeated shows only when two histories are compared.',
  [G+'network_generator.py', G+'trajectory_generator.py', O+'hill_climbing_search.py', O+'tabu_search.py', S+'structure_estimator.py'],
  ['NetworkGenerator.generate_graph', 'NetworkGenerator.generate_cims', 'TrajectoryGenerator.CTBN_Sample', 'TrajectoryGenerator.multi_trajectory', 'HillClimbing.optimize_structure', 'TabuSearch.optimize_structure'])
p('C27', 'A failed operation is reported and leaves everything as it was',
  'When learning fails - a test, a score or an estimation raises in some task, a worker process dies, the run is interrupted - the caller gets an error and never a partial structure; the sample path (with its prior edges), the result the estimator shows and everything else are as before, and learning again with the same or another estimator gives what it would have given without the failure. '
  'The same holds for input that is refused: an index or folder that does not exist, an entry of a document without one of its tables, a header with an unknown column, data that cannot be written, variables in another order, a density that gives no whole number of edges, a range that is none, unknown nodes and edges: generators, structures, graphs, importers, exporters and saved results go on as if it had not been asked, and the document of an exporter that failed is the one that was there.',
  ['crash_points', 'fault_sequences', 'histories', 'schedules'], 'every operation, every point at which it can fail, every schedule of the workers, every later use of the same objects',
  'Unit tests exercise runs that succeed; what a failure leaves behind is seen only by going on after it.',
  [S+'structure_estimator.py', S+'structure_constraint_based_estimator.py', S+'structure_score_based_estimator.py', G+'network_generator.py', U+'json_exporter.py', U+'json_importer.py', G+'structure.py', G+'network_graph.py'],
  ['StructureConstraintBasedEstimator.ctpc_algorithm', 'StructureScoreBasedEstimator.estimate_structure', 'NetworkGenerator.generate_graph', 'JsonExporter.out_file', 'JsonImporter.import_data', 'Structure.remove_node', 'NetworkGraph.remove_node'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in props: f.write(json.dumps(x) + '\n')
print(len(props))
