#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))


CS = 'nodefinder/coordinate_system.py'
CELL = 'nodefinder/search/result/_cell_list.py'
SRC = 'nodefinder/search/result/_search_result_container.py'
MIN = 'nodefinder/search/result/_minimization.py'
CST = 'nodefinder/search/result/_controller_state.py'
CTL = 'nodefinder/search/_controller.py'
Q = 'nodefinder/search/_queue.py'
RUN = 'nodefinder/search/_run.py'
NM = 'nodefinder/search/_minimization/_nelder_mead.py'
NMR = 'nodefinder/search/_minimization/_run.py'
FP = 'nodefinder/search/_fake_potential.py'
MESH = 'nodefinder/search/_mesh_helper.py'
STEN = 'nodefinder/search/refinement_stencil.py'
CLU = 'nodefinder/identify/_cluster.py'
DIM = 'nodefinder/identify/_dimension.py'
IRUN = 'nodefinder/identify/_run.py'
EV = 'nodefinder/identify/_evaluate/_run.py'
EVP = 'nodefinder/identify/_evaluate/_point.py'
LR = 'nodefinder/identify/_evaluate/_line/_run.py'
LB = 'nodefinder/identify/_evaluate/_line/_ballistic.py'
LD = 'nodefinder/identify/_evaluate/_line/_dominating_set.py'
LS = 'nodefinder/identify/_evaluate/_line/_shortest_path.py'
ICON = 'nodefinder/identify/result/_containers.py'
ISH = 'nodefinder/identify/result/_shapes.py'

p('C01', 'Distances are minimum-image distances',
  'In a periodic box the distance between two positions is the smallest Euclidean length of any vector connecting '
  'periodic images of them; in a non-periodic box it is the plain Euclidean distance. '
  'It is therefore symmetric, zero exactly for equivalent positions, and unchanged when either position is shifted by '
  'whole box lengths; comparing one position with many at once gives the same values as comparing one by one.',
  ['inputs', 'configurations'], 'for all box limits, periodic or not, in 1-3 dimensions, and all pairs of positions inside or outside the box',
  'No test checks distances directly; the few end-to-end runs use the unit cube or a handful of boxes and sampled points.',
  [CS], [('CoordinateSystem.distance', CS)], ['CoordinateSystem.distance return value'])

p('C02', 'Connecting vectors lead from one position to the other the short way',
  'Adding the connecting vector of two positions to the first position gives the second, up to whole box lengths in a '
  'periodic box and exactly in a non-periodic one. In a periodic box no component is longer than half the box and the '
  'length of the vector equals the distance of the two positions; the vector to many positions at once is the same as one by one.',
  ['inputs', 'configurations'], 'for all box limits, periodic or not, in 1-3 dimensions, and all pairs of positions',
  'No test calls it; it is only exercised through line identification on stored samples (which are missing or fail here).',
  [CS], [('CoordinateSystem.connecting_vector', CS)], ['CoordinateSystem.connecting_vector return value'])

p('C03', 'Coordinate conversions are inverse to each other and normalized',
  'Converting a position to fractional coordinates and back gives the same position (up to whole box lengths if periodic). '
  'In a periodic box fractional coordinates are in [0, 1), and normalizing a position gives an equivalent position '
  'within the limits, the same one when repeated; without periodicity normalizing changes nothing. '
  'The order in which the two limits of a dimension are given does not matter.',
  ['inputs', 'configurations'], 'for all box limits (in either order), periodic or not, and all positions',
  'Tests only use positions inside a few fixed boxes and never compare conversions.',
  [CS], [('CoordinateSystem.get_frac/get_pos/normalize_position', CS)], ['return values'])

p('C04', 'Averages of positions respect periodicity and stay in the box',
  'Without periodicity the average of positions is their arithmetic mean. In a periodic box it lies within the limits and '
  'is equivalent to the mean of those images of the positions which lie nearest to the first position, so replacing '
  'any position by one of its periodic images does not change the average.',
  ['inputs', 'configurations'], 'for all box limits and all lists of positions (no position exactly half a box away from the first)',
  'One (here failing) test averages one cluster in the unit cube, where a missing offset or wrap-around cannot show.',
  [CS, EVP], [('CoordinateSystem.average', CS), ('position of a NodalPoint', EVP)], ['CoordinateSystem.average', 'NodalPoint.position'])

p('C05', 'Neighbour queries report exactly what lies within the cutoff',
  'For every position, the neighbour queries of a search result report, exactly once and with its correct distance, every stored '
  'node (other than at exactly that position), respectively every refined position, that is closer than the cutoff distance, no matter how the box is '
  'divided into cells and whether or not the positions lie inside the box. Whatever else they report are stored entries, at most once each, with '
  'their correct distance.',
  ['inputs', 'configurations'], 'for all boxes, periodic or not, cutoffs (including zero and larger than the box), stored positions and query positions',
  'Tests compute three cell indices; completeness of the cell lookup at cell borders, at the box boundary, outside the box and for few or many cells is not reached.',
  [CELL, SRC], [('CellList.get_index / get_neighbour_values', CELL), ('SearchResultContainer.get_*neighbour_distance*', SRC)],
  ['get_neighbour_distance_iterator', 'get_all_neighbour_distances', 'get_refined_neighbour_distance_iterator'],
  [('cells', 'values binned by fractional coordinate', CELL)])

p('C06', 'Search results are classified correctly and never lost',
  'Every result added to a search result container appears exactly once in the list of all results; it is reported as a node exactly if its '
  'minimization succeeded and its value does not exceed the gap threshold, and as rejected otherwise, also when added on construction or by reloading. '
  'Its position is mapped into the limits if the box is periodic and left unchanged if it is not, and adding a result or refined position marks the container as needing to be saved.',
  ['inputs', 'histories'], 'for all results (value, success flag, position), thresholds, boxes, and sequences of additions',
  'End-to-end tests only see successful results far from the threshold and positions already in the box.',
  [SRC], [('SearchResultContainer.add_result / set_refined / minimization_results', SRC)],
  ['nodes', 'rejected_results', 'minimization_results', 'needs_saving'])

p('C07', 'The initial mesh covers the whole box evenly',
  'The search starts from exactly one simplex per mesh point (the product of the mesh sizes, distinct), each a non-degenerate simplex with one vertex more than '
  'there are dimensions, at mesh points which start at the lower limits and are evenly spaced: up to and including the upper limits without periodicity, '
  'and dividing the box into equal parts without repeating the boundary with periodicity. A single integer mesh size means that size in every dimension; '
  'a mesh size whose number of entries differs from the number of dimensions is refused with ValueError.',
  ['inputs', 'configurations'], 'for all box limits, mesh sizes and dimensions',
  'Tests use meshes of the unit cube and only count results; a shifted or lopsided mesh still finds their nodes.',
  [MESH, CTL], [('initial mesh generation', MESH), ('Controller.check_dimensions', CTL)], ['first evaluations of the gap function', 'simplex queue of a new controller'])

p('C08', 'Refinement stencils surround the node outside of the cutoff',
  'The automatic refinement stencil of every dimension, and the circle stencil with any number of points, consists of non-degenerate simplices with dim + 1 vertices, all of whose '
  'vertices are farther than one (the cutoff distance) from the origin, so that refinement is never discarded because of the node it started from. '
  'A mesh stencil has one simplex per mesh point in the box reaching dist_multiplier to either side in each dimension, except for a mesh point at the origin.',
  ['inputs', 'configurations'], 'for all numbers of points, mesh sizes and multipliers, and dimensions 1-4',
  'No test looks at stencils; refinement that is silently discarded just finds fewer points.',
  [STEN, MESH], [('get_auto_stencil / get_circle_stencil / get_sphere_stencil / get_mesh_stencil', STEN)], ['returned arrays'])

p('C09', 'Work queues hand out each object once and lose none',
  'A work queue hands out every distinct object given to it exactly once, in the order given (simplices with the same vertices in another order are the same object), also when it is created with repeated objects. '
  'The objects it lists, which are what is saved, are at any time exactly the ones not handed out plus, for simplices, those still running, running ones first; the simplex queue is finished exactly when there are '
  'none, and its number of running objects is that of simplices handed out and not finished.',
  ['inputs', 'histories'], 'for all sequences of add, pop and finish operations on arbitrary objects',
  'Tests use the queue only through complete runs that never repeat an object and are rarely interrupted.',
  [Q], [('ObjectQueue / RunningQueue', Q)], ['objects', 'pop_queued', 'finished', 'num_running', 'has_queued'],
  [('_queued_objects', 'objects still to hand out', Q), ('_running_objects', 'objects handed out, not finished', Q), ('_all_objects', 'objects ever queued', Q)])

p('C10', 'Minimization results tell the truth about the minimization',
  'For every function and starting simplex, the value of a minimization result is the value of the function at its position and the lowest of all function values that were evaluated (also if the function modifies the position it is given), and the reported number of function '
  'evaluations is the number of calls made. Success is reported exactly if the final simplex fulfils both tolerances (edge components from the best vertex at most xtol, values at most ftol above the best) while no limit was hit; otherwise the status '
  'and message name the limit (evaluations, iterations, derivative cutoff). No iteration is started once the evaluation or iteration limit is reached, or the best value divided by the longest simplex edge exceeds the derivative cutoff.',
  ['inputs', 'programs'], 'for all functions (arbitrary, also infinite, values), starting simplices, tolerances and limits',
  'Tests minimize a distance function from a mesh and only look at where the result ends up.',
  [NM], [('root_nelder_mead', NM)], ['MinimizationResult attributes', 'calls of the function'])

p('C11', 'Each minimization iteration is a Nelder-Mead step and is recorded',
  'Each iteration replaces the sorted simplex by the one the Nelder-Mead rules prescribe (reflection 1, expansion 2, contraction 1/2, shrink 1/2 towards the best vertex), so the best value never increases. '
  'The history holds the sorted simplex and its function values after every iteration including the start, ending with the final one whose best vertex is the result position, or just the final simplex if no history is kept.',
  ['inputs', 'programs'], 'for all functions and simplices; one arbitrary step and several consecutive ones',
  'Tests cannot tell a wrong step rule from a slow minimization.',
  [NM], [('root_nelder_mead', NM)], ['simplex_history', 'fun_simplex_history', 'positions at which the function is evaluated'])

p('C12', 'The fake potential repels without falsifying results',
  'With the fake potential enabled a minimization first runs on the function plus a potential that is infinite closer than its width to a known node (other than at exactly its position) and zero elsewhere, and then on the original function '
  'from the final simplex of the first run enlarged by 1.5 about its best vertex. The reported position, value and status are those of the second run on the original function, '
  'and the reported evaluation and iteration counts and histories cover both runs in order.',
  ['inputs', 'programs', 'histories'], 'for all functions, known nodes, widths and starting simplices',
  'End-to-end tests only check final node positions; a reported value including the potential, or a wrong width, goes unnoticed.',
  [NMR, FP, MIN], [('run_minimization', NMR), ('FakePotential', FP), ('JoinedMinimizationResult', MIN)], ['result attributes', 'FakePotential return value'])

p('C13', 'A search processes every starting simplex exactly once',
  'In whatever order function evaluations complete, a search returns only after every starting simplex (initial mesh and refinement) has either been minimized exactly once, with its result recorded '
  'exactly once, or been skipped because more of its vertices than allowed were closer than the cutoff to nodes already found. There are never more minimizations in progress than '
  'the given maximum.',
  ['schedules', 'inputs', 'configurations'], 'for all completion orders of evaluations, function values, limits on parallel minimizations',
  'Tests use synchronous functions, so only one schedule is ever run.',
  [CTL, RUN], [('Controller.create_tasks / run_simplex / _check_simplex', CTL)], ['calls of the gap function', 'returned result'])

p('C14', 'Every node gets refined, and no neighbourhood is refined twice',
  'When a search with a refinement stencil finishes, every node it found lies closer than the cutoff to a position around which the stencil (scaled by the cutoff) was queued, every such refined position is the position '
  'of a node, and with the default re-checking no two refined positions are closer than the cutoff. Without a stencil nothing is refined.',
  ['schedules', 'inputs', 'configurations'], 'for all functions, completion orders and cutoffs',
  'Tests use isolated nodes where one refinement each suffices, or dense features where a missing one does not show.',
  [CTL, SRC], [('Controller.process_result / _check_pos_refinement / create_tasks', CTL)], ['refined_results', 'calls of the gap function'])

p('C15', 'Errors of the gap function reach the caller and lose no work',
  'If the gap function raises an exception, the search call raises it to its caller (whether called with or without a running event loop), after saving; '
  'the saved state still contains all results found and all simplices not minimized, including the failed one, so a restart completes the search. Without an error, the search call returns the same '
  'result in both situations.',
  ['fault_sequences', 'schedules', 'histories'], 'for every evaluation at which the function fails, every completion order, and both calling contexts',
  'One test raises on every evaluation, without a save file and outside of an event loop.',
  [CTL, RUN], [('Controller.create_tasks', CTL), ('run / _run_in_thread', RUN)], ['raised exception', 'save file content'])

p('C16', 'The save file is always complete',
  'At every moment, also if the process dies or an operation fails at any point while saving, the save file is either absent as before, or a complete earlier state, or the complete new state. '
  'A failed save raises its error, leaves no additional file behind, and is tried again with the next save; a successful save leaves only the save file, and saving is skipped only if nothing changed since. '
  'When a search ends normally, the save file holds its final state.',
  ['crash_points', 'fault_sequences', 'histories'], 'for every crash point and failing operation during any sequence of saves',
  'No test interrupts or fails a save.',
  [CTL, CST], [('Controller.save', CTL), ('ControllerState.needs_saving', CST)], ['directory content at each file operation'])

p('C17', 'Restarting continues exactly where the saved state left off',
  'Starting from a given or loaded state keeps all its results and refined positions, processes every simplex and position that was queued or running in it, and does not start over from the initial mesh unless forced to, in which case the mesh is '
  'queued in addition. Giving an initial state together with loading is refused with ValueError; a save file that cannot be read starts a new search if load_quiet is set and raises otherwise.',
  ['histories', 'inputs', 'configurations'], 'for all states and all combinations of the restart options',
  'Tests restart finished runs with one kind of state only.',
  [CTL], [('Controller.create_state', CTL)], ['state of the controller', 'calls of the gap function'])

p('C18', 'Saving and loading search states preserves them',
  'Saving and loading a coordinate system, minimization result (also a two-stage one), search result or controller state gives back an equal object: all fields and their types that matter, nodes and rejected results in order, refined '
  'positions, queue content (running simplices as queued), thresholds, coordinate system.',
  ['inputs', 'configurations'], 'for all values, optional fields, empty or filled parts, dimensions',
  'Tests load a few stored samples; no test compares a saved object with what is loaded.',
  [SRC, MIN, CST, Q, CS, 'nodefinder/io.py'], [('to_hdf5 / from_hdf5 of the search classes', MIN)], ['io.save followed by io.load'])

p('C19', 'Clusters are the connected components at the feature size',
  'Every distinct input position is in exactly one cluster, and two positions are in the same cluster exactly if they are linked by a chain of positions with steps no longer than the feature size, taking periodicity '
  'into account. Within a cluster exactly the pairs at most the feature size apart are joined by an edge, which carries their distance; the order and repetition of the input positions do not matter.',
  ['inputs', 'configurations'], 'for all sets of positions, feature sizes and boxes',
  'One passing test counts the clusters of a single sample.',
  [CLU], [('create_clusters', CLU)], ['returned graphs'])

p('C20', 'The dimension of a cluster is a two-thirds majority',
  'The dimension of a cluster is one found for at least two thirds of the positions evaluated, evaluating at least the requested minimum number of positions or all of them if there are fewer. It is undetermined (None, with a warning) exactly if '
  'no dimension reaches two thirds of all positions and none did so before; it is between zero and the smaller of the maximum asked for and the number of coordinates.',
  ['inputs', 'configurations'], 'for all clusters, all evaluation orders and all minimum numbers of evaluations',
  'The evaluation order is random, tests see one draw on stored samples (and fail in this environment).',
  [DIM], [('calculate_dimension / _check_count', DIM)], ['calculate_dimension return value'])

p('C21', 'The local dimension depends only on the geometry',
  'At a position of a cluster the dimension is at least d exactly if (for that and all lower d) the average d-dimensional volume spanned with tuples of d of its neighbours exceeds half of the one expected for points filling a d-dimensional ball of the feature size '
  '(mean volumes 1/2, 8/(9 pi), 27 pi/512 times feature_size**d), when all tuples are evaluated. So it does not change if the cluster is shifted, wrapped around a periodic box, or scaled together with the feature size; isolated or coinciding positions have dimension 0 and collinear ones at most 1.',
  ['inputs', 'configurations'], 'for all positions, feature sizes and boxes; all sampling choices',
  'Tests see the final majority vote on stored samples only.',
  [DIM], [('_get_dimension / _has_dimension / _get_volume', DIM)], ['calculate_dimension return value'])

p('C22', 'Identified lines are made of the cluster and cover it',
  'For each evaluation method, the graph of a nodal line contains only positions of its cluster and joins only positions at most the feature size apart, and every position of the cluster is on the line or at most the feature size from a '
  'position on it. Lines from the shortest path and dominating set methods are connected. The degree count gives the number of line positions with each degree other than two, and the shape name is closed loop if there are none, open line if exactly two have degree one, unknown otherwise.',
  ['inputs', 'configurations'], 'for all one-dimensional clusters (connected graphs) and all methods',
  'Tests use two samples with the default method (which are missing or fail here); the other methods are never run.',
  [LR, LB, LD, LS, ISH, EV], [('_evaluate_line', LR), ('NodalLine.shape_name', ISH)], ['NodalLine.graph / degree_count / shape_name'])

p('C23', 'Identification accounts for every node and picks the right shape',
  'Identifying a search result or controller state uses all node positions (and no rejected ones) and its feature size, three times the cutoff, unless another is given; every distinct position is in exactly one identified object, those of one object forming one cluster. '
  'An object of dimension zero has as its shape the point at the average of its positions, one of dimension one a line, all others (also undetermined ones) none.',
  ['inputs', 'configurations'], 'for all node positions, boxes, feature sizes and both kinds of input',
  'The identification tests all fail in this environment or lack their samples.',
  [IRUN, EV, EVP], [('identify.run / run_from_positions', IRUN), ('evaluate_cluster', EV)], ['IdentificationResultContainer'])

p('C24', 'Saving and loading identification results preserves them',
  'Saving and loading an identification result, container or shape gives back an equal object: positions, dimension including undetermined, shape (none, point, or line with all its nodes, edges and degree counts), coordinate system and feature size.',
  ['inputs', 'configurations'], 'for all numbers of positions, nodes and edges, also isolated ones, and all values',
  'The only test that loads a stored identification result fails in this environment; nothing is compared.',
  [ICON, ISH], [('to_hdf5 / from_hdf5 of the identification classes', ICON)], ['io.save followed by io.load'])

p('C25', 'Plots show exactly the result',
  'Plotting a search result draws each node exactly once at its position, and plotting minimizations draws every edge of every simplex in their history. Plotting a nodal line draws each edge of its graph exactly once, except those longer than twice the feature size (which cross the '
  'periodic boundary), and draws its positions if there are no edges; plotting an identification result draws every object, those without a shape as their positions.',
  ['inputs', 'configurations'], 'for all results and line graphs, 2 and 3 dimensions',
  'Plot tests run without comparing images here, and compare only five fixed images otherwise.',
  ['nodefinder/search/plot.py', 'nodefinder/identify/plot.py'], [('plot functions', 'nodefinder/identify/plot.py')], ['calls on the axes object'])

p('C26', 'The search finds all nodal features densely',
  'For a sufficiently fine initial mesh, the nodes found by a search lie densely (at the scale of the feature size) on every nodal point, line and surface of the function.',
  ['inputs', 'programs'], 'for all continuous functions with nodal features',
  'Tests cover a handful of functions.',
  [CTL, NM], [('search as a whole', RUN)], ['returned nodes'])

p('C27', 'Cell lookup and normalization stay in range in double precision',
  'For every finite double-precision position, normalizing it in a periodic box gives a position within the closed limits (up to the rounding of the size of the box), its fractional coordinate is not above one, and the node container accepts the normalized position (no index '
  'out of range) for every possible number of cells.',
  ['inputs', 'configurations'], 'for all double-precision positions, numbers of cells 1 to 100',
  'Rounding corner cases (values one unit in the last place below or above a boundary) are never sampled.',
  [CS, CELL], [('normalize_position / get_frac', CS), ('CellList.get_index', CELL)], ['add_result / set_refined not raising'])

p('C28', 'The options of a search reach its minimizations',
  'Unless given otherwise, the minimizations of a search use 5 % of the gap threshold as tolerance of values and 3 % of the cutoff distance (a third of the feature size) as tolerance of positions. Arguments given for the '
  'minimization are passed on to every one, each replacing only its own default. With the fake potential enabled, every minimization is repelled from within the cutoff distance of the nodes known so far, and without it none is. '
  'Whether the function is given as a plain function or a coroutine makes no difference to the result.',
  ['inputs', 'programs', 'configurations'], 'for all functions, thresholds, feature sizes, and combinations of minimization arguments',
  'End-to-end tests use the default options or one set of them, and only look at where nodes are found.',
  [CTL, NMR, FP], [('Controller.__init__ / run_simplex', CTL), ('run_minimization', NMR)], ['minimization results of a search', 'calls of the gap function'])

p('C29', 'What is handed in stays unchanged and can be used again',
  'Coordinate functions, searches, identification, plotting and saving leave the arrays, lists, options, results and states given to them as they were (except that the position of a result added to a container is mapped into the box), and '
  'positions passed to the gap function are not modified afterwards. So starting another search from the same state and options, or identifying the same result again, gives the same, and what is added to a container or queue does not show up in the lists it was created from.',
  ['inputs', 'histories', 'configurations'], 'for all results, states, positions and options',
  'Tests never look at their inputs again after a call.',
  [CTL, CS, SRC, Q, IRUN, ICON], [('Controller.create_state', CTL), ('CoordinateSystem', CS), ('containers and queues', SRC)], ['objects given to public functions, before and after'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
