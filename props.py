#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os
import specs
HERE = os.path.dirname(os.path.abspath(__file__))
S = 'include/solvers/'
ALLS = [S + x + '.hpp' for x in specs.SOLVERS + specs.JPS] + [S + 'base/solver.hpp']
TESTS = 'The tests solve one perfect maze per size (a single route, cubic, one seed, one configuration) '
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe, state=state, na=na))


prop('P01', 'A route returned on a grid is walkable',
     'Whenever a solver returns a non-empty answer for a grid maze, the answer, completed by whichever of the two endpoints it leaves out, is a sequence of open cells inside the maze that leads from the start to the end (in one of the two orders) by legal single moves (axis steps, or also diagonal steps in octile mode; for the jump-point solvers, straight or diagonal runs over open cells), without visiting a cell twice. While searching, no solver asks the maze for the neighbours of a closed cell or of one outside the maze.',
     ['inputs', 'configurations'], 'every grid maze of 1 to 4 dimensions and any shape, every open start and end, every solver, every setting of lazy sorting, cleanup, reverse equivalence and octile neighbours, every heuristic, weight and capacity',
     TESTS + 'and only compare lengths with a reference; loops, open areas, non-cubic shapes, octile moves and the other settings are never run.',
     ALLS + ['include/utils/utils.hpp', 'include/mazes/grid.hpp'],
     [('closed-set test before a neighbour is opened', 'solve_internal of each solver'), ('parent chains turned into a coordinate list', 'rbacktrack, rbacktrack_noreverse, ibacktrack in solver.hpp')],
     'runtime monitoring: route oracle and monitored maze over random solves',
     'Held on the solves of this run (hundreds of thousands per quick run). Trusts the 30-line route checker; a claim about executions, not a proof.', observe=['return value of solve', 'calls of get_neighbours'])
prop('P02', 'A grid query is answered exactly when a route exists',
     'For every grid maze with open start and end, a solver returns an empty answer if and only if no legal sequence of moves connects them. The jump-point solvers may also answer with nothing when every route squeezes diagonally between two closed cells, and the memory-bounded solvers are judged with ample memory.',
     ['inputs', 'configurations'], 'every grid maze, pair of open cells, solver and configuration',
     'Every maze in the tests is connected: an empty answer is never correct there, and mazes with cycles, dead regions and detours are not sampled.',
     ALLS, [('search until the open set is exhausted', 'main loop of each solver'), ('deepening stops when nothing was cut off', 'iddfs, eiddfs, idastar, eidastar, idbest_first, eidbest_first, fringe')],
     'runtime monitoring: verdicts against an independent breadth-first search', 'Held on the solves of this run; mazes up to a few thousand cells (iterative-deepening solvers: mazes with at most 20000 simple paths from an end).', observe=['return value of solve'])
prop('P03', 'Optimal solvers return a shortest route on grids',
     'With a consistent heuristic (including none), weight 1, eager sorting and ample memory, the routes of A*, its greedy-memory, memory-bounded and iterative-deepening variants, fringe search, breadth-first search, iterative-deepening depth-first search, Dijkstra and the jump-point solvers have the least possible number of moves (jump points: the least length among routes that never squeeze between two closed cells, counting diagonals as the square root of two for floating scalars and as one for integers). Breadth-first, deepening, fringe and memory-bounded solvers keep this under lazy sorting.',
     ['inputs', 'configurations'], 'every grid maze with a route, every pair of open cells, every solver of the optimal family and every configuration',
     'In a perfect maze the only route is the shortest one, so a search that closes cells too early or orders its open set wrongly still passes.',
     [S + x + '.hpp' for x in specs.OPT] + ['include/types/containers/heap.hpp', 'include/utils/heuristics.hpp'],
     [('open set ordered by f, then g', 'operator< of each node, heap'), ('a node is final only when taken from the open set', 'solve_internal'), ('thresholds grow to the least value cut off', 'idastar, eidastar, fringe')],
     'runtime monitoring: route cost against an independent optimum', 'Held on the solves of this run. Optimality under lazy sorting is not promised by the library for heap-based solvers and is not judged.', observe=['return value of solve'])
prop('P04', 'Graph queries return real routes exactly when one exists',
     'On an explicit weighted graph with undirected roads, every graph-capable solver returns an empty answer if and only if the two vertices are not connected, and otherwise vertices in order along existing edges between the start and the end (endpoints may be left out) without repetition. This holds for any number of edges per vertex.',
     ['inputs', 'configurations'], 'every finite graph with positive weights, every pair of distinct vertices, every solver except the grid-only jump-point solvers',
     'The tests never solve on a hand-made graph; the graph code is only instantiated indirectly.',
     ['include/mazes/graph.hpp', S + 'base/solver.hpp', S + 'base/managed_node.hpp'] + ALLS,
     [('neighbour data of graphs', 'get_data in solver.hpp'), ('successor counts keep shared parents alive', 'managed_node.hpp')],
     'runtime monitoring: verdict and edge oracle over random graphs', 'Held on the solves of this run: graphs of up to 600 vertices and degree 600.', observe=['return value of solve'])
prop('P05', 'Cost-optimal solvers return a lightest route on weighted graphs',
     'With no heuristic, weight 1, eager sorting and ample memory, A*, its greedy-memory, memory-bounded and iterative-deepening variants, fringe search and Dijkstra return a route of least total edge weight on any weighted graph.',
     ['inputs', 'configurations'], 'every finite undirected graph with positive weights and every connected pair of vertices',
     'No test has edges of different weight.',
     [S + x + '.hpp' for x in specs.OPTW] + ['include/mazes/graph.hpp'],
     [('relaxation and ordering by accumulated weight', 'solve_internal of each solver')],
     'runtime monitoring: total weight against an independent Dijkstra search', 'Held on the solves of this run; integer weights up to 50, integer and floating scalars.', observe=['return value of solve'])
prop('P06', 'Every search stops, also when the goal is unreachable',
     'Every solve finishes. Solvers that remember visited cells ask for the neighbours of each cell at most about once (no more than two requests per cell in total), whether or not the goal is reachable; the deepening and memory-bounded solvers stop after work bounded by the simple paths of the maze times the number of bounds.',
     ['inputs', 'configurations'], 'every maze, query, solver and configuration, reachable or not',
     'All test queries are reachable and a wrong re-expansion rule costs nothing in a maze without cycles.',
     ALLS, [('closed sets and thresholds', 'main loop of each solver')],
     'runtime monitoring: expansion counter in a monitored maze, step budgets', 'Bounded progress: decided on expansion counts; a wall-clock watchdog (20 s, then 60 s alone) only backs it up for runs that never return to the maze.', observe=['calls of get_neighbours', 'return of solve'])
prop('P11', 'Verdict and optimal cost do not depend on the configuration',
     'For one maze and query, all solvers and all settings (storage of cells, index and scalar type, lazy sorting, cleanup, reverse equivalence) with the same neighbourhood agree on whether a route exists, and all settings under which a solver promises optimality agree on the cost.',
     ['configurations', 'inputs'], 'every combination of configuration options and every query',
     'The tests fix one configuration (cleanup off, reverse equivalence on, one index and scalar type).',
     ALLS + ['include/mazes/grid.hpp'], [('configuration traits select code paths', 'params_t traits in every solver')],
     'runtime monitoring: differential runs of one query through all configurations', 'Held on the queries of this run; queries whose only routes squeeze diagonally are not compared for jump-point solvers.', observe=['return value of solve'])
prop('P13', 'Degenerate queries are answered without searching',
     'If the start equals the end and is open, the answer is exactly that cell; if either end is closed, lies outside the maze, or names a vertex that does not exist, the answer is empty. In all these cases nothing is searched and no error is raised.',
     ['inputs', 'configurations'], 'every maze, solver and configuration, every query whose ends coincide or are closed or missing',
     'The tests only ask from one corner of a maze to the other.',
     [S + 'base/solver.hpp', 'include/mazes/grid.hpp', 'include/mazes/graph.hpp'], [('guards before the solver is invoked', 'solver::solve')],
     'runtime monitoring: known answers and a monitored maze', 'Held on the queries of this run.', observe=['return value of solve', 'calls of get_neighbours'])

prop('P07', 'Solving never touches foreign memory or runs into undefined behaviour',
     'No query, whatever the maze, ends, heuristic, weight, capacity, memory limit, index type, scalar type and memory resource, makes a solver read or write outside live memory, use uninitialised values, misalign or double-free a node, overflow a signed value, misuse a container or iterator, fail an assertion or raise an exception.',
     ['inputs', 'configurations'], 'every query on every maze of 1 to 4 dimensions or graph, every solver and configuration, degenerate queries and inconsistent heuristics included',
     'The tests run without sanitizers on perfect mazes; memory errors on other shapes, in the cleanup-on configurations and at memory limits stay invisible.',
     ALLS + ['include/types/containers/*.hpp', 'include/types/pmr/*.hpp', 'include/utils/utils.hpp'], [('nodes created in and returned to pools', 'nodes/*.hpp, solve_internal of each solver'), ('parents kept alive by successor counts', 'managed_node.hpp')],
     'runtime monitoring: address, undefined-behaviour and memcheck sanitizers and a checking standard library over random solves', 'Held on the solves of this run. A sanitizer only sees what executions reach.', observe=['every memory access of an instrumented build'])
prop('P08', 'Solvers keep to the rules of memory resources',
     'Whatever conforming memory resources a solver is given, it returns each block at most once, to the resource it came from, with the size and alignment it was requested with, and touches it only in between. With cleanup on, every resource that can be reset has been reset when solve returns; with cleanup off, the heterogeneous and homogeneous resources are not reset; resources are never released. Nothing else is left allocated once the answer is destroyed.',
     ['inputs', 'configurations'], 'every query, solver and configuration, with user-supplied resources (plain std::pmr resources without reset included)',
     'The tests only use the library pools, which ignore the size and alignment of returned blocks and hide leaks.',
     ALLS + ['include/types/containers/heap.hpp', 'include/types/containers/existence_set.hpp'], [('cleanup after solve', 'solver::solve'), ('node destruction', 'nodes and smastar, osmastar, mgstar')],
     'runtime monitoring: recording memory resources under AddressSanitizer', 'Held on the solves of this run.', observe=['calls of allocate, deallocate, reset and release', 'global allocator'])
prop('P09', 'A failing allocation or cleanup surfaces cleanly and leaves resources usable',
     'If any single allocation during a query fails, in a memory resource or in the global allocator, the call either ends in std::bad_alloc or still gives a correct answer; no memory is leaked, corrupted or returned twice, resources are reset as after a successful query, and asking again on the same resources gives the normal answer. When resetting a resource fails, the other resources are reset all the same and the failure is reported.',
     ['inputs', 'fault_sequences', 'configurations'], 'every query and configuration, every single allocation of its run failing',
     'No test injects an allocation failure.',
     ALLS + ['include/types/pmr/*.hpp'], [('exception path of solve', 'solver::solve'), ('growth of pools', 'expand in each pool')],
     'runtime monitoring: enumerated allocation failures under AddressSanitizer', 'All single failures of small random queries (a sample of 60 per query when there are more); double failures are not explored.', observe=['outcome of solve', 'calls of allocate, deallocate, reset', 'global allocator'])
prop('P10', 'Answers do not depend on what the resources were used for before',
     'Queries answered one after another over the same pools, by the same or by different solvers, give the same answer after the same sequence of expansions as with fresh pools, and repeating a query repeats its answer. The maze is never modified.',
     ['histories', 'configurations'], 'every sequence of queries over shared pools, with cleanup on',
     'The tests construct resources per query or never compare repeated answers.',
     [S + 'base/solver.hpp', 'include/types/pmr/*.hpp'], [('reset between queries', 'solver::solve, reset of each pool')],
     'runtime monitoring: differential runs of query histories on used and fresh pools', 'Held on the histories of this run (three to eight queries).', observe=['return value of solve', 'calls of get_neighbours'])
prop('P14', 'Pools hand out exclusive, aligned memory that stays put',
     'Every block handed out by the monotonic, homogeneous and heterogeneous pool is aligned as requested, lies in memory owned by the pool, does not overlap any other live block, and keeps its content until it is returned or the pool is reset, released or destroyed, whatever else is requested or returned in between. For the homogeneous pool this is promised for blocks of one size and alignment.',
     ['histories', 'inputs'], 'every sequence of allocate, deallocate, reset and release with any sizes and alignments (powers of two), any initial width and any stack and block limits',
     'The unit tests only solve mazes; the pools themselves are never driven directly, and overlap or misalignment goes unnoticed there.',
     ['include/types/pmr/monotonic_pool.hpp', 'include/types/pmr/homogeneous_pool.hpp', 'include/types/pmr/heterogeneous_pool.hpp'], [('stack block first, then growing heap blocks', 'do_allocate, expand'), ('free lists and best-fit tree', 'do_deallocate of the homogeneous and heterogeneous pool')],
     'runtime monitoring: shadow model of live blocks over random operation sequences under AddressSanitizer', 'Held on the sequences of this run.', observe=['allocate, deallocate, reset, release', 'global allocator'])
prop('P15', 'Pools reuse memory: their footprint is bounded by what is live',
     'Under any churn of equal-sized blocks with a bounded number live, the homogeneous and heterogeneous pools hold no more than a constant factor of the live maximum plus the initial width; repeating the same work after a reset does not make any pool grow; a pool never holds much more than what has been requested from it.',
     ['histories'], 'every sequence of equal-sized allocations and deallocations with a bounded number of live blocks, and every workload repeated after reset',
     'A pool that never recycles passes every functional test.',
     ['include/types/pmr/monotonic_pool.hpp', 'include/types/pmr/homogeneous_pool.hpp', 'include/types/pmr/heterogeneous_pool.hpp'], [('free lists', 'do_deallocate, do_allocate'), ('reset keeps or merges blocks', 'reset')],
     'runtime monitoring: footprint counter on the global allocator', 'Held on the workloads of this run, with fixed factors (three times the live maximum; one and a half times the first round). Mixed-size churn in the heterogeneous pool is not bounded here, because best fit without coalescing may fragment.', observe=['global allocator'])
prop('P16', 'Pools survive failed growth, release and moves without losing or leaking memory',
     'If the global allocator fails, or a size no machine can provide is requested, a pool reports std::bad_alloc and its live blocks and later requests are unaffected; release gives all heap memory back and leaves the pool usable; a pool moved by construction or assignment takes over the live heap blocks, and the emptied one can be used again on its own; when a pool is destroyed, no heap block is left.',
     ['histories', 'fault_sequences'], 'every sequence of pool operations, moves included, with any request to the global allocator failing',
     'No test moves a pool, releases it, or lets an allocation fail.',
     ['include/types/pmr/monotonic_pool.hpp', 'include/types/pmr/homogeneous_pool.hpp', 'include/types/pmr/heterogeneous_pool.hpp'], [('expand and its error path', 'expand in each pool'), ('move operations, cleanup', 'special members of each pool')],
     'runtime monitoring: shadow model with injected allocation failures under AddressSanitizer', 'Held on the sequences of this run; one failure at a time.', observe=['global allocator', 'allocate, deallocate, reset, release, moves'])
prop('P12', 'Queries may run concurrently on one maze',
     'Any number of threads, each with memory resources of its own, may query the same maze at the same time, with the same or with different solvers, and convert it to graphs: no data race occurs, the maze is not modified, and every answer is the one the same query gives alone. Making a graph from a grid, which uses worker threads, is free of data races and gives a graph with the distances of the grid.',
     ['schedules', 'inputs', 'configurations'], 'every schedule of any number of concurrent queries and conversions on one maze',
     'The tests run one query at a time; a hidden static or mutable state changes nothing there, and a lucky schedule hides a race.',
     ALLS + ['include/mazes/graph.hpp', 'include/mazes/grid.hpp'], [('solvers keep their state in the call', 'invoke, solve_internal'), ('additions serialised by a mutex', 'graph constructor from a grid'), ('lookup tables are constant', 'jps.hpp, gjps.hpp')],
     'runtime monitoring: ThreadSanitizer over concurrent queries with random delays, answers against a single thread', 'Held on the schedules of this run (thousands of distinct orders). ThreadSanitizer sees races between accesses that were executed, whatever their order in this run.', observe=['every memory access of an instrumented build', 'return value of solve', 'order of calls of get_neighbours across threads'])
prop('P27', 'Answers have a fixed layout',
     'Whether an answer lists the route from the start or from the end, and whether it includes the start and the end, depends only on the solver, on whether the maze is a grid or a graph, and on the reverse_equivalence setting, not on the maze, the length of the route, or any other setting (the layouts are listed in DESIGN.md; breadth-first, A*, fringe, greedy and jump-point solvers for instance list grid routes backwards, with the end and without the start, or, when a grid may be searched in reverse, with the start and without the end). A flood answers with the end alone.',
     ['inputs', 'configurations'], 'every reachable query with two different ends, every solver and configuration',
     'The tests compare the number of cells only, on long routes.',
     ALLS, [('which end the search starts from', 'solver::solve, reverse_equivalence'), ('backtracking', 'rbacktrack, ibacktrack in solver.hpp, solve_internal')],
     'runtime monitoring: answers against the layout of the solver', 'Held on the solves of this run, a third of them routes of a single step. The table of layouts was read off the code base and is part of the specification.', observe=['return value of solve'])
prop('P17', 'Heaps hand out elements in priority order and lose none',
     'After any sequence of operations, a heap contains exactly the elements put in and not taken out; top is an element no other precedes, and popping returns the elements in an order that agrees with the comparison, for every number of children per node, with equal elements, with elements added unsorted and sorted later, with elements erased from the middle, after building from a range or a container, after copies, moves, swaps and clears, and after growth that failed. Every element is destroyed exactly once.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of heap operations, every number of children, element type and order',
     'The tests only use heaps inside solvers on mazes with one route, where the order of the open set hardly matters.',
     ['include/types/containers/heap.hpp'], [('sifting up and down', 'heapify routines in heap.hpp'), ('erasing from the middle', 'erase'), ('unused first slot', 'begin, constructors')],
     'runtime monitoring: model of the contents under AddressSanitizer and the checking standard library', 'Held on the sequences of this run. reserve only has to preserve the contents.', observe=['every public member of heap', 'constructors and destructors of elements', 'memory resource'])
prop('P18', 'Existence sets know exactly which keys they hold',
     'After any sequence of additions, removals, clears, trims, reservations, copies and moves, contains answers true exactly for the keys added and not removed since, for any key, also beyond the capacity; iteration, size and capacity agree with it, and growth that fails leaves the contents unchanged.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of operations and every key',
     'The tests only use the sets inside solvers, where a key that is wrongly absent costs time and a key wrongly present may go unnoticed in a maze without cycles.',
     ['include/types/containers/existence_set.hpp'], [('bits or flags per key', 'add, remove, contains'), ('growth and trim', 'resize, trim, reserve')],
     'runtime monitoring: model of the contents under AddressSanitizer and the checking standard library', 'Held on the sequences of this run, keys up to 12288 and probes beyond.', observe=['every public member of existence_set', 'memory resource'])
prop('P19', 'Stacks are last-in first-out and queues first-in first-out',
     'After any sequence of operations, stacks and queues hold exactly the elements put in and not taken out, hand them out in last-in first-out and first-in first-out order, keep them over copies, moves, swaps and failed growth, and destroy each exactly once.',
     ['histories', 'fault_sequences'], 'every sequence of operations, every element type',
     'The containers are never tested on their own.',
     ['include/types/containers/stack.hpp', 'include/types/containers/queue.hpp'], [('adaptors over standard containers', 'stack.hpp, queue.hpp')],
     'runtime monitoring: model of the contents under AddressSanitizer and the checking standard library', 'Held on the sequences of this run.', observe=['every public member of stack and queue'])
prop('P20', 'Cell numbers and coordinates are a bijection',
     'For a maze of any shape whose cells the index type can number, to_1d maps each coordinate to its own number below the number of cells, the first dimension varying fastest, and to_nd maps it back; the product of the sizes is the number of cells.',
     ['inputs'], 'every shape of one to seven dimensions, every cell, every index type',
     'The tests use cubic mazes of small sizes, where strides that are mixed up coincide.',
     ['include/utils/utils.hpp'], [('strides', 'to_1d, to_nd, to_2d, to_3d'), ('product', 'product')],
     'runtime monitoring: conversions against 128-bit arithmetic under sanitizers', 'Held on the cells of this run: all cells of small mazes, cells at the strides and random cells of large ones.', observe=['return values'])
prop('P21', 'A grid is exactly its table of cells',
     'A grid of any shape reports the size, number of cells and cell values it was given, however it was made, copied, moved or assigned; a cell is active unless its value is the largest of its type; contains is true exactly for coordinates and numbers inside; and get_neighbours lists, for every cell, exactly the legal single moves from it in both neighbourhoods, marked active exactly when the target is inside and open. A cell is transitory exactly when it has two open neighbours.',
     ['inputs'], 'every shape of one to six dimensions, every cell type, every cell',
     'The tests only solve cubic mazes with axis moves; neighbours at the borders of flat or long shapes, octile neighbours and other cell types are not checked.',
     ['include/mazes/grid.hpp', 'include/mazes/nodes/*.hpp'], [('neighbour generation', 'get_neighbours and its helpers'), ('sentinel for closed cells', 'weighted_node, is_active')],
     'runtime monitoring: adjacency against the definition under sanitizers', 'Held on the grids of this run.', observe=['return values of grid members'])
prop('P22', 'Explicit graphs hold exactly the edges they were given',
     'After any sequence of additions, removals, moves and clears, a graph contains exactly the vertices and edges added and not removed (an edge list keeps its order and repetitions; removing an edge removes its equals, and the vertex with its last edge), and gives its memory back to its resource; growth that fails leaves no half-made state that breaks later use.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of graph operations',
     'The tests build no graph by hand.',
     ['include/mazes/graph.hpp'], [('adjacency map', 'add, remove, contains, get_neighbours')],
     'runtime monitoring: model of the edge lists under AddressSanitizer', 'Held on the sequences of this run.', observe=['every public member of graph', 'memory resource'])
prop('P23', 'Converting a grid to a graph and pruning keep the distances',
     'A graph made from a grid has only open cells as vertices, edges in both directions, and between the vertices that remain exactly the distances of the grid; every dead end, isolated cell and part that has one is kept. Pruning a graph of two-way roads keeps distances and connectivity between the vertices that remain, keeps every vertex that does not merely connect two others, and removes the others while more than two vertices are left.',
     ['inputs', 'schedules'], 'every grid of one to four dimensions, every weighted graph of two-way roads, rings, loops and parallel roads included',
     'The tests convert nothing; only the demo application does, on perfect mazes without cycles.',
     ['include/mazes/graph.hpp', 'include/mazes/grid.hpp'], [('corridors are followed to their ends', 'constructor from a grid'), ('vertices between two others are bridged', 'prune')],
     'runtime monitoring: distances against an independent search in the original', 'Held on the mazes of this run. Closed rings of corridor cells without any other vertex may vanish (as the code does today).', observe=['contents of the graph'])
prop('P24', 'Heuristics are the distances they are named after, and consistent',
     'Manhattan, Chebyshev, Euclidean, squared Euclidean, octile and cosine distance compute what their names say for any pair of coordinates the result type can represent, do not depend on the order of their arguments, are zero between equal coordinates, and (Manhattan, Chebyshev, Euclidean, octile in their own neighbourhood) never drop by more than the cost of a step.',
     ['inputs'], 'every pair of coordinates of up to five dimensions, every coordinate and scalar type',
     'The tests use two of them on mazes with a single route, where no heuristic can mislead.',
     ['include/utils/heuristics.hpp'], [('differences of unsigned coordinates', 'each distance function')],
     'runtime monitoring: values against extended precision, consistency along random walks', 'Held on the pairs of this run. Octile distance is bracketed rather than pinned for three and more dimensions and for integers.', observe=['return values'])
prop('P26', 'Numeric and text helpers compute what they promise',
     'min, max, clamp, abs, sign, powers, roots, products (saturating when the result does not fit) and the text helpers (durations, trimming of zeros) agree with exact arithmetic for every argument of their domain, without overflow or undefined behaviour.',
     ['inputs'], 'every argument in the domain of each helper, every arithmetic type',
     'They are only exercised by the few values solvers pass.',
     ['include/utils/utils.hpp'], [('saturating product', 'product'), ('integer powers', 'pow'), ('text', 'to_string, trim_trailing_zeros')],
     'runtime monitoring: values against 128-bit arithmetic under sanitizers', 'Held on the values of this run. Values computed during compilation are the subject of P31.', observe=['return values'])
prop('P29', 'Greedy-memory solvers drop dead branches at once',
     'The greedy-memory solvers (gbfs, gdfs, gbest_first, gstar, gjps) keep only search nodes that still lead to a candidate: when a search is exhausted without finding a route, every node block has been given back to the homogeneous resource before any reset, and at every expansion gbfs, gdfs and gbest_first hold no more node blocks than there are cells on the routes from the start to the cells still waiting and to the one being expanded.',
     ['inputs', 'configurations'], 'every maze, graph and query, every setting of lazy sorting, cleanup, reverse equivalence and octile neighbours',
     'The tests look at the length of the answer; a node that is kept for nothing does not change it.',
     [S + x + '.hpp' for x in ('gbfs', 'gdfs', 'gbest_first', 'gstar', 'gjps')] + [S + 'base/managed_node.hpp'], [('successor counts', 'managed_node'), ('dead branches are given back', 'expunge and its callers')],
     'runtime monitoring: live node blocks at every expansion against a replay of the search', 'Held on the searches of this run. During a search, gstar and gjps are only watched through their resources; their node count is judged when the search is exhausted.', observe=['calls of allocate, deallocate and reset', 'calls of get_neighbours'])
prop('P30', 'Pools account for exactly the memory they have handed out',
     'With diagnostics on (CHDR_DIAGNOSTICS=1), after any sequence of allocations, failed allocations, deallocations, resets and releases the count of allocated bytes of a pool is the number of bytes handed out and not returned since the last reset or release (the monotonic pool takes nothing back), and its peak is the largest value that count has had since then.',
     ['histories', 'fault_sequences'], 'every sequence of pool operations, every pool size, also when the global allocator fails; moved pools are not judged',
     'The figures are printed by the benchmark and never compared.',
     ['include/types/pmr/monotonic_pool.hpp', 'include/types/pmr/homogeneous_pool.hpp', 'include/types/pmr/heterogeneous_pool.hpp'], [('diagnostic data', 'do_allocate, do_deallocate, reset, release')],
     'runtime monitoring: reported figures against a ledger of the operations', 'Held on the operation sequences of this run.', observe=['__get_diagnostic_data', 'calls of allocate, deallocate, reset, release'])
prop('P33', 'Any admissible heuristic leads to the optimum where promised',
     'A*, G*, F*, JPS, IDA* and IDA*+ document that the route is optimal whenever the heuristic never overestimates. With such a heuristic, consistent or not, weight 1 and eager sorting they return a route of least cost on grids. (For A*, G*, F* and JPS this is known not to hold when the heuristic is inconsistent, because closed cells are never reopened; see the known findings.)',
     ['inputs', 'configurations'], 'every grid maze with a route, every admissible heuristic',
     'The tests use the Manhattan distance in perfect mazes.',
     [S + x + '.hpp' for x in ('astar', 'gstar', 'fringe', 'jps', 'idastar', 'eidastar')], [('thresholds and pruning of the deepening searches', 'solve_internal of idastar and eidastar'), ('closed cells', 'solve_internal of astar, gstar, fringe, jps')],
     'runtime monitoring: route cost against an independent optimum, with admissible inconsistent heuristics', 'Held for IDA* and IDA*+ on the solves of this run; A*, G*, F* and JPS are listed as known findings.', observe=['return value of solve'])
prop('P34', 'Searches do not look beyond the cost of the answer',
     'When a route exists, the informed solvers that stop at the first answer (A*, G*, F*, IDA*, IDA*+, SMA*; consistent heuristic, eager sorting where it matters, ample memory) only ask for the neighbours of cells whose distance plus weighted estimate does not exceed the weight times the cost of the best route (IDA* and IDA*+: or of direct neighbours of such cells); the breadth-first and iterative-deepening depth-first solvers only of cells no further away than the goal.',
     ['inputs', 'configurations'], 'every grid maze with a route, every consistent heuristic, every weight of at least 1',
     'A solver that ignores its heuristic, or deepens too fast, still returns good routes; the tests do not look at the work done.',
     [S + x + '.hpp' for x in specs.OPT if x not in ('jps', 'gjps', 'dijkstra', 'mgstar', 'osmastar')], [('ordering by cost plus estimate', 'operator< of each node'), ('bounds of the deepening searches', 'iddfs, eiddfs, idastar, eidastar, fringe')],
     'runtime monitoring: every expansion seen by a monitored maze judged against independent distances', 'Held on the solves of this run.', observe=['calls of get_neighbours'])
prop('P35', 'A weighted search costs at most the weight times the optimum',
     'With a consistent heuristic and a weight w above 1, the informed solvers (A*, G*, F*, IDA*, IDA*+, SMA*, OSMA*, MG*, JPS and GJPS; eager sorting where it matters, ample memory) still find a route whenever there is one, and it costs at most w times the least cost.',
     ['inputs', 'configurations'], 'every grid maze with a route, every consistent heuristic, every weight',
     'The tests only use a weight of 1.',
     [S + x + '.hpp' for x in specs.OPTW if x != 'dijkstra'] + [S + 'jps.hpp', S + 'gjps.hpp'], [('estimates multiplied by the weight', 'solve_internal of each solver')],
     'runtime monitoring: route cost against the weighted optimum', 'Held on the solves of this run; weights 2 to 21.', observe=['return value of solve'])
prop('P36', 'Hints and unused parameters change nothing',
     'The capacity hint never changes an answer or the order of a search; neither does the memory limit for the solvers that have none, nor the heuristic and the weight for the solvers that use no estimate (BFS, DFS, their G* and iterative-deepening variants, Dijkstra, flood).',
     ['configurations', 'inputs'], 'every query, solver and configuration, every value of the unused parameters and every capacity',
     'The tests fix one value of each.',
     ALLS, [('capacity handed to containers', 'determine_capacity and preallocate_emplace in solver.hpp'), ('growth of the closed set', 'existence_set::allocate')],
     'runtime monitoring: differential runs of one query with varied hints', 'Held on the queries of this run; capacities up to 20000.', observe=['return value of solve', 'calls of get_neighbours'])
prop('P37', 'Every numeric type and dimension works',
     'Cells of any integral type, costs (scalars) of any integral or floating-point type that can hold them, coordinates of any unsigned or signed integral type, indices of the type of the coordinates or a wider one, graphs with any index and scalar type, and mazes of one to six dimensions compile with every solver, and verdicts, routes and least costs are right for all of them.',
     ['configurations', 'inputs'], 'every query, solver and combination of types that can represent the maze and its costs',
     'The tests use 32- and 64-bit unsigned numbers and four dimensions at most.',
     ALLS + ['include/utils/utils.hpp', 'include/utils/heuristics.hpp', 'include/mazes/grid.hpp', 'include/mazes/graph.hpp'], [('costs narrower than int are promoted by arithmetic', 'solve_internal of each solver'), ('numbering for any number of dimensions', 'to_1d and to_nd in utils.hpp')],
     'runtime monitoring: route oracle over instantiations with unusual types', 'Held on the solves of this run; fourteen combinations of types per solver.', observe=['return value of solve', 'whether the instantiations compile'])
prop('P32', 'Every entry point gives the same answer',
     'A query may be asked with a parameters object, constant, modifiable or temporary, or with the members of one as separate arguments, named or temporary, through the static function solve or by calling an instance of the solver. All of these compile, return the same answer, and do the same search.',
     ['inputs', 'configurations'], 'every query, solver and configuration, every way of calling the solver',
     'The tests call solve with a constant parameters object only; the documented example of the class passes separate arguments.',
     [S + 'base/solver.hpp'], [('argument forwarding', 'solve and operator() in solver.hpp')],
     'runtime monitoring: differential runs of one query through all entry points under sanitizers', 'Held on the queries of this run.', observe=['return value of solve and operator()', 'calls of get_neighbours and of the heuristic'])
prop('P31', 'Constants computed by the compiler equal the values computed while running',
     'The arithmetic helpers (minimum, maximum, clamping, absolute value, sign, square root, powers, products), the cell numbering in both directions and the distances are constant expressions for every finite argument of their domain, and give during compilation what they give while running (floating-point results up to a few units in the last place).',
     ['inputs', 'configurations'], 'every argument in the domain of each function, every arithmetic, index and scalar type, gcc and clang',
     'The tests never evaluate them during compilation; square roots take another path there.',
     ['include/utils/utils.hpp', 'include/utils/heuristics.hpp'], [('separate path of the square root', 'utils::sqrt'), ('constexpr functions', 'utils.hpp, heuristics.hpp')],
     'runtime monitoring: tables filled during compilation compared with values computed while running', 'Held on the argument sets of this run, fixed when the harness is compiled. Infinite and undefined values are outside the domain.', observe=['return values'])
prop('P28', 'Every supported build behaves the same',
     'The library compiles with gcc and clang in C++17, C++20 and C++23, with and without assertions, diagnostics, optimisation, vectorisation and fast floating-point arithmetic, and behaves the same in each: for integer scalars the same queries expand the same cells in the same order and give the same answer; for floating-point scalars the verdicts and the least costs agree. Containers, pools, mazes, numberings and helpers keep their guarantees in each build.',
     ['configurations', 'inputs'], 'every query and operation sequence in every supported combination of compiler, standard and options',
     'The test suite is built once, by one compiler with one set of options; code that only assertions execute, loops wrongly declared independent, or reliance on an order of evaluation do not show there.',
     ALLS + ['include/utils/*.hpp', 'include/mazes/*.hpp', 'include/types/containers/*.hpp', 'include/types/pmr/*.hpp'], [('vectorisation hints', 'IVDEP in intrinsics.hpp and its uses'), ('assertions and diagnostics', 'assert, CHDR_DIAGNOSTICS'), ('standard-dependent declarations', '__cplusplus in grid.hpp, graph.hpp')],
     'runtime monitoring: recorded answers of several builds compared offline, oracles and sanitizers in each', 'Held on the queries of this run, for gcc 13 and clang 18 with libstdc++. Other compilers and standard libraries are not available here.', observe=['return value of solve', 'calls of get_neighbours', 'public members of containers, pools, mazes and helpers'])
prop('P25', 'Memory-bounded solvers respect their limit and stay correct under it',
     'However small the memory limit, SMA*, OSMA* and MGA* never keep more than the limit plus two node blocks alive, and whatever they answer is a real walk of legal moves from the start to the end; with ample memory they find a route exactly when one exists, and an optimal one with a consistent heuristic.',
     ['inputs', 'configurations'], 'every maze, query, heuristic and memory limit',
     'The tests give the bounded solvers more memory than they ever need.',
     [S + 'smastar.hpp', S + 'osmastar.hpp', S + 'mgstar.hpp', S + 'base/managed_node.hpp'], [('eviction when the limit is reached', 'solve_internal'), ('successor counts release parents', 'managed_node.hpp')],
     'runtime monitoring: live-block counter against the limit, route oracle', 'Held on the solves of this run. Under a binding limit giving up and suboptimal answers are allowed.', observe=['calls of allocate and deallocate', 'return value of solve'])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['observe']: a['observe_at'] = p['observe']
            if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            a['hook_needed'] = None
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
    m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[], notes='Checks build out of /repo with their own compiler calls (see specs.py); no hooks in /repo are needed.')
    for p in P:
        if p['na'] or p['id'] not in specs.SPECS:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'no check yet')); continue
        c = 'python3 check.py ' + p['id']
        m['checks'].append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick ' + c, thorough_cmd='VERIF_TIER=thorough ' + c, evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=specs.SPECS[p['id']].get('level', 'exploration'), level_note=p['note']))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


main()
