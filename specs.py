# What each check builds and runs. Counts bound every run (never seconds).
SOLVERS = ['astar', 'best_first', 'bfs', 'dfs', 'dijkstra', 'eidastar', 'eidbest_first', 'eiddfs', 'flood', 'fringe', 'gbest_first', 'gbfs', 'gdfs', 'gstar', 'idastar', 'idbest_first', 'iddfs', 'mgstar', 'osmastar', 'smastar']
JPS = ['jps', 'gjps']


def tus(sets, only=None, jps=True):
    d = ['-DSET_' + s for s in sets]
    out = [('solver_tu.cpp', ['-DSOLVER=' + s] + d) for s in SOLVERS if only is None or s in only]
    if jps:
        out += [('solver_tu.cpp', ['-DSOLVER=' + s, '-DSOLVER_JPS'] + d) for s in JPS if only is None or s in only]
    return out


def base(main, flags=()):
    return [('core.cpp', []), ('rt.cpp', []), (main, list(flags))]


OPT = ['astar', 'gstar', 'bfs', 'gbfs', 'iddfs', 'eiddfs', 'idastar', 'eidastar', 'fringe', 'smastar', 'osmastar', 'mgstar', 'dijkstra', 'jps', 'gjps']
OPTW = ['astar', 'gstar', 'idastar', 'eidastar', 'fringe', 'smastar', 'osmastar', 'mgstar', 'dijkstra']

BINARIES = {
    'grid':   dict(name='grid', profile='plain', tus=tus(['CORE']) + base('prop_solve.cpp')),
    'gridopt': dict(name='gridopt', profile='plain', tus=tus(['CORE'], OPT) + base('prop_solve.cpp')),
    'admissible': dict(name='admissible', profile='plain', tus=tus(['CORE'], ['astar', 'gstar', 'fringe', 'jps', 'idastar', 'eidastar']) + base('prop_solve.cpp')),
    'graph':  dict(name='graph', profile='plain', tus=tus(['GRAPH'], jps=False) + base('prop_solve.cpp')),
    'graphopt': dict(name='graphopt', profile='plain', tus=tus(['GRAPH'], OPTW, jps=False) + base('prop_solve.cpp')),
    'san':    dict(name='san', profile='asan', flags=['-D_GLIBCXX_DEBUG'], tus=tus(['SAN']) + base('prop_solve.cpp')),
    'undef':  dict(name='undef', profile='plain', tus=tus(['SAN']) + base('prop_solve.cpp')),
    'res':    dict(name='res', profile='asan', tus=tus(['RES', 'GRAPH']) + base('prop_res.cpp')),
    'limit':  dict(name='limit', profile='asan', tus=tus(['RES', 'GRAPH'], ['smastar', 'osmastar', 'mgstar'], jps=False) + base('prop_res.cpp')),
    'greedy': dict(name='greedy', profile='asan', tus=tus(['RES', 'GRAPH'], ['gbfs', 'gdfs', 'gbest_first', 'gstar', 'gjps']) + base('prop_res.cpp')),
    'par':    dict(name='par', profile='tsan', tus=tus(['PAR']) + base('prop_par.cpp')),
    'convert': dict(name='convert', profile='tsan', tus=base('prop_maze.cpp', ['-DONLY=23'])),
    'pool':   dict(name='pool', profile='asan', tus=base('prop_pool.cpp')),
    'diag':   dict(name='diag', profile='asan', flags=['-DCHDR_DIAGNOSTICS=1'], tus=base('prop_pool.cpp')),
    'early':  dict(name='early', profile='plain', flags=['-fconstexpr-ops-limit=2000000000'], tus=base('prop_ct.cpp')),
    'early-clang': dict(name='early-clang', cxx='clang++', std='20', profile='clang-release', flags=['-fconstexpr-steps=6000000'], tus=base('prop_ct.cpp', ['-DCT_SEED=2'])),
    'entry':  dict(name='entry', profile='asan', tus=tus(['ENTRY']) + base('prop_solve.cpp')),
    'types':  dict(name='types', profile='plain', tus=tus(['TYPES']) + base('prop_solve.cpp')),
    'both':   dict(name='both', profile='plain', tus=tus(['CORE', 'GRAPH']) + base('prop_solve.cpp')),
}

for _b, _f, _ids in (('cont', ['-D_GLIBCXX_DEBUG'], (17, 18, 19)), ('num', [], (20, 24, 26)), ('maze', [], (21, 22, 23))):
    for _i in _ids:
        BINARIES['%s%d' % (_b, _i)] = dict(name='%s%d' % (_b, _i), profile='asan', flags=_f, tus=base('prop_%s.cpp' % _b, ['-DONLY=%d' % _i]))

# Builds a user may choose: compiler, standard, optimisation, assertions, diagnostics. The first is the reference of the comparison.
BUILDS = [('gcc17', dict(cxx='g++', std='17', profile='plain')),
          ('release', dict(cxx='g++', std='23', profile='release')),
          ('clang20', dict(cxx='clang++', std='20', profile='clang', flags=['-DCHDR_DIAGNOSTICS=1'])),
          ('clang17', dict(cxx='clang++', std='17', profile='clang-release')),
          ('gcc20', dict(cxx='g++', std='20', profile='debug', flags=['-DCHDR_DIAGNOSTICS=1']))]
for _n, _b in BUILDS:
    BINARIES['b-' + _n] = dict(_b, name='b-' + _n, tus=tus(['BUILD']) + base('prop_solve.cpp'))
    for _h, _ids in (('num', (20, 24, 26)), ('maze', (21, 22, 23)), ('cont', (17, 18, 19))):
        for _i in _ids:
            BINARIES['b-%s-%d' % (_n, _i)] = dict(_b, name='b-%s-%d' % (_n, _i), tus=base('prop_%s.cpp' % _h, ['-DONLY=%d' % _i, '-DFEW']))
    BINARIES['b-%s-pool' % _n] = dict(_b, name='b-%s-pool' % _n, tus=base('prop_pool.cpp'))

GEN = 'Random mazes (nine families: open, sparse to dense rubble, perfect and braided mazes, slabs with doors, pockets; 1 to 4 dimensions, non-cubic sizes, bit and byte storage), random ends, heuristics, weights and capacities, through every solver and a spread of index, scalar, lazy-sorting, cleanup, reverse and octile settings. '

ALLT, THOR = ('quick', 'thorough'), ('thorough',)
TIERED = [('gcc17', ALLT), ('release', ALLT), ('clang20', ALLT), ('clang17', THOR), ('gcc20', THOR)]
OTHERS = [('20', 20000), ('24', 20000), ('26', 20000), ('21', 3000), ('22', 8000), ('23', 4000), ('17', 8000), ('18', 4000), ('19', 8000), ('pool', 8000)]
SPECS = {
    'P01': dict(runs=[dict(bin='grid', quick=400000, thorough=6000000, needs=['moves checked', 'routes'])],
                rule=GEN + 'Non-trivial: distinct (maze, query, configuration, route length).'),
    'P02': dict(runs=[dict(bin='grid', quick=400000, thorough=6000000, needs=['routes', 'empty answers'])],
                rule=GEN + 'Half of the queries have no route. Compared with an independent breadth-first search.'),
    'P03': dict(runs=[dict(bin='gridopt', quick=600000, thorough=6000000, needs=['costs compared'])],
                rule=GEN + 'Only solvers and settings that promise the shortest route, with consistent heuristics; the cost is compared with an independent search.'),
    'P04': dict(runs=[dict(bin='graph', quick=300000, thorough=6000000, needs=['moves checked', 'empty answers'])],
                rule='Random weighted graphs (trees, meshes, sparse and disconnected, rings, hubs with hundreds of roads) through every graph-capable solver; verdict against an independent search and every consecutive pair against the edge list.'),
    'P05': dict(runs=[dict(bin='graphopt', quick=600000, thorough=6000000, needs=['costs compared'])],
                rule='Random weighted graphs; total weight of the answer against an independent Dijkstra search.'),
    'P06': dict(runs=[dict(bin='both', quick=200000, thorough=5000000, needs=['expansion bounds checked', 'empty answers'])],
                rule=GEN + 'Half of the queries have no route. A monitored maze counts expansions: solvers with a closed set stay within two per cell, the others within a fixed budget on mazes whose simple paths were counted beforehand.'),
    'P11': dict(runs=[dict(bin='both', quick=40000, thorough=400000, needs=['queries compared'])],
                rule='Each random query is answered by every solver and configuration of the same dimension and neighbourhood; verdicts and optimal costs have to agree.'),
    'P12': dict(level='exploration', runs=[dict(bin='par', quick=6000, thorough=200000, timeout=60, needs=['answers compared', 'concurrent conversions', 'events ordered']),
                      dict(bin='convert', quick=4000, thorough=100000, timeout=60, needs=['grids converted', 'distances compared'])],
                rule='Groups of two to four threads, each with its own memory resources, answer queries (the same or different solvers) on one shared maze under ThreadSanitizer, with random delays at every expansion, while others convert the maze to graphs; answers and expansions are compared with those of a single thread. Second run: conversions of grids to graphs, whose workers run concurrently. Distinct: orders of expansions seen across threads.'),
    'P13': dict(runs=[dict(bin='both', quick=400000, thorough=3000000, needs=['start is the end', 'closed start', 'closed end', 'no such vertex', 'outside the maze'])],
                rule='Random mazes with degenerate queries (start is the end, closed or missing ends) through every solver and configuration; the answer is known without searching and the monitored maze must not be expanded.'),
    'P07': dict(runs=[dict(bin='san', quick=60000, thorough=2000000, needs=['routes', 'empty answers', 'heuristic calls']),
                      dict(bin='undef', quick=6000, thorough=60000, needs=['routes'], wrap='valgrind', env={'VF_NOFILL': '1'}, timeout=120)],
                rule=GEN + 'Including inconsistent heuristics, tiny memory limits, closed, missing and coinciding ends. First run: AddressSanitizer, UndefinedBehaviorSanitizer and the checking standard library; second run: memcheck, which also sees decisions taken on uninitialised memory. Non-trivial: distinct (maze, query, configuration, sequence of expansions).'),
    'P08': dict(runs=[dict(bin='res', quick=16000, thorough=400000, needs=['monotonic blocks', 'heterogeneous blocks', 'homogeneous blocks', 'homogeneous returned', 'cleanups checked'])],
                rule=GEN + 'Every allocation goes through recording resources that check each deallocation against the allocation it belongs to; the global allocator is counted around the call. Each query runs twice on the same resources.'),
    'P09': dict(level='fault_enumeration', runs=[dict(bin='res', quick=20000, thorough=300000, needs=['failure points', 'failures reported', 'solves after a failure', 'histories enumerated completely', 'failing resets'])],
                rule='For each random query, every single allocation the reference run makes (or a sample of 60, thorough 400, when there are more) fails in turn, in each memory resource and in the global allocator; afterwards the query is asked again on the same resources. Every combination of resources whose reset fails. Non-trivial: distinct (query, configuration, failing allocation).'),
    'P10': dict(runs=[dict(bin='res', quick=16000, thorough=400000, needs=['comparisons'])],
                rule=GEN + 'Sequences of three to eight queries by different solvers over the same pools; each answer and each sequence of expansions is compared with one computed on fresh pools and with a repetition.'),
    'P14': dict(runs=[dict(bin='pool', quick=60000, thorough=3000000, needs=['allocations', 'deallocations', 'served from the stack block', 'served from the heap', 'live blocks verified', 'resets', 'releases'])],
                rule='Random sequences of allocate, deallocate, reset and release on nine instances of the three pools (stack sizes 64 to 4096, block limits 1024 to 65536, initial widths 2 to 70000, alignments 1 to 128, sizes up to twice the block limit), under AddressSanitizer with the global allocator registered block by block. Non-trivial: distinct (sizes, alignments, operations, origin of the blocks).'),
    'P15': dict(runs=[dict(bin='pool', quick=20000, thorough=600000, needs=['churn runs', 'blocks recycled', 'identical rounds'])],
                rule='Random pool instances under churn (thousands of equal blocks, at most 200 live) and under eight identical rounds each followed by reset; the memory the pool holds is read off the registered global allocator.'),
    'P16': dict(level='fault_enumeration', runs=[dict(bin='pool', quick=60000, thorough=3000000, needs=['allocation failures reported', 'moves', 'releases', 'resets under failing allocation', 'impossible requests refused'])],
                rule='As P14, with the first, second or third request to the global allocator of an operation failing, impossible sizes, and pools moved by construction and assignment; at the end no block may be left.'),
    'P25': dict(runs=[dict(bin='limit', quick=300000, thorough=2000000, needs=['limit reached', 'walks checked', 'optima compared'])],
                rule=GEN + 'The memory-bounded solvers with limits from 1 to 120 nodes and with ample memory; recording resources count the node blocks alive at a time.'),
    'P17': dict(runs=[dict(bin='cont17', quick=60000, thorough=3000000, needs=['elements taken', 'elements erased', 'contents verified', 'sorted later', 'built from containers', 'copies', 'moves', 'bounds compared', 'failed growth', 'heaps drained'])],
                rule='Random sequences of every heap operation on twelve instances (two to eight dimensions, three orders with and without ties; numbers, strings, pointers, move-only and lifetime-tracking elements) against a plain list of values, under AddressSanitizer and the checking standard library, with failing allocations; at the end the heap is drained. Non-trivial: distinct (operations, sizes).'),
    'P18': dict(runs=[dict(bin='cont18', quick=30000, thorough=1500000, needs=['membership tests', 'trims', 'contents verified', 'copies', 'moves', 'failed growth'])],
                rule='Random sequences of every set operation on five element widths against a plain table, keys up to 12288 and beyond every bound.'),
    'P19': dict(runs=[dict(bin='cont19', quick=60000, thorough=3000000, needs=['tops compared', 'elements taken', 'contents verified', 'copies', 'moves', 'failed growth'])],
                rule='Random sequences of every stack and queue operation against a deque, for numbers, strings and lifetime-tracking elements.'),
    'P20': dict(runs=[dict(bin='num20', quick=500000, thorough=10000000, needs=['cells numbered'])],
                rule='Random maze sizes of one to seven dimensions in eight index types, up to the largest the type can number; every cell of small mazes, random cells and the cells around each stride of large ones, against 128-bit arithmetic.'),
    'P24': dict(runs=[dict(bin='num24', quick=400000, thorough=10000000, needs=['distances compared', 'steps compared'])],
                rule='Random pairs of coordinates (close ones, extreme ones, equal ones; nine coordinate and seven scalar types, one to five dimensions) against extended precision; and every step of random walks for consistency.'),
    'P26': dict(runs=[dict(bin='num26', quick=400000, thorough=10000000, needs=['values compared', 'powers compared', 'products compared', 'products saturated', 'texts compared'])],
                rule='Random and extreme values of eleven types against 128-bit arithmetic and the standard library.'),
    'P21': dict(runs=[dict(bin='maze21', quick=20000, thorough=3000000, needs=['adjacencies compared', 'outside cells tested'])],
                rule='Random grids of one to six dimensions (index types of 8 to 64 bits, ten cell types, flat and single-cell shapes, none to all cells closed), every cell of small ones and random cells of large ones against the definition.'),
    'P22': dict(runs=[dict(bin='maze22', quick=60000, thorough=3000000, needs=['vertices compared', 'edges removed', 'adjacency lists', 'moves', 'failed growth'])],
                rule='Random sequences of additions, removals, moves and clears on five graph types, with failing allocations, against a table of edge lists.'),
    'P23': dict(runs=[dict(bin='maze23', quick=30000, thorough=2000000, needs=['grids converted', 'graphs pruned', 'vertices removed', 'distances compared', 'edges verified'])],
                rule='Random grids of one to four dimensions converted to graphs, and random weighted graphs (chains, rings, trees, shortcuts, parallel roads, loops) pruned; distances between the vertices that remain against an independent search in the original.'),
    'P27': dict(runs=[dict(bin='both', quick=400000, thorough=3000000, needs=['layouts compared'])],
                rule=GEN + 'Routes of every length from a single step; the order of the answer and the ends it lists are compared with the layout of the solver.'),
    'P29': dict(runs=[dict(bin='greedy', quick=60000, thorough=2000000, needs=['expansions followed', 'exhausted searches with nodes', 'nodes given back'])],
                rule=GEN + 'The greedy-memory solvers with recording resources; half of the queries have no route. The expansions of gbfs, gdfs and gbest_first are replayed to know which nodes still lead to a candidate.'),
    'P33': dict(runs=[dict(bin='admissible', quick=300000, thorough=3000000, needs=['costs compared', 'consistent heuristics'])],
                rule=GEN + 'In half of the queries, heuristics that are right in a random half of the cells and zero in the others, hence admissible and not consistent; the cost is compared with an independent search.'),
    'P34': dict(runs=[dict(bin='gridopt', quick=400000, thorough=4000000, needs=['expansions judged', 'weighted searches'])],
                rule=GEN + 'Only solvers and settings that promise the shortest route, with consistent heuristics, queries with a route; every expanded cell is judged by its distance and estimate.'),
    'P35': dict(runs=[dict(bin='gridopt', quick=400000, thorough=4000000, needs=['costs compared', 'dearer than the optimum'])],
                rule=GEN + 'Informed solvers with consistent heuristics and weights of 2 to 21; the cost is compared with the weight times the least cost.'),
    'P36': dict(runs=[dict(bin='both', quick=100000, thorough=1500000, needs=['routes', 'empty answers', 'answers compared', 'limits varied', 'estimates varied'])],
                rule=GEN + 'Each query is asked again four times with other capacities, other memory limits where the solver has none, and other heuristics and weights where it uses none; answers and expansions are compared.'),
    'P37': dict(runs=[dict(bin='types', quick=200000, thorough=6000000, needs=['costs compared', 'empty answers'] + ['scalar ' + c for c in 'ysuhlzfD'] + ['index ' + c for c in 'ysuiz'] + ['cell ' + c for c in 'byasilz'])],
                rule=GEN + 'Cells, costs, coordinates and indices of other types than usual, one to six dimensions; verdict, route and cost against independent searches.'),
    'P32': dict(runs=[dict(bin='entry', quick=10000, thorough=400000, needs=['routes', 'empty answers', 'answers compared', 'arguments to an instance', 'temporary arguments'])],
                rule=GEN + 'Each query is asked in ten ways (static call or instance; parameters constant, modifiable or temporary; separate arguments, named or temporary) on fresh resources under AddressSanitizer; answers, expansions and heuristic calls are compared.'),
    'P31': dict(runs=[dict(bin=b, quick=20000, thorough=400000, needs=['values compared', 'compile-time values']) for b in ('early', 'early-clang')],
                rule='For every constexpr function of the arithmetic, numbering and distance helpers, 200 argument sets (small, extreme, negative, close to squares) are evaluated by the compiler (gcc in C++17, clang in C++20) into tables, and again while running; the two are compared, integers exactly, floating-point values to a few units in the last place.'),
    'P30': dict(runs=[dict(bin='diag', quick=60000, thorough=3000000, needs=['accounts compared', 'resets', 'releases', 'deallocations', 'allocation failures reported'])],
                rule='As P16 without moves, built with CHDR_DIAGNOSTICS=1; the pool is asked for its accounts after every operation.'),
    'P28': dict(runs=[dict(bin='b-' + n, quick=15000 if n == 'clang20' else 40000, thorough=1000000, record=True, tiers=t, needs=['routes', 'empty answers', 'costs compared']) for n, t in TIERED]
                + [{'bin': 'b-%s-%s' % (n, h), 'as': 'P14' if h == 'pool' else 'P' + h, 'quick': c // 3 if n == 'clang20' else c, 'thorough': c * 30, 'tiers': t} for n, t in TIERED[1:] for h, c in OTHERS],
                rule=GEN + 'The same queries through several builds of the library (gcc in C++17 with assertions; gcc in C++23 with the optimisations of the release build, fast arithmetic and no assertions; clang in C++20 with diagnostics and sanitizers; thorough: clang in C++17 optimised, gcc in C++20 without optimisation); each build against the oracles, and the logs of answers and expansions against those of the first build. The drivers of the containers, pools, mazes and helpers run in the same builds.'),
}
