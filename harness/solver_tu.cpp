// One translation unit per solver: -DSOLVER=astar -DSET_xxx. Instantiates the solver for a list of configurations.
#include "core.hpp"
#include <cmath>
#if defined(SET_CORE) || defined(SET_SAN) || defined(SET_TYPES)
#define WIDE_INDEX true
#else
#define WIDE_INDEX false
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
namespace vf { namespace {
    template <typename M, typename W, typename C, typename S, typename L, typename N, typename R, typename O, typename PM, typename PH, typename PO>
    struct params_t {
        using weight_type = W; using scalar_type = S; using coord_type = C;
        using index_type = std::conditional_t<std::is_same_v<typename C::value_type, uint16_t> && WIDE_INDEX && !std::is_same_v<M, chdr::mazes::graph<typename C::value_type, S>>, size_t, typename C::value_type>; // cells may be numbered in a wider type than the coordinates
        using lazy_sorting = L; using no_cleanup = N; using reverse_equivalence = R; using octile_neighbours = O;
        const M& maze; const C start; const C end; const C size; S (*h)(const C&, const C&) noexcept;
        PM* monotonic_pmr; PH* heterogeneous_pmr; PO* homogeneous_pmr;
        const S weight; const size_t capacity; const size_t memory_limit;
    };
    template <typename S, typename C, int H> S heur(const C& a, const C& b) noexcept {
        ++mon.hcalls; par_event();
        if constexpr (H == 0) return chdr::heuristics::manhattan_distance<S, C>(a, b);
        else if constexpr (H == 2) return chdr::heuristics::chebyshev_distance<S, C>(a, b);
        else if constexpr (H == 3) return chdr::heuristics::euclidean_distance<S, C>(a, b);
        else if constexpr (H == 6 || H == 7) { uint64_t x = 11; for (auto v : a) x = rt::mix(x, v); if (x % 2) return S(0); return H == 6 ? chdr::heuristics::manhattan_distance<S, C>(a, b) : chdr::heuristics::chebyshev_distance<S, C>(a, b); } // admissible, not consistent
        else if constexpr (H == 5) { uint64_t x = 7; for (auto v : a) x = rt::mix(x, v); return S(x % 23); }
        else return S(0);
    }
    template <typename S, typename C> auto pick_heur(int h) -> S (*)(const C&, const C&) noexcept { switch (h) { case 0: return &heur<S, C, 0>; case 2: return &heur<S, C, 2>; case 3: return &heur<S, C, 3>; case 5: return &heur<S, C, 5>; case 6: return &heur<S, C, 6>; case 7: return &heur<S, C, 7>; default: return &heur<S, C, 1>; } }

    template <typename C> C to_c(const Cell& c) { C r {}; for (size_t i = 0; i < std::tuple_size_v<C>; ++i) r[i] = static_cast<typename C::value_type>(c[i]); return r; }
    template <typename C> Cell of_c(const C& c) { Cell r {}; for (size_t i = 0; i < std::tuple_size_v<C>; ++i) r[i] = static_cast<uint32_t>(c[i]); return r; }

    template <int RES> struct res_types { using M = chdr::monotonic_pool<>; using H = chdr::heterogeneous_pool<>; using O = chdr::homogeneous_pool<>; static auto m(Env& e) { return e.m; } static auto h(Env& e) { return e.h; } static auto o(Env& e) { return e.o; } };
    template <> struct res_types<1> { using M = std::pmr::memory_resource; using H = M; using O = M; static M* m(Env& e) { return e.tm; } static M* h(Env& e) { return e.th; } static M* o(Env& e) { return e.to; } };
    template <> struct res_types<2> { using M = rtrack_pmr; using H = M; using O = M; static M* m(Env& e) { return e.tm; } static M* h(Env& e) { return e.th; } static M* o(Env& e) { return e.to; } };

    template <typename S, typename C, typename L, typename N, typename R, typename O, int RES, typename W, typename maze_t>
    void call(const Problem& p, Env& e, Outcome& out, const maze_t& maze) {
        using RT = res_types<RES>; using P = params_t<maze_t, W, C, S, L, N, R, O, typename RT::M, typename RT::H, typename RT::O>;
        const C size = to_c<C>(p.size);
        const P params { maze, to_c<C>(p.s), to_c<C>(p.e), size, pick_heur<S, C>(p.heur), RT::m(e), RT::h(e), RT::o(e), static_cast<S>(p.weight), p.capacity, p.memlimit };
        mon = Mon {}; mon.budget = p.budget;
        struct Scope { Scope() { solve_begin(); } ~Scope() { solve_end(); } };
        try {
#ifdef SET_ENTRY
            // Every way a caller may hand over the query.
            using solver_t = chdr::solvers::solver<chdr::solvers::SOLVER, P>;
            const auto each = [&](auto&& f) { return f(maze, params.start, params.end, size, params.h, params.monotonic_pmr, params.heterogeneous_pmr, params.homogeneous_pmr, params.weight, params.capacity, params.memory_limit); };
            const auto ask = [&]() -> std::vector<C> {
                P lv = params; solver_t ls; const auto vec = [](auto&& v) { return std::vector<C>(v.begin(), v.end()); };
                const Scope s;
                switch (p.entry) {
                    case 1: return vec(solver_t::solve(lv));
                    case 2: return vec(solver_t::solve(P(params)));
                    case 3: return vec(each([](auto&&... a) { return solver_t::solve(a...); }));
                    case 4: return vec(solver_t::solve(maze, C(params.start), C(params.end), C(size), params.h, RT::m(e), RT::h(e), RT::o(e), S(p.weight), size_t(p.capacity), size_t(p.memlimit)));
                    case 5: return vec(ls(params));
                    case 6: return vec(ls(lv));
                    case 7: return vec(ls(P(params)));
                    case 8: return vec(each([&](auto&&... a) { return ls(a...); }));
                    case 9: return vec(ls(maze, C(params.start), C(params.end), C(size), params.h, RT::m(e), RT::h(e), RT::o(e), S(p.weight), size_t(p.capacity), size_t(p.memlimit)));
                    default: return vec(solver_t::solve(params));
                }
            };
            const auto path = ask();
#else
            const auto path = [&] { const Scope s; return chdr::solvers::solver<chdr::solvers::SOLVER, P>::solve(params); }();
#endif
            out.path.reserve(path.size()); for (auto& c : path) out.path.push_back(of_c(c));
        }
        catch (const std::bad_alloc&) { out.exc = 1; out.exc_what = "bad_alloc"; }
        catch (const std::exception& x) { out.exc = 2; out.exc_what = x.what(); }
        catch (...) { out.exc = 3; out.exc_what = "unknown exception"; }
        out.expansions = mon.expansions; out.outside = mon.outside; out.closed = mon.closed; out.hcalls = mon.hcalls; out.trace = mon.trace;
    }

    template <unsigned K, typename W, typename S, typename I, bool L, bool N, bool R, bool O, int RES, bool MON>
    void run_grid(const Problem& p, Env& e, Outcome& out) {
        using C = chdr::coord<I, K>; using grid_t = chdr::mazes::grid<C, W>;
        std::vector<W> nodes(p.count()); for (size_t i = 0; i < nodes.size(); ++i) nodes[i] = p.wall[i] ? std::numeric_limits<W>::max() : (std::is_same_v<W, bool> ? W(0) : W(i % 7));
        const auto shared = maze_of<grid_t>(p, [&] { return std::make_shared<const grid_t>(to_c<C>(p.size), nodes); }); const grid_t& grid = *shared;
        if constexpr (MON) { const mon_grid<grid_t> m(grid); call<S, C, std::bool_constant<L>, std::bool_constant<N>, std::bool_constant<R>, std::bool_constant<O>, RES, W>(p, e, out, m); }
        else { call<S, C, std::bool_constant<L>, std::bool_constant<N>, std::bool_constant<R>, std::bool_constant<O>, RES, W>(p, e, out, grid); }
        out.maze_changed = grid.nodes() != nodes;
    }
    template <unsigned K, typename W, typename S, typename I, bool L, bool N, bool R, bool O, int RES, bool MON>
    void run_graph(const Problem& p, Env& e, Outcome& out) { // floating-point scalars: weights in quarters, which need no rounding
        using C = chdr::coord<I, K>; using graph_t = chdr::mazes::graph<I, S>;
        const auto shared = maze_of<graph_t>(p, [&] { auto n = std::make_shared<graph_t>(); for (unsigned i = 0; i < p.n; ++i) { n->add(I(i)); for (auto& [t, w] : p.adj[i]) n->add(I(i), std::make_pair(I(t), std::is_floating_point_v<S> ? S(w) / S(4) : S(w))); } return std::shared_ptr<const graph_t>(n); }); const graph_t& g = *shared;
        call<S, C, std::bool_constant<L>, std::bool_constant<N>, std::bool_constant<R>, std::bool_constant<O>, RES, W>(p, e, out, g);
        size_t n = 0; for (unsigned i = 0; i < p.n; ++i) { if (!g.contains(I(i)) || g.get_neighbours(I(i)).size() != p.adj[i].size()) { out.maze_changed = true; } ++n; } if (g.count() != n) out.maze_changed = true;
    }
    template <typename T> constexpr char tc() { return std::is_same_v<T, bool> ? 'b' : std::is_same_v<T, char> ? 'c' : std::is_same_v<T, float> ? 'f' : std::is_same_v<T, double> ? 'd' : std::is_same_v<T, size_t> ? 'z' : std::is_same_v<T, uint16_t> ? 's' : std::is_same_v<T, int32_t> ? 'i' : std::is_same_v<T, uint8_t> ? 'y' : std::is_same_v<T, int16_t> ? 'h' : std::is_same_v<T, int64_t> ? 'l' : std::is_same_v<T, long double> ? 'D' : std::is_same_v<T, signed char> ? 'a' : 'u'; }
    struct Reg { Reg(Inst i) { insts().push_back(i); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define GRID(SET, K, W, S, I, L, N, R, O, RES, MON) const Reg CAT(reg_, __COUNTER__) { { STR(SOLVER), K, tc<W>(), tc<S>(), tc<I>(), L, N, R, O, RES, MON, false, SET, &run_grid<K, W, S, I, L, N, R, O, RES, MON> } };
#define GRAPH(SET, K, W, S, I, L, N, R, O, RES, MON) const Reg CAT(reg_, __COUNTER__) { { STR(SOLVER), K, tc<W>(), tc<S>(), tc<I>(), L, N, R, O, RES, MON, true, SET, &run_graph<K, W, S, I, L, N, R, O, RES, MON> } };
#ifdef SOLVER_JPS
#define MONI false
#else
#define MONI true
#endif
#define U uint32_t
#ifdef SET_CORE
#ifndef SOLVER_JPS
    GRID("core", 1, bool, U, U,      0, 1, 1, 0, 0, MONI)
    GRID("core", 1, char, U, U,      0, 0, 0, 0, 0, false)
    GRID("core", 2, bool, U, U,      0, 1, 1, 0, 0, MONI)
    GRID("core", 2, char, U, size_t, 0, 0, 0, 0, 0, MONI)
    GRID("core", 2, bool, U, U,      1, 1, 0, 0, 0, MONI)
    GRID("core", 3, bool, U, U,      0, 1, 1, 0, 0, MONI)
    GRID("core", 3, char, U, U,      0, 0, 0, 0, 0, false)
    GRID("core", 3, bool, U, U,      1, 0, 0, 1, 0, MONI)
    GRID("core", 4, bool, U, U,      0, 1, 1, 0, 0, false)
    GRID("core", 2, bool, U, uint16_t, 0, 0, 0, 0, 0, MONI)
    GRID("core", 2, char, U, int32_t,  0, 0, 0, 0, 0, MONI)
    GRID("core", 4, char, int32_t, U,0, 0, 0, 0, 0, MONI)
#endif
    GRID("core", 2, char, U, U,      0, 1, 1, 1, 0, MONI)
    GRID("core", 2, bool, int32_t, U,0, 0, 0, 1, 0, false)
    GRID("core", 2, char, double, U, 1, 0, 1, 1, 0, MONI)
#ifdef SOLVER_JPS
    GRID("core", 2, bool, double, U, 0, 1, 0, 1, 0, MONI)
#endif
#endif
#ifdef SET_RES
#ifndef SOLVER_JPS
    GRID("res", 2, bool, U, U, 0, 1, 1, 0, 1, MONI)
    GRID("res", 2, char, U, U, 1, 0, 0, 0, 2, MONI)
    GRID("res", 3, char, U, U, 0, 0, 1, 0, 2, MONI)
#endif
    GRID("res", 2, bool, U, U, 0, 1, 0, 1, 2, MONI)
    GRID("res", 2, char, U, U, 0, 0, 1, 1, 2, MONI)
#endif
#ifdef SET_SAN
#ifndef SOLVER_JPS
    GRID("san", 2, bool, U, U,         0, 1, 1, 0, 2, MONI)
    GRID("san", 3, char, int32_t, size_t, 1, 0, 0, 0, 0, MONI)
    GRID("san", 1, char, U, U,         0, 0, 1, 0, 2, false)
    GRID("san", 4, bool, U, U,         0, 0, 0, 1, 2, MONI)
    GRID("san", 2, char, U, uint16_t,  0, 0, 1, 0, 2, MONI)
    GRID("san", 3, bool, U, int32_t,   0, 1, 0, 0, 0, MONI)
    GRAPH("san", 1, bool, U, U,        0, 0, 0, 0, 2, false)
    GRAPH("san", 1, bool, double, U,   1, 0, 1, 0, 0, false)
#endif
    GRID("san", 2, char, double, U,    1, 0, 0, 1, 2, MONI)
    GRID("san", 2, bool, U, U,         0, 1, 1, 1, 0, false)
#endif
#ifdef SET_PAR
#ifndef SOLVER_JPS
    GRID("par", 2, bool, U, U,         0, 1, 1, 0, 0, MONI)
    GRID("par", 3, char, int32_t, size_t, 1, 0, 0, 1, 0, false)
    GRAPH("par", 1, bool, U, U,        0, 0, 0, 0, 0, false)
#endif
    GRID("par", 2, char, double, U,    0, 0, 0, 1, 0, MONI)
#endif
#ifdef SET_BUILD
#ifndef SOLVER_JPS
    GRID("build", 2, bool, U, U,       0, 1, 1, 0, 0, MONI)
    GRID("build", 3, char, int32_t, uint16_t, 1, 0, 0, 1, 0, MONI)
    GRAPH("build", 1, bool, U, U,      0, 0, 0, 0, 0, false)
#endif
    GRID("build", 2, char, double, uint8_t, 0, 0, 1, 1, 0, MONI)
    GRID("build", 2, bool, U, size_t,  0, 0, 0, 1, 0, MONI)
#endif
#ifdef SET_ENTRY
#ifndef SOLVER_JPS
    GRID("entry", 2, bool, U, U,       0, 0, 1, 0, 2, MONI)
    GRID("entry", 3, char, int32_t, size_t, 1, 1, 0, 0, 0, MONI)
    GRAPH("entry", 1, bool, U, U,      0, 0, 0, 0, 2, false)
#endif
    GRID("entry", 2, char, double, U,  0, 0, 1, 1, 2, MONI)
    GRID("entry", 2, bool, U, U,       0, 1, 0, 1, 1, MONI)
#endif
#ifdef SET_TYPES
#ifndef SOLVER_JPS
    GRID("types", 1, uint64_t, uint64_t, uint64_t, 0, 0, 1, 0, 0, MONI)
    GRID("types", 2, uint16_t, uint16_t, U, 0, 0, 1, 0, 0, MONI)
    GRID("types", 3, uint8_t, float, uint16_t, 0, 0, 1, 0, 0, MONI)
    GRID("types", 4, int32_t, int64_t, size_t, 0, 0, 0, 1, 0, MONI)
    GRID("types", 5, bool, U, U,          0, 0, 1, 0, 0, MONI)
    GRID("types", 6, bool, int16_t, U,    0, 0, 0, 0, 0, MONI)
    GRAPH("types", 1, bool, uint16_t, U,  0, 0, 1, 0, 0, false)
    GRAPH("types", 1, bool, float, uint16_t, 0, 0, 0, 0, 0, false)
    GRAPH("types", 1, bool, int64_t, int32_t, 1, 0, 1, 0, 0, false)
#endif
    GRID("types", 2, int32_t, float, size_t, 0, 1, 0, 1, 0, MONI)
    GRID("types", 2, int64_t, int64_t, U, 0, 0, 1, 1, 0, MONI)
    GRID("types", 2, bool, uint8_t, U,    0, 0, 0, 1, 0, MONI)
    GRID("types", 2, uint16_t, long double, int32_t, 0, 0, 0, 1, 0, MONI)
    GRID("types", 2, signed char, int16_t, uint8_t, 1, 0, 0, 1, 0, MONI)
#endif
#if defined(SET_GRAPH) && !defined(SOLVER_JPS)
    GRAPH("graph", 1, bool, U, U,        0, 1, 0, 0, 0, false)
    GRAPH("graph", 1, bool, U, U,        0, 0, 1, 0, 0, false)
    GRAPH("graph", 1, bool, double, U,   1, 0, 1, 0, 0, false)
    GRAPH("graph", 1, bool, U, size_t,   0, 0, 0, 0, 2, false)
#endif
} }
