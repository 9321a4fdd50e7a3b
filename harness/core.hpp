// Common vocabulary: search problems, independent oracles, monitored mazes and memory resources.
#pragma once
#include "rt.hpp"
#include <array>
#include <stdexcept>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <atomic>
#include <memory>
#include <memory_resource>
#include <thread>
#include <typeinfo>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>
#include <chdr.hpp>

namespace vf {

    using Cell = std::array<uint32_t, 6>;

    struct Edge { uint32_t a, b, w; };

    struct Problem {
        unsigned K = 2;
        Cell size { 1, 1, 1, 1, 1, 1 }, s {}, e {};
        std::vector<uint8_t> wall;               // grid: 1 = closed
        bool graph = false;
        unsigned n = 0;                          // graph: vertex count (ids 0..n-1)
        std::vector<std::vector<std::pair<uint32_t, uint32_t>>> adj;
        int heur = 0;                            // 0 manhattan 1 zero 2 chebyshev 3 euclid 4 octile 5 junk
        unsigned weight = 1; size_t capacity = 0, memlimit = 1u << 20;
        unsigned entry = 0;                      // how solve is called: see call() in solver_tu.cpp
        uint64_t budget = 0;                     // maximum number of expansions (0 = none)
        struct Share* share = nullptr;           // mazes built once and used by several threads (P12)

        size_t count() const { size_t c = 1; for (unsigned i = 0; i < K; ++i) c *= size[i]; return c; }
        size_t lin(const Cell& c) const { size_t r = 0; for (unsigned i = K; i-- > 0;) r = r * size[i] + c[i]; return r; }
        Cell cell(size_t l) const { Cell c {}; for (unsigned i = 0; i < K; ++i) { c[i] = uint32_t(l % size[i]); l /= size[i]; } return c; }
        bool inside(const Cell& c) const { for (unsigned i = 0; i < K; ++i) if (c[i] >= size[i]) return false; return true; }
        bool open(const Cell& c) const { return inside(c) && !wall[lin(c)]; }
    };

    // Mazes shared between threads: built on first use by one thread, then only read (no locks that would hide a race).
    struct Share { std::unordered_map<std::string, std::shared_ptr<const void>> mazes; };
    template <typename M, typename F> std::shared_ptr<const M> maze_of(const Problem& p, F&& build) {
        if (!p.share) return build();
        const auto it = p.share->mazes.find(typeid(M).name()); if (it != p.share->mazes.end()) return std::static_pointer_cast<const M>(it->second);
        auto m = build(); p.share->mazes[typeid(M).name()] = m; return m;
    }

    std::string show(const Problem& p);
    std::string show(const Problem& p, const std::vector<Cell>& path);

    // Unit-cost breadth-first distances from a cell (independent of the library). oct: 3^K-1 moves.
    std::vector<int> bfs_dist(const Problem& p, const Cell& from, bool oct);
    // 8-connected distances where a diagonal step costs `diag`; nosq forbids diagonal steps between two closed cells (2-D). Negative = unreachable.
    std::vector<double> octile_dist(const Problem& p, const Cell& from, double diag, bool nosq);
    // Dijkstra on an explicit graph; UINT64_MAX = unreachable.
    std::vector<uint64_t> graph_dist(const Problem& p, uint32_t from);
    bool is_move(const Problem& p, const Cell& a, const Cell& b, bool oct);   // one legal move between open cells
    bool is_ray(const Problem& p, const Cell& a, const Cell& b);              // straight or diagonal run through open cells (2-D)

    // Orders in which the returned sequence can list the route, once completed by omitted endpoints.
    struct PathCheck { bool ok = false; std::string why; std::vector<Cell> full; bool has_s = false, has_e = false, fwd = true; uint64_t cost = 0, diags = 0; };
    PathCheck check_path(const Problem& p, const std::vector<Cell>& path, bool oct, bool rays);

    // ---------------------------------------------------------------- monitors
    struct Mon { uint64_t expansions = 0, budget = 0, outside = 0, closed = 0, hcalls = 0; uint64_t trace = 0; uint64_t count = 0; };
    extern thread_local Mon mon;
    inline thread_local void (*on_expand)(size_t) = nullptr; // called with the cell before every expansion
    // Concurrent runs: which thread this is, how often it yields, and what it saw of the common order of expansions. Relaxed, so that it orders nothing.
    struct Par { unsigned id = 0, yield = 0; uint64_t order = 0; }; extern thread_local Par par; extern std::atomic<uint64_t> par_clock;
    inline void par_event() { if (!par.id) return; const auto t = par_clock.fetch_add(1, std::memory_order_relaxed); par.order = rt::mix(par.order, rt::mix(t, par.id)); if (par.yield && rt::mix(t, par.id) % par.yield == 0) std::this_thread::yield(); }

    template <typename grid_t> struct mon_grid {
        using inner_t = grid_t;
        static constexpr auto s_rank = grid_t::s_rank;
        static constexpr auto s_neighbour_count = grid_t::s_neighbour_count;
        using neighbour_t = typename grid_t::neighbour_t;
        using neighbours_t = typename grid_t::neighbours_t;
        const grid_t& g;
        explicit mon_grid(const grid_t& _g) : g(_g) {}
        template <typename id_t> void seen(const id_t& _id) const {
            size_t l; bool in = true;
            if constexpr (std::is_integral_v<id_t>) { l = static_cast<size_t>(_id); in = l < g.count(); }
            else { for (size_t i = 0; i < s_rank; ++i) in = in && _id[i] < g.size()[i]; l = in ? static_cast<size_t>(chdr::utils::to_1d(_id, g.size())) : 0; }
            if (!in) { ++mon.outside; } else if (!g[l].is_active()) { ++mon.closed; }
            par_event(); ++mon.expansions; mon.trace = rt::mix(mon.trace, l); if (on_expand) on_expand(l);
            if (mon.budget && mon.expansions > mon.budget) { rt::budget_exceeded("expansion budget exceeded"); }
        }
        template <bool D = false, typename id_t> auto get_neighbours(const id_t& _id) const { seen(_id); return g.template get_neighbours<D>(_id); }
        template <typename id_t> bool contains(const id_t& _id) const { return g.contains(_id); }
        template <typename id_t> decltype(auto) operator[](const id_t& _id) const { return g[_id]; }
        template <typename id_t> bool is_transitory(const id_t& _id) const { return g.is_transitory(_id); }
        const auto& nodes() const { return g.nodes(); }
        const auto& size() const { return g.size(); }
        size_t count() const { return g.count(); }
        auto begin() const { return g.begin(); } auto end() const { return g.end(); }
    };

    void solve_begin(); void solve_end(); // around the call into the library
    void pause_alloc(bool on); // the monitors' own bookkeeping does not take part in allocation counting or failures
    struct Quiet { Quiet() { pause_alloc(true); } ~Quiet() { pause_alloc(false); } };

    // Blocks handed out by the heterogeneous and homogeneous trackers together (nodes of the memory-bounded solvers).
    struct Joint { int64_t live = 0, peak = 0; }; inline thread_local Joint joint;

    inline bool no_fill() { static const bool v = getenv("VF_NOFILL") != nullptr; return v; } // leave blocks undefined for memcheck

    // A checking memory resource: every block comes from the sanitised heap, and every deallocation has to match.
    struct track_pmr : std::pmr::memory_resource {
        struct Blk { size_t bytes, align; };
        std::unordered_map<void*, Blk> live; uint64_t allocs = 0, frees = 0, bad = 0, peak = 0, bytes = 0; int64_t fail_at = -1; std::string what; bool in_joint = false; const char* name = "?"; uint64_t resets = 0, releases = 0; uint64_t failed = 0;
        uint64_t max_req = 0, live_at_reset = 0;
        ~track_pmr() override { drop(); }
        void drop() { Quiet q; for (auto& [p, b] : live) { ::operator delete(p, std::align_val_t(b.align < 16 ? 16 : b.align)); } if (in_joint) { joint.live -= int64_t(live.size()); } live.clear(); bytes = 0; }
        void* do_allocate(size_t b, size_t a) override {
            Quiet q;
            if (fail_at >= 0 && int64_t(allocs + failed) == fail_at) { ++failed; throw std::bad_alloc(); }
            ++allocs; if (in_joint && ++joint.live > joint.peak) { joint.peak = joint.live; } void* p = ::operator new(b ? b : 1, std::align_val_t(a < 16 ? 16 : a)); if (!no_fill()) std::memset(p, 0xA5, b); live[p] = { b, a }; bytes += b; if (bytes > peak) peak = bytes; if (b > max_req) max_req = b; return p;
        }
        void do_deallocate(void* p, size_t b, size_t a) override {
            Quiet q;
            auto it = live.find(p);
            if (it == live.end()) { ++bad; what = std::string(name) + ": deallocation of a block this resource never handed out (or already took back)"; return; }
            if (it->second.bytes != b || it->second.align != a) { ++bad; what = std::string(name) + ": deallocation with size/alignment " + std::to_string(b) + "/" + std::to_string(a) + " of a block allocated with " + std::to_string(it->second.bytes) + "/" + std::to_string(it->second.align); }
            const auto al = it->second.align; bytes -= it->second.bytes; if (in_joint) { --joint.live; } live.erase(it); ++frees; ::operator delete(p, std::align_val_t(al < 16 ? 16 : al));
        }
        bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
    };
    struct rtrack_pmr final : track_pmr { int reset_error = 0; void reset() { ++resets; live_at_reset = std::max<uint64_t>(live_at_reset, live.size()); drop(); if (reset_error) throw std::runtime_error("reset of resource " + std::to_string(reset_error)); } void release() { ++releases; drop(); } };

    struct Env {
        chdr::monotonic_pool<>* m = nullptr; chdr::heterogeneous_pool<>* h = nullptr; chdr::homogeneous_pool<>* o = nullptr;
        rtrack_pmr *tm = nullptr, *th = nullptr, *to = nullptr;
    };
    struct Pools { chdr::monotonic_pool<> m; chdr::heterogeneous_pool<> h; chdr::homogeneous_pool<> o; Env env() { Env e; e.m = &m; e.h = &h; e.o = &o; return e; } };
    struct Tracks { rtrack_pmr m, h, o; Tracks() { m.name = "monotonic"; h.name = "heterogeneous"; o.name = "homogeneous"; h.in_joint = o.in_joint = true; } void add(Env& e) { e.tm = &m; e.th = &h; e.to = &o; } uint64_t bad() const { return m.bad + h.bad + o.bad; } std::string what() const { return m.bad ? m.what : h.bad ? h.what : o.what; } };

    struct Outcome {
        std::vector<Cell> path; int exc = 0; std::string exc_what; bool threw() const { return exc != 0; }
        uint64_t expansions = 0, outside = 0, closed = 0, hcalls = 0, trace = 0; bool maze_changed = false;
    };

    struct Inst {
        const char* solver; unsigned K; char w; char scalar; char index; bool lazy, nc, rev, oct; int res; bool mon, graph; const char* set;
        void (*fn)(const Problem&, Env&, Outcome&);
        std::string name() const { char b[128]; snprintf(b, sizeof b, "%s/%s%u%c%c%c/l%dn%dr%do%d/m%d", solver, graph ? "graph" : "grid", K, w, scalar, index, lazy, nc, rev, oct, res); return b; }
        std::string cfg() const { char b[128]; snprintf(b, sizeof b, "%s/%s/l%dr%do%d", solver, graph ? "graph" : "grid", lazy, rev, oct); return b; }
    };
    std::vector<Inst>& insts();

    bool is(const Inst& i, std::initializer_list<const char*> names);
    inline bool is_jps(const Inst& i) { return is(i, { "jps", "gjps" }); }

    // ---------------------------------------------------------------- workloads
    Problem gen_grid(rt::Rng& rng, unsigned K, size_t max_cells, int family = -1);
    uint64_t simple_paths(const Problem& p, const Cell& from, bool oct, uint64_t cap); // how many simple paths start at a cell (what depth-bounded search has to enumerate), up to a cap
    bool pick_ends(rt::Rng& rng, Problem& p, bool want_reachable, bool oct);
    Problem gen_graph(rt::Rng& rng, unsigned max_n, unsigned max_w, bool undirected = true);
    uint64_t problem_hash(const Problem& p);
}
