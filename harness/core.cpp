#include "core.hpp"
#include <queue>
#include <algorithm>
namespace vf {
    thread_local Mon mon; thread_local Par par; std::atomic<uint64_t> par_clock { 0 };
    __attribute__((weak)) void pause_alloc(bool) {}
    __attribute__((weak)) void solve_begin() {}
    __attribute__((weak)) void solve_end() {}
    std::vector<Inst>& insts() { static std::vector<Inst> v; return v; }
    bool is(const Inst& i, std::initializer_list<const char*> names) { for (auto n : names) if (!strcmp(n, i.solver)) return true; return false; }

    static std::string cs(const Problem& p, const Cell& c) { std::string o = "("; for (unsigned i = 0; i < (p.graph ? 1 : p.K); ++i) o += (i ? "," : "") + std::to_string(c[i]); return o + ")"; }
    std::string show(const Problem& p) {
        std::string o;
        if (p.graph) {
            o = "graph n=" + std::to_string(p.n) + " " + cs(p, p.s) + "->" + cs(p, p.e) + " heur=" + std::to_string(p.heur) + " w=" + std::to_string(p.weight) + " edges:";
            for (unsigned i = 0; i < p.n && o.size() < 1500; ++i) for (auto& [t, w] : p.adj[i]) o += " " + std::to_string(i) + ">" + std::to_string(t) + ":" + std::to_string(w);
            return o;
        }
        o = "grid "; for (unsigned i = 0; i < p.K; ++i) o += (i ? "x" : "") + std::to_string(p.size[i]);
        o += " " + cs(p, p.s) + "->" + cs(p, p.e) + " heur=" + std::to_string(p.heur) + " w=" + std::to_string(p.weight) + " cap=" + std::to_string(p.capacity) + " lim=" + std::to_string(p.memlimit) + " cells:";
        for (size_t i = 0; i < p.wall.size() && i < 1200; ++i) { if (i % p.size[0] == 0) o += '\n'; o += p.wall[i] ? '#' : '.'; }
        return o;
    }
    std::string show(const Problem& p, const std::vector<Cell>& path) { std::string o = "["; for (size_t i = 0; i < path.size() && i < 80; ++i) o += cs(p, path[i]); return o + (path.size() > 80 ? "...]" : "]") + " (" + std::to_string(path.size()) + ")"; }

    template <typename F> static void for_moves(const Problem& p, const Cell& c, bool oct, F&& f) {
        if (oct) {
            int n = 1; for (unsigned i = 0; i < p.K; ++i) n *= 3;
            for (int m = 0; m < n; ++m) { int x = m; Cell d = c; bool ok = true, any = false; for (unsigned i = 0; i < p.K; ++i) { int s = x % 3 - 1; x /= 3; if (s) any = true; const int64_t v = int64_t(c[i]) + s; if (v < 0 || v >= int64_t(p.size[i])) { ok = false; break; } d[i] = uint32_t(v); } if (ok && any && !p.wall[p.lin(d)]) f(d); }
        } else {
            for (unsigned i = 0; i < p.K; ++i) for (int s = -1; s <= 1; s += 2) { Cell d = c; const int64_t v = int64_t(c[i]) + s; if (v < 0 || v >= int64_t(p.size[i])) continue; d[i] = uint32_t(v); if (!p.wall[p.lin(d)]) f(d); }
        }
    }
    std::vector<int> bfs_dist(const Problem& p, const Cell& from, bool oct) {
        std::vector<int> d(p.count(), -1); if (!p.open(from)) return d;
        std::deque<Cell> q { from }; d[p.lin(from)] = 0;
        while (!q.empty()) { Cell c = q.front(); q.pop_front(); const int dc = d[p.lin(c)]; for_moves(p, c, oct, [&](const Cell& x) { auto& e = d[p.lin(x)]; if (e < 0) { e = dc + 1; q.push_back(x); } }); }
        return d;
    }
    std::vector<double> octile_dist(const Problem& p, const Cell& from, double diag, bool nosq) {
        std::vector<double> d(p.count(), -1); if (!p.open(from)) return d; using T = std::pair<double, size_t>; std::priority_queue<T, std::vector<T>, std::greater<>> q; d[p.lin(from)] = 0; q.push({ 0, p.lin(from) });
        while (!q.empty()) {
            auto [c, l] = q.top(); q.pop(); if (c > d[l]) continue; const Cell a = p.cell(l);
            for_moves(p, a, true, [&](const Cell& b) {
                const bool dg = a[0] != b[0] && a[1] != b[1];
                if (dg && nosq && !p.open({ a[0], b[1], 0, 0 }) && !p.open({ b[0], a[1], 0, 0 })) return;
                const double n = c + (dg ? diag : 1.0); auto& e = d[p.lin(b)]; if (e < 0 || n < e - 1e-9) { e = n; q.push({ n, p.lin(b) }); } });
        }
        return d;
    }
    std::vector<uint64_t> graph_dist(const Problem& p, uint32_t from) {
        std::vector<uint64_t> d(p.n, UINT64_MAX); using T = std::pair<uint64_t, uint32_t>; std::priority_queue<T, std::vector<T>, std::greater<>> q; d[from] = 0; q.push({ 0, from });
        while (!q.empty()) { auto [c, v] = q.top(); q.pop(); if (c > d[v]) continue; for (auto& [t, w] : p.adj[v]) if (c + w < d[t]) { d[t] = c + w; q.push({ d[t], t }); } }
        return d;
    }
    bool is_move(const Problem& p, const Cell& a, const Cell& b, bool oct) {
        if (!p.open(a) || !p.open(b)) return false; unsigned nz = 0; for (unsigned i = 0; i < p.K; ++i) { const int64_t d = int64_t(a[i]) - int64_t(b[i]); if (d > 1 || d < -1) return false; nz += d != 0; }
        return oct ? nz >= 1 : nz == 1;
    }
    bool is_ray(const Problem& p, const Cell& a, const Cell& b) {
        if (!p.open(a) || !p.open(b) || a == b) return false; const int64_t dx = int64_t(b[0]) - a[0], dy = int64_t(b[1]) - a[1]; if (dx && dy && std::abs(dx) != std::abs(dy)) return false;
        const int sx = dx > 0 ? 1 : dx < 0 ? -1 : 0, sy = dy > 0 ? 1 : dy < 0 ? -1 : 0; Cell c = a; while (c != b) { c[0] = uint32_t(int64_t(c[0]) + sx); c[1] = uint32_t(int64_t(c[1]) + sy); if (!p.open(c)) return false; } return true;
    }
    static bool edge_of(const Problem& p, uint32_t a, uint32_t b, uint64_t& w) { bool f = false; for (auto& [t, c] : p.adj[a]) if (t == b) { if (!f || c < w) w = c; f = true; } return f; }

    PathCheck check_path(const Problem& p, const std::vector<Cell>& path, bool oct, bool rays) {
        PathCheck best; best.why = "empty"; if (path.empty()) return best;
        for (auto& c : path) { if (p.graph ? c[0] >= p.n : !p.open(c)) { best.why = "lists " + cs(p, c) + ", which is not an open cell of the maze"; return best; } }
        for (int fwd = 1; fwd >= 0; --fwd) {
            PathCheck r; r.fwd = fwd; const Cell& first = fwd ? p.s : p.e; const Cell& last = fwd ? p.e : p.s;
            r.full = path; const bool hf = path.front() == first, hl = path.back() == last; (fwd ? r.has_s : r.has_e) = hf; (fwd ? r.has_e : r.has_s) = hl;
            if (!hf) r.full.insert(r.full.begin(), first); if (!hl) r.full.push_back(last);
            r.ok = true;
            for (size_t i = 0; i + 1 < r.full.size() && r.ok; ++i) {
                const Cell &a = r.full[i], &b = r.full[i + 1];
                if (p.graph) { uint64_t w = 0; const uint32_t x = fwd ? a[0] : b[0], y = fwd ? b[0] : a[0]; if (!edge_of(p, x, y, w)) { r.ok = false; } r.cost += w; }
                else if (rays) { if (!is_ray(p, a, b)) r.ok = false; const auto len = uint64_t(std::max(std::abs(int64_t(a[0]) - b[0]), std::abs(int64_t(a[1]) - b[1]))); r.cost += len; if (a[0] != b[0] && a[1] != b[1]) r.diags += len; }
                else { if (!is_move(p, a, b, oct)) r.ok = false; ++r.cost; }
                if (!r.ok) r.why = cs(p, a) + " -> " + cs(p, b) + " is not a legal move";
            }
            if (r.ok) { auto v = r.full; std::sort(v.begin(), v.end()); if (std::adjacent_find(v.begin(), v.end()) != v.end()) { r.ok = false; r.why = "visits a cell twice"; } }
            if (r.ok) return r;
            if (fwd || best.why.empty()) best = r;
            else { // report the attempt that got further
                best.why += " / reversed: " + r.why;
            }
        }
        best.ok = false; return best;
    }

    // ------------------------------------------------------------------ workloads
    static void carve_maze(rt::Rng& rng, Problem& p) { // perfect maze on even coordinates
        std::fill(p.wall.begin(), p.wall.end(), 1); Cell c {}; std::vector<Cell> st { c }; p.wall[p.lin(c)] = 0;
        while (!st.empty()) {
            c = st.back(); std::vector<std::pair<Cell, Cell>> opt;
            for (unsigned i = 0; i < p.K; ++i) for (int s = -1; s <= 1; s += 2) { const int64_t v = int64_t(c[i]) + 2 * s; if (v < 0 || v >= int64_t(p.size[i])) continue; Cell a = c, b = c; a[i] = uint32_t(int64_t(c[i]) + s); b[i] = uint32_t(v); if (p.wall[p.lin(b)]) opt.push_back({ a, b }); }
            if (opt.empty()) { st.pop_back(); continue; }
            auto [a, b] = opt[rng.below(opt.size())]; p.wall[p.lin(a)] = 0; p.wall[p.lin(b)] = 0; st.push_back(b);
        }
    }
    Problem gen_grid(rt::Rng& rng, unsigned K, size_t max_cells, int family) {
        Problem p; p.K = K; if (max_cells < 2) max_cells = 2;
        for (;;) { size_t c = 1; const size_t target = 2 + rng.below(max_cells - 1); const double side = std::pow(double(target), 1.0 / K);
            for (unsigned i = 0; i < K; ++i) { double f = rng.chance(0.3) ? 1.0 : 0.4 + rng.unit() * 1.4; long v = long(side * f + 0.5); if (rng.chance(0.05)) v = 1; p.size[i] = uint32_t(v < 1 ? 1 : v); if (K == 1) p.size[i] = uint32_t(target); c *= p.size[i]; }
            if (c >= 2 && c <= max_cells + max_cells / 2) break; }
        p.wall.assign(p.count(), 0); if (family < 0) family = int(rng.below(9));
        switch (family) {
            case 0: break;                                                                          // open
            case 1: for (auto& w : p.wall) w = rng.chance(0.12); break;
            case 2: for (auto& w : p.wall) w = rng.chance(0.3); break;
            case 3: for (auto& w : p.wall) w = rng.chance(0.45); break;
            case 4: carve_maze(rng, p); break;
            case 5: carve_maze(rng, p); for (auto& w : p.wall) if (w && rng.chance(0.15)) w = 0; break;   // maze with loops
            case 6: { // slabs with doors: detours away from the goal
                for (unsigned i = 0; i < 3; ++i) { const unsigned d = unsigned(rng.below(K)); if (p.size[d] < 3) continue; const uint32_t at = uint32_t(1 + rng.below(p.size[d] - 2)); std::vector<size_t> slab; for (size_t l = 0; l < p.wall.size(); ++l) if (p.cell(l)[d] == at) { p.wall[l] = 1; slab.push_back(l); } if (rng.chance(0.9)) p.wall[slab[rng.below(slab.size())]] = 0; if (rng.chance(0.4)) p.wall[slab[rng.below(slab.size())]] = 0; } break; }
            case 7: { // pockets: U shaped obstacles
                for (int k = 0; k < 3; ++k) { Cell a {}, b {}; for (unsigned i = 0; i < K; ++i) { a[i] = uint32_t(rng.below(p.size[i])); b[i] = uint32_t(rng.below(p.size[i])); if (a[i] > b[i]) std::swap(a[i], b[i]); } const unsigned od = unsigned(rng.below(K)); for (size_t l = 0; l < p.wall.size(); ++l) { Cell c = p.cell(l); bool in = true, rim = false; for (unsigned i = 0; i < K; ++i) { if (c[i] < a[i] || c[i] > b[i]) in = false; } if (!in) continue; for (unsigned i = 0; i < K; ++i) if ((c[i] == a[i] && i != od) || c[i] == b[i]) rim = true; if (rim) p.wall[l] = 1; } } break; }
            default: for (auto& w : p.wall) w = rng.chance(0.2); for (size_t i = 0; i < p.wall.size() / 6; ++i) p.wall[rng.below(p.wall.size())] = 0; break;
        }
        return p;
    }
    uint64_t simple_paths(const Problem& p, const Cell& from, bool oct, uint64_t cap) {
        std::vector<uint8_t> on(p.graph ? p.n : p.count(), 0); uint64_t n = 0;
        std::function<void(const Cell&)> go = [&](const Cell& c) {
            if (++n > cap) return;
            const size_t l = p.graph ? c[0] : p.lin(c); on[l] = 1;
            if (p.graph) { for (auto& [t, w] : p.adj[c[0]]) { if (!on[t] && n <= cap) go(Cell { t, 0, 0, 0 }); } }
            else for_moves(p, c, oct, [&](const Cell& d) { if (n <= cap && !on[p.lin(d)]) go(d); });
            on[l] = 0;
        };
        go(from); return n;
    }
    bool pick_ends(rt::Rng& rng, Problem& p, bool want, bool oct) {
        std::vector<size_t> open; for (size_t i = 0; i < p.wall.size(); ++i) if (!p.wall[i]) open.push_back(i);
        if (open.size() < 2) return false;
        for (int t = 0; t < 30; ++t) {
            const size_t s = open[rng.below(open.size())]; p.s = p.cell(s); auto d = bfs_dist(p, p.s, oct);
            std::vector<size_t> c; int far = -1; size_t farc = 0; for (auto o : open) { if (o == s) continue; if ((d[o] >= 0) == want) { c.push_back(o); if (d[o] > far) { far = d[o]; farc = o; } } }
            if (c.empty()) continue;
            p.e = p.cell(want && rng.chance(0.4) ? farc : c[rng.below(c.size())]); return true;
        }
        return false;
    }
    Problem gen_graph(rt::Rng& rng, unsigned max_n, unsigned max_w, bool undirected) {
        Problem p; p.graph = true; p.K = 1; p.n = 2 + unsigned(rng.below(max_n - 1)); p.adj.resize(p.n); p.size = { p.n, 1, 1, 1 };
        auto add = [&](unsigned a, unsigned b, unsigned w) { if (a == b) return; for (auto& x : p.adj[a]) if (x.first == b) return; p.adj[a].push_back({ b, w }); if (undirected) p.adj[b].push_back({ a, w }); };
        auto w = [&] { return unsigned(1 + rng.below(max_w)); };
        auto any = [&] { const auto a = unsigned(rng.below(p.n)), b = unsigned(rng.below(p.n)); add(a, b, w()); }; // one at a time: compilers evaluate arguments in different orders
        const bool hub = max_n >= 12 && rng.chance(0.03);
        if (hub) { p.n = 200 + unsigned(rng.below(400)); p.adj.assign(p.n, {}); p.size = { p.n, 1, 1, 1 }; }
        switch (hub ? 9 : rng.below(5)) {
            case 9: { const unsigned c = unsigned(rng.below(p.n)); for (unsigned i = 0; i < p.n; ++i) if (!rng.chance(0.02)) add(c, i, w()); const unsigned m = unsigned(rng.below(20)); for (unsigned i = 0; i < m; ++i) any(); break; }   // one junction with hundreds of roads
            case 0: for (unsigned i = 1; i < p.n; ++i) { const auto b = unsigned(rng.below(i)); add(i, b, w()); } break;                                    // tree
            case 1: for (unsigned i = 1; i < p.n; ++i) { const auto b = unsigned(rng.below(i)); add(i, b, w()); } for (unsigned i = 0; i < p.n; ++i) any(); break;
            case 2: { const unsigned m = unsigned(rng.below(p.n * 3)); for (unsigned i = 0; i < m; ++i) any(); break; }
            case 3: for (unsigned i = 0; i < p.n; ++i) add(i, (i + 1) % p.n, w()); for (unsigned i = 0; i < p.n / 3; ++i) any(); break;
            default: for (unsigned i = 1; i < p.n; ++i) { const auto b = unsigned(rng.below(std::min(i, 4u))); add(i, b, w()); if (rng.chance(0.5)) add(i, i - 1, 1); } break;
        }
        p.s = { unsigned(rng.below(p.n)), 0, 0, 0 }; do { p.e = { unsigned(rng.below(p.n)), 0, 0, 0 }; } while (p.e == p.s);
        return p;
    }
    uint64_t problem_hash(const Problem& p) {
        uint64_t h = p.K + 100 * p.graph; for (auto x : p.size) h = rt::mix(h, x); for (auto x : p.s) h = rt::mix(h, x); for (auto x : p.e) h = rt::mix(h, x); for (auto w : p.wall) h = h * 31 + w; for (auto& v : p.adj) for (auto& e : v) h = rt::mix(h, e.first * 1000003ull + e.second); return rt::mix(h, 5);
    }
}
