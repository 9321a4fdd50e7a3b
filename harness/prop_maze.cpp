// Maze oracles: grid adjacency (P21), graph contents (P22), graphs made from grids and pruned graphs (P23). Graphs are built by worker threads, so P23 also runs under ThreadSanitizer.
#include "core.hpp"
#include <algorithm>
#include <memory>
#include <queue>
#include <set>
using namespace vf;

namespace {
    using chdr::mazes::grid; using chdr::mazes::graph;
    template <typename T> const char* tn() { return std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, char> ? "char" : std::is_same_v<T, int8_t> ? "int8" : std::is_same_v<T, uint8_t> ? "uint8" : std::is_same_v<T, uint16_t> ? "uint16" : std::is_same_v<T, uint32_t> ? "uint32" : std::is_same_v<T, uint64_t> ? "uint64" : std::is_same_v<T, int32_t> ? "int32" : std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "?"; }
    template <typename C> std::string show(const C& c) { std::string s = "("; for (auto v : c) { s += (s.size() > 1 ? "," : "") + std::to_string(v); } return s + ")"; }

#if ONLY == 21
    // ------------------------------------------------------------------ grids
    template <typename T, size_t K, typename W> void grid_case(rt::Rng& rng) {
        using C = std::array<T, K>; using G = grid<C, W>; char name[64]; snprintf(name, sizeof name, "%s x%zu of %s", tn<T>(), K, tn<W>()); rt::phase("%s", name); bool dead = false;
        auto bad = [&](const char* w, const std::string& m) { if (!dead) rt::violation(std::string(w) + ":" + name, m); dead = true; };
        const double most = std::min<double>(double(std::numeric_limits<T>::max()), K > 4 ? 900 : 3000);
        C size {}; size_t n = 1; { const double edge = std::pow(most, 1.0 / K); for (size_t i = 0; i < K; ++i) { T v = T(1 + rng.below(uint64_t(rng.chance(0.15) ? 1 : std::max(1.0, edge * (rng.chance(0.3) ? 2 : 1.0))))); if (rng.chance(0.05)) v = T(rng.range(1, 2)); if (double(n) * double(v) > most) v = 1; size[i] = v; n *= size_t(v); } if (rng.chance(0.1)) { size = C {}; for (auto& s : size) s = 1; const size_t ax = rng.below(K); size[ax] = T(1 + rng.below(uint64_t(most))); n = size_t(size[ax]); } }
        const W wall = std::numeric_limits<W>::max(); const double dens = rng.chance(0.2) ? (rng.chance(0.5) ? 0 : 1) : rng.unit();
        std::vector<W> cells(n); for (size_t i = 0; i < n; ++i) cells[i] = rng.chance(dens) ? wall : (std::is_same_v<W, bool> ? W(0) : rng.chance(0.1) ? std::numeric_limits<W>::min() : rng.chance(0.1) ? W(wall - 1) : W(rng.below(100)));
        auto lin = [&](const C& c) { size_t r = 0; for (size_t k = K; k-- > 0;) r = r * size_t(size[k]) + size_t(c[k]); return r; };
        auto at = [&](size_t l) { C c {}; for (size_t k = 0; k < K; ++k) { c[k] = T(l % size_t(size[k])); l /= size_t(size[k]); } return c; };
        auto open = [&](size_t l) { return bool(cells[l] != wall); };
        // the grid, made in one of several ways
        std::unique_ptr<G> gp; switch (rng.below(5)) {
            case 0: gp = std::make_unique<G>(size, cells); break;
            case 1: { auto copy = cells; gp = std::make_unique<G>(size, std::move(copy)); break; }
            case 2: gp = std::make_unique<G>(size); { for (size_t i = 0; i < n; ++i) if ((*gp)[i].value() != W(0)) { bad("fresh", "a fresh grid is not zero"); return; } } gp->nodes(cells); break;
            case 3: { G o(size, cells); gp = std::make_unique<G>(std::move(o)); break; }
            default: { C one; for (auto& v : one) v = 1; gp = std::make_unique<G>(one); G o(size, cells); *gp = std::move(o); } }
        const G& g = *gp;
        if (g.size() != size || g.count() != n || g.nodes() != cells) { bad("contents", "size, count or nodes differ from those given: " + show(size)); return; }
        { size_t i = 0; for (auto it = g.begin(); it != g.end(); ++it, ++i) if (W(*it) != cells[i]) { bad("iterate", "iteration differs at " + std::to_string(i)); return; } if (i != n) bad("iterate", "iteration stops early"); size_t j = n; for (auto it = g.rbegin(); it != g.rend(); ++it) if (j == 0 || W(*it) != cells[--j]) { bad("iterate", "backwards iteration differs"); return; } }
        auto expect = [&](const C& c, bool diag) { // open neighbours, by definition
            std::vector<size_t> r; const size_t kinds = [&] { size_t p = 1; for (size_t k = 0; k < K; ++k) p *= 3; return p; }();
            for (size_t d = 0; d < kinds; ++d) { size_t x = d; int moved = 0; bool in = true; C q = c; for (size_t k = 0; k < K; ++k, x /= 3) { const int s = int(x % 3) - 1; if (s) ++moved; const long long v = (long long)(c[k]) + s; if (v < 0 || v >= (long long)(size[k])) in = false; else q[k] = T(v); } if (moved && in && (diag || moved == 1) && open(lin(q))) r.push_back(lin(q)); }
            std::sort(r.begin(), r.end()); return r; };
        auto got = [&](const auto& ns) { std::vector<size_t> r; for (const auto& [active, c] : ns) if (active) { bool in = true; for (size_t k = 0; k < K; ++k) in = in && size_t(c[k]) < size_t(size[k]) && c[k] >= 0; if (!in) { r.push_back(~size_t(0)); continue; } r.push_back(lin(c)); } std::sort(r.begin(), r.end()); return r; };
        const bool all = n <= 200; const size_t probes = all ? n : 60; uint64_t h = K * 64 + sizeof(T) * 8 + sizeof(W); for (auto s : size) h = rt::mix(h, uint64_t(s));
        for (size_t i = 0; i < probes && !dead; ++i) {
            const size_t l = all ? i : rng.below(n); const C c = at(l);
            if (g[l].value() != cells[l] || g[c].value() != cells[l] || g[T(l)].value() != cells[l]) bad("value", "cell " + show(c) + " of " + show(size) + " has another value than given");
            if (g[l].is_active() != open(l) || g[c].is_active() != open(l)) bad("active", "cell " + show(c) + " is " + (open(l) ? "open" : "closed"));
            if (!g.contains(c) || !g.contains(l) || !g.contains(T(l))) bad("contains", "cell " + show(c) + " of " + show(size) + " is not contained");
            const auto ax = expect(c, false), di = expect(c, true); h = rt::mix(h, di.size() * 32 + ax.size());
            const auto ga = g.get_neighbours(c), gi = g.get_neighbours(T(l)); const auto da = g.template get_neighbours<true>(c), db = g.template get_neighbours<true>(T(l));
            if (got(ga) != ax || got(gi) != ax) bad("axis", "axis neighbours of " + show(c) + " in " + show(size) + ": " + std::to_string(got(ga).size()) + " and " + std::to_string(got(gi).size()) + ", expected " + std::to_string(ax.size()));
            if (got(da) != di || got(db) != di) bad("diagonal", "neighbours of " + show(c) + " in " + show(size) + ": " + std::to_string(got(da).size()) + ", expected " + std::to_string(di.size()));
            if (g.is_transitory(l) != (ax.size() == 2) || g.is_transitory(ga) != (ax.size() == 2)) bad("transitory", "cell " + show(c) + " with " + std::to_string(ax.size()) + " open neighbours");
            if (g.is_transitory(da) != (di.size() == 2)) bad("transitory", "cell " + show(c) + " with " + std::to_string(di.size()) + " open neighbours, diagonals included");
            rt::count("adjacencies compared");
            { C dir {}; C q = c; bool in = true; for (size_t k = 0; k < K; ++k) { const int s = int(rng.below(3)) - 1; dir[k] = T(1 + s); const long long v = (long long)(c[k]) + s; if (v < 0 || v >= (long long)(size[k])) in = false; else q[k] = T(v); }
              const auto [active, to] = g.check_neighbour(c, dir); if (active != (in && open(lin(q))) || (active && to != q)) bad("check", "neighbour of " + show(c) + " in direction " + show(dir) + " of " + show(size)); }
            { C o = c; const size_t k = rng.below(K); o[k] = size[k]; if (rng.chance(0.3)) o[k] = std::numeric_limits<T>::max(); if (std::is_signed_v<T> && rng.chance(0.5)) o[k] = T(rng.chance(0.8) ? -1 - int(rng.below(4)) : std::numeric_limits<T>::min()); if ((o[k] < 0 || o[k] >= size[k]) && g.contains(o)) bad("contains", show(o) + " is contained in " + show(size)); rt::count("outside cells tested"); }
        }
        if (g.contains(n) || g.contains(n + 1 + rng.below(1000)) || g.contains(~size_t(0)) || (n <= size_t(std::numeric_limits<T>::max()) && g.contains(T(n)))) bad("contains", "a number past the last cell is contained");
        rt::distinct(h); if (rng.chance(0.001)) rt::sample(std::string(name) + " " + show(size));
    }

#elif ONLY == 22
    // ------------------------------------------------------------------ graphs
    template <typename G> void same(const G& g, const std::map<long, std::vector<std::pair<long, long>>>& m, const char* name, const std::string& log, bool& dead) {
        auto bad = [&](const char* w, const std::string& t) { if (!dead) rt::violation(std::string(w) + ":" + name, t + " | after: " + log.substr(log.size() > 700 ? log.size() - 700 : 0)); dead = true; };
        if (g.count() != m.size()) { bad("count", std::to_string(g.count()) + " vertices, expected " + std::to_string(m.size())); return; }
        size_t seen = 0; for (auto it = g.begin(); it != g.end(); ++it) { ++seen; if (!m.count(long(it->first))) { bad("iterate", "vertex " + std::to_string(it->first) + " was never added"); return; } } if (seen != m.size()) bad("iterate", "iteration visits " + std::to_string(seen) + " vertices");
        for (auto& [v, es] : m) { if (!g.contains(v)) { bad("contains", "vertex " + std::to_string(v) + " is missing"); return; } if (long(g[v].id()) != v || !g[v].is_active()) bad("vertex", "vertex " + std::to_string(v) + " does not know its id"); std::vector<std::pair<long, long>> a, b = es; for (auto& [t, w] : g.get_neighbours(v)) a.push_back({ long(t), long(w * 4) }); auto d = a; std::vector<std::pair<long, long>> e2; for (auto& [t, w] : g.template get_neighbours<true>(v)) e2.push_back({ long(t), long(w * 4) }); if (e2 != a) bad("edges", "diagonal neighbours differ"); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) { bad("edges", "vertex " + std::to_string(v) + " has " + std::to_string(a.size()) + " edges, expected " + std::to_string(b.size()) + " (or other ones)"); return; } rt::count("vertices compared"); }
    }
    template <typename T, typename S> void graph_case(rt::Rng& rng) {
        using G = graph<T, S>; using E = std::pair<T, S>; char name[64]; snprintf(name, sizeof name, "%s/%s", tn<T>(), tn<S>()); rt::phase("%s", name); track_pmr res; res.name = "graph"; bool dead = false; std::string log; uint64_t h = sizeof(T) * 8 + sizeof(S);
        {
            std::optional<G> gp; gp.emplace(&res); std::map<long, std::vector<std::pair<long, long>>> m; // weights in quarters
            if (rng.chance(0.3)) {
                gp.reset(); const auto k = rng.below(5);
                switch (k) {
                    case 0: gp.emplace(std::initializer_list<std::initializer_list<E>> {}, &res); break;
                    case 1: gp.emplace(std::initializer_list<std::initializer_list<E>> { { E(1, 2) }, { E(0, 3), E(2, 1) }, {} }, &res); m = { { 0, { { 1, 8 } } }, { 1, { { 0, 12 }, { 2, 4 } } }, { 2, {} } }; break;
                    case 2: gp.emplace(std::initializer_list<std::initializer_list<E>> { {}, {}, { E(0, 1) } }, &res); m = { { 0, {} }, { 1, {} }, { 2, { { 0, 4 } } } }; break;
                    case 3: gp.emplace(std::initializer_list<std::initializer_list<E>> { { E(0, 5) }, { E(1, 1), E(1, 1) } }, &res); m = { { 0, { { 0, 20 } } }, { 1, { { 1, 4 }, { 1, 4 } } } }; break;
                    default: gp.emplace(std::initializer_list<std::initializer_list<E>> { { E(1, 1), E(2, 2), E(3, 3) }, { E(0, 1) }, { E(0, 2) }, { E(0, 3) } }, &res); m = { { 0, { { 1, 4 }, { 2, 8 }, { 3, 12 } } }, { 1, { { 0, 4 } } }, { 2, { { 0, 8 } } }, { 3, { { 0, 12 } } } };
                }
                log += "list" + std::to_string(k) + " "; rt::count("adjacency lists");
            }
            const size_t range = rng.chance(0.2) ? 200 : 1 + rng.below(12); const int steps = int(rng.range(2, 80));
            auto vert = [&] { return long(rng.below(range)); };
            auto weight = [&] { return std::is_floating_point_v<S> ? long(rng.below(9)) : long(rng.below(3)) * 4; };
            for (int s = 0; s < steps && !dead; ++s) {
                auto& g = *gp; const auto op = rng.below(16); const long v = vert(), t = vert(), w = weight(); h = rt::mix(h, op * 1024 + size_t(v)); rt::count("graph operations");
                if (op < 3) { log += "v" + std::to_string(v) + " "; g.add(T(v)); m[v]; }
                else if (op < 9) { log += "e" + std::to_string(v) + "-" + std::to_string(t) + ":" + std::to_string(w) + " "; res.fail_at = rng.chance(0.05) ? int64_t(res.allocs + res.failed) : -1; bool ok = true; try { g.add(T(v), E(T(t), S(w) / 4)); } catch (const std::bad_alloc&) { ok = false; log += "(failed) "; rt::count("failed growth"); } res.fail_at = -1; if (ok) m[v].push_back({ t, w }); else if (g.contains(T(v))) m[v]; }
                else if (op < 13) { // all edges equal to the given one go; a vertex that loses its last edge goes with it
                    long tt = t, ww = w; auto it = m.find(v); if (it != m.end() && !it->second.empty() && rng.chance(0.8)) { std::tie(tt, ww) = it->second[rng.below(it->second.size())]; }
                    log += "r" + std::to_string(v) + "-" + std::to_string(tt) + ":" + std::to_string(ww) + " "; g.remove(T(v), E(T(tt), S(ww) / 4)); rt::count("edges removed");
                    if (it != m.end()) { auto& es = it->second; es.erase(std::remove(es.begin(), es.end(), std::make_pair(tt, ww)), es.end()); if (es.empty()) m.erase(it); } }
                else if (op == 13) { if (rng.chance(0.1)) { log += "clear "; g.clear(); m.clear(); } }
                else if (op == 14) { if (rng.chance(0.3)) { log += "move "; G o(std::move(g)); gp.reset(); if (rng.chance(0.5)) gp.emplace(std::move(o)); else { gp.emplace(&res); gp->add(T(v), E(T(t), S(1))); *gp = std::move(o); } rt::count("moves"); } }
                else { const long x = long(range) + long(rng.below(20)); if (g.contains(T(x)) != (m.count(x) > 0)) { rt::violation(std::string("contains:") + name, "vertex " + std::to_string(x)); dead = true; } }
                if (rng.chance(0.3) || s + 1 == steps) same(static_cast<const G&>(*gp), m, name, log, dead);
            }
        }
        if (res.bad) rt::violation(std::string("resource:") + name, res.what); if (!res.live.empty()) rt::violation(std::string("leak:") + name, std::to_string(res.live.size()) + " blocks not returned");
        rt::distinct(h); if (rng.chance(0.001)) rt::sample(std::string(name) + ": " + log.substr(0, 300));
    }

#else
    // ------------------------------------------------------------------ grids to graphs, pruning
    using Dist = std::map<long, double>;
    template <typename G> Dist from(const G& g, long s) { Dist d; std::priority_queue<std::pair<double, long>, std::vector<std::pair<double, long>>, std::greater<>> q; d[s] = 0; q.push({ 0, s }); while (!q.empty()) { auto [x, v] = q.top(); q.pop(); if (x > d[v]) continue; for (auto& [t, w] : g.get_neighbours(v)) { const double y = x + double(w); auto it = d.find(long(t)); if (it == d.end() || y < it->second) { d[long(t)] = y; q.push({ y, long(t) }); } } } return d; }
    // What every pruned graph looks like: no edge leads to a missing vertex, every edge can be taken back, and no vertex merely connects two others.
    template <typename G> bool shape(const G& g, const char* name, const std::string& what) {
        for (auto& [v, es] : g) for (auto& [t, w] : es) { if (!g.contains(t)) { rt::violation(std::string("dangling:") + name, "vertex " + std::to_string(v) + " has an edge to the missing vertex " + std::to_string(t) + what); return false; } bool back = false; for (auto& [u, x] : g.get_neighbours(t)) back = back || (u == v && x == w); if (!back) { rt::violation(std::string("oneway:") + name, "the edge from " + std::to_string(v) + " to " + std::to_string(t) + " of weight " + std::to_string(w) + " has no counterpart" + what); return false; } rt::count("edges verified"); }
        if (g.count() > 2) for (auto& [v, es] : g) if (es.size() == 2 && es.front().first != es.back().first && es.front().first != v && es.back().first != v) { rt::violation(std::string("unpruned:") + name, "vertex " + std::to_string(v) + " still only connects two others" + what); return false; }
        return true;
    }
    template <typename T, typename S, typename CT, size_t K, typename W> void from_grid(rt::Rng& rng) {
        using C = std::array<CT, K>; char name[64]; snprintf(name, sizeof name, "grid x%zu/%s/%s/%s", K, tn<CT>(), tn<W>(), tn<T>()); rt::phase("%s", name);
        const size_t limit = std::min<size_t>({ size_t(std::numeric_limits<T>::max()), size_t(std::numeric_limits<CT>::max()), size_t(rng.chance(0.1) ? 3000 : 300) });
        Problem p = gen_grid(rng, K, limit); if (p.count() > limit) return;
        C size {}; for (size_t k = 0; k < K; ++k) size[k] = CT(p.size[k]);
        const size_t n = p.count(); std::vector<W> cells(n); for (size_t i = 0; i < n; ++i) cells[i] = p.wall[i] ? std::numeric_limits<W>::max() : W(0);
        const grid<C, W> gr(size, cells); rtrack_pmr res; res.name = "graph";
        // The tracking resource is used by one thread at a time (the constructor serialises its additions).
        { const graph<T, S> g(gr, &res); const std::string what = " | " + vf::show(p);
        rt::count("grids converted"); rt::count("vertices kept", g.count());
        std::vector<int> deg(n); auto adj = [&](size_t l) { std::vector<size_t> r; const Cell c = p.cell(l); for (unsigned k = 0; k < K; ++k) for (int s : { -1, 1 }) { Cell q = c; if (s < 0 && c[k] == 0) continue; q[k] += uint32_t(s); if (p.open(q)) r.push_back(p.lin(q)); } return r; };
        std::vector<int> comp(n, -1); std::vector<bool> plain; int nc = 0; for (size_t i = 0; i < n; ++i) deg[i] = p.wall[i] ? -1 : int(adj(i).size());
        for (size_t i = 0; i < n; ++i) if (!p.wall[i] && comp[i] < 0) { plain.push_back(true); std::vector<size_t> st { i }; comp[i] = nc; while (!st.empty()) { const auto l = st.back(); st.pop_back(); if (deg[l] != 2) plain[size_t(nc)] = false; for (auto t : adj(l)) if (comp[t] < 0) { comp[t] = nc; st.push_back(t); } } ++nc; }
        std::vector<char> has(size_t(nc), 0);
        for (auto& [v, es] : g) { if (size_t(v) >= n || p.wall[size_t(v)]) { rt::violation(std::string("vertex:") + name, "vertex " + std::to_string(v) + " is not an open cell" + what); return; } has[size_t(comp[size_t(v)])] = 1; }
        for (int c = 0; c < nc; ++c) if (!plain[size_t(c)] && !has[size_t(c)]) { rt::violation(std::string("lost:") + name, "a connected part of the grid has no vertex" + what); return; }
        for (size_t i = 0; i < n; ++i) if (deg[i] >= 0 && deg[i] < 2 && !g.contains(T(i))) { rt::violation(std::string("end:") + name, "the dead end " + std::to_string(i) + " is missing" + what); return; }
        if (!shape(g, name, what)) return;
        // distances between kept vertices are those of the grid
        std::vector<long> vs; for (auto& [v, es] : g) vs.push_back(long(v)); std::sort(vs.begin(), vs.end());
        for (size_t k = 0, m = std::min<size_t>(vs.size(), 12); k < m; ++k) {
            const long s = vs.size() <= 12 ? vs[k] : vs[rng.below(vs.size())]; const auto d = from(g, s); const auto want = bfs_dist(p, p.cell(size_t(s)), false);
            for (long v : vs) { auto it = d.find(v); const double got = it == d.end() ? -1 : it->second; if (got != double(want[size_t(v)])) { rt::violation(std::string("distance:") + name, "from " + std::to_string(s) + " to " + std::to_string(v) + ": " + std::to_string(got) + " in the graph, " + std::to_string(want[size_t(v)]) + " in the grid" + what); return; } rt::count("distances compared"); }
        }
        { const graph<T, S> g2(gr); bool ok = g2.count() == g.count(); for (auto& [v, es] : g) ok = ok && g2.contains(v); if (!ok) rt::count("conversions that kept other vertices"); }
        rt::maxi("max vertices", g.count()); rt::distinct(rt::mix(problem_hash(p), g.count())); }
        if (res.bad) rt::violation(std::string("resource:") + name, res.what); if (!res.live.empty()) rt::violation(std::string("leak:") + name, "blocks not returned");
    }
    template <typename T, typename S> void prune_case(rt::Rng& rng) {
        using G = graph<T, S>; char name[64]; snprintf(name, sizeof name, "prune %s/%s", tn<T>(), tn<S>()); rt::phase("%s", name); rtrack_pmr res; res.name = "graph";
        {
            G g(&res); const long n = long(rng.range(1, rng.chance(0.1) ? 120 : 14)); std::string log; const bool loops = rng.chance(0.15), multi = rng.chance(0.3);
            std::map<std::pair<long, long>, bool> used; auto road = [&](long a, long b, int w) { if (a == b && !loops) return; if (!multi && used[{ std::min(a, b), std::max(a, b) }]) return; used[{ std::min(a, b), std::max(a, b) }] = true; log += std::to_string(a) + "-" + std::to_string(b) + ":" + std::to_string(w) + " "; g.add(T(a), { T(b), S(w) }); if (a != b) g.add(T(b), { T(a), S(w) }); };
            const auto wmax = rng.chance(0.3) ? 1 : 20; auto w = [&] { return int(rng.range(1, wmax)); }; const auto style = rng.below(5);
            for (long i = 0; i < n; ++i) g.add(T(i));
            if (style == 0) for (long i = 0; i + 1 < n; ++i) road(i, i + 1, w());                                              // a chain
            else if (style == 1) { for (long i = 0; i < n; ++i) if (n > 2 || i == 0) road(i, (i + 1) % n, w()); }              // a ring
            else if (style == 2) { for (long i = 1; i < n; ++i) road(i, long(rng.below(uint64_t(i))), w()); }                  // a tree
            else if (style == 3) { for (long i = 1; i < n; ++i) road(i, rng.chance(0.8) ? i - 1 : long(rng.below(uint64_t(i))), w()); for (long i = 0; i < n / 4; ++i) road(long(rng.below(uint64_t(n))), long(rng.below(uint64_t(n))), w()); } // long chains with shortcuts
            else { const auto e = rng.below(uint64_t(n) * 2 + 1); for (uint64_t i = 0; i < e; ++i) road(long(rng.below(uint64_t(n))), long(rng.below(uint64_t(n))), w()); }
            std::map<long, Dist> before; std::map<long, size_t> deg; for (long i = 0; i < n; ++i) { before[i] = from(g, i); std::set<long> others; bool loop = false; for (auto& [t, x] : g.get_neighbours(T(i))) { if (long(t) == i) loop = true; else others.insert(long(t)); } deg[i] = loop ? 99 : others.size(); }
            log = " | " + log; const bool consolidate = rng.chance(0.5); if (consolidate) g.template prune<true>(); else g.template prune<false>(); rt::count("graphs pruned"); rt::count("vertices removed", size_t(n) - g.count());
            const G& k = g; for (auto& [v, es] : k) if (long(v) < 0 || long(v) >= n) { rt::violation(std::string("vertex:") + name, "vertex out of nowhere" + log); return; }
            for (long i = 0; i < n; ++i) if ((deg[i] < 2 || deg[i] == 99) && !k.contains(T(i))) { rt::violation(std::string("end:") + name, "vertex " + std::to_string(i) + ", which does not connect two others, is gone" + log); return; }
            if (n > 0 && k.count() == 0) { rt::violation(std::string("lost:") + name, "nothing left" + log); return; }
            if (!shape(k, name, log)) return;
            for (auto& [a, ea] : k) { const auto d = from(k, long(a)); for (auto& [b, eb] : k) { const auto& d0 = before[long(a)]; const auto x = d.find(long(b)), y = d0.find(long(b)); if ((x == d.end()) != (y == d0.end()) || (x != d.end() && x->second != y->second)) { rt::violation(std::string("distance:") + name, "from " + std::to_string(a) + " to " + std::to_string(b) + ": " + std::to_string(x == d.end() ? -1 : x->second) + " after pruning, " + std::to_string(y == d0.end() ? -1 : y->second) + " before" + log); return; } rt::count("distances compared"); } }
            // each connected part keeps a vertex
            for (long i = 0; i < n; ++i) { bool any = false; for (auto& [b, d] : before[i]) any = any || k.contains(T(b)); if (!any) { rt::violation(std::string("lost:") + name, "the part of vertex " + std::to_string(i) + " is gone" + log); return; } }
            g.prune(); // nothing left to prune
            uint64_t h = 0; for (char c : log) h = rt::mix(h, uint64_t(c)); rt::distinct(h); if (rng.chance(0.001)) rt::sample(name + log);
        }
        if (res.bad) rt::violation(std::string("resource:") + name, res.what); if (!res.live.empty()) rt::violation(std::string("leak:") + name, "blocks not returned");
    }
#endif
    void (*const cases[])(rt::Rng&) = {
#if ONLY == 21 && defined FEW
        grid_case<uint32_t, 2, bool>, grid_case<size_t, 2, char>, grid_case<uint8_t, 3, uint8_t>, grid_case<uint16_t, 1, bool>, grid_case<uint32_t, 4, int32_t>, grid_case<int32_t, 2, char>
#elif ONLY == 21
        grid_case<uint32_t, 2, bool>, grid_case<uint32_t, 2, char>, grid_case<uint32_t, 3, bool>, grid_case<uint32_t, 3, uint8_t>, grid_case<uint32_t, 1, bool>, grid_case<uint32_t, 1, char>, grid_case<uint32_t, 4, bool>, grid_case<uint32_t, 4, int32_t>, grid_case<size_t, 2, bool>, grid_case<size_t, 2, uint64_t>, grid_case<size_t, 3, int8_t>, grid_case<size_t, 5, bool>, grid_case<size_t, 5, char>, grid_case<uint16_t, 2, bool>, grid_case<uint16_t, 3, uint16_t>, grid_case<uint8_t, 2, bool>, grid_case<uint8_t, 2, int8_t>, grid_case<uint32_t, 6, char>, grid_case<int32_t, 2, bool>, grid_case<int32_t, 3, char>, grid_case<int16_t, 2, bool>, grid_case<int8_t, 2, char>, grid_case<int64_t, 5, bool> 
#elif ONLY == 22
        graph_case<uint32_t, uint32_t>, graph_case<size_t, double>, graph_case<uint16_t, float>, graph_case<int32_t, int32_t>, graph_case<uint8_t, double> 
#else
        from_grid<uint32_t, uint32_t, uint32_t, 2, bool>, from_grid<size_t, double, size_t, 2, char>, from_grid<uint32_t, float, size_t, 3, bool>, from_grid<size_t, uint32_t, uint32_t, 1, char>, from_grid<uint16_t, uint32_t, uint16_t, 2, uint8_t>, from_grid<uint8_t, uint32_t, uint8_t, 2, bool>, from_grid<int32_t, int32_t, int32_t, 2, char>, from_grid<uint32_t, uint32_t, uint32_t, 4, bool>, prune_case<uint32_t, uint32_t>, prune_case<size_t, double>, prune_case<int32_t, float>, prune_case<uint32_t, uint32_t>, prune_case<uint16_t, int32_t> 
#endif
    };
}

int main(int argc, char** argv) { return rt::run(argc, argv, [](uint64_t idx, rt::Rng& rng) { cases[idx % std::size(cases)](rng); }); }
