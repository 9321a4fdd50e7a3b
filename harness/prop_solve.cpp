// Solver-level oracles (P01..P06, P11, P13, P27): one random problem per case, judged against independent references.
#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>
using namespace vf;

namespace {
    bool bounded(const Inst& i) { return is(i, { "smastar", "osmastar", "mgstar" }); }
    bool iterative(const Inst& i) { return is(i, { "iddfs", "eiddfs", "idbest_first", "eidbest_first", "idastar", "eidastar", "smastar", "osmastar", "mgstar" }); }
    // What each solver promises: the fewest moves on unit grids, the least total weight on weighted graphs.
    bool optimal_unit(const Inst& i) {
        if (is(i, { "bfs", "gbfs", "iddfs", "eiddfs", "idastar", "eidastar", "fringe", "smastar", "osmastar", "mgstar" })) return true;
        return is(i, { "astar", "gstar", "dijkstra", "jps", "gjps" }) && !i.lazy;
    }
    bool optimal_weighted(const Inst& i) {
        if (is(i, { "idastar", "eidastar", "fringe", "smastar", "osmastar", "mgstar" })) return true;
        return is(i, { "astar", "gstar", "dijkstra" }) && !i.lazy;
    }
    std::string key(const char* what, const Inst& i) { return std::string(what) + ":" + i.solver + (i.graph ? "/graph" : "/grid"); }

    void run(const Inst& in, const Problem& p, Outcome& o, const char* ph) { Pools P; Env e = P.env(); Tracks T; T.add(e); rt::phase("%s/%s:%s", in.solver, in.graph ? "graph" : "grid", ph); in.fn(p, e, o); }

    struct Ref { bool must = false, mustnot = false; double opt = -1; uint64_t reach_cells = 0; };
    bool real(const Inst& in) { return in.scalar == 'd' || in.scalar == 'f' || in.scalar == 'D'; }
    double diag_cost(const Inst& in) { return real(in) ? std::sqrt(2.0) : 1.0; }
    // Whether every cost of the problem can be told apart in the scalar type of the instance.
    bool fits(const Inst& in, const Problem& p) {
        uint64_t most = 2; if (p.graph) { for (auto& v : p.adj) for (auto& [t, w] : v) most += w; } else { most += p.count(); for (unsigned i = 0; i < p.K; ++i) most += p.size[i]; }
        return most * p.weight < (in.scalar == 'y' ? 255u : in.scalar == 's' ? 65535u : in.scalar == 'h' ? 32767u : in.scalar == 'f' ? 1000000u : 2000000000u);
    }
    Ref reference(const Inst& in, const Problem& p) {
        Ref r;
        if (p.graph) { auto d = graph_dist(p, p.s[0]); for (auto x : d) r.reach_cells += x != UINT64_MAX; r.must = d[p.e[0]] != UINT64_MAX; r.mustnot = !r.must; if (r.must) r.opt = double(d[p.e[0]]); return r; }
        if (is_jps(in)) { // bracket: routes that never squeeze between two closed corners have to be found; cells not even 8-connected must not
            auto a = octile_dist(p, p.s, diag_cost(in), true); auto b = octile_dist(p, p.s, diag_cost(in), false); const auto e = p.lin(p.e);
            r.must = a[e] >= 0; r.mustnot = b[e] < 0; r.opt = a[e]; for (auto x : b) r.reach_cells += x >= 0; return r;
        }
        auto d = bfs_dist(p, p.s, in.oct); for (auto x : d) r.reach_cells += x >= 0; const int x = d[p.lin(p.e)]; r.must = x >= 0; r.mustnot = !r.must; r.opt = x; return r;
    }
    size_t cells_for(const Inst& in, rt::Rng& rng, bool thorough) {
        if (iterative(in) && !bounded(in)) return in.oct ? (rng.chance(0.2) ? 20 : 12) : in.K > 2 ? 18 : (rng.chance(0.2) ? 36 : 20);
        if (bounded(in)) return thorough ? 60 : 40;
        if (rng.chance(0.0008) && strcmp(in.solver, "fringe") && in.index != 'y' && in.index != 's' && !no_fill()) return 140000; // beyond 65536 cells (fringe inserts into sorted vectors)
        if (rng.chance(0.02) && in.index != 'y') return thorough ? 4000 : 1500; // an eight-bit index numbers 255 cells
        return rng.chance(0.5) ? 30 : 90;
    }
    bool make(const Inst& in, rt::Rng& rng, Problem& p, double p_reach, bool consistent) {
        const bool th = rt::opts.tier == "thorough";
        const bool enumerates = iterative(in) && !bounded(in); // exponential by design: only problems with few simple paths
        const auto small = [&] { return !enumerates || (simple_paths(p, p.s, in.oct, 20000) <= 20000 && simple_paths(p, p.e, in.oct, 20000) <= 20000); };
        if (in.graph) {
            const bool heavy = iterative(in); const unsigned top = heavy ? (bounded(in) ? 14 : 12) : (rng.chance(0.001) && !no_fill() ? 5000 : rng.chance(0.3) ? 60 : 14), wide = rng.chance(0.25) ? 1 : (rng.chance(0.5) ? 4 : 50); p = gen_graph(rng, top, wide);
            if (p.n > 100 && heavy && !bounded(in)) p = gen_graph(rng, 11, 9);
            for (int t = 0; t < 10 && !small(); ++t) { p = gen_graph(rng, 11, 9); } if (!small()) return false;
            p.heur = consistent || rng.chance(0.5) ? 1 : 5; if (iterative(in)) p.heur = 1;
        }
        else {
            bool ok = false; for (int t = 0; t < 12 && !ok; ++t) { p = gen_grid(rng, in.K, cells_for(in, rng, th)); ok = pick_ends(rng, p, rng.chance(p_reach), in.oct) && small(); }
            if (!ok) return false;
            if (consistent) p.heur = rng.chance(0.25) ? 1 : (in.oct ? 2 : 0);
            else { static const int hs[] = { 0, 1, 2, 3, 5 }; p.heur = hs[rng.below(iterative(in) ? 3 : 5)]; if (iterative(in) && in.oct && p.heur == 0) p.heur = 2; }
        }
        if (!consistent && !iterative(in) && rng.chance(0.3)) p.weight = unsigned(2 + rng.below(4));
        static const size_t caps[] = { 0, 0, 1, 7, 64, 5000 }; p.capacity = caps[rng.below(6)];
        p.budget = 4000000; return true;
    }
    // The layout of an answer: forwards (start to end) or backwards, and which of the two ends it lists.
    const char* layout(const Inst& i) {
        if (is(i, { "best_first", "dfs", "gbest_first", "gdfs" })) return "f E";
        if (is(i, { "dijkstra" })) return "f SE";
        if (is(i, { "eidastar" })) return i.graph && i.rev ? "r SE" : "f SE";
        if (is(i, { "idastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs" })) return "r SE";
        if (is(i, { "smastar", "osmastar" })) return "f S";
        return !i.rev ? "r E" : i.graph ? "f E" : "r S"; // astar, bfs, gbfs, gstar, fringe, mgstar, jps, gjps
    }
    std::string ctx(const Inst& in, const Problem& p) { return in.name() + " " + show(p); }
}

int main(int argc, char** argv) {
    std::string prop, only; for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--prop")) prop = argv[i + 1]; if (!strcmp(argv[i], "--only")) only = argv[i + 1]; }
    std::vector<const Inst*> pool;
    for (auto& i : insts()) {
        if ((prop == "P04" || prop == "P05") != i.graph && prop != "P06" && prop != "P07" && prop != "P11" && prop != "P13" && prop != "P27" && prop != "P28" && prop != "P32" && prop != "P36" && prop != "P37") continue;
        if (!strcmp(i.solver, "flood") && prop != "P02" && prop != "P04" && prop != "P06" && prop != "P07" && prop != "P13" && prop != "P27" && prop != "P28" && prop != "P32" && prop != "P36" && prop != "P37") continue;
        if (!only.empty() && only != i.solver) continue;
        if ((prop == "P03" || prop == "P34") && !optimal_unit(i)) continue;
        if (prop == "P33" && (!optimal_unit(i) || !is(i, { "astar", "gstar", "fringe", "jps", "idastar", "eidastar" }))) continue;
        if (prop == "P34" && (!i.mon || is(i, { "dijkstra", "mgstar", "osmastar" }))) continue; // these go on to look for better answers
        if (prop == "P35" && (!optimal_unit(i) || !is(i, { "astar", "gstar", "fringe", "jps", "gjps", "idastar", "eidastar", "smastar", "osmastar", "mgstar" }))) continue;
        if (prop == "P05" && !optimal_weighted(i)) continue;
        pool.push_back(&i);
    }
    if (pool.empty()) { fprintf(stderr, "no instances for %s\n", prop.c_str()); return 3; }

    return rt::run(argc, argv, [&](uint64_t idx, rt::Rng& rng) {
        const Inst& in = *pool[idx % pool.size()];
        Problem p; Outcome o;
        const bool flood = !strcmp(in.solver, "flood");

        if (prop == "P01" || prop == "P02" || prop == "P03" || prop == "P04" || prop == "P05" || prop == "P06") {
            const bool consistent = prop == "P03" || prop == "P05";
            if (!make(in, rng, p, prop == "P02" || prop == "P06" ? 0.5 : prop == "P04" ? 0.7 : 0.9, consistent)) { rt::count("skipped"); return; }
            const Ref r = reference(in, p); if (consistent && !r.must) { rt::count("unreachable"); return; }
            rt::note(ctx(in, p)); run(in, p, o, r.must ? "reachable" : r.mustnot ? "unreachable" : "diagonal squeeze"); rt::note(show(p, o.path));
            rt::count("solves"); rt::count("expansions", o.expansions); rt::maxi("max_cells", p.graph ? p.n : p.count()); rt::maxi("max_path", o.path.size());
            rt::distinct(rt::mix(problem_hash(p), rt::mix(std::hash<std::string> {}(in.name()), o.path.size())));
            if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 300) + " -> " + show(p, o.path).substr(0, 200));
            if (o.threw()) { rt::violation(key("exception", in), o.exc_what + " " + ctx(in, p)); return; }
            rt::count((std::string("solver ") + in.solver).c_str());
            if (o.path.empty()) rt::count("empty answers"); else rt::count("routes");

            if (prop == "P02" || prop == "P04") {
                if (r.must && o.path.empty()) { rt::violation(key("missed", in), "no answer although the goal is reachable: " + ctx(in, p)); return; }
                if (r.mustnot && !o.path.empty()) { rt::violation(key("phantom", in), "an answer although the goal is unreachable: " + ctx(in, p) + show(p, o.path)); return; }
            }
            if (prop == "P06") { // bounded progress; the step budget itself is enforced inside the monitored maze
                if (in.mon && !iterative(in) && strcmp(in.solver, "fringe") && !in.graph && !(in.lazy && !strcmp(in.solver, "dijkstra"))) {
                    rt::count("expansion bounds checked");
                    if (o.expansions > r.reach_cells + p.count()) rt::violation(key("expansions", in), std::to_string(o.expansions) + " expansions on " + std::to_string(p.count()) + " cells: " + ctx(in, p));
                }
                return;
            }
            if (prop == "P02" || flood) return;
            if (o.path.empty()) return;
            if (prop == "P01" || prop == "P04") {
                if (r.mustnot) return;
                auto c = check_path(p, o.path, in.oct, is_jps(in)); rt::count("moves checked", c.full.size());
                if (!c.ok) { rt::violation(key("route", in), c.why + ": " + ctx(in, p) + show(p, o.path)); return; }
                if (o.outside || o.closed) rt::violation(key("expands", in), "looked for neighbours of " + std::to_string(o.outside) + " cells outside the maze and " + std::to_string(o.closed) + " closed ones: " + ctx(in, p));
                return;
            }
            auto c = check_path(p, o.path, in.oct, is_jps(in)); if (!c.ok) { rt::count("invalid routes (not judged here)"); return; }
            const double cost = is_jps(in) ? double(c.cost - c.diags) + diag_cost(in) * double(c.diags) : double(c.cost);
            rt::count("costs compared");
            if (cost > r.opt + 1e-6) rt::violation(key("suboptimal", in), "cost " + std::to_string(cost) + ", optimum " + std::to_string(r.opt) + ": " + ctx(in, p) + show(p, o.path));
            return;
        }

        if (prop == "P07") { // anything goes; the sanitizers and assertions judge
            if (!make(in, rng, p, 0.6, false)) { rt::count("skipped"); return; }
            if (bounded(in) && rng.chance(0.6)) p.memlimit = 2 + rng.below(rng.chance(0.5) ? 12 : 80);
            if (!p.graph && rng.chance(0.06)) { Cell& c = rng.chance(0.5) ? p.s : p.e; const unsigned d = unsigned(rng.below(p.K)); c[d] = p.size[d] + unsigned(rng.below(4)); }
            if (rng.chance(0.03)) p.e = p.s;
            if (!p.graph && rng.chance(0.06)) { const Cell& c = rng.chance(0.5) ? p.s : p.e; if (p.inside(c)) p.wall[p.lin(c)] = 1; }
            rt::note(ctx(in, p)); run(in, p, o, "solve");
            rt::count("solves"); rt::count((std::string("solver ") + in.solver).c_str()); rt::count(o.path.empty() ? "empty answers" : "routes"); rt::count("expansions", o.expansions); rt::count("heuristic calls", o.hcalls);
            rt::distinct(rt::mix(problem_hash(p), rt::mix(std::hash<std::string> {}(in.name()), o.trace)));
            if (o.threw()) rt::violation(key("exception", in), o.exc_what + " " + ctx(in, p));
            if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 300) + " -> " + show(p, o.path).substr(0, 200));
            return;
        }

        if (prop == "P11") { // the same query through every configuration
            std::vector<const Inst*> all;
            const bool g = in.graph; const unsigned K = in.K; const bool oct = in.oct;
            if (!make(in, rng, p, 0.7, true)) { rt::count("skipped"); return; }
            const Ref base = reference(in, p); bool want = base.must;
            if (oct && K == 2 && !g) { auto a = octile_dist(p, p.s, 1.0, true); auto b = octile_dist(p, p.s, 1.0, false); if ((a[p.lin(p.e)] >= 0) != (b[p.lin(p.e)] >= 0)) { rt::count("ambiguous diagonal"); return; } }
            const size_t n = p.graph ? p.n : p.count();
            const bool few = n <= 40 && simple_paths(p, p.s, oct, 20000) <= 20000 && simple_paths(p, p.e, oct, 20000) <= 20000;
            uint64_t ran = 0; std::map<std::string, std::map<std::string, uint64_t>> lens;
            for (auto* j : pool) {
                if (j->graph != g || j->K != K || j->oct != oct) continue;
                if (iterative(*j) && !bounded(*j) && !few) continue;
                if (bounded(*j) && n > 200) continue;
                Outcome q; run(*j, p, q, "configurations"); ++ran;
                if (q.threw()) { rt::violation(key("exception", *j), q.exc_what + " " + ctx(*j, p)); continue; }
                if (q.path.empty() == want) { rt::violation(key("verdict", *j), std::string(want ? "no answer where others find one: " : "an answer where there is none: ") + ctx(*j, p)); continue; }
                if (q.path.empty() || !strcmp(j->solver, "flood")) continue;
                auto c = check_path(p, q.path, j->oct, is_jps(*j)); if (!c.ok) { rt::count("invalid routes (not judged here)"); continue; }
                // Optimal solvers agree on the cost whatever the configuration, the scalar or the index type.
                if (is_jps(*j)) continue;
                if (g ? optimal_weighted(*j) : optimal_unit(*j)) lens["optimal"][j->name()] = c.cost;
            }
            rt::count("configurations run", ran); rt::distinct(rt::mix(problem_hash(p), K * 2 + oct)); if (ran > 1) rt::count("queries compared");
            for (auto& [what, m] : lens) { uint64_t lo = UINT64_MAX, hi = 0; std::string a, b; for (auto& [k, v] : m) { if (v < lo) { lo = v; a = k; } if (v > hi) { hi = v; b = k; } } if (lo != hi && !m.empty()) rt::violation("disagree:" + b.substr(0, b.find('/')) + (g ? "/graph" : "/grid"), b + " costs " + std::to_string(hi) + " but " + a + " costs " + std::to_string(lo) + ": " + show(p)); }
            if (idx % 61 == 3) rt::sample("K=" + std::to_string(K) + (oct ? " octile " : " axis ") + show(p).substr(0, 200) + " through " + std::to_string(ran) + " configurations");
            return;
        }

        if (prop == "P28") { // one build of several: the oracles of the other properties, and a log of answers that is compared between builds
            const bool consistent = rng.chance(0.6);
            if (!make(in, rng, p, 0.75, consistent)) { rt::count("skipped"); return; }
            const bool limited = bounded(in) && rng.chance(0.3); if (limited) p.memlimit = 6 + rng.below(40);
            const Ref r = reference(in, p);
            rt::note(ctx(in, p)); run(in, p, o, "solve"); rt::note(show(p, o.path)); rt::count("solves"); rt::count("expansions", o.expansions); rt::count(o.path.empty() ? "empty answers" : "routes");
            const uint64_t query = rt::mix(problem_hash(p), rt::mix(std::hash<std::string> {}(in.name()), p.memlimit * 64 + uint64_t(p.heur) * 8 + p.weight)); rt::distinct(rt::mix(query, o.trace));
            if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 300) + " -> " + show(p, o.path).substr(0, 200));
            uint64_t answer = rt::mix(o.exc, o.path.empty());
            if (o.threw()) { rt::violation(key("exception", in), o.exc_what + " " + ctx(in, p)); return; }
            if (!limited && ((r.must && o.path.empty()) || (r.mustnot && !o.path.empty()))) { rt::violation(key("verdict", in), std::string(r.must ? "no answer although the goal is reachable: " : "an answer although the goal is unreachable: ") + ctx(in, p)); return; }
            const bool real = ::real(in); // rounding may differ between builds and break ties in another way: only verdicts and least costs have to agree
            if (!real) { for (auto& c : o.path) for (unsigned k = 0; k < p.K; ++k) answer = rt::mix(answer, c[k]); answer = rt::mix(answer, rt::mix(o.trace, o.expansions)); }
            if (!o.path.empty() && !flood && !r.mustnot) {
                auto c = check_path(p, o.path, in.oct, is_jps(in)); if (!c.ok && !(limited && c.why.find("twice") != std::string::npos)) { rt::violation(key("route", in), c.why + ": " + ctx(in, p) + show(p, o.path)); return; }
                if (consistent && !limited && (p.graph ? optimal_weighted(in) : optimal_unit(in)) && r.opt >= 0) {
                    const double cost = is_jps(in) ? double(c.cost - c.diags) + diag_cost(in) * double(c.diags) : double(c.cost); rt::count("costs compared"); answer = rt::mix(answer, uint64_t(cost * 1000 + 0.5));
                    if (cost > r.opt + 1e-6) rt::violation(key("suboptimal", in), "cost " + std::to_string(cost) + ", optimum " + std::to_string(r.opt) + ": " + ctx(in, p) + show(p, o.path));
                }
            }
            rt::record(query, answer); return;
        }

        if (prop == "P33" || prop == "P34" || prop == "P35") { // admissible heuristics; how far a search looks; weighted searches
            if (!make(in, rng, p, 1.0, true)) { rt::count("skipped"); return; }
            const bool informed = is(in, { "astar", "gstar", "fringe", "idastar", "eidastar", "smastar", "osmastar", "mgstar", "jps", "gjps" });
            const bool patchy = prop == "P33" && rng.chance(0.5); if (patchy) p.heur = in.oct ? 7 : 6; else if (prop == "P33") rt::count("consistent heuristics");
            if (prop == "P35" || (prop == "P34" && informed && rng.chance(0.3))) p.weight = 2 + unsigned(rng.below(rng.chance(0.8) ? 3 : 20));
            if (prop == "P35" && in.oct && !is_jps(in)) p.heur = 2;
            const Ref r = reference(in, p); if (!r.must) { rt::count("unreachable"); return; }
            static thread_local std::vector<uint32_t> seen; seen.clear();
            rt::note(ctx(in, p));
            { struct Hook { explicit Hook(bool on) { if (on) on_expand = [](size_t l) { Quiet q; seen.push_back(uint32_t(l)); }; } ~Hook() { on_expand = nullptr; } } hook(prop == "P34"); run(in, p, o, "solve"); }
            rt::note(show(p, o.path)); rt::count("solves");
            rt::distinct(rt::mix(problem_hash(p), rt::mix(std::hash<std::string> {}(in.name()), rt::mix(p.weight, o.path.size()))));
            if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 300) + " -> " + show(p, o.path).substr(0, 200));
            if (o.threw()) { rt::violation(key("exception", in), o.exc_what + " " + ctx(in, p)); return; }
            if (o.path.empty()) { rt::violation(key("missed", in), "no answer although the goal is reachable: " + ctx(in, p)); return; }
            if (prop == "P34") {
                if (seen.empty()) return;
                const bool from_s = seen[0] == p.lin(p.s), from_e = seen[0] == p.lin(p.e); if (!from_s && !from_e) { rt::violation(key("origin", in), "the search starts at neither end: " + ctx(in, p)); return; }
                const Cell& a = from_s ? p.s : p.e; const Cell& b = from_s ? p.e : p.s; const auto d = bfs_dist(p, a, in.oct); const bool looks_ahead = is(in, { "idastar", "eidastar" }); const uint64_t bound = (informed ? p.weight : 1) * uint64_t(r.opt);
                for (auto l : seen) {
                    const Cell c = p.cell(l); uint64_t h = 0; if (informed && p.heur != 1) for (unsigned k = 0; k < p.K; ++k) { const uint64_t v = c[k] > b[k] ? c[k] - b[k] : b[k] - c[k]; h = p.heur == 2 ? std::max(h, v) : h + v; }
                    if (l >= p.count() || d[l] < 0) { rt::violation(key("unreachable", in), "expands a cell that cannot be reached: " + ctx(in, p)); return; }
                    if (uint64_t(d[l]) + (informed ? p.weight : 1) * h > bound + (looks_ahead ? 1 + p.weight : 0)) { rt::violation(key("beyond", in), "expands a cell at distance " + std::to_string(d[l]) + " with estimate " + std::to_string(h) + " although the goal costs " + std::to_string(uint64_t(r.opt)) + ": " + ctx(in, p)); return; }
                }
                rt::count("expansions judged", seen.size()); if (p.weight > 1) rt::count("weighted searches"); return;
            }
            auto c = check_path(p, o.path, in.oct, is_jps(in)); if (!c.ok) { rt::violation(key("route", in), c.why + ": " + ctx(in, p) + show(p, o.path)); return; }
            const double cost = is_jps(in) ? double(c.cost - c.diags) + diag_cost(in) * double(c.diags) : double(c.cost); rt::count("costs compared"); if (cost > r.opt + 1e-6) rt::count("dearer than the optimum");
            if (cost > r.opt * p.weight + 1e-6) rt::violation(key(patchy ? "admissible" : prop == "P33" ? "suboptimal" : "bound", in), "cost " + std::to_string(cost) + ", optimum " + std::to_string(r.opt) + ", weight " + std::to_string(p.weight) + ": " + ctx(in, p) + show(p, o.path));
            return;
        }

        if (prop == "P37") { // numeric types and dimensions
            if (!make(in, rng, p, 0.75, true) || !fits(in, p)) { rt::count("skipped"); return; }
            const Ref r = reference(in, p); rt::note(ctx(in, p)); run(in, p, o, "solve"); rt::note(show(p, o.path)); rt::count(o.path.empty() ? "empty answers" : "routes"); rt::maxi("dimensions", p.K);
            rt::count((std::string("scalar ") + in.scalar).c_str()); rt::count((std::string("index ") + in.index).c_str()); rt::count((std::string("cell ") + in.w).c_str());
            rt::distinct(rt::mix(problem_hash(p), rt::mix(std::hash<std::string> {}(in.name()), o.path.size()))); if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 300) + " -> " + show(p, o.path).substr(0, 200));
            if (o.threw()) { rt::violation(key("exception", in), o.exc_what + " " + ctx(in, p)); return; }
            if ((r.must && o.path.empty()) || (r.mustnot && !o.path.empty())) { rt::violation(key("verdict", in), std::string(r.must ? "no answer although the goal is reachable: " : "an answer although the goal is unreachable: ") + ctx(in, p)); return; }
            if (o.path.empty() || r.mustnot || flood) return;
            auto c = check_path(p, o.path, in.oct, is_jps(in)); if (!c.ok) { rt::violation(key("route", in), c.why + ": " + ctx(in, p) + show(p, o.path)); return; }
            if (p.graph ? !optimal_weighted(in) : !optimal_unit(in)) return;
            const double cost = is_jps(in) ? double(c.cost - c.diags) + diag_cost(in) * double(c.diags) : double(c.cost); rt::count("costs compared");
            if (r.opt >= 0 && cost > r.opt + 1e-3) rt::violation(key("suboptimal", in), "cost " + std::to_string(cost) + ", optimum " + std::to_string(r.opt) + ": " + ctx(in, p) + show(p, o.path));
            return;
        }

        if (prop == "P36") { // hints and parameters a solver has no use for
            if (!make(in, rng, p, 0.75, rng.chance(0.6))) { rt::count("skipped"); return; }
            const bool blind = is(in, { "bfs", "gbfs", "dfs", "gdfs", "iddfs", "eiddfs", "dijkstra", "flood" }); // no use for an estimate
            rt::note(ctx(in, p)); run(in, p, o, "solve"); rt::note(show(p, o.path)); rt::count(o.path.empty() ? "empty answers" : "routes");
            rt::distinct(rt::mix(problem_hash(p), rt::mix(std::hash<std::string> {}(in.name()), o.trace))); if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 300) + " -> " + show(p, o.path).substr(0, 200));
            if (o.threw()) { rt::violation(key("exception", in), o.exc_what + " " + ctx(in, p)); return; }
            const size_t n = p.graph ? p.n : p.count(); const size_t caps[] = { 0, 1, 2, n / 2, n ? n - 1 : 0, n, n + 1, 4 * n + 3, 20000 };
            for (int t = 0; t < 4; ++t) {
                Problem q = p; std::string what = "capacity " + std::to_string(q.capacity = caps[rng.below(9)]);
                if (!bounded(in) && rng.chance(0.5)) { q.memlimit = rng.chance(0.5) ? rng.below(20) : size_t(-1); what += ", memory limit " + std::to_string(q.memlimit); rt::count("limits varied"); }
                if (blind && rng.chance(0.5)) { static const int hs[] = { 0, 1, 2, 5 }; q.heur = p.graph ? (rng.chance(0.5) ? 1 : 5) : hs[rng.below(4)]; q.weight = 1 + unsigned(rng.below(9)); what += ", heuristic " + std::to_string(q.heur) + " weighted " + std::to_string(q.weight); rt::count("estimates varied"); }
                Outcome v; run(in, q, v, "varied"); rt::count("answers compared");
                if (v.threw()) rt::violation(key("varied throws", in), what + ": " + v.exc_what + " " + ctx(in, p));
                else if (v.path != o.path || v.trace != o.trace || v.expansions != o.expansions) rt::violation(key("varied", in), what + ": " + show(p, v.path) + " instead of " + show(p, o.path) + ": " + ctx(in, p));
            }
            return;
        }

        if (prop == "P32") { // every way of handing over the query
            if (!make(in, rng, p, 0.75, rng.chance(0.6))) { rt::count("skipped"); return; }
            if (bounded(in) && rng.chance(0.3)) p.memlimit = 6 + rng.below(40);
            const Ref r = reference(in, p); const int odd = int(rng.below(12)); if (odd == 0) p.e = p.s; else if (odd == 1 && !p.graph) p.wall[p.lin(p.e)] = 1;
            rt::note(ctx(in, p)); run(in, p, o, "solve"); rt::note(show(p, o.path)); rt::count(o.path.empty() ? "empty answers" : "routes");
            rt::distinct(rt::mix(problem_hash(p), rt::mix(std::hash<std::string> {}(in.name()), o.trace))); if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 300) + " -> " + show(p, o.path).substr(0, 200));
            if (o.threw()) { rt::violation(key("exception", in), o.exc_what + " " + ctx(in, p)); return; }
            if (odd > 1 && p.memlimit > 1000 && ((r.must && o.path.empty()) || (r.mustnot && !o.path.empty()))) { rt::violation(key("verdict", in), "wrong verdict: " + ctx(in, p)); return; }
            static const char* names[] = { "constant parameters", "parameters", "temporary parameters", "arguments", "temporary arguments", "constant parameters to an instance", "parameters to an instance", "temporary parameters to an instance", "arguments to an instance", "temporary arguments to an instance" };
            for (unsigned e = 1; e < 10; ++e) {
                p.entry = e; Outcome q; run(in, p, q, names[e]); rt::count(names[e]); rt::count("answers compared");
                if (q.threw()) rt::violation(key("entry throws", in), std::string(names[e]) + ": " + q.exc_what + " " + ctx(in, p));
                else if (q.path != o.path || q.trace != o.trace || q.expansions != o.expansions || q.hcalls != o.hcalls) rt::violation(key("entry", in), std::string(names[e]) + ": " + show(p, q.path) + " instead of " + show(p, o.path) + ": " + ctx(in, p));
            }
            return;
        }

        if (prop == "P27") { // the layout of answers
            if (!make(in, rng, p, 1.0, false)) { rt::count("skipped"); return; }
            const Ref r = reference(in, p); if (!r.must) { rt::count("unreachable"); return; }
            rt::note(ctx(in, p)); run(in, p, o, "solve"); rt::note(show(p, o.path));
            rt::distinct(rt::mix(problem_hash(p), rt::mix(std::hash<std::string> {}(in.name()), o.path.size())));
            if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 300) + " -> " + show(p, o.path).substr(0, 200));
            if (o.threw() || o.path.empty()) { rt::count("no answer (not judged here)"); return; }
            if (o.maze_changed) rt::violation(key("maze", in), "the maze was modified: " + ctx(in, p));
            const char* want = layout(in);
            if (flood) { if (o.path.size() != 1 || o.path[0] != p.e) rt::violation(key("layout", in), "the answer has to be the end alone: " + ctx(in, p) + show(p, o.path)); else rt::count("layouts compared"); return; }
            auto c = check_path(p, o.path, in.oct, is_jps(in)); if (!c.ok) { rt::count("invalid routes (not judged here)"); return; }
            auto full = c.full; if (!c.fwd) std::reverse(full.begin(), full.end()); // from the start to the end, both included
            std::vector<Cell> exp(full.begin() + (strchr(want, 'S') ? 0 : 1), full.end() - (strchr(want, 'E') ? 0 : 1)); if (*want == 'r') std::reverse(exp.begin(), exp.end());
            if (exp != o.path) rt::violation(key("layout", in), std::string("listed ") + (c.fwd ? "forwards" : "backwards") + (c.has_s ? " with the start" : "") + (c.has_e ? " with the end" : "") + ", expected " + (*want == 'r' ? "backwards" : "forwards") + (strchr(want, 'S') ? " with the start" : "") + (strchr(want, 'E') ? " with the end" : "") + ": " + ctx(in, p) + show(p, o.path));
            rt::count("layouts compared"); rt::count(*want == 'r' ? "backwards" : "forwards"); if (full.size() == 2) rt::count("single steps");
            return;
        }

        if (prop == "P13") { // queries that have to be answered without searching
            if (!make(in, rng, p, 0.9, true)) { rt::count("skipped"); return; }
            const int kind = int(rng.below(p.graph ? 4 : 5)); const char* names[] = { "start is the end", "closed start", "closed end", "no such vertex", "outside the maze" };
            if (p.graph) {
                if (kind == 0) p.e = p.s; else { // a vertex that does not exist
                    const bool at_s = rng.chance(0.5); (at_s ? p.s : p.e)[0] = p.n + unsigned(rng.below(5)); p.size[0] = p.n + 8;
                }
            }
            else if (kind == 0) p.e = p.s;
            else if (kind == 1) p.wall[p.lin(p.s)] = 1;
            else if (kind == 2) p.wall[p.lin(p.e)] = 1;
            else if (kind == 4) { Cell& c = rng.chance(0.5) ? p.s : p.e; const unsigned d = unsigned(rng.below(p.K)); const unsigned far = in.index == 's' ? 30000 : 70000; c[d] = p.size[d] + unsigned(rng.chance(0.6) ? 0 : rng.below(rng.chance(0.5) ? 4 : far)); if (rng.chance(0.2)) c[d] = 0u - 1u - unsigned(rng.below(p.size[d] + 2)); } // below zero, or far above
            else { p.wall[p.lin(p.s)] = 1; p.wall[p.lin(p.e)] = 1; if (rng.chance(0.5)) p.e = p.s; }
            rt::note(ctx(in, p)); run(in, p, o, p.graph ? (kind ? names[3] : names[0]) : kind == 3 ? "both closed" : names[kind]);
            rt::count(p.graph ? (kind ? names[3] : names[0]) : kind == 3 ? "both closed" : names[kind]); rt::distinct(rt::mix(problem_hash(p), std::hash<std::string> {}(in.name())));
            if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 200) + " -> " + show(p, o.path));
            if (o.threw()) { rt::violation(key("exception", in), o.exc_what + " " + ctx(in, p)); return; }
            if (o.expansions) rt::violation(key("searched", in), "expanded cells for a trivial query: " + ctx(in, p));
            const bool self = kind == 0;
            if (self && (o.path.size() != 1 || o.path[0] != p.e)) rt::violation(key("self", in), "start = end has to give exactly that cell: " + ctx(in, p) + show(p, o.path));
            if (!self && !o.path.empty()) rt::violation(key("invalid", in), "an answer from or to a cell that is not open: " + ctx(in, p) + show(p, o.path));
            return;
        }
    });
}
