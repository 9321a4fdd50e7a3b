// Concurrent queries on one shared maze (P12): the answers are those of one thread, and ThreadSanitizer finds no race.
#include "core.hpp"
#include <algorithm>
using namespace vf;

namespace {
    bool deepening(const Inst& i) { return is(i, { "iddfs", "eiddfs", "idbest_first", "eidbest_first", "idastar", "eidastar" }); }
    struct Job { const Inst* in; Problem p; Outcome want, got; uint64_t order = 0; bool twice = false; Outcome again; };
    using grid2 = chdr::mazes::grid<chdr::coord<uint32_t, 2>, bool>; using graph2 = chdr::mazes::graph<uint32_t, uint32_t>;
    template <typename G> uint64_t content(const G& g) { uint64_t h = g.count(); for (auto& [v, es] : g) { uint64_t x = rt::mix(v, es.size()); for (auto& [t, w] : es) x += rt::mix(rt::mix(v, t), uint64_t(w)); h += rt::mix(x, 3); } return h; }
    // What a graph made from a grid has to keep whatever the order its workers finish in: the dead ends and junctions of the first pass survive pruning only in part, the distances do.
    uint64_t distances(const graph2& g, const Problem& p) {
        uint64_t h = 1; std::vector<uint32_t> vs; for (auto& [v, es] : g) { (void) es; vs.push_back(v); } std::sort(vs.begin(), vs.end());
        for (size_t k = 0; k < vs.size() && k < 4; ++k) {
            const auto want = bfs_dist(p, p.cell(vs[k]), false); std::unordered_map<uint32_t, uint64_t> d; std::vector<std::pair<uint64_t, uint32_t>> q { { 0, vs[k] } };
            while (!q.empty()) { std::sort(q.begin(), q.end(), std::greater<>()); auto [c, v] = q.back(); q.pop_back(); if (d.count(v)) continue; d[v] = c; for (auto& [t, w] : g.get_neighbours(v)) if (!d.count(t)) q.push_back({ c + w, t }); }
            for (auto v : vs) { const auto it = d.find(v); const int64_t x = it == d.end() ? -1 : int64_t(it->second); if (x != want[v]) return 0; }
        }
        return h;
    }
}

int main(int argc, char** argv) {
    std::vector<const Inst*> pool; for (auto& i : insts()) pool.push_back(&i);
    return rt::run(argc, argv, [&](uint64_t idx, rt::Rng& rng) {
        const Inst& lead = *pool[idx % pool.size()]; const unsigned n = unsigned(rng.range(2, 4)); const bool same = rng.chance(0.3);
        std::vector<const Inst*> mates; for (auto* i : pool) if (i->graph == lead.graph && i->K == lead.K && i->oct == lead.oct) mates.push_back(i);
        Share share; Problem base; std::vector<Job> jobs(n); bool deep = false;
        for (unsigned t = 0; t < n; ++t) { jobs[t].in = t == 0 || same ? &lead : mates[rng.below(mates.size())]; deep = deep || deepening(*jobs[t].in); }
        bool ok = false;
        for (int k = 0; k < 20 && !ok; ++k) {
            if (lead.graph) { base = gen_graph(rng, deep ? 11 : 40, 9); if (base.n > 100 && deep) continue; }
            else { base = gen_grid(rng, lead.K, deep ? (lead.oct ? 12 : 20) : 120); if (!pick_ends(rng, base, rng.chance(0.9), lead.oct)) continue; }
            ok = !deep || (simple_paths(base, base.s, lead.oct, 3000) <= 3000 && simple_paths(base, base.e, lead.oct, 3000) <= 3000);
        }
        if (!ok) { rt::count("skipped"); return; }
        base.share = &share; base.heur = lead.graph ? 1 : lead.oct ? 2 : 0; base.budget = 4000000;
        std::string what;
        for (auto& j : jobs) { // expected answers, one after another; also builds every maze before the threads start
            j.p = base; if (!same && rng.chance(0.5)) std::swap(j.p.s, j.p.e); if (!base.graph && !deep && rng.chance(0.3)) { Problem q = j.p; if (pick_ends(rng, q, true, lead.oct)) { j.p.s = q.s; j.p.e = q.e; } }
            if (is(*j.in, { "smastar", "osmastar", "mgstar" }) && rng.chance(0.4)) j.p.memlimit = 4 + rng.below(40);
            rt::phase("%s/%s:alone", j.in->solver, j.in->graph ? "graph" : "grid"); { Pools P; Env e = P.env(); j.in->fn(j.p, e, j.want); }
            j.twice = rng.chance(0.3); what += " " + std::string(j.in->solver);
        }
        rt::note(what + " on " + show(base));
        std::atomic<unsigned> ready { 0 }; const unsigned yield = unsigned(rng.chance(0.3) ? 0 : rng.range(1, 9)); par_clock = 0; const uint64_t jit = rng.next();
        const bool convert = !lead.graph && lead.K == 2 && rng.chance(0.25); std::shared_ptr<const grid2> plain; uint64_t made[2] = { 0, 0 };
        if (convert) { std::vector<bool> w(base.wall.begin(), base.wall.end()); plain = std::make_shared<const grid2>(chdr::coord<uint32_t, 2> { base.size[0], base.size[1] }, w); }
        rt::phase("%s/%s:concurrent", lead.solver, lead.graph ? "graph" : "grid");
        std::vector<std::thread> ts;
        auto start = [&](unsigned t) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n + (convert ? 2 : 0)) std::this_thread::yield(); par = Par { t + 1, yield, 0 }; for (uint64_t k = rt::mix(jit, t) % 200; k > 0; --k) par_event(); };
        for (unsigned t = 0; t < n; ++t) ts.emplace_back([&, t] {
            Job& j = jobs[t]; Pools P; Env e = P.env(); start(t); j.in->fn(j.p, e, j.got); if (j.twice) { j.in->fn(j.p, e, j.again); } j.order = par.order;
        });
        if (convert) for (unsigned t = 0; t < 2; ++t) ts.emplace_back([&, t] { start(n + t); std::pmr::unsynchronized_pool_resource r; const graph2 g(*plain, &r); made[t] = distances(g, base); });
        for (auto& t : ts) t.join();
        uint64_t order = 0; for (auto& j : jobs) order = rt::mix(order, j.order); rt::distinct(rt::mix(order, problem_hash(base)));
        rt::count("groups of threads"); rt::count("concurrent solves", n); rt::count("events ordered", par_clock.load());
        for (auto& j : jobs) {
            auto judge = [&](const Outcome& o) {
                rt::count("answers compared"); const std::string at = std::string(":") + j.in->solver + (j.in->graph ? "/graph" : "/grid");
                if (o.exc != j.want.exc) { rt::violation("exception" + at, o.exc_what + " " + j.in->name() + " among" + what + " on " + show(j.p)); return; }
                if (o.path != j.want.path) rt::violation("answer" + at, j.in->name() + " among" + what + " on " + show(j.p) + show(j.p, o.path) + " instead of " + show(j.p, j.want.path));
                else if (o.trace != j.want.trace || o.expansions != j.want.expansions) rt::violation("search" + at, "expanded other cells: " + j.in->name() + " among" + what + " on " + show(j.p));
                if (o.maze_changed) rt::violation("maze" + at, "the maze was modified: " + j.in->name());
            };
            judge(j.got); if (j.twice) judge(j.again);
        }
        if (convert) for (auto m : made) { rt::count("concurrent conversions"); if (!m) rt::violation("conversion", "a graph made from a grid by one thread while others used the grid has wrong distances: " + show(base)); }
        if (idx % 61 == 3) rt::sample(std::to_string(n) + " threads:" + what + (convert ? " and two conversions" : "") + ", " + std::to_string(par_clock.load()) + " events, on " + show(base).substr(0, 160));
    });
}
