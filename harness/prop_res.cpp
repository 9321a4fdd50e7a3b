// Memory-resource oracles: discipline (P08), allocation failures (P09), reuse and history (P10).
#include "core.hpp"
#include <cstdio>
#include <new>
#include <set>
using namespace vf;

// ---------------------------------------------------------------- the global allocator, counted and made to fail
namespace {
    thread_local bool g_armed = false; thread_local int64_t g_count = 0, g_fail = -1, g_live = 0, g_failed = 0; thread_local bool g_track = false;
    struct Hdr { uint64_t magic; void* base; };
    void* raw(size_t n, size_t al) {
        if (g_armed) { const auto k = g_count++; if (k == g_fail) { ++g_failed; return nullptr; } }
        if (al < 16) al = 16;
        char* b = static_cast<char*>(malloc(n + al + sizeof(Hdr))); if (!b) return nullptr;
        auto a = (reinterpret_cast<uintptr_t>(b) + sizeof(Hdr) + al - 1) & ~uintptr_t(al - 1);
        auto* h = reinterpret_cast<Hdr*>(a) - 1; h->base = b; h->magic = g_track ? 0x1111 : 0x2222; if (g_track) ++g_live;
        return reinterpret_cast<void*>(a);
    }
    void unraw(void* p) { if (!p) return; auto* h = static_cast<Hdr*>(p) - 1; if (h->magic == 0x1111) --g_live; free(h->base); }
}
void* operator new(size_t n) { void* p = raw(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = raw(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { void* p = raw(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = raw(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return raw(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return raw(n, 16); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return raw(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return raw(n, size_t(a)); }
void operator delete(void* p) noexcept { unraw(p); }
void operator delete[](void* p) noexcept { unraw(p); }
void operator delete(void* p, size_t) noexcept { unraw(p); }
void operator delete[](void* p, size_t) noexcept { unraw(p); }
void operator delete(void* p, std::align_val_t) noexcept { unraw(p); }
void operator delete[](void* p, std::align_val_t) noexcept { unraw(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { unraw(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { unraw(p); }

namespace { thread_local bool w_arm = false, w_track = false; }
namespace vf { void solve_begin() { g_armed = w_arm; g_track = w_track; } void solve_end() { g_armed = g_track = false; }
    void pause_alloc(bool on) { static thread_local bool a, t; if (on) { a = g_armed; t = g_track; g_armed = g_track = false; } else { g_armed = a; g_track = t; } } }

namespace {
    bool bounded(const Inst& i) { return is(i, { "smastar", "osmastar", "mgstar" }); }
    bool enumerates(const Inst& i) { return is(i, { "iddfs", "eiddfs", "idbest_first", "eidbest_first", "idastar", "eidastar" }); }
    std::string key(const char* what, const Inst& i) { return std::string(what) + ":" + i.solver + (i.graph ? "/graph" : "/grid"); }
    std::string ctx(const Inst& in, const Problem& p) { return in.name() + " " + show(p); }
    bool make(const Inst& in, rt::Rng& rng, Problem& p, size_t cells) {
        if (in.graph) { p = gen_graph(rng, 12, 9); for (int t = 0; t < 20 && p.n > 100; ++t) p = gen_graph(rng, 12, 9); p.heur = 1; }
        else { bool ok = false; for (int t = 0; t < 12 && !ok; ++t) { p = gen_grid(rng, in.K, enumerates(in) ? 16 : cells); ok = pick_ends(rng, p, rng.chance(0.8), in.oct); } if (!ok) return false; p.heur = rng.chance(0.25) ? 1 : (in.oct ? 2 : 0); }
        if (enumerates(in) && (simple_paths(p, p.s, in.oct, 4000) > 4000 || simple_paths(p, p.e, in.oct, 4000) > 4000)) return false;
        static const size_t caps[] = { 0, 0, 1, 7, 64, 1000 }; p.capacity = caps[rng.below(6)]; p.budget = 2000000;
        if (bounded(in) && rng.chance(0.5)) p.memlimit = 4 + rng.below(60);
        return true;
    }
    // Replays the expansions of a solver that closes cells when it first sees them, and counts the nodes that still lead somewhere.
    struct Branches {
        const Problem* p = nullptr; bool oct = false; const track_pmr* nodes = nullptr; std::vector<int64_t> parent; std::vector<uint8_t> expanded; std::vector<uint32_t> open; int64_t prev = -1; uint64_t worst = 0, seen = 0, most = 0; std::string why;
        void start(const Problem& q, bool o, const track_pmr& r) { *this = Branches {}; p = &q; oct = o; nodes = &r; parent.assign(q.count(), -2); expanded.assign(q.count(), 0); }
        void moves(size_t l) { const Cell c = p->cell(l); for (size_t m = 0; m < p->count(); ++m) { const Cell d = p->cell(m); if (parent[m] == -2 && is_move(*p, c, d, oct)) { parent[m] = int64_t(l); open.push_back(uint32_t(m)); } } }
        void expand(size_t l) {
            if (prev >= 0) moves(size_t(prev)); else parent[l] = -1;
            expanded[l] = 1; prev = int64_t(l); std::set<int64_t> keep;
            for (auto o : open) { if (expanded[o] && o != l) continue; for (int64_t a = parent[o]; a >= 0 && keep.insert(a).second; a = parent[size_t(a)]) {} }
            ++seen; const uint64_t live = nodes->live.size(); most = std::max<uint64_t>(most, live); if (live > keep.size() && live - keep.size() > worst) { worst = live - keep.size(); why = std::to_string(live) + " nodes kept when cell " + std::to_string(l) + " is expanded, of which only " + std::to_string(keep.size()) + " lead to a candidate"; }
        }
    };
    thread_local Branches branches;
    const char* rname(int i) { return i == 0 ? "monotonic" : i == 1 ? "heterogeneous" : "homogeneous"; }
    bool same(const Outcome& a, const Outcome& b) { return a.path == b.path && a.exc == b.exc; }
}

int main(int argc, char** argv) {
    std::string prop, only; for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--prop")) prop = argv[i + 1]; if (!strcmp(argv[i], "--only")) only = argv[i + 1]; }
    std::vector<const Inst*> pool;
    for (auto& i : insts()) {
        if (!only.empty() && only != i.solver) continue;
        if (prop == "P08" && i.res == 0) continue;
        if (prop == "P10" && i.res == 1) continue;
        if (prop == "P29" && (i.res != 2 || !is(i, { "gbfs", "gdfs", "gbest_first", "gstar", "gjps" }))) continue;
        if (prop == "P25" && (i.res != 2 || !bounded(i))) continue;
        pool.push_back(&i);
    }
    if (pool.empty()) return 3;
    return rt::run(argc, argv, [&](uint64_t idx, rt::Rng& rng) {
        const Inst& in = *pool[idx % pool.size()];
        Problem p;
        if (!make(in, rng, p, prop == "P09" ? 20 : 60)) { rt::count("skipped"); return; }
        rt::note(ctx(in, p));
        const std::string sk = std::string(in.solver) + (in.graph ? "/graph" : "/grid");

        if (prop == "P08") {
            Tracks T; Env e; T.add(e); const int64_t live0 = g_live;
            rtrack_pmr* R[3] = { &T.m, &T.h, &T.o };
            for (int k = 0; k < 2; ++k) { // twice on the same resources
                { Outcome o; rt::phase("%s:solve", sk.c_str()); w_track = true; in.fn(p, e, o); w_track = false;
                rt::count("solves"); for (int i = 0; i < 3; ++i) { rt::count((std::string(rname(i)) + " blocks").c_str(), R[i]->allocs); rt::count((std::string(rname(i)) + " returned").c_str(), R[i]->frees); }
                if (o.exc) rt::violation(key("exception", in), o.exc_what + ctx(in, p));
                if (idx % 97 == 5 && !k) rt::sample(in.name() + " " + show(p).substr(0, 200) + " -> blocks " + std::to_string(T.m.allocs) + "/" + std::to_string(T.h.allocs) + "/" + std::to_string(T.o.allocs) + " returned " + std::to_string(T.m.frees) + "/" + std::to_string(T.h.frees) + "/" + std::to_string(T.o.frees) + " resets " + std::to_string(T.m.resets) + "/" + std::to_string(T.h.resets) + "/" + std::to_string(T.o.resets));
                rt::distinct(rt::mix(rt::mix(rt::mix(T.m.allocs, T.h.allocs), T.o.allocs), rt::mix(problem_hash(p), std::hash<std::string> {}(in.name())))); }
                if (T.bad()) rt::violation(key("return", in), T.what() + ": " + ctx(in, p));
                for (int i = 0; i < 3; ++i) {
                    if (in.res == 2 && !in.nc) {
                        rt::count("cleanups checked");
                        if (!R[i]->resets) rt::violation(key("cleanup", in), std::string(rname(i)) + " resource not reset although cleanup is on: " + ctx(in, p));
                        if (R[i]->bytes || !R[i]->live.empty()) rt::violation(key("cleanup", in), std::string(rname(i)) + " resource still holds " + std::to_string(R[i]->bytes) + " bytes after cleanup: " + ctx(in, p));
                    }
                    if (in.nc && i != 0 && (R[i]->resets || R[i]->releases)) rt::violation(key("no-cleanup", in), std::string(rname(i)) + " resource reset although cleanup is off: " + ctx(in, p));
                    if (R[i]->releases) rt::violation(key("release", in), std::string(rname(i)) + " resource released: " + ctx(in, p));
                    R[i]->drop(); R[i]->resets = 0; R[i]->allocs = R[i]->frees = 0;
                }
            }
            if (g_live != live0) rt::violation(key("leak", in), std::to_string(g_live - live0) + " blocks of the global heap still live after the answer is gone: " + ctx(in, p));
            return;
        }

        if (prop == "P09") {
            // Reference run counts the allocations, then one of them (or one of the resources') fails at a time.
            Outcome ref; int64_t n_glob = 0; uint64_t n_res[3] {};
            { Tracks T; Env e; T.add(e); Pools P; e.m = &P.m; e.h = &P.h; e.o = &P.o; rt::phase("%s:reference", sk.c_str()); g_count = 0; g_fail = -1; w_arm = true; in.fn(p, e, ref); w_arm = false; n_glob = g_count; n_res[0] = T.m.allocs; n_res[1] = T.h.allocs; n_res[2] = T.o.allocs; }
            if (ref.exc) { rt::violation(key("exception", in), ref.exc_what + ctx(in, p)); return; }
            struct Point { int where; int64_t k; }; std::vector<Point> pts;
            for (int64_t k = 0; k < n_glob; ++k) pts.push_back({ 3, k });
            if (in.res) for (int r = 0; r < 3; ++r) for (uint64_t k = 0; k < n_res[r]; ++k) pts.push_back({ r, int64_t(k) });
            const size_t cap = rt::opts.tier == "thorough" ? 400 : 60;
            if (pts.size() > cap) { for (size_t i = 0; i < cap; ++i) { std::swap(pts[i], pts[i + rng.below(pts.size() - i)]); } pts.resize(cap); rt::count("histories sampled"); } else rt::count("histories enumerated completely");
            rt::count("failure points", pts.size());
            for (auto& pt : pts) {
                const int64_t live0 = g_live;
                {
                    Tracks T; Env e; T.add(e); rtrack_pmr* R[3] = { &T.m, &T.h, &T.o }; g_track = true; Pools P; g_track = false; e.m = &P.m; e.h = &P.h; e.o = &P.o;
                    { Outcome o; rt::phase("%s:failing %s allocation", sk.c_str(), pt.where == 3 ? "heap" : rname(pt.where)); rt::note("failing " + std::string(pt.where == 3 ? "heap" : rname(pt.where)) + " allocation " + std::to_string(pt.k));
                      if (pt.where < 3) R[pt.where]->fail_at = pt.k; g_count = 0; g_fail = pt.where == 3 ? pt.k : -1; g_failed = 0; w_track = true; w_arm = true; in.fn(p, e, o); w_arm = false; g_fail = -1; w_track = false; if (pt.where < 3) R[pt.where]->fail_at = -1;
                      if (o.exc == 1) rt::count("failures reported"); else if (!o.exc) rt::count("failures survived");
                      if (o.exc > 1) rt::violation(key("other-exception", in), "an allocation failure came out as " + o.exc_what + ": " + ctx(in, p));
                      if (!o.exc && o.path != ref.path) { if (o.path.empty() || ref.path.empty()) rt::violation(key("wrong-answer", in), "allocation " + std::to_string(pt.k) + " failed without an error and the verdict changed: " + ctx(in, p)); else { rt::count("different routes after a survived failure"); if (strcmp(in.solver, "flood")) { auto c = check_path(p, o.path, in.oct, is_jps(in)); if (!c.ok) rt::violation(key("wrong-answer", in), "allocation failed without an error and the route is broken: " + c.why + ctx(in, p)); } } }
                      if (T.bad()) rt::violation(key("return", in), T.what() + ": " + ctx(in, p));
                      if (in.res == 2 && !in.nc) for (int i = 0; i < 3; ++i) { rt::count("cleanups checked"); if (!R[i]->resets || R[i]->bytes) rt::violation(key("cleanup", in), std::string(rname(i)) + " resource not reset after a failure: " + ctx(in, p)); }
                    }
                    // The same resources have to be usable afterwards.
                    if (in.res == 2 || (in.res == 0 && !in.nc)) { T.m.drop(); T.h.drop(); T.o.drop(); Outcome again; rt::phase("%s:solve after a failure", sk.c_str()); in.fn(p, e, again); rt::count("solves after a failure"); if (!same(again, ref)) rt::violation(key("after-failure", in), "the query answered differently after a failed one (" + again.exc_what + "): " + ctx(in, p) + show(p, ref.path) + show(p, again.path)); }
                }
                if (g_live != live0) rt::violation(key("leak", in), std::to_string(g_live - live0) + " heap blocks leak when " + (pt.where == 3 ? "heap" : rname(pt.where)) + " allocation " + std::to_string(pt.k) + " fails: " + ctx(in, p));
                rt::distinct(rt::mix(rt::mix(problem_hash(p), std::hash<std::string> {}(in.name())), rt::mix(uint64_t(pt.where), uint64_t(pt.k))));
            }
            if (in.res == 2 && !in.nc) for (int fails = 1; fails < 8; ++fails) { // resets that fail: the others are reset all the same, and the first failure is reported
                Tracks T; Env e; T.add(e); rtrack_pmr* R[3] = { &T.m, &T.h, &T.o }; Pools P; e.m = &P.m; e.h = &P.h; e.o = &P.o; for (int i = 0; i < 3; ++i) R[i]->reset_error = fails >> i & 1 ? i + 1 : 0;
                const int also = n_res[0] + n_res[1] + n_res[2] && rng.chance(0.3) ? int(rng.below(3)) : -1; const bool alloc = also >= 0 && n_res[also]; if (alloc) R[also]->fail_at = int64_t(rng.below(n_res[also]));
                Outcome o; rt::phase("%s:failing reset", sk.c_str()); in.fn(p, e, o); rt::count("failing resets");
                for (int i = 0; i < 3; ++i) if (!R[i]->resets || R[i]->bytes) rt::violation(key("cleanup", in), std::string(rname(i)) + " resource not reset when the reset of resources " + std::to_string(fails) + " fails: " + ctx(in, p));
                if (!o.exc) rt::violation(key("reset-error", in), "a failing reset is not reported: " + ctx(in, p)); else if (alloc ? o.exc != 1 && !(o.exc == 2 && o.exc_what.rfind("reset of", 0) == 0) : o.exc != 2 || o.exc_what.rfind("reset of", 0) != 0) rt::violation(key("reset-error", in), "a failing reset came out as " + o.exc_what + ": " + ctx(in, p));
            }
            if (idx % 23 == 5) rt::sample(in.name() + " " + show(p).substr(0, 200) + ": " + std::to_string(pts.size()) + " failure points");
            return;
        }

        if (prop == "P25") { // memory-bounded solvers: node blocks alive at a time against the limit
            const bool ample = rng.chance(0.25); const size_t lim = ample ? (1u << 20) : 1 + rng.below(rng.chance(0.5) ? 16 : 120); p.memlimit = lim;
            Tracks T; Env e; T.add(e); joint = Joint {}; Outcome o; rt::phase("%s:%s", sk.c_str(), ample ? "ample memory" : "limited memory"); in.fn(p, e, o);
            rt::count("solves"); rt::count(o.path.empty() ? "empty answers" : "routes"); rt::maxi((std::string("max_over_limit ") + in.solver).c_str(), joint.peak > int64_t(lim) ? uint64_t(joint.peak - int64_t(lim)) : 0); if (!ample && uint64_t(joint.peak) >= lim) rt::count("limit reached");
            rt::distinct(rt::mix(rt::mix(problem_hash(p), lim), rt::mix(std::hash<std::string> {}(in.name()), o.trace)));
            if (o.exc) { rt::violation(key("exception", in), o.exc_what + ctx(in, p)); return; }
            if (joint.peak > int64_t(lim) + 2) rt::violation(key("limit", in), std::to_string(joint.peak) + " node blocks alive with a limit of " + std::to_string(lim) + ": " + ctx(in, p));
            const bool reach = p.graph ? graph_dist(p, p.s[0])[p.e[0]] != UINT64_MAX : bfs_dist(p, p.s, in.oct)[p.lin(p.e)] >= 0;
            if (!reach && !o.path.empty()) rt::violation(key("phantom", in), "an answer although there is no route: " + ctx(in, p));
            if (!o.path.empty()) {
                auto c = check_path(p, o.path, in.oct, false); const bool walk = c.ok || c.why.find("twice") != std::string::npos; rt::count("walks checked"); if (!c.ok && walk) rt::count("walks that revisit a cell");
                if (!walk || (ample && !c.ok)) rt::violation(key("route", in), c.why + ", limit " + std::to_string(lim) + ": " + ctx(in, p) + show(p, o.path));
                else if (ample && p.heur != 5) { const uint64_t best = p.graph ? graph_dist(p, p.s[0])[p.e[0]] : uint64_t(bfs_dist(p, p.s, in.oct)[p.lin(p.e)]); rt::count("optima compared"); if (c.cost > best) rt::violation(key("suboptimal", in), "cost " + std::to_string(c.cost) + " with ample memory, optimum " + std::to_string(best) + ": " + ctx(in, p)); }
            }
            else if (ample && reach) rt::violation(key("missed", in), "no answer with ample memory: " + ctx(in, p));
            if (idx % 97 == 5) rt::sample(in.name() + " limit " + std::to_string(lim) + " " + show(p).substr(0, 160) + " -> peak " + std::to_string(joint.peak));
            return;
        }

        if (prop == "P29") { // greedy-memory solvers: nodes alive against the nodes that still lead to a candidate
            if (rng.chance(0.5) && !in.graph) { bool ok = false; for (int t = 0; t < 12 && !ok; ++t) { p = gen_grid(rng, in.K, 60); ok = pick_ends(rng, p, false, in.oct); } if (!ok) { rt::count("skipped"); return; } p.heur = in.oct ? 2 : 0; p.capacity = 64; }
            const bool reach = p.graph ? graph_dist(p, p.s[0])[p.e[0]] != UINT64_MAX : bfs_dist(p, p.s, in.oct)[p.lin(p.e)] >= 0;
            Tracks T; Env e; T.add(e); Outcome o; const bool follow = in.mon && is(in, { "gbfs", "gdfs", "gbest_first" });
            if (follow) { branches.start(p, in.oct, T.o); on_expand = [](size_t l) { Quiet q; branches.expand(l); }; }
            rt::phase("%s:solve", sk.c_str()); in.fn(p, e, o); on_expand = nullptr; rt::count("solves"); rt::count("nodes kept", T.o.allocs); rt::count("nodes given back", T.o.frees);
            rt::distinct(rt::mix(rt::mix(problem_hash(p), o.trace), std::hash<std::string> {}(in.name())));
            if (o.exc) { rt::violation(key("exception", in), o.exc_what + ctx(in, p)); return; }
            if (follow) { rt::count("expansions followed", branches.seen); if (branches.worst) rt::violation(key("dead-branch", in), branches.why + ": " + ctx(in, p)); }
            const uint64_t left = std::max<uint64_t>(T.o.live.size(), T.o.live_at_reset);
            if (!reach && o.path.empty()) { rt::count("exhausted searches"); if (T.o.allocs) rt::count("exhausted searches with nodes"); if (left) rt::violation(key("kept", in), std::to_string(left) + " nodes kept although no candidate is left: " + ctx(in, p)); }
            if (idx % 97 == 5) rt::sample(in.name() + " " + show(p).substr(0, 160) + " -> " + std::to_string(T.o.allocs) + " nodes, " + std::to_string(T.o.frees) + " given back during the search, at most " + std::to_string(branches.most) + " at a time");
            return;
        }

        if (prop == "P10") { // a sequence of queries over shared resources answers like fresh ones
            Pools P; Env e = P.env(); Tracks T; T.add(e);
            const int steps = 3 + int(rng.below(6)); uint64_t h = 0;
            std::vector<const Inst*> sib; for (auto* j : pool) if (j->res == in.res && !j->nc) sib.push_back(j);
            for (int s = 0; s < steps; ++s) {
                const Inst& j = sib.empty() || rng.chance(0.3) ? in : *sib[rng.below(sib.size())]; if (j.nc) { T.m.drop(); T.h.drop(); T.o.drop(); }
                Problem q; if (!make(j, rng, q, 60)) continue;
                Outcome a, b, c; const std::string k = std::string(j.solver) + (j.graph ? "/graph" : "/grid");
                Pools F; Env f = F.env(); Tracks U; U.add(f); rt::phase("%s:fresh resources", k.c_str()); j.fn(q, f, a);
                if (j.nc) { Pools F2; Env f2 = F2.env(); Tracks V; V.add(f2); rt::phase("%s:again", k.c_str()); j.fn(q, f2, b); } else { rt::phase("%s:used resources", k.c_str()); j.fn(q, e, b); }
                if (!j.nc) { rt::phase("%s:repeated", k.c_str()); j.fn(q, e, c); } else c = a;
                rt::count("comparisons"); h = rt::mix(h, a.path.size() + 1000 * a.trace);
                if (a.exc || b.exc || c.exc) rt::violation(key("exception", j), a.exc_what + b.exc_what + c.exc_what + ctx(j, q));
                else if (a.path != b.path || a.path != c.path || a.trace != b.trace || a.trace != c.trace) rt::violation(key("history", j), "answers differ between fresh and used resources at step " + std::to_string(s) + ": " + ctx(j, q) + show(q, a.path) + show(q, b.path) + show(q, c.path));
                if (a.maze_changed || b.maze_changed) rt::violation(key("maze", j), "the maze was modified: " + ctx(j, q));
                if (idx % 97 == 5) rt::sample(j.name() + " " + show(q).substr(0, 160) + " -> " + std::to_string(a.path.size()) + " cells");
            }
            rt::distinct(h); return;
        }
    });
}
