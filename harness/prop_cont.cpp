// Container oracles: priority order and contents of heaps (P17), membership of existence sets (P18), order of stacks and queues (P19).
#include "core.hpp"
#include <algorithm>
#include <memory>
#include <set>
using namespace vf;

namespace {
    // An element that knows whether it is alive, and counts the living.
    struct Obj {
        static inline thread_local int64_t living = 0; static inline thread_local uint64_t misuse = 0;
        static constexpr uint32_t ALIVE = 0x600DF00D, MOVED = 0x0DDBA11, DEAD = 0xDEADBEEF;
        uint32_t state; int v;
        Obj() : state(ALIVE), v(-1000000) { ++living; }
        explicit Obj(int _v) : state(ALIVE), v(_v) { ++living; }
        Obj(const Obj& o) : state(ALIVE), v(o.v) { o.chk(); ++living; }
        Obj(Obj&& o) noexcept : state(o.state), v(o.v) { o.any(); o.state = MOVED; ++living; }
        Obj& operator=(const Obj& o) { any(); o.chk(); state = ALIVE; v = o.v; return *this; }
        Obj& operator=(Obj&& o) noexcept { any(); o.any(); if (this != &o) { state = o.state; v = o.v; o.state = MOVED; } return *this; }
        ~Obj() { any(); state = DEAD; --living; }
        void chk() const { if (state != ALIVE) ++misuse; }
        void any() const { if (state != ALIVE && state != MOVED) ++misuse; }
        bool operator==(const Obj& o) const { return v == o.v; }
    };
    // Only movable.
    struct Uni { std::unique_ptr<int> p; Uni() = default; explicit Uni(int v) : p(new int(v)) {} bool operator==(const Uni& o) const { return p && o.p && *p == *o.p; } };

    int arena[4096];
    template <typename T> T make(int v);
    template <> int make<int>(int v) { return v; }
    template <> double make<double>(int v) { return v; }
    template <> std::string make<std::string>(int v) { char b[64]; snprintf(b, sizeof b, "%06d and a tail that does not fit in the object", v + 100000); return b; }
    template <> Obj make<Obj>(int v) { return Obj(v); }
    template <> Uni make<Uni>(int v) { return Uni(v); }
    template <> int* make<int*>(int v) { return &arena[v + 2000]; }
    int val(const int& x) { return x; } int val(const double& x) { return int(x); } int val(const std::string& s) { return atoi(s.substr(0, 6).c_str()) - 100000; }
    int val(const Obj& o) { o.chk(); return o.v; } int val(const Uni& u) { return u.p ? *u.p : -999999; } int val(int* const& p) { return int(p - arena) - 2000; }

    // Orders on the value.
    struct Less { bool operator()(int a, int b) const { return a < b; } };
    struct Greater { bool operator()(int a, int b) const { return a > b; } };
    struct Coarse { bool operator()(int a, int b) const { return a / 4 < b / 4; } };       // many equivalent values
    template <typename O> struct By { template <typename T> bool operator()(const T& a, const T& b) const { return O()(val(a), val(b)); } };

    struct Ctx { rt::Rng& rng; const char* name; std::string log; uint64_t h = 0, ops = 0; bool dead = false; void say(const std::string& s) { log += s + " "; ++ops; } void fail(const char* w, const std::string& m) { dead = true; rt::violation(std::string(w) + ":" + name, m + " | after: " + log.substr(log.size() > 900 ? log.size() - 900 : 0)); } };
    int some(rt::Rng& r, int style) { switch (style) { case 0: return int(r.below(8)); case 1: return int(r.below(2000)); default: return int(r.below(60)) - 30; } }

#if ONLY == 17
    template <typename T, typename O, size_t Kd> void heap_case(rt::Rng& rng, const char* name) {
        using V = std::pmr::vector<T>; using H = chdr::heap<T, By<O>, V, Kd>;
        constexpr bool copyable = std::is_copy_constructible_v<T>;
        Ctx c { rng, name }; track_pmr res; res.name = "heap"; const O less {};
        Obj::living = 0; Obj::misuse = 0;
        {
            const int style = int(rng.below(3)); const int steps = rng.chance(0.1) ? 400 : int(rng.range(3, 80));
            std::vector<int> model; // values in the heap, in no order
            std::optional<H> hp; bool own = true; // the resource behind hp: res or (after a copy) the default one
            auto fresh = [&] {
                model.clear(); hp.reset(); own = true;
                const auto k = rng.below(copyable ? 4 : 3);
                if (k == 0) { hp.emplace(&res); c.say("new"); }
                else if (k == 1) { const auto n = size_t(rng.below(40)); hp.emplace(n, &res); c.say("new(" + std::to_string(n) + ")"); }
                else {
                    V v(&res); const auto n = rng.below(30); for (uint64_t i = 0; i < n; ++i) { const int x = some(rng, style); model.push_back(x); v.push_back(make<T>(x)); }
                    if (k == 2) { hp.emplace(std::move(v)); } else { if constexpr (copyable) { const V& cv = v; hp.emplace(cv); } }
                    c.say("from " + std::to_string(n)); rt::count("built from containers");
                }
            };
            auto gone = [&](int x) { auto it = std::find(model.data(), model.data() + model.size(), x); if (it == model.data() + model.size()) { c.fail("contents", "element " + std::to_string(x) + " was never put in (or is already taken)"); return; } *it = model.back(); model.pop_back(); };
            auto best = [&](int x) { for (size_t i = 0; i < model.size(); ++i) if (const int y = model.data()[i]; less(x, y)) { c.fail("order", "top is " + std::to_string(x) + " although " + std::to_string(y) + " has priority"); return; } };
            auto check = [&] {
                auto& h = *hp; const H& k = h;
                if (k.size() != model.size() || k.empty() != model.empty()) { c.fail("size", "size " + std::to_string(k.size()) + ", expected " + std::to_string(model.size())); return; }
                if (!model.empty()) { best(val(h.top())); if (val(k.top()) != val(h.front()) || val(k.front()) != val(h.top())) c.fail("front", "front differs from top"); }
                if (rng.chance(0.4)) {
                    std::vector<int> seen, rseen, at; for (const auto& e : k) seen.push_back(val(e)); for (auto it = h.rbegin(); it != h.rend(); ++it) rseen.push_back(val(*it));
                    for (size_t i = 0; i < k.size(); ++i) { at.push_back(val(k[i])); if (val(k.at(i)) != at.back()) c.fail("index", "at and [] disagree"); }
                    auto r2 = rseen; std::reverse(r2.data(), r2.data() + r2.size());
                    if (seen != r2 || seen != at) { c.fail("iterate", "iteration forwards, backwards and by index disagree"); return; }
                    if (!seen.empty() && seen.back() != val(k.back())) c.fail("back", "back is not the last element");
                    auto m = model; std::sort(m.data(), m.data() + m.size()); std::sort(seen.data(), seen.data() + seen.size()); if (m != seen) { c.fail("contents", "the elements are not those put in and not taken out"); return; }
                    rt::count("contents verified");
                }
            };
            fresh(); check();
            for (int s = 0; s < steps && !c.dead; ++s) {
                auto& h = *hp; const int op = int(rng.below(24)); const int x = some(rng, style); rt::count("heap operations");
                c.h = rt::mix(c.h, uint64_t(op) * 64 + std::min<size_t>(model.size(), 63));
                if (op < 5) {
                    c.say("push " + std::to_string(x));
                    res.fail_at = rng.chance(0.2) ? int64_t(res.allocs + res.failed) : -1; bool ok = true;
                    try { switch (op) { case 0: h.push(make<T>(x)); break; case 1: h.emplace(make<T>(x)); break; case 2: h.enqueue(make<T>(x)); break; default: if constexpr (copyable) { const T t = make<T>(x); if (op == 3) h.push(t); else h.enqueue(t); } else h.push(make<T>(x)); } } catch (const std::bad_alloc&) { ok = false; rt::count("failed growth"); c.say("(failed)"); }
                    res.fail_at = -1; if (ok) model.push_back(x);
                }
                else if (op == 5) { const auto n = rng.below(5); std::vector<T> v; std::string t; for (uint64_t i = 0; i < n; ++i) { const int y = some(rng, style); v.push_back(make<T>(y)); model.push_back(y); t += std::to_string(y) + ","; } c.say("insert range " + t); if constexpr (copyable) h.insert(v.begin(), v.end()); else h.insert(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); }
                else if (op == 6) { c.say("insert at " + std::to_string(x)); model.push_back(x); const auto pos = h.begin() + (model.size() > 1 ? long(rng.below(model.size())) : 0); auto it = h.end(); if (copyable && rng.chance(0.5)) { if constexpr (copyable) { const T t = make<T>(x); it = h.insert(pos, t); } } else it = h.insert(pos, make<T>(x)); if (it == h.end() || val(*it) != x) c.fail("insert", "the returned iterator does not lead to the inserted element"); }
                else if (op == 7) { const auto n = rng.below(6); const auto old = model.size(); for (uint64_t i = 0; i < n; ++i) { const int y = some(rng, style); c.say("nosort " + std::to_string(y)); model.push_back(y); if (rng.chance(0.5)) h.push_nosort(make<T>(y)); else h.emplace_nosort(make<T>(y)); } if (h.size() != model.size()) c.fail("size", "size after adding without sorting"); else for (size_t i = old; i < model.size(); ++i) { c.say("up"); h.sort_up(h[i]); } rt::count("sorted later", n); }
                else if (op < 12) { if (model.empty()) continue; c.say(op & 1 ? "pop" : "dequeue"); const int t = val(h.top()); best(t); if (op & 1) { h.pop(); } else { T r = h.dequeue(); if (val(r) != t) c.fail("dequeue", "dequeue gave " + std::to_string(val(r)) + ", top was " + std::to_string(t)); } gone(t); rt::count("elements taken"); }
                else if (op == 12) { if (model.empty()) continue; const auto i = rng.below(model.size()); const int t = val(h[i]); c.say("erase #" + std::to_string(i) + "=" + std::to_string(t)); h.erase(h[i]); gone(t); rt::count("elements erased"); }
                else if (op == 13) { if (model.empty()) continue; const auto i = rng.below(model.size()); const int t = val(h[i]); c.say("erase it" + std::to_string(i) + "=" + std::to_string(t)); auto it = h.erase(h.begin() + long(i)); gone(t); if (it < h.begin() || it > h.end()) c.fail("erase", "the returned iterator leads outside"); rt::count("elements erased"); }
                else if (op == 14) { if (model.empty() || !rng.chance(0.4)) continue; const auto a = rng.below(model.size() + 1), b = a + rng.below(model.size() + 1 - a); c.say("erase [" + std::to_string(a) + "," + std::to_string(b) + ")"); std::vector<int> ts; for (auto i = a; i < b; ++i) ts.push_back(val(h[i])); h.erase(h.begin() + long(a), h.begin() + long(b)); for (int t : ts) gone(t); rt::count("elements erased", ts.size()); }
                else if (op == 15) { if (model.empty()) continue; const int t = val(h.back()); c.say("pop_back " + std::to_string(t)); h.pop_back(); gone(t); }
                else if (op == 16) { if (model.empty()) continue; const auto i = rng.below(model.size()); T& t = const_cast<T&>(h[i]); if constexpr (!std::is_same_v<T, Uni>) { if (!h.contains(t)) c.fail("contains", "an element of the heap is not contained"); } }
                else if (op == 17) { // the answer, when there is one, is an element on the right side of the value; there is one whenever the top is
                    T v = make<T>(x); const auto lo = h.lower_bounds(v), up = h.upper_bounds(v); const bool any_lo = std::any_of(model.begin(), model.end(), [&](int y) { return !less(y, x); }), any_up = std::any_of(model.begin(), model.end(), [&](int y) { return less(x, y); });
                    c.say("bounds " + std::to_string(x)); if ((lo != h.end()) != any_lo || (any_lo && less(val(*lo), x))) c.fail("lower", "lower_bounds of " + std::to_string(x)); if ((up != h.end()) != any_up || (any_up && !less(x, val(*up)))) c.fail("upper", "upper_bounds of " + std::to_string(x)); rt::count("bounds compared");
                }
                else if (op == 18) { if (!copyable || !rng.chance(0.5)) continue; if constexpr (copyable) { c.say("copy"); if (rng.chance(0.5)) { H o(h); hp.reset(); hp.emplace(o); own = false; } else { H o(size_t(rng.below(9)), &res); const auto n = rng.below(9); for (uint64_t i = 0; i < n; ++i) o.push(make<T>(some(rng, style))); o = h; if (rng.chance(0.5)) h.clear(); h = o; } rt::count("copies"); } }
                else if (op == 19) { if (!rng.chance(0.5)) continue; c.say("move"); H o(std::move(h)); hp.reset(); if (rng.chance(0.5)) { hp.emplace(std::move(o)); } else { hp.emplace(&res); own = true; const auto n = rng.below(9); for (uint64_t i = 0; i < n; ++i) hp->push(make<T>(some(rng, style))); *hp = std::move(o); } rt::count("moves"); }
                else if (op == 20) { if (!rng.chance(0.5)) continue; c.say("swap"); H o(own ? static_cast<std::pmr::memory_resource*>(&res) : std::pmr::get_default_resource()); o.push(make<T>(x)); h.swap(o); if (h.size() != 1 || val(h.top()) != x) c.fail("swap", "swap did not take the other heap's elements"); o.push(make<T>(x)); model.push_back(x); h.swap(o); }
                else if (op == 21) { if (!rng.chance(0.15)) continue; c.say("clear"); h.clear(); model.clear(); }
                else if (op == 22) { c.say("reserve"); h.reserve(size_t(rng.below(100))); if (rng.chance(0.3)) h.shrink_to_fit(); }
                else { if (!rng.chance(0.1)) continue; fresh(); }
                check();
            }
            // draining gives everything in order
            int last = 0; bool first = true; std::string order;
            while (!c.dead && !model.empty()) { const int t = val(hp->top()); best(t); if (!first && less(last, t)) c.fail("order", "elements come out of order"); last = t; first = false; hp->pop(); gone(t); rt::count("elements taken"); if (hp->size() != model.size()) c.fail("size", "size while draining"); }
            if (!c.dead) rt::count("heaps drained");
        }
        if (Obj::misuse) c.fail("lifetime", std::to_string(Obj::misuse) + " uses of dead or moved-from elements");
        if (Obj::living) c.fail("lifetime", std::to_string(Obj::living) + " elements never destroyed (or destroyed twice)");
        if (res.bad) c.fail("resource", res.what); if (!res.live.empty()) c.fail("leak", std::to_string(res.live.size()) + " blocks not returned");
        rt::distinct(rt::mix(c.h, uint64_t(name[0]) * 256 + uint64_t(name[1]))); if (rng.chance(0.001)) rt::sample(std::string(name) + ": " + c.log.substr(0, 300));
    }

#elif ONLY == 18
    template <typename W> void set_case(rt::Rng& rng, const char* name) {
        using S = chdr::existence_set<W>;
        Ctx c { rng, name }; track_pmr res; res.name = "set";
        {
            std::vector<bool> model; size_t extent = 0; // model[i]: contained; extent: how many keys the set reports
            std::optional<S> sp; if (rng.chance(0.5)) sp.emplace(&res); else sp.emplace(size_t(rng.below(50)), &res);
            const size_t range = size_t(1) << (rng.chance(0.1) ? 12 : rng.range(1, 8)); const int steps = int(rng.range(3, 120));
            auto key = [&] { return rng.chance(0.1) ? range * 2 + rng.below(range) : rng.below(range); };
            auto has = [&](size_t k) { return k < model.size() && model[k]; };
            auto check = [&] {
                const S& s = *sp;
                for (int i = 0; i < 6; ++i) { const auto k = i == 0 ? s.size() : i == 1 ? ~size_t(0) - rng.below(3) : key(); if (s.contains(k) != has(k)) { c.fail("contains", "key " + std::to_string(k) + (has(k) ? " is in the set but not found" : " is not in the set but found")); return; } }
                rt::count("membership tests", 6);
                if (s.empty() != (s.size() == 0)) c.fail("empty", "empty and size disagree");
                if (rng.chance(range > 500 ? 0.05 : 0.3)) { size_t i = 0; std::vector<bool> seen; for (auto it = s.begin(); it != s.end(); ++it, ++i) seen.push_back(bool(*it)); if (seen.size() != s.size()) c.fail("iterate", "iteration visits another number of keys than size"); size_t n = seen.size(); for (auto it = s.rbegin(); it != s.rend(); ++it) if (n == 0 || bool(*it) != seen[--n]) { c.fail("iterate", "backwards iteration differs"); break; } for (size_t k = 0; k < std::max(seen.size(), model.size()); ++k) if ((k < seen.size() && seen[k]) != has(k)) { c.fail("iterate", "iteration and membership disagree on key " + std::to_string(k)); break; } rt::count("contents verified"); }
            };
            for (int st = 0; st < steps && !c.dead; ++st) {
                auto& s = *sp; const int op = int(rng.below(17)); const auto k = key(); rt::count("set operations"); c.h = rt::mix(c.h, uint64_t(op) * 4096 + k);
                auto add = [&](size_t q) { if (model.size() <= q) model.resize(q + 1); model[q] = true; };
                if (op < 6) {
                    c.say("push " + std::to_string(k)); res.fail_at = rng.chance(0.2) ? int64_t(res.allocs + res.failed) : -1; bool ok = true;
                    try { switch (op) { case 0: s.push(size_t(k)); break; case 1: s.emplace(size_t(k)); break; case 2: s.push(int(k)); break; case 3: s.emplace(uint32_t(k)); break; case 4: s.push(uint16_t(k)); break; default: s.allocate(k, size_t(rng.below(200)), rng.chance(0.5) ? ~size_t(0) : 64 + rng.below(9000)); s.push(size_t(k)); } } catch (const std::bad_alloc&) { ok = false; c.say("(failed)"); rt::count("failed growth"); }
                    res.fail_at = -1; if (ok) add(k);
                }
                else if (op < 9) { c.say("erase " + std::to_string(k)); s.erase(k); if (k < model.size()) model[k] = false; if (op == 8) { const size_t far = ~size_t(0) - rng.below(4); s.erase(far); } }
                else if (op == 9) { c.say("trim"); s.trim(); rt::count("trims"); size_t last = 0; for (size_t i = 0; i < model.size(); ++i) if (model[i]) last = i + 1; if (s.size() != last) c.fail("trim", "trimmed to " + std::to_string(s.size()) + " keys, the highest key in the set is the " + std::to_string(last) + "th"); }
                else if (op == 10) { const auto n = key(); const bool v = rng.chance(0.3); const auto old = s.size(); c.say("resize " + std::to_string(n)); if (v) s.resize(n, W(1)); else s.resize(n); if (s.size() != n) c.fail("resize", "size after resize"); model.resize(std::max(model.size(), old)); model.resize(n); if (v) for (size_t i = old; i < n; ++i) model[i] = true; }
                else if (op == 11) { c.say("reserve"); s.reserve(size_t(rng.below(3000))); if (rng.chance(0.3)) s.shrink_to_fit(); }
                else if (op == 12) { if (!rng.chance(0.2)) continue; c.say("clear"); s.clear(); model.clear(); if (!s.empty()) c.fail("clear", "not empty after clear"); }
                else if (op == 13) { c.say("copy"); S o(s); if (rng.chance(0.5)) { s.push(size_t(range)); S t(&res); t.push(size_t(rng.below(50))); t = o; s = t; } else { sp.reset(); sp.emplace(o); } rt::count("copies"); }
                else if (op == 14) { c.say("move"); S o(std::move(s)); sp.reset(); if (rng.chance(0.5)) sp.emplace(std::move(o)); else { sp.emplace(&res); sp->push(size_t(rng.below(50))); *sp = std::move(o); } rt::count("moves"); }
                else { const auto q = rng.below(64); c.say("allocate " + std::to_string(k)); s.allocate(k, q); }
                check();
            }
        }
        if (res.bad) c.fail("resource", res.what); if (!res.live.empty()) c.fail("leak", std::to_string(res.live.size()) + " blocks not returned");
        rt::distinct(rt::mix(c.h, uint64_t(name[4]))); if (rng.chance(0.001)) rt::sample(std::string(name) + ": " + c.log.substr(0, 300));
    }

#else
    template <typename C, typename T, bool Fifo> void line_case(rt::Rng& rng, const char* name) {
        Ctx c { rng, name }; track_pmr res; res.name = name; Obj::living = 0; Obj::misuse = 0;
        {
            std::deque<int> model; std::optional<C> cp; cp.emplace(&res);
            if constexpr (!Fifo) if (rng.chance(0.5)) { cp.reset(); cp.emplace(size_t(rng.below(40)), &res); }
            const int steps = rng.chance(0.1) ? 1500 : int(rng.range(3, 120)); const bool grow = rng.chance(0.4);
            auto check = [&] {
                auto& s = *cp; const C& k = s;
                if (k.size() != model.size() || k.empty() != model.empty()) { c.fail("size", "size " + std::to_string(k.size()) + ", expected " + std::to_string(model.size())); return; }
                if (!model.empty()) { const int t = Fifo ? model.front() : model.back(); if (val(s.top()) != t || val(k.top()) != t || val(s.front()) != t || val(k.front()) != t) { c.fail("top", "top is " + std::to_string(val(k.top())) + ", expected " + std::to_string(t)); return; } rt::count("tops compared"); }
                if (rng.chance(0.2)) { std::deque<int> a, b; for (const auto& e : k) a.push_back(val(e)); for (auto it = k.rbegin(); it != k.rend(); ++it) b.push_front(val(*it)); if (a != model || b != model) c.fail("iterate", "iteration does not give the elements in the order they were put in"); rt::count("contents verified"); }
            };
            for (int st = 0; st < steps && !c.dead; ++st) {
                auto& s = *cp; const int op = int(rng.below(grow ? 22 : 16)); const int x = some(rng, 1); rt::count("operations"); c.h = rt::mix(c.h, uint64_t(op) * 64 + std::min<size_t>(model.size(), 63));
                if (op < 5 || op >= 16) {
                    c.say("push " + std::to_string(x)); res.fail_at = rng.chance(0.1) ? int64_t(res.allocs + res.failed) : -1; bool ok = true;
                    try { if (op % 3 == 0) s.push(make<T>(x)); else if (op % 3 == 1) s.emplace(make<T>(x)); else { const T t = make<T>(x); s.push(t); } } catch (const std::bad_alloc&) { ok = false; c.say("(failed)"); rt::count("failed growth"); }
                    res.fail_at = -1; if (ok) model.push_back(x);
                }
                else if (op < 12) { if (model.empty()) continue; c.say("pop"); s.pop(); if (Fifo) model.pop_front(); else model.pop_back(); rt::count("elements taken"); }
                else if (op == 12) { if (!rng.chance(0.1)) continue; c.say("clear"); s.clear(); model.clear(); }
                else if (op == 13) { c.say("copy"); C o(s); if (rng.chance(0.5)) { s.push(make<T>(x)); C t(&res); t.push(make<T>(x)); t = o; s = t; } else { cp.reset(); cp.emplace(o); } rt::count("copies"); }
                else if (op == 14) { c.say("move"); C o(std::move(s)); cp.reset(); if (rng.chance(0.5)) cp.emplace(std::move(o)); else { cp.emplace(&res); cp->push(make<T>(x)); *cp = std::move(o); } rt::count("moves"); }
                else { if (model.empty()) continue; s.top() = make<T>(x); (Fifo ? model.front() : model.back()) = x; }
                check();
            }
        }
        if (Obj::misuse || Obj::living) c.fail("lifetime", std::to_string(Obj::misuse) + " uses of dead elements, " + std::to_string(Obj::living) + " not destroyed");
        if (res.bad) c.fail("resource", res.what); if (!res.live.empty()) c.fail("leak", std::to_string(res.live.size()) + " blocks not returned");
        rt::distinct(rt::mix(c.h, uint64_t(name[0]) + uint64_t(name[3]))); if (rng.chance(0.001)) rt::sample(std::string(name) + ": " + c.log.substr(0, 300));
    }

#endif
    struct Kind { const char* name; void (*fn)(rt::Rng&, const char*); };
    const Kind kinds[] = {
#if ONLY == 17
        { "int,2", heap_case<int, Less, 2> }, { "int,3", heap_case<int, Greater, 3> }, { "coarse,2", heap_case<int, Coarse, 2> }, { "coarse,4", heap_case<int, Coarse, 4> }, { "double,8", heap_case<double, Less, 8> },
        { "string,2", heap_case<std::string, Less, 2> }, { "string,5", heap_case<std::string, Greater, 5> }, { "object,2", heap_case<Obj, Coarse, 2> }, { "object,3", heap_case<Obj, Less, 3> }, { "unique,2", heap_case<Uni, Less, 2> }, { "unique,4", heap_case<Uni, Greater, 4> }, { "pointer,2", heap_case<int*, Greater, 2> }
#elif ONLY == 18
        { "set<char>", set_case<char> }, { "set<bool>", set_case<bool> }, { "set<uint8>", set_case<uint8_t> }, { "set<int>", set_case<int> }, { "set<uint64>", set_case<uint64_t> }
#else
        { "stack<int>", line_case<chdr::stack<int>, int, false> }, { "stack<string>", line_case<chdr::stack<std::string>, std::string, false> }, { "stack<object>", line_case<chdr::stack<Obj>, Obj, false> }, { "queue<int>", line_case<chdr::queue<int>, int, true> }, { "queue<string>", line_case<chdr::queue<std::string>, std::string, true> }, { "queue<object>", line_case<chdr::queue<Obj>, Obj, true> }
#endif
    };
}

int main(int argc, char** argv) {
    return rt::run(argc, argv, [](uint64_t idx, rt::Rng& rng) { const auto& k = kinds[idx % std::size(kinds)]; rt::phase("%s", k.name); k.fn(rng, k.name); });
}
