// Memory-pool oracles: exclusive, aligned, stable memory (P14); bounded and recycled memory (P15); failures, release and moves (P16).
#include "core.hpp"
#include "heap_hooks.hpp"
#include <algorithm>
#include <optional>
using namespace vf;

namespace {
    struct Live { uint8_t* p; size_t n, al; uint8_t tag; };
    struct Track { Track() { hooks::tracking = true; } ~Track() { hooks::tracking = false; } };
    struct Fail { explicit Fail(int64_t k) { hooks::calls = 0; hooks::failed = 0; hooks::fail_at = k; hooks::armed = true; } ~Fail() { hooks::armed = false; hooks::fail_at = -1; } };
    enum Kind { MONO, HOMO, HETE };

    template <typename P, Kind K, size_t Stack, size_t MaxBlock> struct Bench {
        const char* name; rt::Rng& rng; const std::string& prop; uint64_t idx;
        std::vector<Live> live; uint64_t h = 0, ops = 0; std::string log; bool big = false; size_t init = 0, out = 0, peak_out = 0;
        // memory a live object of this type may use: the object itself and registered blocks
        alignas(64) unsigned char room[2][sizeof(P) + 256]; P* pool = nullptr; int slot = 0;

        std::string key(const char* w) const { return std::string(w) + ":" + name; }
        void fail(const char* w, const std::string& m) { rt::violation(key(w), m + " | " + log.substr(log.size() > 900 ? log.size() - 900 : 0)); }
        void say(const std::string& s) { log += s + " "; }
        bool in_pool(const uint8_t* p, size_t n) const {
            for (auto& r : room) { const auto* b = r; if (p >= b && p + n <= b + sizeof r) return pool && p >= reinterpret_cast<const uint8_t*>(pool) && p + n <= reinterpret_cast<const uint8_t*>(pool) + sizeof(P); }
            return hooks::inside(p, n);
        }
        void make(int s, size_t width) { Track t; slot = s; pool = new (room[s] + (rng.below(4) * 16)) P(width); init = width; }
        void kill() { { Track t; pool->~P(); } pool = nullptr; }
        void verify(const Live& l, const char* when) { for (size_t i = 0; i < l.n; ++i) if (l.p[i] != uint8_t(l.tag + i)) { fail("content", "byte " + std::to_string(i) + " of a live block of " + std::to_string(l.n) + " changed (" + when + ")"); return; } rt::count("live blocks verified"); }
        void verify_all(const char* when) { for (auto& l : live) verify(l, when); }
        // What the pool says it has handed out against what it has (CHDR_DIAGNOSTICS).
        void accounts(const char* after) {
#if CHDR_DIAGNOSTICS == 1
            if (prop != "P30") return;
            const auto& d = pool->__get_diagnostic_data(); rt::count("accounts compared"); rt::maxi("max bytes out", peak_out);
            if (d.num_allocated != out) fail("allocated", std::string("the pool counts ") + std::to_string(d.num_allocated) + " bytes as handed out, but " + std::to_string(out) + " are, after " + after);
            else if (d.peak_allocated != peak_out) fail("peak", std::string("the pool counts a peak of ") + std::to_string(d.peak_allocated) + " bytes, but it was " + std::to_string(peak_out) + ", after " + after);
#else
            (void)after;
#endif
        }
        Live* alloc(size_t n, size_t al, int64_t fail_k = -1) { auto* r = alloc_(n, al, fail_k); if (r) { out += n; peak_out = std::max(peak_out, out); } accounts(r ? "an allocation" : "a failed allocation"); return r; }
        void dealloc(size_t i, int64_t fail_k = -1) { const size_t n = live[i].n; dealloc_(i, fail_k); if (K != MONO) out -= n; accounts("a deallocation"); }
        void reset() { reset_(); out = peak_out = 0; accounts("reset"); }
        void release() { release_(); out = peak_out = 0; accounts("release"); }
        Live* alloc_(size_t n, size_t al, int64_t fail_k = -1) {
            void* p = nullptr; bool threw = false;
            say("a" + std::to_string(n) + "/" + std::to_string(al) + (fail_k >= 0 ? "!" + std::to_string(fail_k) : ""));
            try { Track t; if (fail_k >= 0) { Fail f(fail_k); p = pool->allocate(n, al); } else p = pool->allocate(n, al); }
            catch (const std::bad_alloc&) { threw = true; }
            if (hooks::bad) { fail("heap", std::string("the pool ") + hooks::why); hooks::bad = 0; }
            if (threw) { rt::count("allocation failures reported"); if (fail_k < 0 || !hooks::failed) fail("spurious", "bad_alloc although memory is available"); return nullptr; }
            if (fail_k >= 0 && hooks::failed) rt::count("allocation failures survived");
            if (!p) { fail("null", "a null pointer for " + std::to_string(n) + " bytes"); return nullptr; }
            auto* q = static_cast<uint8_t*>(p);
            rt::count("allocations");
            if (reinterpret_cast<uintptr_t>(q) & (al - 1)) { fail("alignment", std::to_string(n) + " bytes misaligned for " + std::to_string(al)); return nullptr; }
            if (!in_pool(q, n)) { fail("bounds", std::to_string(n) + " bytes reach outside the memory of the pool"); return nullptr; }
            const bool st = q >= room[0] && q < room[1] + sizeof room[1]; rt::count(st ? "served from the stack block" : "served from the heap");
            if (st && (q < reinterpret_cast<uint8_t*>(pool) + 8 )) { fail("bounds", "block overlaps the pool's own fields"); return nullptr; }
            for (auto& l : live) if (q < l.p + l.n && l.p < q + n) { fail("overlap", std::to_string(n) + " bytes overlap a live block of " + std::to_string(l.n)); return nullptr; }
            Live l { q, n, al, uint8_t(rng.next()) }; for (size_t i = 0; i < n; ++i) q[i] = uint8_t(l.tag + i);
            live.push_back(l); h = rt::mix(h, (st ? 1 : 2) + n * 8 + al); return &live.back();
        }
        void dealloc_(size_t i, int64_t fail_k = -1) {
            Live l = live[i]; live[i] = live.back(); live.pop_back(); verify(l, "until returned"); say("d" + std::to_string(l.n));
            try { Track t; if (fail_k >= 0) { Fail f(fail_k); pool->deallocate(l.p, l.n, l.al); } else pool->deallocate(l.p, l.n, l.al); rt::count("deallocations"); }
            catch (const std::exception&) { fail("deallocate-throws", "returning a block raised an exception"); }
            h = rt::mix(h, 3);
        }
        void reset_() { verify_all("until reset"); live.clear(); say("reset"); { Track t; if (prop == "P16" && rng.chance(0.3)) { Fail f(int64_t(rng.below(4))); pool->reset(); if (hooks::failed) rt::count("resets under failing allocation"); } else pool->reset(); } rt::count("resets"); h = rt::mix(h, 4); if (hooks::bad) { fail("heap", std::string("the pool ") + hooks::why); hooks::bad = 0; } }
        void release_() { verify_all("until released"); live.clear(); say("release"); { Track t; pool->release(); } rt::count("releases"); h = rt::mix(h, 5); if (hooks::aligned_blocks) fail("release", std::to_string(hooks::aligned_blocks) + " heap blocks kept after release"); }
        // Blocks in the stack part stay with the old object; those are returned first.
        void move(bool assign) {
            for (size_t i = live.size(); i-- > 0;) { const auto* q = live[i].p; if (q >= room[0] && q < room[1] + sizeof room[1]) dealloc(i); }
            say(assign ? "move=" : "move"); P* old = pool; const int ns = 1 - slot;
            { Track t; if (assign) { pool = new (room[ns] + (rng.below(4) * 16)) P(init); void* x = rng.chance(0.5) ? pool->allocate(size(), K == HOMO ? al0 : 8) : nullptr; (void)x; for (int i = 0; i < int(rng.below(80)); ++i) (void)pool->allocate(size(), K == HOMO ? al0 : 8); *pool = std::move(*old); } else pool = new (room[ns] + (rng.below(4) * 16)) P(std::move(*old)); }
            if (rng.chance(0.5)) { // the emptied pool can still be used on its own
                P* neu = pool; pool = old; std::vector<Live> keep; keep = live; const auto n0 = live.size();
                for (int i = 0; i < 5; ++i) alloc(size(), align()); 
                for (size_t i = n0; i < live.size(); ++i) verify(live[i], "in the emptied pool");
                live.resize(n0 < live.size() ? n0 : live.size()); pool = neu;
            }
            { Track t; old->~P(); } slot = ns; std::memset(static_cast<void*>(old), 0x5A, sizeof(P)); rt::count("moves"); h = rt::mix(h, 6);
            if (hooks::bad) { fail("heap", std::string("the pool ") + hooks::why); hooks::bad = 0; }
        }
        size_t n0 = 24, al0 = 8; bool over = false;
        size_t size() { if (K == HOMO) return n0; const uint64_t r = rng.below(20); if (big && r == 0) return 1 + rng.below(2 * MaxBlock); if (r < 4) return 1 + rng.below(600); if (r < 6) return size_t(8) << rng.below(6); return 1 + rng.below(64); }
        size_t align() { if (K == HOMO) return al0; return size_t(1) << rng.below(over ? 8 : 5); }

        // between a reset and the next allocation the user of a homogeneous pool may settle on another size (after a release also on another alignment)
        void other_chunks(bool released, size_t w) { if (K != HOMO || rng.chance(0.4)) return; n0 = 1 + rng.below(std::min<size_t>(std::min(w, MaxBlock), rng.chance(0.8) ? 64 : 400)); if (released) al0 = size_t(1) << rng.below(over ? 8 : 5); rt::count("chunk sizes changed"); }
        void identity() { std::pmr::memory_resource& self = *pool; if (!(self == self) || self == *std::pmr::new_delete_resource()) fail("identity", "a pool does not compare equal to itself alone"); rt::count("identities"); }

        void sequence() {
            big = rng.chance(0.3); over = rng.chance(0.3); static const size_t widths[] = { 2, 64, 100, 256, 1000, 4096, 70000 };
            size_t w = widths[rng.below(7)]; if (K == HOMO) { al0 = size_t(1) << rng.below(over ? 8 : 5); n0 = 1 + rng.below(rng.chance(0.8) ? 64 : 400); const auto lim = std::min(w, MaxBlock); if (n0 > lim) { w = MaxBlock; n0 = std::min(n0, MaxBlock); } }
            say("width " + std::to_string(w)); make(0, w);
            const bool failing = prop == "P16" || prop == "P30", moving = prop == "P16"; const int n = 1 + int(rng.below(rng.chance(0.2) ? 600 : 120)); const double pd = rng.unit() * 0.6;
            for (int i = 0; i < n; ++i) {
                ++ops; const uint64_t r = rng.below(1000); const int64_t fk = failing && rng.chance(0.15) ? int64_t(rng.below(3)) : -1;
                if (r < 4 || (prop == "P30" && r > 980)) { reset(); other_chunks(false, w); } else if (r < 7) { release(); other_chunks(true, w); } else if (r < 10 && moving) move(r == 9);
                else if (!live.empty() && rng.unit() < pd) dealloc(rng.below(live.size()), failing && fk >= 0 ? fk : -1);
                else alloc(size(), align(), fk);
                if (failing && K != HOMO && rng.chance(0.01)) { void* p = nullptr; const size_t huge = SIZE_MAX - rng.below(300); const size_t al = align(); say("huge"); try { Track t; p = pool->allocate(huge, al); } catch (const std::bad_alloc&) { rt::count("impossible requests refused"); } if (p) fail("huge", std::to_string(huge) + " bytes were promised"); }
                if (rng.chance(0.01)) identity();
                if (i % 37 == 36) verify_all("meanwhile");
            }
            verify_all("at the end"); live.clear(); kill(); 
            if (hooks::bad) { fail("heap", std::string("the pool ") + hooks::why); hooks::bad = 0; }
            if (hooks::live && !hooks::live->empty()) { fail("leak", std::to_string(hooks::live->size()) + " heap blocks live after the pool is gone"); drop(); }
            rt::distinct(h); if (idx % 211 == 7) rt::sample(std::string(name) + ": " + log.substr(0, 300));
        }
        void drop() { while (hooks::live && !hooks::live->empty()) { auto it = hooks::live->begin(); auto* hh = reinterpret_cast<hooks::Hdr*>(it->first) - 1; free(hh->base); hooks::live->erase(it); } hooks::aligned_bytes = hooks::aligned_blocks = hooks::plain_blocks = 0; }

        // Memory held by the pool stays within a constant of what is live at a time, and repeated identical rounds do not grow it.
        void bounded() {
            over = rng.chance(0.2); static const size_t widths[] = { 256, 1000, 4096, 70000 };
            size_t w = widths[rng.below(4)]; if (K == HOMO) { al0 = size_t(1) << rng.below(over ? 8 : 5); n0 = 1 + rng.below(std::min<size_t>(std::min(w, MaxBlock), 400)); }
            say("width " + std::to_string(w)); make(0, w);
            const bool churn = K != MONO && rng.chance(0.5); const size_t bn = 1 + rng.below(200), ba = size_t(1) << rng.below(5);
            if (churn) {
                const size_t L = 1 + rng.below(200), N = 3000 + rng.below(3000), sz = K == HOMO ? n0 : bn, al = K == HOMO ? al0 : ba; size_t peak = 0;
                for (size_t i = 0; i < N; ++i) { if (live.size() < L && (live.empty() || rng.chance(0.6))) alloc(sz, al); else dealloc(rng.below(live.size())); peak = std::max(peak, live.size()); log.clear(); }
                const size_t need = peak * ((sz + al - 1) / al * al), bound = 3 * need + 2 * std::min(w, MaxBlock) + 1024;
                rt::maxi("max held / bound (churn, percent)", hooks::aligned_bytes * 100 / bound); rt::count("churn runs"); rt::count("blocks recycled", N);
                if (hooks::aligned_bytes > bound) fail("unbounded", std::to_string(hooks::aligned_bytes) + " bytes held for at most " + std::to_string(peak) + " live blocks of " + std::to_string(sz) + " after " + std::to_string(N) + " operations, initial width " + std::to_string(w));
                h = rt::mix(h, sz * 1000 + L);
            }
            else {
                struct Op { size_t n, al; bool d; uint32_t i; }; std::vector<Op> ops; const size_t N = 20 + rng.below(rng.chance(0.3) ? 3000 : 300); size_t cnt = 0; double pd = K == MONO ? 0 : rng.unit() * 0.45; size_t total = 0;
                for (size_t i = 0; i < N; ++i) { if (cnt && rng.unit() < pd) { ops.push_back({ 0, 0, true, uint32_t(rng.below(cnt)) }); --cnt; } else { ops.push_back({ size(), align(), false, 0 }); total += ops.back().n + ops.back().al; ++cnt; } }
                const int R = 8; uint64_t held[R] {}; 
                for (int r = 0; r < R; ++r) { for (auto& o : ops) { if (o.d) { if (!live.empty()) dealloc(o.i % live.size()); } else alloc(o.n, o.al); log.clear(); } held[r] = hooks::aligned_bytes; reset(); rt::count("identical rounds"); }
                rt::maxi("max growth over identical rounds (percent)", held[0] > 4096 ? held[R - 1] * 100 / held[0] : 0); rt::maxi("max held / requested (percent)", total > 4 * MaxBlock + 2 * w ? held[0] * 100 / total : 0);
                if (held[R - 1] > held[0] * 3 / 2 + 2 * std::min(w, MaxBlock) + 1024) fail("growth", "eight identical rounds of " + std::to_string(N) + " operations, each followed by reset, hold " + std::to_string(held[0]) + " .. " + std::to_string(held[R - 1]) + " bytes (width " + std::to_string(w) + ", size " + std::to_string(n0) + ")");
                if (held[0] > 4 * total + 4 * MaxBlock + 2 * w) fail("waste", std::to_string(held[0]) + " bytes held for " + std::to_string(total) + " requested");
                h = rt::mix(h, held[0]);
            }
            live.clear(); kill(); if (hooks::live && !hooks::live->empty()) { fail("leak", "heap blocks live after the pool is gone"); drop(); }
            rt::distinct(h); if (idx % 211 == 7) rt::sample(std::string(name) + (churn ? ": churn" : ": identical rounds") + ", width " + std::to_string(w));
        }
    };
    template <typename P, Kind K, size_t S, size_t M> void go(const char* name, rt::Rng& rng, const std::string& prop, uint64_t idx) {
        auto b = std::make_unique<Bench<P, K, S, M>>(Bench<P, K, S, M> { name, rng, prop, idx }); rt::phase("%s", name);
        if (prop == "P15") b->bounded(); else b->sequence();
    }
}

int main(int argc, char** argv) {
    std::string prop; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
    constexpr size_t X = std::numeric_limits<size_t>::max();
    return rt::run(argc, argv, [&](uint64_t idx, rt::Rng& rng) {
        switch (idx % 9) {
            case 0: go<chdr::monotonic_pool<>, MONO, 4096, 65536>("monotonic_pool", rng, prop, idx); break;
            case 1: go<chdr::monotonic_pool<64, X, 1024>, MONO, 64, 1024>("monotonic_pool<64,.,1024>", rng, prop, idx); break;
            case 2: go<chdr::monotonic_pool<500, 48, 4096>, MONO, 500, 4096>("monotonic_pool<500,48,4096>", rng, prop, idx); break;
            case 3: go<chdr::homogeneous_pool<>, HOMO, 4096, 65536>("homogeneous_pool", rng, prop, idx); break;
            case 4: go<chdr::homogeneous_pool<64, X, 1024>, HOMO, 64, 1024>("homogeneous_pool<64,.,1024>", rng, prop, idx); break;
            case 5: go<chdr::homogeneous_pool<500, 48, 4096>, HOMO, 500, 4096>("homogeneous_pool<500,48,4096>", rng, prop, idx); break;
            case 6: go<chdr::heterogeneous_pool<>, HETE, 4096, 65536>("heterogeneous_pool", rng, prop, idx); break;
            case 7: go<chdr::heterogeneous_pool<64, X, 1024>, HETE, 64, 1024>("heterogeneous_pool<64,.,1024>", rng, prop, idx); break;
            default: go<chdr::heterogeneous_pool<500, 48, 4096, false>, HETE, 500, 4096>("heterogeneous_pool<500,48,4096,false>", rng, prop, idx); break;
        }
    });
}
