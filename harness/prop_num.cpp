// Arithmetic oracles: cell numbering (P20), heuristics (P24), numeric utilities (P26). References in wider arithmetic.
#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
using namespace vf;

namespace {
    using I128 = __int128; using LD = long double;
    template <typename T> const char* tn() { return std::is_same_v<T, uint8_t> ? "uint8" : std::is_same_v<T, uint16_t> ? "uint16" : std::is_same_v<T, uint32_t> ? "uint32" : std::is_same_v<T, uint64_t> ? "uint64" : std::is_same_v<T, int8_t> ? "int8" : std::is_same_v<T, int16_t> ? "int16" : std::is_same_v<T, int32_t> ? "int32" : std::is_same_v<T, int64_t> ? "int64" : std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double"; }
    template <typename C> std::string show(const C& c) { std::string s = "("; for (auto v : c) { s += (s.size() > 1 ? "," : "") + std::to_string(v); } return s + ")"; }

#if ONLY == 20
    // ------------------------------------------------------------------ numbering
    template <typename T, size_t K> void numbering(rt::Rng& rng) {
        using C = std::array<T, K>; char name[64]; snprintf(name, sizeof name, "%s x%zu", tn<T>(), K); rt::phase("%s", name);
        const LD top = LD(std::numeric_limits<T>::max());
        C size {}; const bool wide = rng.chance(0.4);
        LD count = 1;
        { // sizes whose product the type can hold; sometimes close to its limit
            const LD limit = wide ? top : std::min<LD>(top, 4000);
            std::array<size_t, K> order; for (size_t i = 0; i < K; ++i) { order[i] = i; } for (size_t i = K; i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
            for (size_t j = 0; j < K; ++j) { const LD room = std::floor(limit / count); const LD m = j + 1 == K && rng.chance(0.3) ? room : std::pow(room, LD(rng.unit()) * 1.2L / LD(K - j)); LD v = 1 + std::floor(LD(rng.unit()) * std::min(m, room)); if (j + 1 == K && rng.chance(0.2)) { v = room; } if (v < 1) v = 1; if (v > room) v = room; size[order[j]] = T(v); count *= LD(size[order[j]]); }
        }
        I128 n = 1; for (auto s : size) n *= s;
        std::vector<I128> probes; if (n <= 300) for (I128 i = 0; i < n; ++i) probes.push_back(i); else { for (int i = 0; i < 60; ++i) { probes.push_back(I128(rng.next()) % n); } for (I128 i : { I128(0), I128(1), n - 1, n - 2, n / 2 }) probes.push_back(i); for (size_t k = 0; k < K; ++k) { I128 st = 1; for (size_t j = 0; j <= k; ++j) st *= size[j]; for (I128 d : { st - 1, st, st + 1 }) if (d >= 0 && d < n) probes.push_back(d); } }
        for (I128 i : probes) {
            std::array<I128, K> want {}; I128 r = i; for (size_t k = 0; k < K; ++k) { want[k] = r % size[k]; r /= size[k]; }
            const C c = chdr::utils::to_nd(T(i), size);
            for (size_t k = 0; k < K; ++k) if (I128(c[k]) != want[k]) { rt::violation(std::string("to_nd:") + name, "cell " + std::to_string(uint64_t(i)) + " of a maze of size " + show(size) + " becomes " + show(c)); return; }
            const auto back = chdr::utils::to_1d(c, size);
            if (I128(back) != i) { rt::violation(std::string("to_1d:") + name, "cell " + show(c) + " of a maze of size " + show(size) + " becomes number " + std::to_string(back) + ", expected " + std::to_string(uint64_t(i))); return; }
            rt::count("cells numbered");
        }
        rt::distinct([&] { uint64_t h = K * 100 + sizeof(T); for (auto s : size) h = rt::mix(h, uint64_t(s)); return h; }()); if (rng.chance(0.002)) rt::sample(std::string(name) + " " + show(size));
    }

#elif ONLY == 24
    // ------------------------------------------------------------------ heuristics
    template <typename S> bool near(S got, LD want) { const LD eps = std::is_same_v<S, float> ? 3e-6L : std::is_same_v<S, double> ? 1e-13L : 1e-16L; return std::isfinite(LD(got)) && std::fabs(LD(got) - want) <= eps * std::max<LD>(1, std::fabs(want)); }
    template <typename C> bool den_ok(const C& a, const C& b);
    template <typename S, typename T, size_t K> void heur(rt::Rng& rng) {
        using C = std::array<T, K>; using H = chdr::heuristics; char name[64]; snprintf(name, sizeof name, "%s of %s x%zu", tn<S>(), tn<T>(), K); rt::phase("%s", name);
        // coordinates: small ones, or as large as the scalar can tell apart and add up
        const LD cap = std::is_floating_point_v<S> ? (std::is_same_v<S, float> ? 16000000.0L : 1e15L) : LD(std::numeric_limits<S>::max()) / LD(K);
        const LD tmax = std::min<LD>(LD(std::numeric_limits<T>::max()), cap), tmin = std::is_signed_v<T> ? -std::min<LD>(-(LD(std::numeric_limits<T>::min())), cap) / 2 : 0;
        const LD hi = rng.chance(0.6) ? std::min<LD>(tmax, 40) : (std::is_signed_v<T> ? tmax / 2 : tmax); const LD lo = hi <= 40 ? std::max<LD>(tmin, -40) : tmin;
        auto any = [&] { return T(std::floor(lo + LD(rng.unit()) * (hi - lo))); };
        for (int rep = 0; rep < 8; ++rep) {
            C a, b; for (size_t i = 0; i < K; ++i) { a[i] = any(); b[i] = rng.chance(0.2) ? a[i] : any(); if (rng.chance(0.1)) a[i] = T(rng.chance(0.5) ? hi : lo); }
            LD man = 0, che = 0, sq = 0, mind = -1, can = 0, dot = 0, na = 0, nb = 0;
            for (size_t i = 0; i < K; ++i) { const LD d = std::fabs(LD(a[i]) - LD(b[i])); man += d; che = std::max(che, d); sq += d * d; if (mind < 0 || d < mind) mind = d; const LD den = std::fabs(LD(a[i])) + std::fabs(LD(b[i])); if (den > 0) can += d / den; dot += LD(a[i]) * LD(b[i]); na += LD(a[i]) * LD(a[i]); nb += LD(b[i]) * LD(b[i]); }
            const std::string at = " between " + show(a) + " and " + show(b);
            auto exact = [&](const char* w, S got, S rev, LD want) { if (std::is_integral_v<S> ? LD(got) != want : !near(got, want)) { rt::violation(std::string(w) + ":" + name, std::string(w) + at + " is " + std::to_string(got) + ", expected " + std::to_string(want)); } if (got != rev) rt::violation(std::string(w) + "-symmetry:" + name, std::string(w) + at + " depends on the order"); rt::count("distances compared"); };
            exact("manhattan", H::manhattan_distance<S>(a, b), H::manhattan_distance<S>(b, a), man);
            exact("chebyshev", H::chebyshev_distance<S>(a, b), H::chebyshev_distance<S>(b, a), che);
            const LD root2 = std::sqrt(LD(2));
            if constexpr (std::is_floating_point_v<S>) {
                if (sq < 1e30L || sizeof(S) > 4) { exact("squared euclidean", H::sqr_euclidean_distance<S>(a, b), H::sqr_euclidean_distance<S>(b, a), sq); exact("euclidean", H::euclidean_distance<S>(a, b), H::euclidean_distance<S>(b, a), std::sqrt(sq)); }
                const S o = H::octile_distance<S>(a, b), r = H::octile_distance<S>(b, a);
                if constexpr (K == 1) exact("octile", o, r, che);
                else if constexpr (K == 2) exact("octile", o, r, che + (root2 - 1) * mind);
                else { // least cost when a step along one axis costs 1, along two the square root of two, along k that of k
                    std::array<LD, K> d; for (size_t i = 0; i < K; ++i) { d[i] = std::fabs(LD(a[i]) - LD(b[i])); } std::sort(d.begin(), d.end()); LD best = 0, done = 0; for (size_t i = 0; i < K; ++i) { best += (d[i] - done) * std::sqrt(LD(K - i)); done = d[i]; }
                    if (!(o >= 0) || LD(o) > best * (1 + 4e-6L) + 1e-6L || LD(o) < che * (1 - 4e-6L) || o != r) rt::violation(std::string("octile:") + name, "octile" + at + " is " + std::to_string(o) + ", the least cost is " + std::to_string(best)); rt::count("distances compared");
                }
                if (den_ok(a, b)) exact("canberra", H::canberra_distance<S>(a, b), H::canberra_distance<S>(b, a), can);
                { const S g = H::cosine_distance<S>(a, b); const LD want = na > 0 && nb > 0 ? 1 - dot / (std::sqrt(na) * std::sqrt(nb)) : 1; if (!(std::fabs(LD(g) - want) <= (sizeof(S) == 4 ? 4e-6L : 1e-12L))) rt::violation(std::string("cosine:") + name, "cosine" + at + " is " + std::to_string(g) + ", expected " + std::to_string(want)); rt::count("distances compared"); }
            }
            else {
                if (sq <= LD(std::numeric_limits<S>::max())) { exact("squared euclidean", H::sqr_euclidean_distance<S>(a, b), H::sqr_euclidean_distance<S>(b, a), sq); const S e = H::euclidean_distance<S>(a, b); if (LD(e) * LD(e) > sq || (LD(e) + 1) * (LD(e) + 1) <= sq * (1 - 1e-15L)) { if (sq < 1e15L) rt::violation(std::string("euclidean:") + name, "euclidean" + at + " is " + std::to_string(e)); } rt::count("distances compared"); }
                const S o = H::octile_distance<S>(a, b); if (LD(o) < 0 || LD(o) > che + (root2 - 1) * mind + 1e-9L * che || o != H::octile_distance<S>(b, a)) rt::violation(std::string("octile:") + name, "octile" + at + " is " + std::to_string(o) + ", the least cost is " + std::to_string(che + (root2 - 1) * mind));
            }
            // consistency: no step lowers the estimate by more than it costs
            if (hi <= 40) {
                C g = b, p = a; 
                for (int st = 0; st < 6; ++st) {
                    C q = p; unsigned axes = 0; const bool diag = rng.chance(0.6); for (size_t i = 0; i < K; ++i) { if (!diag && axes) break; const auto d = diag ? int(rng.below(3)) - 1 : (rng.chance(0.5) ? 1 : -1); const size_t ax = diag ? i : rng.below(K); const LD v = LD(q[ax]) + d; if (d && v >= lo && v <= hi) { q[ax] = T(v); ++axes; } }
                    if (!axes) continue;
                    auto step = [&](const char* w, LD hp, LD hq, LD cost) { if (hp - hq > cost * (1 + 1e-5L)) rt::violation(std::string(w) + "-consistency:" + name, std::string(w) + " drops from " + std::to_string(hp) + " to " + std::to_string(hq) + " on a step of cost " + std::to_string(cost) + " from " + show(p) + " to " + show(q) + ", goal " + show(g)); rt::count("steps compared"); };
                    if (axes == 1) { step("manhattan", LD(H::manhattan_distance<S>(p, g)), LD(H::manhattan_distance<S>(q, g)), 1); step("euclidean", LD(H::euclidean_distance<S>(p, g)), LD(H::euclidean_distance<S>(q, g)), 1); }
                    step("chebyshev", LD(H::chebyshev_distance<S>(p, g)), LD(H::chebyshev_distance<S>(q, g)), 1);
                    if (std::is_floating_point_v<S>) { step("octile", LD(H::octile_distance<S>(p, g)), LD(H::octile_distance<S>(q, g)), std::sqrt(LD(axes))); step("euclidean", LD(H::euclidean_distance<S>(p, g)), LD(H::euclidean_distance<S>(q, g)), std::sqrt(LD(axes))); }
                    p = q;
                }
            }
            rt::distinct([&] { uint64_t h = K * 1000 + sizeof(S) * 10 + sizeof(T) + std::is_signed_v<T>; for (size_t i = 0; i < K; ++i) h = rt::mix(rt::mix(h, uint64_t(a[i])), uint64_t(b[i])); return h; }());
        }
        if (rng.chance(0.002)) rt::sample(name);
    }
    template <typename C> static bool den_ok_(const C& a, const C& b) { using T = typename C::value_type; for (auto v : a) if (v == std::numeric_limits<T>::min() && std::is_signed_v<T>) return false; for (auto v : b) if (v == std::numeric_limits<T>::min() && std::is_signed_v<T>) return false; return true; }
    template <typename C> bool den_ok(const C& a, const C& b) { return den_ok_(a, b); }

#else
    // ------------------------------------------------------------------ utilities
    template <typename T> T any_int(rt::Rng& rng) { switch (rng.below(5)) { case 0: return T(rng.below(10)); case 1: return std::numeric_limits<T>::max() - T(rng.below(5)); case 2: return std::numeric_limits<T>::min() + T(rng.below(5)); case 3: return T(rng.next() >> rng.below(64)); default: return T(rng.below(100)) - T(std::is_signed_v<T> ? 50 : 0); } }
    template <typename T> void ints(rt::Rng& rng) {
        using U = chdr::utils; const std::string name = tn<T>(); rt::phase("%s", name.c_str()); uint64_t h = sizeof(T) * 2 + std::is_signed_v<T>;
        auto bad = [&](const char* w, const std::string& m) { rt::violation(std::string(w) + ":" + name, m); };
        for (int rep = 0; rep < 20; ++rep) {
            const T a = any_int<T>(rng), b = any_int<T>(rng), c = any_int<T>(rng); h = rt::mix(h, uint64_t(a) * 31 + uint64_t(b)); const std::string ab = std::to_string(a) + ", " + std::to_string(b);
            if (U::min(a, b) != (a < b ? a : b)) bad("min", "min of " + ab); if (U::max(a, b) != (a > b ? a : b)) bad("max", "max of " + ab);
            { const T lo = std::min(b, c), hi = std::max(b, c); const T w = a < lo ? lo : a > hi ? hi : a; if (U::clamp(a, lo, hi) != w) bad("clamp", std::to_string(a) + " clamped to [" + std::to_string(lo) + ", " + std::to_string(hi) + "] is " + std::to_string(U::clamp(a, lo, hi))); }
            if (!(std::is_signed_v<T> && a == std::numeric_limits<T>::min())) { if (I128(U::abs(a)) != (I128(a) < 0 ? -I128(a) : I128(a))) bad("abs", "abs of " + std::to_string(a)); }
            { const int s = U::template sign<int>(a); if (s != (a > 0) - (a < 0)) bad("sign", "sign of " + std::to_string(a) + " is " + std::to_string(s)); }
            if (a >= 0) { const T r = U::sqrt(a); if (uint64_t(a) < (uint64_t(1) << 52) && (I128(r) * r > I128(a) || (I128(r) + 1) * (I128(r) + 1) <= I128(a))) bad("sqrt", "integer square root of " + std::to_string(a) + " is " + std::to_string(r)); }
            if constexpr (std::is_unsigned_v<T>) {
                const T base = T(any_int<T>(rng) >> rng.below(sizeof(T) * 8)), e = T(rng.below(66)); const I128 most = I128(std::numeric_limits<T>::max()); I128 w = 1; bool fits = true; if (base > 1) for (T i = 0; i < e && fits; ++i) { if (w > most / base) fits = false; else w *= base; }
                if (base == 0 && e > 0) w = 0; if (base == 1) w = 1;
                if (fits) { const T g = U::powui(base, e); if (I128(g) != w) bad("powui", std::to_string(base) + " to the power of " + std::to_string(e) + " is " + std::to_string(g)); rt::count("powers compared"); }
                auto prod = [&](auto k) { constexpr size_t K = decltype(k)::value; std::array<T, K> f; for (auto& x : f) x = rng.chance(0.05) ? 0 : T(any_int<T>(rng) >> rng.below(sizeof(T) * 8)); 
                    bool zero = false; for (auto x : f) zero = zero || x == 0;
                    // exact when every partial product fits; without a zero, the largest value otherwise
                    I128 p = 1; bool over = false; const I128 most = I128(std::numeric_limits<uint64_t>::max()); for (auto x : f) { if (x && p > most / x) { over = true; p = most; } else p *= x; } const auto g = U::template product<size_t>(f);
                    if (!zero && g != size_t(p)) bad("product", "product of " + show(f) + " is " + std::to_string(g)); if (zero && g != 0) bad("product", "product of " + show(f) + " is " + std::to_string(g)); if (over) rt::count("products saturated"); rt::count("products compared"); };
                prod(std::integral_constant<size_t, 1>()); prod(std::integral_constant<size_t, 2>()); prod(std::integral_constant<size_t, 3>()); prod(std::integral_constant<size_t, 4>()); prod(std::integral_constant<size_t, 6>());
            }
            rt::count("values compared");
        }
        rt::distinct(h);
    }
    template <typename T> void reals(rt::Rng& rng) {
        using U = chdr::utils; const std::string name = tn<T>(); rt::phase("%s", name.c_str()); uint64_t h = sizeof(T);
        auto bad = [&](const char* w, const std::string& m) { rt::violation(std::string(w) + ":" + name, m); };
        auto any = [&] { return T((rng.unit() - 0.5) * std::pow(10.0, double(rng.range(-6, 12)))); };
        for (int rep = 0; rep < 20; ++rep) {
            const T a = rng.chance(0.1) ? T(0) : any(), b = any(), c = any(); h = rt::mix(h, uint64_t(int64_t(a * 1000)));
            if (U::min(a, b) != std::min(a, b) || U::max(a, b) != std::max(a, b) || U::abs(a) != std::fabs(a) || U::clamp(a, std::min(b, c), std::max(b, c)) != std::clamp(a, std::min(b, c), std::max(b, c))) bad("minmax", "min, max, abs or clamp of " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(c));
            if (U::template sign<int>(a) != (a > 0) - (a < 0)) bad("sign", "sign of " + std::to_string(a));
            if (U::sqrt(T(std::fabs(a))) != std::sqrt(T(std::fabs(a)))) bad("sqrt", "square root of " + std::to_string(a)); rt::count("values compared");
        }
        rt::distinct(h);
    }
    void text(rt::Rng& rng) {
        using U = chdr::utils; rt::phase("text");
        for (int rep = 0; rep < 20; ++rep) {
            // durations in seconds, printed in the largest unit that leaves at least one whole unit (or nanoseconds)
            const LD d = LD(rng.unit()) * std::pow(10.0L, LD(rng.range(-13, 4))) * (rng.chance(0.1) ? 0 : 1); const int dec = int(rng.below(6)); const LD scale = rng.chance(0.3) ? std::numeric_limits<LD>::epsilon() : rng.chance(0.1) ? 0.0L : std::pow(10.0L, -LD(dec));
            const auto s = U::to_string(d, scale); static const char* const units[] = { "s", "ms", "\xC2\xB5s", "ns" }; LD v = d; size_t u = 0; while (u < 3 && v < 1) { v *= 1000; ++u; }
            size_t num = 0; while (num < s.size() && (isdigit(static_cast<unsigned char>(s[num])) || s[num] == '.' || s[num] == '-')) ++num;
            const auto bad = [&](const std::string& m) { rt::violation("to_string", m + ": " + std::to_string(d) + " s with scale " + std::to_string(scale) + " printed as \"" + s + "\""); };
            if (s.substr(num) != units[u]) { bad("wrong unit"); continue; }
            if (num == 0) { bad("no number"); continue; }
            const LD g = std::stold(s.substr(0, num)); if (std::fabs(g - v) > scale / 2 * 1.001L + 0.6e-6L + v * 1e-15L) bad("wrong value"); 
            const auto t = s.substr(0, num); if (t.find('.') != std::string::npos && (t.back() == '0' || t.back() == '.')) bad("trailing zeros");
            rt::count("texts compared"); rt::distinct(rt::mix(u * 7 + size_t(dec), uint64_t(v * 1000)));
            // trimming keeps the value and takes only zeros behind the point
            std::string n = std::to_string(rng.below(3) ? rng.below(1000) * 10 : 0); if (rng.chance(0.8)) { n += '.'; const auto k = rng.below(7); for (uint64_t i = 0; i < k; ++i) n += rng.chance(0.5) ? '0' : char('0' + rng.below(10)); } if (rng.chance(0.2)) n = "-" + n;
            const auto t2 = U::trim_trailing_zeros(n); if (t2.empty() || std::stold(t2) != std::stold(n) || n.compare(0, t2.size(), t2) != 0) rt::violation("trim", "\"" + n + "\" trimmed to \"" + t2 + "\""); else if (n.find('.') != std::string::npos && t2.find('.') != std::string::npos && (t2.back() == '0' || t2.back() == '.')) rt::violation("trim", "\"" + n + "\" trimmed to \"" + t2 + "\"");
        }
    }
#endif
    void (*const cases[])(rt::Rng&) = {
#if ONLY == 20
        numbering<uint32_t, 1>, numbering<uint32_t, 2>, numbering<uint32_t, 3>, numbering<uint32_t, 4>, numbering<uint32_t, 5>, numbering<uint32_t, 6>, numbering<size_t, 1>, numbering<size_t, 2>, numbering<size_t, 3>, numbering<size_t, 4>, numbering<size_t, 5>, numbering<size_t, 7>, numbering<uint8_t, 2>, numbering<uint8_t, 3>, numbering<uint8_t, 4>, numbering<uint8_t, 5>, numbering<uint16_t, 1>, numbering<uint16_t, 2>, numbering<uint16_t, 3>, numbering<uint16_t, 4>, numbering<int32_t, 2>, numbering<int32_t, 3>, numbering<int32_t, 4>, numbering<int64_t, 6> 
#elif ONLY == 24
        heur<uint32_t, uint32_t, 2>, heur<uint32_t, uint32_t, 3>, heur<uint32_t, size_t, 4>, heur<int32_t, uint32_t, 2>, heur<int32_t, int32_t, 3>, heur<int64_t, int32_t, 2>, heur<float, uint32_t, 2>, heur<float, uint16_t, 3>, heur<double, uint32_t, 1>, heur<double, uint32_t, 2>, heur<double, int32_t, 2>, heur<double, size_t, 3>, heur<double, uint32_t, 4>, heur<double, uint8_t, 2>, heur<double, int64_t, 5>, heur<long double, size_t, 2>, heur<uint64_t, uint64_t, 2>, heur<uint32_t, uint8_t, 3> 
#else
        ints<uint8_t>, ints<uint16_t>, ints<uint32_t>, ints<uint64_t>, ints<int8_t>, ints<int16_t>, ints<int32_t>, ints<int64_t>, reals<float>, reals<double>, reals<long double>, text, text, text 
#endif
    };
}

int main(int argc, char** argv) { return rt::run(argc, argv, [](uint64_t idx, rt::Rng& rng) { cases[idx % std::size(cases)](rng); }); }
