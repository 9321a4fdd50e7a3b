// Values computed during compilation against values computed while running (P31). The tables below are filled by constant
// initialisation where the library permits it: a table that had to be filled at start-up shows that it does not.
#include "core.hpp"
#include <cmath>
#include <cstring>
#include <limits>
using namespace vf;

#ifndef CT_SEED
#define CT_SEED 1
#endif

namespace {
    using U = chdr::utils; using H = chdr::heuristics;
    constexpr uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    struct Gen { uint64_t s; constexpr uint64_t next() { return s = mix(s); } constexpr uint64_t below(uint64_t n) { return next() % n; } };
    template <typename T> constexpr T some(Gen& g) { // an integer, often an extreme or a small one
        const auto k = g.below(6), r = g.next();
        if (k == 0) return T(r % 17); if (k == 1) return T(std::numeric_limits<T>::max() - T(r % 5)); if (k == 2) return T(std::numeric_limits<T>::min() + T(r % 5));
        const T v = T(T(r >> (r % 7)) & std::numeric_limits<T>::max()); return k == 3 && std::is_signed_v<T> ? T(-v) : v;
    }
    template <typename T> constexpr T real(Gen& g) { T v = T(int64_t(g.next() >> 20)) / T(1 + g.below(1u << 20)); if (g.below(4) == 0) v = T(g.below(20)); if (g.below(30) == 0) v = 0; for (auto k = g.below(8); k; --k) v = g.below(2) ? v * T(1024) : v / T(4096); return v; }
    template <typename T> constexpr T any(Gen& g, bool negative) { if constexpr (std::is_floating_point_v<T>) { const T v = real<T>(g); return negative && g.below(2) ? -v : v; } else { const T v = some<T>(g); return !negative && v < T(0) ? T(-(v + 1)) : v; } }

    // ---- one struct per function: in() draws arguments, out() applies the function, ok() compares
    template <typename T> struct Min { using R = T; static constexpr const char* n = "min"; static constexpr R out(Gen g) { return U::min(any<T>(g, true), any<T>(g, true)); } };
    template <typename T> struct Max { using R = T; static constexpr const char* n = "max"; static constexpr R out(Gen g) { return U::max(any<T>(g, true), any<T>(g, true)); } };
    template <typename T> struct Clamp { using R = T; static constexpr const char* n = "clamp"; static constexpr R out(Gen g) { const T v = any<T>(g, true), a = any<T>(g, true), b = any<T>(g, true); return U::clamp(v, a < b ? a : b, a < b ? b : a); } };
    template <typename T> struct Abs { using R = T; static constexpr const char* n = "abs"; static constexpr R out(Gen g) { T v = any<T>(g, true); if (v == std::numeric_limits<T>::min() && std::is_integral_v<T>) v = 0; return U::abs(v); } };
    template <typename T> struct Sign { using R = int; static constexpr const char* n = "sign"; static constexpr R out(Gen g) { return U::template sign<int>(any<T>(g, true)); } };
    template <typename T> struct Sqrt { using R = T; static constexpr const char* n = "sqrt"; static constexpr R out(Gen g) { T v = any<T>(g, false); if constexpr (std::is_integral_v<T>) { if (g.below(3) == 0) { const T r = T(g.below(sizeof(T) == 1 ? (std::is_signed_v<T> ? 12 : 16) : 120)); v = T(r * r - (r && g.below(2))); } if (uint64_t(v) >> 52) v = T(uint64_t(v) >> 12); } return U::sqrt(v); } };
    template <typename T> struct Special { using R = T; static constexpr const char* n = "sqrt of extremes"; static constexpr R out(Gen g) { const T v[] = { T(3), T(1e37L), T(1e-37L), T(0), T(1), T(0.25), T(2), std::numeric_limits<T>::epsilon() }; return U::sqrt(v[g.below(8)]); } };
    template <typename T> struct Pow { using R = T; static constexpr const char* n = "powui"; static constexpr R out(Gen g) { const T b = some<T>(g), e = T(g.below(20)); T r = 1; bool fits = true; for (T i = 0; i < e && fits; ++i) { fits = b == 0 || r <= std::numeric_limits<T>::max() / b; if (fits) r = T(r * b); } return U::powui(fits ? b : T(2), fits ? e : T(e % 7)); } };
    template <typename T, size_t K> struct Product { using R = size_t; static constexpr const char* n = "product"; static constexpr R out(Gen g) { std::array<T, K> a {}; for (size_t i = 0; i < K; ++i) a[i] = some<T>(g); return U::template product<size_t>(a); } };
    template <typename T, size_t K> struct Shape { std::array<T, K> size {}; std::array<T, K> at {}; };
    template <typename T, size_t K> constexpr Shape<T, K> shape(Gen& g) { Shape<T, K> s {}; uint64_t room = uint64_t(std::numeric_limits<T>::max()); for (size_t i = 0; i < K; ++i) { uint64_t v = 1 + g.below(1 + g.below(room < 300 ? room : g.below(3) ? 300 : room)); s.size[i] = T(v); room /= v; if (!room) room = 1; } for (size_t i = 0; i < K; ++i) s.at[i] = T(g.below(uint64_t(s.size[i]))); return s; }
    template <typename T, size_t K> struct To1d { using R = T; static constexpr const char* n = "to_1d"; static constexpr R out(Gen g) { const auto s = shape<T, K>(g); return U::to_1d(s.at, s.size); } };
    template <typename T, size_t K> struct ToNd { using R = std::array<T, K>; static constexpr const char* n = "to_nd"; static constexpr R out(Gen g) { const auto s = shape<T, K>(g); uint64_t c = 1; for (size_t i = 0; i < K; ++i) c *= uint64_t(s.size[i]); return U::to_nd(T(g.below(c)), s.size); } };
    template <typename S, typename T, size_t K> struct Pair { std::array<T, K> a {}, b {}; };
    template <typename S, typename T, size_t K> constexpr Pair<S, T, K> both(Gen& g) { Pair<S, T, K> p {}; for (size_t i = 0; i < K; ++i) { const uint64_t m = g.below(2) ? 12 : sizeof(T) == 1 ? 100 : sizeof(S) <= 2 ? 50 : 8000; p.a[i] = T(g.below(m)); p.b[i] = T(g.below(m)); if (std::is_signed_v<T> && g.below(2)) p.a[i] = T(-p.a[i]); } return p; }
#define DIST(NAME, F) template <typename S, typename T, size_t K> struct NAME { using R = S; static constexpr const char* n = #F; static constexpr R out(Gen g) { const auto p = both<S, T, K>(g); return H::template F<S>(p.a, p.b); } };
    DIST(Man, manhattan_distance) DIST(Che, chebyshev_distance) DIST(Oct, octile_distance) DIST(Sqr, sqr_euclidean_distance) DIST(Euc, euclidean_distance) DIST(Can, canberra_distance) DIST(Cos, cosine_distance)
    template <typename S, typename T, size_t K> struct Grid { using R = size_t; static constexpr const char* n = "neighbour count"; static constexpr R out(Gen) { return chdr::mazes::grid<std::array<T, K>, bool>::s_neighbour_count; } };

    constexpr size_t N = 200;
    template <typename F> struct Table { typename F::R v[N] {}; bool early = false; };
    template <typename F> constexpr Table<F> fill() { Table<F> t {}; t.early = __builtin_is_constant_evaluated(); for (size_t i = 0; i < N; ++i) t.v[i] = F::out(Gen { mix(CT_SEED * 1000003ull + i) }); return t; }
    template <typename F> struct Held { static const Table<F> t; };
    template <typename F> const Table<F> Held<F>::t = fill<F>();

    template <typename R> bool same(R a, R b) { if constexpr (std::is_floating_point_v<R>) { if (std::isnan(a) || std::isnan(b)) { return std::isnan(a) && std::isnan(b); } if (a == b) return true; return std::fabs(a - b) <= std::max(std::fabs(a), std::fabs(b)) * 8 * std::numeric_limits<R>::epsilon() || std::fabs(a - b) <= 8 * std::numeric_limits<R>::epsilon() * (std::fabs(a) < 3 ? 1 : 0); } else return a == b; }
    template <typename R> std::string text(const R& r) { if constexpr (std::is_arithmetic_v<R>) { return std::to_string(r); } else { std::string s; for (auto v : r) s += (s.empty() ? "(" : ",") + std::to_string(v); return s + ")"; } }
    template <typename F> void compare(rt::Rng& rng, const char* types) {
        rt::phase("%s of %s", F::n, types); const auto& t = Held<F>::t; const std::string name = std::string(F::n) + " of " + types;
        if (!t.early) rt::violation("constant:" + name, "not a constant expression for all of its arguments");
        for (int k = 0; k < 20; ++k) {
            volatile size_t at = rng.below(N); const size_t i = at; const auto got = F::out(Gen { mix(CT_SEED * 1000003ull + i) });
            if (!same(got, t.v[i])) rt::violation("value:" + name, "argument set " + std::to_string(i) + " gives " + text(t.v[i]) + " during compilation but " + text(got) + " while running");
            rt::count("values compared"); if (t.early) rt::count("compile-time values"); rt::distinct(rt::mix(reinterpret_cast<uintptr_t>(F::n), i) ^ uint64_t(std::hash<std::string>()(name)));
        }
    }
#define C1(F, T) [](rt::Rng& r) { compare<F<T>>(r, #T); }
#define C2(F, T, K) [](rt::Rng& r) { compare<F<T, K>>(r, #T " x" #K); }
#define C3(F, S, T, K) [](rt::Rng& r) { compare<F<S, T, K>>(r, #S " on " #T " x" #K); }
#define INTS(F) C1(F, uint8_t), C1(F, uint16_t), C1(F, uint32_t), C1(F, uint64_t), C1(F, int8_t), C1(F, int16_t), C1(F, int32_t), C1(F, int64_t)
#define REALS(F) C1(F, float), C1(F, double), C1(F, long double)
#define DISTS(S, T, K) C3(Man, S, T, K), C3(Che, S, T, K), C3(Oct, S, T, K), C3(Sqr, S, T, K), C3(Euc, S, T, K), C3(Grid, S, T, K)
    void (*const cases[])(rt::Rng&) = {
        INTS(Min), REALS(Min), INTS(Max), REALS(Max), INTS(Clamp), REALS(Clamp), INTS(Abs), REALS(Abs), INTS(Sign), REALS(Sign), INTS(Sqrt), REALS(Sqrt), REALS(Special),
        C1(Pow, uint8_t), C1(Pow, uint16_t), C1(Pow, uint32_t), C1(Pow, uint64_t), C2(Product, uint8_t, 2), C2(Product, uint32_t, 3), C2(Product, uint64_t, 2), C2(Product, uint64_t, 4),
        C2(To1d, uint32_t, 1), C2(To1d, uint32_t, 2), C2(To1d, uint32_t, 3), C2(To1d, uint32_t, 4), C2(To1d, uint32_t, 5), C2(To1d, uint64_t, 6), C2(To1d, uint16_t, 3), C2(To1d, uint8_t, 2), C2(To1d, int32_t, 4),
        C2(ToNd, uint32_t, 1), C2(ToNd, uint32_t, 2), C2(ToNd, uint32_t, 3), C2(ToNd, uint32_t, 4), C2(ToNd, uint32_t, 5), C2(ToNd, uint64_t, 6), C2(ToNd, uint16_t, 3), C2(ToNd, uint8_t, 2), C2(ToNd, int32_t, 4),
        DISTS(uint32_t, uint32_t, 2), DISTS(uint64_t, uint16_t, 3), DISTS(int32_t, int32_t, 2), DISTS(double, uint32_t, 2), DISTS(double, int32_t, 3), DISTS(float, uint8_t, 2), DISTS(double, size_t, 4), DISTS(long double, int64_t, 2),
        C3(Can, double, uint32_t, 2), C3(Can, float, int32_t, 3), C3(Cos, double, uint32_t, 2), C3(Cos, double, int32_t, 4), C3(Cos, float, uint16_t, 3)
    };
}

int main(int argc, char** argv) { return rt::run(argc, argv, [](uint64_t idx, rt::Rng& rng) { cases[idx % std::size(cases)](rng); }); }
