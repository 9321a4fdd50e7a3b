// Process-isolated case runner: every case runs in a worker process, so that a crash, a sanitizer
// report or a hang of the code under test is attributed to one case and the run goes on.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace rt {

    struct Rng { // splitmix64 / xoshiro-like; deterministic across platforms
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
        uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a + 1))); }
        bool chance(double p) { return double(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
        double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    };

    inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

    struct Opts {
        uint64_t seed = 1; uint64_t from = 0, count = 100; int jobs = 8; double timeout = 20; std::string out; std::string dir; std::string tier = "quick"; std::string prop;
        std::vector<std::string> extra; bool single = false;
    };
    extern Opts opts;

    // Called by case code.
    void phase(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // what the worker is doing (used to attribute crashes and hangs)
    const char* phase();
    void violation(const std::string& key, const std::string& msg);          // an oracle failed; key identifies what, without the random input
    void note(const std::string& line);                                      // free text into the log of the case (replay only)
    void count(const char* name, uint64_t n = 1);
    void maxi(const char* name, uint64_t v);
    void distinct(uint64_t h);                                                // distinct observed behaviours
    void sample(const std::string& s);                                        // a few are kept as evidence
    void record(uint64_t query, uint64_t answer);                             // the log of answers, compared between builds afterwards
    bool replaying();
    [[noreturn]] void budget_exceeded(const char* what);                      // step budget: definite non-termination verdict

    using CaseFn = std::function<void(uint64_t idx, Rng& rng)>;
    int run(int argc, char** argv, const CaseFn& fn);
}
