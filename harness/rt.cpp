#include "rt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <atomic>
#include <fstream>
#include <sstream>
#include <algorithm>

extern "C" int __llvm_profile_write_file(void) __attribute__((weak)); // present in coverage builds only
[[noreturn]] static void leave() { if (__llvm_profile_write_file) __llvm_profile_write_file(); _exit(0); }
namespace rt {
    Opts opts;

    static constexpr int kMaxC = 384, kNameLen = 56;
    struct Counter { char name[kNameLen]; uint64_t v; bool is_max; };
    struct Slot {
        volatile int64_t cur;          // running case, or -1
        volatile double started;
        volatile int64_t forced;       // case to be run alone next, or -1
        volatile int budget;           // set when a step budget was exceeded
        char phase[256];
        int n_counters;
        Counter counters[kMaxC];
    };
    struct Shared { std::atomic<uint64_t> next; std::atomic<uint64_t> done; std::atomic<uint64_t> distinct; std::atomic<uint64_t> samples; std::atomic<uint64_t> viols; std::atomic<uint64_t> stop; };
    static Shared* sh; static Slot* slots; static Slot* me; static std::atomic<uint64_t>* table; static constexpr size_t kTable = size_t(1) << 21;
    static int viol_fd = -1, sample_fd = -1, rec_fd = -1;

    static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

    static std::string esc(const std::string& s) {
        std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c); } return o;
    }

    void phase(const char* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(me->phase, sizeof me->phase, fmt, a); va_end(a); }
    const char* phase() { return me->phase; }
    bool replaying() { return opts.single; }

    static void emit(int64_t idx, const std::string& key, const std::string& msg) {
        const auto n = sh->viols.fetch_add(1);
        if (n >= 20000) { return; }
        std::string l = "{\"case\":" + std::to_string(idx) + ",\"key\":\"" + esc(key) + "\",\"msg\":\"" + esc(msg.substr(0, 3000)) + "\"}\n";
        if (write(viol_fd, l.data(), l.size())) {}
        if (opts.single) { fprintf(stderr, "VIOLATED %s: %s\n", key.c_str(), msg.c_str()); }
    }
    void violation(const std::string& key, const std::string& msg) { emit(me->cur, key, msg); }
    void record(uint64_t query, uint64_t answer) { const std::string l = std::to_string(me->cur) + ' ' + std::to_string(query) + ' ' + std::to_string(answer) + ' ' + me->phase + '\n'; if (write(rec_fd, l.data(), l.size())) {} if (opts.single) { fprintf(stderr, "recorded %s", l.c_str()); } }
    void note(const std::string& l) { if (opts.single) { fprintf(stderr, "%s\n", l.c_str()); } }

    static Counter& ctr(const char* name) {
        for (int i = 0; i < me->n_counters; ++i) { if (!strcmp(me->counters[i].name, name)) return me->counters[i]; }
        if (me->n_counters >= kMaxC) { return me->counters[kMaxC - 1]; }
        Counter& c = me->counters[me->n_counters]; snprintf(c.name, kNameLen, "%s", name); c.v = 0; c.is_max = false; ++me->n_counters; return c;
    }
    void count(const char* name, uint64_t n) { ctr(name).v += n; }
    void maxi(const char* name, uint64_t v) { auto& c = ctr(name); c.is_max = true; if (v > c.v) c.v = v; }
    void distinct(uint64_t h) {
        if (!h) h = 1; size_t i = size_t(h * 0x9E3779B97F4A7C15ull >> 43) % kTable;
        for (int p = 0; p < 64; ++p) {
            uint64_t e = table[i].load(std::memory_order_relaxed);
            if (e == h) return;
            if (e == 0) { uint64_t z = 0; if (table[i].compare_exchange_strong(z, h)) { sh->distinct++; return; } if (z == h) return; }
            i = (i + 1) % kTable;
        }
    }
    void sample(const std::string& s) { if (sh->samples.load() < 12 && sh->samples.fetch_add(1) < 12) { std::string l = s; std::replace(l.begin(), l.end(), '\n', '/'); l += "\n"; if (write(sample_fd, l.data(), l.size())) {} } }
    void budget_exceeded(const char* what) {
        me->budget = 1; emit(me->cur, std::string("no-termination:") + me->phase, std::string(what) + " while " + me->phase); _exit(77);
    }

    static void worker(const CaseFn& fn) {
        for (;;) {
            int64_t idx = me->forced;
            if (idx >= 0) { me->forced = -1; }
            else {
                if (sh->stop.load()) { leave(); }
                const uint64_t n = sh->next.fetch_add(1); if (n >= opts.from + opts.count) { leave(); } idx = int64_t(n);
            }
            me->phase[0] = 0; me->started = now(); me->cur = idx;
            Rng rng(mix(mix(opts.seed, 77), uint64_t(idx)));
            fn(uint64_t(idx), rng);
            me->cur = -1; sh->done++;
        }
    }

    // Summarise a sanitizer / assertion log: kind and the innermost frame that lies in the repository.
    static void parse_log(const std::string& path, const std::string& errpath, std::string& kind, std::string& detail) {
        std::string all; { std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); all = ss.str(); }
        { std::ifstream f(errpath); std::stringstream ss; ss << f.rdbuf(); all += ss.str(); }
        std::istringstream in(all); std::string l, frame;
        while (std::getline(in, l)) {
            size_t p;
            if (kind.empty() && (p = l.find("Sanitizer: ")) != std::string::npos && l.find("ERROR") != std::string::npos) { std::istringstream w(l.substr(p + 11)); w >> kind; detail = l; }
            else if (kind.empty() && (p = l.find("WARNING: ThreadSanitizer: ")) != std::string::npos) { kind = "race"; detail = l; }
            else if (kind.empty() && (p = l.find("runtime error: ")) != std::string::npos) {
                std::istringstream w(l.substr(p + 15)); std::string a, b, c; w >> a >> b >> c; auto clean = [](std::string s) { std::string o; for (char ch : s) if (isalpha((unsigned char)ch) || ch == '-') o += ch; return o; };
                kind = "ub-" + clean(a) + "-" + clean(b) + (clean(c).empty() ? "" : "-" + clean(c)); detail = l;
            }
            else if (kind.empty() && (l.find("Assertion `") != std::string::npos || l.find("Assertion '") != std::string::npos)) { kind = "assert"; detail = l; }
            else if (kind.empty() && l.find("Error: attempt to") != std::string::npos) { kind = "iterator"; detail = l; }
            else if (kind.empty() && l.compare(0, 2, "==") == 0 && (l.find("uninitialised value") != std::string::npos || l.find("Invalid read") != std::string::npos || l.find("Invalid write") != std::string::npos)) { kind = l.find("uninit") != std::string::npos ? "uninitialised" : "invalid-access"; detail = l; }
            else if (kind == "uninitialised" && frame.empty() && l.compare(0, 2, "==") == 0 && l.find(".hpp:") != std::string::npos && l.find("chdr::") != std::string::npos) { frame = l; detail += " | " + l; }
            else if (kind.empty() && (p = l.find("terminate called")) != std::string::npos) { kind = "terminate"; detail = l; }
            if (frame.empty() && l.find("    #") == 0 && (l.find("/include/") != std::string::npos) && l.find("/usr/") == std::string::npos) { frame = l; detail += " | " + l; }
        }
    }

    static void spawn(int w, const CaseFn& fn, std::vector<pid_t>& pids) {
        pid_t p = fork();
        if (p == 0) {
            me = &slots[w];
            std::string err = opts.dir + "/err." + std::to_string(getpid());
            if (!opts.single) { int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } }
            worker(fn);
            leave();
        }
        pids[size_t(w)] = p;
    }

    int run(int argc, char** argv, const CaseFn& fn) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--seed") opts.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--from") opts.from = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--count") opts.count = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--jobs") opts.jobs = atoi(val().c_str());
            else if (a == "--timeout") opts.timeout = atof(val().c_str());
            else if (a == "--dir") opts.dir = val();
            else if (a == "--tier") opts.tier = val();
            else if (a == "--prop") opts.prop = val();
            else if (a == "--single") { opts.single = true; opts.from = strtoull(val().c_str(), nullptr, 10); opts.count = 1; opts.jobs = 1; }
            else opts.extra.push_back(a);
        }
        if (opts.dir.empty()) { opts.dir = "/tmp/rt." + std::to_string(getpid()); } mkdir(opts.dir.c_str(), 0755);
        viol_fd = open((opts.dir + "/violations.jsonl").c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644);
        sample_fd = open((opts.dir + "/samples.txt").c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644);
        rec_fd = open((opts.dir + "/records.txt").c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644);
        auto map = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
        sh = static_cast<Shared*>(map(sizeof(Shared))); sh->next = opts.from;
        slots = static_cast<Slot*>(map(sizeof(Slot) * size_t(opts.jobs)));
        table = static_cast<std::atomic<uint64_t>*>(map(sizeof(uint64_t) * kTable));
        for (int w = 0; w < opts.jobs; ++w) { slots[w].cur = -1; slots[w].forced = -1; }
        std::vector<pid_t> pids(size_t(opts.jobs), -1);
        std::map<int64_t, int> hangs; uint64_t crashes = 0, hung = 0; std::map<std::string, int> crash_phase;
        for (int w = 0; w < opts.jobs; ++w) spawn(w, fn, pids);
        int live = opts.jobs;
        while (live > 0) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                int w = -1; for (int i = 0; i < opts.jobs; ++i) if (pids[size_t(i)] == p) w = i;
                if (w < 0) continue;
                Slot& s = slots[w];
                const std::string err = opts.dir + "/err." + std::to_string(p);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.cur < 0) { unlink(err.c_str()); pids[size_t(w)] = -1; --live; continue; }
                const int64_t idx = s.cur; me = &s;
                if (s.budget) { s.budget = 0; }                                  // violation already written
                else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && hangs.count(idx)) {
                    if (hangs[idx] == 1) { s.forced = idx; }                     // inconclusive: once more, alone, with a longer limit
                    else { ++hung; emit(idx, std::string("hang:") + s.phase, std::string("no progress within the time limit, twice, while ") + s.phase); }
                }
                else {
                    ++crashes; std::string kind, detail;
                    parse_log(opts.dir + "/san." + std::to_string(p), err, kind, detail);
                    if (kind.empty()) { kind = WIFSIGNALED(st) ? "signal-" + std::to_string(WTERMSIG(st)) : "exit-" + std::to_string(WEXITSTATUS(st)); }
                    if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { emit(idx, "crash:" + kind + ":" + s.phase, detail + " while " + s.phase); }
                    else { emit(idx, "killed:" + std::string(s.phase), "worker killed (memory?)"); }
                }
                unlink((opts.dir + "/san." + std::to_string(p)).c_str()); unlink(err.c_str());
                s.cur = -1; if (s.forced < 0) sh->done++;
                if (crashes > 400 || hung > 12) { sh->stop = 1; }
                spawn(w, fn, pids);
                continue;
            }
            const double t = now();
            for (int w = 0; w < opts.jobs; ++w) {
                Slot& s = slots[w];
                if (pids[size_t(w)] > 0 && s.cur >= 0) {
                    const int64_t idx = s.cur; const double lim = opts.timeout * (hangs.count(idx) ? 3 : 1);
                    if (t - s.started > lim && s.cur == idx) { hangs[idx]++; kill(pids[size_t(w)], SIGKILL); s.started = t + 1e6; }
                }
            }
            usleep(2000);
        }
        // merge
        std::map<std::string, std::pair<uint64_t, bool>> m;
        for (int w = 0; w < opts.jobs; ++w) for (int i = 0; i < slots[w].n_counters; ++i) {
            auto& c = slots[w].counters[i]; auto& e = m[c.name]; e.second = c.is_max; e.first = c.is_max ? std::max(e.first, c.v) : e.first + c.v;
        }
        FILE* f = fopen((opts.dir + "/summary.json").c_str(), "w");
        fprintf(f, "{\"cases\":%llu,\"distinct\":%llu,\"crashes\":%llu,\"hangs\":%llu,\"violations\":%llu,\"stopped\":%llu,\"counters\":{", (unsigned long long)sh->done.load(), (unsigned long long)sh->distinct.load(), (unsigned long long)crashes, (unsigned long long)hung, (unsigned long long)sh->viols.load(), (unsigned long long)sh->stop.load());
        bool first = true; for (auto& [k, v] : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(k).c_str(), (unsigned long long)v.first); first = false; }
        fprintf(f, "}}\n"); fclose(f);
        return sh->viols.load() ? 1 : 0;
    }
}
