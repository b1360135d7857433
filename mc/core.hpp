// Explorer core: one translation unit = one executable.
//
// A harness registers Jobs. A Job is a finite, indexable space: run(idx) executes the real cpp-sort code on the
// idx-th case and calls mc::fail() if the oracle is not satisfied. main() forks a worker that walks its shard of
// every job; the parent monitors it (crash, hang), replays every failure in a fresh process before reporting it,
// and prints one JSON object with the counters measured in shared memory.
#ifndef MC_CORE_HPP
#define MC_CORE_HPP
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <exception>
#include <functional>
#include <new>
#include <string>
#include <utility>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// The assertions of the library are switched on and off from case to case: what it does must not depend on them.
// (constant evaluation skips them)
namespace mc { inline bool& assertions_off() { static bool off = false; return off; } inline void assertion_failed(const char*, const char*, int); }
#define MC_FIRST_ARG(first_, ...) first_
#define CPPSORT_ASSERT(...) ((__builtin_is_constant_evaluated() || ::mc::assertions_off()) ? void() : MC_FIRST_ARG(__VA_ARGS__, 0) ? void() : ::mc::assertion_failed(#__VA_ARGS__, __FILE__, __LINE__))

namespace mc {

using u64 = std::uint64_t;
using u32 = std::uint32_t;
using i64 = std::int64_t;

// ------------------------------------------------------------------ shared state (worker -> monitor)
constexpr u64 BITMAP_BITS = 1ull << 22;
enum { MAX_EXTRA = 16, MAX_KNOWN = 64 };
struct Shared {
    volatile u64 job, idx, seq;      // the case being executed
    volatile u64 evals, nontrivial;  // executions of the code under test, non-trivial ones
    volatile u64 steps;              // callbacks observed (transitions of the system under test)
    volatile u64 distinct;           // lower bound on distinct behaviours (bitmap)
    volatile u64 extra[MAX_EXTRA];
    volatile u64 known_hit[MAX_KNOWN];
    volatile int failed;
    volatile int done;
    char msg[8192];
    unsigned char bitmap[BITMAP_BITS / 8];
};
inline Shared*& shp() { static Shared* p = nullptr; return p; }
inline Shared& sh() { return *shp(); }
inline std::vector<std::string>& known_keys() { static std::vector<std::string> v; return v; }
inline std::vector<std::string>& extra_names() { static std::vector<std::string> v; return v; }
inline int extra_id(const char* name) {
    auto& v = extra_names();
    for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == name) return int(i);
    v.push_back(name);
    return int(v.size() - 1);
}
inline bool& thorough() { static bool t = false; return t; }
inline bool& verbose() { static bool t = false; return t; }

// Description of the current input, rendered on failure
struct Desc { const int* keys = nullptr; int n = 0; std::string text; };
inline Desc& desc() { static Desc d; return d; }

[[noreturn]] inline void fail(const char* fmt, ...) {
    char* p = sh().msg; std::size_t left = sizeof(sh().msg) - 1;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(p, left, fmt, ap);
    va_end(ap);
    std::size_t used = k < 0 ? 0 : (std::size_t(k) < left ? std::size_t(k) : left - 1);
    p += used; left -= used;
    auto put = [&](const char* f, auto v) {
        if (left < 32) return;
        int w = snprintf(p, left, f, v);
        if (w > 0) { p += w; left -= std::size_t(w); }
    };
    if (!desc().text.empty() && left > 600) {
        int w = snprintf(p, 512, " [%s]", desc().text.c_str());
        if (w > 511) w = 511;
        p += w; left -= std::size_t(w);
    }
    if (desc().keys) {
        put(" input(n=%d):", desc().n);
        for (int i = 0; i < desc().n && i < 400; ++i) put(" %d", desc().keys[i]);
        if (desc().n > 400) put("%s", " ...");
    }
    sh().failed = 1;
    _exit(40);
}
inline void assertion_failed(const char* what, const char* file, int line) { fail("assertion of the library failed: %s (%s:%d)", what, file, line); }
// A failure that may be recorded in the known-findings file, identified by key.
// Returns (instead of failing) when the key is listed.
inline void fail_keyed(const std::string& key, const char* fmt, ...) {
    auto& ks = known_keys();
    for (std::size_t i = 0; i < ks.size() && i < MAX_KNOWN; ++i)
        if (ks[i] == key) { ++sh().known_hit[i]; return; }
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    fail("%s (key=%s)", buf, key.c_str());
}

inline u64 mix(u64 x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x;
}
inline void note_behaviour(u64 h) {
    h = mix(h) & (BITMAP_BITS - 1);
    unsigned char m = (unsigned char)(1u << (h & 7));
    auto& b = sh().bitmap[h >> 3];
    if (!(b & m)) { b |= m; ++sh().distinct; }
}
inline void count_eval(bool nontrivial, u64 steps = 0) {
    ++sh().evals; if (nontrivial) ++sh().nontrivial; sh().steps = sh().steps + steps;
}

// ------------------------------------------------------------------ jobs
struct Job {
    std::string name;
    u64 size;
    std::function<void(u64)> run;
    u64 limit_s;     // hang limit of one case, seconds
};
inline std::vector<Job>& jobs() { static std::vector<Job> v; return v; }
inline void add_job(std::string name, u64 size, std::function<void(u64)> run, u64 limit_s = 20) {
    if (size) jobs().push_back(Job{std::move(name), size, std::move(run), limit_s});
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

struct Outcome { int kind; std::string text; };  // 0 ok, 1 failed, 2 crash, 3 hang

// run indices [from, to] stepping by `step` of job j in a forked child; supervise it
inline void run_range(u64 j, u64 from, u64 to, u64 step) {
    auto& job = jobs()[j];
    for (u64 i = from; i <= to; i += step) {
        sh().job = j; sh().idx = i; sh().seq = sh().seq + 1;
        assertions_off() = mix(i * 0x9e3779b97f4a7c15ull + j) & 1;
        job.run(i);
        if (to - i < step) break;
    }
}
template<typename F>
Outcome supervise(F body, double hang_s) {
    sh().failed = 0; sh().done = 0; sh().msg[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        body();
        sh().done = 1;
        fflush(nullptr);
        _exit(0);
    }
    u64 seen = ~0ull; double since = now();
    for (;;) {
        int st = 0;
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) {
            if (sh().failed) return {1, sh().msg};
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh().done) return {0, ""};
            char b[128];
            if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
            else snprintf(b, sizeof b, "crash: exit status %d (sanitizer report, assertion or uncaught exit)", WEXITSTATUS(st));
            return {2, b};
        }
        u64 s = sh().seq;
        if (s != seen) { seen = s; since = now(); }
        else if (now() - since > hang_s) {
            kill(pid, SIGKILL); waitpid(pid, &st, 0);
            return {3, "hang: no progress within the time limit"};
        }
        usleep(seen == ~0ull ? 500 : 3000);
    }
}

inline int main_impl(int argc, char** argv) {
    u64 shard = 0, nshards = 1; i64 rj = -1, ri = -1, rfrom = -1; u64 rstep = 1;
    std::string known_file, only;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--shard") { sscanf(argv[++i], "%lu/%lu", &shard, &nshards); }
        else if (a == "--tier") thorough() = std::string(argv[++i]) == "thorough";
        else if (a == "--replay") { rfrom = -1; sscanf(argv[++i], "%ld:%ld:%ld:%lu", &rj, &ri, &rfrom, &rstep); }
        else if (a == "--known") known_keys().push_back(argv[++i]);
        else if (a == "--job") only = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "-v") verbose() = true;
    }
    shp() = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    extern void mc_register_jobs();
    mc_register_jobs();
    if (list) {
        u64 tot = 0;
        for (std::size_t j = 0; j < jobs().size(); ++j) { printf("%zu %s %lu\n", j, jobs()[j].name.c_str(), jobs()[j].size); tot += jobs()[j].size; }
        printf("total %lu\n", tot);
        return 0;
    }
    auto dump = [&](const Outcome& o, i64 j, i64 i, i64 from, u64 step, const std::vector<std::string>& samples, double t, const std::vector<double>& jt) {
        std::string s = "{";
        char b[512];
        snprintf(b, sizeof b, "\"evals\":%lu,\"nontrivial\":%lu,\"steps\":%lu,\"distinct\":%lu,\"seconds\":%.3f",
                 sh().evals, sh().nontrivial, sh().steps, sh().distinct, t);
        s += b;
        s += ",\"extra\":{";
        for (std::size_t k = 0; k < extra_names().size(); ++k) {
            snprintf(b, sizeof b, "%s:%lu", jstr(extra_names()[k]).c_str(), sh().extra[k]);
            if (k) s += ",";
            s += b;
        }
        s += "},\"known\":{";
        for (std::size_t k = 0; k < known_keys().size() && k < MAX_KNOWN; ++k) {
            snprintf(b, sizeof b, "%s:%lu", jstr(known_keys()[k]).c_str(), sh().known_hit[k]);
            if (k) s += ",";
            s += b;
        }
        s += "},\"samples\":[";
        for (std::size_t k = 0; k < samples.size(); ++k) { if (k) s += ","; s += jstr(samples[k]); }
        s += "],\"jobs\":[";
        for (std::size_t k = 0; k < jt.size(); ++k) {
            snprintf(b, sizeof b, "[%s,%lu,%.3f]", jstr(jobs()[k].name).c_str(), jobs()[k].size, jt[k]);
            if (k) s += ",";
            s += b;
        }
        s += "]";
        if (o.kind) {
            snprintf(b, sizeof b, ",\"violation\":{\"kind\":%d,\"job\":%ld,\"index\":%ld,\"from\":%ld,\"step\":%lu,", o.kind, j, i, from, step);
            s += b;
            s += "\"jobname\":" + jstr(j >= 0 && std::size_t(j) < jobs().size() ? jobs()[std::size_t(j)].name : "?") + ",\"message\":" + jstr(o.text) + "}";
        }
        s += "}\n";
        fwrite(s.data(), 1, s.size(), stdout);
        fflush(stdout);
    };
    std::vector<std::string> samples;
    std::vector<double> jt;
    double t0 = now();
    if (rj >= 0) {
        if (std::size_t(rj) >= jobs().size() || u64(ri) >= jobs()[std::size_t(rj)].size) { fprintf(stderr, "no such case\n"); return 2; }
        Outcome o = supervise([&] { run_range(u64(rj), u64(rfrom >= 0 ? rfrom : ri), u64(ri), rfrom >= 0 ? rstep : u64(1)); }, 60);
        dump(o, rj, ri, rfrom, rstep, samples, now() - t0, jt);
        return o.kind ? 1 : 0;
    }
    for (u64 j = 0; j < jobs().size(); ++j) {
        jt.push_back(0);
        if (!only.empty() && jobs()[j].name.find(only) == std::string::npos) continue;
        double t1 = now();
        u64 n = jobs()[j].size;
        // rotate the shard origin so that jobs smaller than the number of shards are spread over all shards
        u64 first = (shard + nshards - (j % nshards)) % nshards;
        if (first >= n) continue;
        u64 last = first + ((n - 1 - first) / nshards) * nshards;
        Outcome o = supervise([&] { run_range(j, first, last, nshards); }, double(jobs()[j].limit_s));
        jt.back() = now() - t1;
        if (samples.size() < 3 && sh().msg[0] == 0) { char b[256]; snprintf(b, sizeof b, "%s #%lu..#%lu step %lu", jobs()[j].name.c_str(), first, last, nshards); samples.push_back(b); }
        if (o.kind == 0) continue;
        u64 fi = sh().idx;
        // replay before report: alone, in a fresh process
        std::string first_msg = o.text;
        Outcome r = supervise([&] { run_range(j, fi, fi, 1); }, 60);
        if (r.kind) { dump(r, i64(j), i64(fi), -1, 1, samples, now() - t0, jt); return 1; }
        // history dependent? replay the same sequence of cases in a fresh process
        Outcome r2 = supervise([&] { run_range(j, first, fi, nshards); }, 60);
        if (r2.kind) {
            r2.text = "depends on the preceding cases of the same process (passes alone): " + r2.text;
            dump(r2, i64(j), i64(fi), i64(first), nshards, samples, now() - t0, jt); return 1;
        }
        // not reproducible: no trust in it; say so and go on with the remaining cases
        fprintf(stderr, "mc: irreproducible outcome in job %s index %lu: %s\n", jobs()[j].name.c_str(), fi, first_msg.c_str());
        if (fi + nshards <= last) {
            Outcome r3 = supervise([&] { run_range(j, fi + nshards, last, nshards); }, double(jobs()[j].limit_s));
            if (r3.kind) {
                u64 f2 = sh().idx;
                Outcome r4 = supervise([&] { run_range(j, f2, f2, 1); }, 60);
                if (r4.kind) { dump(r4, i64(j), i64(f2), -1, 1, samples, now() - t0, jt); return 1; }
            }
        }
    }
    dump({0, ""}, -1, -1, -1, 1, samples, now() - t0, jt);
    return 0;
}

// call f from the destructor of an object that is destroyed by the unwinding of another exception, and let what f throws
// reach the caller
template<typename F> inline void during_unwinding(F f) {
    std::exception_ptr thrown;
    struct Guard { F& f; std::exception_ptr& p; ~Guard() { try { f(); } catch (...) { p = std::current_exception(); } } };
    struct Other {};
    try { Guard g{f, thrown}; throw Other{}; } catch (const Other&) {}
    if (thrown) std::rethrow_exception(thrown);
}
} // namespace mc

#define MC_MAIN int main(int argc, char** argv) { return mc::main_impl(argc, argv); }
// each harness defines: namespace mc { void mc_register_jobs(); } through this macro
#define MC_JOBS namespace mc { void mc_register_jobs(); } MC_MAIN void mc::mc_register_jobs()

#endif
