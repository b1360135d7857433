// C10: work on already sorted input (every size) and adaptivity to the documented measures of presortedness.
#include "spaces.hpp"
#include "elem.hpp"
#include <cmath>
#include <cstdint>
#include <forward_list>
#include <list>
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif
#ifndef ADAPT
#define ADAPT 0      // 1 Runs, 2 Rem, 3 Enc, 4 Inv, 5 k interleaved monotone sequences
#endif
static auto s = SEXPR;
#ifndef BOUND_C
#define BOUND_C {1e9, 1e9}
#define BOUND_M {1e9, 1e9}
#define BOUND_I {1e9, 1e9}
#endif
// [0]: sorted input, in units of n + 16;  [1]: adaptive input, in units of n (1 + log2(1 + k)) + 64
static const double bound_c[2] = BOUND_C, bound_m[2] = BOUND_M, bound_i[2] = BOUND_I;
static double best[6];
static void judge(const char* what, int n, int which, double u) {
    World& w = W();
    double c = double(w.cmps) / u, p = double(w.projs) / u / 2, m = double(w.moves) / u, it = double(w.iterops) / u;
    if (p > c) c = p;
    static bool measure = std::getenv("MC_MEASURE");
    if (measure) {
        double* b = best + 3 * which;
        bool print = c > b[0] || m > b[1] || it > b[2];
        b[0] = std::max(b[0], c), b[1] = std::max(b[1], m), b[2] = std::max(b[2], it);
        if (print) fprintf(stderr, "MEASURE %s %.3f %.3f %.3f %.3f %.3f %.3f\n", SNAME, best[0], best[1], best[2], best[3], best[4], best[5]);
        return;
    }
    if (c > bound_c[which]) fail("%s: %lu comparisons, %lu projections for n = %d: %.2f x the unit, allowed %.2f", what, w.cmps, w.projs, n, c, bound_c[which]);
    if (m > bound_m[which]) fail("%s: %lu moves for n = %d: %.2f x the unit, allowed %.2f", what, w.moves, n, m, bound_m[which]);
    if (it > bound_i[which]) fail("%s: %lu iterator steps for n = %d: %.2f x the unit, allowed %.2f", what, w.iterops, n, it, bound_i[which]);
}
template<typename R> static void run(const Input& in, R r, const char* what, int which, double u) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.cmp_budget = generous_budget(in.n);
    r(a);
    judge(what, in.n, which, u);
    check_sorted_perm(what, a.d, in.n, in.k.data(), false, S_STABLE);
    note_behaviour(w.trace);
    count_eval(in.n > 1, w.cmps + w.projs + w.moves);
}
#if defined LISTS
template<typename L, typename F> static void list_case(const char* what, const Input& in, int which, double u, F f) {
    World& w = W();
    L l;
    for (int i = in.n; i-- > 0;) l.emplace_front(in[i], i);
    w.reset(); w.lo = nullptr; w.hi = reinterpret_cast<const char*>(~std::uintptr_t(0)); w.cmp_budget = generous_budget(in.n);
    f(l);
    judge(what, in.n, which, u);
    const E* prev = nullptr; int n = 0;
    for (auto& e : l) { if (prev && e.key < prev->key) fail("%s: not sorted", what); prev = &e; ++n; }
    if (n != in.n) fail("%s: %d elements", what, n);
    note_behaviour(w.trace);
    count_eval(in.n > 1, w.cmps + w.projs);
}
#endif
static std::vector<int> sizes, lsizes;
// sorted inputs: form 0 distinct, 1 all equal, 2 pairs, 3 plateaus of 10, 4 two values, 5 distinct with a jump
// quick_sorter has no presortedness detection: its linear best case is a collection of (almost only) equivalent elements
#ifndef FEW_ONLY
#define FEW_ONLY 0
#endif
static Space sorted_space(std::vector<int>* sz) { const u64 nf = FEW_ONLY ? 2 : 6; return {"sorted(" + std::to_string(sz->size()) + " sizes)", sz->size() * nf, [sz, nf](u64 i, Input& in) {
    int f = FEW_ONLY ? (i % nf ? 4 : 1) : int(i % nf), n = (*sz)[i / nf]; in.resize(n);
    for (int q = 0; q < n; ++q) in[q] = f == 0 ? q : f == 1 ? 3 : f == 2 ? q / 2 : f == 3 ? q / 10 : f == 4 ? q >= n / 3 : q * 3 + (q > n / 2 ? 1000000 : 0);
}, 0}; }
static int K;        // parameter of the last adaptive input
static Space adaptive_space(std::vector<int>* sz) { return {"adaptive(" + std::to_string(sz->size()) + " sizes)", sz->size() * 12 * 6, [sz](u64 i, Input& in) {
    int v = int(i % 6); i /= 6; int kk = int(i % 12); i /= 12; int n = (*sz)[i];
    in.resize(n);
#if ADAPT == 1     // k runs; v: layout of the values, and (odd) strictly descending runs
    K = kk + 1;
    for (int r = 0; r < K; ++r) {
        int b = int(long(n) * r / K), e = int(long(n) * (r + 1) / K), m = e - b;
        bool down = v == 1 || v == 3 || (v == 5 && r % 2);
        for (int q = 0; q < m; ++q) {
            int x = down ? m - 1 - q : q;
            in[b + q] = v <= 1 ? x * K + (r * 7) % K : v <= 3 ? x + (K - r) * n : x * 2 + r % 2;
        }
    }
#elif ADAPT == 2   // Rem: k elements out of place
    K = kk + 1;
    if (K > n / 10) K = n / 10;
    for (int q = 0; q < n; ++q) in[q] = 2 * q;
    for (int r = 0; r < K; ++r) { int p = int((long(n) * (2 * r + 1)) / (2 * K)); in[p] = v == 0 ? 1 : v == 1 ? 2 * n - 1 : v == 2 ? (r * 37) % n : v == 3 ? 2 * (n - p) - 1 : v == 4 ? 2 * ((p + n / 2) % n) - 1 : (r & 1 ? -r : 2 * n + r); }
#elif ADAPT == 3   // Enc: k encroaching lists
    K = kk + 1;
    for (int q = 0; q < n; ++q) { int l = v % 2 ? q % K : int(long(q) * K / n); int t = v % 2 ? q / K : q - int(long(n) * l / K); int lo = l * n, hi = (4 * K - l) * n; in[q] = (v / 2 == 0 ? t & 1 : v / 2 == 1 ? 1 : (t / 3) & 1) ? hi + t : lo - t; }
#elif ADAPT == 4   // Inv = about k n
    K = kk;
    for (int q = 0; q < n; ++q) in[q] = q;
    for (int b = 0; b + kk + 1 < n; b += kk + 1) { if (v % 2) std::reverse(in.k.begin() + b, in.k.begin() + b + kk + 1); else std::rotate(in.k.begin() + b, in.k.begin() + b + v / 2 % (kk + 1), in.k.begin() + b + kk + 1); }
#else              // k interleaved monotone sequences
    K = kk + 1;
    for (int q = 0; q < n; ++q) { int l = q % K, t = q / K; bool down = v == 1 || (v == 2 && l % 2) || v == 5; int x = down ? n - t : t; in[q] = v <= 2 ? x * K + l : v <= 4 ? x + l * n * 2 : x + (K - l) * n * 2; }
#endif
}, 0}; }
MC_JOBS {
    bool t = thorough();
    for (int n = 0; n <= (t ? 6000 : 1500); ++n) sizes.push_back(n);
    for (int n : {1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 6000, 10000, 16384, 30000}) sizes.push_back(n);
    auto unit = [](int n) { return double(n) + 16; };
#if defined LISTS
    auto both = [](const Input& in, const char* what, int which, double u, auto f) { list_case<std::list<E>>(what, in, which, u, f); list_case<std::forward_list<E>>(what, in, which, u, f); };
    add_space_jobs("lists", {sorted_space(&sizes)}, [unit, both](const Input& in) { both(in, "sorted list", 0, unit(in.n), [](auto& l) { s(l, Less{}); }); }, 60);
    static std::vector<int> few{2, 10, 33, 64, 100, 129, 500, 1000, 4000};
    for (int n = 2; n <= 300; ++n) few.push_back(n);
    add_space_jobs("lists-proj", {sorted_space(&few)}, [unit, both](const Input& in) { both(in, "sorted list, projection", 0, unit(in.n), [](auto& l) { s(l, KeyLess<false>{}, KeyOf{}); }); }, 60);
#if ADAPT
    lsizes = t ? std::vector<int>{200, 300, 500, 800, 1000, 1500, 2000, 3000, 5000, 10000, 30000, 70000} : std::vector<int>{200, 500, 1000, 3000, 10000};
    add_space_jobs("lists-adaptive", {adaptive_space(&lsizes)}, [both](const Input& in) {
        both(in, "presorted list", 1, ADAPT == 4 ? double(in.n) * (1 + K) + 64 : in.n * (1 + std::log2(1 + K)) + 64, [](auto& l) { s(l, Less{}); });
    }, 60);
#endif
#else
    add_space_jobs("comp", {sorted_space(&sizes)}, [unit](const Input& in) { run(in, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }, "sorted input", 0, unit(in.n)); }, 60);
    static std::vector<int> few{2, 10, 33, 64, 100, 129, 500, 1000, 4000};
    for (int n = 2; n <= 300; ++n) few.push_back(n);
    add_space_jobs("proj", {sorted_space(&few)}, [unit](const Input& in) { run(in, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<false>{}, KeyOf{}); }, "sorted input, projection", 0, unit(in.n)); }, 60);
#if ADAPT
    lsizes = t ? std::vector<int>{200, 300, 500, 800, 1000, 1500, 2000, 3000, 5000, 10000, 30000, 70000} : std::vector<int>{200, 500, 1000, 3000, 10000};
    add_space_jobs("adaptive", {adaptive_space(&lsizes)}, [](const Input& in) {
        run(in, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }, "presorted input", 1, ADAPT == 4 ? double(in.n) * (1 + K) + 64 : ADAPT == 2 ? in.n + K * std::log2(in.n) * 2 + 64 : in.n * (1 + std::log2(1 + K)) + 64);
    }, 60);
#endif
#endif
}
