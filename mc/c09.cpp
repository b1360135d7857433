// C09: comparisons, projections, moves (and iterator steps) against the documented worst-case complexity, on structured
// spaces of growing size and against McIlroy's adversary, which builds the worst input during the sort.
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <cmath>
#include <forward_list>
#include <list>
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif
static auto s = SEXPR;
// allowed multiples of the unit, for n < 512 (small-size cut-offs dominate) and for larger n
#ifndef BOUND_C
#define BOUND_C {1e9, 1e9}
#define BOUND_M {1e9, 1e9}
#define BOUND_I {1e9, 1e9}
#endif
static const double bound_c[2] = BOUND_C, bound_m[2] = BOUND_M, bound_i[2] = BOUND_I;
static double unit(int n, int worst) {
    double l = std::log2(double(n < 4 ? 4 : n));
    switch (worst) {
        case 0: return n * l;
        case 1: return n * l * l;
        case 2: return double(n) * n / 2 + n;
        default: return n * l * std::log2(l);
    }
}
static double best[6];
static void judge(const char* what, int n, int worst, double fac, const Input* in = nullptr) {
    World& w = W();
    double u = unit(n, worst) + 16;
    double c = double(w.cmps) / u, p = double(w.projs) / u, m = double(w.moves) / u, it = double(w.iterops) / u;
    static bool measure = std::getenv("MC_MEASURE");
    if (measure && n >= 64 && fac == 1) {
        bool print = false;
        double* b = best + (n < 512 ? 0 : 3);
        if (c > b[0]) b[0] = c, print = true;
        if (m > b[1]) b[1] = m, print = true;
        if (it > b[2]) b[2] = it, print = true;
        if (print) fprintf(stderr, "MEASURE %s %.3f %.3f %.3f %.3f %.3f %.3f\n", SNAME, best[0], best[1], best[2], best[3], best[4], best[5]);
        return;
    }
    const double BC = bound_c[n >= 512], BM = bound_m[n >= 512], BI = bound_i[n >= 512];
    if (c > BC * fac || p > 2 * BC * fac) fail("%s: %lu comparisons and %lu projections for n = %d exceed the documented worst case (%.2f x the bound's unit, allowed %.2f)", what, w.cmps, w.projs, n, c > p / 2 ? c : p / 2, double(BC * fac));
    if (m > BM * fac) fail("%s: %lu moves for n = %d exceed the documented worst case (%.2f x the bound's unit, allowed %.2f)", what, w.moves, n, m, double(BM * fac));
    if (it > BI * fac) fail("%s: %lu iterator steps for n = %d exceed the documented worst case (%.2f x the bound's unit, allowed %.2f)", what, w.iterops, n, it, double(BI * fac));
}
static u64 hard(int n) { return u64(60.0 * (unit(n, S_WORST) + 64) * (S_WORST == 2 ? 1 : 20)); }
template<typename R> static void run(const Input& in, R r, const char* what) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.cmp_budget = hard(in.n);
    r(a);
    judge(what, in.n, S_WORST, 1);
    check_sorted_perm(what, a.d, in.n, in.k.data(), false, S_STABLE);
    note_behaviour(w.trace);
    count_eval(true, w.cmps + w.projs + w.moves);
}
#if defined LISTS
// the dedicated algorithms of container_aware_adapter: comparisons and projections only, the elements do not move
template<typename L, typename F> static void list_case(const char* what, const Input& in, F f) {
    World& w = W();
    L l;
    for (int i = in.n; i-- > 0;) l.emplace_front(in[i], i);
    w.reset(); w.lo = nullptr; w.hi = reinterpret_cast<const char*>(~std::uintptr_t(0)); w.cmp_budget = hard(in.n);
    f(l);
    judge(what, in.n, S_WORST, 1);
    const E* prev = nullptr; int n = 0;
    for (auto& e : l) { if (prev && e.key < prev->key) fail("%s: not sorted", what); prev = &e; ++n; }
    if (n != in.n) fail("%s: %d elements", what, n);
    note_behaviour(w.trace);
    count_eval(true, w.cmps + w.projs);
}
#endif
// McIlroy, A killer adversary for quicksort
static std::vector<int> val; static int gas, nsolid, candidate;
struct Adversary {
    bool operator()(const E& a, const E& b) const {
        World& w = W();
        a.check_alive("comparator"); b.check_alive("comparator");
        ++w.cmps;
        if (w.cmps > w.cmp_budget) fail("McIlroy adversary: more than %lu comparisons", w.cmp_budget);
        int x = a.id, y = b.id;
        if (val[std::size_t(x)] == gas && val[std::size_t(y)] == gas) { if (x == candidate) val[std::size_t(x)] = nsolid++; else val[std::size_t(y)] = nsolid++; }
        if (val[std::size_t(x)] == gas) candidate = x;
        else if (val[std::size_t(y)] == gas) candidate = y;
        return val[std::size_t(x)] < val[std::size_t(y)];
    }
};
#if defined LISTS
template<typename L> static void list_adversary(const char* what, int n) {
    L l;
    for (int i = n; i-- > 0;) l.emplace_front(0, i);
    desc().keys = nullptr; desc().text = "adversary, n = " + std::to_string(n);
    World& w = W();
    w.reset(); w.lo = nullptr; w.hi = reinterpret_cast<const char*>(~std::uintptr_t(0)); w.cmp_budget = hard(n);
    val.assign(std::size_t(n), n); gas = n; nsolid = 0; candidate = 0;
    s(l, Adversary{});
    judge(what, n, S_WORST, 1);
    int prev = -1;
    for (auto& e : l) { if (val[std::size_t(e.id)] < prev) fail("adversary: not sorted"); prev = val[std::size_t(e.id)]; }
    count_eval(true, w.cmps);
    desc().text.clear();
}
#endif
static void adversary(int n) {
    static Arr<E> a; static Input in;
    in.resize(n); for (int i = 0; i < n; ++i) in[i] = 0;
    desc().keys = nullptr; desc().text = "adversary, n = " + std::to_string(n);
    a.fill(in.k, n);
    World& w = W();
    w.reset(); a.arm(); w.cmp_budget = hard(n);
    val.assign(std::size_t(n), n); gas = n; nsolid = 0; candidate = 0;
    s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Adversary{});
    judge("McIlroy adversary", n, S_WORST, 1);
    for (int i = 1; i < n; ++i) if (val[std::size_t(a.d[i].id)] < val[std::size_t(a.d[i - 1].id)]) fail("adversary: not sorted at %d", i);
    count_eval(true, w.cmps + w.moves);
    // the input it built, replayed with an ordinary comparator
    for (int i = 0; i < n; ++i) in[i] = val[std::size_t(i)];
    desc().keys = in.k.data(); desc().n = n;
    run(in, [](Arr<E>& b) { s(b.begin<IT_CAT>(), b.end<IT_CAT>(), Less{}); }, "input built by the adversary");
    desc().text.clear();
}
// median-of-3 killer (Musser) and organ pipes in blocks
static Space musser(int n) { return {"musser(n=" + std::to_string(n) + ")", 4, [n](u64 v, Input& in) {
    in.resize(n); int k = n / 2;
    for (int i = 1; i <= k; ++i) { in[2 * 0 + i - 1] = i % 2 ? i : k + i - 1; in[k + i - 1] = 2 * i; }
    if (n % 2) in[n - 1] = n + 1;
    if (v & 1) for (int i = 0; i < n; ++i) in[i] = -in[i];
    if (v & 2) std::reverse(in.k.begin(), in.k.begin() + n);
}, n}; }
MC_JOBS {
    bool t = thorough();
    int cap = S_WORST == 2 ? (t ? 3000 : 1100) : t ? 70000 : 9000;
    auto cmp = [](const Input& in) { run(in, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }, "comparator"); };
    auto prj = [](const Input& in) { run(in, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<false>{}, KeyOf{}); }, "comparator on projections"); };
    std::vector<Space> v;
    for (int n : {16, 24, 33, 64, 65, 100, 128, 200, 256, 257, 400, 512, 1000, 1024, 1500, 2048, 3000, 4096, 6000, 8191, 16384, 30000, 65536}) if (n <= cap) v.push_back(shapes(n)), v.push_back(musser(n));
    for (int n : {64, 250, 1000}) if (n <= cap) v.push_back(shape_words(n, 2));
    append(v, {linear_mod(127, 127), linear_mod_few(521, 521, 9), inversive_mod(521, 521, 30), inversive_mod(521, 521, 30, 25), shuffles(300), rotations(400, 1, 13), rotations(400, 7, 13), quadratic_mod(257, 257, 8, 20), deviations(250, 49)});
    if (cap >= 2048) append(v, {inversive_mod(2053, 2053, 20), inversive_mod(2053, 2053, 20, 45), inversive_mod(8191, 8191, 4), inversive_mod(8191, 8191, 4, 90), shuffles(1200)});
    if (t) append(v, {shape_words(4000, 2), shape_words(300, 3), shape_words(1000, 3)});
    static std::vector<int> sz;
    for (int n = 16; n <= cap; n = n < 200 ? n + 7 : n * 5 / 4) sz.push_back(n);
    const std::vector<Space> pv{shapes(64), shapes(300), shapes(1000), shape_words(200, 1), inversive_mod(521, 521, 10), musser(500)};
#if defined LISTS
    (void)cmp; (void)prj; (void)adversary;
    add_space_jobs("list", v, [](const Input& in) { list_case<std::list<E>>("std::list", in, [](auto& l) { s(l, Less{}); }); }, 60);
    add_space_jobs("forward_list", v, [](const Input& in) { list_case<std::forward_list<E>>("std::forward_list", in, [](auto& l) { s(l, Less{}); }); }, 60);
    add_space_jobs("list-proj", pv, [](const Input& in) { list_case<std::list<E>>("std::list, projection", in, [](auto& l) { s(l, KeyLess<false>{}, KeyOf{}); }); }, 60);
    add_space_jobs("forward_list-proj", pv, [](const Input& in) { list_case<std::forward_list<E>>("std::forward_list, projection", in, [](auto& l) { s(l, KeyLess<false>{}, KeyOf{}); }); }, 60);
    add_job("list-adversary", sz.size(), [](u64 i) { list_adversary<std::list<E>>("std::list, McIlroy adversary", sz[i]); list_adversary<std::forward_list<E>>("std::forward_list, McIlroy adversary", sz[i]); }, 60);
#else
    add_space_jobs("comp", v, cmp, 60);
    add_space_jobs("proj", pv, prj, 60);
    add_job("adversary", sz.size(), [](u64 i) { adversary(sz[i]); }, 60);
#if S_SAFE
    // documented to work without additional memory: at worst an additional logarithmic factor
    add_space_jobs("nomem", {shapes(64), shapes(257), shapes(1000), shape_words(250, 2), inversive_mod(521, 521, 10), inversive_mod(521, 521, 10, 20)}, [](const Input& in) {
        static Arr<E> a; World& w = W();
        a.fill(in.k, in.n); w.reset(); a.arm(); w.cmp_budget = 20 * hard(in.n);
        H() = Heap{}; H().armed = true; H().fail_from = 1;
        s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{});
        H().armed = false;
        judge("without additional memory", in.n, S_WORST == 0 ? 1 : S_WORST, S_WORST == 2 ? 1 : 2);
        check_sorted_perm("without additional memory", a.d, in.n, in.k.data(), false, S_STABLE);
        count_eval(true, w.cmps);
    }, 60);
#endif
#endif
}
