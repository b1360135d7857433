// C32: additional memory (heap bytes at their peak plus the deepest stack seen by any callback) against the documented
// class MEM: 0 constant, 1 log n, 2 log^2 n, 3 n, 4 sqrt n. BOUND is the allowed multiple of the unit for n < 512 and for larger n.
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <cmath>
#include <forward_list>
#include <list>
#include <cstdint>
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif
#ifndef BOUND
#define BOUND {1e9, 1e9}
#define NOMEM_BOUND {1e9, 1e9}
#endif
static const double bound[2] = BOUND;
static auto s = SEXPR;
static std::uintptr_t base, low;
static __attribute__((noinline)) void mark() { volatile char c = 0; auto p = reinterpret_cast<std::uintptr_t>(&c); if (p < low) low = p; }
static double unit(int n, int cls) {
    double l = std::log2(double(n < 4 ? 4 : n));
    return cls == 0 ? 1 : cls == 1 ? l : cls == 2 ? l * l : cls == 4 ? std::sqrt(double(n)) : n;
}
static void judge(const char* what, int n, int cls, const double* b, int row) {
    double total = double(H().peak) + double(base - low), u = unit(n, cls);
    static double best[4];
    static bool measure = std::getenv("MC_MEASURE");
    if (measure) {
        double& x = best[2 * row + (n >= 512)];
        if (n >= 48 && total / u > x) { x = total / u; fprintf(stderr, "MEASURE %s %.1f %.1f %.1f %.1f\n", SNAME, best[0], best[1], best[2], best[3]); }
        return;
    }
    static const char* names[] = {"constant", "log n", "log^2 n", "n", "sqrt n"};
    double allowed = b[n >= 512] * (n < 48 ? unit(48, cls) : u) + 1024;
    if (total > allowed) fail("%s: %ld bytes of heap and %ld bytes of stack for n = %d, documented: %s (allowed here: %.0f bytes)", what, long(H().peak), long(base - low), n, names[cls], allowed);
}
template<typename R> static __attribute__((noinline)) void measured(R r, bool nomem) {
    volatile char c = 0; base = low = reinterpret_cast<std::uintptr_t>(&c);
    World& w = W();
    w.point = mark;
    H() = Heap{}; H().armed = true; if (nomem) H().fail_from = 1;
    r();
    H().armed = false; w.point = nullptr;
    if (H().outstanding) fail("%ld heap blocks are still allocated after the sort", long(H().outstanding));
}
template<typename R> static void run(const Input& in, const char* what, int cls, const double* b, bool nomem, R r) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
    measured([&] { r(a); }, nomem);
    judge(what, in.n, cls, b, nomem);
    check_sorted_perm(what, a.d, in.n, in.k.data(), false, S_STABLE);
    note_behaviour(w.trace);
    count_eval(true, w.cmps + w.moves);
}
#if defined LISTS
template<typename L> static void list_case(const char* what, const Input& in) {
    World& w = W();
    L l;
    for (int i = in.n; i-- > 0;) l.emplace_front(in[i], i);
    w.reset(); w.lo = nullptr; w.hi = reinterpret_cast<const char*>(~std::uintptr_t(0)); w.cmp_budget = generous_budget(in.n);
    measured([&] { s(l, Less{}); }, false);
    judge(what, in.n, MEM, bound, 0);
    const E* prev = nullptr; int n = 0;
    for (auto& e : l) { if (prev && e.key < prev->key) fail("%s: not sorted", what); prev = &e; ++n; }
    if (n != in.n) fail("%s: %d elements", what, n);
    count_eval(true, w.cmps);
}
#endif
// the comparator builds the worst input during the sort (McIlroy)
static std::vector<int> val; static int gas, nsolid, candidate;
struct Adversary {
    bool operator()(const E& a, const E& b) const {
        mark();
        World& w = W();
        if (++w.cmps > w.cmp_budget) fail("McIlroy adversary: more than %lu comparisons", w.cmp_budget);
        int x = a.id, y = b.id;
        if (val[std::size_t(x)] == gas && val[std::size_t(y)] == gas) { if (x == candidate) val[std::size_t(x)] = nsolid++; else val[std::size_t(y)] = nsolid++; }
        if (val[std::size_t(x)] == gas) candidate = x;
        else if (val[std::size_t(y)] == gas) candidate = y;
        return val[std::size_t(x)] < val[std::size_t(y)];
    }
};
MC_JOBS {
    bool t = thorough();
    int cap = SLOW ? (t ? 3000 : 1100) : t ? 70000 : 9000;
    std::vector<Space> v;
    for (int n : {1, 2, 3, 5, 8, 16, 24, 33, 64, 65, 100, 128, 200, 256, 257, 400, 512, 1000, 1024, 1500, 2048, 3000, 4096, 6000, 8191, 16384, 30000, 65536}) if (n <= cap) v.push_back(shapes(n));
    for (int n : {64, 250, 1000}) v.push_back(shape_words(n, n == 1000 ? 1 : 2));
    append(v, {linear_mod(127, 127), linear_mod_few(521, 521, 9), inversive_mod(521, 521, 30), inversive_mod(521, 521, 30, 25), shuffles(300), rotations(400, 1, 13), quadratic_mod(257, 257, 8, 20), deviations(250, 49)});
    if (cap >= 2048) append(v, {inversive_mod(2053, 2053, 20), inversive_mod(2053, 2053, 20, 45), inversive_mod(8191, 8191, 4), inversive_mod(8191, 8191, 4, 90), shuffles(1200)});
    if (t) append(v, {shape_words(1000, 2), shape_words(4000, 2), shape_words(300, 3)});
#if defined LISTS
    add_space_jobs("list", v, [](const Input& in) { list_case<std::list<E>>("std::list", in); }, 60);
    add_space_jobs("forward_list", v, [](const Input& in) { list_case<std::forward_list<E>>("std::forward_list", in); }, 60);
#else
    add_space_jobs("comp", v, [](const Input& in) { run(in, "comparator", MEM, bound, false, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }); }, 60);
    add_space_jobs("proj", {shapes(64), shapes(300), shapes(1000), shape_words(200, 1), inversive_mod(521, 521, 10)}, [](const Input& in) { run(in, "comparator on projections", MEM, bound, false, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<false>{}, KeyOf{}); }); }, 60);
    static std::vector<int> sz;
    for (int n = 16; n <= cap; n = n < 200 ? n + 7 : n * 5 / 4) sz.push_back(n);
    add_job("adversary", sz.size(), [](u64 i) {
        static Arr<E> a; static Input in;
        int n = sz[i]; in.resize(n); for (int j = 0; j < n; ++j) in[j] = 0;
        desc().keys = nullptr; desc().text = "adversary, n = " + std::to_string(n);
        a.fill(in.k, n); World& w = W();
        w.reset(); a.arm(); w.cmp_budget = generous_budget(n);
        val.assign(std::size_t(n), n); gas = n; nsolid = 0; candidate = 0;
        measured([&] { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Adversary{}); }, false);
        judge("McIlroy adversary", n, MEM, bound, 0);
        for (int j = 1; j < n; ++j) if (val[std::size_t(a.d[j].id)] < val[std::size_t(a.d[j - 1].id)]) fail("adversary: not sorted at %d", j);
        count_eval(true, w.cmps + w.moves);
        desc().text.clear();
    }, 60);
#if S_SAFE
    static const double nb[2] = NOMEM_BOUND;
    add_space_jobs("nomem", {shapes(64), shapes(257), shapes(1000), shape_words(250, 2), inversive_mod(521, 521, 10), inversive_mod(521, 521, 10, 20), shapes(cap)}, [](const Input& in) { run(in, "without heap memory", NOMEM, nb, true, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }); }, 60);
#endif
#endif
}
