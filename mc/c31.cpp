// C31: comparisons, projections, iterator steps and additional memory of the probes against their documented complexity.
// PS lists P(name, time, memory, category): time 0 n, 1 n log n, 2 n^2; memory 0 constant, 3 n.
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <cpp-sort/probes.h>
using namespace mc;
namespace probe = cppsort::probe;
static std::uintptr_t base, low;
static __attribute__((noinline)) void mark() { volatile char c = 0; auto p = reinterpret_cast<std::uintptr_t>(&c); if (p < low) low = p; }
static double unit(int n, int cls) { double l = std::log2(double(n < 4 ? 4 : n)); return cls == 0 ? n : cls == 1 ? n * l : double(n) * n; }
struct Bound { double c, i, m; };
template<typename R> static __attribute__((noinline)) void one(const char* name, const char* form, const Input& in, int time, int mem, Bound b, bool nomem, R r) {
    static Arr<Elem> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = 1000 + 100ull * u64(in.n) * u64(in.n);
    volatile char c = 0; base = low = reinterpret_cast<std::uintptr_t>(&c);
    w.point = mark;
    H() = Heap{}; H().armed = true; if (nomem) H().fail_from = 1;
    r(a);
    H().armed = false; w.point = nullptr;
    double u = unit(in.n, time) + 16, mu = (mem == 0 ? 1 : double(in.n)) + (mem == 0 ? 0 : 32);
    double cm = double(w.cmps) / u, pr = double(w.projs) / u / 2, it = double(w.iterops) / u, by = (double(H().peak) + double(base - low)) / mu;
    if (std::getenv("MC_MEASURE")) {
        static std::map<std::string, Bound> best; Bound& x = best[std::string(name) + " " + form];
        if (in.n >= 32 && (cm > x.c || it > x.i || by > x.m)) {
            x.c = std::max(x.c, cm), x.i = std::max(x.i, it), x.m = std::max(x.m, by);
            fprintf(stderr, "MEASURE %s/%s %.3f %.3f %.3f\n", name, form, x.c, x.i, x.m);
        }
    } else {
        if (cm > b.c * 2 + .5 || pr > b.c * 2 + 1) fail("%s(%s): %lu comparisons and %lu projections for n = %d: %.2f x the documented complexity, allowed %.2f", name, form, w.cmps, w.projs, in.n, cm > pr ? cm : pr, b.c * 2 + .5);
        if (it > b.i * 2 + 2) fail("%s(%s): %lu iterator steps for n = %d: %.2f x the documented complexity, allowed %.2f", name, form, w.iterops, in.n, it, b.i * 2 + 2);
        if (by > b.m * 2.5 + (mem == 0 ? 1024 : 64)) fail("%s(%s): %ld bytes of heap and %ld bytes of stack for n = %d: documented memory: %s", name, form, long(H().peak), long(base - low), in.n, mem == 0 ? "constant" : "n");
    }
    note_behaviour(w.trace);
    count_eval(true, w.cmps + w.iterops);
}
template<typename PF> static void add(const char* name, const PF& p, int time, int mem, int cat, int slow_time, Bound fwd, Bound bidi, Bound ra, Bound slow) {
    bool t = thorough();
    std::vector<Space> v;
    for (int n : {1, 2, 3, 5, 8, 16, 32, 33, 64, 65, 100, 200, 257, 512, 1000, 1024, 2048, 4096, 6000, 16384, 65536}) if (n <= (t ? 70000 : 6000)) v.push_back(shapes(n));
    append(v, {shape_words(64, 2), shape_words(250, 2), linear_mod(127, 127), linear_mod_few(521, 521, 9), inversive_mod(521, 521, 30), inversive_mod(521, 521, 30, 25), shuffles(300), rotations(400, 1, 13), quadratic_mod(257, 257, 8, 20), deviations(250, 49), inversive_mod(2053, 2053, 20), inversive_mod(2053, 2053, 20, 45), inversive_mod(8191, 8191, 2)});
    std::string n = name;
    auto go = [=](auto c, const char* form, Bound b, int tm, int mm, bool nomem, const Input& in) {
        constexpr int Cat = decltype(c)::value;
        one(name, form, in, tm, mm, b, nomem, [&](Arr<Elem>& a) { if (in.n % 2) p(a.template begin<Cat>(), a.template end<Cat>(), Less{}); else p(a.template begin<Cat>(), a.template end<Cat>(), KeyLess<false>{}, KeyOf{}); });
    };
    using C0 = std::integral_constant<int, 0>; using C1 = std::integral_constant<int, 1>; using C2 = std::integral_constant<int, 2>;
    // with a category below the one of the faster algorithm the slower row of the documentation applies
    bool below = cat > 0;
    add_space_jobs(n + "/forward", v, [=](const Input& in) { go(C0{}, "forward", fwd, below ? slow_time : time, below ? 0 : mem, false, in); }, 120);
    add_space_jobs(n + "/bidirectional", v, [=](const Input& in) { go(C1{}, "bidirectional", bidi, time, mem, false, in); }, 120);
    add_space_jobs(n + "/random access", v, [=](const Input& in) { go(C2{}, "random access", ra, time, mem, false, in); }, 120);
    if (slow_time >= 0) {
        std::vector<Space> f; for (const auto& s : v) if (s.maxn <= (slow_time == 2 ? 1100 : 70000)) f.push_back(s);
        add_space_jobs(n + "/nomem", f, [=](const Input& in) { go(C1{}, "without memory", slow, slow_time, 0, true, in); }, 120);
    }
}
MC_JOBS {
#define P(name, time, mem, cat, slow_time, ...) add(#name, probe::name, time, mem, cat, slow_time, __VA_ARGS__);
    PS
}
