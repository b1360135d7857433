// C07: equal inputs give the same comparisons, projections, moves and result, whatever the environment:
// heap content, stack content, what was sorted before, placement of the elements, sorter object used.
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <alloca.h>
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif
using Sorter = decltype(SEXPR);
static Sorter s = SEXPR;
struct Obs { u64 trace, mtrace, cmps, projs, moves, allocs, result; };
static bool same(const Obs& a, const Obs& b) {
    return a.trace == b.trace && a.mtrace == b.mtrace && a.cmps == b.cmps && a.projs == b.projs && a.moves == b.moves && a.result == b.result && a.allocs == b.allocs;
}
__attribute__((noinline)) static void paint_stack(int byte) {
    char* p = static_cast<char*>(alloca(24 * 1024));
    std::memset(p, byte, 24 * 1024);
    asm volatile("" : : "r"(p) : "memory");
}
template<typename R> static Obs run(const Input& in, Arr<E>& a, int fill, int stack, R r) {
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
    H() = Heap{}; H().armed = true; H().fill = fill;
    paint_stack(stack);
    r(a);
    H().armed = false;
    Obs o{w.trace, w.mtrace, w.cmps, w.projs, w.moves, H().count, 0};
    for (int i = 0; i < in.n; ++i) o.result = mix(o.result ^ u64(u32(a.d[i].id)));
    count_eval(true, w.any);
    return o;
}
template<typename R> static void explore(const Input& in, R r) {
    static Arr<E> a, b, other;
    static std::vector<void*> pads;
    Obs ref = run(in, a, 0xA5, 0xA5, r);
    note_behaviour(ref.trace);
    auto expect = [&](const Obs& o, const char* what) {
        if (!same(ref, o))
            fail("the sort did not repeat itself %s: %lu/%lu comparisons, %lu/%lu projections, %lu/%lu moves, %lu/%lu allocations, %s result", what, ref.cmps, o.cmps, ref.projs, o.projs, ref.moves, o.moves, ref.allocs, o.allocs, ref.result == o.result ? "same" : "different");
    };
    expect(run(in, a, 0x00, 0xFF, r), "when called again (fresh heap memory zeroed)");
    expect(run(in, a, 0xFF, 0x00, r), "when called again (fresh heap memory set to 0xFF)");
    expect(run(in, b, 0x01, 0x7F, r), "on another array");
    // another placement: reallocate both arrays, one element to the right
    {
        static char* raw = nullptr; static int cap = 0;
        if (cap < in.n) { std::free(raw); cap = in.n * 2 + 8; raw = static_cast<char*>(std::malloc(sizeof(E) * std::size_t(cap + 2) + 64)); }
        Arr<E> c; c.cap = cap; c.d = reinterpret_cast<E*>(raw + 64 - (reinterpret_cast<std::uintptr_t>(raw) % 16) - 8 * (1 + in.n % 3));
        Obs o = run(in, c, 0xA5, 0x3C, r);
        c.clear(); c.d = nullptr;
        expect(o, "with the elements at another address");
    }
    // other inputs before it
    static Input h;
    for (int k = 0; k < 3; ++k) {
        int m = k == 0 ? in.n + 5 : k == 1 ? 40 : 3;
        h.resize(m);
        for (int i = 0; i < m; ++i) h[i] = k == 0 ? in.n - i / 2 : k == 1 ? (i * 17) % 23 : -i;
        run(h, other, 0x5A, k, r);
    }
    expect(run(in, a, 0xA5, 0xA5, r), "after other inputs were sorted");
    static std::vector<int> ints;
    ints.assign(in.k.begin(), in.k.begin() + in.n);
    s(ints);
    Sorter s2 = SEXPR;
    (void)s2;
    expect(run(in, a, 0x77, 0x11, r), "after a sort of plain integers");
}
MC_JOBS {
    bool t = thorough();
    std::vector<Space> v = t ? small_spaces(1) : std::vector<Space>{};
    if (!t) { for (int n = 2; n <= 5; ++n) v.push_back(weak_orders(n)); v.push_back(words(2, 9)); }
    append(v, medium_spaces(t ? 1 : 0));
    for (int n = 8; n <= 66; n += t ? 1 : 5) v.push_back(shapes(n));
    append(v, {shapes(100), shapes(129), shapes(150), shapes(260), shapes(300), shapes(520), shapes(1030), deviations(25, 6), deviations(65, 20),
               shape_words(20, 2), shape_words(64, 2), shape_words(150, 1), inversive_mod(61, 61, 30), inversive_mod(131, 131, 30), inversive_mod(131, 131, 30, 9), inversive_mod(521, 521, 10), inversive_mod(521, 521, 10, 6),
               inversive_mod(1031, 1031, 6), inversive_mod(1031, 1031, 6, 40), inversive_mod(2053, 2053, 2, 24), inversive_mod(4099, 4099, 1)});
    add_space_jobs("comp", v, [](const Input& in) { explore(in, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }); });
    add_space_jobs("proj", {weak_orders(5), shapes(20), shapes(33), shapes(64), shapes(150), shapes(600), shape_words(35, 2), inversive_mod(127, 127, 30), inversive_mod(521, 521, 8, 6)},
                   [](const Input& in) { explore(in, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<true>{}, KeyOf{}); }); });
}
