// C03: stability. SEXPR on IT_CAT iterators; S_STABLE: documented stable; is_stable must not lie.
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <cpp-sort/sorter_traits.h>
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif
using Iter = It<E, IT_CAT>;

static bool g_stable;
template<typename R> static void run(const Input& in, bool desc_order, R r, const char* what, bool stable) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.cmp_budget = generous_budget(in.n);
    r(a);
    check_sorted_perm(what, a.d, in.n, in.k.data(), desc_order, stable);
    bool ties = false;
    { static std::vector<int> c; c.assign(in.k.begin(), in.k.begin() + in.n); std::sort(c.begin(), c.end()); ties = std::adjacent_find(c.begin(), c.end()) != c.end(); }
    note_behaviour(w.trace + (desc_order ? 0 : 1));
    count_eval(ties, w.cmps + w.projs);
}
// the same with little memory: the fallback algorithms of the sorter have to be stable as well
template<typename R> static void run_limited(const Input& in, R r) {
    static Arr<E> a;
    World& w = W();
    for (int p = 0; p < 6; ++p) {
        int blocks[] = {0, 1, 3, in.n / 9, in.n / 4, in.n / 2 - 1};
        a.fill(in.k, in.n);
        w.reset(); a.arm();
        w.cmp_budget = generous_budget(in.n);
        bool thrown = false;
        H() = Heap{}; H().armed = true;
        H().max_size = u64(blocks[p]) * sizeof(E);
        try { r(a); } catch (const std::bad_alloc&) { thrown = true; }
        H().armed = false;
        if (!thrown) check_sorted_perm("limited memory", a.d, in.n, in.k.data(), false, true);
        note_behaviour(w.trace + u64(thrown));
        count_eval(!thrown && H().failed, w.cmps);
        if (!H().failed || thrown) break;
    }
}
static std::vector<Space> tie_spaces(int e) {
    std::vector<Space> v;
    for (int n = 2; n <= (e == 3 ? 8 : 7); ++n) v.push_back(weak_orders(n));
    for (int n = 8; n <= (e == 3 ? 16 : 12); ++n) v.push_back(words(2, n));
    v.push_back(words(3, e == 3 ? 10 : 8));
    v.push_back(switch_words(2, 33, 3)), v.push_back(switch_words(3, 25, 3)), v.push_back(switch_words(2, 66, 2)), v.push_back(switch_words(3, 40, 2));
    v.push_back(switch_words(2, 130, 2));
    append(v, medium_spaces(1));
    for (int k : {2, 3, 5}) v.push_back(linear_mod_few(67, 67, k)), v.push_back(linear_mod_few(131, 131, k)), v.push_back(inversive_mod(67, 60, 67, k)), v.push_back(inversive_mod(131, 128, 131, k));
    for (int k : {2, 4, 9, 20, 60}) v.push_back(inversive_mod(257, 250, 60, k)), v.push_back(inversive_mod(521, 519, 30, k)), v.push_back(inversive_mod(1031, 1031, 30, k));
    for (int k : {3, 17, 45, 90, 300}) v.push_back(inversive_mod(2053, 2050, 12, k));
    for (int k : {10, 60, 130, 500}) v.push_back(inversive_mod(4099, 4097, 6, k));
    append(v, large_spaces(1));
    v.push_back(rotations(300, 7, 10)), v.push_back(rotations(1040, 9, 40)), v.push_back(shape_words(520, 2)), v.push_back(shapes(1025)), v.push_back(shapes(2049));
    if (e == 3) {
        append(v, medium_spaces(2)); append(v, large_spaces(2));
        for (int k : {2, 5, 12, 40, 100, 300}) v.push_back(inversive_mod(10007, 10000, 20, k)), v.push_back(inversive_mod(2053, 2053, 60, k));
    }
    return v;
}
MC_JOBS {
    static auto s = SEXPR;
    using Sorter = decltype(s);
    bool t = thorough();
    constexpr bool c1 = cppsort::is_stable<Sorter(Iter, Iter)>::value;
    constexpr bool c2 = cppsort::is_stable<Sorter(Iter, Iter, Less)>::value;
    constexpr bool c3 = cppsort::is_stable<Sorter(Iter, Iter, KeyLess<true>, KeyOf)>::value;
    auto doc = [](const Input&) {
        if (S_STABLE && !(c1 && c2 && c3)) fail("the sorter is documented as stable but is_stable says no (%d %d %d)", c1, c2, c3);
        count_eval(true, 0);
    };
    add_space_jobs("traits", {weak_orders(1)}, doc);
    if (S_STABLE || c1) add_space_jobs("plain", tie_spaces(t ? 3 : S_STABLE ? 1 : 2), [](const Input& in) { run(in, false, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>()); }, "default comparator", true); });
    if (S_STABLE || c2) add_space_jobs("comp", {weak_orders(6), words(2, 11), switch_words(2, 34, 2), inversive_mod(131, 128, 131, 5), inversive_mod(521, 519, 30, 20)}, [](const Input& in) { run(in, false, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }, "comparator", true); });
    if (S_STABLE || c3) {
        auto f = [](const Input& in) { run(in, true, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<true>{}, KeyOf{}); }, "comparator on projections", true); };
        add_space_jobs("proj", {weak_orders(6), words(2, 11), switch_words(2, 34, 2), switch_words(2, 130, 2), shape_words(64, 2), shape_words(300, 2), inversive_mod(131, 128, 131, 5), inversive_mod(521, 519, 30, 20), inversive_mod(2053, 2050, 6, 60)}, f);
    }
    if (S_STABLE || c2) {
        std::vector<Space> v{weak_orders(5), words(2, 10), words(3, 7), switch_words(2, 18, 3), switch_words(3, 24, 2), switch_words(2, 34, 2), switch_words(2, 66, 1), shape_words(35, 2), inversive_mod(61, 61, 40, 3), inversive_mod(131, 128, 60, 5), inversive_mod(521, 519, 8, 20), shapes(40), shapes(150), shapes(520)};
        if (t) append(v, {weak_orders(7), words(2, 14), words(3, 9), switch_words(2, 34, 3), switch_words(2, 66, 2), shape_words(150, 2), inversive_mod(1031, 1031, 20, 60), inversive_mod(2053, 2053, 10, 200)});
        // past the 16-bit sizes; a low-memory run and a projected run of the same inputs
        const std::string nm = SNAME;
        if (c2 && (nm.find("stable_") != std::string::npos || nm.find("make_stable") != std::string::npos || nm == "adaptive_shivers" || nm == "merge" || nm == "spin" || nm == "tim" || nm == "grail" || nm == "wiki" || nm == "block") && nm.find("insertion") == std::string::npos && nm.find("selection") == std::string::npos) {
            std::vector<Space> h{inversive_mod(70001, 70001, 1, 300)};
            if (t) append(h, {inversive_mod(70001, 70001, 1, 5), inversive_mod(131101, 131101, 1, 70000), shapes(65537)});
            add_space_jobs("huge", h, [](const Input& in) { run(in, true, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<true>{}, KeyOf{}); }, "comparator on projections", true); });
        }
        add_space_jobs("limited-memory", v, [](const Input& in) { run_limited(in, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }); });
    }
    if (!(S_STABLE || c1 || c2 || c3)) add_space_jobs("unstable-and-says-so", {weak_orders(1)}, [](const Input&) { count_eval(true, 0); });
}
