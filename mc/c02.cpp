// C02: one forward/bidirectional sorter on iterators that offer exactly IT_CAT's operations, and on the std lists.
#include "spaces.hpp"
#include "elem.hpp"
#include "advers.hpp"
#include <list>
#include <forward_list>
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif

template<typename R> static void run(const Input& in, bool desc_order, R r, const char* what) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.cmp_budget = generous_budget(in.n);
    r(a);
    if (w.live != in.n) fail("%s: %ld live elements after sorting %d", what, long(w.live), in.n);
    check_sorted_perm(what, a.d, in.n, in.k.data(), desc_order, S_STABLE);
    note_behaviour(w.trace + (desc_order ? 0 : 1));
    count_eval(!in.sorted(), w.cmps + w.projs);
}
template<typename List> static void run_list(const Input& in, bool dummy = false) {
    (void)dummy;
    static auto s = SEXPR;
    List l(in.k.begin(), in.k.begin() + in.n);
    u64 h0 = 0, h1 = 0; int m = 0;
    for (int x : l) h0 += mix(u64(u32(x)) + 999);
    s(l);
    int prev = 0;
    for (int x : l) {
        h1 += mix(u64(u32(x)) + 999);
        if (m && x < prev) fail("std list: not sorted at position %d", m);
        prev = x; ++m;
    }
    if (m != in.n || h0 != h1) fail("std list: the result is not a permutation of the input (%d elements)", m);
    count_eval(!in.sorted(), 0);
}
MC_JOBS {
    static auto s = SEXPR;
    bool t = thorough();
    auto cmp = [](const Input& in) { run(in, false, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }, "comparator"); };
    auto prj = [](const Input& in) { run(in, true, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<true>{}, KeyOf{}); }, "comparator on projections"); };
    add_space_jobs("elem", all_spaces(t ? 3 : 2), cmp);
    add_adversary_jobs<E>("elem", t ? 3 : 2, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), AdvLess{}); }, cmp);
    add_space_jobs("proj", small_spaces(2), prj);
    add_space_jobs("proj", medium_spaces(t ? 2 : 1), prj);
    add_space_jobs("proj", large_spaces(1), prj);
#if S_WORST != 2
    std::vector<Space> huge{inversive_mod(70001, 70001, 1), inversive_mod(70001, 70001, 1, 300)};
    if (t) huge.push_back(shapes(65537));
    add_space_jobs("huge", huge, cmp);
#endif
    auto lst = [](const Input& in) {
#if IT_CAT == 1
        run_list<std::list<int>>(in);
#else
        run_list<std::forward_list<int>>(in);
#endif
    };
    add_space_jobs("list", small_spaces(1), lst);
    add_space_jobs("list", medium_spaces(1), lst);
    add_space_jobs("list", large_spaces(1), lst);
}
