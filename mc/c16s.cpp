// C16, stateful and empty sorters: an adapter runs the very sorter it was given and hands back its result.
#include "spaces.hpp"
#include "elem.hpp"
#include <cpp-sort/adapters.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
using namespace mc;
using namespace cppsort;
using E = Elem;
struct Res { int tag; long n; bool operator==(const Res& o) const { return tag == o.tag && n == o.n; } };
static std::vector<int> g_log;
// a stateful, always stable, forward sorter whose result tells which object ran and on how many elements
struct TagImpl {
    int tag = -1;
    TagImpl() = default;
    explicit TagImpl(int t): tag(t) {}
    TagImpl(const TagImpl&) = default;
    TagImpl& operator=(const TagImpl&) = default;
    TagImpl(TagImpl&& o) noexcept : tag(o.tag) { o.tag = -2; }       // a moved-from sorter is recognisable
    template<typename It, typename C = std::less<>, typename P = utility::identity, typename = std::enable_if_t<is_projection_iterator_v<P, It, C>>>
    Res operator()(It first, It last, C c = {}, P p = {}) const {
        g_log.push_back(tag);
        long n = long(std::distance(first, last));
        merge_sorter{}(std::move(first), std::move(last), std::move(c), std::move(p));
        return Res{tag, n};
    }
    using iterator_category = std::forward_iterator_tag;
    using is_always_stable = std::true_type;
};
struct Tag : sorter_facade<TagImpl> { Tag() = default; explicit Tag(int t): sorter_facade<TagImpl>(t) {} };
// the same algorithm, not declared stable (stable_adapter must go through make_stable)
struct HeapTagImpl : TagImpl {
    using TagImpl::TagImpl;
    template<typename It, typename C = std::less<>, typename P = utility::identity, typename = std::enable_if_t<is_projection_iterator_v<P, It, C>>>
    Res operator()(It first, It last, C c = {}, P p = {}) const {
        g_log.push_back(tag);
        long n = long(last - first);
        heap_sorter{}(std::move(first), std::move(last), std::move(c), std::move(p));
        return Res{tag, n};
    }
    using iterator_category = std::random_access_iterator_tag;
    using is_always_stable = std::false_type;
};
struct HeapTag : sorter_facade<HeapTagImpl> { HeapTag() = default; explicit HeapTag(int t): sorter_facade<HeapTagImpl>(t) {} };
// empty but not default-constructible: has to be stored as well
struct NoDefImpl {
    NoDefImpl() = delete;
    explicit NoDefImpl(int) {}
    template<typename It, typename C = std::less<>, typename P = utility::identity, typename = std::enable_if_t<is_projection_iterator_v<P, It, C>>>
    Res operator()(It first, It last, C c = {}, P p = {}) const {
        g_log.push_back(77);
        long n = long(std::distance(first, last));
        merge_sorter{}(std::move(first), std::move(last), std::move(c), std::move(p));
        return Res{77, n};
    }
    using iterator_category = std::forward_iterator_tag;
    using is_always_stable = std::true_type;
};
struct NoDef : sorter_facade<NoDefImpl> { explicit NoDef(int t): sorter_facade<NoDefImpl>(t) {} };
// empty
struct PlainImpl : TagImpl {};
struct EmptyImpl {
    template<typename It, typename C = std::less<>, typename P = utility::identity, typename = std::enable_if_t<is_projection_iterator_v<P, It, C>>>
    Res operator()(It first, It last, C c = {}, P p = {}) const {
        g_log.push_back(5);
        long n = long(std::distance(first, last));
        merge_sorter{}(std::move(first), std::move(last), std::move(c), std::move(p));
        return Res{5, n};
    }
    using iterator_category = std::forward_iterator_tag;
    using is_always_stable = std::true_type;
};
struct Empty : sorter_facade<EmptyImpl> {};

struct Rng { It<E, 2> b, e; It<E, 2> begin() const { return b; } It<E, 2> end() const { return e; } std::ptrdiff_t size() const { return e - b; } };
enum { RESULT = 1, ALWAYS = 2, STABLE = 4, COUNT = 8 };   // returns the adapted sorter's result / always calls it on the whole range / ...
template<typename R> static void verdict(R&&, const char*, int, long, std::true_type) {}
static void check_result(const Res& r, const char* who, int tag, long n, int flags) { if ((flags & RESULT) && (r.tag != tag || r.n != n)) fail("%s returned the result of sorter object %d on %ld elements instead of %d on %ld", who, r.tag, r.n, tag, n); }
static void check_result(std::size_t r, const char* who, int, long, int flags) { if ((flags & RESULT)) fail("%s does not return the result of the adapted sorter", who); if ((flags & COUNT) && r != W().cmps) fail("%s returned %lu comparisons instead of %lu", who, u64(r), W().cmps); }
struct NoRes {};
static void check_result(NoRes, const char* who, int, long, int flags) { if (flags & RESULT) fail("%s does not return the result of the adapted sorter", who); }
template<typename F, std::enable_if_t<std::is_void<decltype(std::declval<F>()())>::value, int> = 0> static NoRes call(F f) { f(); return {}; }
template<typename F, std::enable_if_t<!std::is_void<decltype(std::declval<F>()())>::value, int> = 0> static auto call(F f) { return f(); }

template<typename F> static void run(const char* who, const Input& in, bool desc_order, int tag, int flags, F f) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.cmp_budget = generous_budget(in.n);
    g_log.clear();
    auto r = call([&] { return f(a); });
    check_result(r, who, tag, in.n, flags);
    for (int t : g_log) if (t != tag) fail("%s ran sorter object %d instead of %d", who, t, tag);
    if ((flags & ALWAYS) && g_log.empty()) fail("%s did not run the adapted sorter", who);
    check_sorted_perm(who, a.d, in.n, in.k.data(), desc_order, (flags & STABLE) != 0);
    note_behaviour(w.trace);
    count_eval(in.n > 1, w.cmps + 1);
}
template<typename A, bool Range = true> static void forms(std::string name, const A& s, int tag, int flags) {
    std::vector<Space> sp{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(3), weak_orders(4), weak_orders(5), shapes(20), shapes(40), switch_words(2, 18, 2)};
    if (thorough()) append(sp, {weak_orders(6), words(2, 9), shape_words(35, 2), shapes(130)});
    static std::vector<std::string> names; names.reserve(4096); names.push_back(name); const char* who = names.back().c_str();
    int nc = flags & ~COUNT;
    add_space_jobs(name + "/it", sp, [=](const Input& in) { run(who, in, false, tag, nc, [&](Arr<E>& a) { return s(a.begin<2>(), a.end<2>()); }); });
    add_space_jobs(name + "/it,c", sp, [=](const Input& in) { run(who, in, false, tag, flags, [&](Arr<E>& a) { return s(a.begin<2>(), a.end<2>(), Less{}); }); });
    add_space_jobs(name + "/it,p", sp, [=](const Input& in) { run(who, in, false, tag, nc, [&](Arr<E>& a) { return s(a.begin<2>(), a.end<2>(), KeyOf{}); }); });
    add_space_jobs(name + "/it,c,p", sp, [=](const Input& in) { run(who, in, true, tag, flags, [&](Arr<E>& a) { return s(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); }); });
    add_space_jobs(name + "/rg", sp, [=](const Input& in) { run(who, in, false, tag, nc, [&](Arr<E>& a) { Rng r{a.begin<2>(), a.end<2>()}; return s(r); }); });
    add_space_jobs(name + "/rg,c", sp, [=](const Input& in) { run(who, in, false, tag, flags, [&](Arr<E>& a) { Rng r{a.begin<2>(), a.end<2>()}; return s(r, Less{}); }); });
    add_space_jobs(name + "/rg,p", sp, [=](const Input& in) { run(who, in, false, tag, nc, [&](Arr<E>& a) { Rng r{a.begin<2>(), a.end<2>()}; return s(r, KeyOf{}); }); });
    add_space_jobs(name + "/rg,c,p", sp, [=](const Input& in) { run(who, in, true, tag, flags, [&](Arr<E>& a) { Rng r{a.begin<2>(), a.end<2>()}; return s(r, KeyLess<true>{}, KeyOf{}); }); });
}
template<template<typename> class A, typename S> static void one(const char* name, int flags, int tag = 7) {
    using T = A<S>;
    S orig(tag);
    T ad{orig};                                        // from an lvalue: a copy
    T ad2{S(tag)};                                     // from an rvalue
    static_assert(!std::is_empty<S>::value || !std::is_default_constructible<S>::value, "");
    static_assert(std::is_same<decltype(std::declval<T&>().get()), S&>::value, "get() & is documented to return a reference to the stored sorter");
    static_assert(std::is_same<decltype(std::declval<const T&>().get()), const S&>::value, "get() const&");
    static_assert(std::is_same<decltype(std::declval<T&&>().get()), S&&>::value, "get() &&");
    static_assert(std::is_same<decltype(std::declval<const T&&>().get()), const S&&>::value, "get() const&&");
    static_assert(!std::is_convertible<S, T>::value, "construction from a sorter is documented to be explicit");
    const T c(ad);                                     // copies keep the state
    forms(std::string(name) + "/lvalue", c, tag, flags);
    forms(std::string(name) + "/rvalue", ad2, tag, flags);
    T as{S(tag + 100)}; as = c;
    forms(std::string(name) + "/assigned", as, tag, flags);
}
template<template<typename> class A> static void empty(const char* name, int flags) {
    using T = A<Empty>;
    static_assert(std::is_empty<T>::value && std::is_default_constructible<T>::value, "an adapter of an empty sorter is documented to be empty and default-constructible");
    static_assert(std::is_same<std::decay_t<decltype(std::declval<T&>().get())>, Empty>::value, "get() of an empty adapter returns a sorter");
    static const T s{};
    forms(std::string(name) + "/empty", s, 5, flags);
    static const T s2{Empty{}};
    forms(std::string(name) + "/from-empty", s2, 5, flags);
    // conversion to function pointers
    using I = It<E, 2>;
    static void (*f2)(I, I) = s;
    static void (*f3)(I, I, Less) = s;
    static void (*f4)(I, I, KeyLess<true>, KeyOf) = s;
    static void (*r1)(Rng&) = s;
    static void (*r3)(Rng&, KeyLess<true>, KeyOf) = s;
    std::vector<Space> sp{weak_orders(0), weak_orders(3), weak_orders(4), shapes(20)};
    int fl = flags & ~(RESULT | COUNT);
    add_space_jobs(std::string(name) + "/fptr2", sp, [=](const Input& in) { run(name, in, false, 5, fl, [&](Arr<E>& a) { f2(a.begin<2>(), a.end<2>()); }); });
    add_space_jobs(std::string(name) + "/fptr3", sp, [=](const Input& in) { run(name, in, false, 5, fl, [&](Arr<E>& a) { f3(a.begin<2>(), a.end<2>(), Less{}); }); });
    add_space_jobs(std::string(name) + "/fptr4", sp, [=](const Input& in) { run(name, in, true, 5, fl, [&](Arr<E>& a) { f4(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); }); });
    add_space_jobs(std::string(name) + "/fptr-range", sp, [=](const Input& in) { run(name, in, false, 5, fl, [&](Arr<E>& a) { Rng r{a.begin<2>(), a.end<2>()}; r1(r); }); });
    add_space_jobs(std::string(name) + "/fptr-range4", sp, [=](const Input& in) { run(name, in, true, 5, fl, [&](Arr<E>& a) { Rng r{a.begin<2>(), a.end<2>()}; r3(r, KeyLess<true>{}, KeyOf{}); }); });
}
template<typename S> using Counting = counting_adapter<S>;
template<typename S> using Hybrid1 = hybrid_adapter<S>;
template<typename S> using Stable = stable_adapter<S>;
template<template<typename> class A, typename S> static void hybrid(const char* name, int tag) {   // hybrid has no get()
    const A<S> c{S(tag)};
    forms(name, c, tag, RESULT | ALWAYS);
}
MC_JOBS {
#if PART == 0
    one<counting_adapter, Tag>("counting", ALWAYS | STABLE | COUNT);
    one<schwartz_adapter, Tag>("schwartz", RESULT | ALWAYS | STABLE);
    one<schwartz_adapter, HeapTag>("schwartz-ra", RESULT | ALWAYS);
    one<indirect_adapter, Tag>("indirect", RESULT | ALWAYS | STABLE);
    one<out_of_place_adapter, Tag>("oop", RESULT | ALWAYS | STABLE);
    one<out_of_place_adapter, HeapTag>("oop-ra", RESULT | ALWAYS);
#elif PART == 1
    one<stable_adapter, Tag>("stable", RESULT | ALWAYS | STABLE);
    one<stable_adapter, HeapTag>("stable-ra", RESULT | ALWAYS | STABLE);
    one<make_stable, HeapTag>("make_stable-ra", RESULT | ALWAYS | STABLE);
    one<container_aware_adapter, Tag>("aware", RESULT | ALWAYS | STABLE);
    one<self_sort_adapter, HeapTag>("self_sort-ra", RESULT | ALWAYS);
    one<self_sort_adapter, Tag>("self_sort", RESULT | ALWAYS | STABLE);
#elif PART == 2
    one<drop_merge_adapter, Tag>("drop_merge", 0);
    one<split_adapter, Tag>("split", 0);
    one<verge_adapter, HeapTag>("verge-ra", 0);
    one<verge_adapter, Tag>("verge", 0);
    hybrid<Hybrid1, Tag>("hybrid", 7);
    hybrid<Hybrid1, HeapTag>("hybrid-ra", 7);
    static const hybrid_adapter<Tag, HeapTag> hc(Tag(7), HeapTag(9));
    forms("hybrid2", hc, 9, RESULT | ALWAYS);
    static const hybrid_adapter<HeapTag, Tag> hd(HeapTag(9), Tag(7));
    forms("hybrid2-reversed", hd, 9, RESULT | ALWAYS);
    static const hybrid_adapter<Tag, Tag> he(Tag(3), Tag(4));
    forms("hybrid2-same-type", he, 3, RESULT | ALWAYS | STABLE);
    static const stable_adapter<hybrid_adapter<Tag, HeapTag>> hs(hc);
    forms("stable-hybrid", hs, 9, RESULT | ALWAYS | STABLE);
    static const stable_adapter<hybrid_adapter<Tag, Tag>> ht(he);
    forms("stable-hybrid-same-type", ht, 3, RESULT | ALWAYS | STABLE);
    static const hybrid_adapter<Tag, hybrid_adapter<HeapTag, Tag>> hn(Tag(1), hybrid_adapter<HeapTag, Tag>(HeapTag(2), Tag(3)));
    forms("hybrid-nested", hn, 2, RESULT | ALWAYS);
#else
    empty<counting_adapter>("counting", ALWAYS | STABLE | COUNT);
    empty<schwartz_adapter>("schwartz", RESULT | ALWAYS | STABLE);
    empty<indirect_adapter>("indirect", RESULT | ALWAYS | STABLE);
    empty<out_of_place_adapter>("oop", RESULT | ALWAYS | STABLE);
    empty<stable_adapter>("stable", RESULT | ALWAYS | STABLE);
    empty<make_stable>("make_stable", RESULT | ALWAYS | STABLE);
    empty<container_aware_adapter>("aware", RESULT | ALWAYS | STABLE);
    empty<self_sort_adapter>("self_sort", RESULT | ALWAYS | STABLE);
    empty<drop_merge_adapter>("drop_merge", 0);
    empty<split_adapter>("split", 0);
    empty<verge_adapter>("verge", 0);
    // deduction guides and nesting of stateful sorters
    static const auto d1 = stable_adapter(schwartz_adapter(HeapTag(3)));
    forms("stable(schwartz)", d1, 3, RESULT | ALWAYS | STABLE);
    static const auto d2 = schwartz_adapter(out_of_place_adapter(HeapTag(4)));
    (void)d2;
    static const auto d3 = indirect_adapter(stable_adapter(HeapTag(5)));
    forms("indirect(stable)", d3, 5, RESULT | ALWAYS | STABLE);
    static const auto d4 = self_sort_adapter(hybrid_adapter(HeapTag(6), Tag(1)));
    forms("self_sort(hybrid)", d4, 6, RESULT | ALWAYS);
    static const auto d5 = stable_adapter(self_sort_adapter(HeapTag(8)));
    forms("stable(self_sort)", d5, 8, RESULT | ALWAYS | STABLE);
    static const auto d6 = container_aware_adapter(indirect_adapter(HeapTag(9)));
    forms("aware(indirect)", d6, 9, RESULT | ALWAYS);
    static const stable_t<HeapTag> d7(HeapTag(11));
    forms("stable_t", d7, 11, RESULT | ALWAYS | STABLE);
    static const NoDef nd(1);
    static const schwartz_adapter<NoDef> n1(nd); forms("schwartz/nodef", n1, 77, RESULT | ALWAYS | STABLE);
    static const stable_adapter<NoDef> n2(nd); forms("stable/nodef", n2, 77, RESULT | ALWAYS | STABLE);
    static const indirect_adapter<NoDef> n3(nd); forms("indirect/nodef", n3, 77, RESULT | ALWAYS | STABLE);
    static const out_of_place_adapter<NoDef> n4(nd); forms("oop/nodef", n4, 77, RESULT | ALWAYS | STABLE);
    static const self_sort_adapter<NoDef> n5(nd); forms("self_sort/nodef", n5, 77, RESULT | ALWAYS | STABLE);
    static const hybrid_adapter<NoDef> n6(nd); forms("hybrid/nodef", n6, 77, RESULT | ALWAYS | STABLE);
    static const drop_merge_adapter<NoDef> n7(nd); forms("drop_merge/nodef", n7, 77, 0);
    static const verge_adapter<NoDef> n8(nd); forms("verge/nodef", n8, 77, 0);
    static const split_adapter<NoDef> n9(nd); forms("split/nodef", n9, 77, 0);
#endif
}
