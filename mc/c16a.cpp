// C16: adapters (and nestings) around small_array_adapter on C arrays and std::array, and adapters given std::list and std::forward_list.
#include "spaces.hpp"
#include "elem.hpp"
#include <array>
#include <forward_list>
#include <list>
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
using namespace mc;
using namespace cppsort;
using E = DElem;
template<typename A, typename F> static void array_case(const char* who, const Input& in, bool desc_order, A& arr, F f) {
    World& w = W();
    E* d = std::begin(arr) == std::end(arr) ? nullptr : &*std::begin(arr);
    for (int i = 0; i < in.n; ++i) { d[i].~E(); ::new (static_cast<void*>(d + i)) E(in[i], i); }
    w.reset(); w.lo = reinterpret_cast<const char*>(d); w.hi = reinterpret_cast<const char*>(d + in.n);
    w.cmp_budget = generous_budget(in.n);
    i64 live = w.live;
    f(arr);
    if (w.live != live) fail("%s: %ld elements leaked", who, long(w.live - live));
    check_sorted_perm(who, d, in.n, in.k.data(), desc_order, false);
    note_behaviour(w.trace);
    count_eval(!in.sorted(), w.cmps + w.projs);
}
template<typename S, std::size_t N> static void arrays_n(const std::string& name, const char* who) {
    static S s;
    static std::array<E, N> arr;
    static E carr[N ? N : 1];
    std::vector<Space> sp;
    if (N <= 6) sp = {weak_orders(int(N))}; else sp = {shapes(int(N)), switch_words(2, int(N), 1), linear_mod(N <= 31 ? 31 : N <= 61 ? 61 : 67, int(N))};
    if (N > 1 && N <= 20) sp.push_back(words(2, int(N) > 10 ? 10 : int(N)));
    if (N > 10) sp.erase(sp.begin() + (N <= 20 ? long(sp.size()) - 1 : long(sp.size())), sp.end());
    std::string nm = name + "/" + std::to_string(N);
    add_space_jobs(nm + "/arr,c", sp, [=](const Input& in) { array_case(who, in, false, arr, [](auto& a) { s(a, Less{}); }); });
    if (N <= 7 || thorough()) {
        add_space_jobs(nm + "/arr,c,p", sp, [=](const Input& in) { array_case(who, in, true, arr, [](auto& a) { s(a, KeyLess<true>{}, KeyOf{}); }); });
        add_space_jobs(nm + "/arr", sp, [=](const Input& in) { array_case(who, in, false, arr, [](auto& a) { s(a); }); });
    }
    if (N) {
        add_space_jobs(nm + "/c-array,c,p", sp, [=](const Input& in) { array_case(who, in, true, carr, [](auto& a) { s(a, KeyLess<true>{}, KeyOf{}); }); });
        if (N <= 7 || thorough()) add_space_jobs(nm + "/c-array,p", sp, [=](const Input& in) { array_case(who, in, false, carr, [](auto& a) { s(a, KeyOf{}); }); });
    }
}
template<typename S> static void arrays(const char* who) {
    std::string n = who;
    arrays_n<S, 0>(n, who); arrays_n<S, 1>(n, who); arrays_n<S, 2>(n, who); arrays_n<S, 3>(n, who); arrays_n<S, 4>(n, who); arrays_n<S, 5>(n, who); arrays_n<S, 6>(n, who);
    arrays_n<S, 9>(n, who); arrays_n<S, 13>(n, who); arrays_n<S, 14>(n, who); arrays_n<S, 32>(n, who); arrays_n<S, 33>(n, who);
}
template<typename L, typename F> static void list_case(const char* who, const Input& in, bool desc_order, bool stable, F f) {
    World& w = W();
    L l;
    for (int i = in.n; i-- > 0;) l.emplace_front(in[i], i);
    w.reset(); w.cmp_budget = generous_budget(in.n);
    i64 live = w.live;
    f(l);
    if (w.live != live) fail("%s: %ld elements leaked", who, long(w.live - live));
    static std::vector<const ElemT<1>*> p; p.clear();
    for (auto& e : l) { p.push_back(&e); if (int(p.size()) > in.n) fail("%s: the list has more than %d elements", who, in.n); }
    if (int(p.size()) != in.n) fail("%s: the list has %d elements instead of %d", who, int(p.size()), in.n);
    check_sorted_perm_by(who, in.n, in.k.data(), desc_order, stable, [&](int i) -> const ElemT<1>& { return *p[std::size_t(i)]; });
    note_behaviour(w.trace);
    count_eval(!in.sorted(), w.cmps + w.projs);
}
template<typename S, int Mask> static void lists(const char* who, bool stable) {   // Mask: 1 list, 2 forward_list
    static S s;
    std::vector<Space> sp{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(3), weak_orders(4), weak_orders(5), words(2, 8), shapes(17), shapes(40), switch_words(2, 26, 2), shapes(80), linear_mod(61, 61)};
    if (thorough()) append(sp, {weak_orders(6), words(2, 11), shape_words(35, 2), shapes(300), inversive_mod(331, 331, 20, 50)});
    std::string n = who;
    auto each = [&](auto* tag) {
        using L = std::remove_pointer_t<decltype(tag)>;
        std::string k = n + (std::is_same<L, std::list<E>>::value ? "/list" : "/fwd");
        add_space_jobs(k, sp, [=](const Input& in) { list_case<L>(who, in, false, stable, [](L& l) { s(l); }); });
        add_space_jobs(k + ",c", sp, [=](const Input& in) { list_case<L>(who, in, false, stable, [](L& l) { s(l, Less{}); }); });
        add_space_jobs(k + ",p", sp, [=](const Input& in) { list_case<L>(who, in, false, stable, [](L& l) { s(l, KeyOf{}); }); });
        add_space_jobs(k + ",c,p", sp, [=](const Input& in) { list_case<L>(who, in, true, stable, [](L& l) { s(l, KeyLess<true>{}, KeyOf{}); }); });
    };
    if constexpr (Mask & 1) each(static_cast<std::list<E>*>(nullptr));
    if constexpr (Mask & 2) each(static_cast<std::forward_list<E>*>(nullptr));
}
template<template<std::size_t> class F> using Small = small_array_adapter<F>;
template<template<std::size_t> class F, std::size_t N> using SmallN = small_array_adapter<F, std::make_index_sequence<N>>;
MC_JOBS {
#if PART == 0
    arrays<hybrid_adapter<Small<low_comparisons_sorter>, pdq_sorter>>("hybrid<low_comparisons,pdq>");
    arrays<hybrid_adapter<SmallN<low_moves_sorter, 9>, merge_sorter>>("hybrid<low_moves,merge>");
#elif PART == 1
    arrays<hybrid_adapter<SmallN<sorting_network_sorter, 14>, insertion_sorter>>("hybrid<network,insertion>");
    arrays<self_sort_adapter<hybrid_adapter<small_array_adapter<odd_even_merge_network_sorter, std::index_sequence<2, 4, 32>>, pdq_sorter>>>("self_sort<hybrid<odd_even,pdq>>");
#elif PART == 2
    arrays<counting_adapter<hybrid_adapter<SmallN<low_comparisons_sorter, 7>, quick_sorter>>>("counting<hybrid<low_comparisons,quick>>");
    arrays<container_aware_adapter<hybrid_adapter<SmallN<merge_exchange_network_sorter, 7>, merge_sorter>>>("aware<hybrid<merge_exchange,merge>>");
#elif PART == 3
    arrays<hybrid_adapter<schwartz_adapter<SmallN<low_comparisons_sorter, 14>>, schwartz_adapter<pdq_sorter>>>("hybrid<schwartz<low_comparisons>,schwartz<pdq>>");
    arrays<hybrid_adapter<schwartz_adapter<SmallN<low_moves_sorter, 6>>, merge_sorter>>("hybrid<schwartz<low_moves>,merge>");
#elif PART == 4
    arrays<schwartz_adapter<hybrid_adapter<SmallN<low_comparisons_sorter, 7>, merge_sorter>>>("schwartz<hybrid<low_comparisons,merge>>");
    arrays<indirect_adapter<hybrid_adapter<SmallN<low_comparisons_sorter, 7>, pdq_sorter>>>("indirect<hybrid<low_comparisons,pdq>>");
    arrays<hybrid_adapter<schwartz_adapter<SmallN<sorting_network_sorter, 33>>, pdq_sorter>>("hybrid<schwartz<network>,pdq>");
#elif PART == 5
    lists<self_sort_adapter<merge_sorter>, 3>("self_sort<merge>", true);
    lists<self_sort_adapter<quick_sorter>, 3>("self_sort<quick>", false);
    lists<stable_adapter<self_sort_adapter<quick_sorter>>, 3>("stable<self_sort<quick>>", true);
    lists<container_aware_adapter<merge_sorter>, 3>("aware<merge>", true);
    lists<container_aware_adapter<insertion_sorter>, 3>("aware<insertion>", true);
    lists<container_aware_adapter<selection_sorter>, 3>("aware<selection>", true);
    lists<container_aware_adapter<mel_sorter>, 3>("aware<mel>", false);
#else
    lists<hybrid_adapter<self_sort_adapter<quick_sorter>, pdq_sorter>, 3>("hybrid<self_sort<quick>,pdq>", false);
    lists<stable_adapter<hybrid_adapter<self_sort_adapter<selection_sorter>, heap_sorter>>, 3>("stable<hybrid<self_sort<selection>,heap>>", true);
    lists<schwartz_adapter<merge_sorter>, 3>("schwartz<merge>", true);
    lists<indirect_adapter<heap_sorter>, 3>("indirect<heap>", false);
    lists<out_of_place_adapter<pdq_sorter>, 3>("oop<pdq>", false);
    lists<stable_adapter<out_of_place_adapter<pdq_sorter>>, 3>("stable<oop<pdq>>", true);
    lists<out_of_place_adapter<stable_adapter<pdq_sorter>>, 3>("oop<stable<pdq>>", true);
    lists<self_sort_adapter<out_of_place_adapter<heap_sorter>>, 3>("self_sort<oop<heap>>", false);
    lists<counting_adapter<mel_sorter>, 3>("counting<mel>", false);
    lists<drop_merge_adapter<quick_sorter>, 1>("drop_merge<quick>", false);
    lists<verge_adapter<merge_sorter>, 1>("verge<merge>", false);
    lists<split_adapter<insertion_sorter>, 1>("split<insertion>", false);
#endif
}
