// C16: adapters and their nestings sort like the sorter they adapt.
// NESTS lists N(name, type, weakest category, stable); FULL=1 instantiates every call form and category.
#include "spaces.hpp"
#include "elem.hpp"
#include <forward_list>
#include <list>
#include <cpp-sort/adapters.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/fixed/low_comparisons_sorter.h>
#include <cpp-sort/fixed/sorting_network_sorter.h>
using namespace mc;
using namespace cppsort;
using E = Elem;
template<int Cat> struct Rng {
    It<E, Cat> b, e; std::ptrdiff_t n;
    It<E, Cat> begin() const { return b; }
    It<E, Cat> end() const { return e; }
    std::ptrdiff_t size() const { return n; }
};
template<typename R> static void run(const char* who, const Input& in, bool desc_order, bool stable, R r) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.cmp_budget = generous_budget(in.n) * 2;
    r(a);
    if (w.live != in.n) fail("%s: %ld live elements after sorting %d", who, long(w.live), in.n);
    check_sorted_perm(who, a.d, in.n, in.k.data(), desc_order, stable);
    note_behaviour(w.trace + mix(u64(in.n)) + (desc_order ? 1 : 0));
    count_eval(!in.sorted(), w.cmps + w.projs);
}
static std::vector<Space> nest_spaces(int level) {
    std::vector<Space> v;
    for (int n = 0; n <= (level ? 6 : 5); ++n) v.push_back(weak_orders(n));
    v.push_back(words(2, level ? 10 : 8));
    v.push_back(switch_words(2, 34, 2)); v.push_back(switch_words(3, 20, 2));
    v.push_back(shape_words(35, 2));
    for (int n : {8, 15, 16, 17, 31, 33, 40, 64, 65, 81, 100, 129, 200, 257}) v.push_back(shapes(n));
    v.push_back(linear_mod(61, 61)); v.push_back(linear_mod_few(127, 127, 7)); v.push_back(inversive_mod(131, 128, 20, 40)); v.push_back(inversive_mod(331, 330, 12));
    if (level) { append(v, medium_spaces(1)); v.push_back(shapes(520)); v.push_back(shapes(1030)); v.push_back(inversive_mod(1031, 1031, 12)); }
    return v;
}
// container_aware_adapter takes its range by reference: a temporary range is not one of its call forms
template<typename S> struct by_reference : std::false_type {};
template<typename S> struct by_reference<container_aware_adapter<S>> : std::true_type {};
template<typename S, int Cat, std::enable_if_t<!by_reference<S>::value, int> = 0> static void temporary(const S& s, Arr<E>& a) { s(Rng<Cat>{a.begin<Cat>(), a.end<Cat>(), a.n}, KeyOf{}); }
template<typename S, int Cat, std::enable_if_t<by_reference<S>::value, int> = 0> static void temporary(const S& s, Arr<E>& a) { Rng<Cat> r{a.begin<Cat>(), a.end<Cat>(), a.n}; s(r, KeyOf{}); }
template<typename S, int Cat> static void nest(const char* name, bool stable) {
    static S s;
    auto sp = nest_spaces(thorough() ? 1 : 0);
    static_assert(std::is_empty<S>::value, "adapters of empty sorters are documented to be empty");
    add_space_jobs(std::string(name) + "/iter,comp,proj", sp, [=](const Input& in) {
        run(name, in, true, stable, [](Arr<E>& a) { s(a.begin<Cat>(), a.end<Cat>(), KeyLess<true>{}, KeyOf{}); }); });
    std::vector<Space> few = {weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(4), switch_words(2, 34, 2), shapes(17), shapes(81), linear_mod(61, 61)};
    add_space_jobs(std::string(name) + "/range,comp", FULL ? sp : few, [=](const Input& in) {
        run(name, in, false, stable, [](Arr<E>& a) { Rng<2> r{a.begin<2>(), a.end<2>(), a.n}; s(r, Less{}); }); });
    add_space_jobs(std::string(name) + "/unwinding", {weak_orders(2), weak_orders(3), weak_orders(4), shapes(17), shapes(81)}, [=](const Input& in) {
        run(name, in, true, stable, [](Arr<E>& a) { during_unwinding([&] { s(a.begin<Cat>(), a.end<Cat>(), KeyLess<true>{}, KeyOf{}); }); }); });
#if FULL
    add_space_jobs(std::string(name) + "/huge", huge_few(name), [=](const Input& in) { run(name, in, true, stable, [](Arr<E>& a) { s(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); }); });
    add_space_jobs(std::string(name) + "/iter", few, [=](const Input& in) { run(name, in, false, stable, [](Arr<E>& a) { s(a.begin<Cat>(), a.end<Cat>()); }); });
    add_space_jobs(std::string(name) + "/iter,proj", few, [=](const Input& in) { run(name, in, false, stable, [](Arr<E>& a) { s(a.begin<Cat>(), a.end<Cat>(), KeyOf{}); }); });
    add_space_jobs(std::string(name) + "/iter,comp", few, [=](const Input& in) { run(name, in, false, stable, [](Arr<E>& a) { s(a.begin<Cat>(), a.end<Cat>(), Less{}); }); });
    add_space_jobs(std::string(name) + "/range", few, [=](const Input& in) { run(name, in, false, stable, [](Arr<E>& a) { Rng<Cat> r{a.begin<Cat>(), a.end<Cat>(), a.n}; s(r); }); });
    add_space_jobs(std::string(name) + "/range,proj", few, [=](const Input& in) { run(name, in, false, stable, [](Arr<E>& a) { temporary<S, Cat>(s, a); }); });
    add_space_jobs(std::string(name) + "/range,comp,proj", few, [=](const Input& in) { run(name, in, true, stable, [](Arr<E>& a) { Rng<Cat> r{a.begin<Cat>(), a.end<Cat>(), a.n}; s(r, KeyLess<true>{}, KeyOf{}); }); });
    add_space_jobs(std::string(name) + "/ra,comp,proj", few, [=](const Input& in) { run(name, in, true, stable, [](Arr<E>& a) { s(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); }); });
#endif
}
template<std::size_t N> using LowCmp = low_comparisons_sorter<N>;
MC_JOBS {
#define N(name, type, cat, stable) nest<type, cat>(name, stable);
    NESTS
}
