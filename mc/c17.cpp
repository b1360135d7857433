// C17: indirect_adapter. SORTERS lists X(name, sorter expression, stable).
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/utility/functional.h>
using namespace mc;
template<typename E, int Cat> struct Rng {
    It<E, Cat> b, e; std::ptrdiff_t n;
    It<E, Cat> begin() const { return b; }
    It<E, Cat> end() const { return e; }
    std::ptrdiff_t size() const { return n; }
};
static std::vector<unsigned char> moved;
template<typename E> static void arm(Arr<E>& a, const Input& in) {
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
    moved.assign(std::size_t(in.n), 0); w.moved_ids = moved.data(); w.moved_ids_n = in.n;
    H() = Heap{};
}
template<typename E> static void untouched(const char* who, const char* why, Arr<E>& a, const Input& in) {
    if (W().moves || W().swaps) fail("%s: %lu moves although %s", who, W().moves, why);
    for (int i = 0; i < in.n; ++i) {
        a.d[i].check_alive(who);
        if (a.d[i].id != i || a.d[i].key != in[i]) fail("%s: position %d was changed although %s", who, i, why);
    }
    if (W().live != in.n) fail("%s: %ld live elements after %s", who, long(W().live), why);
    if (H().outstanding) fail("%s: %ld heap blocks leaked after %s", who, long(H().outstanding), why);
}
// the fault-free run: sorted, moves exactly along the cycles, same order as the adapted sorter gives to the iterators
template<int Cat, typename E, typename S, typename R> static void plain(const char* who, const S& s, const Input& in, bool desc_order, bool stable, R r) {
    static Arr<E> a; static Arr<E> b;
    World& w = W();
    arm(a, in);
    H().armed = true; r(a); H().armed = false;
    u64 moves = w.moves, swaps = w.swaps, tr = w.trace, cmps = w.cmps;
    if (H().outstanding) fail("%s: %ld heap blocks leaked", who, long(H().outstanding));
    if (w.live != in.n) fail("%s: %ld live elements", who, long(w.live));
    w.moved_ids = nullptr;
    check_sorted_perm(who, a.d, in.n, in.k.data(), desc_order, stable);
    if (swaps) fail("%s: %lu element swaps", who, swaps);
    if (2 * moves > 3 * u64(in.n)) fail("%s: %lu moves for %d elements, documented at most (3/2)n", who, moves, in.n);
    // cycles of the permutation that was performed
    u64 want = 0;
    std::vector<unsigned char> seen(std::size_t(in.n), 0);
    for (int i = 0; i < in.n; ++i) {
        if (a.d[i].id == i && moved[std::size_t(i)]) fail("%s: element %d was already in place and was moved", who, i);
        if (seen[std::size_t(i)]) continue;
        int len = 0;
        for (int j = i; !seen[std::size_t(j)]; j = a.d[j].id) { seen[std::size_t(j)] = 1; ++len; }
        if (len > 1) want += u64(len) + 1;
    }
    if (moves > want) fail("%s: %lu moves where the cycles of the permutation need only %lu", who, moves, want);
    // the adapted sorter on the iterators themselves
    b.fill(in.k, in.n);
    w.reset(); b.arm(); w.cmp_budget = generous_budget(in.n);
    static std::vector<It<E, Cat>> its; its.clear();
    for (int i = 0; i < in.n; ++i) its.push_back(It<E, Cat>(b.d + i));
    if (desc_order) s(its.data(), its.data() + its.size(), KeyLess<true>{}, cppsort::utility::indirect{} | KeyOf{});
    else s(its.data(), its.data() + its.size(), Less{}, cppsort::utility::indirect{});
    for (int i = 0; i < in.n; ++i) {
        W().hi = W().lo + sizeof(E) * std::size_t(in.n);
        if ((*its[std::size_t(i)]).id != a.d[i].id) fail("%s: position %d received element %d, the adapted sorter orders the iterators with %d there", who, i, a.d[i].id, (*its[std::size_t(i)]).id);
    }
    b.clear();
    note_behaviour(tr);
    count_eval(!in.sorted(), cmps);
}
template<typename E, typename R> static void faults(const char* who, const Input& in, R r) {
    static Arr<E> a;
    World& w = W();
    arm(a, in); H().armed = true; r(a); H().armed = false;
    u64 cmps = w.cmps, projs = w.projs, moves = w.moves, allocs = H().count;
    for (int kind = 0; kind < 4; ++kind) {
        u64 points = kind == 0 ? cmps : kind == 1 ? projs : kind == 2 ? allocs : (std::is_nothrow_move_constructible<E>::value ? 0 : moves);
        for (u64 k = 1; k <= points; ++k) {
            desc().text = std::string(kind == 0 ? "comparison " : kind == 1 ? "projection " : kind == 2 ? "allocation " : "move ") + std::to_string(k) + " of " + std::to_string(points) + " fails";
            arm(a, in);
            if (kind == 0) w.throw_cmp = k; else if (kind == 1) w.throw_proj = k; else if (kind == 3) w.throw_move = k;
            if (kind == 2) H().fail_at = k;
            H().armed = true;
            bool caught = false;
            try { r(a); } catch (const Injected&) { caught = kind != 2; } catch (const std::bad_alloc&) { caught = kind == 2; }
            H().armed = false;
            if (!caught && kind != 2) fail("%s: the exception did not reach the caller", who);
            if (caught && kind < 3) untouched(who, "the exception was thrown before the elements are moved", a, in);
            if (!caught) check_sorted_perm(who, a.d, in.n, in.k.data(), false, false);
            if (kind == 3) {
                if (w.live != in.n) fail("%s: %ld live elements after an exception in a move", who, long(w.live));
                if (H().outstanding) fail("%s: %ld heap blocks leaked after an exception in a move", who, long(H().outstanding));
                check_perm(who, a.d, in.n, in.k.data(), true);
                for (int i = 0; i < in.n; ++i) { w.reset(); if (a.d[i].state == MOVED) { E e(in[i], i); a.d[i] = std::move(e); } }
            }
            count_eval(true, w.any); sh().seq = sh().seq + 1;
        }
    }
    desc().text.clear();
}
template<typename S> static void all(const char* name, bool stable) {
    using A = cppsort::indirect_adapter<S>;
    static S s; static A ind;
    bool t = thorough();
    std::vector<Space> sp;
    for (int n = 0; n <= (t ? 7 : 6); ++n) sp.push_back(weak_orders(n));
    sp.push_back(perms(t ? 9 : 7)); sp.push_back(words(2, t ? 13 : 10));
    for (int n : {12, 16, 17, 20, 33, 64, 65, 100, 130}) sp.push_back(shapes(n));
    sp.push_back(linear_mod(67, 67)), sp.push_back(inversive_mod(127, 127, 40)), sp.push_back(rotations(50, 1, 1)), sp.push_back(deviations(18, 3)), sp.push_back(shuffles(60));
    if (t) append(sp, medium_spaces(1));
    std::vector<Space> few{weak_orders(1), weak_orders(2), weak_orders(4), weak_orders(5), shapes(17), shapes(40), rotations(34, 1, 1), linear_mod(31, 31)};
    std::string n = name;
    const char* who = name;
    append(sp, huge_few(n)); if (n.find("merge") != std::string::npos) append(few, huge_few(n));
    add_space_jobs(n + "/ra,comp,proj", sp, [=](const Input& in) { plain<2, Elem>(who, s, in, true, stable, [](Arr<Elem>& a) { ind(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); }); });
    add_space_jobs(n + "/fwd,comp", few, [=](const Input& in) { plain<0, Elem>(who, s, in, false, stable, [](Arr<Elem>& a) { ind(a.begin<0>(), a.end<0>(), Less{}); }); });
    add_space_jobs(n + "/bidi-range,comp,proj", t ? sp : few, [=](const Input& in) { plain<1, Elem>(who, s, in, true, stable, [](Arr<Elem>& a) { Rng<Elem, 1> r{a.begin<1>(), a.end<1>(), a.n}; ind(r, KeyLess<true>{}, KeyOf{}); }); });
    add_space_jobs(n + "/ra-range", few, [=](const Input& in) { plain<2, Elem>(who, s, in, false, stable, [](Arr<Elem>& a) { Rng<Elem, 2> r{a.begin<2>(), a.end<2>(), a.n}; ind(r); }); });
    std::vector<Space> un{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(4), shapes(17), rotations(34, 1, 1)};
    add_space_jobs(n + "/unwinding/ra", un, [=](const Input& in) { plain<2, Elem>(who, s, in, true, stable, [](Arr<Elem>& a) { during_unwinding([&] { ind(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); }); }); });
    add_space_jobs(n + "/unwinding/fwd", un, [=](const Input& in) { plain<0, Elem>(who, s, in, false, stable, [](Arr<Elem>& a) { during_unwinding([&] { ind(a.begin<0>(), a.end<0>(), Less{}); }); }); });
    std::vector<Space> fl{weak_orders(1), weak_orders(2), weak_orders(3), weak_orders(4), shapes(9), shapes(17), rotations(12, 1, 1), linear_mod(13, 13)};
    if (t) append(fl, {weak_orders(5), words(2, 8), shapes(33), shapes(40), rotations(34, 1, 1)});
    add_space_jobs(n + "/faults/ra", fl, [=](const Input& in) { faults<TElem>(who, in, [](Arr<TElem>& a) { ind(a.begin<2>(), a.end<2>(), KeyLess<false>{}, KeyOf{}); }); });
    add_space_jobs(n + "/faults/fwd", fl, [=](const Input& in) { faults<TElem>(who, in, [](Arr<TElem>& a) { ind(a.begin<0>(), a.end<0>(), KeyLess<false>{}, KeyOf{}); }); });
    std::vector<Space> fu{weak_orders(2), weak_orders(3), shapes(9)};
    add_space_jobs(n + "/faults/unwinding/ra", fu, [=](const Input& in) { faults<TElem>(who, in, [](Arr<TElem>& a) { during_unwinding([&] { ind(a.begin<2>(), a.end<2>(), KeyLess<false>{}, KeyOf{}); }); }); });
    add_space_jobs(n + "/faults/unwinding/fwd", fu, [=](const Input& in) { faults<TElem>(who, in, [](Arr<TElem>& a) { during_unwinding([&] { ind(a.begin<0>(), a.end<0>(), KeyLess<false>{}, KeyOf{}); }); }); });
    add_space_jobs(n + "/faults/range", fl, [=](const Input& in) { faults<Elem>(who, in, [](Arr<Elem>& a) { Rng<Elem, 2> r{a.begin<2>(), a.end<2>(), a.n}; ind(r, Less{}); }); });
}
#if RESULT
// C++17: the result of the adapted sorter is returned
template<typename S> static void result(const char* name) {
    static S s; static cppsort::indirect_adapter<S> ind;
    std::vector<Space> sp{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(4), weak_orders(5), shapes(17), shapes(40)};
    auto go = [=](const Input& in, auto cat, bool range) {
        constexpr int Cat = decltype(cat)::value;
        static Arr<Elem> a;
        arm(a, in); W().moved_ids = nullptr;
        Rng<Elem, Cat> r{a.begin<Cat>(), a.end<Cat>(), a.n};
        std::size_t c = range ? ind(r, Less{}) : ind(r.b, r.e, Less{});
        if (c != W().cmps) fail("%s: returned %lu, %lu comparisons were made", name, c, W().cmps);
        check_sorted_perm(name, a.d, in.n, in.k.data(), false, false);
        count_eval(!in.sorted(), c);
    };
    add_space_jobs(std::string("result/") + name + "/ra", sp, [=](const Input& in) { go(in, std::integral_constant<int, 2>{}, false); });
    add_space_jobs(std::string("result/") + name + "/fwd", sp, [=](const Input& in) { go(in, std::integral_constant<int, 0>{}, true); });
}
#endif
MC_JOBS {
#define X(name, type, stable) all<type>(name, stable);
    XS
#if RESULT
    result<cppsort::counting_adapter<cppsort::pdq_sorter>>("counting<pdq>");
    result<cppsort::counting_adapter<cppsort::merge_sorter>>("counting<merge>");
#endif
}
