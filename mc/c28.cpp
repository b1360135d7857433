// C28: sorted_indices, sorted_iterators (XS lists X(name, type, stable)) and, with PART 1, apply_permutation.
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <cpp-sort/utility/functional.h>
using namespace mc;
namespace ut = cppsort::utility;
template<int Cat> struct Rng { It<Elem, Cat> b, e; It<Elem, Cat> begin() const { return b; } It<Elem, Cat> end() const { return e; } };
static Arr<Elem>& store() { static Arr<Elem> a; return a; }
static void arm(Arr<Elem>& a, const Input& in) { a.fill(in.k, in.n); W().reset(); a.arm(); W().cmp_budget = generous_budget(in.n); H() = Heap{}; }
static void untouched(const char* who, const char* form, Arr<Elem>& a, const Input& in) {
    World& w = W();
    if (w.moves || w.swaps) fail("%s(%s): moved elements", who, form);
    if (w.live != in.n) fail("%s(%s): %ld live elements", who, form, long(w.live));
    for (int i = 0; i < in.n; ++i) if (a.d[i].id != i || a.d[i].state != ALIVE || a.d[i].key != in[i]) fail("%s(%s): modified the collection", who, form);
}
// order: a permutation of 0..n-1 that visits the keys in order, stably if asked
static void visits(const char* who, const char* form, const Input& in, const std::vector<long>& order, bool desc, bool stable) {
    if (long(order.size()) != in.n) fail("%s(%s): %ld positions for %d elements", who, form, long(order.size()), in.n);
    static std::vector<unsigned char> seen; seen.assign(std::size_t(in.n), 0);
    for (int i = 0; i < in.n; ++i) {
        long x = order[std::size_t(i)];
        if (x < 0 || x >= in.n || seen[std::size_t(x)]++) fail("%s(%s): position %ld is out of range or given twice", who, form, x);
        if (!i) continue;
        long y = order[std::size_t(i) - 1];
        if (desc ? in[int(y)] < in[int(x)] : in[int(x)] < in[int(y)]) fail("%s(%s): not sorted: element %ld before element %ld", who, form, y, x);
        if (stable && in[int(x)] == in[int(y)] && y > x) fail("%s(%s): not stable: element %ld before element %ld", who, form, y, x);
    }
}
static std::vector<long> as_longs(const std::vector<std::ptrdiff_t>& v) { return {v.begin(), v.end()}; }
template<int Cat> static std::vector<long> as_longs(const std::vector<It<Elem, Cat>>& v) { std::vector<long> r; for (auto& i : v) r.push_back(long(i.p - reinterpret_cast<const Elem*>(W().lo))); return r; }
template<typename R> static void elems(const char* who, const char* form, const Input& in, bool desc, bool stable, bool faults, R r) {
    Arr<Elem>& a = store();
    World& w = W();
    arm(a, in);
    H().armed = true;
    std::vector<long> order;
    { auto v = r(a); H().armed = false; order = as_longs(v); H().armed = true; }
    H().armed = false;
    if (H().outstanding > 0) fail("%s(%s): %ld heap blocks leaked", who, form, long(H().outstanding));
    u64 cmps = w.cmps, projs = w.projs, allocs = H().count;
    untouched(who, form, a, in);
    visits(who, form, in, order, desc, stable);
    note_behaviour(w.trace);
    count_eval(!in.sorted(), cmps);
    if (!faults) return;
    for (int kind = 0; kind < 3; ++kind) {
        u64 points = kind == 0 ? cmps : kind == 1 ? projs : allocs;
        for (u64 k = 1; k <= points; ++k) {
            arm(a, in);
            if (kind == 0) w.throw_cmp = k; else if (kind == 1) w.throw_proj = k; else H().fail_at = k;
            H().armed = true;
            bool caught = false;
            try { r(a); } catch (const Injected&) { caught = kind != 2; } catch (const std::bad_alloc&) { caught = kind == 2; }
            H().armed = false;
            if (!caught && kind != 2) fail("%s(%s): the exception did not reach the caller", who, form);
            if (H().outstanding) fail("%s(%s): %ld heap blocks leaked after an exception", who, form, long(H().outstanding));
            untouched(who, form, a, in);
            count_eval(true, w.any); sh().seq = sh().seq + 1;
        }
    }
}
// apply the permutation given by sorted_indices: each element goes exactly where it says
template<typename Ind> static void apply(const char* who, const Input& in, const std::vector<std::ptrdiff_t>& order, bool desc, bool stable) {
    Arr<Elem>& a = store();
    World& w = W();
    arm(a, in);
    std::vector<Ind> idx(order.begin(), order.end());
    u64 want = 0; int fixed = 0;
    { std::vector<unsigned char> seen(std::size_t(in.n), 0); for (int i = 0; i < in.n; ++i) { if (order[std::size_t(i)] == i) ++fixed; int len = 0; for (std::ptrdiff_t j = i; !seen[std::size_t(j)]; j = order[std::size_t(j)]) seen[std::size_t(j)] = 1, ++len; if (len > 1) want += u64(len) + 1; } }
    static std::vector<unsigned char> moved; moved.assign(std::size_t(in.n), 0); w.moved_ids = moved.data(); w.moved_ids_n = in.n;
    ut::apply_permutation(a.begin<2>(), a.end<2>(), idx.begin(), idx.end());
    w.moved_ids = nullptr;
    if (w.live != in.n) fail("apply_permutation(%s): %ld live elements", who, long(w.live));
    if (w.moves > want || w.swaps) fail("apply_permutation(%s): %ld moves, the cycles need %ld", who, long(w.moves), long(want));
    for (int i = 0; i < in.n; ++i) {
        if (a.d[i].state != ALIVE || a.d[i].id != order[std::size_t(i)]) fail("apply_permutation(%s): position %d holds element %d, the indices say %ld", who, i, a.d[i].id, long(order[std::size_t(i)]));
        if (order[std::size_t(i)] == i && moved[std::size_t(i)]) fail("apply_permutation(%s): element %d was already in place and was moved", who, i);
    }
    check_sorted_perm("apply_permutation", a.d, in.n, in.k.data(), desc, stable);
    count_eval(!in.sorted(), w.moves);
}
struct Key { int k; int get() const { return k; } };
struct Neg { int operator()(int x) const { return -x; } };
struct MutNeg { int n = 0; int operator()(int x) { ++n; return -x; } };
template<typename S, bool Stable, typename... A> static void traits(const char* name) {
    static_assert(std::is_same<cppsort::iterator_category<ut::sorted_indices<S>>, std::random_access_iterator_tag>::value, "");
    static_assert(std::is_same<cppsort::iterator_category<ut::sorted_iterators<S>>, std::forward_iterator_tag>::value, "");
    static_assert(bool(cppsort::is_always_stable<ut::sorted_indices<S>>::value) == bool(cppsort::is_always_stable<S>::value), "");
    static_assert(bool(cppsort::is_always_stable<ut::sorted_iterators<S>>::value) == bool(cppsort::is_always_stable<S>::value), "");
    static_assert(bool(cppsort::is_stable<ut::sorted_indices<S>(std::vector<int>&, std::greater<>)>::value) == Stable, "");
    static_assert(bool(cppsort::is_stable<ut::sorted_iterators<S>(std::vector<int>::iterator, std::vector<int>::iterator)>::value) == Stable, "");
    (void)name;
}
template<typename S, bool Stable> static void all(const char* name) {
    traits<S, Stable>(name);
    static ut::sorted_indices<S> si; static ut::sorted_iterators<S> st;
    bool t = thorough();
    std::vector<Space> sp, few;
    for (int n = 0; n <= (t ? 7 : 6); ++n) sp.push_back(weak_orders(n));
    sp.push_back(perms(t ? 9 : 7)), sp.push_back(words(2, t ? 13 : 10)), sp.push_back(words(3, 7));
    for (int n : {12, 16, 17, 24, 33, 64, 65, 100, 130}) sp.push_back(shapes(n));
    sp.push_back(linear_mod(67, 67)), sp.push_back(linear_mod_few(67, 67, 5)), sp.push_back(inversive_mod(127, 127, 40)), sp.push_back(switch_words(2, 30, 2)), sp.push_back(rotations(50, 1, 1));
    if (t) append(sp, medium_spaces(1));
    few = {weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(3), weak_orders(4), weak_orders(5), words(2, 7), shapes(17), shapes(40), shapes(70), linear_mod_few(61, 61, 4), inversive_mod(61, 61, 12)};
    std::vector<Space> fl{weak_orders(1), weak_orders(2), weak_orders(3), weak_orders(4), shapes(9), shapes(19)};
    if (t) append(fl, {weak_orders(5), shapes(33), shapes(40), rotations(34, 1, 1)});
    const char* who = name;
    std::string n = name;
    append(sp, huge_few(n));
    add_space_jobs(n + "/indices and apply", sp, [=](const Input& in) {
        elems(who, "sorted_indices, comparator, projection", in, true, Stable, false, [](Arr<Elem>& a) { return si(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); });
        Arr<Elem>& a = store();
        arm(a, in); auto order = si(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{});
        apply<std::ptrdiff_t>(who, in, order, true, Stable);
    });
    add_space_jobs(n + "/iterators", sp, [=](const Input& in) {
        elems(who, "sorted_iterators, forward iterators, comparator", in, false, Stable, false, [](Arr<Elem>& a) { return st(a.begin<0>(), a.end<0>(), Less{}); });
    });
    add_space_jobs(n + "/forms", few, [=](const Input& in) {
        elems(who, "sorted_indices, range", in, false, Stable, false, [](Arr<Elem>& a) { return si(Rng<2>{a.begin<2>(), a.end<2>()}, Less{}); });
        elems(who, "sorted_iterators, bidirectional range, projection", in, false, Stable, false, [](Arr<Elem>& a) { Rng<1> r{a.begin<1>(), a.end<1>()}; return st(r, KeyOf{}); });
    });
    add_space_jobs(n + "/faults", fl, [=](const Input& in) {
        elems(who, "sorted_indices, comparator, projection", in, false, Stable, true, [](Arr<Elem>& a) { return si(a.begin<2>(), a.end<2>(), KeyLess<false>{}, KeyOf{}); });
        elems(who, "sorted_iterators, comparator, projection", in, false, Stable, true, [](Arr<Elem>& a) { return st(a.begin<0>(), a.end<0>(), KeyLess<false>{}, KeyOf{}); });
    });
    add_space_jobs(n + "/containers", few, [=](const Input& in) {
        const std::vector<int> v(in.k.begin(), in.k.begin() + in.n);
        std::vector<Key> k; for (int x : v) k.push_back({x});
        std::list<int> l(v.begin(), v.end());
        const std::forward_list<int> f(v.begin(), v.end());
        visits(who, "sorted_indices, const vector", in, as_longs(si(v)), false, Stable);
        visits(who, "sorted_indices, member", in, as_longs(si(k, std::greater<>{}, &Key::k)), true, Stable);
        visits(who, "sorted_indices, projection by value", in, as_longs(si(k, &Key::get)), false, Stable);
#if EXTRA
        visits(who, "sorted_indices, mutable projection", in, as_longs(si(v.data(), v.data() + in.n, MutNeg{})), true, Stable);
        { std::vector<bool> b; for (int x : v) b.push_back(x > in.n / 2); Input bi = in; for (int i = 0; i < in.n; ++i) bi.k[i] = b[std::size_t(i)]; visits(who, "sorted_indices, vector<bool>", bi, as_longs(si(b)), false, Stable); visits(who, "sorted_indices, vector<bool>, comparator", bi, as_longs(si(b, std::greater<>{})), true, Stable); visits(who, "sorted_indices, vector<bool>, projection", bi, as_longs(si(b, [](bool x) { return !x; })), true, Stable); }
        { std::deque<int> d(v.begin(), v.end()); visits(who, "sorted_indices, deque", in, as_longs(si(d, [](const int& a, const int& b) { return a > b; }, Neg{})), false, Stable); auto it = st(d); std::vector<long> o; for (auto& i : it) o.push_back(i - d.begin()); visits(who, "sorted_iterators, deque", in, o, false, Stable); }
        { auto it = st(v, MutNeg{}); std::vector<long> o; for (auto& i : it) o.push_back(i - v.begin()); visits(who, "sorted_iterators, const vector, mutable projection", in, o, true, Stable); }
        { ut::sorted_indices<S> e(S{}); visits(who, "sorted_indices made from a sorter", in, as_longs(e(v)), false, Stable); ut::sorted_iterators<S> g(S{}); auto it = g(v.begin(), v.end()); std::vector<long> o; for (auto& i : it) o.push_back(i - v.begin()); visits(who, "sorted_iterators made from a sorter", in, o, false, Stable); }
#endif
        { auto it = st(l, std::greater<>{}); std::vector<long> o; for (auto& i : it) o.push_back(std::distance(l.begin(), i)); visits(who, "sorted_iterators, list", in, o, true, Stable); }
        { auto it = st(f, Neg{}); std::vector<long> o; for (auto& i : it) { static_assert(std::is_same<decltype(i), std::forward_list<int>::const_iterator&>::value, ""); o.push_back(std::distance(f.begin(), i)); } visits(who, "sorted_iterators, const forward_list, projection", in, o, true, Stable); }
        if (!std::equal(v.begin(), v.end(), l.begin()) || !std::equal(v.begin(), v.end(), f.begin())) fail("%s modified the collection", who);
        count_eval(!in.sorted(), 5);
    });
}
#if PART == 1
// a random-access iterator over a permuted view, with its own iter_move: apply_permutation must go through it
struct Slot { int v; bool full; };
static Slot slots[64]; static u64 iter_moves;
struct Taken { int v; Taken(int v) : v(v) {} Taken(Taken&& o) : v(o.v) { o.v = -1; } };
struct PIt {
    struct reference {
        Slot* s;
        reference& operator=(Taken&& t) { if (s->full) fail("a slot is overwritten before it was moved from"); if (t.v < 0) fail("a moved-from value is stored"); s->v = t.v; s->full = true; t.v = -1; return *this; }
    };
    using value_type = Taken; using difference_type = std::ptrdiff_t; using pointer = void; using iterator_category = std::random_access_iterator_tag;
    long i = 0;
    reference operator*() const { return {&slots[i]}; }
    reference operator[](difference_type d) const { return {&slots[i + d]}; }
    PIt& operator++() { ++i; return *this; } PIt operator++(int) { PIt r = *this; ++i; return r; } PIt& operator--() { --i; return *this; } PIt operator--(int) { PIt r = *this; --i; return r; }
    PIt& operator+=(difference_type d) { i += d; return *this; } PIt& operator-=(difference_type d) { i -= d; return *this; }
    friend PIt operator+(PIt a, difference_type d) { return a += d; } friend PIt operator+(difference_type d, PIt a) { return a += d; } friend PIt operator-(PIt a, difference_type d) { return a -= d; } friend difference_type operator-(PIt a, PIt b) { return a.i - b.i; }
    friend bool operator==(PIt a, PIt b) { return a.i == b.i; } friend bool operator!=(PIt a, PIt b) { return a.i != b.i; } friend bool operator<(PIt a, PIt b) { return a.i < b.i; } friend bool operator>(PIt a, PIt b) { return a.i > b.i; } friend bool operator<=(PIt a, PIt b) { return a.i <= b.i; } friend bool operator>=(PIt a, PIt b) { return a.i >= b.i; }
    friend Taken iter_move(PIt it) { ++iter_moves; Slot& s = slots[it.i]; if (!s.full) fail("a slot is moved from twice"); s.full = false; return Taken(s.v); }
};
static bool naive_perm(const Input& in) { std::vector<char> s(std::size_t(in.n), 0); for (int i = 0; i < in.n; ++i) if (in[i] < 0 || in[i] >= in.n || s[std::size_t(in[i])]++) return false; return true; }
template<typename Ind> static void direct(const Input& in) {
    std::vector<std::ptrdiff_t> order(in.k.begin(), in.k.begin() + in.n);
    // each element exactly where the indices say (keys are only carried along)
    Arr<Elem>& a = store(); World& w = W();
    arm(a, in);
    std::vector<Ind> idx(order.begin(), order.end());
    u64 want = 0; std::vector<unsigned char> seen(std::size_t(in.n), 0), moved(std::size_t(in.n), 0);
    for (int i = 0; i < in.n; ++i) { int len = 0; for (std::ptrdiff_t j = i; !seen[std::size_t(j)]; j = order[std::size_t(j)]) seen[std::size_t(j)] = 1, ++len; if (len > 1) want += u64(len) + 1; }
    w.moved_ids = moved.data(); w.moved_ids_n = in.n;
    Rng<2> r{a.begin<2>(), a.end<2>()};
    if (in.n & 1) ut::apply_permutation(r, idx); else ut::apply_permutation(Rng<2>(r), idx);
    w.moved_ids = nullptr;
    if (w.live != in.n) fail("apply_permutation: %ld live elements", long(w.live));
    if (w.moves > want || w.swaps) fail("apply_permutation: %ld moves, the cycles need %ld", long(w.moves), long(want));
    for (int i = 0; i < in.n; ++i) {
        if (a.d[i].state != ALIVE || a.d[i].id != order[std::size_t(i)] || a.d[i].key != in[a.d[i].id]) fail("apply_permutation: position %d holds element %d, the indices say %ld", i, a.d[i].id, long(order[std::size_t(i)]));
        if (order[std::size_t(i)] == i && moved[std::size_t(i)]) fail("apply_permutation: element %d was already in place and was moved", i);
    }
    note_behaviour(w.mtrace);
    // other collections and iterators
    if (in.n <= 64) {
        for (int i = 0; i < in.n; ++i) slots[i] = {i, true};
        iter_moves = 0; std::deque<Ind> d(order.begin(), order.end());
        ut::apply_permutation(PIt{0}, PIt{in.n}, d.begin(), d.end());
        for (int i = 0; i < in.n; ++i) if (!slots[i].full || slots[i].v != order[std::size_t(i)]) fail("apply_permutation on a proxy iterator: position %d", i);
        if (iter_moves > want) fail("apply_permutation on a proxy iterator: %ld moves", long(iter_moves));
    }
    std::deque<std::string> s; std::vector<std::string> orig; for (int i = 0; i < in.n; ++i) orig.push_back(std::string(std::size_t(i % 40), 'x') + std::to_string(i)), s.push_back(orig.back());
    std::vector<Ind> idx2(order.begin(), order.end());
    ut::apply_permutation(s, idx2);
    for (int i = 0; i < in.n; ++i) if (s[std::size_t(i)] != orig[std::size_t(order[std::size_t(i)])]) fail("apply_permutation on a deque: position %d", i);
    std::vector<bool> b; for (int i = 0; i < in.n; ++i) b.push_back(i % 3 == 0);
    std::vector<Ind> idx3(order.begin(), order.end());
    ut::apply_permutation(b.begin(), b.end(), idx3.data(), idx3.data() + in.n);
    for (int i = 0; i < in.n; ++i) if (b[std::size_t(i)] != (order[std::size_t(i)] % 3 == 0)) fail("apply_permutation on vector<bool>: position %d", i);
    int arr[6], ix[6];
    if (in.n == 6) { for (int i = 0; i < 6; ++i) arr[i] = i * 10, ix[i] = in[i]; ut::apply_permutation(arr, ix); for (int i = 0; i < 6; ++i) if (arr[i] != in[i] * 10) fail("apply_permutation on an array: position %d", i); }
    count_eval(!in.sorted(), 4);
}
#endif
MC_JOBS {
#if PART == 0
#define X(name, type, stable) all<type, stable>(name);
    XS
#else
    bool t = thorough();
    std::vector<Space> sp; for (int n = 0; n <= (t ? 10 : 9); ++n) sp.push_back(perms(n));
    for (int p : {11, 31, 61}) sp.push_back(linear_mod(p, p)), sp.push_back(inversive_mod(p, p, p));
    for (int n : {16, 33, 64}) sp.push_back(shuffles(n)), sp.push_back(rotations(n, 1, 1));
    sp.push_back(linear_mod(127, 127));
    std::vector<Space> perms_only;
    for (auto& s : sp) perms_only.push_back(s);
    add_space_jobs("apply_permutation<ptrdiff_t>", perms_only, [](const Input& in) { if (naive_perm(in)) direct<std::ptrdiff_t>(in); });
    std::vector<Space> few; for (int n = 0; n <= 7; ++n) few.push_back(perms(n)); few.push_back(linear_mod(61, 61)), few.push_back(linear_mod(127, 127));
    add_space_jobs("apply_permutation<size_t>", few, [](const Input& in) { if (naive_perm(in)) direct<std::size_t>(in); });
    add_space_jobs("apply_permutation<int>", few, [](const Input& in) { if (naive_perm(in)) direct<int>(in); });
    add_space_jobs("apply_permutation<short>", few, [](const Input& in) { if (naive_perm(in)) direct<short>(in); });
    add_space_jobs("apply_permutation<unsigned char>", few, [](const Input& in) { if (naive_perm(in)) direct<unsigned char>(in); });
    add_space_jobs("apply_permutation<unsigned>", few, [](const Input& in) { if (naive_perm(in)) direct<unsigned>(in); });
#endif
}
