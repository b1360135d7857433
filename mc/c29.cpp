// C29: sorting through iterators that customise iter_move/iter_swap or return proxies.
// XS lists X(name, type, category, stable), TS lists T(name, type) called with a projection only, FS lists F(name, type, n).
#include "core.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <algorithm>
#include <string>
#include <vector>
#include <cpp-sort/utility/iter_move.h>
#include <cpp-sort/utility/functional.h>
namespace px {
using namespace mc;
static int custom = 0;                          // inside a customisation point
static u64 n_move, n_swap;
struct Custom { Custom() { ++custom; } ~Custom() { --custom; } };
static bool stored(const void* p) { auto c = static_cast<const char*>(p); return c >= W().lo && c < W().hi; }
struct PE {
    int key, id; u32 state; bool released; const PE* self;
    PE(): key(-9999), id(-1), state(MOVED), released(false), self(this) { ++W().live; }      // for the fixed-size buffers
    PE(int k, int i): key(k), id(i), state(ALIVE), released(false), self(this) { ++W().live; }
    PE(PE&& o) noexcept: key(o.key), id(o.id), state(o.state), released(false), self(this) { ++W().live; o.leave(); }
    PE& operator=(PE&& o) noexcept {
        check("assign to"); o.check("assign from");
        if (this == &o) { state = MOVED; key = -7777777; return *this; }      // its value is lost, unless a copy is kept aside
        if (stored(this) && state == ALIVE) fail("element %d is overwritten before it was moved out of the collection", id);
        key = o.key; id = o.id; state = o.state; released = false;
        o.leave();
        return *this;
    }
    ~PE() { check("destroy"); --W().live; *const_cast<volatile u32*>(&state) = DEAD; self = nullptr; }
    void leave() {
        check("move from"); ++W().moves;
        if (state == ALIVE && stored(this) && !custom && !released) fail("element %d is moved out of the collection without iter_move", id);
        state = MOVED; key = -7777777; released = false;
    }
    void check(const char* what) const { if (self != this || (state != ALIVE && state != MOVED)) fail("%s: not a live element: lifetime error or bitwise copy", what); }
    friend void swap(PE& a, PE& b) noexcept {
        if ((stored(&a) || stored(&b)) && !custom) fail("elements of the collection are swapped without iter_swap");
        std::swap(a.key, b.key); std::swap(a.id, b.id); std::swap(a.state, b.state); ++W().swaps;
    }
};
struct Taken { PE v; Taken() = default; Taken(PE&& e): v(std::move(e)) {} Taken(Taken&&) = default; Taken& operator=(Taken&&) = default; };   // what iter_move returns when it is not the value type
static PE* deref(PE* p) { if (!stored(p)) fail("iterator dereferenced outside [first, last) (offset %ld)", long(reinterpret_cast<const char*>(p) - W().lo) / long(sizeof(PE))); return p; }
struct Ref {                                    // a proxy: knows when it is used after its end of life
    PE* p; u32 state;
    explicit Ref(PE* q): p(q), state(ALIVE) {}
    Ref(const Ref& o): p(o.get_ptr()), state(ALIVE) {}
    ~Ref() { *const_cast<volatile u32*>(&state) = DEAD; *const_cast<PE* volatile*>(&p) = nullptr; }
    PE* get_ptr() const { if (*const_cast<const volatile u32*>(&state) != ALIVE) fail("a proxy is used after its end of life"); return p; }
    Ref& operator=(const Ref&) = delete;
    const Ref& operator=(PE&& o) const { Custom c; *get_ptr() = std::move(o); return *this; }
    const Ref& operator=(Taken&& o) const { Custom c; *get_ptr() = std::move(o.v); return *this; }
};
inline const PE& get(const PE& e) { return e; }
inline const PE& get(const Taken& t) { return t.v; }
inline const PE& get(const Ref& r) { return *r.get_ptr(); }
inline void looked(const PE& e, const char* what) { e.check(what); if (e.state != ALIVE) fail("%s received a moved-from element", what); World& w = W(); w.trace = (w.trace ^ u64(u32(e.id))) * 0x9E3779B97F4A7C15ull; w.trace ^= w.trace >> 29; }
inline void counted() { World& w = W(); if (++w.cmps > w.cmp_budget) fail("more than %lu comparisons: the sort does not terminate", w.cmp_budget); }
struct PLess { template<typename A, typename B> bool operator()(const A& a, const B& b) const { counted(); looked(get(a), "comparator"); looked(get(b), "comparator"); return get(a).key < get(b).key; } };
struct PKey { template<typename A> int operator()(const A& a) const { looked(get(a), "projection"); return get(a).key; } };
struct PKeyGreater { bool operator()(int a, int b) const { counted(); return b < a; } };
// Kind 0: references, iter_move returns a rvalue reference, own iter_swap; 1: references, iter_move returns a value, no iter_swap;
//      2: proxies, iter_move returns a value, own iter_swap; 3: proxies, iter_move returns another type, no iter_swap
template<int Kind, int Cat> struct PIt {
    using value_type = std::conditional_t<Kind == 3, Taken, PE>; using difference_type = std::ptrdiff_t; using pointer = PE*;
    using reference = std::conditional_t<(Kind < 2), PE&, Ref>;
    using iterator_category = std::conditional_t<Cat == 0, std::forward_iterator_tag, std::conditional_t<Cat == 1, std::bidirectional_iterator_tag, std::random_access_iterator_tag>>;
    PE* p = nullptr;
    PIt() = default;
    explicit PIt(PE* q): p(q) {}
    static PE& ref(PE* q, std::true_type) { return *deref(q); }
    static Ref ref(PE* q, std::false_type) { return Ref(deref(q)); }
    reference operator*() const { return ref(p, std::integral_constant<bool, (Kind < 2)>{}); }
    pointer operator->() const { return deref(p); }
    PIt& operator++() { ++p; return *this; } PIt operator++(int) { PIt t = *this; ++p; return t; }
#define RQ(n) template<int C = Cat, typename = std::enable_if_t<(C >= n)>>
    RQ(1) PIt& operator--() { --p; return *this; } RQ(1) PIt operator--(int) { PIt t = *this; --p; return t; }
    RQ(2) PIt& operator+=(difference_type d) { p += d; return *this; } RQ(2) PIt& operator-=(difference_type d) { p -= d; return *this; }
    RQ(2) friend PIt operator+(PIt a, difference_type d) { a.p += d; return a; } RQ(2) friend PIt operator+(difference_type d, PIt a) { a.p += d; return a; }
    RQ(2) friend PIt operator-(PIt a, difference_type d) { a.p -= d; return a; } RQ(2) friend difference_type operator-(const PIt& a, const PIt& b) { return a.p - b.p; }
    RQ(2) reference operator[](difference_type d) const { return *PIt(p + d); }
    RQ(2) friend bool operator<(const PIt& a, const PIt& b) { return a.p < b.p; } RQ(2) friend bool operator>(const PIt& a, const PIt& b) { return a.p > b.p; }
    RQ(2) friend bool operator<=(const PIt& a, const PIt& b) { return a.p <= b.p; } RQ(2) friend bool operator>=(const PIt& a, const PIt& b) { return a.p >= b.p; }
#undef RQ
    friend bool operator==(const PIt& a, const PIt& b) { return a.p == b.p; } friend bool operator!=(const PIt& a, const PIt& b) { return a.p != b.p; }
};
inline PE* leaving(PE* p) { ++n_move; return deref(p); }       // exchanging an element with itself may move it twice
template<int Cat> PE&& iter_move(PIt<0, Cat> i) { leaving(i.p)->released = true; return std::move(*i.p); }
template<int Cat> PE iter_move(PIt<1, Cat> i) { Custom c; return PE(std::move(*leaving(i.p))); }
template<int Cat> PE iter_move(PIt<2, Cat> i) { Custom c; return PE(std::move(*leaving(i.p))); }
template<int Cat> Taken iter_move(PIt<3, Cat> i) { Custom c; return Taken(std::move(*leaving(i.p))); }
inline void swap_elems(PE* a, PE* b) { Custom c; ++n_swap; deref(a); deref(b); if (a->state != ALIVE || b->state != ALIVE) fail("iter_swap on an element that was moved out"); swap(*a, *b); }
template<int Cat> void iter_swap(PIt<0, Cat> a, PIt<0, Cat> b) { swap_elems(a.p, b.p); }
template<int Cat> void iter_swap(PIt<2, Cat> a, PIt<2, Cat> b) { swap_elems(a.p, b.p); }
} // namespace px
using namespace mc;
using px::PE; using px::PIt;
namespace ut = cppsort::utility;
static Arr<PE>& store() { static Arr<PE> a; return a; }
static Arr<PE>& arm(const Input& in) { Arr<PE>& a = store(); a.fill(in.k, in.n); W().reset(); W().lo = reinterpret_cast<const char*>(a.d); W().hi = reinterpret_cast<const char*>(a.d + a.n); W().cmp_budget = generous_budget(in.n); px::n_move = px::n_swap = 0; px::custom = 0; return a; }
static void done(const char* who, const char* form, const Input& in, bool desc, bool stable) {
    char b[160]; snprintf(b, sizeof b, "%s(%s)", who, form);
    if (W().live != in.n) fail("%s: %ld live elements", b, long(W().live));
    check_sorted_perm(b, store().d, in.n, in.k.data(), desc, stable);
    note_behaviour(W().trace);
    count_eval(!in.sorted(), W().cmps);
}
template<int Kind, int Cat, typename S> static void direct(const char* who, const S& s, const Input& in, bool stable, const char* kind, std::integral_constant<int, 0>) {
    Arr<PE>& a = arm(in);
    s(PIt<Kind, Cat>(a.d), PIt<Kind, Cat>(a.d + a.n), px::PLess{});
    done(who, kind, in, false, stable);
}
template<int Kind, int Cat, typename S> static void direct(const char* who, const S& s, const Input& in, bool stable, const char* kind, std::integral_constant<int, 1>) {
    Arr<PE>& a = arm(in);
    s(PIt<Kind, Cat>(a.d), PIt<Kind, Cat>(a.d + a.n), px::PKeyGreater{}, px::PKey{});
    done(who, kind, in, true, stable);
}
// through reverse iterators: the sequence is sorted backwards, and equivalent elements keep their order seen from the end
template<int Kind, int Cat, typename S> static void reversed(const char* who, const S& s, const Input& in, bool stable, const char* kind) {
    Arr<PE>& a = arm(in);
    using R = std::reverse_iterator<PIt<Kind, Cat>>;
    s(R(PIt<Kind, Cat>(a.d + a.n)), R(PIt<Kind, Cat>(a.d)), px::PLess{});
    char b[160]; snprintf(b, sizeof b, "%s(reverse iterators, %s)", who, kind);
    if (W().live != in.n) fail("%s: %ld live elements", b, long(W().live));
    check_sorted_perm(b, a.d, in.n, in.k.data(), true, stable);
    note_behaviour(W().trace);
    count_eval(!in.sorted(), W().cmps);
}
static const char* kinds[] = {"references, iter_move, iter_swap", "references, iter_move by value", "proxies, iter_move, iter_swap", "proxies, iter_move to another type"};
static std::vector<Space> spaces(bool big) {
    bool t = thorough();
    std::vector<Space> sp;
    for (int n = 0; n <= (t && big ? 6 : 5); ++n) sp.push_back(weak_orders(n));
    sp.push_back(words(2, t ? 10 : 8)); sp.push_back(perms(t && big ? 7 : 6));
    for (int n : {7, 9, 12, 16, 17, 24, 33, 40, 64, 65, 81, 100, 130, 200}) sp.push_back(shapes(n));
    sp.push_back(linear_mod(67, 30)); sp.push_back(linear_mod_few(67, 67, 5)); sp.push_back(inversive_mod(131, 131, 20));
    if (big) sp.push_back(shapes(300)), sp.push_back(shapes(600)), sp.push_back(linear_mod(509, 6)), sp.push_back(linear_mod_few(521, 521, 23)), sp.push_back(rotations(50, 1, 1)), sp.push_back(switch_words(2, 26, 2)), sp.push_back(linear_mod(101, 101));
    if (t) sp.push_back(perms(8)), sp.push_back(shuffles(40)), sp.push_back(inversive_mod(257, 257, 257));
    return sp;
}
template<int N> using ic = std::integral_constant<int, N>;
// elements and iterators that overload whatever may be overloaded: a sorter moves, compares and projects, and does nothing else
struct Hostile {
    int key = -1, id = -1;
    Hostile(): id(-2) {}
    Hostile(int k, int i): key(k), id(i) {}
    Hostile(Hostile&& o) noexcept: key(o.key), id(o.id) { if (&as(o) != &as(*this)) o.id = -2; }
    Hostile& operator=(Hostile&& o) noexcept { if (&as(o) == &as(*this)) return *this; key = o.key; id = o.id; o.id = -2; return *this; }
    template<typename T, typename = std::enable_if_t<!std::is_same<std::decay_t<T>, Hostile>::value>> Hostile(T&&) { fail("an element is made from something else"); }
    Hostile(std::initializer_list<Hostile>) { fail("an element is made from a list of elements"); }
    template<typename T> void operator,(T&&) const = delete;
    Hostile* operator&() const = delete;
    static void* operator new(std::size_t) = delete;
    template<typename T> bool operator<(const T&) const = delete; template<typename T> bool operator==(const T&) const = delete; template<typename T> bool operator!=(const T&) const = delete;
    struct Bits { int key, id; };
    static const Bits& as(const Hostile& h) { return reinterpret_cast<const Bits&>(h); }
};
struct HLess { bool operator()(const Hostile& a, const Hostile& b) const { counted_(); if (a.id < 0 || b.id < 0) fail("a moved-from element is compared"); return a.key < b.key; } static void counted_() { World& w = W(); if (++w.cmps > w.cmp_budget) fail("more than %lu comparisons: the sort does not terminate", w.cmp_budget); } template<typename T> void operator,(T&&) const = delete; };
struct HKey { const int& operator()(const Hostile& a) const { if (a.id < 0) fail("a moved-from element is projected"); return a.key; } template<typename T> void operator,(T&&) const = delete; };
template<typename D, int Cat> struct NIt {
    using value_type = Hostile; using difference_type = D; using pointer = Hostile*; using reference = Hostile&;
    using iterator_category = std::conditional_t<Cat == 0, std::forward_iterator_tag, std::conditional_t<Cat == 1, std::bidirectional_iterator_tag, std::random_access_iterator_tag>>;
    Hostile* p = nullptr;
    NIt() = default;
    explicit NIt(Hostile* q): p(q) {}
    NIt* operator&() const = delete;
    reference operator*() const { return *p; } pointer operator->() const { return p; }
    NIt& operator++() { ++p; return *this; } NIt operator++(int) { NIt t = *this; ++p; return t; }
#define RQ(n) template<int C = Cat, typename = std::enable_if_t<(C >= n)>>
    RQ(1) NIt& operator--() { --p; return *this; } RQ(1) NIt operator--(int) { NIt t = *this; --p; return t; }
    RQ(2) NIt& operator+=(D d) { p += d; return *this; } RQ(2) NIt& operator-=(D d) { p -= d; return *this; }
    RQ(2) friend NIt operator+(NIt a, D d) { a.p += d; return a; } RQ(2) friend NIt operator+(D d, NIt a) { a.p += d; return a; }
    RQ(2) friend NIt operator-(NIt a, D d) { a.p -= d; return a; } RQ(2) friend D operator-(const NIt& a, const NIt& b) { if (a.p - b.p != std::ptrdiff_t(D(a.p - b.p))) fail("a difference that is out of range"); return D(a.p - b.p); }
    RQ(2) reference operator[](D d) const { return p[d]; }
    RQ(2) friend bool operator<(const NIt& a, const NIt& b) { return a.p < b.p; } RQ(2) friend bool operator>(const NIt& a, const NIt& b) { return a.p > b.p; }
    RQ(2) friend bool operator<=(const NIt& a, const NIt& b) { return a.p <= b.p; } RQ(2) friend bool operator>=(const NIt& a, const NIt& b) { return a.p >= b.p; }
#undef RQ
    friend bool operator==(const NIt& a, const NIt& b) { return a.p == b.p; } friend bool operator!=(const NIt& a, const NIt& b) { return a.p != b.p; }
};
#ifndef DIFF
#define DIFF int
#endif
template<int Cat, bool Proj, typename S> static void hostile(const char* who, const S& s, const Input& in, bool stable) {
    World& w = W(); w.reset(); w.cmp_budget = generous_budget(in.n);
    auto* d = static_cast<Hostile*>(::operator new(sizeof(Hostile) * std::size_t(in.n ? in.n : 1)));
    for (int i = 0; i < in.n; ++i) ::new (static_cast<void*>(d + i)) Hostile(in[i], i);
    using I = NIt<DIFF, Cat>;
    if (Proj) s(I(d), I(d + in.n), std::greater<>{}, HKey{}); else s(I(d), I(d + in.n), HLess{});
    static std::vector<unsigned char> seen; seen.assign(std::size_t(in.n), 0);
    for (int i = 0; i < in.n; ++i) {
        if (d[i].id < 0 || d[i].id >= in.n || seen[std::size_t(d[i].id)]++ || d[i].key != in[d[i].id]) fail("%s(elements and iterators with their own operators): the result is no permutation of the input at position %d", who, i);
        if (i && (Proj ? d[i - 1].key < d[i].key : d[i].key < d[i - 1].key)) fail("%s(elements and iterators with their own operators): not sorted at position %d", who, i);
        if (i && stable && d[i - 1].key == d[i].key && d[i - 1].id > d[i].id) fail("%s(elements and iterators with their own operators): not stable at position %d", who, i);
    }
    ::operator delete(d);
    count_eval(!in.sorted(), w.cmps);
}
static std::vector<Space> hostile_spaces() {
    std::vector<Space> sp{weak_orders(0), weak_orders(1), weak_orders(3), weak_orders(4), weak_orders(5), words(2, 7), linear_mod(67, 20), linear_mod_few(521, 521, 23), inversive_mod(131, 131, 20)};
    for (int n : {7, 12, 16, 17, 24, 33, 40, 65, 100, 130, 300, 1100}) sp.push_back(shapes(n));
    if (thorough()) append(sp, {weak_orders(6), words(2, 10), linear_mod(257, 257), inversive_mod(2053, 2053, 40)});
    return sp;
}
template<typename V> static void bools(const char* who, const V& s) {
    std::vector<Space> sp{words(2, 0), words(2, 1), words(2, 2), words(2, 3), words(2, 5), words(2, 9), words(2, thorough() ? 14 : 11), linear_mod_few(127, 127, 2), switch_words(2, 40, 2), shapes(300), shapes(2000)};
    const char* w = who;
    add_space_jobs(std::string(who) + "/vector<bool>", sp, [=](const Input& in) {
        std::vector<bool> v, r; int ones = 0;
        for (int i = 0; i < in.n; ++i) { bool x = in[i] & 1; v.push_back(x); ones += x; }
        r = v;
        s(v.begin(), v.end());
        for (int i = 0; i < in.n; ++i) if (v[std::size_t(i)] != (i >= in.n - ones)) fail("%s(vector<bool>): wrong value at position %d", w, i);
#if __cplusplus <= 201703L
        s(r.rbegin(), r.rend());
        for (int i = 0; i < in.n; ++i) if (r[std::size_t(i)] != (i < ones)) fail("%s(reversed vector<bool>): wrong value at position %d", w, i);
#endif
        count_eval(!in.sorted(), 1);
    });
}
template<typename S, int Cat, bool Stable, int Forms> static void all(const char* name) {
    const char* who = name;
    static S s;
    add_space_jobs(std::string(name) + "/references", spaces(true), [=](const Input& in) { direct<0, Cat>(who, s, in, Stable, kinds[0], ic<0>{}); direct<1, Cat>(who, s, in, Stable, kinds[1], ic<1>{}); });
    add_space_jobs(std::string(name) + "/proxies", spaces(true), [=](const Input& in) { direct<2, Cat>(who, s, in, Stable, kinds[2], ic<0>{}); });
#if FULL
    add_space_jobs(std::string(name) + "/more", spaces(false), [=](const Input& in) {
        direct<0, Cat>(who, s, in, Stable, kinds[0], ic<1>{}); direct<1, Cat>(who, s, in, Stable, kinds[1], ic<0>{});
        direct<2, Cat>(who, s, in, Stable, kinds[2], ic<1>{}); direct<3, Cat>(who, s, in, Stable, kinds[3], ic<0>{}); direct<3, Cat>(who, s, in, Stable, kinds[3], ic<1>{});
    });
    constexpr int R = Cat < 1 ? 1 : Cat;
    add_space_jobs(std::string(name) + "/reverse", spaces(false), [=](const Input& in) { reversed<0, R>(who, s, in, Stable, kinds[0]); });
#if __cplusplus <= 201703L
    add_space_jobs(std::string(name) + "/reverse proxies", spaces(false), [=](const Input& in) { reversed<1, R>(who, s, in, Stable, kinds[1]); reversed<2, R>(who, s, in, Stable, kinds[2]); });
#endif
#endif
    bools(name, s);
    add_space_jobs(std::string(name) + "/own operators", hostile_spaces(), [=](const Input& in) { hostile<Cat, false>(who, s, in, Stable); hostile<Cat, true>(who, s, in, Stable); });
}
template<typename S> static void typed(const char* name) {
    const char* who = name;
    static S s;
    add_space_jobs(std::string(name) + "/projected", spaces(true), [=](const Input& in) {
        { Arr<PE>& a = arm(in); s(PIt<0, 2>(a.d), PIt<0, 2>(a.d + a.n), px::PKey{}); done(who, kinds[0], in, false, false); }
        { Arr<PE>& a = arm(in); s(PIt<1, 2>(a.d), PIt<1, 2>(a.d + a.n), px::PKey{}); done(who, kinds[1], in, false, false); }
        { Arr<PE>& a = arm(in); s(PIt<2, 2>(a.d), PIt<2, 2>(a.d + a.n), px::PKey{}); done(who, kinds[2], in, false, false); }
        { Arr<PE>& a = arm(in); s(PIt<3, 2>(a.d), PIt<3, 2>(a.d + a.n), px::PKey{}); done(who, kinds[3], in, false, false); }
    });
}
template<typename S> static void fixed_size(const char* name, int n) {
    const char* who = name;
    static S s;
    std::vector<Space> sp;
    if (n <= 6) sp.push_back(weak_orders(n));
    if (n <= (thorough() ? 8 : 6)) sp.push_back(perms(n));
    if (n <= (thorough() ? 16 : 10)) sp.push_back(words(2, n));
    sp.push_back(shapes(n)), sp.push_back(shuffles(n)), sp.push_back(rotations(n, 1, 1));
    add_space_jobs(std::string(name), sp, [=](const Input& in) {
        direct<0, 2>(who, s, in, false, kinds[0], ic<0>{}); direct<1, 2>(who, s, in, false, kinds[1], ic<1>{});
        direct<2, 2>(who, s, in, false, kinds[2], ic<0>{}); direct<3, 2>(who, s, in, false, kinds[3], ic<0>{});
        std::vector<bool> v; int ones = 0;
        for (int i = 0; i < in.n; ++i) { bool x = in[i] & 1; v.push_back(x); ones += x; }
        s(v.begin(), v.end());
        for (int i = 0; i < in.n; ++i) if (v[std::size_t(i)] != (i >= in.n - ones)) fail("%s(vector<bool>): wrong value at position %d", who, i);
    });
}
// the functions themselves, through every nesting of reverse and move iterators
template<int Kind, typename MakeIt> static void nest(const char* how, int n, MakeIt make) {
    // for all positions i: take it out, put it back; for all pairs: swap
    Input in; in.n = n; in.k.resize(std::size_t(n)); for (int i = 0; i < n; ++i) in.k[std::size_t(i)] = i;
    for (int i = 0; i < n; ++i) {
        Arr<PE>& a = arm(in);
        {
            using ut::iter_move;
            auto it = make(PIt<Kind, 2>(a.d + i));
            auto x = iter_move(it);
            if (px::n_move != 1) fail("iter_move(%s): the customisation ran %lu times", how, px::n_move);
            const PE& e = px::get(x);
            if (e.state != ALIVE || e.id != i) fail("iter_move(%s) returned the wrong element", how);
            if (a.d[i].state != MOVED) fail("iter_move(%s) did not move from the element", how);
            static_assert(std::is_same<std::decay_t<ut::rvalue_reference_t<decltype(it)>>, std::conditional_t<Kind == 3, px::Taken, PE>>::value, "");
            *PIt<Kind, 2>(a.d + i) = std::move(x);
        }
        check_sorted_perm(how, a.d, n, in.k.data());
        count_eval(true, 1);
        for (int j = 0; j < n; ++j) {
            Arr<PE>& b = arm(in);
            using ut::iter_swap;
            iter_swap(make(PIt<Kind, 2>(b.d + i)), make(PIt<Kind, 2>(b.d + j)));
            if (Kind % 2 == 0 ? px::n_swap != 1 || px::n_move : px::n_swap || px::n_move != 2) fail("iter_swap(%s): the customisation points ran %lu and %lu times", how, px::n_swap, px::n_move);
            for (int k = 0; k < n; ++k) { int want = k == i ? j : k == j ? i : k; if (b.d[k].state != ALIVE || b.d[k].id != want) fail("iter_swap(%s): wrong element at %d", how, k); }
            count_eval(true, 1);
        }
    }
}
template<typename I> static std::reverse_iterator<I> rv(I i) { return std::reverse_iterator<I>(std::next(i)); }
template<typename I> static std::move_iterator<I> mv(I i) { return std::move_iterator<I>(i); }
template<int Kind> static void nests(const char* name) {
    std::string n = name;
    add_job("iter_move/" + n, 1, [=](u64) {
        for (int z : {1, 2, 3, 5}) {
            nest<Kind>("the iterator itself", z, [](auto i) { return i; });
#if __cplusplus <= 201703L
            // since C++20 iter_move and iter_swap on reverse_iterator and move_iterator are specified by the standard library
            nest<Kind>("reverse_iterator", z, [](auto i) { return rv(i); });
            nest<Kind>("reverse_iterator of reverse_iterator", z, [](auto i) { return rv(rv(i)); });
            nest<Kind>("move_iterator", z, [](auto i) { return mv(i); });
            nest<Kind>("move_iterator of reverse_iterator", z, [](auto i) { return mv(rv(i)); });
#endif
        }
    });
}
MC_JOBS {
#define X(name, type, cat, stable) all<type, cat, stable, 1>(name);
    XS
#define T(name, type) typed<type>(name);
    TS
#define F(name, type, n) fixed_size<type>(name, n);
    FS
#if FUNCTIONS
    nests<0>(kinds[0]); nests<1>(kinds[1]); nests<2>(kinds[2]); nests<3>(kinds[3]);
#endif
}
