// Instrumented world: element, comparator, projection, iterators.
#ifndef MC_ELEM_HPP
#define MC_ELEM_HPP
#include "core.hpp"
#include <iterator>
#include <type_traits>
#include <functional>

namespace mc {

struct Injected { u64 tag; };   // the exception thrown by fault injection

struct World {
    // counters of the current run
    i64 live = 0, iters = 0;      // live elements; live iterators (MC_COUNTED_IT)
    u64 cmps = 0, projs = 0, moves = 0, swaps = 0, selfmoves = 0, selfswaps = 0, iterops = 0;
    u64 trace = 0;       // comparisons and projections, by element identity
    u64 mtrace = 0;      // moves and swaps, by element identity
    unsigned char* moved_ids = nullptr;   // when set: marks the ids of the elements moved or swapped
    int moved_ids_n = 0;
    void note_move(int id, u64 kind) { if (moved_ids && id >= 0 && id < moved_ids_n) moved_ids[id] = 1; mtrace = (mtrace ^ (u64(u32(id)) * 8 + kind)) * 0x9E3779B97F4A7C15ull; mtrace ^= mtrace >> 31; }
    // limits
    u64 cmp_budget = ~0ull;
    // fault injection: throw when the corresponding counter reaches this value (1-based), 0 = never
    u64 throw_cmp = 0, throw_proj = 0, throw_move = 0, throw_any = 0;
    u64 any = 0;         // all injectable points
    u64 thrown = 0;
    // scheduling hook called at each callback point (C08)
    void (*point)() = nullptr;
    // checked range for iterators
    const char* lo = nullptr; const char* hi = nullptr;
    bool strict_self_move = false;
    void reset() {
        i64 l = live; bool s = strict_self_move; *this = World{}; live = l; strict_self_move = s;
    }
};
inline World& W() { static World w; return w; }

[[noreturn]] inline void throw_injected() { ++W().thrown; throw Injected{W().thrown}; }
inline void fault_point(u64 counter, u64 at) {
    World& w = W();
    ++w.any;
    if (at && counter == at) throw_injected();
    if (w.throw_any && w.any == w.throw_any) throw_injected();
}

enum : u32 { ALIVE = 0xA11FE11Fu, MOVED = 0x303ED000u, DEAD = 0xDEADBEEFu };

// Move-only element. Tag: 0 = not default-constructible, noexcept moves; 1 = default constructible; 2 = throwing moves
template<int Tag>
struct ElemT {
    int key; int id;
    u32 state;
    const ElemT* self;

    ElemT(int k, int i): key(k), id(i), state(ALIVE), self(this) { ++W().live; }
    ElemT(const ElemT&) = delete;
    ElemT& operator=(const ElemT&) = delete;
    ElemT(ElemT&& o) noexcept(Tag != 2) : key(o.key), id(o.id), state(o.state), self(this) {
        if (W().point) W().point();
        o.check("move-construct from");
        ++W().moves;
        W().note_move(o.id, 1);
        if (Tag == 2) { state = DEAD; fault_point(W().moves, W().throw_move); state = o.state; }
        o.state = MOVED; o.key = -7777777; // a moved-from value must never matter
        ++W().live;
    }
    ElemT& operator=(ElemT&& o) noexcept(Tag != 2) {
        if (W().point) W().point();
        check("assign to"); o.check("move-assign from");
        ++W().moves;
        W().note_move(o.id, 2);
        if (Tag == 2) fault_point(W().moves, W().throw_move);
        if (this == &o) {
            ++W().selfmoves;
            if (W().strict_self_move && o.state == ALIVE) fail("an element was move-assigned to itself");
            state = MOVED;
            return *this;
        }
        key = o.key; id = o.id; state = o.state;
        o.state = MOVED; o.key = -7777777;
        return *this;
    }
    ~ElemT() { check("destroy"); --W().live; state = DEAD; self = nullptr; }
    void check(const char* what) const {
        if (self != this || (state != ALIVE && state != MOVED))
            fail("%s: object at %p is not a live element (state %08x): lifetime error or bitwise copy", what, (const void*)this, state);
    }
    void check_alive(const char* what) const {
        check(what);
        if (state != ALIVE) fail("%s received a moved-from element", what);
    }
    friend void swap(ElemT& a, ElemT& b) noexcept(Tag != 2) {
        if (W().point) W().point();
        a.check("swap"); b.check("swap");
        ++W().swaps; W().moves += 3;
        W().note_move(a.id, 3); W().note_move(b.id, 4);
        if (Tag == 2) fault_point(W().moves, 0);
        if (&a == &b) { ++W().selfswaps; return; }
        std::swap(a.key, b.key); std::swap(a.id, b.id); std::swap(a.state, b.state);
    }
    friend bool operator<(const ElemT& a, const ElemT& b) { return cmp(a, b); }
    friend bool operator>(const ElemT& a, const ElemT& b) { return cmp(b, a); }
    static bool cmp(const ElemT& a, const ElemT& b) {
        World& w = W();
        if (w.point) w.point();
        a.check_alive("comparator"); b.check_alive("comparator");
        ++w.cmps;
        w.trace = (w.trace ^ (u64(u32(a.id)) << 32 | u32(b.id))) * 0x9E3779B97F4A7C15ull; w.trace ^= w.trace >> 29;
        if (w.cmps > w.cmp_budget) fail("more than %lu comparisons: the sort does not terminate or exceeds any documented complexity", w.cmp_budget);
        fault_point(w.cmps, w.throw_cmp);
        return a.key < b.key;
    }
};
using Elem = ElemT<0>;
struct DElem : ElemT<1> {
    DElem(): ElemT<1>(-9999, -1) { state = MOVED; }
    DElem(int k, int i): ElemT<1>(k, i) {}
    DElem(DElem&&) = default;
    DElem& operator=(DElem&&) = default;
};
using TElem = ElemT<2>;
struct DTElem : ElemT<2> {
    DTElem(): ElemT<2>(-9999, -1) { state = MOVED; }
    DTElem(int k, int i): ElemT<2>(k, i) {}
    DTElem(DTElem&&) = default;
    DTElem& operator=(DTElem&&) = default;
};

// comparators --------------------------------------------------------------
struct Less {
    template<typename E> bool operator()(const E& a, const E& b) const { return E::cmp(a, b); }
};
struct Greater {
    template<typename E> bool operator()(const E& a, const E& b) const { return E::cmp(b, a); }
};
// comparator on projected ints
template<bool Desc = false>
struct KeyLess {
    bool operator()(int a, int b) const {
        World& w = W();
        if (w.point) w.point();
        ++w.cmps;
        if (w.cmps > w.cmp_budget) fail("more than %lu comparisons: the sort does not terminate or exceeds any documented complexity", w.cmp_budget);
        fault_point(w.cmps, w.throw_cmp);
        return Desc ? b < a : a < b;
    }
};
// projection
struct KeyOf {
    template<typename E> int operator()(const E& e) const {
        World& w = W();
        if (w.point) w.point();
        e.check_alive("projection");
        ++w.projs;
        w.trace = (w.trace ^ u64(u32(e.id))) * 0x9E3779B97F4A7C15ull; w.trace ^= w.trace >> 29;
        if (w.projs > 4 * w.cmp_budget) fail("too many projections: the sort does not terminate");
        fault_point(w.projs, w.throw_proj);
        return e.key;
    }
};

// checked iterators ----------------------------------------------------------
// Cat: 0 forward, 1 bidirectional, 2 random access; only that category's operations exist.
template<typename T, int Cat>
struct It {
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    using iterator_category = std::conditional_t<Cat == 0, std::forward_iterator_tag,
        std::conditional_t<Cat == 1, std::bidirectional_iterator_tag, std::random_access_iterator_tag>>;
    T* p = nullptr;
#ifdef MC_COUNTED_IT    // iterators with a lifetime of their own: counted, and marked once they are destroyed
    u32 mark = 0x17e4a70e;
    It() { ++W().iters; }
    explicit It(T* q): p(q) { ++W().iters; }
    It(const It& o): p(o.p) { o.check_it(); ++W().iters; }
    It& operator=(const It& o) { check_it(); o.check_it(); p = o.p; return *this; }
    ~It() { check_it(); mark = 0xdeadbeef; --W().iters; }
    void check_it() const { if (mark != 0x17e4a70e) fail("an iterator object is used %s", mark == 0xdeadbeef ? "after its destruction" : "without having been constructed"); }
#else
    It() = default;
    explicit It(T* q): p(q) {}
#endif
    static void in_range(const T* q, const char* what) {
        auto c = reinterpret_cast<const char*>(q);
        if (c < W().lo || c > W().hi) fail("iterator %s outside [first, last] (offset %ld from first)", what, long(c - W().lo) / long(sizeof(T)));
    }
    reference operator*() const {
        auto c = reinterpret_cast<const char*>(p);
        if (c < W().lo || c >= W().hi) fail("iterator dereferenced outside [first, last) (offset %ld from first)", long(c - W().lo) / long(sizeof(T)));
        return *p;
    }
    pointer operator->() const { return &**this; }
    It& operator++() { ++W().iterops; in_range(p + 1, "incremented"); ++p; return *this; }
    It operator++(int) { It t = *this; ++*this; return t; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 1)>> It& operator--() { ++W().iterops; in_range(p - 1, "decremented"); --p; return *this; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 1)>> It operator--(int) { It t = *this; --*this; return t; }
    friend bool operator==(const It& a, const It& b) { return a.p == b.p; }
    friend bool operator!=(const It& a, const It& b) { return a.p != b.p; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> It& operator+=(difference_type d) { ++W().iterops; in_range(p + d, "advanced"); p += d; return *this; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> It& operator-=(difference_type d) { ++W().iterops; in_range(p - d, "advanced"); p -= d; return *this; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> friend It operator+(It a, difference_type d) { a += d; return a; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> friend It operator+(difference_type d, It a) { a += d; return a; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> friend It operator-(It a, difference_type d) { a -= d; return a; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> friend difference_type operator-(const It& a, const It& b) { return a.p - b.p; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> reference operator[](difference_type d) const { return *(*this + d); }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> friend bool operator<(const It& a, const It& b) { return a.p < b.p; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> friend bool operator>(const It& a, const It& b) { return a.p > b.p; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> friend bool operator<=(const It& a, const It& b) { return a.p <= b.p; }
    template<int C = Cat, typename = std::enable_if_t<(C >= 2)>> friend bool operator>=(const It& a, const It& b) { return a.p >= b.p; }
};

// storage of n elements, constructed in place --------------------------------
template<typename E>
struct Arr {
    E* d = nullptr; int n = 0; int cap = 0;
    Arr() = default;
    Arr(const Arr&) = delete;
    ~Arr() { clear(); ::operator delete(d); }
    void clear() { for (int i = 0; i < n; ++i) d[i].~E(); n = 0; }
    template<typename Keys>
    void fill(const Keys& keys, int m) {
        clear();
        if (m > cap) { ::operator delete(d); cap = m * 2; d = static_cast<E*>(::operator new(sizeof(E) * std::size_t(cap))); }
        for (; n < m; ++n) ::new (static_cast<void*>(d + n)) E(keys[n], n);
    }
    template<int Cat> It<E, Cat> begin() { return It<E, Cat>(d); }
    template<int Cat> It<E, Cat> end() { return It<E, Cat>(d + n); }
    void arm() { W().lo = reinterpret_cast<const char*>(d); W().hi = reinterpret_cast<const char*>(d + n); }
};

// oracle: ordered permutation of the input -------------------------------------
template<typename Get>
inline void check_sorted_perm_by(const char* who, int n, const int* keys, bool desc, bool stable, Get get) {
    static std::vector<unsigned char> seen;
    seen.assign(std::size_t(n), 0);
    int pk = 0, pid = -1;
    for (int i = 0; i < n; ++i) {
        auto& e = get(i);
        if (e.self != &e || e.state != ALIVE) fail("%s: position %d holds a %s element after the sort", who, i, e.state == MOVED ? "moved-from" : "dead");
        if (e.id < 0 || e.id >= n || seen[std::size_t(e.id)]) fail("%s: element id %d at position %d is duplicated or unknown: the result is not a permutation of the input", who, e.id, i);
        seen[std::size_t(e.id)] = 1;
        if (e.key != keys[e.id]) fail("%s: element %d changed value from %d to %d", who, e.id, keys[e.id], e.key);
        if (i) {
            bool bad = desc ? pk < e.key : e.key < pk;
            if (bad) fail("%s: not sorted at position %d (%d before %d)", who, i, pk, e.key);
            if (stable && pk == e.key && pid > e.id) fail("%s: not stable at position %d: equivalent elements %d and %d were reordered", who, i, e.id, pid);
        }
        pk = e.key; pid = e.id;
    }
}
template<typename E>
inline void check_sorted_perm(const char* who, const E* d, int n, const int* keys, bool desc = false, bool stable = false) {
    check_sorted_perm_by(who, n, keys, desc, stable, [d](int i) -> const E& { return d[i]; });
}
template<typename E>
inline void check_perm(const char* who, const E* d, int n, const int* keys, bool allow_moved) {
    static std::vector<unsigned char> seen;
    seen.assign(std::size_t(n), 0);
    for (int i = 0; i < n; ++i) {
        auto& e = d[i];
        if (e.self != &e || (e.state != ALIVE && e.state != MOVED)) fail("%s: position %d holds a dead object", who, i);
        if (e.state == MOVED) { if (!allow_moved) fail("%s: position %d holds a moved-from element", who, i); continue; }
        if (e.id < 0 || e.id >= n || seen[std::size_t(e.id)]) fail("%s: element id %d at position %d is duplicated", who, e.id, i);
        seen[std::size_t(e.id)] = 1;
        if (e.key != keys[e.id]) fail("%s: element %d changed value", who, e.id);
    }
}
inline u64 ilog2(u64 n) { u64 r = 0; while (n >>= 1) ++r; return r; }
// generous deterministic non-termination bound
inline u64 generous_budget(int n) { return u64(64) + 40ull * u64(n) * u64(n < 8 ? 8 : n); }

} // namespace mc
#endif
