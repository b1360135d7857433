// C04: value and lifetime discipline, built with ASan + UBSan; IT_CAT 2 also runs on raw pointers.
#define MC_COUNTED_IT 1
#include "spaces.hpp"
#include "elem.hpp"
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif
// an element that owns memory: a double move/overwrite leaks or double-frees
struct Owner {
    int* p = nullptr;
    Owner() = default;
    explicit Owner(int k): p(new int(k)) {}
    Owner(Owner&& o) noexcept : p(o.p) { o.p = nullptr; }
    Owner& operator=(Owner&& o) noexcept { if (&o == this) { if (p) fail("an element was move-assigned to itself"); return *this; } delete p; p = o.p; o.p = nullptr; return *this; }
    ~Owner() { delete p; }
    friend bool operator<(const Owner& a, const Owner& b) { if (!a.p || !b.p) fail("comparison of a moved-from element"); return *a.p < *b.p; }
    friend void swap(Owner& a, Owner& b) noexcept { std::swap(a.p, b.p); }
};
// the triviality classes the code branches on
// Light: trivially destructible, moves that leave a moved-from mark
struct Light {
    int key, id; const Light* self; u32 state;
    Light(): key(-9999), id(-1), self(this), state(MOVED) {}
    Light(int k, int i): key(k), id(i), self(this), state(ALIVE) {}
    Light(Light&& o) noexcept : key(o.key), id(o.id), self(this), state(o.state) { o.check("move-construct from"); o.state = MOVED; o.key = -7777777; }
    Light& operator=(Light&& o) noexcept {
        check("assign to"); o.check("move-assign from");
        if (this == &o) { if (state == ALIVE) fail("an element was move-assigned to itself"); return *this; }
        key = o.key; id = o.id; state = o.state; o.state = MOVED; o.key = -7777777; return *this;
    }
    void check(const char* what) const { if (self != this || (state != ALIVE && state != MOVED)) fail("%s: object at %p is not a live element: lifetime error or bitwise copy", what, (const void*)this); }
    static bool cmp(const Light& a, const Light& b) { a.check_alive("comparator"); b.check_alive("comparator"); if (++W().cmps > W().cmp_budget) fail("the sort does not terminate"); return a.key < b.key; }
    void check_alive(const char* what) const { check(what); if (state != ALIVE) fail("%s received a moved-from element", what); }
};
static_assert(std::is_trivially_destructible<Light>::value && !std::is_trivially_copyable<Light>::value, "");
// Half: trivially assignable but with counted constructions and destructions
struct Half {
    int key, id; u32 state;
    Half(): key(-9999), id(-1), state(ALIVE) { ++W().live; }
    Half(int k, int i): key(k), id(i), state(ALIVE) { ++W().live; }
    Half(Half&& o) noexcept : key(o.key), id(o.id), state(o.state) { o.check("move-construct from"); ++W().live; }
    Half& operator=(Half&&) = default;
    ~Half() { check("destroy"); --W().live; state = DEAD; }
    void check(const char* what) const { if (state != ALIVE) fail("%s: object at %p is not a live element", what, (const void*)this); }
    void check_alive(const char* what) const { check(what); }
    static bool cmp(const Half& a, const Half& b) { a.check_alive("comparator"); b.check_alive("comparator"); if (++W().cmps > W().cmp_budget) fail("the sort does not terminate"); return a.key < b.key; }
};
static_assert(std::is_trivially_move_assignable<Half>::value && !std::is_trivially_destructible<Half>::value, "");
struct Pod {
    int key, id;
    void check_alive(const char* what) const { if (id < 0) fail("%s received an object that is no element", what); }
    static bool cmp(const Pod& a, const Pod& b) { a.check_alive("comparator"); b.check_alive("comparator"); if (++W().cmps > W().cmp_budget) fail("the sort does not terminate"); return a.key < b.key; }
};
static_assert(std::is_trivial<Pod>::value, "");
// Wide: more aligned than what operator new returns by default
#ifdef __cpp_aligned_new
struct alignas(128) Wide {
    int key, id;
    Wide(): key(-9999), id(-1) { placed(); }
    Wide(int k, int i): key(k), id(i) { placed(); }
    Wide(Wide&& o) noexcept : key(o.key), id(o.id) { placed(); o.id = -2; }
    Wide& operator=(Wide&& o) noexcept { if (this != &o) { key = o.key; id = o.id; o.id = -2; } return *this; }
    ~Wide() { placed(); }
    __attribute__((noinline)) void placed() const { if (address(this) % alignof(Wide)) fail("an object is constructed at %p, which is not suitably aligned for its type", (const void*)this); }
    // the optimiser may take the alignment of the object for granted
    static __attribute__((noipa)) std::uintptr_t address(const void* p) { return reinterpret_cast<std::uintptr_t>(p); }
    void check_alive(const char* what) const { if (id < 0) fail("%s received a moved-from element", what); }
    static bool cmp(const Wide& a, const Wide& b) { a.check_alive("comparator"); b.check_alive("comparator"); if (++W().cmps > W().cmp_budget) fail("the sort does not terminate"); return a.key < b.key; }
};
static bool usable(const Wide& e) { return e.id >= 0; }
#endif
static bool usable(const Light& e) { return e.self == &e && e.state == ALIVE; }
static bool usable(const Half& e) { return e.state == ALIVE; }
static bool usable(const Pod&) { return true; }
template<typename T> static T make(int k, int i) { return T(k, i); }
template<> Pod make<Pod>(int k, int i) { return Pod{k, i}; }
template<typename T, bool Proj> static void kind(const Input& in) {
    static const char* who = std::is_same<T, Light>::value ? "trivially destructible elements" : std::is_same<T, Half>::value ? "trivially assignable elements" : alignof(T) > 16 ? "over-aligned elements" : "trivial elements";
    static auto s = SEXPR;
    World& w = W();
    i64 before = w.live;
    #ifdef __cpp_aligned_new
    T* d = static_cast<T*>(::operator new(sizeof(T) * std::size_t(in.n ? in.n : 1), std::align_val_t(alignof(T))));
#else
    T* d = static_cast<T*>(::operator new(sizeof(T) * std::size_t(in.n ? in.n : 1)));
#endif
    for (int i = 0; i < in.n; ++i) ::new (static_cast<void*>(d + i)) T(make<T>(in[i], i));
    w.reset(); w.lo = reinterpret_cast<const char*>(d); w.hi = reinterpret_cast<const char*>(d + in.n);
    w.cmp_budget = generous_budget(in.n);
    i64 live = w.live;
    using I = It<T, IT_CAT>;
    if (Proj) s(I(d), I(d + in.n), KeyLess<true>{}, KeyOf{}); else s(I(d), I(d + in.n), Less{});
    if (w.iters) fail("%s: %ld iterators created by the sort are still alive after it", who, long(w.iters));
    if (w.live != live) fail("%s: %ld objects more than before the sort", who, long(w.live - live));
    static std::vector<unsigned char> seen; seen.assign(std::size_t(in.n), 0);
    for (int i = 0; i < in.n; ++i) {
        if (!usable(d[i])) fail("%s: position %d holds no element after the sort", who, i);
        if (d[i].id < 0 || d[i].id >= in.n || seen[std::size_t(d[i].id)] || d[i].key != in[d[i].id]) fail("%s: the result is no permutation of the input at position %d", who, i);
        seen[std::size_t(d[i].id)] = 1;
        if (i && (Proj ? d[i - 1].key < d[i].key : d[i].key < d[i - 1].key)) fail("%s: not sorted at position %d", who, i);
    }
    for (int i = 0; i < in.n; ++i) d[i].~T();
#ifdef __cpp_aligned_new
    ::operator delete(d, std::align_val_t(alignof(T)));
#else
    ::operator delete(d);
#endif
    if (w.live != before) fail("%s: live count is off by %ld", who, long(w.live - before));
    count_eval(!in.sorted(), w.cmps);
}
template<typename R> static void run(const Input& in, bool desc_order, R r, const char* what) {
    static Arr<E> a;
    World& w = W();
    a.cap = 0; a.clear(); ::operator delete(a.d); a.d = nullptr;   // exact-size block: ASan red zones on both sides
    a.d = static_cast<E*>(::operator new(sizeof(E) * std::size_t(in.n ? in.n : 1))); a.cap = in.n;
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.strict_self_move = true;
    w.cmp_budget = generous_budget(in.n);
    r(a);
    if (w.iters) fail("%s: %ld iterators created by the sort are still alive after it", what, long(w.iters));
    if (w.live != in.n) fail("%s: %ld live elements after sorting %d", what, long(w.live), in.n);
    check_sorted_perm(what, a.d, in.n, in.k.data(), desc_order, false);
    note_behaviour(w.trace + (desc_order ? 0 : 1));
    count_eval(!in.sorted(), w.cmps + w.projs + w.moves);
}
MC_JOBS {
    static auto s = SEXPR;
    int e = thorough() ? 2 : 1;
    auto cmp = [](const Input& in) { run(in, false, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }, "comparator"); };
    auto prj = [](const Input& in) { run(in, true, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<true>{}, KeyOf{}); }, "comparator on projections"); };
    if (thorough()) {
        add_space_jobs("elem", all_spaces(2), cmp);
        add_space_jobs("proj", all_spaces(1), prj);
    } else {
        std::vector<Space> v = small_spaces(1);
        for (int n = 8; n <= 70; ++n) v.push_back(shapes(n));
        for (int n : {128, 129, 130, 137, 150, 200, 257, 520, 1030}) v.push_back(shapes(n));
        append(v, {switch_words(2, 17, 3), switch_words(2, 34, 2), switch_words(3, 24, 2), switch_words(2, 66, 2), switch_words(2, 130, 1),
                   deviations(18, 2), deviations(25, 3), deviations(33, 6), deviations(65, 16), deviations(129, 32),
                   shape_words(20, 2), shape_words(35, 2), shape_words(64, 2), linear_mod(61, 61), linear_mod(127, 127), inversive_mod(61, 61, 60), inversive_mod(127, 127, 60),
                   linear_mod_few(61, 61, 3), linear_mod_few(127, 127, 7), inversive_mod(101, 101, 60, 5), rotations(50, 1, 1), rotations(90, 4, 3), shuffles(60),
                   inversive_mod(521, 521, 12), inversive_mod(521, 521, 12, 6), inversive_mod(1031, 1031, 8, 40), inversive_mod(2053, 2053, 3, 40)});
        add_space_jobs("elem", v, cmp);
        add_space_jobs("proj", {weak_orders(5), shapes(20), shapes(33), shapes(40), shapes(64), shapes(150), shapes(300), shape_words(35, 2), deviations(33, 8), switch_words(2, 66, 1),
                                inversive_mod(127, 127, 30), inversive_mod(521, 521, 8, 6)}, prj);
    }
    {
        std::vector<Space> v{weak_orders(2), weak_orders(3), weak_orders(4), weak_orders(5), words(2, 8), switch_words(2, 24, 2), shape_words(35, 2), linear_mod(61, 61), linear_mod_few(127, 127, 7), inversive_mod(331, 331, 6), inversive_mod(1031, 1031, 3, 40)};
        for (int n : {7, 12, 16, 17, 24, 33, 40, 64, 65, 90, 129, 150, 200, 300, 520}) v.push_back(shapes(n));
        if (thorough()) v = all_spaces(1);
        add_space_jobs("light", v, [](const Input& in) { kind<Light, false>(in); });
        add_space_jobs("half", v, [](const Input& in) { kind<Half, false>(in); });
        add_space_jobs("pod", v, [](const Input& in) { kind<Pod, true>(in); });
#ifdef __cpp_aligned_new
        if (!thorough()) { v = {weak_orders(4), words(2, 8), shape_words(35, 1), linear_mod_few(127, 127, 7), inversive_mod(331, 331, 6), inversive_mod(1031, 1031, 3, 40)}; for (int n : {7, 17, 33, 65, 129, 300}) v.push_back(shapes(n)); }
        add_space_jobs("over-aligned", v, [](const Input& in) { kind<Wide, false>(in); });
#endif
    }
#if IT_CAT == 2 && !defined TYPED
    auto own = [](const Input& in) {
        {
            std::vector<Owner> v; v.reserve(std::size_t(in.n));
            for (int i = 0; i < in.n; ++i) v.emplace_back(in[i]);
            s(v);
            for (int i = 0; i < in.n; ++i) {
                if (!v[std::size_t(i)].p) fail("owner: empty element at %d after the sort", i);
                if (i && *v[std::size_t(i)].p < *v[std::size_t(i - 1)].p) fail("owner: not sorted at %d", i);
            }
        }
        count_eval(!in.sorted(), 0);
    };
    add_space_jobs("owner", {weak_orders(5), shapes(20), shapes(40), shapes(90), shapes(150), shapes(300), shape_words(40, 2), shape_words(140, 2), inversive_mod(1031, 1031, 4, 30), shapes(1300)}, own);
#endif
}
