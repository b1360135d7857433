// C20: container-aware insertion, mel, merge and selection sorters. PART selects the group.
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <forward_list>
#include <list>
#include <algorithm>
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
using namespace mc;
using E = Elem;
// Allocator with an identity: a node must be released by an allocator equal to the one that made it
template<typename T> struct Tagged {
    using value_type = T;
    int tag;
    explicit Tagged(int t): tag(t) {}
    template<typename U> Tagged(const Tagged<U>& o): tag(o.tag) {}
    T* allocate(std::size_t n) {
        char* p = static_cast<char*>(::operator new(n * sizeof(T) + 16));
        *reinterpret_cast<int*>(p) = tag;
        return reinterpret_cast<T*>(p + 16);
    }
    void deallocate(T* q, std::size_t) {
        char* p = reinterpret_cast<char*>(q) - 16;
        if (*reinterpret_cast<int*>(p) != tag) fail("a node of the list is released through a different allocator");
        ::operator delete(p);
    }
    template<typename U> bool operator==(const Tagged<U>& o) const { return tag == o.tag; }
    template<typename U> bool operator!=(const Tagged<U>& o) const { return tag != o.tag; }
};
template<typename L> struct is_fwd : std::false_type {};
template<typename T, typename A> struct is_fwd<std::forward_list<T, A>> : std::true_type {};
struct NoDesc : std::false_type {};
template<typename L> struct Built {
    L l; std::vector<const void*> addr; std::vector<typename L::iterator> its;
    explicit Built(const Input& in): l(typename L::allocator_type(7)) {
        for (int i = in.n; i-- > 0;) l.emplace_front(in[i], i);
        for (auto it = l.begin(); it != l.end(); ++it) { its.push_back(it); addr.push_back(&*it); }
    }
};
template<typename L> static int walk(const char* who, L& l, const Built<L>& b, const Input& in, bool complete, std::vector<const E*>& out) {
    out.clear();
    std::vector<unsigned char> seen(std::size_t(in.n), 0);
    for (auto it = l.begin(); it != l.end(); ++it) {
        const E& e = *it;
        if (int(out.size()) >= in.n) fail("%s: the list has more nodes than before", who);
        e.check_alive(who);
        if (e.id < 0 || e.id >= in.n || seen[std::size_t(e.id)]) fail("%s: element %d is in the list twice", who, e.id);
        seen[std::size_t(e.id)] = 1;
        if (&e != b.addr[std::size_t(e.id)]) fail("%s: element %d is not in its node any more", who, e.id);
        if (it != b.its[std::size_t(e.id)]) fail("%s: the iterator to element %d does not designate it any more", who, e.id);
        if (e.key != in[e.id]) fail("%s: element %d changed value", who, e.id);
        out.push_back(&e);
    }
    if (complete && int(out.size()) != in.n) fail("%s: %d nodes left of %d", who, int(out.size()), in.n);
    return int(out.size());
}
template<typename L> static std::enable_if_t<!is_fwd<L>::value> backwards(const char* who, L& l, const std::vector<const E*>& v) {
    std::size_t i = v.size();
    if (l.size() != v.size()) fail("%s: size() is %lu, the list has %lu nodes", who, l.size(), v.size());
    for (auto it = l.end(); it != l.begin();) { --it; if (i == 0 || v[--i] != &*it) fail("%s: the list differs when it is walked backwards", who); }
    if (i) fail("%s: the list is shorter when it is walked backwards", who);
}
template<typename L> static std::enable_if_t<is_fwd<L>::value> backwards(const char*, L&, const std::vector<const E*>&) {}
template<typename L, typename R> static void plain(const char* who, const Input& in, bool desc_order, bool stable, R r) {
    World& w = W();
    {
    Built<L> b(in);
    w.reset(); w.cmp_budget = generous_budget(in.n);
    i64 live = w.live;
    r(b.l);
    if (w.moves || w.swaps) fail("%s: elements were moved or swapped (%lu moves)", who, w.moves);
    if (w.live != live) fail("%s: the number of live elements changed from %ld to %ld", who, long(live), long(w.live));
    std::vector<const E*> v;
    walk(who, b.l, b, in, true, v);
    backwards(who, b.l, v);
    check_sorted_perm_by(who, in.n, in.k.data(), desc_order, stable, [&](int i) -> const E& { return *v[std::size_t(i)]; });
    // the list is still a working list
    b.l.emplace_front(-5, in.n); b.l.pop_front();
    b.l.reverse(); b.l.reverse();
    note_behaviour(w.trace);
    count_eval(!in.sorted(), w.cmps + w.projs);
    }
    if (w.live) fail("%s: %ld elements leaked", who, long(w.live));
}
template<typename L, typename R> static void faults(const char* who, const Input& in, R r) {
    World& w = W();
    u64 pts[3];
    { Built<L> b(in); w.reset(); H() = Heap{}; H().armed = true; r(b.l); H().armed = false; pts[0] = w.cmps; pts[1] = w.projs; pts[2] = H().count; }
    for (int kind = 0; kind < 3; ++kind) for (u64 k = 1; k <= pts[kind]; ++k) {
        desc().text = std::string(kind == 0 ? "comparison " : kind == 1 ? "projection " : "allocation ") + std::to_string(k) + " of " + std::to_string(pts[kind]) + " fails";
        {
            w.reset(); H() = Heap{}; H().armed = true;
            Built<L> b(in);
            u64 before = H().count;
            w.reset(); w.cmp_budget = generous_budget(in.n);
            if (kind == 0) w.throw_cmp = k; else if (kind == 1) w.throw_proj = k; else H().fail_at = before + k;
            bool caught = false;
            try { r(b.l); } catch (const Injected&) { caught = kind < 2; } catch (const std::bad_alloc&) { caught = kind == 2; }
            H().fail_at = 0;
            if (!caught && kind < 2) fail("%s: the exception did not reach the caller", who);
            if (w.moves || w.swaps) fail("%s: elements were moved or swapped (%lu moves)", who, w.moves);
            std::vector<const E*> v;
            int left = walk(who, b.l, b, in, false, v);
            backwards(who, b.l, v);
            if (w.live != left) fail("%s: %ld live elements, %d nodes in the list after an exception", who, long(w.live), left);
            w.reset();
            r(b.l);     // the list can be sorted again
            walk(who, b.l, b, in, false, v);
            for (std::size_t i = 1; i < v.size(); ++i) if (v[i]->key < v[i - 1]->key) fail("%s: not sorted when sorted again after an exception", who);
        }
        H().armed = false;
        if (w.live) fail("%s: %ld elements leaked after an exception", who, long(w.live));
        if (H().outstanding) fail("%s: %ld heap blocks leaked after an exception", who, long(H().outstanding));
        count_eval(true, k); sh().seq = sh().seq + 1;
    }
    desc().text.clear();
}
template<typename S, typename L> static void lists_of(const std::string& n, const char* who, bool stable) {
    static cppsort::container_aware_adapter<S> s;
    bool t = thorough();
    std::vector<Space> sp;
    for (int i = 0; i <= (t ? 7 : 6); ++i) sp.push_back(weak_orders(i));
    sp.push_back(words(2, t ? 12 : 10)), sp.push_back(words(3, t ? 8 : 6));
    for (int i = 7; i <= 40; ++i) sp.push_back(shapes(i));
    for (int i : {64, 65, 100, 130, 200, 257}) sp.push_back(shapes(i));
    sp.push_back(switch_words(2, 26, 2)), sp.push_back(shape_words(35, 2)), sp.push_back(linear_mod(61, 61)), sp.push_back(linear_mod_few(61, 61, 3)), sp.push_back(inversive_mod(131, 131, 40, 20)), sp.push_back(inversive_mod(331, 331, 6)), sp.push_back(rotations(50, 3, 1));
    if (t) append(sp, medium_spaces(1));
    std::vector<Space> few{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(3), weak_orders(4), weak_orders(5), words(2, 8), shapes(17), shapes(40), linear_mod(61, 61)};
    std::vector<Space> fl{weak_orders(1), weak_orders(2), weak_orders(3), weak_orders(4), words(2, 6), shapes(9), shapes(17), shapes(24), linear_mod(13, 13)};
    if (t) append(fl, {weak_orders(5), words(2, 9), shapes(33), shapes(40), rotations(34, 1, 1), linear_mod(31, 31)});
    append(sp, huge_few(n));
    add_space_jobs(n + ",c", sp, [=](const Input& in) { plain<L>(who, in, false, stable, [](L& l) { s(l, Less{}); }); });
    add_space_jobs(n + ",c,p", sp, [=](const Input& in) { plain<L>(who, in, true, stable, [](L& l) { s(l, KeyLess<true>{}, KeyOf{}); }); });
    add_space_jobs(n, few, [=](const Input& in) { plain<L>(who, in, false, stable, [](L& l) { s(l); }); });
    add_space_jobs(n + ",p", few, [=](const Input& in) { plain<L>(who, in, false, stable, [](L& l) { s(l, KeyOf{}); }); });
    add_space_jobs(n + ",member", few, [=](const Input& in) { plain<L>(who, in, false, stable, [](L& l) { s(l, &E::key); }); });
    add_space_jobs(n + "/faults", fl, [=](const Input& in) { faults<L>(who, in, [](L& l) { s(l, KeyLess<false>{}, KeyOf{}); }); });
}
template<typename S> static void both(const char* who, bool stable) {
    lists_of<S, std::list<E, Tagged<E>>>(std::string(who) + "/list", who, stable);
    lists_of<S, std::forward_list<E, Tagged<E>>>(std::string(who) + "/fwd", who, stable);
}
#if PART == 4
// Dedicated algorithms of user containers: every subset of the four possible sort overloads, every call form
namespace user {
    static int called;      // which overload
    template<int M> struct Box : std::vector<int> { using std::vector<int>::vector; };
    template<int M, std::enable_if_t<(M & 1) != 0, int> = 0> void sort(cppsort::quick_sorter, Box<M>& b) { called = 1; std::stable_sort(b.begin(), b.end()); }
    template<int M, typename C, std::enable_if_t<(M & 2) != 0 && cppsort::is_projection_v<cppsort::utility::identity, Box<M>, C>, int> = 0>
    void sort(cppsort::quick_sorter, Box<M>& b, C c) { called = 2; std::stable_sort(b.begin(), b.end(), c); }
    template<int M, typename P, std::enable_if_t<(M & 4) != 0 && cppsort::is_projection_v<P, Box<M>>, int> = 0, typename = void>
    void sort(cppsort::quick_sorter, Box<M>& b, P p) { called = 4; std::stable_sort(b.begin(), b.end(), [&](int x, int y) { return p(x) < p(y); }); }
    template<int M, typename C, typename P, std::enable_if_t<(M & 8) != 0 && cppsort::is_projection_v<P, Box<M>, C>, int> = 0>
    void sort(cppsort::quick_sorter, Box<M>& b, C c, P p) { called = 8; std::stable_sort(b.begin(), b.end(), [&](int x, int y) { return c(p(x), p(y)); }); }
}
struct Cmp { bool operator()(int a, int b) const { return (a ^ 5) < (b ^ 5); } };
struct Prj { int operator()(int a) const { return a ^ 3; } };
template<int M, typename F, typename K> static void box(const char* form, int may, const Input& in, F f, K key) {
    user::Box<M> b;
    for (int i = 0; i < in.n; ++i) b.push_back(in[i]);
    std::vector<int> want(b.begin(), b.end());
    std::stable_sort(want.begin(), want.end(), [&](int x, int y) { return key(x) < key(y); });
    user::called = 0;
    f(b);
    if (std::vector<int>(b.begin(), b.end()) != want) fail("container with dedicated sorts %d: call form (%s) gives a wrong order", M, form);
    if ((M & may) && !(user::called & M & may)) fail("container with dedicated sorts %d: call form (%s) did not use the dedicated algorithm (used %d)", M, form, user::called);
    count_eval(!in.sorted(), 1);
    note_behaviour(u64(M * 16 + may) * 64 + u64(user::called));
}
template<int M> static void boxes() {
    static cppsort::container_aware_adapter<cppsort::quick_sorter> s;
    std::vector<Space> sp{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(4), weak_orders(5), shapes(17), shapes(40)};
    std::string n = "user" + std::to_string(M);
    add_space_jobs(n, sp, [](const Input& in) { box<M>("range", 1, in, [](user::Box<M>& b) { s(b); }, [](int x) { return x; }); });
    add_space_jobs(n + ",c", sp, [](const Input& in) { box<M>("range,compare", 2, in, [](user::Box<M>& b) { s(b, Cmp{}); }, [](int x) { return x ^ 5; }); });
    add_space_jobs(n + ",p", sp, [](const Input& in) { box<M>("range,projection", 2 | 4 | 8, in, [](user::Box<M>& b) { s(b, Prj{}); }, [](int x) { return x ^ 3; }); });
    add_space_jobs(n + ",c,p", sp, [](const Input& in) { box<M>("range,compare,projection", 2 | 8, in, [](user::Box<M>& b) { s(b, Cmp{}, Prj{}); }, [](int x) { return (x ^ 3) ^ 5; }); });
    add_space_jobs(n + "/iter,c,p", sp, [](const Input& in) { box<M>("iterators,compare,projection", 0, in, [](user::Box<M>& b) { s(b.begin(), b.end(), Cmp{}, Prj{}); if (user::called) fail("the dedicated algorithm was used for a pair of iterators"); }, [](int x) { return (x ^ 3) ^ 5; }); });
}
template<int... M> static void all_boxes(std::integer_sequence<int, M...>) { int d[] = {(boxes<M>(), 0)...}; (void)d; }
#endif
MC_JOBS {
#if PART == 0
    both<cppsort::insertion_sorter>("insertion", true);
#elif PART == 1
    both<cppsort::mel_sorter>("mel", false);
#elif PART == 2
    both<cppsort::merge_sorter>("merge", true);
#elif PART == 3
    both<cppsort::selection_sorter>("selection", true);
#else
    all_boxes(std::make_integer_sequence<int, 16>{});
#endif
}
