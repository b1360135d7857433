// C18: schwartz_adapter. XS lists X(name, sorter type, weakest category, stable).
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <list>
#include <memory>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>
using namespace mc;
template<typename E, int Cat> struct Rng {
    It<E, Cat> b, e; std::ptrdiff_t n;
    It<E, Cat> begin() const { return b; }
    It<E, Cat> end() const { return e; }
    std::ptrdiff_t size() const { return n; }
};
using PV = ElemT<3>;     // a move-only projected value which can not be mistaken for an element
static std::vector<int> calls;
struct ProjPV {          // by value
    template<int T> PV operator()(const ElemT<T>& e) const {
        static_assert(T != 3, "the projection is applied to a projected value");
        World& w = W();
        e.check_alive("projection");
        ++w.projs;
        if (e.id < 0 || e.id >= int(calls.size())) fail("the projection received an unknown element");
        ++calls[std::size_t(e.id)];
        fault_point(w.projs, w.throw_proj);
        return PV(e.key, e.id);
    }
};
struct ProjRef {         // a reference into the element
    template<typename E> const int& operator()(const E& e) const { (void)ProjPV{}(e); return e.key; }
};
template<bool Desc> struct CmpPV {
    bool operator()(const PV& a, const PV& b) const { return Desc ? PV::cmp(b, a) : PV::cmp(a, b); }
    template<typename A, typename B> bool operator()(const A&, const B&) const = delete;
};
template<typename E> static void arm(Arr<E>& a, const Input& in) {
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
    calls.assign(std::size_t(in.n), 0);
    H() = Heap{};
}
static std::vector<int>& order_of() { static std::vector<int> v; return v; }
template<typename E, typename R, typename Raw> static void plain(const char* who, const Input& in, bool desc_order, bool stable, R r, Raw raw) {
    static Arr<E> a;
    World& w = W();
    arm(a, in);
    H().armed = true; r(a); H().armed = false;
    if (H().outstanding) fail("%s: %ld heap blocks leaked", who, long(H().outstanding));
    if (w.live != in.n) fail("%s: %ld live elements and projected values after the sort", who, long(w.live));
    check_sorted_perm(who, a.d, in.n, in.k.data(), desc_order, stable);
    if (w.projs != u64(in.n)) fail("%s: the projection was called %lu times for %d elements", who, w.projs, in.n);
    for (int i = 0; i < in.n; ++i) if (calls[std::size_t(i)] != 1) fail("%s: element %d was projected %d times", who, i, calls[std::size_t(i)]);
    u64 cmps = w.cmps, tr = w.trace;
    auto& o = order_of(); o.clear();
    for (int i = 0; i < in.n; ++i) o.push_back(a.d[i].id);
    arm(a, in); raw(a);
    for (int i = 0; i < in.n; ++i) if (o[std::size_t(i)] != a.d[i].id) fail("%s: element %d at position %d, the adapted sorter puts element %d there", who, o[std::size_t(i)], i, a.d[i].id);
    note_behaviour(tr);
    count_eval(!in.sorted(), cmps + u64(in.n));
}
template<typename E, typename R> static void faults(const char* who, const Input& in, R r) {
    static Arr<E> a;
    World& w = W();
    arm(a, in); H().armed = true; r(a); H().armed = false;
    u64 cmps = w.cmps, projs = w.projs, moves = w.moves, allocs = H().count;
    for (int kind = 0; kind < 4; ++kind) {
        u64 points = kind == 0 ? cmps : kind == 1 ? projs : kind == 2 ? allocs : moves;
        for (u64 k = 1; k <= points; ++k) {
            desc().text = std::string(kind == 0 ? "comparison " : kind == 1 ? "projection " : kind == 2 ? "allocation " : "element move ") + std::to_string(k) + " of " + std::to_string(points) + " fails";
            arm(a, in);
            if (kind == 0) w.throw_cmp = k; else if (kind == 1) w.throw_proj = k; else if (kind == 3) { w.throw_move = k; }
            if (kind == 2) H().fail_at = k;
            H().armed = true;
            bool caught = false;
            try { r(a); } catch (const Injected&) { caught = kind != 2; } catch (const std::bad_alloc&) { caught = kind == 2; }
            H().armed = false;
            if (!caught && kind < 2) fail("%s: the exception did not reach the caller", who);
            if (w.live != in.n) fail("%s: %ld live elements and projected values instead of %d", who, long(w.live), in.n);
            if (H().outstanding) fail("%s: %ld heap blocks leaked", who, long(H().outstanding));
            if (!caught) check_sorted_perm(who, a.d, in.n, in.k.data(), false, false);
            else check_perm(who, a.d, in.n, in.k.data(), kind != 1);
            if (kind == 1) for (int i = 0; i < in.n; ++i) if (a.d[i].id != i) fail("%s: element %d was moved although the projection threw", who, i);
            w.reset();
            for (int i = 0; i < in.n; ++i) if (a.d[i].state == MOVED) { E e(in[i], i); a.d[i] = std::move(e); }
            count_eval(true, 1); sh().seq = sh().seq + 1;
        }
    }
    desc().text.clear();
}
template<typename S, int Cat> static void all(const char* name, bool stable) {
    using A = cppsort::schwartz_adapter<S>;
    static S s; static A sw;
    bool t = thorough();
    std::vector<Space> sp;
    for (int n = 0; n <= (t ? 7 : 5); ++n) sp.push_back(weak_orders(n));
    sp.push_back(words(2, t ? 12 : 8));
    for (int n : {12, 16, 17, 20, 33, 40, 64, 65, 81, 100, 130, 200}) sp.push_back(shapes(n));
    sp.push_back(linear_mod(61, 61)), sp.push_back(inversive_mod(127, 127, 30)), sp.push_back(inversive_mod(331, 331, 12, 50)), sp.push_back(switch_words(2, 34, 2)), sp.push_back(shape_words(35, 2));
    if (t) append(sp, medium_spaces(1)), append(sp, large_spaces(1));
    std::vector<Space> few{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(4), weak_orders(5), shapes(17), shapes(40), shapes(100), linear_mod(61, 61), inversive_mod(127, 127, 20, 20)};
    std::string n = name;
    const char* who = name;
    add_space_jobs(n + "/huge", huge_few(n), [=](const Input& in) { plain<Elem>(who, in, true, stable, [](Arr<Elem>& a) { sw(a.begin<2>(), a.end<2>(), CmpPV<true>{}, ProjPV{}); }, [](Arr<Elem>& a) { s(a.begin<2>(), a.end<2>(), CmpPV<true>{}, ProjPV{}); }); });
    add_space_jobs(n + "/iter,comp,proj", sp, [=](const Input& in) { plain<Elem>(who, in, true, stable, [](Arr<Elem>& a) { sw(a.begin<Cat>(), a.end<Cat>(), CmpPV<true>{}, ProjPV{}); }, [](Arr<Elem>& a) { s(a.begin<2>(), a.end<2>(), CmpPV<true>{}, ProjPV{}); }); });
    add_space_jobs(n + "/range,proj", few, [=](const Input& in) { plain<Elem>(who, in, false, stable, [](Arr<Elem>& a) { Rng<Elem, 2> r{a.begin<2>(), a.end<2>(), a.n}; sw(r, ProjPV{}); }, [](Arr<Elem>& a) { s(a.begin<2>(), a.end<2>(), CmpPV<false>{}, ProjPV{}); }); });
    add_space_jobs(n + "/iter,comp,proj-ref", few, [=](const Input& in) { plain<Elem>(who, in, true, stable, [](Arr<Elem>& a) { sw(a.begin<Cat>(), a.end<Cat>(), KeyLess<true>{}, ProjRef{}); }, [](Arr<Elem>& a) { s(a.begin<2>(), a.end<2>(), KeyLess<true>{}, ProjRef{}); }); });
    add_space_jobs(n + "/bidi,proj", few, [=](const Input& in) { constexpr int C = Cat < 1 ? 1 : Cat; plain<Elem>(who, in, false, stable, [](Arr<Elem>& a) { sw(a.begin<C>(), a.end<C>(), ProjPV{}); }, [](Arr<Elem>& a) { s(a.begin<2>(), a.end<2>(), CmpPV<false>{}, ProjPV{}); }); });
    std::vector<Space> fl{weak_orders(1), weak_orders(2), weak_orders(3), weak_orders(4), shapes(9), shapes(17), linear_mod(13, 13)};
    if (t) append(fl, {weak_orders(5), words(2, 8), shapes(33), shapes(40), rotations(34, 1, 1)});
    add_space_jobs(n + "/faults", fl, [=](const Input& in) { faults<TElem>(who, in, [](Arr<TElem>& a) { sw(a.begin<Cat>(), a.end<Cat>(), KeyLess<false>{}, ProjRef{}); }); });
}
template<typename E, typename F> static void simple(const std::string& name, F f) {
    std::vector<Space> sp{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(4), weak_orders(5), shapes(17), shapes(40), linear_mod(61, 61)};
    add_space_jobs(name, sp, [=](const Input& in) {
        static Arr<E> a;
        arm(a, in);
        f(a, in);
        if (W().live != in.n) fail("%s: %ld live elements", name.c_str(), long(W().live));
        check_sorted_perm(name.c_str(), a.d, in.n, in.k.data(), false, false);
        count_eval(!in.sorted(), W().cmps);
    });
}
// Keys of many sizes and kinds, returned by value, by reference or designated by a member pointer.
template<int N> struct BigKey {
    int key; unsigned char pad[N];
    BigKey(): key(0) { std::memset(pad, 0, N); }
    BigKey(int k): key(k) { std::memset(pad, k & 0xff, N); }
    bool ok() const { for (unsigned char c : pad) if (c != (key & 0xff)) return false; return true; }
};
struct VecKey {          // owns memory
    std::vector<int> v;
    int key;
    VecKey(): key(0) {}
    VecKey(int k): v(std::size_t(3 + (k & 31)), k), key(k) {}
    bool ok() const { if (v.size() != std::size_t(3 + (key & 31))) return false; for (int x : v) if (x != key) return false; return true; }
};
template<typename K> struct BigRec {
    K k; int id;
};
template<typename K> struct BigLess {
    bool operator()(const K& a, const K& b) const {
        if (!a.ok() || !b.ok()) fail("the comparison function received a corrupt key");
        ++W().cmps;
        return a.key < b.key;
    }
};
template<typename K, typename S> static void big_keys(const std::string& name) {
    std::vector<Space> sp{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(4), weak_orders(5), shapes(17), shapes(40), shapes(100), linear_mod(61, 61)};
    add_space_jobs(name, sp, [=](const Input& in) {
        using R = BigRec<K>;
        for (int form = 0; form < 5; ++form) {
            std::vector<R> v;
            for (int i = 0; i < in.n; ++i) v.push_back(R{K(in[i]), i});
            std::vector<int> n(std::size_t(in.n), 0);
            W().reset();
            cppsort::schwartz_adapter<S> s;
            BigLess<K> less;
            auto seen = [&](const R& r) { ++n[std::size_t(r.id)]; };
            if (form == 0) s(v.begin(), v.end(), less, [&](const R& r) -> const K& { seen(r); return r.k; });
            if (form == 1) s(v, less, [&](R& r) -> K& { seen(r); return r.k; });
            if (form == 2) s(v, less, [&](const R& r) -> K { seen(r); return r.k; });
            if (form == 3) s(v.begin(), v.end(), less, &R::k);
            if (form == 4) s(v.begin(), v.end(), less, [&](const R& r) -> const K { seen(r); return r.k; });
            std::vector<char> had(std::size_t(in.n), 0);
            for (int i = 0; i < in.n; ++i) {
                const R& r = v[std::size_t(i)];
                if (r.id < 0 || r.id >= in.n || had[std::size_t(r.id)]++ || r.k.key != in[r.id] || !r.k.ok()) fail("%s, form %d: not a permutation of the elements", name.c_str(), form);
                if (i && r.k.key < v[std::size_t(i - 1)].k.key) fail("%s, form %d: not sorted at %d", name.c_str(), form, i);
                if (form != 3 && n[std::size_t(i)] != 1) fail("%s, form %d: element %d was projected %d times", name.c_str(), form, i, n[std::size_t(i)]);
            }
            count_eval(!in.sorted(), W().cmps);
        }
    });
}
MC_JOBS {
#define X(name, type, cat, stable) all<type, cat>(name, stable);
    XS
#if EXTRA
    // result of the adapted sorter, nested schwartz_adapter, bypass with identity
    using CS = cppsort::counting_adapter<cppsort::pdq_sorter>;
    simple<Elem>("result", [](Arr<Elem>& a, const Input& in) {
        cppsort::schwartz_adapter<CS> s;
        std::size_t c = s(a.begin<2>(), a.end<2>(), CmpPV<false>{}, ProjPV{});
        if (c != W().cmps) fail("result %lu, %lu comparisons", c, W().cmps);
        if (W().projs != u64(in.n)) fail("%lu projections", W().projs);
    });
    simple<Elem>("nested", [](Arr<Elem>& a, const Input& in) {
        cppsort::schwartz_adapter<cppsort::schwartz_adapter<cppsort::pdq_sorter>> s;
        s(a.begin<2>(), a.end<2>(), CmpPV<false>{}, ProjPV{});
        if (W().projs != u64(in.n)) fail("%lu projections", W().projs);
    });
    simple<Elem>("nested-object", [](Arr<Elem>& a, const Input& in) {
        auto s = cppsort::schwartz_adapter<cppsort::schwartz_adapter<cppsort::pdq_sorter>>(cppsort::schwartz_adapter<cppsort::pdq_sorter>{});
        Rng<Elem, 2> r{a.begin<2>(), a.end<2>(), a.n};
        s(r, ProjPV{});
        if (W().projs != u64(in.n)) fail("%lu projections", W().projs);
    });
    simple<Elem>("stable-inside", [](Arr<Elem>& a, const Input& in) {
        cppsort::schwartz_adapter<cppsort::counting_adapter<cppsort::pdq_sorter>> s;
        s(a.begin<2>(), a.end<2>(), ProjPV{});
        if (W().projs != u64(in.n)) fail("%lu projections", W().projs);
    });
    simple<Elem>("identity", [](Arr<Elem>& a, const Input&) {
        cppsort::schwartz_adapter<cppsort::pdq_sorter> s;
        s(a.begin<2>(), a.end<2>(), Less{}, cppsort::utility::identity{});
    });
    simple<Elem>("no-projection", [](Arr<Elem>& a, const Input&) {
        cppsort::schwartz_adapter<cppsort::pdq_sorter> s;
        s(a.begin<2>(), a.end<2>(), Less{});
        s(a.begin<2>(), a.end<2>());
    });
    big_keys<BigKey<4>, cppsort::pdq_sorter>("key-8");
    big_keys<BigKey<60>, cppsort::pdq_sorter>("key-64");
    big_keys<BigKey<200>, cppsort::pdq_sorter>("key-204");
    big_keys<BigKey<5000>, cppsort::pdq_sorter>("key-5004");
    big_keys<BigKey<200>, cppsort::stable_adapter<cppsort::pdq_sorter>>("key-204-stable");
    big_keys<VecKey, cppsort::pdq_sorter>("key-vector");
    big_keys<VecKey, cppsort::stable_adapter<cppsort::pdq_sorter>>("key-vector-stable");
    simple<Elem>("member-pointer", [](Arr<Elem>& a, const Input&) {
        cppsort::schwartz_adapter<cppsort::pdq_sorter> s;
        s(a.begin<2>(), a.end<2>(), &Elem::key);
    });
#endif
}
