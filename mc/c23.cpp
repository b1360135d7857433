// C23: values of the probes. PS lists P(name).
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include "measures.hpp"
#include <forward_list>
#include <list>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
using namespace mc;
namespace probe = cppsort::probe;
using naive::ll;
template<int Cat> struct Rng {
    It<Elem, Cat> b, e; std::ptrdiff_t n;
    It<Elem, Cat> begin() const { return b; }
    It<Elem, Cat> end() const { return e; }
};
template<int Cat> struct SRng : Rng<Cat> { SRng(Rng<Cat> r) : Rng<Cat>(r) {} std::ptrdiff_t size() const { return this->n; } };
static naive::Range as_range(ll x) { return {x, x}; }
static naive::Range as_range(naive::Range r) { return r; }
static void judge(const char* who, ll got, naive::Range want) {
    if (got < want.lo || got > want.hi) {
        if (want.lo == want.hi) fail("%s = %ld, by definition %ld", who, long(got), long(want.lo));
        fail("%s = %ld, by definition between %ld and %ld", who, long(got), long(want.lo), long(want.hi));
    }
}
static Arr<Elem>& store() { static Arr<Elem> a; return a; }
template<typename Want, typename R> static void on_elems(const char* name, const char* form, const Input& in, const Want& want, int fallback, R r) {
    Arr<Elem>& a = store();
    World& w = W();
    static char b[200];
    auto go = [&](const char* env, auto arm, bool may_fail) {
        snprintf(b, sizeof b, "%s(%s)%s", name, form, env);
        a.fill(in.k, in.n);
        w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
        H() = Heap{}; H().armed = true; arm();
        ll got = -1; bool threw = false;
        try { got = ll(r(a)); } catch (const std::bad_alloc&) { threw = true; }
        H().armed = false;
        if (H().outstanding) fail("%s: %ld heap blocks not released", b, long(H().outstanding));
        if (w.live != in.n) fail("%s: %ld live elements", b, long(w.live));
        if (w.moves) fail("%s: moved elements", b);
        for (int i = 0; i < in.n; ++i) if (a.d[i].id != i || a.d[i].state != ALIVE || a.d[i].key != in[i]) fail("%s: modified the elements", b);
        if (threw && (!may_fail || fallback || !H().failed)) fail("%s: std::bad_alloc", b);
        if (!threw) judge(b, got, want);
        note_behaviour(w.trace);
        count_eval(!in.sorted(), w.cmps + w.projs);
        return H().count;
    };
    u64 A = go("", [] {}, false);
    for (u64 k = 1; k <= A && k < 8; ++k) go(" with a failing allocation", [k] { H().fail_at = k; }, true), go(" without memory", [k] { H().fail_from = k; }, true);
}
template<typename F> static void on_plain(const char* name, const char* form, naive::Range want, F f) {
    char b[200]; snprintf(b, sizeof b, "%s(%s)", name, form);
    judge(b, ll(f()), want);
    count_eval(true, 1);
}
struct Neg { int operator()(int x) const { return -x; } };
struct Key { int k; int get() const { return k; } };
static bool fless(const int& a, const int& b) { return a < b; }
#define IT(C) a.template begin<C>(), a.template end<C>()
template<typename PF, typename NF> static void add(const char* name, int fallback, const PF& p, NF nf) {
    bool t = thorough();
    auto base = [=](const Input& in, naive::Range& w, naive::Range& d) {
        naive::V v(in.k.begin(), in.k.begin() + in.n), m(v);
        for (auto& x : m) x = -x;
        w = as_range(nf(v)); d = as_range(nf(m));
    };
    std::vector<Space> all, few;
    for (int n = 0; n <= (t ? 7 : 6); ++n) all.push_back(weak_orders(n));
    for (int n = 0; n <= 5; ++n) few.push_back(weak_orders(n));
    few.push_back(words(2, t ? 12 : 9));
    all.push_back(perms(t ? 9 : 7));
    all.push_back(words(2, t ? 14 : 11)), all.push_back(words(3, t ? 9 : 7));
    for (int n : {9, 16, 23, 24, 25, 26, 27, 32, 33, 48, 64, 65, 100}) all.push_back(shapes(n)), few.push_back(shapes(n));
    all.push_back(linear_mod(61, 61)), all.push_back(linear_mod_few(61, 61, 5)), all.push_back(inversive_mod(61, 61, 61)), all.push_back(inversive_mod(61, 53, 61, 9)), all.push_back(inversive_mod(127, 127, 20)), all.push_back(switch_words(2, 30, 3)), all.push_back(switch_words(3, 26, 2));
    if (t) for (int n : {200, 257, 400}) all.push_back(shapes(n));
    if (t) all.push_back(linear_mod(127, 127)), all.push_back(linear_mod_few(127, 127, 9)), all.push_back(inversive_mod(251, 251, 60)), all.push_back(inversive_mod(251, 251, 60, 13)), all.push_back(quadratic_mod(67, 67, 12, 67)), all.push_back(shape_words(35, 2)), all.push_back(shape_words(64, 3)), all.push_back(deviations(40, 1)), append(all, medium_spaces(2));
    std::string n = name;
    add_space_jobs(n + "/elements", all, [=](const Input& in) {
        naive::Range w, d; base(in, w, d);
        on_elems(name, "random access iterators, comparator", in, w, fallback, [&](Arr<Elem>& a) { return p(IT(2), Less{}); });
        on_elems(name, "forward iterators, comparator, projection", in, d, fallback, [&](Arr<Elem>& a) { return p(IT(0), KeyLess<true>{}, KeyOf{}); });
        on_elems(name, "bidirectional iterators, projection", in, w, fallback, [&](Arr<Elem>& a) { return p(IT(1), KeyOf{}); });
    });
    add_space_jobs(n + "/forms", few, [=](const Input& in) {
        naive::Range w, d; base(in, w, d);
        on_elems(name, "random access iterators", in, w, fallback, [&](Arr<Elem>& a) { return p(IT(2)); });
        on_elems(name, "random access iterators, std::greater", in, d, fallback, [&](Arr<Elem>& a) { return p(IT(2), std::greater<>{}); });
        on_elems(name, "bidirectional iterators, comparator", in, w, fallback, [&](Arr<Elem>& a) { return p(IT(1), Less{}); });
        on_elems(name, "forward iterators, comparator", in, d, fallback, [&](Arr<Elem>& a) { return p(IT(0), Greater{}); });
        on_elems(name, "random access range, comparator, projection", in, w, fallback, [&](Arr<Elem>& a) { return p(SRng<2>{{IT(2), a.n}}, KeyLess<false>{}, KeyOf{}); });
        on_elems(name, "bidirectional range, comparator", in, w, fallback, [&](Arr<Elem>& a) { Rng<1> r{IT(1), a.n}; return p(r, Less{}); });
        on_elems(name, "forward range, projection", in, w, fallback, [&](Arr<Elem>& a) { const Rng<0> r{IT(0), a.n}; return p(r, KeyOf{}); });
        on_elems(name, "forward range with a size, default order", in, w, fallback, [&](Arr<Elem>& a) { SRng<0> r{{IT(0), a.n}}; return p(r); });
#if __cplusplus >= 201703L  // documented: forwards the result since C++17 only
        on_elems(name, "indirect_adapter", in, w, 0, [&](Arr<Elem>& a) { return cppsort::indirect_adapter<std::decay_t<PF>>{}(IT(2), Less{}); });
#endif
    });
    // trivial types take other paths (branchless search, sorting by value)
    add_space_jobs(n + "/ints", all, [=](const Input& in) {
        naive::Range w, d; base(in, w, d);
        const std::vector<int> v(in.k.begin(), in.k.begin() + in.n);
        on_plain(name, "const vector<int>", w, [&] { return p(v); });
        on_plain(name, "const vector<int>, greater<int>", d, [&] { return p(v.begin(), v.end(), std::greater<int>{}); });
        on_plain(name, "const int*, negation", d, [&] { return p(v.data(), v.data() + in.n, Neg{}); });
        on_plain(name, "const int*, less, identity", w, [&] { return p(v.data(), v.data() + in.n, std::less<>{}, cppsort::utility::identity{}); });
    });
    add_space_jobs(n + "/containers", few, [=](const Input& in) {
        naive::Range w, d; base(in, w, d);
        std::list<int> l(in.k.begin(), in.k.begin() + in.n);
        std::forward_list<long> f(l.begin(), l.end());
        std::vector<Key> k; for (int x : l) k.push_back({x});
        std::vector<double> x(l.begin(), l.end());
        on_plain(name, "list", w, [&] { return p(l); });
        on_plain(name, "list, greater", d, [&] { return p(l.begin(), l.end(), std::greater<>{}); });
        on_plain(name, "forward_list", w, [&] { return p(f); });
        on_plain(name, "forward_list, negation", d, [&] { return p(f, std::negate<>{}); });
        on_plain(name, "member", w, [&] { return p(k, &Key::k); });
        on_plain(name, "member function, greater", d, [&] { return p(k, std::greater<>{}, &Key::get); });
        on_plain(name, "doubles", w, [&] { return p(x); });
        on_plain(name, "function pointer", w, [&] { return p(l, fless); });
        bool binary = true; for (int i = 0; i < in.n; ++i) binary = binary && in[i] >= 0 && in[i] <= 1;
        if (binary) {
            const std::vector<bool> bits(l.begin(), l.end());
            on_plain(name, "vector<bool>", w, [&] { return p(bits); });
            on_plain(name, "vector<bool>, greater", d, [&] { return p(bits.begin(), bits.end(), std::greater<>{}); });
            on_plain(name, "vector<bool>, negation", d, [&] { return p(bits, std::logical_not<>{}); });
        }
        on_plain(name, "schwartz_adapter", d, [&] { return cppsort::schwartz_adapter<std::decay_t<PF>>{}(x, Neg{}); });
    });
}
MC_JOBS {
#define P(name, fallback) add(#name, fallback, probe::name, [](const naive::V& v) { return naive::name(v); });
    PS
}
