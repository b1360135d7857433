// C21: which sorter is called, and what the traits say about it. PART selects the group.
#include "core.hpp"
#include "spaces.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <string>
#include <vector>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace mc;
namespace cs = cppsort;
#define SAY(...) do { char b_[300]; snprintf(b_, sizeof b_, __VA_ARGS__); desc().text = b_; } while (0)
#define EXPECT(c, what) do { if (!(c)) fail("%s", what); } while (0)
template<typename, typename F, typename... A> struct can_call_: std::false_type {};
template<typename F, typename... A> struct can_call_<decltype(void(std::declval<F>()(std::declval<A>()...))), F, A...>: std::true_type {};
template<typename F, typename... A> constexpr bool can_call = can_call_<void, F, A...>::value;
using Cat0 = std::forward_iterator_tag; using Cat1 = std::bidirectional_iterator_tag; using Cat2 = std::random_access_iterator_tag;
template<int C> using cat_t = std::conditional_t<C == 0, Cat0, std::conditional_t<C == 1, Cat1, Cat2>>;
template<int I> using ic = std::integral_constant<int, I>;
// what the last call did
struct Log { int who, calls, state; long n; int cmp, proj; };
static Log last;
static void reset_log() { last = Log{-1, 0, 0, -1, 0, 0}; }
struct TagCmp { int tag; template<typename A, typename B> bool operator()(const A& a, const B& b) const { return a < b; } };
struct TagProj { int tag; template<typename A> A operator()(const A& a) const { return a; } };
template<typename T> static int tag_of(const T& t, decltype(t.tag)* = nullptr) { return t.tag; }
static int tag_of(...) { return 0; }

#if PART == 0 || PART == 1
// ------------------------------------------------------------------ sorters that only say who they are
// Flavours: 0 everything; 1 only values of type int; 2 no functions; 3 everything, rebound from forward iterators; 4 only ranges
template<int Who, int Flavour> struct TSImpl {
    template<typename T> using ok = std::enable_if_t<Flavour != 1 || std::is_same<T, int>::value>;
    template<typename It, typename C = std::less<>, typename P = cs::utility::identity, typename = ok<typename std::iterator_traits<It>::value_type>, int F = Flavour, typename = std::enable_if_t<F != 2 && F != 4>, typename = std::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    int operator()(It f, It l, C c = {}, P p = {}) const { last = Log{Who, last.calls + 1, 0, long(std::distance(f, l)), tag_of(c), tag_of(p)}; return Who + 1; }
    template<typename It, int F = Flavour, typename = std::enable_if_t<F == 2>, typename = typename std::iterator_traits<It>::value_type>
    int operator()(It f, It l) const { last = Log{Who, last.calls + 1, 0, long(std::distance(f, l)), 0, 0}; return Who + 1; }
    template<typename R, typename C = std::less<>, typename P = cs::utility::identity, int F = Flavour, typename = std::enable_if_t<F == 4>, typename = std::enable_if_t<cs::is_projection_v<P, R, C>>>
    int operator()(R&& r, C c = {}, P p = {}) const { last = Log{Who, last.calls + 1, 0, long(std::distance(std::begin(r), std::end(r))), tag_of(c), tag_of(p)}; return Who + 1; }
};
template<int Who, int Flavour, int Cat, bool Stable> struct TSBase: TSImpl<Who, Flavour> { using iterator_category = cat_t<Cat>; using is_always_stable = std::integral_constant<bool, Stable>; };
template<int Who, int Flavour, int Cat, bool Stable> struct TS: cs::sorter_facade<TSBase<Who, Flavour, Cat, Stable>> {};
constexpr int cat_of(int u) { return u % 3; }
constexpr int flavour_of(int u) { return u / 3; }
constexpr bool stable_of(int u, int who) { return (u + u / 3 + who) % 2; }
template<int U, int Who, bool Rebound> struct ts_ { using type = TS<Who, flavour_of(U), cat_of(U), stable_of(U, Who)>; };
template<int U, int Who> struct ts_<U, Who, true> { using type = cs::rebind_iterator_category<TS<Who, 0, 0, stable_of(U, Who)>, cat_t<cat_of(U)>>; };
template<int U, int Who> using ts = typename ts_<U, Who, (flavour_of(U) == 3)>::type;
// Forms: 0 r() 1 r(c) 2 r(p) 3 r(c, p) 4 i() 5 i(c) 6 i(p) 7 i(c, p)
constexpr bool callable(int u, bool is_int, int form) { return flavour_of(u) == 1 ? is_int : flavour_of(u) == 2 ? form % 4 == 0 : flavour_of(u) == 4 ? form < 4 : true; }
template<std::size_t N> constexpr int pick(const int (&us)[N], int cat, bool is_int, int form) {
    for (int c = cat; c >= 0; --c) for (std::size_t k = 0; k < N; ++k) if (cat_of(us[k]) == c && callable(us[k], is_int, form)) return int(k);
    return -1;
}
#define FORM(n, ARGS, ...) template<typename R> struct form_##n { template<typename H> static constexpr bool valid = can_call<const H&, __VA_ARGS__>; template<typename H> static constexpr bool stable() { return cs::is_stable<H(__VA_ARGS__)>::value; } template<typename H> static decltype(auto) call(const H& h, R& r) { TagCmp c{41}; TagProj p{42}; (void)c; (void)p; return h ARGS; } };
FORM(0, (r), R&)
FORM(1, (r, c), R&, TagCmp)
FORM(2, (r, p), R&, TagProj)
FORM(3, (r, c, p), R&, TagCmp, TagProj)
FORM(4, (r.begin(), r.end()), typename R::iterator, typename R::iterator)
FORM(5, (r.begin(), r.end(), c), typename R::iterator, typename R::iterator, TagCmp)
FORM(6, (r.begin(), r.end(), p), typename R::iterator, typename R::iterator, TagProj)
FORM(7, (r.begin(), r.end(), c, p), typename R::iterator, typename R::iterator, TagCmp, TagProj)
template<int Form, typename R> struct form_ { using type = form_0<R>; };
template<typename R> struct form_<1, R> { using type = form_1<R>; }; template<typename R> struct form_<2, R> { using type = form_2<R>; };
template<typename R> struct form_<3, R> { using type = form_3<R>; }; template<typename R> struct form_<4, R> { using type = form_4<R>; };
template<typename R> struct form_<5, R> { using type = form_5<R>; }; template<typename R> struct form_<6, R> { using type = form_6<R>; };
template<typename R> struct form_<7, R> { using type = form_7<R>; };
template<int Form, typename R> using form = typename form_<Form, R>::type;
template<typename R> struct coll; // category and a sample
template<typename T> struct coll<std::vector<T>> { static constexpr int cat = 2; static constexpr bool is_int = std::is_same<T, int>::value; static const char* name() { return "vector"; } };
template<typename T> struct coll<std::list<T>> { static constexpr int cat = 1; static constexpr bool is_int = std::is_same<T, int>::value; static const char* name() { return "list"; } };
template<typename T> struct coll<std::forward_list<T>> { static constexpr int cat = 0; static constexpr bool is_int = std::is_same<T, int>::value; static const char* name() { return "forward_list"; } };
static const char* form_name[] = {"range", "range, compare", "range, projection", "range, compare, projection", "iterators", "iterators, compare", "iterators, projection", "iterators, compare, projection"};
template<typename H, typename F, typename R> static void expect_call(const H& h, int want, int fo, int state, std::true_type) {
    R r{}; r.resize(3); reset_log();
    int got = F::template call<H>(h, r);
    count_eval(true, 1);
    if (got != want + 1) fail("%s: the result is that of sorter %d, %d was expected", desc().text.c_str(), got - 1, want);
    if (last.who != want || last.calls != 1) fail("%s: sorter %d is called (%d calls), %d was expected", desc().text.c_str(), last.who, last.calls, want);
    if (last.n != 3) fail("%s: the sorter receives %ld elements instead of 3", desc().text.c_str(), last.n);
    int c = fo % 4 == 1 || fo % 4 == 3 ? 41 : 0, p = fo % 4 >= 2 ? 42 : 0;
    if (state < 0 && (last.cmp != c || last.proj != p)) fail("%s: the sorter does not receive the comparison and projection given (%d, %d)", desc().text.c_str(), last.cmp, last.proj);
    if (state > 0 && last.state != state) fail("%s: the sorter called holds state %d instead of %d", desc().text.c_str(), last.state, state);
    note_behaviour(u64(want) * 131 + u64(fo) * 7 + u64(coll<R>::cat));
}
template<typename H, typename F, typename R> static void expect_call(const H&, int, int, int, std::false_type) { count_eval(false, 0); }
#endif

#if PART == 0
template<int... Us> struct Names { static std::string get(const char* what) { std::string s = what; int u[] = {Us...}; static const char* fl[] = {"", " int only", " no function", " rebound", " range only"}, *ca[] = {"forward", "bidirectional", "random access"}; for (std::size_t i = 0; i < sizeof...(Us); ++i) s += std::string(i ? ", " : "") + ca[cat_of(u[i])] + fl[flavour_of(u[i])]; return s; } };
template<typename H, typename R, int Form, int... Us> static void one() {
    constexpr int us[] = {Us...};
    constexpr int want = pick(us, coll<R>::cat, coll<R>::is_int, Form);
    using F = form<Form, R>;
    if (F::template valid<H> != (want >= 0)) fail("hybrid_adapter<%s>: calling with (%s of %s<%s>) %s", Names<Us...>::get("").c_str(), form_name[Form], coll<R>::name(), coll<R>::is_int ? "int" : "short", want >= 0 ? "is rejected" : "is accepted");
    SAY("hybrid_adapter<%s> called with (%s of %s<%s>)", Names<Us...>::get("").c_str(), form_name[Form], coll<R>::name(), coll<R>::is_int ? "int" : "short");
    expect_call<H, F, R>(H{}, want, Form, -1, std::integral_constant<bool, (want >= 0)>{});
}
template<typename H, typename R, int Form, int... Us, std::enable_if_t<(pick({Us...}, coll<R>::cat, coll<R>::is_int, Form) >= 0), int> = 0> static void stab() {
    constexpr int us[] = {Us...};
    constexpr int want = pick(us, coll<R>::cat, coll<R>::is_int, Form);
    if (form<Form, R>::template stable<H>() != stable_of(us[want], want)) fail("hybrid_adapter<%s>: is_stable with (%s of %s) differs from that of the sorter called", Names<Us...>::get("").c_str(), form_name[Form], coll<R>::name());
}
template<typename H, typename R, int Form, int... Us, std::enable_if_t<(pick({Us...}, coll<R>::cat, coll<R>::is_int, Form) < 0), int> = 0> static void stab() {}
constexpr int min_cat() { return 9; }
template<typename... T> constexpr int min_cat(int a, T... t) { return cat_of(a) < min_cat(t...) ? cat_of(a) : min_cat(t...); }
template<bool Full, int... Us, std::size_t... K> static void run(std::index_sequence<K...>) {
    using H = cs::hybrid_adapter<ts<Us, int(K)>...>;
    static_assert(std::is_same<cs::iterator_category<H>, cat_t<min_cat(Us...)>>::value, "the iterator category of hybrid_adapter is the most permissive one");
    constexpr bool st[] = {stable_of(Us, int(K))...};
    bool all = true; for (bool b : st) all = all && b;
    if (cs::is_always_stable_v<H> != all) fail("hybrid_adapter<%s>: wrong is_always_stable", Names<Us...>::get("").c_str());
    using V = std::vector<int>; using L = std::list<int>; using W = std::forward_list<int>;
#define ONE(R, f) one<H, R, f, Us...>(); stab<H, R, f, Us...>();
    ONE(V, 0) ONE(L, 0) ONE(W, 0) ONE(V, 5) ONE(L, 5) ONE(W, 5)
    ONE(std::vector<short>, 0) ONE(std::list<short>, 5)
#if FULL
    ONE(V, 1) ONE(L, 1) ONE(W, 1) ONE(V, 2) ONE(L, 2) ONE(W, 2) ONE(V, 3) ONE(L, 3) ONE(W, 3) ONE(V, 4) ONE(L, 4) ONE(W, 4) ONE(V, 6) ONE(L, 6) ONE(W, 6) ONE(V, 7) ONE(L, 7) ONE(W, 7)
    ONE(std::forward_list<short>, 0) ONE(std::forward_list<short>, 7) ONE(std::list<short>, 3) ONE(std::vector<short>, 6)
#endif
}
template<int... Us> static void add() { add_job(Names<Us...>::get("hybrid: "), 1, [](u64) { run<FULL, Us...>(std::make_index_sequence<sizeof...(Us)>{}); }); }
// The universe: 0..8 categories x (all, int only, no function), 10 and 11 rebound, 12..14 ranges only
#define T(...) add<__VA_ARGS__>();
MC_JOBS { TUPLES }
#endif

#if PART == 1
// ------------------------------------------------------------------ nested hybrid adapters, sorters with state, stable_adapter around hybrid_adapter
template<int Who, int Cat, bool Stable> struct SSImpl {
    int state = 0;
    SSImpl() = default; constexpr explicit SSImpl(int s): state(s) {}
    template<typename It, typename C = std::less<>, typename P = cs::utility::identity, typename = std::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    int operator()(It f, It l, C = {}, P = {}) const { last = Log{Who, last.calls + 1, state, long(std::distance(f, l)), 0, 0}; return Who + 1; }
    using iterator_category = cat_t<Cat>; using is_always_stable = std::integral_constant<bool, Stable>;
};
template<int Who, int Cat, bool Stable> struct SS: cs::sorter_facade<SSImpl<Who, Cat, Stable>> { SS() = default; constexpr SS(int s): cs::sorter_facade<SSImpl<Who, Cat, Stable>>(s) {} };
template<typename... S> using H = cs::hybrid_adapter<S...>;
// shapes of three sorters: type and construction
#define SHAPE(n, TYPE, ...) template<typename A, typename B, typename C> struct shape_##n { using type = TYPE; static type make(A a, B b, C c) { (void)a; (void)b; (void)c; return __VA_ARGS__; } static const char* name() { return #TYPE; } };
#define TY(...) __VA_ARGS__
SHAPE(0, TY(H<A, B, C>), type(a, b, c))
SHAPE(1, TY(H<A, H<B, C>>), type(a, H<B, C>(b, c)))
SHAPE(2, TY(H<H<A, B>, C>), type(H<A, B>(a, b), c))
SHAPE(3, TY(H<H<A>, H<B>, H<C>>), type(H<A>(a), H<B>(b), H<C>(c)))
SHAPE(4, TY(H<H<A, H<B>>, C>), type(H<A, H<B>>(a, H<B>(b)), c))
SHAPE(5, TY(H<H<H<A, B, C>>>), type(H<H<A, B, C>>(H<A, B, C>(a, b, c))))
SHAPE(6, TY(H<A, H<H<B>, H<C>>>), type(a, H<H<B>, H<C>>(H<B>(b), H<C>(c))))
template<typename HT, typename R, typename F, int Form> struct Go {
    static void go(const HT& h, int who, int state, std::true_type) {
        R r{}; r.resize(3); reset_log(); int got = F::template call<HT>(h, r); count_eval(true, 1); note_behaviour(u64(who) * 131 + u64(state) * 7 + u64(coll<R>::cat) * 1000 + Form);
        if (got != who + 1) fail("%s: the result is that of sorter %d, %d was expected", desc().text.c_str(), got - 1, who);
        if (last.who != who || last.calls != 1) fail("%s: sorter %d is called, %d was expected", desc().text.c_str(), last.who, who);
        if (last.n != 3) fail("%s: the sorter receives %ld elements instead of 3", desc().text.c_str(), last.n);
        if (last.state != state) fail("%s: the sorter called holds state %d instead of %d", desc().text.c_str(), last.state, state);
        }
    static void go(const HT&, int, int, std::false_type) {}
};
template<typename HT, typename R, int Form> static void check_call(const HT& h, const char* what, int u0, int u1, int u2, int who0, int who1, int who2, int scale) {
    const int us[] = {u0, u1, u2}; const int whos[] = {who0, who1, who2};
    int want = pick(us, coll<R>::cat, true, Form);
    SAY("%s, categories %d %d %d, called with (%s of %s)", what, u0, u1, u2, form_name[Form], coll<R>::name());
    using F = form<Form, R>;
    const bool valid = F::template valid<HT>;
    if (valid != (want >= 0)) fail("%s: the call %s", desc().text.c_str(), valid ? "is accepted" : "is rejected");
    if (want >= 0) Go<HT, R, F, Form>::go(h, whos[want], scale * (want + 1), std::integral_constant<bool, F::template valid<HT>>{});
}
template<typename HT> static void calls(const HT& h, const char* what, int u0, int u1, int u2, int w0, int w1, int w2, int scale) {
#define CC(R, f) check_call<HT, R, f>(h, what, u0, u1, u2, w0, w1, w2, scale);
    using V = std::vector<int>; using L = std::list<int>; using W = std::forward_list<int>;
    CC(V, 1) CC(L, 1) CC(W, 1) CC(V, 4) CC(L, 4) CC(W, 4) CC(V, 7) CC(L, 7) CC(W, 7)
}
template<template<typename, typename, typename> class Shape, int U0, int U1, int U2> static void shape() {
    std::string s0 = std::string(Shape<int, int, int>::name());
    constexpr int lo = (U0 < U1 ? U0 : U1) < U2 ? (U0 < U1 ? U0 : U1) : U2;
    {   // distinct sorters
        using A = SS<0, U0, false>; using B = SS<1, U1, true>; using C = SS<2, U2, false>;
        using S = Shape<A, B, C>; using HT = typename S::type;
        static_assert(std::is_same<cs::iterator_category<HT>, cat_t<lo>>::value, "");
        calls(HT{}, s0.c_str(), U0, U1, U2, 0, 1, 2, 0);
        calls(S::make(A(10), B(20), C(30)), (s0 + " constructed from sorters").c_str(), U0, U1, U2, 0, 1, 2, 10);
        HT h = S::make(A(10), B(20), C(30)); HT copy = h; calls(copy, (s0 + " copied").c_str(), U0, U1, U2, 0, 1, 2, 10);
        HT moved = std::move(copy); calls(moved, (s0 + " moved").c_str(), U0, U1, U2, 0, 1, 2, 10);
        EXPECT(!(cs::is_always_stable_v<HT>), "is_always_stable of a hybrid_adapter with unstable sorters");
        // stable_adapter: every sorter is wrapped, the choice is the same
        using ST = cs::stable_adapter<HT>; using TT = cs::stable_t<HT>;
        static_assert(std::is_same<cs::iterator_category<ST>, cat_t<lo>>::value, "");
        EXPECT(cs::is_always_stable_v<ST> && cs::is_always_stable_v<TT>, "stable_adapter<hybrid_adapter> is not always stable");
        calls(ST{}, ("stable_adapter<" + s0 + ">").c_str(), U0, U1, U2, 0, 1, 2, 0);
        calls(ST(S::make(A(10), B(20), C(30))), ("stable_adapter<" + s0 + "> constructed").c_str(), U0, U1, U2, 0, 1, 2, 10);
        calls(TT(S::make(A(10), B(20), C(30))), ("stable_t<" + s0 + "> constructed").c_str(), U0, U1, U2, 0, 1, 2, 10);
        using NT = cs::stable_adapter<ST>;
        calls(NT(ST(S::make(A(10), B(20), C(30)))), ("stable_adapter<stable_adapter<" + s0 + ">> constructed").c_str(), U0, U1, U2, 0, 1, 2, 10);
    }
    {   // all stable: stable_t is the adapter itself
        using A = SS<0, U0, true>; using B = SS<1, U1, true>; using C = SS<2, U2, true>;
        using HT = typename Shape<A, B, C>::type;
        EXPECT(cs::is_always_stable_v<HT>, "is_always_stable of a hybrid_adapter of stable sorters is false");
        EXPECT((std::is_same<cs::stable_t<HT>, HT>::value), "stable_t of an always stable sorter is another type");
    }
    {   // the same sorter several times: the states tell them apart
        using A = SS<5, U0, false>; using B = SS<5, U1, false>; using C = SS<5, U2, false>;
        using S = Shape<A, B, C>;
        calls(S::make(A(10), B(20), C(30)), (s0 + " of the same sorter").c_str(), U0, U1, U2, 5, 5, 5, 10);
        calls(cs::stable_t<typename S::type>(S::make(A(10), B(20), C(30))), ("stable_t<" + s0 + "> of the same sorter").c_str(), U0, U1, U2, 5, 5, 5, 10);
    }
}
#define S_(n) shape<shape_##n, U0, U1, U2>();
template<int U0, int U1, int U2> static void add() {
    add_job("categories " + std::to_string(U0) + std::to_string(U1) + std::to_string(U2), 1, [](u64) { SHAPE_LIST });
}
#define T(...) add<__VA_ARGS__>();
MC_JOBS { TUPLES }
#endif

#if PART == 2
// ------------------------------------------------------------------ small_array_adapter
#include <cpp-sort/adapters/small_array_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/adapters/self_sort_adapter.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/utility/iter_move.h>
// a fixed-size sorter that sorts, stably when its size is even and with equal elements reversed otherwise, and says so
template<typename It, typename L> static void slow_sort(It f, It l, L less, bool stable) {
    for (It i = f; i != l; ++i) for (It j = i; j != f && (less(*j, *(j - 1)) || (!stable && !less(*(j - 1), *j))); --j) { using cs::utility::iter_swap; iter_swap(j, j - 1); }
}
template<std::size_t N, int Flavour> struct FXImpl {
    template<typename It, typename C = std::less<>, typename P = cs::utility::identity, typename = std::enable_if_t<cs::is_projection_iterator_v<P, It, C>>, typename = std::enable_if_t<Flavour != 1 || std::is_same<typename std::iterator_traits<It>::value_type, int>::value>>
    int operator()(It f, It l, C c = {}, P p = {}) const {
        last = Log{int(100 + N), last.calls + 1, 0, long(l - f), tag_of(c), tag_of(p)};
        auto&& cmp = cs::utility::as_function(c); auto&& proj = cs::utility::as_function(p);
        slow_sort(f, l, [&](const auto& a, const auto& b) { return cmp(proj(a), proj(b)); }, N % 2 == 0);
        return int(100 + N);
    }
    using iterator_category = Cat2; using is_always_stable = std::integral_constant<bool, N % 2 == 0>;
};
template<std::size_t N> struct FA: cs::sorter_facade<FXImpl<N, 0>> {};         // no traits
template<std::size_t N> struct FD: cs::sorter_facade<FXImpl<N, 0>> {};         // a domain with a hole
template<std::size_t N> struct FI: cs::sorter_facade<FXImpl<N, 1>> {};         // only int
namespace cppsort {
    template<> struct fixed_sorter_traits<FD> { using domain = std::index_sequence<1, 2, 4, 5>; using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
    template<> struct fixed_sorter_traits<FI> { using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
}
constexpr bool in_domain(int dom, std::size_t n) { return dom == 0 ? true : dom == 1 ? n == 1 || n == 2 || n == 4 || n == 5 : n == 2 || n == 3 || n == 6; }
template<int Cat> struct FallbackImpl {
    template<typename It, typename C = std::less<>, typename P = cs::utility::identity, typename = std::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    int operator()(It f, It l, C = {}, P = {}) const { last = Log{7, last.calls + 1, 0, long(std::distance(f, l)), 0, 0}; return 7; }
    using iterator_category = cat_t<Cat>; using is_always_stable = std::true_type;
};
template<int Cat> struct Fallback: cs::sorter_facade<FallbackImpl<Cat>> {};
struct E2 { signed char key, id; friend bool operator<(const E2& a, const E2& b) { return a.key < b.key; } };
struct ELt { int tag = 51; template<typename T> bool operator()(const T& a, const T& b) const { return a < b; } };
struct EKey { int tag = 52; int operator()(const E2& e) const { return e.key; } int operator()(int e) const { return e; } int operator()(short e) const { return e; } };
static int key_of(const E2& e) { return e.key; } static int key_of(int e) { return e; }
static int id_of(const E2& e) { return e.id; } static int id_of(int) { return 0; }
template<typename T> static T elem(int k, int i) { return T(k); }
template<> E2 elem<E2>(int k, int i) { return E2{(signed char)k, (signed char)i}; }
// One array, one adapter: who must be called (100 + N, 7 or nobody)
template<typename Ad, typename A, typename T, std::size_t N, int Form> struct Call {
    static auto go(const Ad& ad, A& a, ic<0>) { return ad(a); }
    static auto go(const Ad& ad, A& a, ic<1>) { return ad(a, ELt{}); }
    static auto go(const Ad& ad, A& a, ic<2>) { return ad(a, EKey{}); }
    static auto go(const Ad& ad, A& a, ic<3>) { return ad(a, ELt{}, EKey{}); }
    static void run(const Ad& ad, const char* what, int want, bool logs, std::true_type) {
        for (u64 code = 0, c = [] { u64 c = 1; for (std::size_t i = 0; i < N && i < 5; ++i) c *= 3; return c; }(); code < c; ++code) {
            A a; u64 k = code; std::size_t i = 0; for (auto& e : a) { e = elem<T>(int(k % 3), int(i++)); k /= 3; }
            reset_log(); int got = go(ad, a, ic<Form>{}); count_eval(true, 1); note_behaviour(code * 64 + N * 4 + Form);
            if (got != want) fail("%s, array of %d elements, form %d: the result is that of %d instead of %d", what, int(N), Form, got, want);
            if (last.who != want || last.calls != 1) fail("%s, array of %d elements, form %d: %d is called (%d calls) instead of %d", what, int(N), Form, last.who, last.calls, want);
            if (last.n != long(N)) fail("%s, array of %d elements: the sorter receives %ld elements", what, int(N), last.n);
            if (want == 7) continue;
            if (logs && (last.cmp != (Form & 1 ? 51 : 0) || last.proj != (Form & 2 ? 52 : 0))) fail("%s, array of %d elements, form %d: the sorter does not receive the functions given", what, int(N), Form);
            int pk = -1, pi = 0; for (auto& e : a) { int kk = key_of(e), ii = id_of(e); if (kk < pk || (kk == pk && std::is_same<T, E2>::value && (N % 2 == 0) != (pi < ii))) fail("%s, array of %d elements, form %d: the sorter did not sort this array", what, int(N), Form); pk = kk; pi = ii; }
        }
    }
    static void run(const Ad&, const char*, int, bool, std::false_type) { count_eval(false, 0); }
};
template<int Form, typename A> struct args_ { using type = void(A&); }; template<typename A> struct args_<1, A> { using type = void(A&, ELt); }; template<typename A> struct args_<2, A> { using type = void(A&, EKey); }; template<typename A> struct args_<3, A> { using type = void(A&, ELt, EKey); };
template<typename Ad, typename F> struct ok_; template<typename Ad, typename... X> struct ok_<Ad, void(X...)> { static constexpr bool value = can_call<const Ad&, X...>; template<typename A2> static constexpr bool stable() { return cs::is_stable<A2(X...)>::value; } };
template<typename Ad, typename A, typename T, std::size_t N, int Form, bool Valid> static void array1(const char* what, int want, bool logs) {
    using V = ok_<Ad, typename args_<Form, A>::type>;
    if (V::value != Valid) fail("%s: an array of %d elements is %s in form %d", what, int(N), Valid ? "rejected" : "accepted", Form);
    Call<Ad, A, T, N, Form>::run(Ad{}, what, want, logs, std::integral_constant<bool, Valid>{});
}
template<typename Ad, typename A, typename T, std::size_t N, int Form> static void stable1(const char* what, bool want, std::true_type) {
    if (ok_<Ad, typename args_<Form, A>::type>::template stable<Ad>() != want) fail("%s: is_stable of the call with an array of %d elements in form %d is %s", what, int(N), Form, want ? "false" : "true");
}
template<typename Ad, typename A, typename T, std::size_t N, int Form> static void stable1(const char*, bool, std::false_type) {}
template<typename Ad, typename T, std::size_t N, bool Valid, bool Stab = true> static void arrays(const char* what, int want, bool stable, bool logs = true) {
    using A = std::array<T, N>; using R = T[N];
    array1<Ad, A, T, N, 0, Valid>(what, want, logs); array1<Ad, A, T, N, 1, Valid>(what, want, logs); array1<Ad, A, T, N, 2, Valid>(what, want, logs); array1<Ad, A, T, N, 3, Valid>(what, want, logs);
    array1<Ad, R, T, N, 0, Valid>(what, want, logs); array1<Ad, R, T, N, 3, Valid>(what, want, logs); array1<Ad, R, T, N, 1, Valid>(what, want, logs); array1<Ad, R, T, N, 2, Valid>(what, want, logs);
    using VV = std::integral_constant<bool, Valid && Stab>;
    stable1<Ad, A, T, N, 0>(what, stable, VV{}); stable1<Ad, R, T, N, 0>(what, stable, VV{}); stable1<Ad, A, T, N, 2>(what, stable, VV{}); stable1<Ad, R, T, N, 3>(what, stable, VV{});
}
template<typename Ad> static void no_ranges(const char* what) {
    using V = std::vector<int>;
    if (can_call<const Ad&, V&> || can_call<const Ad&, std::list<int>&> || can_call<const Ad&, V::iterator, V::iterator> || can_call<const Ad&, int*, int*>) fail("%s: accepts a collection that is not an array", what);
}
template<template<std::size_t> class FS, typename Idx, int Dom> struct sa_ { using type = cs::small_array_adapter<FS, Idx>; };
struct def; template<template<std::size_t> class FS, int Dom> struct sa_<FS, def, Dom> { using type = cs::small_array_adapter<FS>; };
template<template<std::size_t> class FS, typename Idx, int Dom, bool IntOnly, typename T, std::size_t N> static void size_() {
    using Ad = typename sa_<FS, Idx, Dom>::type;
    constexpr bool valid = in_domain(Dom, N) && (!IntOnly || std::is_same<T, int>::value);
    arrays<Ad, T, N, valid>("small_array_adapter", 100 + int(N), N % 2 == 0);
    // with a fallback of the same category, before and after, and of a more permissive one
    arrays<cs::hybrid_adapter<Ad, Fallback<2>>, T, N, true>("hybrid_adapter<small_array_adapter, fallback>", valid ? 100 + int(N) : 7, !valid || N % 2 == 0);
    arrays<cs::hybrid_adapter<Fallback<0>, Ad>, T, N, true>("hybrid_adapter<permissive fallback, small_array_adapter>", valid ? 100 + int(N) : 7, !valid || N % 2 == 0);
    arrays<cs::hybrid_adapter<Fallback<2>, Ad>, T, N, true>("hybrid_adapter<fallback, small_array_adapter>", 7, true);
    arrays<cs::hybrid_adapter<cs::hybrid_adapter<Ad>, Fallback<1>>, T, N, true>("hybrid_adapter<hybrid_adapter<small_array_adapter>, fallback>", valid ? 100 + int(N) : 7, !valid || N % 2 == 0);
}
// an adapter needs an iterator category for hybrid_adapter: give one when the fixed-size sorter has no traits
template<template<std::size_t> class FS, typename Idx, int Dom, bool IntOnly, typename T, std::size_t N> static void size_only() {
    using Ad = typename sa_<FS, Idx, Dom>::type;
    arrays<Ad, T, N, in_domain(Dom, N) && (!IntOnly || std::is_same<T, int>::value)>("small_array_adapter", 100 + int(N), N % 2 == 0);
}
template<template<std::size_t> class FS, typename Idx, int Dom, typename T, std::size_t N> static void schwartz_() {
    using Ad = cs::schwartz_adapter<typename sa_<FS, Idx, Dom>::type>;
    constexpr bool valid = in_domain(Dom, N);
    using A = std::array<T, N>;
    if (ok_<Ad, void(A&, EKey)>::value != valid) fail("schwartz_adapter<small_array_adapter>: an array of %d elements is %s", int(N), valid ? "rejected" : "accepted");
    array1<Ad, A, T, N, 2, valid>("schwartz_adapter<small_array_adapter>", 100 + int(N), false); array1<Ad, A, T, N, 3, valid>("schwartz_adapter<small_array_adapter>", 100 + int(N), false);
    array1<Ad, T[N], T, N, 2, valid>("schwartz_adapter<small_array_adapter>", 100 + int(N), false);
}
#define SIZES(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
MC_JOBS {
#define J0(N) add_job("any size, no traits, " #N, 1, [](u64) { size_only<FA, def, 0, false, E2, N>(); size_only<FA, void, 0, false, int, N>(); size_only<FA, std::index_sequence<2, 3, 6>, 2, false, E2, N>(); });
#define J1(N) add_job("domain, " #N, 1, [](u64) { size_<FD, def, 1, false, E2, N>(); });
#define J2(N) add_job("explicit sizes, " #N, 1, [](u64) { size_<FD, std::index_sequence<2, 3, 6>, 2, false, E2, N>(); });
#define J3(N) add_job("only int, " #N, 1, [](u64) { size_<FI, def, 0, true, int, N>(); size_<FI, def, 0, true, short, N>(); });
#define J4(N) add_job("domain ignored with void, " #N, 1, [](u64) { size_<FD, void, 0, false, E2, N>(); });
#define J5(N) add_job("schwartz, " #N, 1, [](u64) { schwartz_<FD, def, 1, E2, N>(); });
#if WHICH == 0
    SIZES(J0) SIZES(J5)
#elif WHICH == 1
    SIZES(J1) SIZES(J2)
#else
    SIZES(J3) SIZES(J4)
    add_job("other collections", 1, [](u64) { count_eval(true, 1); no_ranges<cs::small_array_adapter<FA>>("small_array_adapter<any size>"); no_ranges<cs::small_array_adapter<FD>>("small_array_adapter<domain>"); no_ranges<cs::small_array_adapter<FA, void>>("small_array_adapter<void>"); no_ranges<cs::small_array_adapter<FI, std::index_sequence<2, 3>>>("small_array_adapter<sizes>");
        EXPECT(!(can_call<const cs::small_array_adapter<FA>&, const std::array<int, 3>&>), "small_array_adapter accepts a const array"); });
#endif
}
#endif

#if PART == 3
// ------------------------------------------------------------------ self_sort_adapter
#include <memory>
#include <cpp-sort/adapters/self_sort_adapter.h>
struct El { signed char key, id; bool greater(const El& o) const { return key > o.key; } friend bool operator<(const El& a, const El& b) { return a.key < b.key; } };
struct Gt { template<typename A, typename B> bool operator()(const A& a, const B& b) const { return b < a; } };
struct Neg { int operator()(const El& e) const { return -e.key; } };
// Members of the container: 1 sort() 2 sort(f) 4 sort(f, g) 8 stable_sort() 16 stable_sort(f) 32 stable_sort(f, g)
// Picky containers only accept comparisons as single function
static int member_called; static int functions_ok;
enum { SORT = 1000, STABLE = 2000 };
template<typename F> struct accepts_ { template<typename G> static auto t(int) -> decltype(std::declval<G&>()(std::declval<El&>(), std::declval<El&>()), std::true_type{}); template<typename> static std::false_type t(...); static constexpr bool value = decltype(t<F>(0))::value; };
template<typename F> static bool is_cmp_(F f, std::true_type) { El a{1, 0}, b{2, 0}; return f(b, a); }
template<typename F> static bool is_cmp_(F f, std::false_type) { El a{1, 0}; return int(f(a)) == -1 || int(f(a)) == 1; }
template<typename F> static bool is_cmp(F f) { return is_cmp_(f, std::integral_constant<bool, accepts_<F>::value>{}); }
template<int Mask, bool Picky> struct Cont {
    std::vector<El> v;
    using iterator = std::vector<El>::iterator;
    iterator begin() { return v.begin(); } iterator end() { return v.end(); }
    template<int M = Mask, std::enable_if_t<(M & 1) != 0, int> = 0> void sort() { member_called = SORT; ++functions_ok; }
    template<typename F, int M = Mask, std::enable_if_t<(M & 2) != 0 && (!Picky || accepts_<F>::value), int> = 0> void sort(F f) { member_called = SORT + 1; functions_ok += is_cmp(f); }
    template<typename F, typename G, int M = Mask, std::enable_if_t<(M & 4) != 0, int> = 0> void sort(F f, G g) { member_called = SORT + 2; functions_ok += is_cmp(f) && is_cmp(g); }
    template<int M = Mask, std::enable_if_t<(M & 8) != 0, int> = 0> void stable_sort() { member_called = STABLE; ++functions_ok; }
    template<typename F, int M = Mask, std::enable_if_t<(M & 16) != 0 && (!Picky || accepts_<F>::value), int> = 0> void stable_sort(F f) { member_called = STABLE + 1; functions_ok += is_cmp(f); }
    template<typename F, typename G, int M = Mask, std::enable_if_t<(M & 32) != 0, int> = 0> void stable_sort(F f, G g) { member_called = STABLE + 2; functions_ok += is_cmp(f) && is_cmp(g); }
};
// The adapted sorter: says who it is and sorts; unstable ones leave equivalent elements in reverse order
template<bool Stable> struct AdImpl {
    template<typename It, typename C = std::less<>, typename P = cs::utility::identity, typename = std::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    void operator()(It f, It l, C c = {}, P p = {}) const {
        last = Log{1, last.calls + 1, 0, long(std::distance(f, l)), 0, 0};
        auto&& cmp = cs::utility::as_function(c); auto&& proj = cs::utility::as_function(p);
        for (It i = f; i != l; ++i) for (It j = f; j != i; ++j) { using cs::utility::iter_swap; if (cmp(proj(*i), proj(*j)) || (!Stable && !cmp(proj(*j), proj(*i)))) { for (It k = j; k != i; ++k) iter_swap(k, i); break; } }
    }
    using iterator_category = Cat0; using is_always_stable = std::integral_constant<bool, Stable>;
};
template<bool Stable> struct Ad: cs::sorter_facade<AdImpl<Stable>> {};
template<int F> struct fa; // functions of a form: 0 none 1 comparison 2 projection 3 both 4 pointer to member comparison 5 pointer to member projection
#define FA(n, CMP, PRJ, ARGS, TYPES) template<> struct fa<n> { static constexpr bool cmp = CMP, prj = PRJ; template<typename S, typename R> static constexpr bool valid = can_call<const S&, R& UNP TYPES>; template<typename S, typename R> static auto call(const S& s, R& r) { return s(r UNP ARGS); } template<typename S, typename R> static auto call_it(const S& s, R& r) { return s(r.begin(), r.end() UNP ARGS); } template<typename S, typename R> static constexpr bool stable() { return cs::is_stable<S(R& UNP TYPES)>::value; } template<typename S, typename R> static constexpr bool stable_it() { return cs::is_stable<S(typename R::iterator, typename R::iterator UNP TYPES)>::value; } };
#define UNP(...) __VA_ARGS__
FA(0, false, false, (), ()) FA(1, true, false, (, Gt{}), (, Gt)) FA(2, false, true, (, Neg{}), (, Neg)) FA(3, true, true, (, Gt{}, Neg{}), (, Gt, Neg))
FA(4, true, false, (, &El::greater), (, bool (El::*)(const El&) const)) FA(5, false, true, (, &El::key), (, signed char El::*))
static bool descending(int f) { return f == 1 || f == 2 || f == 4; }
static const char* fname[] = {"nothing", "a comparison", "a projection", "a comparison and a projection", "a pointer to member as comparison", "a pointer to member as projection"};
template<typename R> static std::vector<El> values(R& r) { return std::vector<El>(r.begin(), r.end()); }
static void check_sorted(const std::vector<El>& v, int f, bool stable, const char* what) {
    for (std::size_t i = 1; i < v.size(); ++i) {
        if (descending(f) ? v[i - 1].key < v[i].key : v[i - 1].key > v[i].key) fail("%s with %s: not sorted", what, fname[f]);
        if (stable && v[i - 1].key == v[i].key && v[i - 1].id > v[i].id) fail("%s with %s: the adapter says that this call is stable but it is not", what, fname[f]);
    }
}
template<typename R> static R word(u64 k, int n) { R r; std::vector<El> v; for (int i = 0; i < n; ++i, k /= 3) v.push_back(El{(signed char)(k % 3), (signed char)i}); r.assign(v.begin(), v.end()); return r; }
// user containers
template<typename S, int Mask, bool Picky, int F, bool StableAd, bool Wrapped> static void user() {
    using R = Cont<Mask, Picky>; using A = fa<F>;
    constexpr int nb = A::cmp + A::prj;
    constexpr bool blocked = Picky && nb == 1 && A::prj;
    constexpr bool srt = !Wrapped && (Mask >> nb & 1) && !blocked, stb = (Mask >> (3 + nb) & 1) && !blocked;
    const int want = srt ? SORT + nb : stb ? STABLE + nb : 0;
    static_assert(A::template valid<S, R>, "self_sort_adapter rejects a call");
    SAY("%sself_sort_adapter, members %d%s", Wrapped ? "stable " : "", Mask, Picky ? " for comparisons only" : "");
    const char* what = desc().text.c_str();
    const bool st = A::template stable<S, R>(), st_it = A::template stable_it<S, R>();
    for (u64 k = 0; k < 27; ++k) {
        R r; r.v = word<std::vector<El>>(k, 3); auto before = r.v;
        reset_log(); member_called = functions_ok = 0; A::call(S{}, r); count_eval(true, 1); note_behaviour(k * 1000 + u64(Mask) * 8 + F);
        if (member_called != want) fail("%s with %s: member %d is called, %d was expected", what, fname[F], member_called, want);
        if (last.calls != (want == 0)) fail("%s with %s: the adapted sorter is called %d times", what, fname[F], last.calls);
        if (want && functions_ok != 1) fail("%s with %s: the member does not receive the functions given", what, fname[F]);
        if (want == 0) check_sorted(r.v, F, st, what); 
        if (want == 0 && last.n != 3) fail("%s: the adapted sorter receives %ld elements", what, last.n);
        const bool should = Wrapped || (!srt && (stb || StableAd));
        if (st != should) fail("%s with %s: is_stable is %s", what, fname[F], st ? "true" : "false");
        // a pair of iterators always goes to the adapted sorter
        r.v = before; reset_log(); member_called = 0; A::call_it(S{}, r);
        if (member_called || last.calls != 1) fail("%s, iterators and %s: the adapted sorter is not called", what, fname[F]);
        check_sorted(r.v, F, st_it, what);
        if (st_it != (Wrapped || StableAd)) fail("%s, iterators and %s: is_stable is %s", what, fname[F], st_it ? "true" : "false");
    }
}
// lists
template<typename S, typename R, int F, bool StableAd, bool Wrapped> static void list_(const char* name) {
    using A = fa<F>;
    constexpr bool own = !A::prj;      // list::sort takes nothing or a comparison
    static_assert(A::template valid<S, R>, "self_sort_adapter rejects a call");
    SAY("%sself_sort_adapter, %s", Wrapped ? "stable " : "", name);
    const char* what = desc().text.c_str();
    const bool st = A::template stable<S, R>();
    if (st != (Wrapped || own || StableAd)) fail("%s with %s: is_stable is %s", what, fname[F], st ? "true" : "false");
    for (int n = 0; n <= 4; ++n) { u64 c = 1; for (int i = 0; i < n; ++i) c *= 3; for (u64 k = 0; k < c; ++k) {
        R r = word<R>(k, n); std::vector<const El*> nodes(16); for (auto& e : r) nodes[std::size_t(e.id)] = &e;
        reset_log(); A::call(S{}, r); count_eval(true, 1); note_behaviour(k * 100 + u64(n) * 10 + F);
        if (last.calls != !own) fail("%s with %s: the adapted sorter is called %d times", what, fname[F], last.calls);
        check_sorted(values(r), F, st, what);
        if (own) for (auto& e : r) if (nodes[std::size_t(e.id)] != &e) fail("%s with %s: the list does not sort itself, elements are moved", what, fname[F]);
        r = word<R>(k, n); reset_log(); A::call_it(S{}, r); if (last.calls != 1) fail("%s, iterators and %s: the adapted sorter is called %d times", what, fname[F], last.calls);
        check_sorted(values(r), F, A::template stable_it<S, R>(), what);
    } }
}
template<typename T> struct Al { using value_type = T; int tag = 0; Al() = default; explicit Al(int t): tag(t) {} template<typename U> Al(const Al<U>& o): tag(o.tag) {} T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); } friend bool operator==(const Al& a, const Al& b) { return a.tag == b.tag; } friend bool operator!=(const Al& a, const Al& b) { return a.tag != b.tag; } };
template<bool StableAd> static void lists() {
    using S = cs::self_sort_adapter<Ad<StableAd>>; using W = cs::stable_adapter<S>; using T = cs::stable_t<S>;
#define L1(X, Wrapped, R, name) list_<X, R, 0, StableAd, Wrapped>(name); list_<X, R, 1, StableAd, Wrapped>(name); list_<X, R, 2, StableAd, Wrapped>(name); list_<X, R, 3, StableAd, Wrapped>(name); list_<X, R, 4, StableAd, Wrapped>(name); list_<X, R, 5, StableAd, Wrapped>(name);
#define L2(R, name) { using C = R; L1(S, false, C, name) L1(W, true, C, name) L1(T, true, C, name) }
    L2(std::list<El>, "list") L2(std::forward_list<El>, "forward_list")
#define COMMA ,
    L2(std::list<El COMMA Al<El>>, "list with an allocator") L2(std::forward_list<El COMMA Al<El>>, "forward_list with an allocator")
}
template<int Mask, bool Picky, bool StableAd> static void users() {
    using S = cs::self_sort_adapter<Ad<StableAd>>; using W = cs::stable_adapter<S>;
    user<S, Mask, Picky, 0, StableAd, false>(); user<S, Mask, Picky, 1, StableAd, false>(); user<S, Mask, Picky, 2, StableAd, false>(); user<S, Mask, Picky, 3, StableAd, false>(); user<S, Mask, Picky, 4, StableAd, false>(); user<S, Mask, Picky, 5, StableAd, false>();
    user<W, Mask, Picky, 0, StableAd, true>(); user<W, Mask, Picky, 1, StableAd, true>(); user<W, Mask, Picky, 2, StableAd, true>(); user<W, Mask, Picky, 3, StableAd, true>(); user<W, Mask, Picky, 4, StableAd, true>(); user<W, Mask, Picky, 5, StableAd, true>();
}
template<int From, int... K> static void all_users(std::integer_sequence<int, K...>) { int d[] = {(add_job("members " + std::to_string(From + K), 1, [](u64) { users<From + K, false, (From + K) % 2>(); users<From + K, true, (From + K) / 2 % 2>(); }), 0)...}; (void)d; }
MC_JOBS {
#if FROM < 64
    all_users<FROM>(std::make_integer_sequence<int, COUNT>{});
#else
    add_job("lists, stable adapted sorter", 1, [](u64) { lists<true>(); }); add_job("lists, unstable adapted sorter", 1, [](u64) { lists<false>(); });
#endif
}
#endif

#if PART == 4
// ------------------------------------------------------------------ what the traits say, against the documentation
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/metrics.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/buffer.h>
template<typename T, typename = void> struct cat_n_: ic<-1> {};
template<typename T> struct cat_n_<T, cs::detail::void_t<cs::iterator_category<T>>>: ic<std::is_same<cs::iterator_category<T>, Cat0>::value ? 0 : std::is_same<cs::iterator_category<T>, Cat1>::value ? 1 : std::is_same<cs::iterator_category<T>, Cat2>::value ? 2 : 9> {};
template<typename T, typename = void> struct stb_n_: ic<-1> {};
template<typename T> struct stb_n_<T, cs::detail::void_t<cs::is_always_stable<T>>>: ic<std::is_same<cs::is_always_stable<T>, std::true_type>::value ? 1 : std::is_same<cs::is_always_stable<T>, std::false_type>::value ? 0 : 9> {};
template<typename S> static void traits(const char* name, int cat, int stable) {
    SAY("%s", name); count_eval(true, 1); note_behaviour(std::hash<std::string>{}(name));
    if (cat_n_<S>::value != cat) fail("%s: iterator_category is %d, %d is documented (0 forward, 1 bidirectional, 2 random access, -1 absent)", name, int(cat_n_<S>::value), cat);
    if (stb_n_<S>::value != stable) fail("%s: is_always_stable is %d, %d is documented (-1 absent)", name, int(stb_n_<S>::value), stable);
    if (std::is_same<typename cs::sorter_traits<S>::iterator_category, cs::iterator_category<S>>::value == false) fail("%s: iterator_category<S> is not sorter_traits<S>::iterator_category", name);
    if (cs::is_always_stable_v<S> != cs::is_always_stable<S>::value) fail("%s: is_always_stable_v differs from is_always_stable", name);
}
#define TRAITS(cat, stable, ...) traits<__VA_ARGS__>(#__VA_ARGS__, cat, stable);
#define SAME(what, A, ...) { using A_ = A; using B_ = __VA_ARGS__; count_eval(true, 1); if (!std::is_same<A_, B_>::value) fail("%s is not %s: %s", #A, #__VA_ARGS__, what); }
#define U(...) __VA_ARGS__
#define TRUE_(...) { count_eval(true, 1); if (!(__VA_ARGS__)) fail("%s is false", #__VA_ARGS__); }
#define FALSE_(...) { count_eval(true, 1); if (__VA_ARGS__) fail("%s is true", #__VA_ARGS__); }
// Sorters of every category and stability, of our own
template<int Cat, int Stable> struct My { template<typename It> void operator()(It, It) const {} using iterator_category = cat_t<Cat>; using is_always_stable = std::integral_constant<bool, Stable != 0>; };
template<int Cat> struct My<Cat, 2> { template<typename It> void operator()(It, It) const {} using iterator_category = cat_t<Cat>; };             // no stability
template<int Stable> struct My<3, Stable> { template<typename It> void operator()(It, It) const {} using is_always_stable = std::integral_constant<bool, Stable != 0>; };   // no category
template<> struct My<3, 2> { template<typename It> void operator()(It, It) const {} };
template<int Cat, int Stable> struct Spec { template<typename It> void operator()(It, It) const {} };    // traits given by specializing sorter_traits
namespace cppsort { template<int Cat, int Stable> struct sorter_traits<Spec<Cat, Stable>> { using iterator_category = cat_t<Cat>; using is_always_stable = std::integral_constant<bool, Stable != 0>; }; }
template<std::size_t N> struct FAll { template<typename It> void operator()(It, It) const {} };
template<std::size_t N> struct FAll2 { template<typename It> void operator()(It, It) const {} };
namespace cppsort {
    template<> struct fixed_sorter_traits<FAll> { using iterator_category = std::bidirectional_iterator_tag; using is_always_stable = std::true_type; };
    template<> struct fixed_sorter_traits<FAll2> { using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
}
template<typename Seq> struct last_of; template<std::size_t... I> struct last_of<std::index_sequence<I...>> { static constexpr std::size_t n = sizeof...(I); };
template<int Cat, int St, template<int, int> class M> static void adapters_of() {
    using S = M<Cat, St>;
    constexpr int bidir = Cat == 3 ? 1 : Cat < 1 ? 1 : Cat;        // bidirectional at best
    constexpr int c = Cat == 3 ? -1 : Cat, s = St == 2 ? -1 : St;
    (void)c;
    TRAITS(c, s, cs::counting_adapter<S>) TRAITS(c, s, cs::counting_adapter<S, long>) TRAITS(c, s, cs::schwartz_adapter<S>) TRAITS(c, s, cs::schwartz_adapter<cs::schwartz_adapter<S>>)
    TRAITS(c, s, cs::metrics::comparisons<S>) TRAITS(c, s, cs::metrics::projections<S>) TRAITS(c, s, cs::metrics::moves<S>) TRAITS(c, s, cs::metrics::running_time<S>)
    TRAITS(0, s, cs::indirect_adapter<S>) TRAITS(0, s, cs::out_of_place_adapter<S>)
    TRAITS(1, 0, cs::drop_merge_adapter<S>) TRAITS(bidir, 0, cs::split_adapter<S>) TRAITS(bidir, 0, cs::verge_adapter<S>)
    TRAITS(c, 1, cs::make_stable<S>) TRAITS(c, 1, cs::stable_adapter<cs::metrics::comparisons<S>>)
    TRAITS(c, 0, cs::self_sort_adapter<S>)
    TRAITS(bidir, 1, cs::stable_adapter<cs::verge_adapter<S>>)
    TRAITS(c, 1, cs::stable_adapter<cs::self_sort_adapter<S>>)
}
template<int Cat, int St, template<int, int> class M> static void stables_of() {
    using S = M<Cat, St>; constexpr int c = Cat == 3 ? -1 : Cat;
    TRAITS(c, 1, cs::stable_adapter<S>) TRAITS(c, 1, cs::stable_adapter<cs::stable_adapter<S>>) TRAITS(c, 1, cs::stable_t<S>)
    using Want = std::conditional_t<St != 0, S, cs::stable_adapter<S>>;
    SAME("stable_t", cs::stable_t<S>, Want)
    SAME("stable_adapter::type", typename cs::stable_adapter<S>::type, Want)
    SAME("stable_t of stable_t", cs::stable_t<cs::stable_t<S>>, Want)
    SAME("stable_t of stable_adapter", cs::stable_t<cs::stable_adapter<S>>, Want)
    SAME("stable_t of nested stable_adapter", U(cs::stable_t<cs::stable_adapter<cs::stable_adapter<S>>>), Want)
    SAME("stable_t of nested stable_adapter", U(cs::stable_t<cs::stable_adapter<cs::stable_adapter<cs::stable_adapter<S>>>>), Want)
    SAME("stable_t of make_stable", cs::stable_t<cs::make_stable<S>>, cs::make_stable<S>)
    // is_stable falls back on is_always_stable
    TRUE_(cs::is_stable_v<S(int*, int*)> == (St != 0)) TRUE_(cs::is_stable<S(std::vector<int>&)>::value == (St != 0)) TRUE_(cs::is_stable_v<cs::stable_adapter<S>(std::vector<int>&)>)
}
template<int A, int B, int C> static void hybrids_of() {    // categories of three sorters, all stable but one
    using S0 = My<A, 1>; using S1 = My<B, 1>; using S2 = My<C, 1>; using U0 = My<A, 0>;
    constexpr int m2 = A < B ? A : B, m3 = m2 < C ? m2 : C;
    TRAITS(A, 1, cs::hybrid_adapter<S0>) TRAITS(A, 0, cs::hybrid_adapter<U0>)
    TRAITS(m2, 1, cs::hybrid_adapter<S0, S1>) TRAITS(m2, 0, cs::hybrid_adapter<U0, S1>) TRAITS(m2, 0, cs::hybrid_adapter<S1, U0>) TRAITS(m2, 0, cs::hybrid_adapter<U0, My<B, 0>>)
    TRAITS(m3, 1, cs::hybrid_adapter<S0, S1, S2>) TRAITS(m3, 0, cs::hybrid_adapter<U0, S1, S2>) TRAITS(m3, 0, cs::hybrid_adapter<S1, U0, S2>) TRAITS(m3, 0, cs::hybrid_adapter<S2, S1, U0>)
    TRAITS(m3, 1, cs::hybrid_adapter<cs::hybrid_adapter<S0, S1>, S2>) TRAITS(m3, 0, cs::hybrid_adapter<S2, cs::hybrid_adapter<S1, U0>>)
    TRAITS(m3, 1, cs::stable_adapter<cs::hybrid_adapter<U0, S1, S2>>) TRAITS(m3, 1, cs::stable_t<cs::hybrid_adapter<U0, S1, S2>>) TRAITS(m3, 1, cs::stable_t<cs::hybrid_adapter<S0, S1, S2>>)
    SAME("always stable already", U(cs::stable_t<cs::hybrid_adapter<S0, S1, S2>>), U(cs::hybrid_adapter<S0, S1, S2>))
}
template<int A, int B> static void rebind_of() {
    using S = My<A, 1>; using R = cs::rebind_iterator_category<S, cat_t<B>>; using R0 = cs::rebind_iterator_category<My<A, 0>, cat_t<B>>;
    TRAITS(B, 1, R) TRAITS(B, 0, R0) TRAITS(2, 1, cs::rebind_iterator_category<R, Cat2>)
    TRAITS(B, 1, cs::counting_adapter<R>) TRAITS(0, 1, cs::indirect_adapter<R>)
}
template<template<std::size_t> class F, std::size_t N> static void fixed1(const char* name, int cat, bool stable) { traits<F<N>>(name, cat, stable); }
template<std::size_t... N> static void for_networks() { int d[] = {(fixed1<cs::sorting_network_sorter, N>("a large sorting_network_sorter", 2, false), fixed1<cs::merge_exchange_network_sorter, N>("a large merge_exchange_network_sorter", 2, false), fixed1<cs::odd_even_merge_network_sorter, N>("a large odd_even_merge_network_sorter", 2, false), 0)...}; (void)d; }
template<typename T, typename = void> struct has_domain_: std::false_type { using type = void; };
template<typename T> struct has_domain_<T, cs::detail::void_t<typename T::domain>>: std::true_type { using type = typename T::domain; };
// callability, against an independent formulation
template<typename S, typename R, typename C, typename P> static void sorter_forms(const char* name, bool r, bool rc, bool rp, bool rcp, bool i, bool ic_, bool ip, bool icp) {
    using I = decltype(std::begin(std::declval<R&>()));
    SAY("%s", name);
    struct { bool got, got_v, want; const char* what; } t[] = {
        {cs::is_sorter<S, R>::value, cs::is_sorter_v<S, R>, r, "is_sorter"}, {cs::is_comparison_sorter<S, R, C>::value, cs::is_comparison_sorter_v<S, R, C>, rc, "is_comparison_sorter"},
        {cs::is_projection_sorter<S, R, P>::value, cs::is_projection_sorter_v<S, R, P>, rp, "is_projection_sorter"}, {cs::is_comparison_projection_sorter<S, R, C, P>::value, cs::is_comparison_projection_sorter_v<S, R, C, P>, rcp, "is_comparison_projection_sorter"},
        {cs::is_sorter_iterator<S, I>::value, cs::is_sorter_iterator_v<S, I>, i, "is_sorter_iterator"}, {cs::is_comparison_sorter_iterator<S, I, C>::value, cs::is_comparison_sorter_iterator_v<S, I, C>, ic_, "is_comparison_sorter_iterator"},
        {cs::is_projection_sorter_iterator<S, I, P>::value, cs::is_projection_sorter_iterator_v<S, I, P>, ip, "is_projection_sorter_iterator"}, {cs::is_comparison_projection_sorter_iterator<S, I, C, P>::value, cs::is_comparison_projection_sorter_iterator_v<S, I, C, P>, icp, "is_comparison_projection_sorter_iterator"}};
    for (auto& x : t) { count_eval(true, 1); if (x.got != x.want) fail("%s: %s is %s", name, x.what, x.got ? "true" : "false"); if (x.got != x.got_v) fail("%s: %s_v differs from %s", name, x.what, x.what); }
}
struct W2 { int a; int get() const { return a; } }; struct Cmp2 { bool operator()(int, int) const { return false; } }; struct CmpW { bool operator()(const W2&, const W2&) const { return false; } };
struct Prj2 { int operator()(const W2& w) const { return w.a; } }; struct PrjV { W2 operator()(int a) const { return W2{a}; } }; struct Ternary { bool operator()(int, int, int) const { return false; } };
// a sorter implementing a subset of the overloads, directly (no facade)
struct OnlyR { void operator()(std::vector<int>&) const {} }; struct OnlyRC { void operator()(std::vector<int>&, Cmp2) const {} }; struct OnlyIP { void operator()(std::vector<W2>::iterator, std::vector<W2>::iterator, Prj2) const {} };
struct OnlyICP { void operator()(std::vector<W2>::iterator, std::vector<W2>::iterator, Cmp2, Prj2) const {} }; struct NonConst { void operator()(std::vector<int>&) {} };
struct Greedy { template<typename... A> void operator()(A&&...) const {} };
MC_JOBS {
    add_job("sorters", 1, [](u64) {
        TRAITS(2, 1, cs::adaptive_shivers_sorter) TRAITS(2, 1, cs::block_sorter<>) TRAITS(2, 1, cs::block_sorter<cs::utility::dynamic_buffer<cs::utility::half>>) TRAITS(2, 1, cs::wiki_sorter<>) TRAITS(2, 1, cs::wiki_sorter<cs::utility::fixed_buffer<0>>)
        TRAITS(0, 0, cs::cartesian_tree_sorter) TRAITS(0, 0, cs::counting_sorter) TRAITS(2, 0, cs::d_ary_heap_sorter<2>) TRAITS(2, 0, cs::d_ary_heap_sorter<3>) TRAITS(2, 0, cs::d_ary_heap_sorter<4>) TRAITS(2, 0, cs::d_ary_heap_sorter<5>) TRAITS(2, 0, cs::d_ary_heap_sorter<100>)
        TRAITS(1, 0, cs::drop_merge_sorter) TRAITS(2, 1, cs::grail_sorter<>) TRAITS(2, 1, cs::grail_sorter<cs::utility::dynamic_buffer<cs::utility::sqrt>>) TRAITS(2, 0, cs::heap_sorter) TRAITS(1, 1, cs::insertion_sorter) TRAITS(0, 0, cs::mel_sorter)
        TRAITS(2, 0, cs::merge_insertion_sorter) TRAITS(0, 1, cs::merge_sorter) TRAITS(2, 0, cs::pdq_sorter) TRAITS(2, 0, cs::poplar_sorter) TRAITS(0, 0, cs::quick_merge_sorter) TRAITS(0, 0, cs::quick_sorter) TRAITS(0, 0, cs::selection_sorter)
        TRAITS(2, 0, cs::ska_sorter) TRAITS(1, 0, cs::slab_sorter) TRAITS(2, 0, cs::smooth_sorter) TRAITS(2, 1, cs::spin_sorter) TRAITS(0, 1, cs::splay_sorter) TRAITS(2, 0, cs::spread_sorter) TRAITS(2, 0, cs::float_spread_sorter) TRAITS(2, 0, cs::integer_spread_sorter) TRAITS(2, 0, cs::string_spread_sorter)
        TRAITS(2, 0, cs::std_sorter) TRAITS(2, 1, cs::stable_adapter<cs::std_sorter>) TRAITS(2, 1, cs::tim_sorter)
    });
    add_job("pattern-based sorters", 1, [](u64) { TRAITS(2, 0, cs::split_sorter) TRAITS(1, 0, cs::verge_sorter) TRAITS(1, 1, cs::stable_adapter<cs::verge_sorter>) });
    add_job("fixed-size sorters", 1, [](u64) {
#define FX(N) fixed1<cs::low_comparisons_sorter, N>("low_comparisons_sorter<" #N ">", 2, false); fixed1<cs::low_moves_sorter, N>("low_moves_sorter<" #N ">", 2, false); fixed1<cs::merge_exchange_network_sorter, N>("merge_exchange_network_sorter<" #N ">", 2, false); fixed1<cs::odd_even_merge_network_sorter, N>("odd_even_merge_network_sorter<" #N ">", 2, false); fixed1<cs::sorting_network_sorter, N>("sorting_network_sorter<" #N ">", 2, N <= 3);
    });
    add_job("adapters of any sorter", 1, [](u64) {
#define AD(C, S) adapters_of<C, S, My>(); 
        AD(0, 0) AD(0, 1) AD(1, 0) AD(1, 1) AD(2, 0) AD(2, 1) adapters_of<0, 1, Spec>(); adapters_of<1, 0, Spec>(); adapters_of<2, 1, Spec>();
#define STB(C, S) stables_of<C, S, My>();
        STB(0, 0) STB(0, 1) STB(1, 0) STB(1, 1) STB(2, 0) STB(2, 1) stables_of<0, 1, Spec>(); stables_of<1, 0, Spec>(); stables_of<2, 1, Spec>(); stables_of<2, 0, Spec>();
    });
    add_job("hybrid_adapter", 1, [](u64) {
#define HY(A) hybrids_of<A, 0, 0>(); hybrids_of<A, 0, 1>(); hybrids_of<A, 0, 2>(); hybrids_of<A, 1, 0>(); hybrids_of<A, 1, 1>(); hybrids_of<A, 1, 2>(); hybrids_of<A, 2, 0>(); hybrids_of<A, 2, 1>(); hybrids_of<A, 2, 2>();
        HY(0) HY(1) HY(2)
        rebind_of<0, 0>(); rebind_of<0, 1>(); rebind_of<0, 2>(); rebind_of<1, 1>(); rebind_of<1, 2>(); rebind_of<2, 2>();
    });
    add_job("traits that are absent", 1, [](u64) {
        TRUE_(cat_n_<My<0, 2>>::value == 0) TRUE_(stb_n_<My<0, 2>>::value == -1) TRUE_(cat_n_<My<3, 1>>::value == -1) TRUE_(stb_n_<My<3, 1>>::value == 1) TRUE_(cat_n_<My<3, 2>>::value == -1) TRUE_(stb_n_<My<3, 2>>::value == -1) TRUE_(cat_n_<int>::value == -1) TRUE_(stb_n_<int>::value == -1)
        // adapters work with what there is
        TRUE_(cat_n_<cs::counting_adapter<My<0, 2>>>::value == 0) TRUE_(stb_n_<cs::counting_adapter<My<0, 2>>>::value == -1) TRUE_(cat_n_<cs::counting_adapter<My<3, 1>>>::value == -1) TRUE_(stb_n_<cs::counting_adapter<My<3, 1>>>::value == 1)
        TRUE_(cat_n_<cs::schwartz_adapter<My<1, 2>>>::value == 1) TRUE_(stb_n_<cs::schwartz_adapter<My<3, 0>>>::value == 0) TRUE_(cat_n_<cs::schwartz_adapter<My<3, 0>>>::value == -1)
        TRUE_(cat_n_<cs::indirect_adapter<My<3, 0>>>::value == 0) TRUE_(stb_n_<cs::indirect_adapter<My<2, 2>>>::value == -1) TRUE_(cat_n_<cs::out_of_place_adapter<My<3, 0>>>::value == 0) TRUE_(stb_n_<cs::out_of_place_adapter<My<2, 2>>>::value == -1)
        TRUE_(cat_n_<cs::split_adapter<My<3, 0>>>::value == 1) TRUE_(cat_n_<cs::verge_adapter<My<3, 0>>>::value == 1) TRUE_(cat_n_<cs::drop_merge_adapter<My<3, 2>>>::value == 1) TRUE_(stb_n_<cs::drop_merge_adapter<My<3, 2>>>::value == 0)
        TRUE_(cat_n_<cs::make_stable<My<3, 2>>>::value == -1) TRUE_(stb_n_<cs::make_stable<My<3, 2>>>::value == 1) TRUE_(cat_n_<cs::make_stable<My<1, 2>>>::value == 1) TRUE_(cat_n_<cs::self_sort_adapter<My<1, 2>>>::value == 1) TRUE_(stb_n_<cs::self_sort_adapter<My<1, 2>>>::value == 0)
        TRUE_(stb_n_<cs::stable_adapter<My<3, 0>>>::value == 1) TRUE_(cat_n_<cs::stable_adapter<My<3, 0>>>::value == -1)
    });
    add_job("fixed-size sorters, traits and small_array_adapter", 1, [](u64) {
        FX(0) FX(1) FX(2) FX(3) FX(4) FX(5) FX(6) FX(7) FX(8) FX(9) FX(10) FX(11) FX(12) FX(13)
        for_networks<14, 20, 32, 33, 63, 64>();
        TRAITS(2, 0, cs::small_array_adapter<cs::low_comparisons_sorter>) TRAITS(2, 0, cs::small_array_adapter<cs::low_moves_sorter>) TRAITS(2, 0, cs::small_array_adapter<cs::sorting_network_sorter>) TRAITS(2, 0, cs::small_array_adapter<cs::merge_exchange_network_sorter>)
        TRAITS(2, 0, cs::small_array_adapter<cs::odd_even_merge_network_sorter, std::index_sequence<2, 8>>) TRAITS(1, 1, cs::small_array_adapter<FAll>) TRAITS(2, 0, cs::small_array_adapter<FAll2>) TRAITS(1, 1, cs::small_array_adapter<FAll, std::index_sequence<1, 3>>)
        using LC = cs::fixed_sorter_traits<cs::low_comparisons_sorter>; using LM = cs::fixed_sorter_traits<cs::low_moves_sorter>; using SN = cs::fixed_sorter_traits<cs::sorting_network_sorter>; using ME = cs::fixed_sorter_traits<cs::merge_exchange_network_sorter>; using OE = cs::fixed_sorter_traits<cs::odd_even_merge_network_sorter>;
        SAME("domain", U(has_domain_<LC>::type), std::make_index_sequence<14>) FALSE_(has_domain_<LM>::value) SAME("domain", U(has_domain_<SN>::type), std::make_index_sequence<65>)
        FALSE_(has_domain_<ME>::value) FALSE_(has_domain_<OE>::value) FALSE_(has_domain_<cs::fixed_sorter_traits<FAll>>::value)
    });
    add_job("is_sorter and friends", 1, [](u64) {
        using VI = std::vector<int>; using VW = std::vector<W2>; using LI = std::list<int>; using AI = int[4];
        //                                                              r      rc     rp     rcp    i      ic     ip     icp
        sorter_forms<cs::merge_sorter, VI, Cmp2, std::negate<>>("merge_sorter, int", true, true, true, true, true, true, true, true);
        sorter_forms<cs::merge_sorter, LI, Cmp2, std::negate<>>("merge_sorter, list", true, true, true, true, true, true, true, true);
        sorter_forms<cs::merge_sorter, AI, Cmp2, std::negate<>>("merge_sorter, array", true, true, true, true, true, true, true, true);
        sorter_forms<cs::merge_sorter, VW, CmpW, Prj2>("merge_sorter, no operator<", false, true, true, false, false, true, true, false);
        sorter_forms<cs::merge_sorter, VW, Cmp2, Prj2>("merge_sorter, comparison of projections", false, false, true, true, false, false, true, true);
        sorter_forms<cs::merge_sorter, VW, Cmp2, int W2::*>("merge_sorter, data member", false, false, true, true, false, false, true, true);
        sorter_forms<cs::merge_sorter, VW, Cmp2, int (W2::*)() const>("merge_sorter, member function", false, false, true, true, false, false, true, true);
        sorter_forms<cs::merge_sorter, VI, CmpW, PrjV>("merge_sorter, comparison of projections of int", true, false, false, true, true, false, false, true);
        sorter_forms<cs::merge_sorter, VI, Ternary, Ternary>("merge_sorter, wrong functions", true, false, false, false, true, false, false, false);
        sorter_forms<OnlyR, VI, Cmp2, std::negate<>>("only range", true, false, false, false, false, false, false, false);
        sorter_forms<OnlyRC, VI, Cmp2, std::negate<>>("only range and comparison", false, true, false, false, false, false, false, false);
        sorter_forms<OnlyIP, VW, Cmp2, Prj2>("only iterators and projection", false, false, false, false, false, false, true, false);
        sorter_forms<OnlyICP, VW, Cmp2, Prj2>("only iterators, comparison and projection", false, false, false, false, false, false, false, true);
        sorter_forms<Greedy, VI, Cmp2, std::negate<>>("anything", true, true, true, true, true, true, true, true);
        sorter_forms<Greedy, VI, CmpW, Prj2>("anything, functions that do not fit", true, false, false, false, true, false, false, false);
        sorter_forms<Greedy, VW, CmpW, Prj2>("anything, no operator<", true, true, true, false, true, true, true, false);
        sorter_forms<int, VI, Cmp2, std::negate<>>("not a sorter", false, false, false, false, false, false, false, false);
        sorter_forms<cs::small_array_adapter<cs::low_moves_sorter>, std::array<int, 3>, Cmp2, std::negate<>>("small_array_adapter, size in the domain", true, true, true, true, false, false, false, false);
        sorter_forms<cs::small_array_adapter<cs::low_comparisons_sorter>, std::array<int, 14>, Cmp2, std::negate<>>("small_array_adapter, size not in the domain", false, false, false, false, false, false, false, false);
        sorter_forms<cs::integer_spread_sorter, VI, Cmp2, std::negate<>>("integer_spread_sorter", true, false, true, false, true, false, true, false);
        sorter_forms<cs::counting_sorter, VI, Cmp2, std::negate<>>("counting_sorter", true, false, false, false, true, false, false, false);
        sorter_forms<cs::counting_sorter, std::vector<double>, Cmp2, std::negate<>>("counting_sorter, double", false, false, false, false, false, false, false, false);
        sorter_forms<cs::ska_sorter, VW, CmpW, int W2::*>("ska_sorter, data member", false, false, true, false, false, false, true, false);
    });
    add_job("is_projection", 1, [](u64) {
        using VI = std::vector<int>; using VW = std::vector<W2>; using id = cs::utility::identity;
#define PRJ(want, P, R, ...) { constexpr bool a = cs::is_projection<P, R, __VA_ARGS__>::value, b = cs::is_projection_v<P, R, __VA_ARGS__>, c = cs::is_projection_iterator<P, R::iterator, __VA_ARGS__>::value, d = cs::is_projection_iterator_v<P, R::iterator, __VA_ARGS__>; count_eval(true, 1); if (a != want || b != want || c != want || d != want) fail("is_projection<%s, %s, %s> should be %s (%d %d %d %d)", #P, #R, #__VA_ARGS__, want ? "true" : "false", a, b, c, d); }
        PRJ(true, id, VI, std::less<>) PRJ(false, id, VW, std::less<>) PRJ(true, id, VW, CmpW) PRJ(false, id, VW, Cmp2) PRJ(true, Prj2, VW, std::less<>) PRJ(true, Prj2, VW, Cmp2) PRJ(false, Prj2, VW, CmpW) PRJ(false, Prj2, VI, std::less<>)
        PRJ(true, int W2::*, VW, std::less<>) PRJ(true, int W2::*, VW, std::less<int>) PRJ(false, int W2::*, VI, std::less<>) PRJ(false, PrjV, VI, std::less<>) PRJ(true, PrjV, VI, CmpW) PRJ(false, int, VI, std::less<>) PRJ(false, Cmp2, VI, std::less<>)
        PRJ(true, std::negate<>, std::list<int>, std::greater<>) PRJ(true, std::negate<>, std::forward_list<int>, std::greater<>) PRJ(true, id, std::vector<bool>, std::less<>)
        TRUE_(cs::is_projection_v<id, int[3]>) TRUE_(cs::is_projection_v<id, const VI>) FALSE_(cs::is_projection_v<id, int>) FALSE_(cs::is_projection_iterator_v<id, int>) TRUE_(cs::is_projection_iterator_v<id, int*>) TRUE_(cs::is_projection_iterator_v<id, const int*>)
    });
}
#endif

#if PART == 5
// ------------------------------------------------------------------ is_stable against what the call does
// BASE: the sorter adapted; DEPTH2: also adapters of adapters
#include <cpp-sort/adapters.h>
#include <cpp-sort/metrics.h>
#ifndef OUTER
#define OUTER 0
#endif
struct El { signed char key, id; friend bool operator<(const El& a, const El& b) { return a.key < b.key; } };
struct Gt { template<typename A, typename B> bool operator()(const A& a, const B& b) const { return b < a; } };
struct Neg { int operator()(const El& e) const { return -e.key; } };
template<bool Stable, typename It, typename C, typename P> static void slow_sort(It f, It l, C c, P p) {
    auto&& cmp = cs::utility::as_function(c); auto&& proj = cs::utility::as_function(p);
    for (It i = f; i != l; ++i) for (It j = f; j != i; ++j) { using cs::utility::iter_swap; if (cmp(proj(*i), proj(*j)) || (!Stable && !cmp(proj(*j), proj(*i)))) { for (It k = j; k != i; ++k) iter_swap(k, i); break; } }
}
template<bool Stable, int Cat> struct FixImpl {
    template<typename It, typename C = std::less<>, typename P = cs::utility::identity, typename = std::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    void operator()(It f, It l, C c = {}, P p = {}) const { slow_sort<Stable>(f, l, c, p); }
    using iterator_category = cat_t<Cat>; using is_always_stable = std::integral_constant<bool, Stable>;
};
template<bool Stable, int Cat> struct Fix: cs::sorter_facade<FixImpl<Stable, Cat>> {};
// Stability that depends on the call: Kind 0 stable without projection, 1 stable with one, 2 stable for elements of type El, 3 stable for other ones, 4 stable with std::less<>, 5 stable with other comparisons
template<typename T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template<int Kind, typename It, typename C, typename P> struct fickle_: std::integral_constant<bool,
    Kind < 2 ? (std::is_same<bare<P>, cs::utility::identity>::value == (Kind == 0)) : Kind < 4 ? (std::is_same<bare<decltype(*std::declval<It&>())>, El>::value == (Kind == 2)) : (std::is_same<bare<C>, std::less<>>::value == (Kind == 4))> {};
template<int Kind> struct FickleImpl {
    template<typename It, typename C = std::less<>, typename P = cs::utility::identity, typename = std::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    void operator()(It f, It l, C c = {}, P p = {}) const { slow_sort<fickle_<Kind, It, C, P>::value>(f, l, c, p); }
    using iterator_category = Cat0; using is_always_stable = std::false_type;
};
template<int Kind> struct Fickle: cs::sorter_facade<FickleImpl<Kind>> {};
template<typename R> using it_of = bare<decltype(std::begin(std::declval<R&>()))>;
template<typename T> using less_t = std::less<>;
namespace cppsort {
    template<int K, typename R> struct is_stable<Fickle<K>(R)>: fickle_<K, it_of<R>, std::less<>, utility::identity> {};
    template<int K, typename R, typename F> struct is_stable<Fickle<K>(R, F)>: std::conditional_t<is_projection_v<utility::identity, R, F>, fickle_<K, it_of<R>, F, utility::identity>, fickle_<K, it_of<R>, std::less<>, F>> {};
    template<int K, typename R, typename C, typename P> struct is_stable<Fickle<K>(R, C, P)>: fickle_<K, it_of<R>, C, P> {};
    template<int K, typename I> struct is_stable<Fickle<K>(I, I)>: fickle_<K, I, std::less<>, utility::identity> {};
    template<int K, typename I, typename F> struct is_stable<Fickle<K>(I, I, F)>: std::conditional_t<is_projection_iterator_v<utility::identity, I, F>, fickle_<K, I, F, utility::identity>, fickle_<K, I, std::less<>, F>> {};
    template<int K, typename I, typename C, typename P> struct is_stable<Fickle<K>(I, I, C, P)>: fickle_<K, I, C, P> {};
}
struct Ctr { long c = 0, m = 0; };
static const char* form_names[] = {"range", "range, compare", "range, projection", "range, compare, projection", "iterators", "iterators, compare", "iterators, projection", "iterators, compare, projection"};
template<typename R> static const char* rname(const R*);
template<> const char* rname(const std::vector<El>*) { return "vector"; }
template<> const char* rname(const std::list<El>*) { return "list"; }
template<> const char* rname(const std::forward_list<El>*) { return "forward_list"; }
template<typename R, typename F> static void truth(const char* name, int form, bool stable, int max_n, F f) {
    const bool down = form % 4 == 1 || form % 4 == 2;
    for (int n = 0; n <= max_n; ++n) { u64 c = 1; for (int i = 0; i < n; ++i) c *= 3; for (u64 k = 0; k < c; ++k) {
        R r; std::vector<El> v; u64 x = k; bool ties = false; for (int i = 0; i < n; ++i, x /= 3) { for (auto& e : v) ties |= e.key == int(x % 3); v.push_back(El{(signed char)(x % 3), (signed char)i}); }
        r.assign(v.begin(), v.end());
        f(r);
        count_eval(ties && stable, 1); note_behaviour(k * 8 + u64(form));
        v.assign(r.begin(), r.end());
        if (int(v.size()) != n) fail("%s, %s, %s: the number of elements changed", name, form_names[form], rname(&r));
        for (std::size_t i = 1; i < v.size(); ++i) {
            if (down ? v[i - 1].key < v[i].key : v[i - 1].key > v[i].key) fail("%s, %s, %s: not sorted", name, form_names[form], rname(&r));
            if (stable && v[i - 1].key == v[i].key && v[i - 1].id > v[i].id) fail("%s, %s, %s: is_stable is true but the call is not stable", name, form_names[form], rname(&r));
        }
    } }
}
// must: 1 documented stable for every call; 0 may be either; 2 documented never stable
template<typename S, typename R> static void truths(const char* name, int must, int max_n, const S& s = S{}) {
    using I = typename R::iterator; using C = Gt; using P = Neg;
    SAY("%s, %s", name, rname(static_cast<const R*>(nullptr)));
    static C c; static P p;
    bool st[8][2] = {{cs::is_stable_v<S(R&)>, cs::is_stable_v<S(R&)>}, {cs::is_stable_v<S(R&, C)>, cs::is_stable_v<S(R&, C&)>}, {cs::is_stable_v<S(R&, P)>, cs::is_stable_v<S(R&, P&)>}, {cs::is_stable_v<S(R&, C, P)>, cs::is_stable_v<S(R&, C&, P&)>},
                     {cs::is_stable_v<S(I, I)>, cs::is_stable_v<S(I, I)>}, {cs::is_stable_v<S(I, I, C)>, cs::is_stable_v<S(I, I, C&)>}, {cs::is_stable_v<S(I, I, P)>, cs::is_stable_v<S(I, I, P&)>}, {cs::is_stable_v<S(I, I, C, P)>, cs::is_stable_v<S(I, I, C&, P&)>}};
    for (int i = 0; i < 8; ++i) for (int j = 0; j < 2; ++j) if (must == (st[i][j] ? 2 : 1)) fail("%s, %s: is_stable is %s", name, form_names[i], st[i][j] ? "true" : "false");
    truth<R>(name, 0, st[0][0], max_n, [&s](R& r) { s(r); });
    truth<R>(name, 1, st[1][0], max_n, [&s](R& r) { s(r, C{}); }); truth<R>(name, 1, st[1][1], max_n, [&s](R& r) { s(r, c); });
    truth<R>(name, 2, st[2][0], max_n, [&s](R& r) { s(r, P{}); }); truth<R>(name, 2, st[2][1], max_n, [&s](R& r) { s(r, p); });
    truth<R>(name, 3, st[3][0], max_n, [&s](R& r) { s(r, C{}, P{}); }); truth<R>(name, 3, st[3][1], max_n, [&s](R& r) { s(r, c, p); });
    truth<R>(name, 4, st[4][0], max_n, [&s](R& r) { s(r.begin(), r.end()); });
    truth<R>(name, 5, st[5][0], max_n, [&s](R& r) { s(r.begin(), r.end(), C{}); }); truth<R>(name, 5, st[5][1], max_n, [&s](R& r) { s(r.begin(), r.end(), c); });
    truth<R>(name, 6, st[6][0], max_n, [&s](R& r) { s(r.begin(), r.end(), P{}); }); truth<R>(name, 6, st[6][1], max_n, [&s](R& r) { s(r.begin(), r.end(), p); });
    truth<R>(name, 7, st[7][0], max_n, [&s](R& r) { s(r.begin(), r.end(), C{}, P{}); }); truth<R>(name, 7, st[7][1], max_n, [&s](R& r) { s(r.begin(), r.end(), c, p); });
}
template<typename S> static void truth_jobs(const char* name, int must, bool fwd = true, bool bidir = true) {
    (void)fwd, (void)bidir;
    const int n = thorough() ? 6 : 4;
    add_job(std::string(name) + "/vector", 1, [=](u64) { truths<S, std::vector<El>>(name, must, n); });
}
template<typename S> static void truth_jobs_l(const char* name, int must) { const int n = thorough() ? 6 : 4; add_job(std::string(name) + "/list", 1, [=](u64) { truths<S, std::list<El>>(name, must, n); }); }
template<typename S> static void truth_jobs_f(const char* name, int must) { const int n = thorough() ? 6 : 4; add_job(std::string(name) + "/forward_list", 1, [=](u64) { truths<S, std::forward_list<El>>(name, must, n); }); }
#define ALL(must, ...) truth_jobs<__VA_ARGS__>(#__VA_ARGS__, must), truth_jobs_l<__VA_ARGS__>(#__VA_ARGS__, must), truth_jobs_f<__VA_ARGS__>(#__VA_ARGS__, must);
#define BIDIR(must, ...) truth_jobs<__VA_ARGS__>(#__VA_ARGS__, must), truth_jobs_l<__VA_ARGS__>(#__VA_ARGS__, must);
using B = BASE;
#if OUTER == 0
using D = B;
#elif OUTER == 1
using D = cs::self_sort_adapter<B>;
#elif OUTER == 2
using D = cs::indirect_adapter<B>;
#elif OUTER == 3
using D = cs::out_of_place_adapter<B>;
#elif OUTER == 4
using D = cs::schwartz_adapter<B>;
#elif OUTER == 5
using D = cs::counting_adapter<B>;
#elif OUTER == 6
using D = cs::hybrid_adapter<B, Fix<true, 1>>;
#elif OUTER == 7
using D = cs::stable_adapter<B>;
#elif OUTER == 8
using D = cs::make_stable<B>;
#elif OUTER == 9
using D = cs::metrics::moves<B>;
#elif OUTER == 10
using D = cs::metrics::projections<B>;
#elif OUTER == 11
using D = cs::hybrid_adapter<B, Fix<false, 2>>;
#endif
MC_JOBS {
    constexpr int must = MUST;
    ALL(must, D)
    ALL(must, cs::counting_adapter<D>) ALL(must, cs::metrics::comparisons<D>) ALL(must, cs::metrics::projections<D>) ALL(must, cs::metrics::running_time<D>)
#if OUTER != 2 && OUTER != 9
    ALL(must, cs::metrics::moves<D>)
#endif
#if OUTER != 12
    ALL(must, cs::schwartz_adapter<D>) ALL(must, cs::indirect_adapter<D>) ALL(must, cs::out_of_place_adapter<D>)
#endif
    ALL(must ? 1 : 0, cs::self_sort_adapter<D>)
    ALL(0, cs::hybrid_adapter<Fix<false, 2>, D>) ALL(0, cs::hybrid_adapter<D, Fix<false, 1>>) ALL(0, cs::hybrid_adapter<cs::self_sort_adapter<D>, Fix<true, 2>>)
    ALL(1, cs::stable_adapter<D>) ALL(1, cs::make_stable<D>) ALL(1, cs::stable_t<D>) ALL(1, cs::stable_adapter<cs::self_sort_adapter<D>>) ALL(1, cs::stable_adapter<cs::hybrid_adapter<Fix<false, 1>, D>>)
    BIDIR(2, cs::drop_merge_adapter<D>) BIDIR(2, cs::split_adapter<D>) BIDIR(2, cs::verge_adapter<D>)
    // made from instances
    add_job("from instances", 1, [](u64) {
#define MADE(T, ...) { auto s = __VA_ARGS__; truths<T, std::vector<El>>(#__VA_ARGS__, 1, 3, s); }
        using V = cs::verge_adapter<D>; using SS = cs::self_sort_adapter<D>; using H = cs::hybrid_adapter<Fix<false, 1>, D>;
        MADE(cs::stable_adapter<V>, cs::stable_adapter<V>(V(D{}))) MADE(cs::stable_adapter<SS>, cs::stable_adapter<SS>(SS(D{}))) MADE(cs::stable_adapter<H>, cs::stable_adapter<H>(H(Fix<false, 1>{}, D{})))
        MADE(cs::stable_adapter<D>, cs::stable_adapter<D>(D{})) MADE(cs::make_stable<D>, cs::make_stable<D>(D{})) MADE(cs::stable_adapter<cs::stable_adapter<SS>>, cs::stable_adapter<cs::stable_adapter<SS>>(cs::stable_adapter<SS>(SS(D{}))))
    });
    BIDIR(1, cs::stable_adapter<cs::verge_adapter<D>>) BIDIR(1, cs::stable_adapter<cs::drop_merge_adapter<D>>)
}
#endif
