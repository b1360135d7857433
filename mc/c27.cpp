// C27: every composition of flip, not_fn and make_projection_compare up to a depth over every kind of callable, and every pipe of
// up to three projections, evaluated over a whole small domain against a run-time evaluation of the expression they name.
//   PART 0..9: compositions over base callable PART, depth DEPTH        PART 20..: pipes whose first projection is PART-20
//   PART 40: identities, as_projection/as_comparison/as_function, refined, noexcept, constexpr, transparency
#include "core.hpp"
#include "spaces.hpp"
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/refined.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
using namespace mc;
using cppsort::flip; using cppsort::make_projection_compare;
namespace ut = cppsort::utility;
static u64 calls, projs;          // calls of the base comparison, of the projections
struct V {
    int k, m;
    bool lt(const V& o) const { ++calls; return 2 * k + m < 2 * o.k + o.m; }
    V neg() const { ++projs; return {2 - k, 1 - m}; }
    bool operator<(const V& o) const { return lt(o); }
};
static const V domain[] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 0}, {2, 1}};
static int val(const V& v) { return 2 * v.k + v.m; }
// ------------------------------------------------------------------ base comparisons: reference in base_ref
static bool fn_less(const V& a, const V& b) { ++calls; return a.k < b.k; }
struct Modulo { int a, b; explicit Modulo(int a, int b) : a(a), b(b) {} bool operator()(const V& x, const V& y) const { ++calls; return (val(x) * a + b) % 7 < val(y); } };   // stateful, asymmetric
struct Mutable { int n = 0; bool operator()(const V& x, const V& y) { ++n; ++calls; return x.k <= y.m + 1; } };                    // no const call
struct MoveOnly { std::unique_ptr<int> p; explicit MoveOnly(int x) : p(new int(x)) {} bool operator()(const V& x, const V& y) const { ++calls; return val(x) * *p < val(y); } };
struct Quals {      // the value category of the callable is honoured by the call operators
    bool operator()(const V& x, const V& y) & { ++calls; return x.k < y.k; }
    bool operator()(const V& x, const V& y) const& { ++calls; return x.k < y.k; }
    bool operator()(const V& x, const V& y) && { ++calls; return x.k < y.k; }
};
struct IntResult { int operator()(const V& x, const V& y) const { ++calls; return val(x) - val(y) > 0 ? 0 : 4; } };   // not a bool
struct Overloaded { bool operator()(const V& x, const V& y) const { ++calls; return val(x) > val(y); } V operator()(const V& x) const { ++projs; return {x.m, x.k % 2}; } int operator()() const { return 3; } };
template<int B> struct Base;
template<> struct Base<0> { static auto make() { return std::less<>{}; } static bool ref(V x, V y) { return val(x) < val(y); } };
template<> struct Base<1> { static auto make() { return std::greater<>{}; } static bool ref(V x, V y) { return val(x) > val(y); } };
static auto the_lambda = [](const V& x, const V& y) { ++calls; return x.m <= y.k; };
template<> struct Base<2> { static auto make() { return the_lambda; } static bool ref(V x, V y) { return x.m <= y.k; } };
template<> struct Base<3> { static auto make() { return &fn_less; } static bool ref(V x, V y) { return x.k < y.k; } };
template<> struct Base<4> { static auto make() { return &V::lt; } static bool ref(V x, V y) { return val(x) < val(y); } };
template<> struct Base<5> { static auto make() { return Modulo(3, 2); } static bool ref(V x, V y) { return (val(x) * 3 + 2) % 7 < val(y); } };
template<> struct Base<6> { static auto make() { return Mutable{}; } static bool ref(V x, V y) { return x.k <= y.m + 1; } };
template<> struct Base<7> { static auto make() { return Quals{}; } static bool ref(V x, V y) { return x.k < y.k; } };
template<> struct Base<8> { static auto make() { return IntResult{}; } static bool ref(V x, V y) { return val(x) <= val(y); } };
template<> struct Base<9> { static auto make() { return std::function<bool(const V&, const V&)>(Modulo(2, 1)); } static bool ref(V x, V y) { return (val(x) * 2 + 1) % 7 < val(y); } };
inline bool operator>(const V& a, const V& b) { ++calls; return val(a) > val(b); }
// projections V -> V used inside the chains
struct PMut { int n = 0; V operator()(const V& x) { ++n; ++projs; return {x.k, 1 - x.m}; } };
struct PState { int s; V operator()(const V& x) const { ++projs; return {(x.k + s) % 3, x.m}; } };
static V fn_swap(const V& x) { ++projs; return {x.k == 1 ? 1 : 2 - x.k, x.m}; }
static auto make_p(std::integral_constant<int, 0>) { return &V::neg; }
static auto make_p(std::integral_constant<int, 1>) { return PState{1}; }
static auto make_p(std::integral_constant<int, 2>) { return &fn_swap; }
static auto make_p(std::integral_constant<int, 3>) { return ut::as_projection(&V::neg) | PState{2}; }
static auto make_p(std::integral_constant<int, 4>) { return PMut{}; }
static V ref_p(int kind, V x) { switch (kind) { case 0: return {2 - x.k, 1 - x.m}; case 1: return {(x.k + 1) % 3, x.m}; case 2: return {2 - x.k, x.m}; case 3: return {(2 - x.k + 2) % 3, 1 - x.m}; default: return {x.k, 1 - x.m}; } }
template<int B> static bool eval(const std::string& ops, std::size_t n, V x, V y) {
    if (n == 0) return Base<B>::ref(x, y);
    switch (ops[n - 1]) {
        case 'f': return eval<B>(ops, n - 1, y, x);
        case 'n': return !eval<B>(ops, n - 1, x, y);
        case 'i': return eval<B>(ops, n - 1, x, y);
        default: { int kind = ops[n - 1] - '0'; return eval<B>(ops, n - 1, ref_p(kind, x), ref_p(kind, y)); }
    }
}
template<typename F, typename = void> struct const_callable : std::false_type {};
template<typename F> struct const_callable<F, decltype(void(std::declval<const F&>()(std::declval<const V&>(), std::declval<const V&>())))> : std::true_type {};
static std::string named(const std::string& ops) { std::string s; for (char c : ops) s = (c == 'f' ? "flip(" : c == 'n' ? "not_fn(" : c == 'i' ? "projection_compare(identity, " : std::string("projection_compare(p") + c + ", ") + (s.empty() ? "base" : s) + ")"; return s.empty() ? "base" : s; }
template<int B> static void judge(const std::string& ops, const char* how, const V& x, const V& y, bool got) {
    bool want = eval<B>(ops, ops.size(), x, y);
    if (got != want) fail("%s%s on (%d,%d) (%d,%d) is %d", named(ops).c_str(), how, x.k, x.m, y.k, y.m, got);
    if (calls != 1) fail("%s%s calls the wrapped comparison %ld times", named(ops).c_str(), how, long(calls));
    calls = 0;
}
template<int B, typename F> static void const_calls(const F& f, const std::string& ops, const V& x, const V& y, std::true_type) {
    calls = 0;
    judge<B>(ops, ", const", x, y, ut::as_function(f)(x, y)); judge<B>(ops, ", const, temporaries", x, y, ut::as_function(f)(V(x), V(y)));
    const F g(f); judge<B>(ops, ", const rvalue", x, y, ut::as_function(std::move(g))(x, y));
}
template<int B, typename F> static void const_calls(const F&, const std::string&, const V&, const V&, std::false_type) {}
template<int B, typename F> static void check(F& f, const std::string& ops) {
    for (const V& x : domain) for (const V& y : domain) {
        calls = 0;
        V a = x, b = y;
        judge<B>(ops, "", x, y, ut::as_function(f)(x, y)); judge<B>(ops, ", non-const arguments", x, y, ut::as_function(f)(a, b)); judge<B>(ops, ", temporaries", x, y, ut::as_function(f)(V(x), V(y)));
        F copy(f); judge<B>(ops, ", copy", x, y, ut::as_function(copy)(x, y));
        judge<B>(ops, ", rvalue", x, y, ut::as_function(std::move(copy))(x, y));
        const_calls<B>(f, ops, x, y, const_callable<std::decay_t<decltype(ut::as_function(f))>>{});
        if (a.k != x.k || a.m != x.m || b.k != y.k) fail("%s modifies its arguments", named(ops).c_str());
        note_behaviour(mix(std::hash<std::string>()(ops) * 64 + u64(val(x)) * 8 + u64(val(y))));
    }
    count_eval(true, 36 * 8);
}
static u64 total;
#ifndef OPS
#define OPS 0
#endif
template<int B, typename F> static void explore(F& f, const std::string& ops, std::integral_constant<int, -1>) {}
template<int B, int D, typename F> static void explore(F& f, const std::string& ops, std::integral_constant<int, D>) {
    check<B>(f, ops); ++total;
    const F c(f);
    std::integral_constant<int, D - 1> next;
    { auto g = flip(f); explore<B>(g, ops + "f", next); auto h = flip(F(c)); check<B>(h, ops + "f"); auto k = flip(c); check<B>(k, ops + "f");
      auto l = cppsort::flip_t<F>(f); check<B>(l, ops + "f"); auto b = l.base(); check<B>(b, ops); }
    { auto g = cppsort::not_fn(f); explore<B>(g, ops + "n", next); auto h = cppsort::not_fn(F(c)); check<B>(h, ops + "n"); auto k = cppsort::not_fn(c); check<B>(k, ops + "n");
      auto l = cppsort::not_fn_t<F>(f); check<B>(l, ops + "n"); auto b = l.base(); check<B>(b, ops); }
    { std::integral_constant<int, (B + D + OPS) % 5> kind;
      auto p = make_p(kind);
      std::string o = ops + char('0' + kind());
      auto g = make_projection_compare(f, p); explore<B>(g, o, next); auto h = make_projection_compare(F(c), make_p(kind)); check<B>(h, o);
      cppsort::projection_compare<F, decltype(p)> l(f, p); check<B>(l, o); auto b = l.comparison(); check<B>(b, ops); auto q = l.projection(); auto m = make_projection_compare(b, q); check<B>(m, o); }
    { auto g = make_projection_compare(f, ut::identity{}); check<B>(g, ops + "i"); const ut::identity id; auto h = make_projection_compare(F(c), id); check<B>(h, ops + "i");
#if __cplusplus > 201703L
      auto k = make_projection_compare(c, std::identity{}); check<B>(k, ops + "i");
#endif
      cppsort::projection_compare<F, ut::identity> l(f, {}); check<B>(l, ops + "i"); auto n = cppsort::not_fn(l); check<B>(n, ops + "in"); auto fl = flip(l); check<B>(fl, ops + "if"); }
}
// ------------------------------------------------------------------ pipes
static long fn_p(long x) { ++projs; return x * x - 3; }
static long fn_q(long x) noexcept { ++projs; return 7 - x; }
struct Xor : ut::projection_base { long c; explicit Xor(long c) : c(c) {} long operator()(long x) const { ++projs; return x ^ c; } };
struct Acc : ut::projection_base { long n = 5; long operator()(long x) { ++projs; ++n; return x * 2 + 1; } };
struct Two : ut::projection_base { long operator()(long x) & { return x + 10; } long operator()(long x) const& { return x + 10; } long operator()(long x) && { return x + 10; } };
struct Plain { std::vector<long> s; long operator()(long x) const { ++projs; return s[std::size_t(((x % 3) + 3) % 3)]; } };
struct AmbP { long operator()(long x) const { return 2 * x + 5; } bool operator()(long x, long y) const { return x % 4 < y % 4; } };
static auto lam = [](long x) { ++projs; return 3 * x + 1; };
static auto half_lam = [](const long& x) { return x / 3; };
enum { POOL = 12 };
template<int I> struct P;
template<> struct P<0> { static auto make() { return ut::identity{}; } static long ref(long x) { return x; } enum { based = 1, konst = 1 }; };
template<> struct P<1> { static auto make() { return ut::half{}; } static long ref(long x) { return x / 2; } enum { based = 1, konst = 1 }; };
template<> struct P<2> { static auto make() { return ut::as_projection(lam); } static long ref(long x) { return 3 * x + 1; } enum { based = 1, konst = 1 }; };
template<> struct P<3> { static auto make() { return std::negate<>{}; } static long ref(long x) { return -x; } enum { based = 0, konst = 1 }; };
template<> struct P<4> { static auto make() { return &fn_p; } static long ref(long x) { return x * x - 3; } enum { based = 0, konst = 1 }; };
template<> struct P<5> { static auto make() { return Xor(5); } static long ref(long x) { return x ^ 5; } enum { based = 1, konst = 1 }; };
template<> struct P<6> { static auto make() { return ut::as_projection(&fn_q); } static long ref(long x) { return 7 - x; } enum { based = 1, konst = 1 }; };
template<> struct P<7> { static auto make() { return Acc(); } static long ref(long x) { return x * 2 + 1; } enum { based = 1, konst = 0 }; };
template<> struct P<8> { static auto make() { return Plain{{4, -9, 2}}; } static long ref(long x) { static const long t[] = {4, -9, 2}; return t[((x % 3) + 3) % 3]; } enum { based = 0, konst = 1 }; };
template<> struct P<9> { static auto make() { return half_lam; } static long ref(long x) { return x / 3; } enum { based = 0, konst = 1 }; };
template<> struct P<10> { static auto make() { return Two{}; } static long ref(long x) { return x + 10; } enum { based = 1, konst = 1 }; };
template<> struct P<11> { static auto make() { return ut::as_projection(AmbP{}); } static long ref(long x) { return 2 * x + 5; } enum { based = 1, konst = 1 }; };
template<typename F> static void calls_const(const char* w, const F& f, long x, long want, std::true_type) { if (ut::as_function(f)(x) != want) fail("%s, const, on %ld is %ld, not %ld", w, x, long(f(x)), want); const F g(f); if (ut::as_function(std::move(g))(long(x)) != want) fail("%s, const rvalue, on %ld", w, x); }
template<typename F> static void calls_const(const char*, const F&, long, long, std::false_type) {}
template<bool K, typename F, typename R> static void pipe_check(const char* what, int a, int b, int c, F f, R ref) {
    static char w[100]; snprintf(w, sizeof w, "%s p%d p%d p%d", what, a, b, c);
    for (long x = -9; x <= 9; ++x) {
        long want = ref(x);
        const long cx = x;
        long got = ut::as_function(f)(x);
        if (got != want) fail("%s on %ld is %ld, not %ld", w, x, got, want);
        if (ut::as_function(f)(cx) != want || ut::as_function(f)(long(x)) != want) fail("%s on const or temporary %ld", w, x);
        F g(f); if (ut::as_function(std::move(g))(x) != want) fail("%s, rvalue, on %ld", w, x);
        calls_const(w, f, x, want, std::integral_constant<bool, K>{});
        note_behaviour(mix(u64(a * 10000 + b * 100 + c) * 64 + u64(x + 20)));
    }
    count_eval(true, 19 * 5);
}
template<int A, int B, int C> static void three(std::true_type) {
    auto ref = [](long x) { return P<C>::ref(P<B>::ref(P<A>::ref(x))); };
    constexpr bool K = P<A>::konst && P<B>::konst && P<C>::konst;
    auto a = P<A>::make(); auto b = P<B>::make(); auto c = P<C>::make(); const auto kc = c; (void)kc;
    pipe_check<K>("left", A, B, C, (a | b) | kc, ref);
    pipe_check<K>("left, rvalues", A, B, C, P<A>::make() | P<B>::make() | P<C>::make(), ref);
}
template<int A, int B, int C> static void three(std::false_type) {}
template<int A, int B, int C> static void three_right(std::true_type) {
    auto ref = [](long x) { return P<C>::ref(P<B>::ref(P<A>::ref(x))); };
    constexpr bool K = P<A>::konst && P<B>::konst && P<C>::konst;
    auto a = P<A>::make(); auto b = P<B>::make(); auto c = P<C>::make();
    auto bc = b | c;
    pipe_check<K>("right", A, B, C, a | bc, ref);
}
template<int A, int B, int C> static void three_right(std::false_type) {}
// x|y is based unless an identity disappears
template<int A, int B> constexpr bool pipe_based() { return A == 0 ? bool(P<B>::based) : B == 0 ? bool(P<A>::based) : P<A>::based || P<B>::based; }
template<int A, int B, int C> static void triple() {
    three<A, B, C>(std::integral_constant<bool, (P<A>::based || P<B>::based) && (pipe_based<A, B>() || P<C>::based)>{});
    three_right<A, B, C>(std::integral_constant<bool, (P<B>::based || P<C>::based) && (pipe_based<B, C>() || P<A>::based)>{});
}
template<int A, int B, bool K, typename F, typename R> static void with_std_identity(F f, R ref, std::true_type) {      // one of the operands has to derive from projection_base
#if __cplusplus > 201703L
    pipe_check<K>("std::identity first", A, B, -1, std::identity{} | f, ref); pipe_check<K>("std::identity last", A, B, -1, f | std::identity{}, ref); pipe_check<K>("std::identity first, rvalue", A, B, -1, std::identity{} | F(f), ref);
#endif
}
template<int A, int B, bool K, typename F, typename R> static void with_std_identity(F, R, std::false_type) {}
template<int A, int B> static void two(std::true_type) {
    auto ref = [](long x) { return P<B>::ref(P<A>::ref(x)); };
    auto a = P<A>::make(); auto b = P<B>::make(); const auto ca = a; auto cb = b; (void)ca;
    constexpr bool K = P<A>::konst && P<B>::konst;
    pipe_check<K>("lvalues", A, B, -1, a | b, ref); pipe_check<K>("const, rvalue", A, B, -1, ca | P<B>::make(), ref); pipe_check<K>("rvalues", A, B, -1, P<A>::make() | std::move(cb), ref);
    with_std_identity<A, B, K>(a | b, ref, std::integral_constant<bool, pipe_based<A, B>()>{});
    pipe_check<K>("as_projection of a pipe", A, B, -1, ut::as_projection(a | b), ref);
}
template<int A, int B> static void two(std::false_type) {}
template<int A, int B, int... C> static void triples(std::integer_sequence<int, C...>) { two<A, B>(std::integral_constant<bool, P<A>::based || P<B>::based>{}); int x[] = {(triple<A, B, C>(), 0)...}; (void)x; }
template<int A, int... B> static void pairs(std::integer_sequence<int, B...> s) { int x[] = {(triples<A, B>(s), 0)...}; (void)x; }
// ------------------------------------------------------------------ the rest
template<typename F, typename... A> struct callable { template<typename G> static auto t(int) -> decltype(void(std::declval<G>()(std::declval<A>()...)), std::true_type()); template<typename> static std::false_type t(...); enum { value = decltype(t<F>(0))::value }; };
template<typename F, typename = void> struct transparent : std::false_type {};
template<typename F> struct transparent<F, decltype(void(sizeof(typename F::is_transparent*)))> : std::true_type {};
struct Box { long v; int w; long get() const { return v + 1; } long& ref() { return v; } Box inner() const { return {v * 2, w}; } };
struct RefinedFor { int n; bool operator()(int a, int b) const { return n ? a % n < b % n : a < b; } };
struct Refinable { int n; template<typename T> RefinedFor refine() const { static_assert(std::is_same<T, int>::value, ""); return {n}; } template<typename A, typename B> bool operator()(A a, B b) const { return n ? a % n < b % n : a < b; } };
struct Constexpr { constexpr bool operator()(int a, int b) const noexcept { return a < b; } constexpr int operator()(int a) const noexcept { return a + 1; } using is_transparent = void; };
struct NoTransp { constexpr bool operator()(int a, int b) const { return a < b; } constexpr int operator()(int a) const { return a + 1; } };
#if PART == 40
static bool two_fn(const V& a, const V& b) { ++calls; return a.k + a.m < b.k + b.m; }
static void rest(u64) {
#define IS(...) do { if (!(__VA_ARGS__)) fail("%s", #__VA_ARGS__); count_eval(true, 1); } while (0)
    // pointers, members
    Box b{3, 4}; const Box cb{8, 9}; Box* pb = &b; std::unique_ptr<Box> up(new Box{6, 7}); std::reference_wrapper<Box> rb(b);
    IS((ut::indirect{} | &Box::v)(pb) == 3); IS(&(ut::indirect{} | &Box::v)(pb) == &b.v); IS((ut::indirect{} | &Box::v)(up) == 6); IS((ut::indirect{} | &Box::get | ut::half{})(pb) == 2);
    IS((&Box::v | ut::half{})(cb) == 4); IS((&Box::get | Xor(1))(cb) == 8); IS((&Box::inner | ut::as_projection(&Box::v))(b) == 6); IS((ut::as_projection(&Box::inner) | &Box::get)(b) == 7);
    IS((ut::as_projection(&Box::inner) | &Box::inner | &Box::v | ut::half{})(b) == 6); IS(&ut::as_projection(&Box::v)(b) == &b.v); IS(&ut::as_projection(&Box::ref)(b) == &b.v); IS(ut::as_projection(&Box::v)(pb) == 3); IS(ut::as_projection(&Box::v)(rb) == 3);
    IS(&ut::as_function(&Box::v)(b) == &b.v); IS(&ut::as_function(&Box::v)(cb) == &cb.v); IS(ut::as_function(&Box::get)(b) == 4); IS(&ut::as_function(b) == &b); IS(ut::as_function(Xor(2))(1) == 3); IS(ut::as_function(fn_p)(3) == 6); IS(ut::as_function(&fn_p)(3) == 6);
    // plain functions (not pointers)
    IS((ut::half{} | fn_p)(8) == 13); IS((fn_p | ut::half{})(5) == 11); IS(ut::as_projection(fn_q)(2) == 5); IS((ut::as_projection(fn_q) | fn_p | Xor(1))(2) == 23); IS((ut::identity{} | fn_p)(3) == 6); IS((fn_p | ut::identity{})(3) == 6);
    V x{0, 1}, y{1, 0}; IS(ut::as_comparison(two_fn)(x, V{2, 1})); IS(flip(two_fn)(V{2, 1}, x)); IS(!cppsort::not_fn(two_fn)(x, V{2, 1})); IS(make_projection_compare(two_fn, &V::neg)(V{2, 1}, x)); IS(make_projection_compare(std::less<>{}, fn_p)(1, 3));
    // as_comparison and as_projection expose one arity
    IS(callable<decltype(ut::as_projection(Overloaded{})), V>::value); IS(!callable<decltype(ut::as_projection(Overloaded{})), V, V>::value); IS(callable<decltype(ut::as_comparison(Overloaded{})), V, V>::value); IS(!callable<decltype(ut::as_comparison(Overloaded{})), V>::value);
    IS(!callable<decltype(ut::as_comparison(Overloaded{}))>::value); IS(!callable<decltype(ut::as_projection(Overloaded{}))>::value);
    for (const V& p : domain) for (const V& q : domain) {
        Overloaded o; auto c = ut::as_comparison(o); const auto d = ut::as_comparison(c); auto e = ut::as_projection(o); const auto f = ut::as_projection(e); auto g = ut::as_comparison(&V::lt); auto h = ut::as_comparison(flip(Overloaded{}));
        Mutable mu; auto mm = ut::as_comparison(mu); auto qu = ut::as_comparison(Quals{}); const auto cq = qu;
        bool want = val(p) > val(q);
        IS(c(p, q) == want); IS(d(p, q) == want); IS(std::move(d)(p, q) == want); IS(ut::as_comparison(std::move(c))(p, q) == want); IS(val(e(p)) == val(V{p.m, p.k % 2})); IS(val(f(V(p))) == val(V{p.m, p.k % 2})); IS(g(p, q) == (val(p) < val(q))); IS(h(q, p) == want);
        IS(mm(p, q) == (p.k <= q.m + 1)); IS(qu(p, q) == (p.k < q.k)); IS(cq(p, q) == (p.k < q.k)); IS(std::move(qu)(p, q) == (p.k < q.k));
        // move-only callables
        auto m1 = flip(MoveOnly(2)); auto m2 = cppsort::not_fn(MoveOnly(2)); auto m3 = flip(cppsort::not_fn(MoveOnly(3))); auto m4 = ut::as_comparison(MoveOnly(2)); auto m5 = make_projection_compare(MoveOnly(2), &V::neg);
        IS(m1(q, p) == (2 * val(p) < val(q))); IS(m2(p, q) != (2 * val(p) < val(q))); IS(m3(q, p) != (3 * val(p) < val(q))); IS(m4(p, q) == (2 * val(p) < val(q))); IS(m5(p, q) == (2 * val(ref_p(0, p)) < val(ref_p(0, q))));
        IS(std::move(m1)(q, p) == (2 * val(p) < val(q))); IS(std::move(m2)(p, q) != (2 * val(p) < val(q)));
        // ambiguous callables used as projections
        IS(make_projection_compare(std::less<>{}, ut::as_projection(Overloaded{}))(p, q) == (val(V{p.m, p.k % 2}) < val(V{q.m, q.k % 2}))); 
        // not_fn with other numbers of arguments
        auto odd = cppsort::not_fn([](int a) { return a % 2 == 0; }); auto none = cppsort::not_fn([] { return true; }); auto third = cppsort::not_fn([](int a, int b2, int c2) { return a + b2 < c2; }); auto mem = cppsort::not_fn(&V::k);
        IS(odd(p.k) == (p.k % 2 != 0)); IS(!none()); IS(third(p.k, q.k, p.m) == !(p.k + q.k < p.m)); IS(mem(p) == !p.k);
    }
    // arguments are passed by reference, in place
    { const V *s1 = nullptr, *s2 = nullptr; auto see = [&](const V& a, const V& c) { s1 = &a, s2 = &c; return true; }; auto f = flip(see); f(x, y); IS(s1 == &y && s2 == &x); cppsort::not_fn(see)(x, y); IS(s1 == &x && s2 == &y); flip(cppsort::not_fn(see))(x, y); IS(s1 == &y && s2 == &x); make_projection_compare(see, ut::identity{})(x, y); IS(s1 == &x && s2 == &y);
      cppsort::projection_compare<decltype(see), ut::identity> pc(see, {}); pc(x, y); IS(s1 == &x && s2 == &y); }
    // a move-only argument goes through
    { std::unique_ptr<int> u(new int(4)); auto take = [](std::unique_ptr<int> a, int c) { return *a < c; }; IS(!flip(take)(3, std::move(u))); IS(!u); u.reset(new int(2)); IS((ut::as_projection([](std::unique_ptr<int> a) { return *a; }) | ut::half{})(std::move(u)) == 1); IS(!u); }
    // mutable state lives in the wrapper, once
    { auto m = flip(Mutable{}); for (int i = 0; i < 5; ++i) m(x, y); IS(m.base().n == 5); auto k = cppsort::not_fn(Mutable{}); k(x, y); k(x, y); IS(k.base().n == 2); auto f = flip(m); IS(f.n == 5); auto pc = make_projection_compare(Mutable{}, PMut{}); pc(x, y); IS(pc.comparison().n == 1 && pc.projection().n == 2); auto pp = Acc() | ut::as_projection(lam); pp(1); pp(1); IS(pp.lhs.n == 7); auto fl = flip(pc); fl(x, y); IS(fl.projection().n == 4 && fl.comparison().base().n == 2); }
    // default construction
    { cppsort::flip_t<std::less<>> f; cppsort::not_fn_t<std::less<>> n; cppsort::projection_compare<std::greater<>, std::negate<>> p; IS(f(2, 1)); IS(n(2, 1)); IS(p(1, 2)); }
    // refined
    { Refinable r{3}; auto f = cppsort::refined<int>(r); IS(std::is_same<decltype(f), RefinedFor>::value); IS(f.n == 3); IS(f(3, 1) && !f(1, 3)); const Refinable cr{5}; IS(cppsort::refined<int>(cr).n == 5); IS(cppsort::refined<int>(Refinable{7}).n == 7);
      IS(std::is_same<cppsort::refined_t<int, Refinable>, RefinedFor>::value); IS(std::is_same<cppsort::refined_t<const int&, Refinable>, RefinedFor>::value); std::less<> l; IS(&cppsort::refined<int>(l) == &l); IS(std::is_same<cppsort::refined_t<int, std::less<>>, std::less<>>::value); Modulo mo(1, 2); IS(&cppsort::refined<V>(mo) == &mo); IS(cppsort::refined<V>(Modulo(3, 2))(x, y) == Base<5>::ref(x, y)); IS(&cppsort::refined<V>(static_cast<const Modulo&>(mo)) == &mo); }
    // transparency
    IS(transparent<decltype(flip(std::less<>{}))>::value); IS(!transparent<decltype(flip(std::less<int>{}))>::value); IS(transparent<decltype(cppsort::not_fn(Constexpr{}))>::value); IS(!transparent<decltype(cppsort::not_fn(NoTransp{}))>::value);
    IS(transparent<decltype(make_projection_compare(std::less<>{}, Constexpr{}))>::value); IS(!transparent<decltype(make_projection_compare(std::less<>{}, NoTransp{}))>::value); IS(!transparent<decltype(make_projection_compare(NoTransp{}, Constexpr{}))>::value);
    IS(transparent<decltype(ut::half{} | std::negate<>{})>::value); IS(!transparent<decltype(ut::half{} | NoTransp{})>::value); IS(!transparent<decltype(ut::as_projection(NoTransp{}) | ut::half{})>::value); IS(transparent<decltype(ut::as_projection(Constexpr{}))>::value); IS(!transparent<decltype(ut::as_comparison(NoTransp{}))>::value); IS(transparent<decltype(ut::as_comparison(Constexpr{}))>::value);
    IS(transparent<decltype(cppsort::not_fn(flip(std::less<>{})))>::value); IS(!transparent<decltype(cppsort::not_fn(flip(NoTransp{})))>::value);
    // constant expressions
    static_assert(flip(std::less<>{})(2, 1) && !flip(std::less<>{})(1, 2), ""); static_assert(cppsort::not_fn(std::less<>{})(2, 1), ""); static_assert(flip(cppsort::not_fn(Constexpr{}))(1, 2), ""); static_assert(ut::as_projection(Constexpr{})(3) == 4, ""); static_assert(ut::as_comparison(Constexpr{})(3, 4), ""); static_assert(ut::identity{}(3) == 3 && ut::half{}(7) == 3, "");
    // documented types
    IS(std::is_same<decltype(flip(flip(std::less<>{}))), std::less<>>::value); IS(std::is_same<decltype(cppsort::not_fn(cppsort::not_fn(std::less<>{}))), std::less<>>::value); IS(std::is_same<decltype(flip(cppsort::not_fn(flip(std::less<>{})))), cppsort::not_fn_t<std::less<>>>::value); IS(std::is_same<decltype(cppsort::not_fn(flip(cppsort::not_fn(std::less<>{})))), cppsort::flip_t<std::less<>>>::value);
    IS(std::is_same<decltype(make_projection_compare(std::less<>{}, ut::identity{})), std::less<>>::value); IS(std::is_same<decltype(flip(make_projection_compare(std::less<>{}, &V::k))), cppsort::projection_compare<cppsort::flip_t<std::less<>>, int V::*>>::value); IS(std::is_same<decltype(cppsort::not_fn(make_projection_compare(std::less<>{}, &V::k))), cppsort::projection_compare<cppsort::not_fn_t<std::less<>>, int V::*>>::value);
#if __cplusplus > 201703L
    IS(std::is_same_v<decltype(std::identity{} | ut::half{}), ut::half&&>); IS((std::identity{} | ut::half{})(9) == 4); IS((ut::half{} | std::identity{})(9) == 4); IS((std::identity{} | ut::identity{})(9) == 9); IS((ut::identity{} | std::identity{})(9) == 9); IS((ut::identity{} | ut::identity{})(9) == 9);
    Xor xo(4); IS(&(std::identity{} | xo) == &xo); IS(&(xo | std::identity{}) == &xo); IS((std::identity{} | ut::as_projection(&Box::v))(b) == 3); IS((&Box::v | ut::half{} | std::identity{})(cb) == 4);
#endif
    { Xor xo(4); Plain pl{{1, 2, 3}}; IS(&(ut::identity{} | xo) == &xo); IS(&(xo | ut::identity{}) == &xo); IS(&(ut::identity{} | pl) == &pl); IS(&(pl | ut::identity{}) == &pl); IS(ut::as_function(ut::identity{} | &Box::v)(b) == 3); }
    // a pipe owns its projections
    { auto make = [] { Plain pl{{10, 20, 30}}; Xor x2(3); auto r = pl | x2; pl.s.assign(3, -1); x2.c = 100; return r; }; auto p = make(); IS(p(0) == (10 ^ 3) && p(1) == (20 ^ 3) && p(2) == (30 ^ 3)); }
#if __cplusplus >= 201703L
    // function constants
    { ut::function_constant<&V::lt> lt; ut::function_constant<&fn_less> fl; ut::function_constant<&Box::v> v; IS(std::is_empty<decltype(lt)>::value); for (const V& p : domain) for (const V& q : domain) { IS(lt(p, q) == (val(p) < val(q))); IS(fl(p, q) == (p.k < q.k)); IS(flip(lt)(p, q) == (val(q) < val(p))); IS(cppsort::not_fn(fl)(p, q) == !(p.k < q.k)); IS(make_projection_compare(lt, ut::function_constant<&V::neg>{})(p, q) == (val(q) < val(p))); } IS(&v(b) == &b.v); IS(&(ut::indirect{} | v)(pb) == &b.v); bool (*raw)(const V&, const V&) = fl; IS(raw == &fn_less); IS(fl.value == &fn_less); }
#endif
}
#endif
MC_JOBS {
#if PART < 10
    add_job("compositions over base " + std::to_string(PART), 1, [](u64) { auto f = Base<PART>::make(); explore<PART>(f, "", std::integral_constant<int, DEPTH>{}); }, 120);
#elif PART < 40
    add_job("pipes starting with projection " + std::to_string(PART - 20), 1, [](u64) { pairs<PART - 20>(std::make_integer_sequence<int, POOL>{}); }, 120);
#else
    add_job("other forms", 1, rest);
#endif
}
