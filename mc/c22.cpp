// C22: every way to call a sorter. PART selects the group.
#include "core.hpp"
#include "spaces.hpp"
#include <array>
#include <algorithm>
#include <functional>
#include <iterator>
#include <vector>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
using namespace mc;
namespace cs = cppsort;
#define SAY(...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); desc().text = b_; } while (0)
#define EXPECT(c, what) do { if (!(c)) fail("%s", what); } while (0)
template<typename, typename F, typename... A> struct can_call_: std::false_type {};
template<typename F, typename... A> struct can_call_<decltype(void(std::declval<F>()(std::declval<A>()...))), F, A...>: std::true_type {};
template<typename F, typename... A> constexpr bool can_call = can_call_<void, F, A...>::value;
template<int I> using ic = std::integral_constant<int, I>;

#if PART == 0
// ------------------------------------------------------------------ sorter_facade over every subset of overloads
// Overloads of the implementation: bit 0 I(), 1 I(c), 2 I(p), 3 I(c, p), 4 R(), 5 R(c), 6 R(p), 7 R(c, p)
struct El { signed char key, tag; bool greater(const El& o) const { return key > o.key; } friend bool operator<(const El& a, const El& b) { return a.key < b.key; } friend bool operator>(const El& a, const El& b) { return a.key > b.key; } friend bool operator==(const El& a, const El& b) { return a.key == b.key; }
    friend bool operator<=(const El& a, const El& b) { return a.key <= b.key; } friend bool operator>=(const El& a, const El& b) { return a.key >= b.key; } friend bool operator!=(const El& a, const El& b) { return a.key != b.key; } };
static int last_who, last_calls; static long last_n;
template<typename It, typename C, typename P> static void isort(int who, It f, It l, C c, P p) {
    last_who = who; ++last_calls; last_n = long(l - f);
    auto&& cc = cs::utility::as_function(c); auto&& pp = cs::utility::as_function(p);
    for (It i = f; i != l; ++i) for (It j = i; j != f && cc(pp(*j), pp(*(j - 1))); --j) std::iter_swap(j, j - 1);
}
struct Less_ { template<typename A> bool operator()(const A& a, const A& b) const { return a < b; } };
struct Id_ { template<typename A> const A& operator()(const A& a) const { return a; } };
template<int W> struct ret { static constexpr int who = W; };
template<typename It> using is_it = std::enable_if_t<std::is_same<It, El*>::value || std::is_same<It, std::vector<El>::iterator>::value>;
template<typename R> using is_rg = decltype(std::begin(std::declval<R&>()));
template<bool B> using on = std::enable_if_t<B>;
template<typename It, typename C> using is_cmp = on<cs::is_projection_iterator_v<cs::utility::identity, It, C>>;
template<typename It, typename P> using is_proj = on<cs::is_projection_iterator_v<P, It, std::less<>>>;
template<typename It, typename C, typename P> using is_cp = on<cs::is_projection_iterator_v<P, It, C>>;
#ifndef CX
# define CX
#endif
template<unsigned M> struct impl {
    template<typename It, unsigned m = M, typename = on<(m & 1) != 0>, typename = is_it<It>> CX ret<0> operator()(It f, It l) const { isort(0, f, l, Less_{}, Id_{}); return {}; }
    template<typename It, typename C, unsigned m = M, typename = on<(m & 2) != 0>, typename = is_it<It>, typename = is_cmp<It, C>, int = 1> CX ret<1> operator()(It f, It l, C c) const { isort(1, f, l, c, Id_{}); return {}; }
    template<typename It, typename P, unsigned m = M, typename = on<(m & 4) != 0>, typename = is_it<It>, typename = is_proj<It, P>, int = 2, int = 2> CX ret<2> operator()(It f, It l, P p) const { isort(2, f, l, Less_{}, p); return {}; }
    template<typename It, typename C, typename P, unsigned m = M, typename = on<(m & 8) != 0>, typename = is_it<It>, typename = is_cp<It, C, P>> CX ret<3> operator()(It f, It l, C c, P p) const { isort(3, f, l, c, p); return {}; }
    template<typename R, unsigned m = M, typename = on<(m & 16) != 0>, typename It = is_rg<R>> CX ret<4> operator()(R&& r) const { isort(4, std::begin(r), std::end(r), Less_{}, Id_{}); return {}; }
    template<typename R, typename C, unsigned m = M, typename = on<(m & 32) != 0>, typename It = is_rg<R>, typename = is_cmp<It, C>> CX ret<5> operator()(R&& r, C c) const { isort(5, std::begin(r), std::end(r), c, Id_{}); return {}; }
    template<typename R, typename P, unsigned m = M, typename = on<(m & 64) != 0>, typename It = is_rg<R>, typename = is_proj<It, P>, int = 2> CX ret<6> operator()(R&& r, P p) const { isort(6, std::begin(r), std::end(r), Less_{}, p); return {}; }
    template<typename R, typename C, typename P, unsigned m = M, typename = on<(m & 128) != 0>, typename It = is_rg<R>, typename = is_cp<It, C, P>> CX ret<7> operator()(R&& r, C c, P p) const { isort(7, std::begin(r), std::end(r), c, p); return {}; }
};
template<unsigned M> struct S: cs::sorter_facade<impl<M>> {};
// What the caller passes
struct Gt { bool operator()(int a, int b) const { return a > b; } bool operator()(const El& a, const El& b) const { return a.key > b.key; } };
struct Neg { int operator()(const El& e) const { return -e.tag; } };
// functions that do what is asked only once refined for the value type: not for a reference to it, and not more than once
struct RefC { bool operator()(int a, int b) const { return a < b; } bool operator()(const El& a, const El& b) const { return a.key < b.key; } template<typename T, typename = std::enable_if_t<std::is_same<T, El>::value>> Gt refine() const { return {}; } };
struct RefP { const signed char& operator()(const El& e) const { return e.tag; } template<typename T, typename = std::enable_if_t<std::is_same<T, El>::value>> Neg refine() { return {}; } };
enum { NONE, LESS, GT, MEMC, RLESS, REFC };  // comparisons: none, std::less<>, a function object, pointer to member function, std::ranges::less, one to refine
enum { NOP, ID, NEG, MEMP, SID, REFP };      // projections: none, utility::identity, a function object, pointer to data member, std::identity, one to refine
template<int C> struct cmp_; template<> struct cmp_<LESS> { using type = std::less<>; static type get() { return {}; } }; template<> struct cmp_<GT> { using type = Gt; static type get() { return {}; } };
template<> struct cmp_<MEMC> { using type = bool (El::*)(const El&) const; static type get() { return &El::greater; } };
template<int P> struct proj_; template<> struct proj_<ID> { using type = cs::utility::identity; static type get() { return {}; } }; template<> struct proj_<NEG> { using type = Neg; static type get() { return {}; } };
template<> struct cmp_<REFC> { using type = RefC; static type get() { return {}; } }; template<> struct proj_<REFP> { using type = RefP; static type get() { return {}; } };
template<> struct proj_<MEMP> { using type = signed char El::*; static type get() { return &El::tag; } };
#if __cplusplus > 201703L
template<> struct cmp_<RLESS> { using type = std::ranges::less; static type get() { return {}; } };
template<> struct proj_<SID> { using type = std::identity; static type get() { return {}; } };
#endif
static const char* cn[] = {"", "std::less<>", "a comparison", "a pointer to member function", "std::ranges::less", "a comparison to refine"}, *pn[] = {"", "utility::identity", "a projection", "a pointer to member", "std::identity", "a projection to refine"};
template<int C, int P> struct form {
    using c = typename cmp_<C>::type; using p = typename proj_<P>::type;
    template<typename F, typename... A> static constexpr bool valid = can_call<F, A..., c, p>;
    template<typename F, typename... A> static auto call(F&& f, A&&... a) { return f(std::forward<A>(a)..., cmp_<C>::get(), proj_<P>::get()); }
};
template<int C> struct form<C, NOP> {
    using c = typename cmp_<C>::type;
    template<typename F, typename... A> static constexpr bool valid = can_call<F, A..., c>;
    template<typename F, typename... A> static auto call(F&& f, A&&... a) { return f(std::forward<A>(a)..., cmp_<C>::get()); }
};
template<int P> struct form<NONE, P> {
    using p = typename proj_<P>::type;
    template<typename F, typename... A> static constexpr bool valid = can_call<F, A..., p>;
    template<typename F, typename... A> static auto call(F&& f, A&&... a) { return f(std::forward<A>(a)..., proj_<P>::get()); }
};
template<> struct form<NONE, NOP> {
    template<typename F, typename... A> static constexpr bool valid = can_call<F, A...>;
    template<typename F, typename... A> static auto call(F&& f, A&&... a) { return f(std::forward<A>(a)...); }
};
static bool before(int c, int p, const El& a, const El& b) {
    if (c == REFC) c = GT;
    if (p == REFP) p = NEG;
    if (p == NEG || p == MEMP) { int x = p == NEG ? -a.tag : a.tag, y = p == NEG ? -b.tag : b.tag; return c == GT ? x > y : x < y; }
    return c == GT || c == MEMC ? a.key > b.key : a.key < b.key;
}
// The kinds of overload (0 none, 1 comparison, 2 projection, 3 both) that can perform the call, by documentation: bit mask.
constexpr unsigned routes(int c, int p) {
    bool less = c == NONE || c == LESS || c == RLESS, id = p == NOP || p == ID || p == SID;
    if (c == NONE && p == NOP) return 1;                                    // only the same call: the documentation says nothing about filling in more
    if (p == NOP) return less ? 2 | 1 : 2;
    if (c == NONE) return id ? 8 | 4 | 2 | 1 : 8 | 4 | 2;                   // completed with std::less<>, or baked into the comparison
    return less && id ? 15 : less ? 8 | 4 | 2 : 8 | 2;
}
// more kinds that may perform it although the documentation does not promise it
constexpr unsigned may(int c, int p) { bool id = p == NOP || p == ID || p == SID, less = c == NONE || c == LESS || c == RLESS; return id && less ? 15 : id ? 8 | 2 : less ? 8 | 4 | 2 : 8 | 2; }
// the overload for ranges that must be taken when it exists
constexpr unsigned exact(int c, int p) { return c == NONE ? (p == NOP ? 1 : 4) : p == NOP ? 2 : 8; }
// One call: what the library accepts is found at compile time, everything else is judged here.
struct Case {
    unsigned M; int C, P, Shape; bool ok; int res; void (*call)(std::vector<El>&);
    void say() const {
        char b[400]; int k = snprintf(b, sizeof b, "sorter_facade over overloads {"); static const char* nm[] = {"(it, it)", "(it, it, comp)", "(it, it, proj)", "(it, it, comp, proj)", "(range)", "(range, comp)", "(range, proj)", "(range, comp, proj)"};
        for (int i = 0; i < 8; ++i) if (M >> i & 1) k += snprintf(b + k, sizeof b - k, " %s", nm[i]);
        snprintf(b + k, sizeof b - k, " } called with %s%s%s%s%s", Shape == 0 ? "iterators" : "a range", *cn[C] ? ", " : "", cn[C], *pn[P] ? ", " : "", pn[P]); desc().text = b;
    }
    void run() const {
        // bit positions of kinds: 0 none -> 1, 1 comparison -> 2, 2 projection -> 4, 3 both -> 8
        unsigned rg = Shape ? M >> 4 : 0, avail = (M & 15) | rg;
        bool must = (avail & routes(C, P)) != 0, could = (avail & may(C, P)) != 0;
        if (must && !ok) { say(); fail("%s: not accepted, or ambiguous", desc().text.c_str()); }
        if (ok && !could) { say(); fail("%s: accepted, although no overload can do it", desc().text.c_str()); }
        if (!ok) { count_eval(false, 0); return; }
        for (int code = 0; code < 16; ++code) {
            std::vector<El> v; for (int i = 0; i < 4; ++i) v.push_back(El{(signed char)((code & 3) == 0 ? i : (code & 3) == 1 ? 3 - i : (i * 2 + code) % 3), (signed char)((code >> 2) == 0 ? i : (code >> 2) == 1 ? 3 - i : (i * 2 + code + 1) % 3)});
            std::vector<El> w = v; std::stable_sort(w.begin(), w.end(), [&](const El& a, const El& b) { return before(C, P, a, b); });
            last_calls = 0; call(v); count_eval(true, 1);
            bool same = true; for (int i = 0; i < 4; ++i) same = same && v[i].key == w[i].key && v[i].tag == w[i].tag;
            int who = last_who;
            if (!same) { say(); fail("%s: not sorted as asked", desc().text.c_str()); }
            if (last_calls != 1 || last_n != 4) { say(); fail("%s: the implementation is called %d times, with %ld elements instead of 4", desc().text.c_str(), last_calls, last_n); }
            if (who != res) { say(); fail("%s: the result is not that of the overload called", desc().text.c_str()); }
            if ((rg & exact(C, P)) && who < 4) { say(); fail("%s: the overload for iterators is called although one for ranges takes the same arguments", desc().text.c_str()); }
            if ((rg & 8) && C == NONE && (P == NEG || P == MEMP || P == REFP) && who < 4) { say(); fail("%s: the overload for iterators is called although one for ranges can be completed with std::less<>", desc().text.c_str()); }
            note_behaviour(u64(M) * 4096 + u64(C) * 512 + u64(P) * 64 + u64(Shape) * 16 + u64(who));
        }
    }
};
template<unsigned M, int C, int P> static auto call_(std::vector<El>& v, ic<0>) { return form<C, P>::call(S<M>{}, v.begin(), v.end()); }
template<unsigned M, int C, int P> static auto call_(std::vector<El>& v, ic<1>) { return form<C, P>::call(S<M>{}, v); }
template<unsigned M, int C, int P, int Shape> static void tramp(std::vector<El>& v) { call_<M, C, P>(v, ic<Shape>{}); }
template<unsigned M, int C, int P, int Shape> static Case make(std::false_type) { return Case{M, C, P, Shape, false, -1, nullptr}; }
template<unsigned M, int C, int P, int Shape> static Case make(std::true_type) { return Case{M, C, P, Shape, true, decltype(call_<M, C, P>(std::declval<std::vector<El>&>(), ic<Shape>{}))::who, &tramp<M, C, P, Shape>}; }
template<unsigned M, int C, int P> static void one(ic<0>) { using It = std::vector<El>::iterator; make<M, C, P, 0>(std::integral_constant<bool, form<C, P>::template valid<const S<M>&, It, It>>{}).run(); }
template<unsigned M, int C, int P> static void one(ic<1>) { make<M, C, P, 1>(std::integral_constant<bool, form<C, P>::template valid<const S<M>&, std::vector<El>&>>{}).run(); }
template<unsigned M, int C, int P> static void both() { one<M, C, P>(ic<0>{}); one<M, C, P>(ic<1>{}); }
template<unsigned M> static void all() {
    both<M, NONE, NOP>(); both<M, LESS, NOP>(); both<M, GT, NOP>(); both<M, NONE, ID>(); both<M, NONE, NEG>();
    both<M, LESS, ID>(); both<M, LESS, NEG>(); both<M, GT, ID>(); both<M, GT, NEG>();
#if EXTRA
    both<M, MEMC, NOP>(); both<M, NONE, MEMP>(); both<M, LESS, MEMP>(); both<M, GT, MEMP>(); both<M, MEMC, ID>();
    both<M, REFC, NOP>(); both<M, NONE, REFP>(); both<M, LESS, REFP>(); both<M, REFC, ID>(); both<M, REFC, REFP>();
#endif
#if __cplusplus > 201703L
    both<M, RLESS, NOP>(); both<M, NONE, SID>(); both<M, LESS, SID>(); both<M, RLESS, SID>(); both<M, RLESS, ID>(); both<M, RLESS, NEG>(); both<M, GT, SID>();
#endif
}
template<unsigned... Ms> static void add(std::integer_sequence<unsigned, Ms...>) { int d[] = {(add_job("facade " + std::to_string(FROM + Ms), 1, [](u64) { all<FROM + Ms>(); }), 0)...}; (void)d; }
MC_JOBS { add(std::make_integer_sequence<unsigned, COUNT>{}); }
#endif

#if PART == 1
// ------------------------------------------------------------------ one library sorter, every way to call it
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
#if __cplusplus > 201703L
# include <span>
#endif
struct El {
    signed char key, tag; unsigned char id;
    bool greater(const El& o) const { return key > o.key; }
    int get_tag() const { return tag; }
    friend bool operator<(const El& a, const El& b) { return a.key < b.key; }
    friend bool operator>(const El& a, const El& b) { return a.key > b.key; }
    friend bool operator<=(const El& a, const El& b) { return a.key <= b.key; } friend bool operator>=(const El& a, const El& b) { return a.key >= b.key; }
    friend bool operator==(const El& a, const El& b) { return a.key == b.key; } friend bool operator!=(const El& a, const El& b) { return a.key != b.key; }
};
using V = std::vector<El>; using It = V::iterator;
struct Gt { bool operator()(int a, int b) const { return a > b; } bool operator()(const El& a, const El& b) const { return a.key > b.key; } };
struct IntLt { int operator()(const El& a, const El& b) const { return a.key < b.key ? 4 : 0; } };
struct Counting { int n = 0; bool operator()(const El& a, const El& b) { ++n; return a.key < b.key; } };       // not const
struct Neg { int operator()(const El& e) const { return -e.tag; } };
struct CountingLt { int n = 0; bool operator()(int a, int b) { ++n; return a < b; } };
// a key that is gone once destroyed
static bool dead_read;
struct Tmp {
    int v; mutable volatile unsigned magic = 0xa11feu;
    explicit Tmp(int x): v(x) {} Tmp(const Tmp& o): v(o.v) { o.check(); } Tmp& operator=(const Tmp& o) { o.check(); v = o.v; return *this; } ~Tmp() { check(); magic = 0; v = -77; }
    void check() const { if (magic != 0xa11feu) dead_read = true; }
    friend bool operator<(const Tmp& a, const Tmp& b) { a.check(); b.check(); return a.v < b.v; } friend bool operator>(const Tmp& a, const Tmp& b) { return b < a; }
};
struct MakeTmp { Tmp operator()(const El& e) const { return Tmp(e.tag); } };
struct CountingProj { int n = 0; const signed char& operator()(const El& e) { ++n; return e.tag; } };          // not const
static bool fn_less(const El& a, const El& b) { return a.key < b.key; }
static bool fn_greater(int a, int b) { return a > b; }
static int fn_tag(const El& e) { return e.tag; }
// a view: the range itself is not what is sorted, and a const or temporary view is as good
struct View { El *b, *e; El* begin() const { return b; } El* end() const { return e; } };
struct ViewDiff { El *b, *e; const El* begin() const = delete; El* begin() { return b; } El* end() { return e; } };
static const auto& S_() { static const auto s = SEXPR; return s; }
using Sort = std::decay_t<decltype(SEXPR)>;
// what the order is: comparison 0 <, 1 >; on 0 key, 1 tag, 2 -tag
static int val(int p, const El& e) { return p == 0 ? e.key : p == 1 ? e.tag : -e.tag; }
struct Route { const char* combo; const char* name; int c, p; int group; bool stable; int size; void (*f)(V&); };
static std::vector<Route>& routes() { static std::vector<Route> r; return r; }
static int group_ = 0;
#define UNPAREN(...) __VA_ARGS__
#ifndef NOTEMP
# define NOTEMP 0
#endif
#ifndef NOFPTR
# define NOFPTR 0
#endif
#if NOTEMP
# define RT_(...) (void)0
#else
# define RT_(...) R_(__VA_ARGS__)
#endif
#if NOFPTR
# define RF_(...) (void)0
# define RFT_(...) (void)0
#else
# define RF_(...) R_(__VA_ARGS__)
# define RFT_(...) RT_(__VA_ARGS__)
#endif
#define R_(name, stable, size, ...) routes().push_back(Route{combo, name, c, p, group, stable, size, [](V& v) { (void)v; __VA_ARGS__; }})
// ARGS and TYPES come with a leading comma
#define COMBO(text, C, P, ARGS, TYPES) { const char* combo = text; const int c = C, p = P, group = group_++; \
    R_("range", false, -1, S_()(v UNPAREN ARGS)); \
    R_("iterators", false, -1, S_()(v.begin(), v.end() UNPAREN ARGS)); \
    RT_("temporary range", false, -1, S_()(std::move(v) UNPAREN ARGS)); \
    RF_("function pointer on iterators", false, -1, void (*f)(It, It UNPAREN TYPES) = Sort(SEXPR); f(v.begin(), v.end() UNPAREN ARGS)); \
    RF_("function pointer on a range", false, -1, void (*f)(V& UNPAREN TYPES) = Sort(SEXPR); f(v UNPAREN ARGS)); \
    RFT_("function pointer on a temporary range", false, -1, void (*f)(V&& UNPAREN TYPES) = Sort(SEXPR); f(std::move(v) UNPAREN ARGS)); \
    R_("sort(sorter, range)", false, -1, cs::sort(S_(), v UNPAREN ARGS)); \
    R_("sort(sorter, iterators)", false, -1, cs::sort(S_(), v.begin(), v.end() UNPAREN ARGS)); \
    INSTANCE(ARGS) DEFAULT_(ARGS) }
#ifdef DEFAULTS
# define DEFAULT_(ARGS) R_("sort(range)", false, -1, cs::sort(v UNPAREN ARGS)); R_("sort(iterators)", false, -1, cs::sort(v.begin(), v.end() UNPAREN ARGS)); R_("sort(temporary range)", false, -1, cs::sort(std::move(v) UNPAREN ARGS));
#else
# define DEFAULT_(ARGS)
#endif
#ifdef INST
# define INSTANCE(ARGS) R_("instance on a range", false, -1, INST(v UNPAREN ARGS)); R_("instance on iterators", false, -1, INST(v.begin(), v.end() UNPAREN ARGS));
#else
# define INSTANCE(ARGS)
#endif
#define STABLE(text, C, P, ARGS) { const char* combo = text; const int c = C, p = P, group = group_++; \
    R_("stable_sort(sorter, range)", true, -1, cs::stable_sort(S_(), v UNPAREN ARGS)); \
    R_("stable_sort(sorter, iterators)", true, -1, cs::stable_sort(S_(), v.begin(), v.end() UNPAREN ARGS)); \
    DEFAULT_STABLE(ARGS) \
    R_("stable_t", true, -1, cs::stable_t<Sort>{}(v UNPAREN ARGS)); }
#ifdef DEFAULTS
# define DEFAULT_STABLE(ARGS) R_("stable_sort(range)", true, -1, cs::stable_sort(v UNPAREN ARGS)); R_("stable_sort(iterators)", true, -1, cs::stable_sort(v.begin(), v.end() UNPAREN ARGS)); R_("stable_sort(temporary range)", true, -1, cs::stable_sort(std::move(v) UNPAREN ARGS));
#else
# define DEFAULT_STABLE(ARGS)
#endif
template<std::size_t N> struct Raw { El a[N]; explicit Raw(const V& v) { for (std::size_t i = 0; i < N; ++i) a[i] = v[i]; } void back(V& v) const { for (std::size_t i = 0; i < N; ++i) v[i] = a[i]; } };
template<std::size_t N> static std::array<El, N> arr(const V& v) { std::array<El, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = v[i]; return a; }
template<std::size_t N> static void give(const std::array<El, N>& a, V& v) { for (std::size_t i = 0; i < N; ++i) v[i] = a[i]; }
#define KINDS(text, C, P, ARGS, TYPES) { const char* combo = text; const int c = C, p = P, group = group_++; \
    R_("pointers", false, -1, S_()(v.data(), v.data() + v.size() UNPAREN ARGS)); \
    R_("view", false, -1, View w{v.data(), v.data() + v.size()}; S_()(w UNPAREN ARGS)); \
    R_("const view", false, -1, const View w{v.data(), v.data() + v.size()}; S_()(w UNPAREN ARGS)); \
    RT_("temporary view", false, -1, S_()(View{v.data(), v.data() + v.size()} UNPAREN ARGS)); \
    RF_("function pointer on pointers", false, -1, void (*f)(El*, El* UNPAREN TYPES) = Sort(SEXPR); f(v.data(), v.data() + v.size() UNPAREN ARGS)); \
    RFT_("function pointer on a temporary view", false, -1, void (*f)(View&& UNPAREN TYPES) = Sort(SEXPR); f(View{v.data(), v.data() + v.size()} UNPAREN ARGS)); \
    R_("array", false, 4, Raw<4> r(v); S_()(r.a UNPAREN ARGS); r.back(v)); R_("array", false, 40, Raw<40> r(v); S_()(r.a UNPAREN ARGS); r.back(v)); \
    RT_("temporary array", false, 4, Raw<4> r(v); S_()(std::move(r.a) UNPAREN ARGS); r.back(v)); \
    R_("std::array", false, 4, auto a = arr<4>(v); S_()(a UNPAREN ARGS); give(a, v)); R_("std::array", false, 40, auto a = arr<40>(v); S_()(a UNPAREN ARGS); give(a, v)); \
    RF_("function pointer on an array", false, 4, Raw<4> r(v); void (*f)(El (&)[4] UNPAREN TYPES) = Sort(SEXPR); f(r.a UNPAREN ARGS); r.back(v)); \
    SPANS(ARGS) }
#if __cplusplus > 201703L
# define SPANS(ARGS) R_("span", false, -1, std::span<El> w(v); S_()(w UNPAREN ARGS)); RT_("temporary span", false, -1, S_()(std::span<El>(v) UNPAREN ARGS)); R_("const span", false, -1, const std::span<El> w(v); S_()(w UNPAREN ARGS)); RT_("span of fixed extent", false, 4, S_()(std::span<El, 4>(v.data(), 4) UNPAREN ARGS));
#else
# define SPANS(ARGS)
#endif
using PM = signed char El::*; using PMF = bool (El::*)(const El&) const; using PMG = int (El::*)() const; using FL = bool (*)(const El&, const El&); using FG = bool (*)(int, int); using FT = int (*)(const El&);
static void collect() {
    COMBO("no function", 0, 0, (), ())
    COMBO("std::less<>", 0, 0, (, std::less<>{}), (, std::less<>))
    COMBO("utility::identity", 0, 0, (, cs::utility::identity{}), (, cs::utility::identity))
    COMBO("std::less<>, utility::identity", 0, 0, (, std::less<>{}, cs::utility::identity{}), (, std::less<>, cs::utility::identity))
    COMBO("a comparison", 1, 0, (, Gt{}), (, Gt))
    COMBO("a function pointer as comparison", 0, 0, (, &fn_less), (, FL))
    COMBO("a pointer to member function as comparison", 1, 0, (, &El::greater), (, PMF))
    COMBO("a comparison whose result is an int", 0, 0, (, IntLt{}), (, IntLt))
    COMBO("a pointer to data member as projection", 0, 1, (, &El::tag), (, PM))
    COMBO("a pointer to member function as projection", 0, 1, (, &El::get_tag), (, PMG))
    COMBO("a function pointer as projection", 0, 1, (, &fn_tag), (, FT))
    COMBO("a projection", 0, 2, (, Neg{}), (, Neg))
    COMBO("std::less<>, a projection", 0, 2, (, std::less<>{}, Neg{}), (, std::less<>, Neg))
    COMBO("a comparison, utility::identity", 1, 0, (, Gt{}, cs::utility::identity{}), (, Gt, cs::utility::identity))
    COMBO("a comparison, a pointer to member", 1, 1, (, Gt{}, &El::tag), (, Gt, PM))
    COMBO("two function pointers", 1, 1, (, &fn_greater, &fn_tag), (, FG, FT))
    COMBO("a pointer to member function as comparison, utility::identity", 1, 0, (, &El::greater, cs::utility::identity{}), (, PMF, cs::utility::identity))
    COMBO("a comparison that is not const", 0, 0, (, Counting{}), (, Counting))
    COMBO("a projection that is not const", 0, 1, (, CountingProj{}), (, CountingProj))
    COMBO("a comparison and a projection that are not const", 0, 1, (, CountingLt{}, CountingProj{}), (, CountingLt, CountingProj))
    COMBO("a projection returning an object by value", 0, 1, (, MakeTmp{}), (, MakeTmp))
    COMBO("std::greater<>, a projection returning an object by value", 1, 1, (, std::greater<>{}, MakeTmp{}), (, std::greater<>, MakeTmp))
    COMBO("a generic comparison, a projection", 1, 2, (, std::greater<>{}, Neg{}), (, std::greater<>, Neg))
#if __cplusplus > 201703L
    COMBO("std::ranges::less, std::identity", 0, 0, (, std::ranges::less{}, std::identity{}), (, std::ranges::less, std::identity))
    COMBO("std::ranges::greater, a pointer to member", 1, 1, (, std::ranges::greater{}, &El::tag), (, std::ranges::greater, PM))
#endif
    KINDS("no function", 0, 0, (), ())
    KINDS("a comparison, a pointer to member", 1, 1, (, Gt{}, &El::tag), (, Gt, PM))
#if !NOSTABLE
    STABLE("std::less<>", 0, 0, (, std::less<>{}))
    STABLE("utility::identity", 0, 0, (, cs::utility::identity{}))
    STABLE("a pointer to member function as comparison", 1, 0, (, &El::greater))
    STABLE("a pointer to member", 0, 1, (, &El::tag))
    STABLE("a projection returning an object by value", 0, 1, (, MakeTmp{}))
    STABLE("std::less<>, a projection", 0, 2, (, std::less<>{}, Neg{}))
    STABLE("two function pointers", 1, 1, (, &fn_greater, &fn_tag))
    STABLE("no function", 0, 0, ())
    STABLE("a comparison", 1, 0, (, Gt{}))
    STABLE("a projection", 0, 2, (, Neg{}))
    STABLE("a comparison, a pointer to member", 1, 1, (, Gt{}, &El::tag))
#endif
}
static void judge(const V& in, int size) {
    int group = -1; V ref;
    for (const Route& r : routes()) {
        if (r.size >= 0 && r.size != size) continue;
        V out = in; dead_read = false; r.f(out); count_eval(true, 1);
        if (dead_read) { SAY("%s, %s, %s", SNAME, r.combo, r.name); desc().n = int(in.size()); fail("%s: called with %s (%s): a projected value is used after its destruction", SNAME, r.combo, r.name); }
        bool ok = out.size() == in.size(); unsigned seen[256] = {};
        for (std::size_t i = 0; ok && i < out.size(); ++i) {
            ok = out[i].id < in.size() && !seen[out[i].id]++ && in[out[i].id].key == out[i].key && in[out[i].id].tag == out[i].tag;
            if (ok && i) { int a = val(r.p, out[i - 1]), b = val(r.p, out[i]); ok = r.c ? a >= b : a <= b; if (ok && r.stable && a == b) ok = out[i - 1].id < out[i].id; }
        }
        if (!ok) { SAY("%s, %s, %s", SNAME, r.combo, r.name); static int ks[64]; for (std::size_t i = 0; i < in.size(); ++i) ks[i] = in[i].key; desc().keys = ks; desc().n = int(in.size()); fail("%s: called with %s (%s): not %ssorted as asked", SNAME, r.combo, r.name, r.stable ? "stably " : ""); }
        if (r.group != group) { group = r.group; ref = out; }
        else for (std::size_t i = 0; i < out.size(); ++i) if (out[i].id != ref[i].id) { SAY("%s, %s, %s", SNAME, r.combo, r.name); fail("%s: called with %s: the result differs between the ways to call it (%s)", SNAME, r.combo, r.name); }
    }
    u64 h = 1469598103934665603ull; for (auto& e : in) h = (h ^ u64(e.key + 128)) * 1099511628211ull; note_behaviour(h);
}
static El el(int key, int i) { return El{(signed char)key, (signed char)((i * 5 + 2) % 7), (unsigned char)i}; }
MC_JOBS {
    collect();
    for (int n = 0; n <= 4; ++n) { u64 c = 1; for (int i = 0; i < n; ++i) c *= 3; add_job("words of length " + std::to_string(n), c, [n](u64 k) { V v; for (int i = 0; i < n; ++i, k /= 3) v.push_back(el(int(k % 3), i)); judge(v, n); }); }
    add_job("words of length 40", 64, [](u64 k) { V v; for (int i = 0; i < 40; ++i) v.push_back(el(k < 8 ? int(i * (k + 1)) % 41 : k < 16 ? (39 - i) * int(k - 7) % 43 : int((u64(i) * i * (k - 15) + u64(i) * k) % (k - 13)), i)); judge(v, 40); });
}
#endif

#if PART == 2
// ------------------------------------------------------------------ sorters for particular types, and fixed-size sorters
#include <string>
#include <cpp-sort/sort.h>
#include <cpp-sort/sorters/counting_sorter.h>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
#include <cpp-sort/fixed_sorters.h>
template<typename T> struct Wrap { T v; T get() const { return v; } friend bool operator==(const Wrap& a, const Wrap& b) { return a.v == b.v; } };
template<typename T> static T make(int k) { return T(k - 1); }
template<> std::string make<std::string>(int k) { return k == 0 ? "" : k == 1 ? "a" : std::string("ab") + char('a' + k % 7); }
template<typename T> struct raw { using type = T; static T wrap(const T& t) { return t; } };
template<typename T> struct raw<Wrap<T>> { using type = T; static Wrap<T> wrap(const T& t) { return Wrap<T>{t}; } };
template<typename T> static const T& key(const T& t) { return t; }
template<typename T> static const T& key(const Wrap<T>& t) { return t.v; }
template<typename E> struct Route { std::string name; int size; void (*f)(std::vector<E>&); };
template<typename E> static void judge(const char* what, const std::vector<Route<E>>& rs, const std::vector<E>& in) {
    std::vector<E> want = in; std::stable_sort(want.begin(), want.end(), [](const E& a, const E& b) { return key(a) < key(b); });
    for (auto& r : rs) {
        if (r.size >= 0 && r.size != int(in.size())) continue;
        auto out = in; r.f(out); count_eval(true, 1);
        if (!(out == want)) { SAY("%s, %s", what, r.name.c_str()); desc().n = int(in.size()); fail("%s: called with %s: not sorted", what, r.name.c_str()); }
    }
    note_behaviour(std::hash<std::string>{}(what) + in.size());
}
#define UNPAREN(...) __VA_ARGS__
#define R_(name, size, ...) rs.push_back(Route<E>{std::string(combo) + ", " + name, size, [](V& v) { __VA_ARGS__; }})
#define COMBO(text, ARGS, TYPES) { const char* combo = text; \
    R_("range", -1, S{}(v UNPAREN ARGS)); R_("iterators", -1, S{}(v.begin(), v.end() UNPAREN ARGS)); R_("temporary range", -1, S{}(std::move(v) UNPAREN ARGS)); \
    R_("pointers", -1, S{}(v.data(), v.data() + v.size() UNPAREN ARGS)); \
    R_("function pointer on iterators", -1, void (*f)(It, It UNPAREN TYPES) = S(); f(v.begin(), v.end() UNPAREN ARGS)); \
    R_("function pointer on a range", -1, void (*f)(V& UNPAREN TYPES) = S(); f(v UNPAREN ARGS)); \
    R_("function pointer on a temporary range", -1, void (*f)(V&& UNPAREN TYPES) = S(); f(std::move(v) UNPAREN ARGS)); \
    R_("sort(sorter, range)", -1, cs::sort(S{}, v UNPAREN ARGS)); R_("sort(sorter, iterators)", -1, cs::sort(S{}, v.begin(), v.end() UNPAREN ARGS)); }
template<typename S, typename E> static void plain(std::vector<Route<E>>& rs) {
    using V = std::vector<E>; using It = typename V::iterator;
    COMBO("no function", (), ())
    COMBO("std::less<>", (, std::less<>{}), (, std::less<>))
    COMBO("utility::identity", (, cs::utility::identity{}), (, cs::utility::identity))
    COMBO("std::less<>, utility::identity", (, std::less<>{}, cs::utility::identity{}), (, std::less<>, cs::utility::identity))
#if __cplusplus > 201703L
    COMBO("std::ranges::less", (, std::ranges::less{}), (, std::ranges::less))
    COMBO("std::identity", (, std::identity{}), (, std::identity))
    COMBO("std::ranges::less, std::identity", (, std::ranges::less{}, std::identity{}), (, std::ranges::less, std::identity))
    COMBO("std::less<>, std::identity", (, std::less<>{}, std::identity{}), (, std::less<>, std::identity))
    COMBO("std::ranges::less, utility::identity", (, std::ranges::less{}, cs::utility::identity{}), (, std::ranges::less, cs::utility::identity))
#endif
}
template<typename E> struct Get { const typename raw<E>::type& operator()(const E& e) const { return e.v; } };
template<typename S, typename E> static void projected(std::vector<Route<E>>& rs) {
    using V = std::vector<E>; using It = typename V::iterator; using T = typename raw<E>::type;
    using PM = T E::*; using PF = T (E::*)() const;
    COMBO("a pointer to member", (, &E::v), (, PM))
    COMBO("a pointer to member function", (, &E::get), (, PF))
    COMBO("a projection", (, Get<E>{}), (, Get<E>))
    COMBO("std::less<>, a pointer to member", (, std::less<>{}, &E::v), (, std::less<>, PM))
    COMBO("std::less<>, a projection", (, std::less<>{}, Get<E>{}), (, std::less<>, Get<E>))
#if __cplusplus > 201703L
    COMBO("std::ranges::less, a pointer to member", (, std::ranges::less{}, &E::v), (, std::ranges::less, PM))
#endif
}
template<typename E> static void jobs(const std::string& what, std::vector<Route<E>> rs, int only = -1) {
    using T = typename raw<E>::type;
    for (int n = only < 0 ? 0 : only; n <= (only < 0 ? 4 : only); ++n) { u64 c = 1; for (int i = 0; i < n; ++i) c *= 3; add_job(what + " words of length " + std::to_string(n), c, [=](u64 k) { std::vector<E> v; for (int i = 0; i < n; ++i, k /= 3) v.push_back(raw<E>::wrap(make<T>(int(k % 3)))); judge(what.c_str(), rs, v); }); }
    if (only < 0) for (int n : {40, 1100}) add_job(what + " words of length " + std::to_string(n), 24, [=](u64 k) { std::vector<E> v; for (int i = 0; i < n; ++i) v.push_back(raw<E>::wrap(make<T>(k < 8 ? int(i * (k + 1)) % 41 : k < 16 ? (n - i) * int(k - 7) % 43 : int((u64(i) * i * (k - 15) + u64(i) * k) % (k - 13))))); judge(what.c_str(), rs, v); });
}
template<typename S, typename T> static void p_(const char* what) { std::vector<Route<T>> rs; plain<S, T>(rs); jobs<T>(std::string(what) + " plain", rs); }
template<typename S, typename T> static void w_(const char* what) { std::vector<Route<Wrap<T>>> rs; projected<S, Wrap<T>>(rs); jobs<Wrap<T>>(std::string(what) + " projected", rs); }
template<typename S, typename T> static void pw(const char* what) { p_<S, T>(what); w_<S, T>(what); }
template<typename S, int N> static void fixed(const char* what) { std::vector<Route<int>> rs; plain<S, int>(rs); jobs<int>(std::string(what) + " plain", rs, N); std::vector<Route<Wrap<int>>> rw; projected<S, Wrap<int>>(rw); jobs<Wrap<int>>(std::string(what) + " projected", rw, N); }
MC_JOBS {
#if WHICH == 0
    p_<cs::counting_sorter, int>("counting_sorter<int>"); p_<cs::counting_sorter, signed char>("counting_sorter<signed char>");
    pw<cs::ska_sorter, int>("ska_sorter<int>"); pw<cs::ska_sorter, std::string>("ska_sorter<string>"); pw<cs::ska_sorter, float>("ska_sorter<float>");
#elif WHICH == 1
    pw<cs::integer_spread_sorter, int>("integer_spread_sorter<int>"); pw<cs::float_spread_sorter, float>("float_spread_sorter<float>"); pw<cs::string_spread_sorter, std::string>("string_spread_sorter<string>");
#elif WHICH == 2
    pw<cs::spread_sorter, int>("spread_sorter<int>"); pw<cs::spread_sorter, double>("spread_sorter<double>"); pw<cs::spread_sorter, std::string>("spread_sorter<string>");
#else
    fixed<cs::low_comparisons_sorter<4>, 4>("low_comparisons_sorter<4>"); fixed<cs::low_moves_sorter<4>, 4>("low_moves_sorter<4>"); fixed<cs::sorting_network_sorter<4>, 4>("sorting_network_sorter<4>");
    fixed<cs::merge_exchange_network_sorter<4>, 4>("merge_exchange_network_sorter<4>"); fixed<cs::odd_even_merge_network_sorter<4>, 4>("odd_even_merge_network_sorter<4>");
#endif
}
#endif

#if PART == 3
// ------------------------------------------------------------------ function pointers obtained from sorters with results
template<int K> struct RImpl {
    template<typename I, typename C = std::less<>, typename P = cs::utility::identity, typename = std::enable_if_t<cs::is_projection_iterator_v<P, I, C>>>
    auto operator()(I f, I l, C c = {}, P p = {}) const { std::stable_sort(f, l, [&](const auto& a, const auto& b) { return cs::utility::as_function(c)(cs::utility::as_function(p)(a), cs::utility::as_function(p)(b)); }); return result(long(l - f), std::integral_constant<int, K>{}); }
    static void result(long, ic<0>) {}
    static long result(long n, ic<1>) { return n * 1000; }
    static std::pair<int, std::vector<int>> result(long n, ic<2>) { return {int(n), std::vector<int>(std::size_t(n), 7)}; }
    static const int& result(long n, ic<3>) { static int r; r = int(n) + 50; return r; }
    struct MoveOnly { long n; explicit MoveOnly(long k): n(k) {} MoveOnly(MoveOnly&&) = default; MoveOnly(const MoveOnly&) = delete; };
    static MoveOnly result(long n, ic<4>) { return MoveOnly(n); }
};
template<int K> struct RS: cs::sorter_facade<RImpl<K>> {};
struct State: cs::sorter_facade<RImpl<0>> { int x = 3; };
static long val(long v) { return v; } static long val(const std::pair<int, std::vector<int>>& p) { return p.first * 31 + long(p.second.size()); }
template<typename T> static auto val(const T& t) -> decltype(t.n) { return t.n; }
struct Gt { bool operator()(int a, int b) const { return a > b; } }; struct Neg { int operator()(int a) const { return -a; } };
static long expected;
template<typename F, typename... A> static void call(F f, std::true_type, long&, long&, A&&... a) { f(std::forward<A>(a)...); }
template<typename F, typename... A> static void call(F f, std::false_type, long& got, long& want, A&&... a) { got = val(f(std::forward<A>(a)...)); want = expected;}
template<int K, typename Ret> static void one(const char* what) {
    using V = std::vector<int>; using It = V::iterator;
    static const RS<K> s{};
    Ret (*f0)(It, It) = s; Ret (*f1)(It, It, Gt) = s; Ret (*f2)(It, It, Neg) = s; Ret (*f3)(It, It, Gt, Neg) = s;
    Ret (*g0)(V&) = s; Ret (*g1)(V&, Gt) = s; Ret (*g2)(V&, Neg) = s; Ret (*g3)(V&, Gt, Neg) = s;
    Ret (*h0)(V&&) = s; Ret (*h1)(V&&, Gt) = s; Ret (*h2)(V&&, Neg) = s; Ret (*h3)(V&&, Gt, Neg) = s;
    Ret (*p0)(int*, int*) = s; Ret (*a0)(int (&)[3]) = s;
    for (int code = 0; code < 27; ++code) for (int form = 0; form < 14; ++form) {
        V v{code % 3, code / 3 % 3, code / 9}, w = v; int raw[3] = {v[0], v[1], v[2]};
        bool down = form < 12 && (form % 4 == 1 || form % 4 == 2);
        std::sort(w.begin(), w.end()); if (down) std::reverse(w.begin(), w.end());
        long want = 0, got = 0;
        auto run = [&](auto f, auto&&... a) { call(f, std::is_void<Ret>{}, got, want, std::forward<decltype(a)>(a)...); };
        switch (form) {
            case 0: run(f0, v.begin(), v.end()); break; case 1: run(f1, v.begin(), v.end(), Gt{}); break; case 2: run(f2, v.begin(), v.end(), Neg{}); break; case 3: run(f3, v.begin(), v.end(), Gt{}, Neg{}); break;
            case 4: run(g0, v); break; case 5: run(g1, v, Gt{}); break; case 6: run(g2, v, Neg{}); break; case 7: run(g3, v, Gt{}, Neg{}); break;
            case 8: run(h0, std::move(v)); break; case 9: run(h1, std::move(v), Gt{}); break; case 10: run(h2, std::move(v), Neg{}); break; case 11: run(h3, std::move(v), Gt{}, Neg{}); break;
            case 12: run(p0, raw, raw + 3); v = V(raw, raw + 3); break; default: run(a0, raw); v = V(raw, raw + 3);
        }
        count_eval(true, 1); note_behaviour(u64(code) * 64 + u64(form) + u64(K) * 4096);
        if (v != w) { SAY("%s", what); fail("function pointer from a sorter with result %s, form %d: not sorted", what, form); }
        if (got != want) { SAY("%s", what); fail("function pointer from a sorter with result %s, form %d: result %ld instead of %ld", what, form, got, want); }
    }
}
template<int K, typename Ret> static void add(const char* what, long exp) { add_job(what, 1, [=](u64) { expected = exp; one<K, Ret>(what); }); }
MC_JOBS {
    add<0, void>("nothing", 0); add<1, long>("long", 3000); add<1, void>("long, dropped", 0);
    add<2, std::pair<int, std::vector<int>>>("pair", 96); add<2, void>("pair, dropped", 0);
    add<3, int>("int", 53); add<3, void>("int, dropped", 0);
    add<4, RImpl<4>::MoveOnly>("move-only", 3); add<4, void>("move-only, dropped", 0);
    add_job("stateful", 1, [](u64) {
        count_eval(true, 1);
        static_assert(!std::is_convertible<State, void (*)(std::vector<int>&)>::value || std::is_empty<RImpl<0>>::value, "");
        struct SImpl: RImpl<0> { int x = 0; };
        using SF = cs::sorter_facade<SImpl>;
        EXPECT((!std::is_convertible<SF, void (*)(std::vector<int>&)>::value), "a sorter with state converts to a function pointer, which would lose the state");
        EXPECT((std::is_convertible<cs::sorter_facade<RImpl<0>>, void (*)(std::vector<int>&)>::value), "an empty sorter does not convert to a function pointer");
    });
}
#endif

#if PART == 4
// ------------------------------------------------------------------ the comparison function objects of the standard library, on fundamental types and strings
#include <string>
#ifndef SIZE
# define SIZE -1
#endif
#ifndef LONG
# define LONG 1100
#endif
template<typename T> static T make(int k) { return T(k - 1); }
template<> std::string make<std::string>(int k) { return k == 0 ? "" : k == 1 ? "a" : std::string("ab") + char('a' + k % 7) + char('a' + k / 7); }
static char storage_[64];
template<> char* make<char*>(int k) { return storage_ + k % 64; }
template<typename T> struct Route { const char* name; bool down; void (*f)(std::vector<T>&); };
template<typename T> static void add_type(const char* type) {
    static std::vector<Route<T>> rs;
#define CMP(DOWN, ...) rs.push_back(Route<T>{#__VA_ARGS__, DOWN, [](std::vector<T>& v) { static const auto s = SEXPR; s(v.begin(), v.end(), __VA_ARGS__); }});
    CMP(false, std::less<>{}) CMP(true, std::greater<>{}) CMP(false, std::less<T>{}) CMP(true, std::greater<T>{})
    CMP(false, std::less<>{}, cs::utility::identity{}) CMP(true, std::greater<>{}, cs::utility::identity{})
#if __cplusplus > 201703L
    CMP(false, std::ranges::less{}) CMP(true, std::ranges::greater{})
    CMP(false, std::ranges::less{}, cs::utility::identity{}) CMP(true, std::ranges::greater{}, cs::utility::identity{})
    CMP(false, std::ranges::less{}, std::identity{}) CMP(true, std::ranges::greater{}, std::identity{})
    CMP(false, std::identity{}) CMP(true, std::greater<>{}, std::identity{}) CMP(false, std::less<T>{}, std::identity{}) CMP(true, std::greater<T>{}, std::identity{})
#endif
    auto run = [type](const std::vector<T>& in) {
        auto up = in; std::sort(up.begin(), up.end()); auto down = up; std::reverse(down.begin(), down.end());
        for (auto& r : rs) {
            auto out = in; r.f(out); count_eval(true, 1);
            if (out != (r.down ? down : up)) { SAY("%s: %s with %s", SNAME, type, r.name); desc().n = int(in.size()); fail("%s: a collection of %s sorted with %s is not sorted", SNAME, type, r.name); }
        }
    };
    const int lo = SIZE < 0 ? 0 : SIZE, hi = SIZE < 0 ? 4 : SIZE;
    for (int n = lo; n <= hi; ++n) { u64 c = 1; for (int i = 0; i < n && c < 3000; ++i) c *= 3; add_job(std::string(type) + " words of length " + std::to_string(n), c, [n, run](u64 k) { note_behaviour(k * 8 + u64(n)); std::vector<T> v; for (int i = 0; i < n; ++i, k /= 3) v.push_back(make<T>(int(k % 3))); run(v); }); }
    if (SIZE < 0) for (int n : {16, 40, LONG}) add_job(std::string(type) + " words of length " + std::to_string(n), 24, [=](u64 k) { note_behaviour(k * 8192 + u64(n)); std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(make<T>(k < 8 ? int(i * (k + 1)) % 41 : k < 16 ? (n - i) * int(k - 7) % 43 : int((u64(i) * i * (k - 15) + u64(i) * k) % (k - 13)))); run(v); });
    // zero-one words, for the networks of fixed size
    if (SIZE > 7) add_job(std::string(type) + " zero-one words", std::min<u64>(u64(1) << SIZE, 4096), [run](u64 k) { std::vector<T> v; for (int i = 0; i < SIZE; ++i) v.push_back(make<T>(int((k * 2654435761u >> (i % 24)) ^ (k >> (i % 12))) & 1)); run(v); });
}
MC_JOBS {
    add_type<int>("int"); add_type<double>("double");
#if !NOSTRING
    add_type<std::string>("std::string");
#endif
#if WIDE
    add_type<bool>("bool"); add_type<signed char>("signed char"); add_type<unsigned long long>("unsigned long long"); add_type<float>("float"); add_type<char*>("char*");
#endif
}
#endif
