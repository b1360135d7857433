// C30: utility components over bounded domains. PART selects the group.
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <forward_list>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <cpp-sort/utility/adapter_storage.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/branchless_traits.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/metrics_tools.h>
#include <cpp-sort/utility/size.h>
#include <cpp-sort/utility/sorting_networks.h>
#include <cpp-sort/utility/static_const.h>
#include <cpp-sort/utility/make_integer_range.h>
#include <cpp-sort/comparators/projection_compare.h>
using namespace mc;
namespace u = cppsort::utility;
#define SAY(...) do { char b_[200]; snprintf(b_, sizeof b_, __VA_ARGS__); desc().text = b_; } while (0)
#define EXPECT(c, what) do { if (!(c)) fail("%s", what); } while (0)
template<bool B> using yes = std::integral_constant<bool, B>;

#if PART == 0
// ------------------------------------------------------------------ buffers and size policies
// A sample type whose objects are counted and addressable: the storage must consist of live distinct objects
struct Cell {
    static long& live() { static long v = 0; return v; }
    long v; Cell(): v(17) { ++live(); } Cell(const Cell& o): v(o.v) { ++live(); } ~Cell() { --live(); } Cell& operator=(const Cell&) = default;
};
template<typename T> T make_val(long i) { return T(i); }
template<> Cell make_val<Cell>(long i) { Cell c; c.v = i; return c; }
static long val(long x) { return x; }
static long val(const Cell& c) { return c.v; }
static long val(const std::string& s) { return long(s.size()); }
template<> std::string make_val<std::string>(long i) { return std::string(std::size_t(i % 40), 'x'); }
template<typename B> static void use(B& b, std::size_t want) {
    using T = std::remove_reference_t<decltype(*b.begin())>;
    const B& cb = b;
    if (std::size_t(b.size()) != want) fail("buffer: size() is %zu, %zu expected", std::size_t(b.size()), want);
    if (std::size_t(b.end() - b.begin()) != want) fail("buffer: [begin(), end()) has %zu elements, size() is %zu", std::size_t(b.end() - b.begin()), want);
    if (&*cb.begin() != &*b.begin() && want) fail("buffer: const begin() differs");
    EXPECT(std::size_t(cb.end() - cb.begin()) == want, "buffer: const [begin(), end()) has the wrong size");
    EXPECT(std::size_t(b.cend() - b.cbegin()) == want, "buffer: [cbegin(), cend()) has the wrong size");
    if (!want) return;
    EXPECT(&*b.cbegin() == &*b.begin(), "buffer: cbegin() differs from begin()");
    for (std::size_t i = 0; i < want; ++i) b.begin()[i] = make_val<T>(long(i * 7 + 3) % 100);
    for (std::size_t i = 0; i < want; ++i) {
        if (val(b[i]) != val(make_val<T>(long(i * 7 + 3) % 100))) fail("buffer: element %zu lost its value", i);
        EXPECT(&b[i] == b.begin() + i && &cb[i] == &b[i], "buffer: operator[] designates another element than begin()");
    }
    b[want - 1] = make_val<T>(5);
    EXPECT(val(*(b.end() - 1)) == val(make_val<T>(5)), "buffer: the last element is not writable through operator[]");
}
struct Twice { std::size_t operator()(std::size_t n) const { return 2 * n + 1; } };
struct Zero { int operator()(std::size_t) const { return 0; } };
struct Frac { double operator()(std::size_t n) const { return double(n) * 0.75; } };
struct Nonconst { std::size_t operator()(std::size_t n) { return n > 3 ? n - 3 : 0; } };
template<typename P, typename T> static void dyn(const char* who, std::size_t n, std::size_t want) {
    SAY("dynamic_buffer<%s> for %zu elements", who, n);
    count_eval(true, 1);
    H() = Heap(); H().armed = true;
    long live = Cell::live();
    {
        typename u::dynamic_buffer<P>::template buffer<T> b(n);
        u64 blocks = H().count;
        (void)blocks;
        use(b, want);
        note_behaviour(u64(n) * 31 + want);
    }
    if (H().outstanding) fail("dynamic_buffer leaks %ld blocks", long(H().outstanding));
    EXPECT(Cell::live() == live, "dynamic_buffer does not destroy its elements");
    u64 total = std::is_same<T, std::string>::value ? 1 : H().count;
    for (u64 f = 1; f <= total; ++f) {
        H() = Heap(); H().armed = true; H().fail_at = f;
        bool thrown = false;
        try { typename u::dynamic_buffer<P>::template buffer<T> b(n); } catch (const std::bad_alloc&) { thrown = true; }
        EXPECT(thrown, "dynamic_buffer: std::bad_alloc was not propagated");
        EXPECT(!H().outstanding && Cell::live() == live, "dynamic_buffer leaks when the allocation fails");
        count_eval(true, 1);
    }
    H().armed = false;
}
template<typename T> static void dyn_all(std::size_t n) {
    dyn<u::half, T>("half", n, n / 2);
    dyn<u::log, T>("log", n, n ? std::size_t(std::log(n)) : 0);
    dyn<u::sqrt, T>("sqrt", n, n ? std::size_t(std::sqrt(n)) : 0);
    dyn<u::identity, T>("identity", n, n);
    dyn<Zero, T>("zero", n, 0);
    dyn<Frac, T>("frac", n, std::size_t(double(n) * 0.75));
    dyn<Nonconst, T>("nonconst", n, n > 3 ? n - 3 : 0);
    dyn<Twice, T>("twice", n, n ? 2 * n + 1 : 0);
}
template<std::size_t N, typename T> static void fix() {
    for (std::size_t n : {std::size_t(0), std::size_t(1), N, N + 1, std::size_t(1000000), ~std::size_t(0)}) {
        SAY("fixed_buffer<%zu> for %zu elements", N, n);
        count_eval(true, 1);
        H() = Heap(); H().armed = !std::is_same<T, std::string>::value;
        { typename u::fixed_buffer<N>::template buffer<T> b(n); use(b, N); }
        { typename u::fixed_buffer<N>::template buffer<T> b; use(b, N); }
        EXPECT(H().count == 0, "fixed_buffer allocates memory");
        H().armed = false;
        note_behaviour(N * 131 + n);
    }
}
template<std::size_t... I> static void fix_all(std::index_sequence<I...>) {
    int a[] = {(fix<I, int>(), fix<I, Cell>(), 0)...}; (void)a;
    int b[] = {(fix<I * 16 + 15, unsigned char>(), fix<I + 60, std::string>(), 0)...}; (void)b;
}
// policies as functions: every value of small types, boundaries and neighbourhoods of powers of two of the others
template<typename T> static void half_one(T v) {
    count_eval(true, 1);
    SAY("half(%s)", std::to_string(v).c_str());
    const u::half h{};
    auto r = h(v);
    static_assert(std::is_same<decltype(r), decltype(v / 2)>::value, "half keeps the type of the division");
    EXPECT(r == v / 2, "half is not the half");
    EXPECT(h(T(v)) == v / 2, "half of an rvalue is not the half");
    const T c = v;
    EXPECT(u::half{}(c) == v / 2, "half of a constant is not the half");
    note_behaviour(u64(i64(v)));
}
template<typename T> static void logs_one(T v) {
    count_eval(true, 2);
    SAY("log/sqrt(%s)", std::to_string(v).c_str());
    const u::log l{}; const u::sqrt s{};
    const T c = v;
    auto eq = [](auto a, auto b) { static_assert(std::is_same<decltype(a), decltype(b)>::value, "the type of the standard function"); return std::memcmp(&a, &b, sizeof(a) > 10 ? 10 : sizeof(a)) == 0 || a == b; };
    EXPECT(eq(l(v), std::log(v)) && eq(l(T(v)), std::log(v)) && eq(l(c), std::log(v)), "log is not std::log");
    EXPECT(eq(s(v), std::sqrt(v)) && eq(s(T(v)), std::sqrt(v)) && eq(s(c), std::sqrt(v)), "sqrt is not std::sqrt");
    note_behaviour(u64(i64(v)) * 3 + 1);
}
template<typename T, std::enable_if_t<(sizeof(T) < 4), int> = 0> static void policy_job(const char* name) {
    add_job(std::string("half ") + name, u64(1) << (8 * sizeof(T)), [](u64 i) { half_one(T(i64(std::numeric_limits<T>::min()) + i64(i))); });
    add_job(std::string("log sqrt ") + name, u64(std::numeric_limits<T>::max()) + 1, [](u64 i) { logs_one(T(i)); });
}
template<typename T, std::enable_if_t<(sizeof(T) >= 4), int> = 0> static void policy_job(const char* name) {
    add_job(std::string("half ") + name, 8 * sizeof(T), [](u64 b) {
        for (int d = -40; d <= 40; ++d) for (int neg = 0; neg < 2; ++neg) {
            T v = T((u64(1) << b) + u64(i64(d)));
            half_one(neg ? T(u64(0) - u64(v)) : v);
        }
    });
    add_job(std::string("log sqrt ") + name, 8 * sizeof(T), [](u64 b) { for (int d = -40; d <= 40; ++d) { T v = T((u64(1) << b) + u64(i64(d))); if (!(v < T(0))) logs_one(v); } });
}
// perfect squares: sqrt is the floor where the standard function is
static void squares(u64 i) {
    u64 k = i + 1;
    for (int d = -1; d <= 1; ++d) logs_one(std::size_t(k * k + u64(i64(d))));
}
MC_JOBS {
    add_job("fixed_buffer", 1, [](u64) { fix_all(std::make_index_sequence<33>{}); });
    u64 top = thorough() ? 40000 : 5000;
    add_job("dynamic_buffer<int>", top, [](u64 i) { dyn_all<int>(std::size_t(i)); });
    add_job("dynamic_buffer<Cell>", thorough() ? 5000 : 700, [](u64 i) { dyn_all<Cell>(std::size_t(i)); });
    add_job("dynamic_buffer<string>", 300, [](u64 i) { dyn_all<std::string>(std::size_t(i)); });
    add_job("dynamic_buffer powers", thorough() ? 25 : 21, [](u64 b) { for (int d = -3; d <= 3; ++d) { std::size_t n = std::size_t((i64(1) << b) + d); if (i64(n) >= 0) dyn_all<unsigned char>(n); } }, 60);
    policy_job<signed char>("signed char"); policy_job<unsigned char>("unsigned char"); policy_job<short>("short"); policy_job<unsigned short>("unsigned short");
    policy_job<int>("int"); policy_job<unsigned>("unsigned"); policy_job<long>("long"); policy_job<unsigned long>("unsigned long");
    add_job("squares", thorough() ? 200000 : 5000, squares);
    add_job("floating", 2100, [](u64 i) {
        double v = std::ldexp(1.0 + double(i % 7) / 7, int(i) - 1050);
        count_eval(true, 3);
        SAY("%a", v);
        EXPECT(u::half{}(v) == v / 2 && u::half{}(float(v)) == float(v) / 2 && u::half{}((long double)v) == (long double)v / 2, "half is not the half");
        EXPECT(u::log{}(v) == std::log(v) && u::sqrt{}(v) == std::sqrt(v) && u::sqrt{}((long double)v) == std::sqrt((long double)v), "log/sqrt of a floating point value");
        if (std::isfinite(float(v)) && float(v) > 0) EXPECT(u::log{}(float(v)) == std::log(float(v)) && u::sqrt{}(float(v)) == std::sqrt(float(v)), "log/sqrt of a float");
        static_assert(std::is_same<decltype(u::sqrt{}(1.0f)), float>::value && std::is_same<decltype(u::log{}(1.0L)), long double>::value && std::is_same<decltype(u::half{}(1.0f)), float>::value, "");
        note_behaviour(i);
    });
}
#endif

#if PART == 1
// ------------------------------------------------------------------ metric, metrics
struct TagA {}; struct TagB { int freeform = 3; }; struct TagC {};
template<typename T, typename U> static void pair_ops(T a, U b) {
    SAY("metric %s and %s", std::to_string(a).c_str(), std::to_string(b).c_str());
    const u::metric<T, TagA> x(a); const u::metric<U, TagA> y(b);
    const T ta = a; const T tb = T(b);
    count_eval(true, 18);
#define OP(op) do { if ((x op y) != (a op b)) fail("metric " #op " metric is wrong"); if ((x op tb) != (ta op tb)) fail("metric " #op " value is wrong"); if ((tb op x) != (tb op ta)) fail("value " #op " metric is wrong"); \
                    static_assert(std::is_same<decltype(x op y), bool>::value && std::is_same<decltype(x op tb), bool>::value && std::is_same<decltype(tb op x), bool>::value, ""); } while (0)
    OP(==); OP(!=); OP(<); OP(<=); OP(>); OP(>=);
    EXPECT(x.value() == a && static_cast<T>(x) == a, "metric: accessors");
    static_assert(!std::is_convertible<u::metric<T, TagA>, T>::value && !std::is_convertible<T, u::metric<T, TagA>>::value, "metric converts implicitly");
    // assignments
    u::metric<T, TagA> m(T(42));
    auto& r1 = (m = ta); EXPECT(m.value() == a && &r1 == &m, "metric = value");
    auto& r2 = (m = T(tb)); EXPECT(m.value() == tb && &r2 == &m, "metric = rvalue");
    auto& r3 = (m = x); EXPECT(m.value() == a && &r3 == &m, "metric = metric");
    auto& r4 = (m = y); EXPECT(m.value() == T(b) && &r4 == &m && y.value() == b, "metric = metric of another type");
    auto& r5 = (m = u::metric<T, TagA>(ta)); EXPECT(m.value() == a && &r5 == &m, "metric = rvalue metric");
    auto& r6 = (m = u::metric<U, TagA>(b)); EXPECT(m.value() == T(b) && &r6 == &m, "metric = rvalue metric of another type");
    u::metric<T, TagA> cp(x); EXPECT(cp == x && cp.value() == a, "metric copy");
    u::metric<T, TagA> mv(std::move(cp)); EXPECT(mv.value() == a, "metric move");
    note_behaviour(u64(i64(a)) * 1000003 + u64(i64(b)));
}
template<typename M1, typename M2, typename = void> struct comparable : std::false_type {};
template<typename M1, typename M2> struct comparable<M1, M2, decltype(void(std::declval<M1>() == std::declval<M2>()))> : std::true_type {};
template<typename M1, typename M2, typename = void> struct ordered : std::false_type {};
template<typename M1, typename M2> struct ordered<M1, M2, decltype(void(std::declval<M1>() < std::declval<M2>()))> : std::true_type {};
template<typename M> static std::string text(const M& m) { std::ostringstream s; s << m; return s.str(); }
template<typename A, typename B> static void types(const char* name) {
    add_job(name, 23 * 23, [](u64 i) { pair_ops<A, B>(A(i64(i / 23) - (std::is_signed<A>::value ? 11 : 0)), B(i64(i % 23) - (std::is_signed<B>::value ? 11 : 0))); });
}
static void metric_misc(u64) {
    using MI = u::metric<int, TagA>; using MD = u::metric<double, TagA>; using MB = u::metric<int, TagB>; using MS = u::metric<std::string, TagA>;
    static_assert(comparable<MI, MD>::value && comparable<MI, MI>::value && !comparable<MI, MB>::value && !comparable<MB, MD>::value, "metrics with different tags compare");
    static_assert(ordered<MI, MD>::value && !ordered<MI, MB>::value, "metrics with different tags are ordered");
    static_assert(std::is_assignable<MI&, MD>::value && !std::is_assignable<MI&, MB>::value, "metrics with different tags are assignable");
    static_assert(std::is_trivially_copyable<MI>::value && sizeof(MI) == sizeof(int), "");
    constexpr MI k(5); static_assert(k.value() == 5 && k == 5 && k < 6 && !(k != MI(5)) && int(k) == 5, "metric is usable in constant expressions");
    count_eval(true, 10);
    MS a(std::string("abc")), b(std::string("abd"));
    EXPECT(a < b && a != b && a <= b && !(a > b) && b >= a && a == std::string("abc") && std::string("abd") > a, "metric<string> operators");
    EXPECT(text(a) == "abc" && text(MI(-7)) == "-7" && text(MD(2.5)) == "2.5", "metric stream output");
    std::string big(100, 'q');
    MS m(std::move(big)); EXPECT(m.value() == std::string(100, 'q') && big.empty(), "metric is not constructed by moving");
    std::string big2(90, 'r'); m = std::move(big2); EXPECT(m.value() == std::string(90, 'r'), "metric move assignment from a value");
    MS n(std::string("z")); n = std::move(m); EXPECT(n.value() == std::string(90, 'r'), "metric move assignment");
    n = a; EXPECT(n == a && a.value() == "abc", "metric copy assignment");
    u::metric<const char*, TagA> lit("lit"); n = lit; EXPECT(n.value() == "lit", "metric assignment from a metric of another type");
    n = u::metric<const char*, TagA>("tmp"); EXPECT(n.value() == "tmp", "metric assignment from an rvalue metric of another type");
    u::metric<std::nullptr_t, TagC> nul(nullptr); (void)nul;
    EXPECT(MI().value() == 0, "value-initialised metric");
    note_behaviour(1);
}
static void metrics_misc(u64 i) {
    using A = u::metric<int, TagA>; using B = u::metric<double, TagB>; using C = u::metric<std::string, TagC>;
    using std::get;
    int v = int(i % 11) - 5; double d = double(i / 11) - 4.5; std::string s(i % 7, 'k');
    SAY("metrics %d %g %s", v, d, s.c_str());
    count_eval(true, 20);
    u::metrics<A, B, C> mm{A(v), B(d), C(s)};
    const auto& cm = mm;
    EXPECT(get<0>(mm).value() == v && get<1>(mm).value() == d && get<2>(mm).value() == s, "metrics: index access");
    EXPECT(get<TagA>(mm).value() == v && get<TagB>(mm).value() == d && get<TagC>(mm).value() == s, "metrics: tag access");
    EXPECT(get<TagA>(cm).value() == v && get<TagB>(cm).value() == d && get<TagC>(cm).value() == s && get<1>(cm) == d, "metrics: constant access");
    EXPECT(&get<0>(mm) == &get<TagA>(mm) && &get<1>(mm) == &get<TagB>(cm) && &get<2>(cm) == &get<TagC>(mm), "metrics: accessors designate different objects");
    static_assert(std::is_same<decltype(get<TagB>(mm)), B&>::value && std::is_same<decltype(get<1>(cm)), const B&>::value, "");
    static_assert(std::is_same<decltype(get<TagB>(std::move(mm))), B&&>::value && std::is_same<decltype(get<2>(std::move(cm))), const C&&>::value && std::is_same<decltype(get<0>(std::move(mm))), A&&>::value && std::is_same<decltype(get<TagC>(std::move(cm))), const C&&>::value, "");
    get<TagA>(mm) = v + 1; get<1>(mm) = B(d * 2);
    EXPECT(get<0>(mm) == v + 1 && get<TagB>(mm).value() == d * 2, "metrics: assignment through an accessor");
    u::metrics<A, B, C> c1(cm), c2 = mm, c3(mm);
    EXPECT(get<TagA>(c1) == v + 1 && get<TagB>(c2) == get<1>(mm) && get<TagC>(c3).value() == s && get<TagC>(mm).value() == s, "metrics: copy");
    get<TagA>(c1) = 99; EXPECT(get<TagA>(mm) == v + 1, "metrics: a copy shares its values");
    u::metrics<A, B, C> mv(std::move(c2)); EXPECT(get<TagC>(mv).value() == s && get<TagB>(mv) == get<1>(mm), "metrics: move");
    c1 = mm; EXPECT(get<TagA>(c1) == v + 1, "metrics: assignment");
    C out = get<TagC>(std::move(mv)); EXPECT(out.value() == s, "metrics: moving a value out");
    u::metrics<A> one(A{v}); EXPECT(get<TagA>(one) == v && get<0>(one) == v, "metrics of one metric");
    u::metrics<A> one2(one); EXPECT(get<0>(one2) == v, "copy of metrics of one metric");
    u::metrics<A, B, C> def{}; EXPECT(get<0>(def) == 0 && get<2>(def).value().empty(), "metrics: default construction");
    note_behaviour(i);
}
MC_JOBS {
    types<int, int>("int int"); types<int, long>("int long"); types<long, int>("long int"); types<unsigned, unsigned>("unsigned unsigned"); types<unsigned, std::size_t>("unsigned size_t");
    types<std::size_t, unsigned char>("size_t unsigned char"); types<int, double>("int double"); types<double, double>("double double"); types<signed char, short>("char short");
    add_job("metric", 1, metric_misc);
    add_job("metrics", 11 * 10 * 7, metrics_misc);
}
#endif

#if PART == 2
// ------------------------------------------------------------------ size, function objects, adapter_storage, traits
template<typename Base> struct NoSize : private Base {   // a range with only begin() and end()
    using Base::Base; NoSize() = default; NoSize(Base b): Base(std::move(b)) {}
    auto begin() { return Base::begin(); } auto end() { return Base::end(); }
    auto begin() const { return Base::begin(); } auto end() const { return Base::end(); }
};
template<typename Base> struct NonConst : private Base {   // only non-const begin() and end()
    NonConst(Base b): Base(std::move(b)) {}
    auto begin() { return Base::begin(); } auto end() { return Base::end(); }
};
template<typename Base> struct NonConstSize : private Base {   // size() is not callable on constants
    NonConstSize(Base b): Base(std::move(b)) {}
    std::size_t size() { fail("size: a size method that is not const was called"); }
    auto begin() { return Base::begin(); } auto end() { return Base::end(); }
    auto begin() const { return Base::begin(); } auto end() const { return Base::end(); }
};
struct OnlySize { std::size_t n; unsigned short size() const { return (unsigned short)n; } };   // the size method is used
template<typename C> static void size_of_kind(const char* who, std::size_t n) {
    SAY("size of %s, n=%zu", who, n);
    C c{}; for (std::size_t i = 0; i < n; ++i) c.insert(c.begin(), typename C::value_type());
    const C& cc = c;
    count_eval(true, 1);
    if (std::size_t(u::size(c)) != n || std::size_t(u::size(cc)) != n || std::size_t(u::size(std::move(c))) != n) fail("size of %s is wrong", who);
    static_assert(std::is_same<decltype(u::size(c)), decltype(c.size())>::value, "");
    NoSize<C> v(c); const NoSize<C>& cv = v;
    if (std::size_t(u::size(v)) != n || std::size_t(u::size(cv)) != n || std::size_t(u::size(NoSize<C>(c))) != n) fail("size of a range without size() is wrong");
    NonConst<C> w(c); if (std::size_t(u::size(w)) != n) fail("size of a range with non-const begin() and end() is wrong");
    NonConstSize<C> x(c); if (std::size_t(u::size(x)) != n) fail("size of a range with a non-const size() is wrong");
    note_behaviour(n * 17 + sizeof(C));
}
template<std::size_t N> static void size_arrays() {
    SAY("size of an array of %zu", N);
    count_eval(true, 1);
    int a[N] = {}; const int b[N] = {}; static short c[N][3]; std::array<int, N> d{}; const std::string e[N] = {};
    if (std::size_t(u::size(a)) != N || std::size_t(u::size(b)) != N || std::size_t(u::size(c)) != N || std::size_t(u::size(d)) != N || std::size_t(u::size(e)) != N) fail("size of an array is wrong");
    static constexpr int k[N] = {}; static_assert(u::size(k) == N, "size of a constant array is not a constant");
    note_behaviour(N);
}
template<std::size_t... I> static void size_arrays_all(std::index_sequence<I...>) { int a[] = {(size_arrays<I + 1>(), 0)...}; (void)a; }
static void size_job(u64 n) {
    size_of_kind<std::vector<int>>("vector", n); size_of_kind<std::deque<int>>("deque", n); size_of_kind<std::list<int>>("list", n); size_of_kind<std::string>("string", n); size_of_kind<std::vector<bool>>("vector<bool>", n);
    std::forward_list<int> f(n); const auto& cf = f;
    EXPECT(std::size_t(u::size(f)) == n && std::size_t(u::size(cf)) == n && std::size_t(u::size(std::forward_list<int>(n))) == n, "size of a forward_list is wrong");
    EXPECT(u::size(OnlySize{n}) == n, "size does not use the size method");
    count_eval(true, 3);
    if (n == 1) size_arrays_all(std::make_index_sequence<24>{});
}
// ---- identity, indirect, as_function, function_constant
struct S { int a, b; int geta() const { return a; } int addb(int k) { b += k; return b; } int rv() && { return a * 2; } bool before(const S& o) const { return a < o.a; } int vol() volatile { return a; } };
struct T : S {};
static int twice_f(int x) { return 2 * x; }
static int twice_n(int x) noexcept { return 2 * x; }
static bool less_f(int a, int b) { return a < b; }
struct Fn { int k; int operator()(int x) & { return x + k; } int operator()(int x) const& { return x + k + 100; } int operator()(int x) && { return x + k + 200; } int operator()(int x) const&& { return x + k + 300; } };
struct MoveOnlyFn { std::unique_ptr<int> p; int operator()(int x) const { return x + *p; } };
static void functions(u64 i) {
    int v = int(i) - 25;
    SAY("function objects, v=%d", v);
    count_eval(true, 40);
    const u::identity id{};
    int x = v; const int cx = v;
    EXPECT(&id(x) == &x && &id(cx) == &cx, "identity does not return its argument");
    int&& rx = id(std::move(x)); EXPECT(&rx == &x, "identity does not return its rvalue argument");
    static_assert(std::is_same<decltype(id(x)), int&>::value && std::is_same<decltype(id(cx)), const int&>::value && std::is_same<decltype(id(std::move(x))), int&&>::value && std::is_same<decltype(id(std::move(cx))), const int&&>::value && noexcept(id(x)), "identity: value categories");
    std::unique_ptr<int> up(new int(v)); auto up2 = id(std::move(up)); EXPECT(!up && *up2 == v, "identity does not forward");
    static_assert(std::is_base_of<u::projection_base, u::identity>::value && std::is_base_of<u::projection_base, u::indirect>::value && std::is_base_of<u::projection_base, u::half>::value && std::is_base_of<u::projection_base, u::log>::value && std::is_base_of<u::projection_base, u::sqrt>::value, "");
    using tr1 = u::identity::is_transparent; using tr2 = u::half::is_transparent; using tr3 = u::log::is_transparent; using tr4 = u::sqrt::is_transparent; (void)sizeof(tr1*); (void)sizeof(tr2*); (void)sizeof(tr3*); (void)sizeof(tr4*);
    // indirect
    u::indirect ind; const u::indirect cind{};
    EXPECT(&ind(&x) == &x && &cind(&x) == &x, "indirect of a pointer");
    EXPECT(&cind(up2) == up2.get(), "indirect of a smart pointer");
    std::vector<bool> vb(3); vb[1] = true; EXPECT(cind(vb.begin() + 1) && !ind(vb.begin()), "indirect of a proxy iterator");
    std::list<int> l{v}; EXPECT(&ind(l.begin()) == &l.front() && &cind(l.cbegin()) == &l.front(), "indirect of a list iterator");
    static_assert(std::is_same<decltype(ind(std::declval<int*&>())), int&>::value && std::is_same<decltype(cind(std::declval<const int*>())), const int&>::value, "");
    auto mi = std::make_move_iterator(l.begin()); static_assert(std::is_same<decltype(cind(mi)), int&&>::value, "");
    // as_function
    S s{v, v + 1}; const S cs{v, v + 2}; T t; t.a = v + 3; t.b = 7;
    auto&& pa = u::as_function(&S::a);
    EXPECT(&pa(s) == &s.a && &pa(cs) == &cs.a && &pa(&s) == &s.a && pa(t) == v + 3 && pa(S{5, 6}) == 5, "as_function(pointer to data member)");
    auto pmd = &S::b; const auto cpmd = &S::b;
    EXPECT(u::as_function(pmd)(s) == v + 1 && u::as_function(cpmd)(cs) == v + 2, "as_function(lvalue pointer to data member)");
    pa(s) = 3; EXPECT(s.a == 3, "as_function(pointer to data member) does not return a reference"); s.a = v;
    EXPECT(u::as_function(&S::geta)(s) == v && u::as_function(&S::geta)(cs) == v && u::as_function(&S::geta)(&cs) == v && u::as_function(&S::addb)(s, 4) == v + 5 && u::as_function(&S::rv)(S{4, 0}) == 8 && u::as_function(&S::before)(cs, S{v + 1, 0}) && u::as_function(&S::vol)(s) == v, "as_function(pointer to member function)");
    EXPECT(u::as_function(twice_f)(v) == 2 * v && u::as_function(&twice_f)(v) == 2 * v, "as_function(function)");
    Fn f{1}; const Fn cf{2};
    EXPECT(&u::as_function(f) == &f && &u::as_function(cf) == &cf, "as_function copies function objects");
    static_assert(std::is_same<decltype(u::as_function(f)), Fn&>::value && std::is_same<decltype(u::as_function(cf)), const Fn&>::value, "as_function: value categories");
    EXPECT(u::as_function(f)(v) == v + 1 && u::as_function(cf)(v) == v + 102 && u::as_function(Fn{3})(v) == v + 203, "as_function(function object)");
    MoveOnlyFn mo{std::unique_ptr<int>(new int(9))}; EXPECT(u::as_function(mo)(v) == v + 9 && u::as_function(std::move(mo))(v) == v + 9, "as_function(move-only function object)");
    auto lam = [&](int k) { return k - v; }; EXPECT(u::as_function(lam)(5) == 5 - v, "as_function(lambda)");
    std::function<int(int)> sf = twice_f; EXPECT(u::as_function(sf)(v) == 2 * v && &u::as_function(sf) == &sf, "as_function(std::function)");
    std::reference_wrapper<Fn> rw(f); EXPECT(u::as_function(rw)(v) == v + 1, "as_function(reference_wrapper)");
    // static_const
    EXPECT(&u::static_const<u::identity>::value == &u::static_const<u::identity>::value, "static_const has several addresses");
    EXPECT(u::static_const<u::half>::value(v) == v / 2, "static_const");
    note_behaviour(i);
#ifdef __cpp_nontype_template_parameter_auto
    constexpr u::function_constant<&S::a> fa{}; constexpr u::function_constant<&S::geta> fg{}; constexpr u::function_constant<twice_f> ff{}; constexpr u::function_constant<twice_n> fn{}; constexpr u::function_constant<less_f> fl{}; constexpr u::function_constant<&S::before> fb{};
    EXPECT(&fa(s) == &s.a && &fa(cs) == &cs.a && fa(&s) == v && fg(s) == v && fg(&cs) == v && ff(v) == 2 * v && fn(v) == 2 * v && fl(v, v + 1) && !fl(v, v) && fb(s, S{v + 1, 0}) && !fb(s, cs), "function_constant call");
    EXPECT(u::function_constant<&S::addb>{}(s, 2) == v + 7 && s.b == v + 7, "function_constant of a non-const member function");
    static_assert(std::is_same<decltype(fa(s)), int&>::value && std::is_same<decltype(fa(cs)), const int&>::value, "function_constant: value categories");
    static_assert(std::is_empty_v<decltype(fa)> && std::is_empty_v<decltype(ff)>, "function_constant is not empty");
    static_assert(std::is_same_v<decltype(ff)::value_type, int (*)(int)> && std::is_same_v<decltype(fa)::value_type, int S::*>, "");
    static_assert(noexcept(fn(1)) && !noexcept(ff(1)), "function_constant: noexcept");
    int (*pf)(int) = ff; int S::* pm = fa; EXPECT(pf == twice_f && pm == &S::a && decltype(ff)::value == twice_f && decltype(fg)::value == &S::geta, "function_constant conversions");
    static_assert(!std::is_invocable_v<decltype(ff), std::string> && !std::is_invocable_v<decltype(fl), int> && std::is_invocable_v<decltype(fl), int, int>, "function_constant: constraints");
    (void)fn; (void)fb;
#endif
}
// ---- branchless traits: the whole table of comparisons x types x qualifications
struct Mine { int v; };
struct MyLess { template<typename A, typename B> bool operator()(const A&, const B&) const { return false; } };
struct MyProj { template<typename A> int operator()(const A&) const { return 0; } };
enum Enum { e0 }; enum class EnumC { e0 };
namespace cppsort { namespace utility {
    template<> struct is_probably_branchless_comparison<std::less<>, Mine> : std::true_type {};
    template<> struct is_probably_branchless_comparison<MyLess, Mine> : std::true_type {};
    template<> struct is_probably_branchless_projection<MyProj, Mine> : std::true_type {};
}}
template<typename C, typename X> struct want_cmp : yes<false> {};
template<typename X> struct want_cmp<std::less<>, X> : yes<std::is_arithmetic<X>::value> {};
template<typename X> struct want_cmp<std::greater<>, X> : yes<std::is_arithmetic<X>::value> {};
template<typename X> struct want_cmp<std::less<X>, X> : yes<std::is_arithmetic<X>::value> {};
template<typename X> struct want_cmp<std::greater<X>, X> : yes<std::is_arithmetic<X>::value> {};
template<> struct want_cmp<std::less<>, Mine> : yes<true> {};
template<> struct want_cmp<MyLess, Mine> : yes<true> {};
#ifdef __cpp_lib_ranges
template<typename X> struct want_cmp<std::ranges::less, X> : yes<std::is_arithmetic<X>::value> {};
template<typename X> struct want_cmp<std::ranges::greater, X> : yes<std::is_arithmetic<X>::value> {};
#endif
template<typename P, typename X> struct want_proj : yes<std::is_member_object_pointer<P>::value> {};
template<typename X> struct want_proj<u::identity, X> : yes<true> {};
template<> struct want_proj<MyProj, Mine> : yes<true> {};
template<typename X> struct want_proj<decltype(std::mem_fn(&S::a)), X> : yes<true> {};
#if CPPSORT_STD_IDENTITY_AVAILABLE
template<typename X> struct want_proj<std::identity, X> : yes<true> {};
#endif
#ifdef __cpp_nontype_template_parameter_auto
template<typename X> struct want_proj<u::function_constant<&S::a>, X> : yes<true> {};
#endif
template<typename F, typename X, template<typename, typename> class Trait, bool V> static void one_trait(bool want, const char* what) {
    count_eval(true, 1);
    using TT = Trait<F, X>;
    static_assert(std::is_base_of<std::true_type, TT>::value || std::is_base_of<std::false_type, TT>::value, "the trait inherits from true_type or false_type");
    if (TT::value != want || V != want) { desc().text = __PRETTY_FUNCTION__; fail("%s is %s, %s expected", what, TT::value ? "true" : "false", want ? "true" : "false"); }
    note_behaviour(u64(TT::value) + 2 * std::hash<std::string>()(__PRETTY_FUNCTION__));
}
template<typename C, typename X> using tcmp = u::is_probably_branchless_comparison<C, X>;
template<typename C, typename X> using tprj = u::is_probably_branchless_projection<C, X>;
template<typename C0, typename X0, typename C, typename X> static void both() {
    one_trait<C, X, u::is_probably_branchless_comparison, u::is_probably_branchless_comparison_v<C, X>>(want_cmp<C0, X0>::value, "is_probably_branchless_comparison");
    one_trait<C, X, u::is_probably_branchless_projection, u::is_probably_branchless_projection_v<C, X>>(want_proj<C0, X0>::value, "is_probably_branchless_projection");
}
template<typename C0, typename X0, typename C> static void quals_x() { both<C0, X0, C, X0>(); both<C0, X0, C, const X0>(); both<C0, X0, C, X0&>(); both<C0, X0, C, const X0&>(); both<C0, X0, C, X0&&>(); both<C0, X0, C, volatile X0>(); both<C0, X0, C, const volatile X0&>(); }
template<typename C0, typename X0> static void quals(yes<false>) { both<C0, X0, C0, X0>(); both<C0, X0, const C0&, X0&>(); }
template<typename C0, typename X0> static void quals(yes<true>) { quals_x<C0, X0, C0>(); quals_x<C0, X0, const C0>(); quals_x<C0, X0, C0&>(); quals_x<C0, X0, const C0&>(); quals_x<C0, X0, C0&&>(); quals_x<C0, X0, volatile C0>(); }
template<typename C0, typename... Xs> static void row() { int a[] = {(quals<C0, Xs>(yes<std::is_same<Xs, int>::value || std::is_same<Xs, Mine>::value>()), 0)...}; (void)a; }
template<typename... Cs> static void table() {
    int a[] = {(row<Cs, int, unsigned char, bool, double, long double, char, Enum, EnumC, std::string, int*, Mine, S>(), 0)...}; (void)a;
}
static void traits(u64) {
    table<std::less<>, std::greater<>, std::less<int>, std::less<double>, std::less<std::string>, std::less<int*>, std::greater<int>, std::greater<bool>, std::less_equal<>, std::equal_to<>, MyLess, bool (*)(int, int),
          u::identity, MyProj, int S::*, int (S::*)() const, decltype(std::mem_fn(&S::a)), decltype(std::mem_fn(&S::geta)), int (*)(S), std::plus<>, u::indirect, u::half
#ifdef __cpp_lib_ranges
          , std::ranges::less, std::ranges::greater, std::ranges::less_equal
#endif
#if CPPSORT_STD_IDENTITY_AVAILABLE
          , std::identity
#endif
#ifdef __cpp_nontype_template_parameter_auto
          , u::function_constant<&S::a>, u::function_constant<&S::geta>, u::function_constant<less_f>
#endif
          >();
}
// ---- adapter_storage
struct Empty { template<typename X> int operator()(X&& x) const { return int(x) + 1; } int operator()(int a, int b) const { return a * b; } };
struct EmptyNoDefault { explicit EmptyNoDefault(int) {} int operator()(int x) const { return x + 2; } };
struct Stateful {
    int k; mutable int calls = 0; explicit Stateful(int k_ = 5): k(k_) {}
    int operator()(int x) { ++calls; return x + k; } int operator()(int x) const { ++calls; return x - k; }
};
struct MoveOnly { std::unique_ptr<int> p; MoveOnly() = default; explicit MoveOnly(int x): p(new int(x)) {} int operator()(int x) const { return x * *p; } };
static void storage(u64 i) {
    int v = int(i) - 20;
    SAY("adapter_storage, v=%d", v);
    count_eval(true, 20);
    {
        using A = u::adapter_storage<Empty>;
        static_assert(std::is_empty<A>::value && std::is_default_constructible<A>::value, "adapter_storage of an empty sorter is not empty");
        Empty e; A a, b(e), c(Empty{}); const A ca(e);
        EXPECT(a(v) == v + 1 && b(v, 3) == 3 * v && c(short(v)) == v + 1 && ca(v) == v + 1, "adapter_storage<empty>: call");
        static_assert(std::is_same<std::decay_t<decltype(a.get())>, Empty>::value && std::is_same<std::decay_t<decltype(ca.get())>, Empty>::value, "");
        EXPECT(a.get()(v) == v + 1 && ca.get()(v) == v + 1 && A{}.get()(v) == v + 1, "adapter_storage<empty>: get");
    }
    {
        using A = u::adapter_storage<EmptyNoDefault>;
        A a(EmptyNoDefault(1)); const A ca(EmptyNoDefault(2));
        EXPECT(a(v) == v + 2 && ca(v) == v + 2 && a.get()(v) == v + 2 && ca.get()(v) == v + 2, "adapter_storage<empty, not default-constructible>");
        static_assert(!std::is_default_constructible<A>::value, "");
    }
    {
        using A = u::adapter_storage<Stateful>;
        Stateful st(v); A a(st), d; const A ca(Stateful(v + 1)); const A cc(a);
        static_assert(std::is_same<decltype(a.get()), Stateful&>::value && std::is_same<decltype(ca.get()), const Stateful&>::value && std::is_same<decltype(std::move(a).get()), Stateful&&>::value && std::is_same<decltype(std::move(ca).get()), const Stateful&&>::value, "adapter_storage::get: qualifications");
        EXPECT(a.get().k == v && ca.get().k == v + 1 && cc.get().k == v && d.get().k == 5, "adapter_storage: stored sorter");
        EXPECT(ca(3) == 3 - (v + 1) && ca.get().calls == 1, "adapter_storage: call on a constant");
        int r = a(3); EXPECT((r == 3 + v) && a.get().calls == 1, "adapter_storage: the call does not reach the stored sorter");
        a.get().k = 77; EXPECT(static_cast<const A&>(a)(1) == 1 - 77 && cc.get().k == v && st.k == v && st.calls == 0, "adapter_storage: get does not designate the stored sorter");
        EXPECT(&a.get() == &static_cast<const A&>(a).get(), "adapter_storage::get designates different objects");
    }
    {
        using A = u::adapter_storage<MoveOnly>;
        A a(MoveOnly(3)); const A b(std::move(a));
        EXPECT(b(v) == 3 * v && b.get()(v) == 3 * v, "adapter_storage of a move-only sorter");
        A c(MoveOnly(4)); MoveOnly m = std::move(c).get(); EXPECT(m(v) == 4 * v, "adapter_storage: moving the sorter out");
    }
    {
        using A = u::adapter_storage<int (*)(int)>;
        const A a(&twice_f); EXPECT(a(v) == 2 * v && a.get() == &twice_f, "adapter_storage of a function pointer");
    }
    note_behaviour(i);
}
MC_JOBS {
    add_job("size", 60, size_job);
    add_job("functions", 50, functions);
    add_job("traits", 1, traits);
    add_job("adapter_storage", 40, storage);
}
#endif

#if PART == 3
// ------------------------------------------------------------------ swap_index_pairs, integer ranges
struct Cnt { u64* c; bool operator()(const Elem& a, const Elem& b) { ++*c; a.check_alive("compare"); b.check_alive("compare"); return a.key < b.key; } };
struct Mod { int* c; int operator()(const Elem& e) { ++*c; return e.key % 2; } };
struct Rec { int a, b; };
// networks of N comparators over W wires enumerated in base W*(W-1): the pairs may go either way
template<std::size_t N, typename I> static std::array<u::index_pair<I>, N> network(u64 idx, int w) {
    std::array<u::index_pair<I>, N> p{};
    for (std::size_t i = 0; i < N; ++i) {
        u64 k = idx % u64(w * (w - 1)); idx /= u64(w * (w - 1));
        int a = int(k) / (w - 1), b = int(k) % (w - 1); if (b >= a) ++b;
        p[i].first = I(a); p[i].second = I(b);
    }
    return p;
}
static u64 ipow(u64 a, u64 b) { u64 r = 1; while (b--) r *= a; return r; }
template<typename T, typename Pairs, typename F> static void ref_apply(T* x, const Pairs& p, F before) { for (auto& q : p) if (before(x[int(q.second)], x[int(q.first)])) std::swap(x[int(q.first)], x[int(q.second)]); }
template<bool U> struct call {
    template<typename... A> static void go(A&&... a) { u::swap_index_pairs(std::forward<A>(a)...); }
};
template<> struct call<true> { template<typename... A> static void go(A&&... a) { u::swap_index_pairs_force_unroll(std::forward<A>(a)...); } };
template<std::size_t N, typename I, bool U> static void net_case(u64 idx, int w) {
    const auto p = network<N, I>(idx, w);
    char b[160]; int o = snprintf(b, sizeof b, "%s, %d wires:", U ? "swap_index_pairs_force_unroll" : "swap_index_pairs", w);
    for (auto& q : p) o += snprintf(b + o, sizeof b - std::size_t(o), " %d-%d", int(q.first), int(q.second));
    desc().text = b;
    u64 all = ipow(u64(w), u64(w));
    Arr<Elem> arr;
    for (u64 in = 0; in < all; ++in) {
        int x[5]; u64 t = in; for (int i = 0; i < w; ++i) { x[i] = int(t % u64(w)); t /= u64(w); }
        desc().keys = x; desc().n = w;
        int r[5], y[5]; std::copy(x, x + w, r); ref_apply(r, p, [](int a, int c) { return a < c; });
        int g[5]; std::copy(x, x + w, g); ref_apply(g, p, [](int a, int c) { return a > c; });
        auto same = [&](const int* a, const int* c, const char* what) { for (int i = 0; i < w; ++i) if (a[i] != c[i]) fail("%s: result %d %d %d..., %d %d %d... expected", what, a[0], a[1], w > 2 ? a[2] : 0, c[0], c[1], w > 2 ? c[2] : 0); };
        count_eval(true, N * 8);
        std::copy(x, x + w, y); call<U>::go(y, p); same(y, r, "int");
        std::copy(x, x + w, y); call<U>::go(y, p, std::less<>{}); same(y, r, "int, less");
        std::copy(x, x + w, y); call<U>::go(y, p, std::greater<>{}); same(y, g, "int, greater");
        std::copy(x, x + w, y); call<U>::go(y, p, [](int a, int c) { return a < c; }, [](int a) { return -a; }); same(y, g, "int, lambda, projection");
        { double d[5]; for (int i = 0; i < w; ++i) d[i] = x[i] == 1 ? (i % 2 ? -0.0 : 0.0) : x[i] - 1; double e[5]; std::copy(d, d + w, e); ref_apply(e, p, [](double a, double c) { return a < c; });
          call<U>::go(d, p); for (int i = 0; i < w; ++i) if (d[i] != e[i]) fail("double: wrong result");
          int nz = 0, ne = 0; for (int i = 0; i < w; ++i) { nz += std::signbit(d[i]); ne += std::signbit(e[i]); } if (nz != ne) fail("double: a zero changed its sign"); }
        { std::deque<unsigned char> q(x, x + w); call<U>::go(q.begin(), p); for (int i = 0; i < w; ++i) y[i] = q[std::size_t(i)]; same(y, r, "deque<unsigned char>"); }
        {   // pointer to member comparator and projection, values that must move with their companions
            Rec s[5], e[5]; for (int i = 0; i < w; ++i) e[i] = s[i] = Rec{x[i], i};
            ref_apply(e, p, [](const Rec& a, const Rec& c) { return a.a < c.a; });
            call<U>::go(s, p, std::less<>{}, &Rec::a);
            for (int i = 0; i < w; ++i) if (s[i].a != e[i].a || s[i].b != e[i].b) fail("struct, pointer to member: wrong result (equivalent elements must not be exchanged)");
        }
        {   // move-only elements, stateful non-const comparator: exactly one comparison per pair
            W().reset(); u64 c = 0;
            arr.fill(x, w); arr.arm();
            call<U>::go(arr.template begin<2>(), p, Cnt{&c});
            for (int i = 0; i < w; ++i) { arr.d[i].check_alive("swap_index_pairs"); if (arr.d[i].key != r[i]) fail("move-only elements: wrong result"); }
            if (c != N) fail("%d comparisons for %d pairs", int(c), int(N));
        }
        note_behaviour(in * 7919 + idx * 31 + N * 5 + U);
    }
    desc().keys = nullptr;
}
template<std::size_t N, typename I, bool U> static void nets(const char* name, int w) {
    add_job(std::string(name) + " N=" + std::to_string(N) + " W=" + std::to_string(w), ipow(u64(w * (w - 1)), N), [w](u64 i) { net_case<N, I, U>(i, w); });
}
// integer ranges: compile-time programs
template<typename I, I... N> static std::vector<long long> list(std::integer_sequence<I, N...>) { return {static_cast<long long>(N)...}; }
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
template<typename I, long long B, long long E, long long S> static void range_one(const char* name) {
    SAY("make_integer_range<%s, %lld, %lld, %lld>", name, B, E, S);
    count_eval(true, 1);
    std::vector<long long> w;
    if (B < E) for (long long k = B; k < E; k += S) w.push_back(k); else for (long long k = B; k > E; k -= S) w.push_back(k);
    using R = u::make_integer_range<I, I(B), I(E), I(S)>;
    static_assert(std::is_same<typename R::value_type, I>::value, "value_type");
    if (list(R{}) != w) fail("make_integer_range gives %zu values, %zu expected", list(R{}).size(), w.size());
    note_behaviour(u64(B * 10007 + E * 101 + S));
}
template<typename I, long long Lo, int W, std::size_t K> static void range_k(const char* name) { range_one<I, Lo + (long long)(K / 4 / W), Lo + (long long)(K / 4 % W), 1 + (long long)(K % 4)>(name); }
template<typename I, long long Lo, int W, std::size_t... K> static void ranges(const char* name, std::index_sequence<K...>) { int a[] = {(range_k<I, Lo, W, K>(name), 0)...}; (void)a; }
static void range_job(u64) {
    ranges<int, -4, 9>("int", std::make_index_sequence<9 * 9 * 4>{});
    ranges<unsigned, 0, 7>("unsigned", std::make_index_sequence<7 * 7 * 4>{});
    ranges<signed char, 118, 9>("signed char", std::make_index_sequence<9 * 9 * 4>{});
    ranges<std::size_t, 3, 6>("size_t", std::make_index_sequence<6 * 6 * 4>{});
    count_eval(true, 1);
    if (list(u::make_index_range<2, 9, 3>{}) != std::vector<long long>{2, 5, 8} || list(u::make_index_range<5, 5>{}).size() || list(u::make_integer_range<int, 3, 0>{}) != std::vector<long long>{3, 2, 1}) fail("make_index_range");
}
MC_JOBS {
    bool t = thorough();
    nets<0, int, false>("loop", 3); nets<1, int, false>("loop", 2); nets<1, std::size_t, false>("loop", 4); nets<2, unsigned char, false>("loop", 4); nets<3, std::ptrdiff_t, false>("loop", 3);
    nets<0, int, true>("unroll", 3); nets<1, int, true>("unroll", 2); nets<1, std::size_t, true>("unroll", 4); nets<2, unsigned char, true>("unroll", 4); nets<3, std::ptrdiff_t, true>("unroll", 3);
    nets<3, int, false>("loop", 4); nets<3, int, true>("unroll", 4);
    if (t) { nets<4, int, false>("loop", 3); nets<4, int, true>("unroll", 3); }
    add_job("integer ranges", 1, range_job);
}
#endif
