// C25: total, weak and partial order comparators.
#include "spaces.hpp"
#include <cmath>
#include <limits>
#include <cpp-sort/comparators/partial_greater.h>
#include <cpp-sort/comparators/partial_less.h>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/grail_sorter.h>
using namespace mc;

// ------------------------------------------------------------------ alphabets of floating point values
template<typename F> struct Bits;
template<> struct Bits<float> { using U = u32; enum { M = 23, X = 8 }; };
template<> struct Bits<double> { using U = u64; enum { M = 52, X = 11 }; };
template<typename F> static const std::vector<F>& alphabet() {
    static std::vector<F> v;
    if (!v.empty()) return v;
    using U = typename Bits<F>::U;
    const int M = Bits<F>::M; const U xmax = (U(1) << Bits<F>::X) - 1, mmax = (U(1) << M) - 1, half = U(1) << (M - 1);
    std::vector<U> xs{0, 1, 2, 3, xmax / 2 - 1, xmax / 2, xmax / 2 + 1, xmax / 2 + U(M), xmax - 2, xmax - 1, xmax}, ms{0, 1, 2, 3, half - 1, half, half + 1, mmax - 1, mmax};
    if (thorough()) for (U x = 4; x < 12; ++x) xs.push_back(x), ms.push_back(x), xs.push_back(xmax - x), ms.push_back(mmax - x), ms.push_back(half + x);
    if (thorough()) for (int b = 4; b < M; b += 3) ms.push_back(U(1) << b), ms.push_back((U(1) << b) | 1);
    for (U x : xs) for (U m : ms) for (U s = 0; s < 2; ++s) {
        U u = s << (M + Bits<F>::X) | x << M | m; F f; std::memcpy(&f, &u, sizeof f); v.push_back(f);
    }
    return v;
}
template<> const std::vector<long double>& alphabet<long double>() {
    static std::vector<long double> v;
    if (!v.empty()) return v;
    auto raw = [](u64 sx, u64 m) { long double f = 0; unsigned char b[sizeof f] = {}; std::memcpy(b, &m, 8); b[8] = (unsigned char)sx; b[9] = (unsigned char)(sx >> 8); std::memcpy(&f, b, sizeof b); return f; };
    const u64 one = 1ull << 63;
    for (u64 s = 0; s < 2; ++s) for (u64 x : {0ull, 1ull, 2ull, 3ull, 16382ull, 16383ull, 16384ull, 16383ull + 63, 32764ull, 32765ull, 32766ull, 32767ull})
        for (u64 m : std::vector<u64>{0, 1, 2, (one >> 1) - 1, one >> 1, (one >> 1) + 1, one - 2, one - 1}) v.push_back(raw(s << 15 | x, x == 0 ? m : one | m));
    return v;
}
// reference: rank as a lexicographic key
template<typename F> static bool ref_less(F a, F b, bool total) {
    auto cls = [](F f) { bool s = std::signbit(f); return std::isnan(f) ? (s ? -2 : 2) : std::isinf(f) ? (s ? -1 : 1) : 0; };
    int ca = cls(a), cb = cls(b);
    if (ca || cb) return ca < cb;
    if (total && a == 0 && b == 0) return std::signbit(a) && !std::signbit(b);
    return a < b;
}
template<typename T> static std::string show(T a) { char b[64]; snprintf(b, sizeof b, "%.22Lg", (long double)a); return b; }
#define AGREE(what, got, want) do { bool g_ = (got); if (g_ != (want)) fail("%s(%s, %s) is %s", what, show(a).c_str(), show(b).c_str(), g_ ? "true" : "false"); } while (0)
template<typename F> static void floats(const char* type) {
    u64 n = alphabet<F>().size();
    add_job(std::string(type) + "/pairs", n, [n](u64 i) {
        const auto& v = alphabet<F>();
        const F a = v[i];
        for (u64 j = 0; j < n; ++j) {
            F b = v[j];
            bool t = ref_less(a, b, true), w = ref_less(a, b, false), tr = ref_less(b, a, true), wr = ref_less(b, a, false);
            AGREE("total_less", cppsort::total_less(a, b), t); AGREE("total_greater", cppsort::total_greater(a, b), tr);
            AGREE("weak_less", cppsort::weak_less(a, b), w); AGREE("weak_greater", cppsort::weak_greater(a, b), wr);
            AGREE("partial_less", cppsort::partial_less(a, b), a < b); AGREE("partial_greater", cppsort::partial_greater(a, b), a > b);
            // as objects, with temporaries, flipped
            AGREE("total_less_t", cppsort::total_less_t{}(F(a), F(b)), t); AGREE("total_greater_t", cppsort::total_greater_t{}(F(a), b), tr);
            AGREE("weak_less_t", cppsort::weak_less_t{}(F(a), F(b)), w); AGREE("weak_greater_t", cppsort::weak_greater_t{}(a, F(b)), wr);
            AGREE("partial_less_t", cppsort::partial_less_t{}(F(a), b), a < b); AGREE("partial_greater_t", cppsort::partial_greater_t{}(F(a), F(b)), a > b);
            AGREE("flip(total_less)", cppsort::flip(cppsort::total_less)(a, b), tr); AGREE("flip(weak_greater)", cppsort::flip(cppsort::weak_greater)(a, b), w);
            // the reference itself: antisymmetric, total unless both are NaNs of the same sign or equal
            if (t && tr) fail("reference broken");
            if (t || tr) note_behaviour(i * 4099 + j);
        }
        count_eval(true, n * 14);
    });
    // axioms on the results themselves, over all triples of a subset
    add_job(std::string(type) + "/triples", n, [n](u64 i) {
        const auto& v = alphabet<F>();
        std::vector<F> s; for (u64 k = 0; k < n; k += (n > 240 ? n / 120 : 2)) s.push_back(v[k]);
        F a = v[i];
        auto axioms = [&](const char* name, auto less) {
            if (less(a, a)) fail("%s(%s, itself)", name, show(a).c_str());
            for (F b : s) {
                bool ab = less(a, b), ba = less(b, a);
                if (ab && ba) fail("%s is not asymmetric for %s, %s", name, show(a).c_str(), show(b).c_str());
                for (F c : s) {
                    if (ab && less(b, c) && !less(a, c)) fail("%s is not transitive: %s, %s, %s", name, show(a).c_str(), show(b).c_str(), show(c).c_str());
                    if (!ab && !ba && less(a, c) != less(b, c)) fail("%s: equivalence is not transitive: %s, %s, %s", name, show(a).c_str(), show(b).c_str(), show(c).c_str());
                }
            }
        };
        axioms("total_less", cppsort::total_less); axioms("total_greater", cppsort::total_greater);
        axioms("weak_less", cppsort::weak_less); axioms("weak_greater", cppsort::weak_greater);
        count_eval(true, s.size() * s.size() * 8);
    });
    // what they are for: sorting sequences that contain NaNs
    std::vector<Space> sp{weak_orders(4), weak_orders(5), perms(6), words(4, 5), shapes(30), linear_mod_few(61, 61, 19), inversive_mod(127, 127, 30, 12)};
    add_space_jobs(std::string(type) + "/sorts", sp, [n](const Input& in) {
        const auto& v = alphabet<F>();
        for (u64 off : {u64(0), n / 3, n / 2}) {
            std::vector<F> x, y;
            for (int i = 0; i < in.n; ++i) x.push_back(v[(off + u64(in[i]) * (n / 12 + 1) + n) % n]);
            y = x;
            cppsort::pdq_sort(x, cppsort::total_less);
            for (int i = 1; i < in.n; ++i) if (ref_less(x[i], x[i - 1], true)) fail("not sorted with total_less");
            cppsort::merge_sort(y.begin(), y.end(), cppsort::weak_greater);
            for (int i = 1; i < in.n; ++i) if (ref_less(y[i - 1], y[i], false)) fail("not sorted with weak_greater");
        }
        count_eval(true, 6);
    });
}
// ------------------------------------------------------------------ integers
template<typename I> static void ints(const char* type) {
    static std::vector<I> v;
    using L = std::numeric_limits<I>;
    if (sizeof(I) == 1) { v.clear(); for (int x = 0; x < 256; ++x) if (!std::is_same<I, bool>::value || x < 2) v.push_back(I(x)); }
    else {
        v = {I(0), I(1), I(2), I(3), L::max(), I(L::max() - 1), I(L::max() - 2), L::min(), I(L::min() + 1), I(L::min() + 2), I(L::max() / 2), I(L::max() / 2 + 1), I(L::min() / 2), I(-1), I(-2), I(-3)};
        for (int b = 2; b < int(sizeof(I) * 8) - 1; ++b) for (int d = -1; d < 2; ++d) v.push_back(I((I(1) << b) + I(d))), v.push_back(I(I(0) - (I(1) << b) + I(d)));
    }
    add_job(std::string(type), v.size(), [](u64 i) {
        const I a = v[i];
        for (I b : v) {
            bool l = a < b, g = a > b;
            AGREE("total_less", cppsort::total_less(a, b), l); AGREE("total_greater", cppsort::total_greater(a, b), g); AGREE("weak_less", cppsort::weak_less(a, b), l);
            AGREE("weak_greater", cppsort::weak_greater(a, b), g); AGREE("partial_less", cppsort::partial_less(a, b), l); AGREE("partial_greater", cppsort::partial_greater(a, b), g);
            AGREE("total_less_t", cppsort::total_less_t{}(I(a), I(b)), l); AGREE("weak_greater_t", cppsort::weak_greater_t{}(I(a), b), g); AGREE("partial_less_t", cppsort::partial_less_t{}(a, I(b)), l);
        }
        count_eval(true, v.size() * 9);
    });
}
// ------------------------------------------------------------------ customisation
namespace user {
    struct T { int a, b; };      // total order given
    inline bool total_less(const T& x, const T& y) { return x.a != y.a ? x.a < y.a : x.b < y.b; }
    inline bool total_greater(const T& x, const T& y) { return total_less(y, x); }
    struct Wk { int a, b; };     // weak order given
    inline bool weak_less(const Wk& x, const Wk& y) { return x.a < y.a; }
    inline bool weak_greater(const Wk& x, const Wk& y) { return x.a > y.a; }
    struct All { int a, b; };    // all three differ
    inline bool total_less(All x, All y) { return x.a != y.a ? x.a < y.a : x.b < y.b; }
    inline bool weak_less(const All& x, const All& y) { return x.a < y.a; }
    inline bool partial_less(const All& x, const All& y) { return x.a < y.a && x.b < y.b; }
    struct None { int a; };
    inline bool operator<(None x, None y) { return x.a < y.a; }
}
template<typename C, typename T, typename = void> struct callable : std::false_type {};
template<typename C, typename T> struct callable<C, T, decltype(void(std::declval<const C&>()(std::declval<const T&>(), std::declval<const T&>())))> : std::true_type {};
static_assert(!callable<cppsort::total_less_t, user::None>::value && !callable<cppsort::weak_less_t, user::None>::value && !callable<cppsort::partial_less_t, user::None>::value, "no fall back to operator<");
static_assert(!callable<cppsort::total_less_t, user::Wk>::value, "a weak order is not a total order");
static_assert(cppsort::total_less(1, 2) && !cppsort::total_greater(1, 2) && cppsort::total_less('a', 'b'), "constant expressions");
static void custom(u64 i) {
    int xa = int(i % 3), xb = int(i / 3 % 3), ya = int(i / 9 % 3), yb = int(i / 27 % 3);
    struct S { int v[4]; } a{{xa, xb, ya, yb}};
    (void)a;
    bool lex = xa != ya ? xa < ya : xb < yb, rlex = xa != ya ? xa > ya : xb > yb;
    user::T t{xa, xb}, u{ya, yb}; user::Wk w{xa, xb}, z{ya, yb}; user::All p{xa, xb}, q{ya, yb};
#define IS(e, want) do { if ((e) != (want)) fail("%s is wrong for (%d,%d) (%d,%d)", #e, xa, xb, ya, yb); } while (0)
    IS(cppsort::total_less(t, u), lex); IS(cppsort::weak_less(t, u), lex); IS(cppsort::partial_less(t, u), lex); IS(cppsort::partial_less(t, user::T(u)), lex);
    IS(cppsort::total_greater(t, u), rlex); IS(cppsort::weak_greater(t, u), rlex); IS(cppsort::partial_greater(t, u), rlex);
    IS(cppsort::weak_less(w, z), xa < ya); IS(cppsort::partial_less(w, z), xa < ya); IS(cppsort::weak_greater(w, z), xa > ya); IS(cppsort::partial_greater(w, z), xa > ya);
    IS(cppsort::total_less(p, q), lex); IS(cppsort::weak_less(p, q), xa < ya); IS(cppsort::partial_less(p, q), xa < ya && xb < yb);
    count_eval(true, 14);
}
// ------------------------------------------------------------------ the three-way comparison grail_sorter derives from a comparator
template<typename C, typename T> static void three(const char* name, C c, const T& a, const T& b, int want) {
    for (int m = 0; m < 5; ++m) {
        std::vector<T> v = m == 0 ? std::vector<T>{a, b} : m == 1 ? std::vector<T>{b, a} : m == 2 ? std::vector<T>{a, b, a, b, b} : m == 3 ? std::vector<T>{b, a, b, a, b, a, a, b} : std::vector<T>{a, a, b}, w;
        for (int k = 0; k < 2; ++k) for (auto& x : v) if ((want < 0 ? x == (k ? b : a) : want > 0 ? x == (k ? a : b) : k == 0)) w.push_back(x);
        cppsort::grail_sorter<>{}(v, c);
        if (v != w) fail("grail_sorter with %s: wrong order of two values whose comparison should be %d", name, want);
    }
}
static std::string word(u64 i) { std::string s; for (; i; i = (i - 1) / 4) s += "ab\0\xff"[(i - 1) % 4]; return s; }
struct ByMod { int m; bool operator()(int a, int b) const { return a % m < b % m; } };
static void threeway(u64 i) {
    std::string a = word(i);
    const u64 N = 341;
    auto sgn = [](int x) { return (x > 0) - (x < 0); };
    for (u64 j = 0; j < N; ++j) {
        std::string b = word(j);
        int w = sgn(a.compare(b));
        three("less<>", std::less<>{}, a, b, w); three("greater<>", std::greater<>{}, a, b, -w);
        three("less<string>", std::less<std::string>{}, a, b, w);
        int x = int(i) - 170, y = int(j) - 170;
        three("less<> on ints", std::less<>{}, x, y, sgn(x - y)); three("greater<> on ints", std::greater<>{}, x, y, sgn(y - x));
        three("total_less", cppsort::total_less_t{}, x, y, sgn(x - y)); three("stateful", ByMod{7}, int(i), int(j), sgn(int(i % 7) - int(j % 7)));
    }
    count_eval(true, N * 7);
}
MC_JOBS {
    floats<float>("float"); floats<double>("double"); floats<long double>("long double");
    ints<bool>("bool"); ints<char>("char"); ints<signed char>("signed char"); ints<unsigned char>("unsigned char"); ints<short>("short"); ints<unsigned short>("unsigned short");
    ints<int>("int"); ints<unsigned>("unsigned"); ints<long>("long"); ints<unsigned long>("unsigned long"); ints<long long>("long long"); ints<unsigned long long>("unsigned long long");
    ints<wchar_t>("wchar_t"); ints<char16_t>("char16_t"); ints<char32_t>("char32_t");
    add_job("customisation", 81, custom);
    add_job("three-way", 341, threeway);
}
