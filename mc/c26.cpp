// C26: natural_less and case_insensitive_less on all (pairs of) strings within the bounds, against tokenising / folding references.
#include "core.hpp"
#include "spaces.hpp"
#include <array>
#include <forward_list>
#include <list>
#include <locale>
#include <string>
#include <vector>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/refined.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
using namespace mc;
#ifndef PART
#define PART 0
#endif
// a forward sequence that knows its bounds
template<typename C> struct Seq {
    const C* b; const C* e;
    explicit Seq(const std::basic_string<C>& s) : b(s.data()), e(s.data() + s.size()) {}
    struct iterator {
        using iterator_category = std::forward_iterator_tag; using value_type = C; using difference_type = std::ptrdiff_t; using pointer = const C*; using reference = const C&;
        const C *b, *p, *e;
        reference operator*() const { if (p < b || p >= e) fail("reads past the end of a sequence"); return *p; }
        iterator& operator++() { if (p >= e) fail("walks past the end of a sequence"); ++p; return *this; }
        iterator operator++(int) { iterator r = *this; ++*this; return r; }
        friend bool operator==(const iterator& x, const iterator& y) { if (x.b != y.b) fail("compares iterators into different sequences"); return x.p == y.p; }
        friend bool operator!=(const iterator& x, const iterator& y) { return !(x == y); }
    };
    iterator begin() const { return {b, b, e}; }
    iterator end() const { return {b, e, e}; }
};
template<typename C> static std::string show(const std::basic_string<C>& s) { std::string r = "\""; char b[16]; for (C c : s) { if (c >= 32 && c < 127) r += char(c); else { snprintf(b, sizeof b, "\\x%x", unsigned(c) & 0xffff); r += b; } } return r + "\""; }
#define AGREE(what, got, want) do { bool g_ = (got); if (g_ != bool(want)) fail("%s(%s, %s) is %s", what, show(a).c_str(), show(b).c_str(), g_ ? "true" : "false"); } while (0)
// all strings over an alphabet, by increasing length
template<typename C> static std::vector<std::basic_string<C>> all_strings(const std::basic_string<C>& alpha, int len) {
    std::vector<std::basic_string<C>> r{{}};
    for (std::size_t i = 0, end = 1, l = 0; int(l) < len; ++l, i = end, end = r.size()) for (std::size_t k = i; k < end; ++k) for (C c : alpha) r.push_back(r[k] + c);
    return r;
}
// ------------------------------------------------------------------ natural order
struct Tok { bool num; std::string s; };
static std::vector<Tok> tokens(const std::string& s) {
    std::vector<Tok> r;
    for (std::size_t i = 0; i < s.size();) {
        auto digit = [](char c) { return c >= '0' && c <= '9'; };
        if (!digit(s[i])) { r.push_back({false, std::string(1, s[i++])}); continue; }
        std::size_t j = i; while (j < s.size() && digit(s[j])) ++j;
        std::size_t z = i; while (z < j && s[z] == '0') ++z;
        r.push_back({true, s.substr(z, j - z)}); i = j;
    }
    return r;
}
static int cmp_tok(const Tok& x, const Tok& y) {
    if (x.num && y.num) return x.s.size() != y.s.size() ? (x.s.size() < y.s.size() ? -1 : 1) : x.s.compare(y.s) < 0 ? -1 : x.s.compare(y.s) > 0;
    char c = x.num ? '5' : x.s[0], d = y.num ? '5' : y.s[0];   // a digit against something else: all the digits are on the same side
    return c < d ? -1 : c > d;
}
static bool ref_natural(const std::vector<Tok>& x, const std::vector<Tok>& y) {
    for (std::size_t i = 0; i < x.size() && i < y.size(); ++i) if (int c = cmp_tok(x[i], y[i])) return c < 0;
    return x.size() < y.size();
}
struct Pool { std::vector<std::string> s; std::vector<std::vector<Tok>> t; };
static void natural(const char* name, const std::string& alpha, int len, bool forms) {
    auto* p = new Pool; p->s = all_strings(alpha, len); for (auto& s : p->s) p->t.push_back(tokens(s));
    add_job(std::string("natural/") + name, p->s.size(), [p, forms](u64 i) {
        const std::string& a = p->s[i];
        const Seq<char> sa(a);
        std::vector<char> va(a.begin(), a.end()); std::list<char> la(a.begin(), a.end()); std::forward_list<char> fa(a.begin(), a.end());
        if (cppsort::natural_less(sa, sa) || cppsort::natural_less(a, a)) fail("natural_less(%s, itself)", show(a).c_str());
        for (std::size_t j = 0; j < p->s.size(); ++j) {
            const std::string& b = p->s[j];
            const Seq<char> sb(b);
            bool w = ref_natural(p->t[i], p->t[j]), v = ref_natural(p->t[j], p->t[i]);
            if (w && v) fail("reference broken");
            AGREE("natural_less", cppsort::natural_less(sa, sb), w);
            AGREE("flip(natural_less)", cppsort::flip(cppsort::natural_less)(sa, sb), v);
            if (forms) {
                AGREE("natural_less<string>", cppsort::natural_less(a, b), w); AGREE("natural_less<string, temporaries>", cppsort::natural_less_t{}(std::string(a), std::string(b)), w);
                AGREE("natural_less<vector, list>", cppsort::natural_less(va, std::list<char>(b.begin(), b.end())), w);
                AGREE("natural_less<list, forward_list>", cppsort::natural_less(la, std::forward_list<char>(b.begin(), b.end())), w);
                AGREE("natural_less<forward_list, string>", cppsort::natural_less(fa, b), w); AGREE("natural_less<string, Seq>", cppsort::natural_less(a, sb), w);
                if (a.size() == 3 && b.size() <= 3) {
                    std::array<char, 3> x{{a[0], a[1], a[2]}}; const char y[3] = {a[0], a[1], a[2]};
                    AGREE("natural_less<array, string>", cppsort::natural_less(x, b), w); AGREE("natural_less<string, char[3]>", cppsort::natural_less(b, y), v);
                    if (b.size() == 2) { char z[2] = {b[0], b[1]}; AGREE("natural_less<char[3], char[2]>", cppsort::natural_less(y, z), w); }
                }
            }
            if (w) note_behaviour((i << 20) ^ j);
        }
        count_eval(true, p->s.size() * (forms ? 8 : 2));
    });
}
template<typename Less> static void axioms(const char* name, std::vector<std::string>* s, Less less) {
    add_job(std::string(name), s->size(), [=](u64 i) {
        const std::string& a = (*s)[i];
        std::vector<char> lt(s->size()), gt(s->size());
        if (less(a, a)) fail("%s(%s, itself)", name, show(a).c_str());
        for (std::size_t j = 0; j < s->size(); ++j) { lt[j] = less(a, (*s)[j]); gt[j] = less((*s)[j], a); if (lt[j] && gt[j]) fail("%s is not asymmetric for %s, %s", name, show(a).c_str(), show((*s)[j]).c_str()); }
        for (std::size_t j = 0; j < s->size(); ++j) for (std::size_t k = 0; k < s->size(); ++k) {
            bool jk = less((*s)[j], (*s)[k]);
            if (lt[j] && jk && !lt[k]) fail("%s is not transitive: %s, %s, %s", name, show(a).c_str(), show((*s)[j]).c_str(), show((*s)[k]).c_str());
            if (!lt[j] && !gt[j] && jk != bool(lt[k])) fail("%s: equivalence is not transitive: %s, %s, %s", name, show(a).c_str(), show((*s)[j]).c_str(), show((*s)[k]).c_str());
        }
        count_eval(true, s->size() * s->size());
    });
}
// sorting collections of strings with them
template<typename Less, typename Ref> static void sorts(const char* name, std::vector<std::string> words, Less less, Ref ref) {
    std::vector<Space> sp{weak_orders(4), perms(5), mc::words(4, 4), linear_mod(31, 31), shapes(40)};
    add_space_jobs(std::string("sort/") + name, sp, [=](const Input& in) {
        std::vector<std::string> v;
        for (int i = 0; i < in.n; ++i) v.push_back(words[std::size_t(in[i]) % words.size()]);
        std::vector<std::string> want = v, u = v, t = v;
        std::stable_sort(want.begin(), want.end(), ref);
        std::list<std::string> l(v.begin(), v.end());
        cppsort::merge_sort(v, less);
        if (v != want) fail("merge_sort with %s", name);
        cppsort::container_aware_adapter<cppsort::insertion_sorter>{}(l, less);
        if (std::vector<std::string>(l.begin(), l.end()) != want) fail("insertion_sort of a list with %s", name);
        cppsort::heap_sort(u.begin(), u.end(), less); cppsort::pdq_sort(t, cppsort::flip(less));
        for (int i = 0; i < in.n; ++i) if (ref(u[i], want[i]) || ref(want[i], u[i])) fail("heap_sort with %s", name);
        for (int i = 0; i < in.n; ++i) if (ref(t[i], want[in.n - 1 - i]) || ref(want[in.n - 1 - i], t[i])) fail("pdq_sort with flip(%s)", name);
        count_eval(!in.sorted(), 4);
    });
}
// ------------------------------------------------------------------ case-insensitive order
// a locale with its own idea of folding: shifts a few characters, folds others together
struct FacetC : std::ctype<char> {
    static char f(char c) { return c == 'q' ? 'b' : c == 'B' ? 'a' : c == '_' ? '\xff' : c == '\xe9' ? 'e' : c == 'a' ? 'z' : c; }
    char do_tolower(char c) const override { return f(c); }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = f(*b); return e; }
};
struct FacetW : std::ctype<wchar_t> {
    static wchar_t f(wchar_t c) { return c == L'Z' ? L'b' : c == L'\x3b1' ? L'a' : c == L'A' ? L'\x391' : c == L'_' ? L'A' : c; }
    wchar_t do_tolower(wchar_t c) const override { return f(c); }
    const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = f(*b); return e; }
};
static const std::locale& custom() { static std::locale l(std::locale(std::locale::classic(), new FacetC), new FacetW); return l; }
static char fold_classic(char c) { return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c; }
static wchar_t fold_classic(wchar_t c) { return c >= L'A' && c <= L'Z' ? wchar_t(c - L'A' + L'a') : c; }
static char fold_custom(char c) { return FacetC::f(c); }
static wchar_t fold_custom(wchar_t c) { return FacetW::f(c); }
template<typename C> static bool ref_ci(const std::basic_string<C>& a, const std::basic_string<C>& b, bool cust) {
    auto f = [cust](C c) { return cust ? fold_custom(c) : fold_classic(c); };
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) { C x = f(a[i]), y = f(b[i]); if (x != y) return x < y; }
    return a.size() < b.size();
}
template<typename C> static void insensitive(const char* name, const std::basic_string<C>& alpha, int len) {
    using S = std::basic_string<C>;
    auto* p = new std::vector<S>(all_strings(alpha, len));
    add_job(std::string("case_insensitive/") + name, p->size() * 2, [p](u64 i) {
        bool g = i & 1;                        // is the custom locale the global one?
        std::locale::global(g ? custom() : std::locale::classic());
        const auto& ci = cppsort::case_insensitive_less;
        const S& a = (*p)[i / 2];
        auto with_custom = ci(custom()), with_classic = ci(std::locale::classic()), with_global = ci(std::locale());
        auto ref_custom = cppsort::refined<S>(with_custom); auto ref_classic = cppsort::refined<S>(with_classic); auto ref_global = cppsort::refined<S>(ci);
        auto ref_then_loc = cppsort::refined<S>(ci)(custom()); auto ref_copy = ref_global; auto loc_copy = with_custom;
        auto ref_seq = cppsort::refined<Seq<C>>(ci); auto ref_list = cppsort::refined<std::forward_list<C>>(with_custom);
        // objects keep the locale they were made with
        std::locale::global(g ? std::locale::classic() : custom());
        const std::forward_list<C> fa(a.begin(), a.end());
        const std::vector<C> va(a.begin(), a.end());
        for (std::size_t j = 0; j < p->size(); ++j) {
            const S& b = (*p)[j];
            bool cu = ref_ci(a, b, true), cl = ref_ci(a, b, false), now = g ? cl : cu, then = g ? cu : cl;
            AGREE("case_insensitive_less", ci(Seq<C>(a), Seq<C>(b)), now); AGREE("case_insensitive_less(custom)", with_custom(Seq<C>(a), Seq<C>(b)), cu);
            AGREE("case_insensitive_less<string>", ci(a, b), now); AGREE("case_insensitive_less(classic)", with_classic(a, b), cl); AGREE("case_insensitive_less(then global)", with_global(a, b), then);
            AGREE("refined(case_insensitive_less(custom))", ref_custom(a, b), cu); AGREE("refined(case_insensitive_less(classic))", ref_classic(a, b), cl); AGREE("refined(case_insensitive_less)", ref_global(a, b), then);
            AGREE("refined(case_insensitive_less)(custom)", ref_then_loc(a, b), cu); AGREE("copy of refined", ref_copy(a, b), then); AGREE("copy", loc_copy(a, b), cu);
            AGREE("refined<Seq>", ref_seq(Seq<C>(a), Seq<C>(b)), then);
            if (j % 5 == 0) {
                std::forward_list<C> fb(b.begin(), b.end());
                AGREE("case_insensitive_less<forward_list>", ci(fa, fb), now); AGREE("refined<forward_list>", ref_list(fa, fb), cu);
                AGREE("case_insensitive_less(custom)<vector>", with_custom(va, std::vector<C>(b.begin(), b.end())), cu); AGREE("flip(case_insensitive_less)", cppsort::flip(ci)(b, a), now);
            }
            if (now) note_behaviour((i << 20) ^ j);
        }
        count_eval(true, p->size() * 12);
    });
}
// ------------------------------------------------------------------ customisation
namespace user {
    struct Two { std::string s; };       // two parameters, not iterable
    inline bool case_insensitive_less(const Two& a, const Two& b) { return a.s.size() < b.s.size(); }
    struct Three { std::string s; };     // three parameters, not iterable: extends to two
    inline bool case_insensitive_less(const Three& a, const Three& b, const std::locale& l) { return std::tolower(a.s[0], l) > std::tolower(b.s[0], l); }
    struct ITwo : std::string { using std::string::string; };     // the same, iterable
    inline bool case_insensitive_less(const ITwo& a, const ITwo& b) { return a.size() < b.size(); }
    struct IThree : std::string { using std::string::string; };
    inline bool case_insensitive_less(const IThree& a, const IThree& b, const std::locale& l) { return std::tolower(a[0], l) > std::tolower(b[0], l); }
    struct IBoth : std::string { using std::string::string; };
    inline bool case_insensitive_less(const IBoth& a, const IBoth& b) { return a.size() < b.size(); }
    inline bool case_insensitive_less(const IBoth& a, const IBoth& b, const std::locale& l) { return std::tolower(a[0], l) > std::tolower(b[0], l); }
    struct Nat { int n; };
    inline bool natural_less(Nat a, Nat b) { return a.n % 5 < b.n % 5; }
    inline bool natural_less(Nat a, const std::string& b) { return a.n < int(b.size()); }
    struct INat : std::string { using std::string::string; };
    inline bool natural_less(const INat& a, const INat& b) { return a.size() > b.size(); }
}
static void customised(u64 i) {
    static const char* w[] = {"a", "A", "b", "Bc", "aB", "qxy", "Q", "_", "zz"};
    const std::string a = w[i % 9], b = w[i / 9 % 9];
    bool g = i / 81;
    std::locale::global(g ? custom() : std::locale::classic());
    const auto& ci = cppsort::case_insensitive_less;
    bool size = a.size() < b.size(), cl = fold_classic(a[0]) > fold_classic(b[0]), cu = fold_custom(a[0]) > fold_custom(b[0]), now = g ? cu : cl;
    using namespace user;
    AGREE("two-parameter customisation", ci(Two{a}, Two{b}), size);
    AGREE("three-parameter customisation", ci(Three{a}, Three{b}), now); AGREE("three-parameter customisation with a locale", ci(custom())(Three{a}, Three{b}), cu);
    ITwo ia(a.begin(), a.end()), ib(b.begin(), b.end()); IThree ja(a.begin(), a.end()), jb(b.begin(), b.end()); IBoth ka(a.begin(), a.end()), kb(b.begin(), b.end());
    AGREE("two-parameter customisation, iterable", ci(ia, ib), size); AGREE("generic three-parameter version", ci(custom())(ia, ib), ref_ci(a, b, true));
    AGREE("three-parameter customisation, iterable", ci(ja, jb), now); AGREE("three-parameter customisation, iterable, with a locale", ci(custom())(ja, jb), cu);
    AGREE("both customised", ci(ka, kb), size); AGREE("both customised, with a locale", ci(custom())(ka, kb), cu);
    AGREE("refined, two-parameter", cppsort::refined<ITwo>(ci)(ia, ib), size); AGREE("refined, generic three-parameter", cppsort::refined<ITwo>(ci(custom()))(ia, ib), ref_ci(a, b, true));
    AGREE("refined, three-parameter", cppsort::refined<IThree>(ci)(ja, jb), now); AGREE("refined, three-parameter with a locale", cppsort::refined<IThree>(ci(custom()))(ja, jb), cu);
    AGREE("refined, both", cppsort::refined<IBoth>(ci)(ka, kb), size); AGREE("refined, both, with a locale", cppsort::refined<IBoth>(ci(custom()))(ka, kb), cu);
    AGREE("refined, both, locale given after", cppsort::refined<IBoth>(ci)(custom())(ka, kb), cu);
    std::vector<IThree> v{ja, jb}; cppsort::merge_sort(v, ci); if (v[0] != (now || !(g ? fold_custom(b[0]) > fold_custom(a[0]) : fold_classic(b[0]) > fold_classic(a[0])) ? ja : jb)) fail("sorting with a customisation");
    AGREE("natural_less customisation", cppsort::natural_less(Nat{int(i % 9)}, Nat{int(i / 9 % 9)}), i % 9 % 5 < i / 9 % 9 % 5);
    AGREE("heterogeneous natural_less customisation", cppsort::natural_less(Nat{int(i % 4)}, b), i % 4 < b.size());
    INat na(a.begin(), a.end()), nb(b.begin(), b.end()); AGREE("natural_less customisation, iterable", cppsort::natural_less(na, nb), a.size() > b.size());
    count_eval(true, 22);
}
MC_JOBS {
    bool t = thorough();
    (void)t;
#if PART == 0
    natural("0189a", "0189a", t ? 6 : 5, false); natural("01", "01", t ? 13 : 11, false); natural("0a", "0a", t ? 13 : 11, false); natural("019a", "019a", t ? 7 : 6, false); natural("1ab", "1ab", t ? 8 : 7, false);
#elif PART == 1
    natural("mixed", std::string("0 2:/aZ\xe9\0", 9), t ? 4 : 3, true); natural("0123456789", "0123456789", t ? 4 : 3, true); natural("01a forms", "01a", t ? 7 : 6, true); natural("95a forms", "95a", t ? 7 : 5, true);
    axioms("natural_less axioms", new std::vector<std::string>(all_strings(std::string("01a"), t ? 6 : 5)), cppsort::natural_less);
    axioms("natural_less axioms, mixed", new std::vector<std::string>(all_strings(std::string("0 2:a\xe9"), t ? 3 : 2)), cppsort::natural_less);
    axioms("case_insensitive_less axioms", new std::vector<std::string>(all_strings(std::string("aAbB_[\xe9"), t ? 3 : 2)), cppsort::case_insensitive_less);
    sorts("natural_less", {"a1", "a01", "a2", "a10", "a010", "a", "10", "9", "09", "1a2", "01a10", "1b0", "b", "0", "00", "", "0a", "0b", "a100b", "a99c"}, cppsort::natural_less, [](const std::string& a, const std::string& b) { return ref_natural(tokens(a), tokens(b)); });
    sorts("case_insensitive_less", {"a", "A", "ab", "AB", "aB", "B", "b", "_", "[", "Z", "z", "aa", "Aa", "", "aZ", "A_", "a[", "zz", "ZZ", "0"}, cppsort::case_insensitive_less, [](const std::string& a, const std::string& b) { return ref_ci(a, b, false); });
    sorts("case_insensitive_less(custom)", {"a", "A", "ab", "AB", "aB", "B", "b", "_", "[", "Z", "z", "aa", "Aa", "", "qZ", "q_", "a[", "zz", "QZ", "0"}, cppsort::case_insensitive_less(custom()), [](const std::string& a, const std::string& b) { return ref_ci(a, b, true); });
#else
    insensitive<char>("char", std::string("aAbB_[@Z\xe9q"), 3); insensitive<char>("char, long", std::string("aAB"), t ? 7 : 6); insensitive<char>("aAq_", std::string("aAq_"), 5);
    insensitive<wchar_t>("wchar_t", std::wstring(L"aAbZ_[\x3b1\x391"), 3); insensitive<wchar_t>("wchar_t, long", std::wstring(L"aAZ"), t ? 7 : 6);
    add_job("customisation", 162, customised);
    std::string all; for (int c = 0; c < 256; ++c) all += char(c);
    insensitive<char>("every char", all, 1);
    std::wstring wall; for (int c = 0; c < 700; ++c) wall += wchar_t(c); wall.push_back(0xffff), wall.push_back(0x10ffff);
    insensitive<wchar_t>("many wchar_t", wall, 1);
#endif
}
