// C24: bounds of the probes and relations between them.
#include "spaces.hpp"
#include "measures.hpp"
#include <limits>
#include <list>
#include <string>
#include <cpp-sort/probes.h>
using namespace mc;
namespace probe = cppsort::probe;
using naive::ll; using naive::V;
enum { BLOCK, DIS, ENC, EXC, HAM, INV, MAX, MONO, OSC, REM, RUNS, SUS, NP };
static const char* const names[] = {"block", "dis", "enc", "exc", "ham", "inv", "max", "mono", "osc", "rem", "runs", "sus"};
struct Values { ll m[NP]; ll operator[](int i) const { return m[i]; } bool operator==(const Values& o) const { return std::equal(m, m + NP, o.m); } };
template<typename R> static Values measure(const R& r) {
    return {{ll(probe::block(r)), ll(probe::dis(r)), ll(probe::enc(r)), ll(probe::exc(r)), ll(probe::ham(r)), ll(probe::inv(r)), ll(probe::max(r)), ll(probe::mono(r)), ll(probe::osc(r)), ll(probe::rem(r)), ll(probe::runs(r)), ll(probe::sus(r))}};
}
template<typename R, typename C, typename P> static Values measure(const R& r, C c, P p) {
    return {{ll(probe::block(r, c, p)), ll(probe::dis(r, c, p)), ll(probe::enc(r, c, p)), ll(probe::exc(r, c, p)), ll(probe::ham(r, c, p)), ll(probe::inv(r, c, p)), ll(probe::max(r, c, p)), ll(probe::mono(r, c, p)), ll(probe::osc(r, c, p)), ll(probe::rem(r, c, p)), ll(probe::runs(r, c, p)), ll(probe::sus(r, c, p))}};
}
template<typename I> static ll top(int p, I n) {
    switch (p) {
        case BLOCK: return ll(probe::block.max_for_size(n)); case DIS: return ll(probe::dis.max_for_size(n)); case ENC: return ll(probe::enc.max_for_size(n));
        case EXC: return ll(probe::exc.max_for_size(n)); case HAM: return ll(probe::ham.max_for_size(n)); case INV: return ll(probe::inv.max_for_size(n));
        case MAX: return ll(probe::max.max_for_size(n)); case MONO: return ll(probe::mono.max_for_size(n)); case OSC: return ll(probe::osc.max_for_size(n));
        case REM: return ll(probe::rem.max_for_size(n)); case RUNS: return ll(probe::runs.max_for_size(n)); default: return ll(probe::sus.max_for_size(n));
    }
}
static void bounds(const Values& v, ll n, bool sorted) {
    for (int p = 0; p < NP; ++p) {
        if (v[p] < 0) fail("%s is negative: %ld", names[p], long(v[p]));
        if (v[p] > top(p, n)) fail("%s = %ld exceeds max_for_size(%ld) = %ld", names[p], long(v[p]), long(n), long(top(p, n)));
        if (sorted && v[p]) fail("%s = %ld on a sorted sequence", names[p], long(v[p]));
        if (!sorted && v[p] == 0 && p != ENC && p != MONO && p != OSC) fail("%s = 0 on a sequence that is not sorted", names[p]);
    }
}
#define MUST(e) do { if (!(e)) fail("%s does not hold: block %ld dis %ld enc %ld exc %ld ham %ld inv %ld max %ld mono %ld osc %ld rem %ld runs %ld sus %ld", #e, long(v[0]), long(v[1]), long(v[2]), long(v[3]), long(v[4]), long(v[5]), long(v[6]), long(v[7]), long(v[8]), long(v[9]), long(v[10]), long(v[11])); } while (0)
// block and exc are specified for distinct elements
static void relations(const Values& v, ll n, bool distinct) {
    ll block = v[BLOCK], dis = v[DIS], enc = v[ENC], exc = v[EXC], ham = v[HAM], inv = v[INV], max = v[MAX], mono = v[MONO], osc = v[OSC], rem = v[REM], runs = v[RUNS], sus = v[SUS];
    MUST(rem <= inv); MUST(runs <= rem); MUST(max <= dis); MUST(dis <= 2 * max); MUST(dis <= inv); MUST(max <= inv); MUST(rem * (dis + 1) <= n * dis); MUST(2 * inv <= n * dis);
    MUST(inv <= n * max); MUST(enc <= runs); MUST(enc <= rem); MUST(enc <= n - rem); MUST(sus <= runs); MUST(sus <= max); MUST(sus <= rem); MUST(enc <= sus); MUST(enc <= dis);
    MUST(enc <= max); MUST(osc <= 4 * inv); MUST(osc <= 2 * n * runs); MUST(osc <= n * dis); MUST(mono <= runs); MUST(runs <= inv); MUST(runs <= ham); MUST(rem <= ham);
    if (distinct) {
        MUST(exc <= inv); MUST(ham == 0 || exc + 1 <= ham); MUST(ham <= 2 * exc); MUST(rem <= 2 * exc); MUST(runs <= 2 * exc); MUST(osc <= 2 * n * exc);
        MUST(block <= 3 * rem); MUST(runs <= block); MUST(mono <= block); MUST(enc <= exc);
    }
}
struct Opaque { std::string s; };
struct OpaqueLess { bool operator()(const std::string& a, const std::string& b) const { return a.size() != b.size() ? a.size() < b.size() : a < b; } };
static void case_of(const Input& in) {
    V v(in.k.begin(), in.k.begin() + in.n);
    bool d = naive::distinct(v), sorted = in.sorted();
    Values m = measure(v);
    bounds(m, in.n, sorted);
    relations(m, in.n, d);
    // only the order matters, not the values that represent it
    auto same = [&](const char* what, const Values& x) {
        for (int p = 0; p < NP; ++p) if (x[p] != m[p] && (d || sorted || (p != BLOCK && p != EXC))) fail("%s: %ld with %s, %ld with the original values", names[p], long(x[p]), what, long(m[p]));
    };
    static std::vector<long long> far; far.clear();
    static std::vector<double> dbl; dbl.clear();
    static std::vector<int> neg; neg.clear();
    static std::vector<Opaque> op; op.clear();
    static std::vector<int> extreme; extreme.clear();
    V s = v; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
    for (int x : v) {
        int r = int(std::lower_bound(s.begin(), s.end(), x) - s.begin());
        far.push_back((1ll << 40) * (r - 3) + (r & 1 ? 7 : -5)); dbl.push_back(r * .375 - 1); neg.push_back(-r);
        op.push_back({std::string(std::size_t(r / 20 + 1), 'a' + char(r % 20))});
        extreme.push_back(r == 0 ? std::numeric_limits<int>::min() : r + 1 == int(s.size()) ? std::numeric_limits<int>::max() : r);
    }
    same("distant integers", measure(far)); same("extreme integers", measure(extreme));
    same("floating point values", measure(std::list<double>(dbl.begin(), dbl.end())));
    same("negated values and a reversed order", measure(neg, std::greater<>{}, cppsort::utility::identity{}));
    same("strings", measure(op, OpaqueLess{}, &Opaque::s));
    u64 h = 0; for (int p = 0; p < NP; ++p) h = h * 31 + u64(m[p]);
    note_behaviour(h);
    count_eval(!sorted, NP * 6);
}
// Mannila's properties that the definitions imply
static void mannila(const Input& in) {
    V v(in.k.begin(), in.k.begin() + in.n), u;
    Values m = measure(v);
    bool d = naive::distinct(v);
    for (int i = 0; i < in.n; ++i) {
        u = v; u.erase(u.begin() + i);
        Values x = measure(u);
        for (int p = 0; p < NP; ++p) if (x[p] > m[p] && p != EXC && p != HAM && (d || (p != BLOCK && p != OSC))) fail("%s: removing element %d raises it from %ld to %ld", names[p], i, long(m[p]), long(x[p]));
        if (i == 0) for (int p = 0; p < NP; ++p) if (m[p] > in.n - 1 + x[p] && p != OSC && p != HAM && (d || (p != BLOCK && p != EXC))) fail("%s: a new first element raises it from %ld to %ld, by more than the size", names[p], long(x[p]), long(m[p]));
    }
    for (int k = 1; k < in.n; ++k) {
        V a(v.begin(), v.begin() + k), b(v.begin() + k, v.end());
        if (!(*std::max_element(a.begin(), a.end()) < *std::min_element(b.begin(), b.end()))) continue;
        Values x = measure(a), y = measure(b);
        for (int p : {DIS, EXC, HAM, INV, MAX, REM, RUNS, SUS}) if (m[p] > x[p] + y[p] && (d || p != EXC)) fail("%s: %ld for a concatenation of sequences measuring %ld and %ld", names[p], long(m[p]), long(x[p]), long(y[p]));
        for (int p : {INV, REM, RUNS}) if (m[p] < x[p] + y[p]) fail("%s: %ld for a concatenation of sequences measuring %ld and %ld", names[p], long(m[p]), long(x[p]), long(y[p]));
    }
    count_eval(!in.sorted(), u64(in.n) * NP);
}
// every size: the maximum is reached, whatever the integer type
static std::vector<V> witnesses(int n) {
    std::vector<V> r;
    V a(std::size_t(n), 0), b(a), c(a), d(a), e(a), f;
    for (int i = 0; i < n; ++i) { a[i] = n - 1 - i; b[i] = (i + 1) % n; c[i] = (i & 1) ? i - 1 : i + 1; d[i] = (i & 1) ? n - (i + 1) / 2 : i / 2; e[i] = i == 0 ? 0 : (i & 1) ? i + 1 : i - 1; }
    r = {a, b, c, d, e};
    // oscillating: middle, then alternately the upper and the lower half
    for (int mid : {n / 2, (n - 1) / 2, n / 2 - 1}) for (int side = 0; side < 2; ++side) for (int rev = 0; rev < 2; ++rev) {
        if (mid < 0 || mid >= n) continue;
        V lo, hi; for (int i = 0; i < mid; ++i) lo.push_back(i);
        for (int i = mid + 1; i < n; ++i) hi.push_back(i);
        if (rev) std::reverse(lo.begin(), lo.end()), std::reverse(hi.begin(), hi.end());
        f.assign(1, mid);
        for (std::size_t i = 0, j = 0, k = 0; i + 1 < std::size_t(n); ++i) { bool h = ((i & 1) == std::size_t(side)); if (h ? j < hi.size() : k >= lo.size()) f.push_back(hi[j++]); else f.push_back(lo[k++]); }
        r.push_back(f);
        V g = f; std::reverse(g.begin(), g.end()); r.push_back(g);
    }
    if (n >= 2 && n % 2 == 0) {     // h-1, h+1, 0, h+2, 1, ..., n-1, h-2, h
        int h = n / 2; f.assign(1, h - 1);
        for (int i = 0; i + 1 < h; ++i) f.push_back(h + 1 + i), f.push_back(i);
        f.push_back(h); r.push_back(f);
    }
    return r;
}
template<typename I> static void same_top(const char* type, int n) {
    if (ll(n) * ll(n) > ll(std::numeric_limits<I>::max())) return;
    for (int p = 0; p < NP; ++p) if (top(p, I(n)) != top(p, ll(n))) fail("%s: max_for_size(%d) is %ld for type %s, %ld for long long", names[p], n, long(top(p, I(n))), type, long(top(p, ll(n))));
}
static void maxima(int n) {
    ll best[NP] = {};
    auto feed = [&](const V& v) { Values m = measure(v); bounds(m, n, std::is_sorted(v.begin(), v.end())); for (int p = 0; p < NP; ++p) best[p] = std::max(best[p], m[p]); count_eval(true, NP); };
    if (n <= 7) { V v(std::size_t(n), 0); for (int i = 0; i < n; ++i) v[i] = i; do feed(v); while (std::next_permutation(v.begin(), v.end())); }
    else for (auto& v : witnesses(n)) feed(v);
    for (int p = 0; p < NP; ++p) if (best[p] != top(p, ll(n))) fail("%s: max_for_size(%d) = %ld, but the largest value found is %ld", names[p], n, long(top(p, ll(n))), long(best[p]));
    same_top<int>("int", n), same_top<unsigned>("unsigned", n), same_top<std::size_t>("size_t", n), same_top<short>("short", n), same_top<unsigned short>("unsigned short", n), same_top<std::ptrdiff_t>("ptrdiff_t", n), same_top<long>("long", n), same_top<signed char>("signed char", n), same_top<unsigned char>("unsigned char", n);
}
static_assert(probe::block.max_for_size(5) == 4 && probe::osc.max_for_size(0u) == 0, "usable in constant expressions");
MC_JOBS {
    bool t = thorough();
    std::vector<Space> sp, ma;
#if PART == 0
    for (int n = 0; n <= (t ? 8 : 7); ++n) sp.push_back(weak_orders(n));
#elif PART == 1
    sp.push_back(perms(8)); if (t) sp.push_back(perms(9));
    sp.push_back(words(2, t ? 16 : 12)), sp.push_back(words(3, t ? 10 : 8));
#elif PART == 2
    for (int n = 8; n <= (t ? 200 : 70); ++n) sp.push_back(shapes(n));
    for (int n : {100, 127, 128, 200, 256, 300}) sp.push_back(shapes(n));
    for (int n : {30, 50, 100}) for (int k : {2, 3, 5}) (void)n, sp.push_back(switch_words(k, n, 1));
    sp.push_back(linear_mod(61, 61)), sp.push_back(linear_mod_few(61, 61, 5)), sp.push_back(inversive_mod(61, 61, 61)), sp.push_back(inversive_mod(61, 53, 61, 9)), sp.push_back(linear_mod(127, 127)), sp.push_back(inversive_mod(127, 127, 127)), sp.push_back(switch_words(2, 30, 3)), sp.push_back(switch_words(3, 26, 2)), sp.push_back(shape_words(35, 2)), sp.push_back(rotations(50, 1, 1)), sp.push_back(shuffles(60));
    if (t) append(sp, medium_spaces(2)), append(sp, large_spaces(1));
#else
    for (int n = 0; n <= (t ? 6 : 6); ++n) ma.push_back(weak_orders(n));
    ma.push_back(perms(7)); if (t) ma.push_back(perms(8)), ma.push_back(weak_orders(7));
    ma.push_back(words(2, t ? 12 : 9));
    for (int n = 7; n <= (t ? 60 : 32); ++n) ma.push_back(shapes(n));
    add_job("maxima", u64(t ? 400 : 160), [](u64 n) { desc().keys = nullptr; desc().text = "size " + std::to_string(n); maxima(int(n)); });
#endif
    add_space_jobs("relations", sp, [](const Input& in) { case_of(in); });
    add_space_jobs("mannila", ma, [](const Input& in) { mannila(in); });
}
