// C23, long sequences: the probes against definitions evaluated in O(n log n).
#include "spaces.hpp"
#include "measures.hpp"
#include <list>
#include <cpp-sort/probes.h>
using namespace mc;
using naive::ll; using naive::V;
namespace fast {
struct Fenwick {
    std::vector<ll> t; explicit Fenwick(int n): t(std::size_t(n) + 1, 0) {}
    void add(int i) { for (++i; i < int(t.size()); i += i & -i) ++t[std::size_t(i)]; }
    ll upto(int i) const { ll r = 0; for (++i; i > 0; i -= i & -i) r += t[std::size_t(i)]; return r; }   // values <= i
};
static V ranks(const V& v) { V s = v; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); V r(v.size()); for (std::size_t i = 0; i < v.size(); ++i) r[i] = int(std::lower_bound(s.begin(), s.end(), v[i]) - s.begin()); return r; }
static ll inv(const V& v) { V r = ranks(v); Fenwick f(int(v.size())); ll s = 0; for (std::size_t i = 0; i < r.size(); ++i) { s += ll(i) - f.upto(r[i]); f.add(r[i]); } return s; }
// pairs of neighbours strictly enclosing a value: for every pair count the values strictly between
static ll osc(const V& v) {
    V s = v; std::sort(s.begin(), s.end()); ll r = 0;
    for (std::size_t i = 0; i + 1 < v.size(); ++i) {
        int a = std::min(v[i], v[i + 1]), b = std::max(v[i], v[i + 1]);
        r += std::max<ll>(0, (std::lower_bound(s.begin(), s.end(), b) - s.begin()) - (std::upper_bound(s.begin(), s.end(), a) - s.begin()));
    }
    return r;
}
static ll lnds(const V& v) { V t; for (int x : v) { auto p = std::upper_bound(t.begin(), t.end(), x); if (p == t.end()) t.push_back(x); else *p = x; } return ll(t.size()); }
static ll rem(const V& v) { return ll(v.size()) - lnds(v); }
static ll sus(const V& v) { V t; for (int y : v) { int x = -y; auto p = std::lower_bound(t.begin(), t.end(), x); if (p == t.end()) t.push_back(x); else *p = x; } return v.empty() ? 0 : ll(t.size()) - 1; }
static ll mono(const V& v) {   // greedy: a run is extended as far as possible
    ll c = 0; std::size_t i = 0, n = v.size();
    while (i < n) { std::size_t u = i, d = i; while (u + 1 < n && v[u] <= v[u + 1]) ++u; while (d + 1 < n && v[d] >= v[d + 1]) ++d; i = std::max(u, d) + 1; ++c; }
    return c ? c - 1 : 0;
}
// the intervals [head, tail] of the lists are nested from the first one inwards
static ll enc(const V& v) {
    V h, t;
    for (int x : v) {
        std::size_t lo = 0, hi = h.size();
        while (lo < hi) { std::size_t m = (lo + hi) / 2; if (x >= t[m] || x <= h[m]) hi = m; else lo = m + 1; }
        if (lo == h.size()) h.push_back(x), t.push_back(x);
        else if (x >= t[lo]) t[lo] = x; else h[lo] = x;
    }
    return h.empty() ? 0 : ll(h.size()) - 1;
}
}
static naive::Range as_range(ll x) { return {x, x}; }
static naive::Range as_range(naive::Range r) { return r; }
static void judge(const char* who, ll got, naive::Range want) { if (got < want.lo || got > want.hi) fail("%s = %ld, by definition between %ld and %ld", who, long(got), long(want.lo), long(want.hi)); count_eval(true, 1); }
template<bool Naive, typename P, typename N, typename F> static void one(const char* who, const Input& in, const P& p, N nf, F ff) {
    V v(in.k.begin(), in.k.begin() + in.n);
    naive::Range w = as_range(ff(v));
    if (Naive) { naive::Range x = as_range(nf(v)); if (x.lo != w.lo || x.hi != w.hi) { fprintf(stderr, "the two oracles of %s differ\n", who); abort(); } }
    judge(who, ll(p(v)), w);
    std::list<int> l(v.begin(), v.end());
    judge(who, ll(p(l)), w);
    judge(who, ll(p(v.begin(), v.end(), [](int a, int b) { return a > b; }, std::negate<>{})), w);
}
static Space family(int n) {
    return {"families(n=" + std::to_string(n) + ")", 12, [n](u64 s, Input& in) {
        in.resize(n);
        for (int i = 0; i < n; ++i) switch (s) {
            case 0: in[i] = n - i; break;                                             // every pair an inversion
            case 1: in[i] = i % 2 ? n - 1 - i / 2 : i / 2; break;                     // every step crosses all the rest
            case 2: in[i] = (i + n / 2) % n; break;
            case 3: in[i] = i % 2 ? n / 2 + i / 2 : i / 2; break;
            case 4: in[i] = i ^ 1; break;
            case 5: in[i] = i < n / 2 ? n - i : i - n; break;
            case 6: in[i] = int(i * 7919ll % n); break;
            case 7: in[i] = i % 256; break;
            case 8: in[i] = i < n / 2 ? i : n - i; break;
            case 9: in[i] = int(i64(i) * i % 10007); break;
            case 10: in[i] = i == 0 ? n : i == n - 1 ? -1 : i; break;
            default: in[i] = i / 300 % 2 ? i : -i; break;
        }
    }, n};
}
template<typename P, typename N, typename F> static void add(const char* name, const P& p, N nf, F ff) {
    std::vector<Space> sm, lg;
    for (int n = 0; n <= 6; ++n) sm.push_back(weak_orders(n));
    sm.push_back(shapes(33)), sm.push_back(linear_mod_few(61, 61, 7)), sm.push_back(family(60));
    for (int n : {4096, 46342, 65537, 92683, 100003}) lg.push_back(family(n));
    lg.push_back(shapes(65536)), lg.push_back(shapes(131073)), lg.push_back(inversive_mod(100003, 100003, 3)), lg.push_back(inversive_mod(100003, 100003, 2, 1000));
    if (thorough()) lg.push_back(family(1000003)), lg.push_back(shapes(1048577));
    add_space_jobs(std::string(name) + "/small", sm, [=](const Input& in) { one<true>(name, in, p, nf, ff); });
    add_space_jobs(std::string(name) + "/long", lg, [=](const Input& in) { one<false>(name, in, p, nf, ff); });
}
MC_JOBS {
#define Q(name) add(#name, cppsort::probe::name, [](const V& v) { return naive::name(v); }, [](const V& v) { return fast::name(v); });
#define R(name) add(#name, cppsort::probe::name, [](const V& v) { return naive::name(v); }, [](const V& v) { return naive::name(v); });
#if PART == 0
    Q(inv) Q(osc) Q(rem)
#elif PART == 1
    Q(sus) Q(mono) Q(enc) R(runs)
#else
    R(ham) R(max) R(block) R(exc) R(dis)
#endif
}
