// Naive definitions of the measures of presortedness, written from the documentation.
#ifndef MC_MEASURES_HPP
#define MC_MEASURES_HPP
#include <algorithm>
#include <cstdint>
#include <numeric>
#include <vector>
namespace mc { namespace naive {
using ll = long long;
using V = std::vector<int>;     // keys
inline bool distinct(const V& v) { V s = v; std::sort(s.begin(), s.end()); return std::adjacent_find(s.begin(), s.end()) == s.end(); }
// Dis: largest distance determined by an inversion
inline ll dis(const V& v) {
    ll r = 0; int n = int(v.size());
    if (n > 64) {       // O(n): prefix maximum / suffix minimum, two pointers
        V pm(v), sm(v);
        for (int i = 1; i < n; ++i) pm[i] = std::max(pm[i], pm[i - 1]);
        for (int i = n - 2; i >= 0; --i) sm[i] = std::min(sm[i], sm[i + 1]);
        for (int i = 0, j = 0; i < n; ++i) { j = std::max(j, i); while (j + 1 < n && sm[j + 1] < v[i]) ++j; if (sm[j] < v[i]) r = std::max(r, ll(j - i)); }
        return r;
    }
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (v[j] < v[i]) r = std::max(r, ll(j - i));
    return r;
}
// Enc: encroaching lists built one element at a time, each element goes to the first list that accepts it; minus one
inline ll enc(const V& v) {
    std::vector<std::pair<int, int>> l;      // (head, tail)
    for (int x : v) {
        bool put = false;
        for (auto& p : l) {
            if (x >= p.second) { p.second = x; put = true; break; }
            if (x <= p.first) { p.first = x; put = true; break; }
        }
        if (!put) l.emplace_back(x, x);
    }
    return l.empty() ? 0 : ll(l.size()) - 1;
}
inline ll ham(const V& v) { V s = v; std::sort(s.begin(), s.end()); ll r = 0; for (std::size_t i = 0; i < v.size(); ++i) r += s[i] != v[i]; return r; }
inline ll inv(const V& v) { ll r = 0; for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = i + 1; j < v.size(); ++j) r += v[j] < v[i]; return r; }
// Max: largest distance between an element and its nearest sorted position
inline ll max(const V& v) {
    V s = v; std::sort(s.begin(), s.end()); ll r = 0;
    for (int i = 0; i < int(v.size()); ++i) {
        int lo = int(std::lower_bound(s.begin(), s.end(), v[i]) - s.begin()), hi = int(std::upper_bound(s.begin(), s.end(), v[i]) - s.begin()) - 1;
        r = std::max(r, ll(i < lo ? lo - i : i > hi ? i - hi : 0));
    }
    return r;
}
// Mono: least number of consecutive non-increasing or non-decreasing runs, minus one
inline ll mono(const V& v) {
    int n = int(v.size());
    if (n < 2) return 0;
    std::vector<ll> f(std::size_t(n) + 1, 1 << 30); f[0] = 0;
    for (int i = 0; i < n; ++i) {
        bool up = true, down = true;
        for (int j = i + 1; j <= n && (up || down); ++j) {
            if (j - 1 > i) { up = up && v[j - 2] <= v[j - 1]; down = down && v[j - 2] >= v[j - 1]; }
            if (up || down) f[j] = std::min(f[j], f[i] + 1);
        }
    }
    return f[n] - 1;
}
// Osc: for each element, the number of adjacent pairs that strictly enclose it
inline ll osc(const V& v) {
    ll r = 0; int n = int(v.size());
    for (int x : v) for (int j = 0; j + 1 < n; ++j) r += std::min(v[j], v[j + 1]) < x && x < std::max(v[j], v[j + 1]);
    return r;
}
// longest subsequence for which rel(previous, next) holds between consecutive elements (rel transitive)
template<typename Rel> inline ll longest(const V& v, Rel rel) {
    ll best = 0; std::vector<ll> f(v.size(), 1);
    for (std::size_t i = 0; i < v.size(); ++i) { for (std::size_t j = 0; j < i; ++j) if (rel(v[j], v[i])) f[i] = std::max(f[i], f[j] + 1); best = std::max(best, f[i]); }
    return best;
}
inline ll rem(const V& v) { return ll(v.size()) - longest(v, [](int a, int b) { return a <= b; }); }
inline ll runs(const V& v) { ll r = 0; for (std::size_t i = 1; i < v.size(); ++i) r += v[i] < v[i - 1]; return r; }
// SUS: least number of non-decreasing subsequences (= longest decreasing subsequence), minus one
inline ll sus(const V& v) { ll l = longest(v, [](int a, int b) { return a > b; }); return l ? l - 1 : 0; }

// Exc and Block: exact on distinct elements. With equivalent elements the documentation leaves the tie-breaking open:
// lo/hi bound the value over all ways of breaking ties (exact bounds up to n = 6, trivial ones above).
struct Range { ll lo, hi; };
inline ll block_of(const V& ord, const V& v) {
    ll c = 0; int n = int(v.size());
    for (int i = 0; i + 1 < n; ++i) {
        int o = ord[i];
        if (o + 1 == n) c += v[o] != v[ord[n - 1]];
        else c += v[o + 1] != v[ord[i + 1]];
    }
    return c;
}
inline ll cycles_of(const V& ord) {
    std::vector<char> s(ord.size(), 0); ll c = 0;
    for (std::size_t i = 0; i < ord.size(); ++i) if (!s[i]) { ++c; for (std::size_t j = i; !s[j]; j = std::size_t(ord[j])) s[j] = 1; }
    return c;
}
template<typename F> inline Range over_ties(const V& v, F f, ll top) {
    int n = int(v.size()); V o(v.size()); std::iota(o.begin(), o.end(), 0);
    std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return v[a] < v[b]; });
    if (n < 2) return {0, 0};
    if (std::is_sorted(v.begin(), v.end())) return {0, 0};
    ll x = f(o);
    if (distinct(v)) return {x, x};
    if (n > 6) return {1, top};
    Range r{x, x};
    // all permutations within the tie groups
    std::vector<std::pair<int, int>> groups;
    for (int i = 0; i < n;) { int j = i; while (j < n && v[o[j]] == v[o[i]]) ++j; groups.emplace_back(i, j); i = j; }
    for (;;) {
        ll y = f(o); r.lo = std::min(r.lo, y); r.hi = std::max(r.hi, y);
        std::size_t g = 0;
        for (; g < groups.size(); ++g) if (std::next_permutation(o.begin() + groups[g].first, o.begin() + groups[g].second)) break;
        if (g == groups.size()) break;
    }
    return r;
}
inline Range block(const V& v) { return over_ties(v, [&](const V& o) { return block_of(o, v); }, ll(v.size()) - 1); }
inline Range exc(const V& v) { return over_ties(v, [&](const V& o) { return ll(v.size()) - cycles_of(o); }, ll(v.size()) - 1); }
}} // namespace
#endif
