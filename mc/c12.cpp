// C12: sorting networks. FAMILY, NS as in C11.
// Model: the transition system whose states are 0-1 vectors and whose transitions are the compare-exchange units of
// index_pairs(). All states reachable from all 2^N initial vectors are enumerated (lines not connected yet are kept as
// separate components, so the product is only built when a unit connects them); by the zero-one principle the network
// sorts iff only the N+1 sorted vectors are left. Conformance: the implementation's comparison trace on instrumented
// elements has to equal the list (up to commutation of units on disjoint lines) for every input explored.
#include "spaces.hpp"
#include "elem.hpp"
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/sorting_networks.h>
#include <array>
#include <set>
using namespace mc;
template<std::size_t N> using S_ = cppsort::FAMILY<N>;
using Pairs = std::vector<std::pair<int, int>>;

// ------------------------------------------------------------------ model checker
static int x_states, x_trans, x_traces, x_undecided, x_product;
using V64 = std::vector<u64>;
static void uniq(V64& s) { std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); }
struct Model {
    int n; const Pairs& p; std::vector<std::vector<int>> succ; std::vector<int> indeg, ready, comp; std::vector<V64> st; std::vector<char> done;
    u64 states = 0, trans = 0;
    Model(int n_, const Pairs& p_): n(n_), p(p_), succ(p_.size()), indeg(p_.size(), 0), comp(std::size_t(n_)), st(std::size_t(n_)), done(p_.size(), 0) {
        std::vector<int> last(std::size_t(n), -1);
        for (int k = 0; k < int(p.size()); ++k) for (int l : {p[k].first, p[k].second}) {
            if (last[l] >= 0) { succ[last[l]].push_back(k); ++indeg[k]; }
            last[l] = k;
        }
        for (int k = 0; k < int(p.size()); ++k) if (!indeg[k]) ready.push_back(k);
        for (int i = 0; i < n; ++i) { comp[i] = i; st[i] = {0, 1ull << i}; states += 2; }
    }
    // apply every unit whose two lines are in component a, transitively
    static void close(const Model& m, const std::vector<int>& comp, int a, V64& s, std::vector<int>& indeg, std::vector<int>& ready, std::vector<char>* done, u64& states, u64& trans) {
        for (bool again = true; again;) {
            again = false;
            for (std::size_t q = 0; q < ready.size(); ++q) {
                int k = ready[q]; int i = m.p[k].first, j = m.p[k].second;
                if (comp[i] != a || comp[j] != a) continue;
                ready.erase(ready.begin() + long(q));
                u64 bi = 1ull << i, bj = 1ull << j; bool ch = false;
                for (u64& x : s) if ((x & bi) && !(x & bj)) { x ^= bi | bj; ch = true; }
                trans += s.size();
                if (ch) uniq(s);
                states += s.size();
                if (done) (*done)[k] = 1;
                for (int t : m.succ[k]) if (--indeg[t] == 0) ready.push_back(t);
                again = true; break;
            }
        }
    }
    // 0: only sorted states left, 1: an unsorted one (out), 2: undecided
    int check(u64& out, u64 cap) {
        while (!ready.empty()) {
            std::set<std::pair<int, int>> cand;
            for (int k : ready) cand.insert(std::minmax(comp[p[k].first], comp[p[k].second]));
            double best = 1e300; std::pair<int, int> bp{-1, -1};
            for (auto c : cand) {
                int a = c.first, b = c.second;
                u64 pr = u64(st[a].size()) * st[b].size();
                if (pr > cap) continue;
                auto cc = comp; for (int& x : cc) if (x == b) x = a;
                V64 r; r.reserve(pr); for (u64 x : st[a]) for (u64 y : st[b]) r.push_back(x | y);
                auto ind = indeg, rd = ready; u64 s0 = 0, t0 = 0;
                close(*this, cc, a, r, ind, rd, nullptr, s0, t0);
                double c1 = double(r.size()) / double(pr);
                if (c1 < best) { best = c1; bp = c; }
            }
            if (bp.first < 0) return product(out);
            int a = bp.first, b = bp.second;
            V64 r; for (u64 x : st[a]) for (u64 y : st[b]) r.push_back(x | y);
            states += r.size();
            V64().swap(st[b]); st[a].swap(r); for (int& x : comp) if (x == b) x = a;
            close(*this, comp, a, st[a], indeg, ready, &done, states, trans);
        }
        return product(out);   // enumerates the (usually single) remaining component
    }
    static void transpose(u64 a[64]) {
        u64 m = 0x00000000FFFFFFFFull;
        for (int j = 32; j; j >>= 1, m ^= m << j)
            for (int k = 0; k < 64; k = ((k | j) + 1) & ~j) { u64 t = ((a[k] >> j) ^ a[k | j]) & m; a[k] ^= t << j; a[k | j] ^= t; }
    }
    // all combinations of the states of the remaining components, 64 at a time, through the remaining units
    int product(u64& out) {
        std::vector<int> cs; u64 tot = 1;
        for (int c = 0; c < n; ++c) if (!st[c].empty()) { cs.push_back(c); if (tot > (1ull << 33) / st[c].size()) return 2; tot *= st[c].size(); }
        Pairs rest; for (std::size_t k = 0; k < p.size(); ++k) if (!done[k]) rest.push_back(p[k]);
        sh().extra[x_product] = sh().extra[x_product] + (rest.empty() ? 0 : tot);
        std::vector<u64> ix(cs.size(), 0);
        u64 a[64], raw[64]; int fill = 0;
        for (u64 q = 0; q < tot; ++q) {
            u64 x = 0;
            for (std::size_t c = 0; c < cs.size(); ++c) x |= st[cs[c]][ix[c]];
            raw[fill++] = x;
            for (std::size_t c = 0; c < cs.size(); ++c) { if (++ix[c] < st[cs[c]].size()) break; ix[c] = 0; }
            if (fill == 64 || q + 1 == tot) {
                for (int f = fill; f < 64; ++f) raw[f] = raw[0];
                std::memcpy(a, raw, sizeof a);
                transpose(a);     // bit b of word w moves to bit w of word b
                for (auto& e : rest) { u64 lo = a[e.first] & a[e.second], hi = a[e.first] | a[e.second]; a[e.first] = lo; a[e.second] = hi; }
                u64 bad = 0;
                for (int l = 0; l + 1 < n; ++l) bad |= a[l] & ~a[l + 1];
                trans += u64(fill) * rest.size(); if (!rest.empty()) states += u64(fill);
                if (bad) { int b = __builtin_ctzll(bad); out = 0; for (int l = 0; l < n; ++l) out |= (a[l] >> b & 1) << l; return 1; }
                fill = 0;
                if ((q >> 6) % 65536 == 65535) sh().seq = sh().seq + 1;
            }
        }
        return 0;
    }
};

// ------------------------------------------------------------------ trace recorder
static const Elem* g_base; static int g_n; static u64 g_lines[128]; static u64 g_len;
static void note(int i, int j) {
    if (i < 0 || j < 0 || i >= g_n || j >= g_n) fail("comparison of something outside the range");
    if (i == j) fail("an element is compared with itself");
    g_lines[i] = mix(g_lines[i] * 131 + u64(j) + 1); g_lines[j] = mix(g_lines[j] * 131 + u64(i) + 1); ++g_len;
}
struct Rec {
    bool operator()(const Elem& a, const Elem& b) const { a.check_alive("comparator"); b.check_alive("comparator"); note(int(&a - g_base), int(&b - g_base)); return a.key < b.key; }
};
struct Adr { const Elem& operator()(const Elem& e) const { return e; } };

template<typename Run>
static void traced(const Input& in, const Pairs& p, Run run, const char* what, bool must_sort) {
    static Arr<Elem> a;
    static u64 want[128];
    a.fill(in.k, in.n);
    W().reset(); a.arm();
    g_n = in.n; g_base = a.d;
    std::memset(g_lines, 0, sizeof g_lines); g_len = 0;
    for (auto& e : p) note(e.first, e.second);
    std::memcpy(want, g_lines, sizeof want);
    std::memset(g_lines, 0, sizeof g_lines); g_len = 0;
    run(a.begin<2>(), a.end<2>());
    if (g_len != p.size()) fail("%s: %lu comparisons for a list of %lu index pairs", what, g_len, u64(p.size()));
    for (int i = 0; i < in.n; ++i) if (g_lines[i] != want[i]) fail("%s: the comparisons made on position %d are not those of the list of index pairs", what, i);
    if (must_sort) check_sorted_perm(what, a.d, in.n, in.k.data());
    else {
        // effect of the list on the keys
        std::vector<int> k(in.k.begin(), in.k.begin() + in.n);
        for (auto& e : p) if (k[std::size_t(e.second)] < k[std::size_t(e.first)]) std::swap(k[std::size_t(e.first)], k[std::size_t(e.second)]);
        check_perm(what, a.d, in.n, in.k.data(), false);
        for (int i = 0; i < in.n; ++i) if (a.d[i].key != k[std::size_t(i)]) fail("%s: position %d holds %d, the list of compare-exchanges gives %d", what, i, a.d[i].key, k[std::size_t(i)]);
    }
    if (W().live != in.n) fail("%s: %ld live elements", what, long(W().live));
    sh().extra[x_traces] = sh().extra[x_traces] + 1;
    count_eval(true, g_len);
}

static u64 merge_ce(int m, int n) {   // Batcher's odd-even merge
    if (m == 0 || n == 0) return 0;
    if (m * n <= 1) return 1;
    return merge_ce((m + 1) / 2, (n + 1) / 2) + merge_ce(m / 2, n / 2) + u64((m + n - 1) / 2);
}
static u64 sort_ce(int n) { return n < 2 ? 0 : sort_ce((n + 1) / 2) + sort_ce(n / 2) + merge_ce((n + 1) / 2, n / 2); }
static const int DOC[] = {0, 0, 1, 3, 5, 9, 12, 16, 19, 25, 29, 35, 39, 45, 51, 56, 60, 71, 77, 85, 91, 99, 106, 114, 120, 130, 139, 147, 155, 164, 172, 180, 185,
    199, 209, 220, 227, 240, 250, 259, 265, 282, 291, 303, 309, 324, 332, 340, 346, 365, 376, 387, 395, 411, 421, 432, 438, 454, 465, 476, 483, 497, 506, 515, 521};

template<typename A> static Pairs to_pairs(const A& a) { Pairs p; for (auto& e : a) p.push_back({int(e.first), int(e.second)}); return p; }

template<int N> static void reg() {
    static S_<N> s;
    static const std::string nm = std::string(FAMILY_NAME) + "<" + std::to_string(N) + ">";
    static const char* cn = nm.c_str();
    static constexpr auto arr = S_<N>::template index_pairs<>();     // has to be usable in constant expressions
    static const Pairs p = to_pairs(arr);
    bool t = thorough();
    add_job(nm + "/list", 1, [](u64) {
        if (to_pairs(S_<N>::template index_pairs<int>()) != p || to_pairs(S_<N>::template index_pairs<short>()) != p || to_pairs(S_<N>::template index_pairs<long long>()) != p)
            fail("%s: index_pairs depends on the index type", cn);
        static_assert(std::is_same<std::decay_t<decltype(arr[0].first)>, std::ptrdiff_t>::value, "default index type");
        for (auto& e : p) if (!(0 <= e.first && e.first < e.second && e.second < N)) fail("%s: index pair (%d, %d) is not ordered or out of range", cn, e.first, e.second);
        u64 doc = NET_DOC ? u64(DOC[N < 65 ? N : 0]) : sort_ce(N);
        if (p.size() > doc) fail("%s: %lu compare-exchange units, documented or defined number: %lu", cn, u64(p.size()), doc);
        count_eval(N > 1, p.size());
    });
    if (N >= 2 && N <= 64) add_job(nm + "/states", 1, [](u64) {
        Model m(N, p); u64 out = 0;
        int r = m.check(out, 3000000);
        sh().extra[x_states] = sh().extra[x_states] + m.states; sh().extra[x_trans] = sh().extra[x_trans] + m.trans;
        if (r == 2) { sh().extra[x_undecided] = sh().extra[x_undecided] + 1; }
        if (r == 1) {
            std::string v; for (int i = 0; i < N; ++i) v += char('0' + (out >> i & 1));
            fail("%s: not a sorting network: a zero-one input leads to %s", cn, v.c_str());
        }
        count_eval(true, m.trans);
    }, 600);
    // conformance of the implementation with the list
    std::vector<Space> sp;
    if (N <= 6) for (auto& x : {weak_orders(N)}) sp.push_back(x);
    if (N >= 2 && N <= (t ? 16 : 10)) sp.push_back(words(2, N));
    if (N > 6) {
        sp.push_back(shapes(N)); sp.push_back(switch_words(2, N, 1));
        if (N <= 24 || t) sp.push_back(switch_words(2, N, 2)), sp.push_back(deviations(N, t ? 2 : 5));
        int q = N <= 13 ? 13 : N <= 31 ? 31 : N <= 67 ? 67 : 131;
        sp.push_back(inversive_mod(q, N, 20)); sp.push_back(linear_mod(q, N));
        if (t) sp.push_back(quadratic_mod(q, N, q - 1, q));
    }
    add_space_jobs(nm + "/conform-op", sp, [](const Input& in) { traced(in, p, [](auto f, auto l) { s(f, l, Rec{}, Adr{}); }, cn, true); });
    std::vector<Space> sp1(sp.begin(), sp.begin() + std::min<long>(2, long(sp.size())));
    add_space_jobs(nm + "/conform-swap", sp1, [](const Input& in) { traced(in, p, [](auto f, auto) { cppsort::utility::swap_index_pairs(f, arr, Rec{}, Adr{}); }, cn, true); });
    if (N <= UNROLL_MAX) add_space_jobs(nm + "/conform-unroll", sp1, [](const Input& in) {
        traced(in, p, [](auto f, auto) { cppsort::utility::swap_index_pairs_force_unroll(f, arr, Rec{}, Adr{}); }, cn, true); });
    // default arguments on plain integers
    add_space_jobs(nm + "/plain", sp1, [](const Input& in) {
        int v[N ? N : 1], w[N ? N : 1], x[N ? N : 1];
        for (int i = 0; i < N; ++i) v[i] = w[i] = x[i] = in[i];
        cppsort::utility::swap_index_pairs(v, arr);
        cppsort::utility::swap_index_pairs(w, arr, std::greater<>{});
        for (int i = 0; i < N; ++i) x[i] = in[i];
        std::sort(x, x + N);
        for (int i = 0; i < N; ++i) if (v[i] != x[i] || w[i] != x[N - 1 - i]) fail("%s: swap_index_pairs on int gives a wrong result", cn);
        count_eval(true, 0);
    });
}

#if LISTS
// every list of L index pairs (any two distinct indices out of M, in any order) on every weak order of M elements
template<int L> static void reg_lists(int m) {
    int base = m * (m - 1); u64 tot = 1; for (int i = 0; i < L; ++i) tot *= u64(base);
    for (int unroll = 0; unroll < 2; ++unroll)
        add_job("lists(len=" + std::to_string(L) + ",lines=" + std::to_string(m) + (unroll ? ",unrolled)" : ")"), tot, [m, base, unroll](u64 idx) {
            std::array<cppsort::utility::index_pair<std::ptrdiff_t>, L> a{};
            Pairs p;
            for (int i = 0; i < L; ++i) {
                int e = int(idx % u64(base)); idx /= u64(base);
                int x = e / (m - 1), y = e % (m - 1); if (y >= x) ++y;
                a[std::size_t(i)] = {x, y}; p.push_back({x, y});
            }
            static Input in; in.resize(m);
            u64 nw = fubini(m);
            for (u64 w = 0; w < nw; ++w) {
                unrank_weak(m, w, in.k.data());
                desc().keys = in.k.data(); desc().n = m;
                if (unroll) traced(in, p, [&](auto f, auto) { cppsort::utility::swap_index_pairs_force_unroll(f, a, Rec{}, Adr{}); }, "swap_index_pairs_force_unroll", false);
                else traced(in, p, [&](auto f, auto) { cppsort::utility::swap_index_pairs(f, a, Rec{}, Adr{}); }, "swap_index_pairs", false);
            }
        });
}
#endif

MC_JOBS {
    x_states = extra_id("states"); x_trans = extra_id("transitions"); x_traces = extra_id("traces");
    x_undecided = extra_id("undecided_networks"); x_product = extra_id("product_states");
#define X(N) reg<N>();
    NS
#undef X
#if LISTS
    reg_lists<0>(3); reg_lists<1>(4); reg_lists<2>(4); reg_lists<3>(4); if (thorough()) reg_lists<4>(4), reg_lists<5>(3); else reg_lists<4>(3);
#endif
}
