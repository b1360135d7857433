// Inputs built while the sort runs: McIlroy's adversary ("A killer adversary for quicksort"), which answers comparisons
// so that as little as possible is learnt, in several variants; the input it built is then replayed as an ordinary case.
// A variant fixes the order (values grow / shrink), how many values it assigns before it gives up (the rest tie), and
// which part of the range it controls (the rest is an ordered prefix or suffix).
#ifndef MC_ADVERS_HPP
#define MC_ADVERS_HPP
#include "spaces.hpp"
#include "elem.hpp"
namespace mc {
struct AdvState { std::vector<int> val; int gas = 0, nsolid = 0, limit = 0, candidate = 0; bool desc = false; };
inline AdvState& adv() { static AdvState a; return a; }
struct AdvLess {
    template<typename E> bool operator()(const E& a, const E& b) const {
        World& w = W(); AdvState& s = adv();
        a.check_alive("comparator"); b.check_alive("comparator");
        ++w.cmps;
        if (w.cmps > w.cmp_budget) fail("adversary: more than %lu comparisons: the sort does not terminate or exceeds any documented complexity", w.cmp_budget);
        auto x = std::size_t(a.id), y = std::size_t(b.id);
        if (s.val[x] == s.gas && s.val[y] == s.gas && s.nsolid < s.limit) { if (int(x) == s.candidate) s.val[x] = s.nsolid++; else s.val[y] = s.nsolid++; }
        if (s.val[x] == s.gas) s.candidate = int(x);
        else if (s.val[y] == s.gas) s.candidate = int(y);
        return s.desc ? s.val[y] < s.val[x] : s.val[x] < s.val[y];
    }
};
enum { ADV_VARIANTS = 2 * 4 * 3 };
// sort(Arr<E>&) must call the sorter with AdvLess; replay(const Input&) runs the frozen input as an ordinary case
template<typename E, typename Sort, typename Replay>
inline void adversary_case(int n, int variant, Sort sort, Replay replay) {
    static Arr<E> a; static Input in;
    AdvState& s = adv();
    int lim = (variant / 2) % 4, part = variant / 8;
    s.desc = variant & 1; s.gas = 1 << 24; s.nsolid = 0; s.candidate = 0;
    s.limit = lim == 0 ? n : lim == 1 ? n / 2 : lim == 2 ? n / 4 : n / 9 + 1;
    s.val.assign(std::size_t(n), s.gas);
    if (part == 1) for (int i = 0; i < n / 3; ++i) s.val[std::size_t(i)] = i - 2 * n;     // ordered prefix, below everything
    if (part == 2) for (int i = n - n / 3; i < n; ++i) s.val[std::size_t(i)] = s.gas + 1 + i; // ordered suffix, above everything
    desc().keys = nullptr; desc().text = "adversary, n = " + std::to_string(n) + ", variant " + std::to_string(variant);
    in.resize(n); for (int i = 0; i < n; ++i) in[i] = 0;
    a.fill(in.k, n);
    World& w = W();
    w.reset(); a.arm(); w.cmp_budget = generous_budget(n);
    sort(a);
    check_perm("adversary", a.d, n, in.k.data(), false);
    for (int i = 1; i < n; ++i) {
        int p = s.val[std::size_t(a.d[i - 1].id)], q = s.val[std::size_t(a.d[i].id)];
        if (s.desc ? p < q : q < p) fail("adversary: not sorted at position %d", i);
    }
    count_eval(true, w.cmps);
    for (int i = 0; i < n; ++i) { int v = s.val[std::size_t(i)]; if (v >= s.gas) v = 4 * n + (v - s.gas); in[i] = s.desc ? -v : v; }
    desc().keys = in.k.data(); desc().n = n;
    a.clear();
    replay(static_cast<const Input&>(in));
    desc().text.clear();
}
inline const std::vector<int>& adversary_sizes(int effort) {
    static const std::vector<int> s[4] = {{}, {33, 70, 150, 300}, {20, 33, 48, 65, 100, 129, 150, 200, 260, 300, 400, 520}, {17, 20, 25, 33, 40, 48, 65, 80, 100, 129, 150, 200, 257, 300, 400, 520, 700, 1030, 1500, 2100, 3000, 4200, 9000}};
    return s[effort];
}
template<typename E, typename Sort, typename Replay>
inline void add_adversary_jobs(const std::string& prefix, int effort, Sort sort, Replay replay) {
    add_job(prefix + "/adversary", adversary_sizes(effort).size() * ADV_VARIANTS, [effort, sort, replay](u64 i) {
        adversary_case<E>(adversary_sizes(effort)[i / ADV_VARIANTS], int(i % ADV_VARIANTS), sort, replay);
    }, 60);
}
} // namespace mc
#endif
