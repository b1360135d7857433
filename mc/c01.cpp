// C01: random-access correctness of one sorter.
#include "spaces.hpp"
#include "elem.hpp"
#include "advers.hpp"
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif

template<typename R> static void run(const Input& in, bool desc_order, R r, const char* what) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.cmp_budget = generous_budget(in.n);
    r(a);
    if (w.live != in.n) fail("%s: %ld live elements after sorting %d", what, long(w.live), in.n);
    check_sorted_perm(what, a.d, in.n, in.k.data(), desc_order, S_STABLE);
    note_behaviour(w.trace + (desc_order ? 0 : 1));
    count_eval(!in.sorted(), w.cmps + w.projs);
}

static void run_int(const Input& in) {
    static std::vector<int> v;
    v.assign(in.k.begin(), in.k.begin() + in.n);
    // guard zones: raw pointers are not checked
    static std::vector<int> g;
    g.assign(std::size_t(in.n) + 16, 0x5A5A5A5A);
    for (int i = 0; i < in.n; ++i) g[std::size_t(i + 8)] = in[i];
    auto s = SEXPR;
    u64 h0 = 0, h1 = 0;
    for (int i = 0; i < in.n; ++i) h0 += mix(u64(u32(in[i])) + 12345);
    s(g.data() + 8, g.data() + 8 + in.n);
    for (int i = 0; i < in.n; ++i) h1 += mix(u64(u32(g[std::size_t(i + 8)])) + 12345);
    for (int i = 1; i < in.n; ++i) if (g[std::size_t(i + 8)] < g[std::size_t(i + 7)]) fail("int array: not sorted at position %d", i);
    if (h0 != h1) fail("int array: the result is not a permutation of the input");
    for (int i = 0; i < 8; ++i) if (g[std::size_t(i)] != 0x5A5A5A5A || g[g.size() - 1 - std::size_t(i)] != 0x5A5A5A5A) fail("int array: write outside the range");
    count_eval(!in.sorted(), 0);
}
static void run_vec(const Input& in) {   // range overload, std::greater, std::vector iterators
    static std::vector<int> v;
    v.assign(in.k.begin(), in.k.begin() + in.n);
    u64 h0 = 0, h1 = 0;
    for (int x : v) h0 += mix(u64(u32(x)) + 12345);
    auto s = SEXPR;
    s(v, std::greater<>{});
    for (int x : v) h1 += mix(u64(u32(x)) + 12345);
    for (int i = 1; i < in.n; ++i) if (v[std::size_t(i)] > v[std::size_t(i - 1)]) fail("vector, std::greater: not sorted at position %d", i);
    if (h0 != h1) fail("vector, std::greater: the result is not a permutation of the input");
    count_eval(!in.sorted(), 0);
}
// floating point keys with both zeros: the bits of every element have to survive
static void run_dbl(const Input& in) {
    static std::vector<double> v;
    v.resize(std::size_t(in.n));
    u64 h0 = 0, h1 = 0;
    auto bits = [](double d) { u64 b; std::memcpy(&b, &d, 8); return mix(b + 77); };
    for (int i = 0; i < in.n; ++i) {
        int k = in[i], m = ((k % 4) + 4) % 4;
        v[std::size_t(i)] = m == 0 ? 0.0 : m == 1 ? -0.0 : m == 2 ? double(k) / 4 : -double(k);
        h0 += bits(v[std::size_t(i)]);
    }
    auto s = SEXPR;
    s(v.begin(), v.end());
    for (double d : v) h1 += bits(d);
    for (int i = 1; i < in.n; ++i) if (v[std::size_t(i)] < v[std::size_t(i - 1)]) fail("vector<double>: not sorted at position %d", i);
    if (h0 != h1) fail("vector<double>: the result does not hold exactly the values of the input");
    count_eval(!in.sorted(), 0);
}

MC_JOBS {
    int e = thorough() ? 3 : 2;
    static auto s = SEXPR;
    auto cmp = [](const Input& in) { run(in, false, [](Arr<E>& a) { s(a.begin<2>(), a.end<2>(), Less{}); }, "comparator"); };
    auto prj = [](const Input& in) { run(in, true, [](Arr<E>& a) { s(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); }, "comparator on projections"); };
    add_space_jobs("elem", all_spaces(e), cmp);
    add_adversary_jobs<E>("elem", e, [](Arr<E>& a) { s(a.begin<2>(), a.end<2>(), AdvLess{}); }, [cmp](const Input& in) { cmp(in); run_int(in); });
    add_space_jobs("proj", small_spaces(e), prj);
    add_space_jobs("proj", medium_spaces(e == 3 ? 2 : 1), prj);
    add_space_jobs("proj", large_spaces(1), prj);
    add_space_jobs("int", small_spaces(e), run_int);
    add_space_jobs("int", medium_spaces(2), run_int);
    add_space_jobs("int", large_spaces(e), run_int);
    add_space_jobs("dbl", small_spaces(1), run_dbl);
    add_space_jobs("dbl", medium_spaces(1), run_dbl);
    add_space_jobs("vec", medium_spaces(1), run_vec);
#if S_WORST != 2 && !defined SLOW_MOVES
    // past the 16-bit sizes, and deep enough for recursion on degenerate structures to matter
    std::vector<Space> huge;
    for (int n : {65535, 65536, 65537, 100003}) huge.push_back(shapes(n));
    huge.push_back(inversive_mod(100003, 100003, 2)), huge.push_back(inversive_mod(100003, 100003, 2, 300));
    add_space_jobs("huge-elem", thorough() ? huge : std::vector<Space>{shapes(65537), inversive_mod(70001, 70001, 2), inversive_mod(70001, 70001, 2, 300)}, cmp);
    huge.push_back(shapes(262145)), huge.push_back(inversive_mod(262147, 262147, 2));
    if (thorough()) huge.push_back(shapes(1048577)), huge.push_back(inversive_mod(1048583, 1048583, 1));
    add_space_jobs("huge-int", huge, run_int);
    add_space_jobs("huge-dbl", {shapes(65537), inversive_mod(100003, 100003, 2, 1000)}, run_dbl);
#endif
}
