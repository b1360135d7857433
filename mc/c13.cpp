// C13: comparison and move weights of the fixed-size sorters, and the truth of their traits.
#include "spaces.hpp"
#include "elem.hpp"
#include <cpp-sort/sorter_traits.h>
using namespace mc;
template<std::size_t N> using S_ = cppsort::FAMILY<N>;
static int x_perms;

static u64 g_cmp, g_mov;
struct Mv {     // counts its moves, a swap counts as the three moves of std::swap
    short v;
    explicit Mv(int x): v(short(x)) {}
    Mv(const Mv&) = delete;
    Mv(Mv&& o) noexcept: v(o.v) { ++g_mov; o.v = -1; }
    Mv& operator=(Mv&& o) noexcept { ++g_mov; short t = o.v; o.v = -1; v = t; return *this; }
};
struct CntLess {
    bool operator()(short a, short b) const { ++g_cmp; return a < b; }
    bool operator()(const Mv& a, const Mv& b) const { ++g_cmp; return a.v < b.v; }
};
static const u64 DOC_C[] = {0, 0, 2, 16, 112, 832, 6912, 62784, 623232, 6759936, 79937280, 1020833280ull, 15167554560ull, 223436206080ull};
static const u64 DOC_M[] = {0, 0, 3, 17, 122, 898, 7188, 63276, 612048, 6476112, 74558880, 929011680ull, 12465394560ull, 179294186880ull};

#if WEIGHT
template<int N> static void block(u64 b, int pre, const char* name, volatile u64& total) {
    static S_<N> s;
    int p[N]; bool used[N] = {}; int f[32];
    u64 r = b, cnt = 0;
    for (int i = pre - 1; i >= 0; --i) { f[i] = int(r % u64(N - i)); r /= u64(N - i); }
    for (int i = 0; i < pre; ++i) { int q = f[i], c = 0; for (;; ++c) if (!used[c] && q-- == 0) break; used[c] = true; p[i] = c; }
    int k = pre; for (int c = 0; c < N; ++c) if (!used[c]) p[k++] = c;
    desc().keys = p; desc().n = N;
    do {
#if WEIGHT == 1
        short v[N];
        for (int i = 0; i < N; ++i) v[i] = short(p[i]);
        s(v, v + N, CntLess{});
        for (int i = 0; i < N; ++i) if (v[i] != i) fail("%s: a permutation is not sorted: position %d holds %d", name, i, v[i]);
#else
        alignas(Mv) char raw[sizeof(Mv) * N]; Mv* v = reinterpret_cast<Mv*>(raw);
        for (int i = 0; i < N; ++i) ::new (static_cast<void*>(v + i)) Mv(p[i]);
        s(v, v + N, CntLess{});
        for (int i = 0; i < N; ++i) if (v[i].v != i) fail("%s: a permutation is not sorted: position %d holds %d", name, i, v[i].v);
#endif
        ++cnt;
    } while (std::next_permutation(p + pre, p + N));
    desc().keys = nullptr;
    total = total + cnt;
}
template<int N> static void reg_weight() {
    static const std::string nm = std::string(FAMILY_NAME) + "<" + std::to_string(N) + ">";
    const int pre = N > 6 ? N - 6 : 0;
    u64 blocks = 1; for (int i = 0; i < pre; ++i) blocks *= u64(N - i);
    const u64 all = factorial(N);
    add_job(nm + "/weight", 1, [pre, blocks, all](u64) {
        // the blocks are split over forked workers, the sums are collected in shared memory
        struct Part { volatile u64 cmp, mov, cnt; };
        enum { K = 8 };
        int k = blocks < 64 ? 1 : K;
        auto* part = static_cast<Part*>(mmap(nullptr, sizeof(Part) * K, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        pid_t pids[K];
        for (int w = 0; w < k; ++w) {
            pids[w] = fork();
            if (pids[w] == 0) {
                for (u64 b = u64(w); b < blocks; b += u64(k)) { block<N>(b, pre, nm.c_str(), part[w].cnt); if (w == 0) sh().seq = sh().seq + 1; }
                part[w].cmp = g_cmp; part[w].mov = g_mov;
                _exit(0);
            }
        }
        bool ok = true;
        for (int w = 0; w < k; ++w) { int st; waitpid(pids[w], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) ok = false; }
        if (sh().failed) _exit(40);
        if (!ok) fail("%s: crash while sorting permutations", nm.c_str());
        u64 cnt = 0, sum = 0;
        for (int w = 0; w < k; ++w) { cnt += part[w].cnt; sum += WEIGHT == 1 ? part[w].cmp : part[w].mov; }
        munmap(part, sizeof(Part) * K);
        sh().evals = sh().evals + cnt; sh().nontrivial = sh().nontrivial + cnt; sh().steps = sh().steps + sum;
        sh().extra[x_perms] = sh().extra[x_perms] + cnt;
        if (cnt != all) fail("%s: internal error: %lu of %lu permutations", nm.c_str(), cnt, all);
        u64 doc = WEIGHT == 1 ? DOC_C[N] : DOC_M[N];
        if (sum > doc) fail("%s: %lu %s over all %lu permutations, documented weight %lu", nm.c_str(), sum, WEIGHT == 1 ? "comparisons" : "moves", all, doc);
    }, 300);
}
#endif

#if TRAITS
// the domain has to be exactly the set of valid sizes, stability has to be true where it is claimed
template<typename T, typename = void> struct dom { static constexpr bool has = false; static std::vector<int> get() { return {}; } };
template<std::size_t... I> static std::vector<int> seq(std::index_sequence<I...>) { return {int(I)...}; }
template<typename T> struct dom<T, decltype(void(typename T::domain{}))> { static constexpr bool has = true; static std::vector<int> get() { return seq(typename T::domain{}); } };

template<int N> static void reg_stable() {
    using S = S_<N>;
    static const std::string nm = std::string(FAMILY_NAME) + "<" + std::to_string(N) + ">";
    static_assert(std::is_same<cppsort::iterator_category<S>, std::random_access_iterator_tag>::value, "category");
    constexpr bool always = cppsort::is_always_stable_v<S>;
    using I = It<Elem, 2>;
    constexpr bool c1 = cppsort::is_stable<S(I, I, Less)>::value, c2 = cppsort::is_stable<S(I, I, KeyLess<false>, KeyOf)>::value;
    add_job(nm + "/claims", 1, [always](u64) {
        if (std::string(FAMILY_NAME) == "sorting_network_sorter" && always != (N <= 3)) fail("%s: networks 0 to 3 are documented to be marked as stable, the others as unstable", nm.c_str());
        if (always && (!c1 || !c2)) fail("%s: always stable but is_stable is false for a call", nm.c_str());
        count_eval(true, 0);
    });
    if (c1 || c2 || always) {
        std::vector<Space> sp;
        if (N <= 7) sp.push_back(weak_orders(N));
        if (N >= 2 && N <= 14) sp.push_back(words(2, N));
        if (N > 14) sp.push_back(switch_words(2, N, 2));
        add_space_jobs(nm + "/stable", sp, [](const Input& in) {
            static Arr<Elem> a;
            for (int k = 0; k < 2; ++k) {
                a.fill(in.k, in.n); W().reset(); a.arm();
                if (k) S{}(a.begin<2>(), a.end<2>(), KeyLess<false>{}, KeyOf{}); else S{}(a.begin<2>(), a.end<2>(), Less{});
                check_sorted_perm(nm.c_str(), a.d, in.n, in.k.data(), false, k ? c2 : c1);
                count_eval(true, W().cmps);
            }
        });
    }
}
#endif

MC_JOBS {
    x_perms = extra_id("permutations");
#define X(N) reg_weight<N>();
#if WEIGHT
    NS
#endif
#undef X
#if TRAITS
    add_job(std::string(FAMILY_NAME) + "/domain", 1, [](u64) {
        using F = cppsort::fixed_sorter_traits<cppsort::FAMILY>;
        std::vector<int> want, got = dom<F>::get();
        for (int i = 0; i <= DOMAIN_MAX; ++i) want.push_back(i);
        if (DOMAIN_MAX >= 0 && !dom<F>::has) fail("fixed_sorter_traits<%s> has no domain", FAMILY_NAME);
        if (dom<F>::has && DOMAIN_MAX >= 0) { std::sort(got.begin(), got.end()); if (got != want) fail("fixed_sorter_traits<%s>::domain is not 0 to %d", FAMILY_NAME, DOMAIN_MAX); }
        if (std::is_same<F::is_always_stable, std::true_type>::value) fail("fixed_sorter_traits<%s> claims that every specialization is stable", FAMILY_NAME);
        static_assert(std::is_same<F::iterator_category, std::random_access_iterator_tag>::value, "category");
        count_eval(true, 0);
    });
#define X(N) reg_stable<N>();
    NS
#undef X
#endif
}
