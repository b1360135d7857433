// C11: fixed-size sorters. FAMILY = class template, NS = X-list of sizes.
#include "spaces.hpp"
#include "elem.hpp"
#include <cpp-sort/utility/functional.h>
#include <array>
using namespace mc;

template<std::size_t N> using S_ = cppsort::FAMILY<N>;
static const char* NAME(const char* what) { return what; }

template<typename R> static void run_elem(const Input& in, bool desc_order, bool stable, R r, const char* what) {
    static Arr<Elem> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm();
    w.cmp_budget = generous_budget(in.n);
    r(a);
    if (w.live != in.n) fail("%s: %ld live elements after sorting %d", what, long(w.live), in.n);
    check_sorted_perm(what, a.d, in.n, in.k.data(), desc_order, stable);
    note_behaviour(w.trace + (desc_order ? 0 : 1));
    count_eval(!in.sorted(), w.cmps + w.projs);
}

// plain values, guard zones on both sides, exact multiset
template<typename T, int N, typename R>
static void run_plain(const Input& in, R r, bool desc_order, const char* what) {
    struct { T pre[4]; T v[N ? N : 1]; T post[4]; } b;
    auto val = [](int k) -> T {
        if (std::is_floating_point<T>::value) { int m = ((k % 4) + 4) % 4; return m == 0 ? T(0.0) : m == 1 ? T(-0.0) : m == 2 ? T(k) / T(4) : -T(k); }
        if (std::is_signed<T>::value) return T(k % 3 ? T(k) : T(-k));
        return T(k);
    };
    auto hash = [](T x) { u64 h = 0; std::memcpy(&h, &x, sizeof(T) < 8 ? sizeof(T) : 8); return mix(h + 991); };
    const T guard = T(77);
    for (T& x : b.pre) x = guard;
    for (T& x : b.post) x = guard;
    u64 h0 = 0, h1 = 0;
    for (int i = 0; i < N; ++i) { b.v[i] = val(in[i]); h0 += hash(b.v[i]); }
    r(b.v, b.v + N);
    for (int i = 0; i < N; ++i) h1 += hash(b.v[i]);
    for (int i = 1; i < N; ++i) if (desc_order ? b.v[i - 1] < b.v[i] : b.v[i] < b.v[i - 1]) fail("%s: not sorted at position %d", what, i);
    if (h0 != h1) fail("%s: the result does not hold exactly the values of the input", what);
    for (int i = 0; i < 4; ++i) if (b.pre[i] != guard || b.post[i] != guard) fail("%s: write outside the range", what);
    count_eval(!in.sorted(), 0);
}

struct Rec { int key; int id; };
static int rec_neg(const Rec& r) { return -r.key; }

template<int N> static void reg() {
    static S_<N> s;
    static const std::string nm = std::string(FAMILY_NAME) + "<" + std::to_string(N) + ">";
    static const char* cn = nm.c_str();
    const bool stable = N <= STABLE_UPTO;
    bool t = thorough();
    std::vector<Space> sp, mid;
    int wo = t ? (N <= 9 ? N : 0) : (N <= 7 ? N : 0);
    if (N <= (t ? 9 : 7)) sp.push_back(weak_orders(N));
    (void)wo;
    if (N >= 2 && N <= (t ? 20 : 14)) sp.push_back(words(2, N));
    if (N >= 2 && N <= (t ? 12 : 9)) sp.push_back(words(3, N));
    if (N >= 8) {
        sp.push_back(shapes(N));
        for (int k = 1; k <= (N <= 16 ? 4 : N <= 33 ? 3 : 2); ++k) sp.push_back(switch_words(2, N, k));
        sp.push_back(switch_words(3, N, 2));
        sp.push_back(deviations(N, N <= 16 ? 1 : N <= 32 ? (t ? 1 : 5) : (t ? 3 : 12)));
        int p = N <= 13 ? 13 : N <= 31 ? 31 : N <= 67 ? 67 : 131;
        sp.push_back(linear_mod(p, N)); sp.push_back(inversive_mod(p, N, p)); sp.push_back(inversive_mod(p, N, p, 5));
        sp.push_back(quadratic_mod(p, N, t ? p - 1 : 6, p));
        if (N <= 10 && t) sp.push_back(perms(N));
    }
    auto cmp = [stable](const Input& in) { run_elem(in, false, stable, [](Arr<Elem>& a) { s(a.begin<2>(), a.end<2>(), Less{}); }, cn); };
    auto prj = [stable](const Input& in) { run_elem(in, true, stable, [](Arr<Elem>& a) { s(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{}); }, cn); };
    add_space_jobs(nm + "/elem", sp, cmp);
    std::vector<Space> sp2;
    for (auto& x : sp) if (x.size <= (t ? 2000000u : 20000u)) sp2.push_back(x);
    add_space_jobs(nm + "/proj", sp2, prj);
    // plain values: the library has branch-free code for these
    add_space_jobs(nm + "/int", sp2, [](const Input& in) { run_plain<int, N>(in, [](int* f, int* l) { s(f, l); }, false, cn); });
    add_space_jobs(nm + "/int-greater", sp2, [](const Input& in) { run_plain<int, N>(in, [](int* f, int* l) { s(f, l, std::greater<>{}); }, true, cn); });
    if (N <= 24 || N % 8 == 0) {
        add_space_jobs(nm + "/double", sp2, [](const Input& in) { run_plain<double, N>(in, [](double* f, double* l) { s(f, l); }, false, cn); });
        add_space_jobs(nm + "/float-greater", sp2, [](const Input& in) { run_plain<float, N>(in, [](float* f, float* l) { s(f, l, std::greater<>{}); }, true, cn); });
        add_space_jobs(nm + "/ushort", sp2, [](const Input& in) { run_plain<unsigned short, N>(in, [](unsigned short* f, unsigned short* l) { s(f, l, std::less<>{}, cppsort::utility::identity{}); }, false, cn); });
        // whole-array call with a pointer to member projection
        add_space_jobs(nm + "/member", sp2, [](const Input& in) {
            std::array<Rec, N> a{};
            u64 m = 0;
            for (int i = 0; i < N; ++i) a[std::size_t(i)] = Rec{in[i], i};
            s(a, std::greater<>{}, &Rec::key);
            for (int i = 0; i < N; ++i) {
                const Rec& r = a[std::size_t(i)];
                if (i && a[std::size_t(i - 1)].key < r.key) fail("%s, member projection: not sorted at position %d", cn, i);
                if (r.id < 0 || r.id >= N || (m >> r.id & 1) || r.key != in[r.id]) fail("%s, member projection: not a permutation", cn);
                m |= 1ull << r.id;
            }
            count_eval(!in.sorted(), 0);
        });
    }
}

// every permutation of 0..n-1 by blocks sharing a prefix (plain shorts, ordinary comparison)
template<int N> static void reg_perms() {
    static S_<N> s;
    static const std::string nm = std::string(FAMILY_NAME) + "<" + std::to_string(N) + ">";
    const int pre = N > 4 ? N - 6 > 0 ? N - 6 : 0 : 0;   // blocks of up to 720 permutations
    u64 blocks = 1; for (int i = 0; i < pre; ++i) blocks *= u64(N - i);
    add_job(nm + "/allperms-int", blocks, [pre](u64 b) {
        int p[N]; bool used[N] = {};
        u64 x = b;
        int f[32]; u64 r = x;
        for (int i = pre - 1; i >= 0; --i) { f[i] = int(r % u64(N - i)); r /= u64(N - i); }
        for (int i = 0; i < pre; ++i) { int q = f[i], c = 0; for (;; ++c) if (!used[c] && q-- == 0) break; used[c] = true; p[i] = c; }
        int k = pre; for (int c = 0; c < N; ++c) if (!used[c]) p[k++] = c;
        desc().keys = p; desc().n = N;
        do {
            int v[N];
            std::memcpy(v, p, sizeof v);
            s(v, v + N);
            for (int i = 0; i < N; ++i) if (v[i] != i) fail("%s: a permutation is not sorted: position %d holds %d", nm.c_str(), i, v[i]);
            count_eval(true, 0);
        } while (std::next_permutation(p + pre, p + N));
        desc().keys = nullptr;
    });
}

MC_JOBS {
#define X(N) reg<N>();
    NS
#undef X
#define X(N) reg_perms<N>();
    PS
#undef X
}
