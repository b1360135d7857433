// C15: grail_sorter and wiki_sorter with every kind of buffer provider.
// FAMILY: the sorter template. RUNTIME: the size of the buffer is an explored parameter (guarded provider).
#include "spaces.hpp"
#include "elem.hpp"
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>
using namespace mc;
namespace UT = cppsort::utility;
using E = DElem;
using Iter = It<E, 2>;

// ---- a provider whose size is chosen by the harness; the elements around its storage must never be touched
static std::size_t g_size; static std::ptrdiff_t g_arg = -1; static int g_made;
static int x_configs;
template<typename T> struct Guarded {
    enum { G = 8 };
    T* mem; std::size_t n;
    explicit Guarded(std::size_t size): n(g_size) {
        g_arg = std::ptrdiff_t(size); ++g_made;
        mem = static_cast<T*>(::operator new(sizeof(T) * (n + 2 * G)));
        for (std::size_t i = 0; i < n + 2 * G; ++i) ::new (static_cast<void*>(mem + i)) T();
        for (std::size_t i = 0; i < n + 2 * G; ++i) if (i < G || i >= n + G) { mem[i].key = 424242; mem[i].id = -5; }
    }
    Guarded(const Guarded&) = delete;
    ~Guarded() {
        for (std::size_t i = 0; i < n + 2 * G; ++i) {
            if (i < G || i >= n + G) if (mem[i].key != 424242 || mem[i].id != -5 || mem[i].self != &mem[i]) fail("the sorter wrote outside its buffer of %zu elements (offset %ld)", n, long(i) - G);
            mem[i].~T();
        }
        ::operator delete(mem);
    }
    std::size_t size() const { return n; }
    T* begin() { return mem + G; } const T* begin() const { return mem + G; } const T* cbegin() const { return mem + G; }
    T* end() { return mem + G + n; } const T* end() const { return mem + G + n; } const T* cend() const { return mem + G + n; }
    T& operator[](std::size_t i) { if (i >= n) fail("buffer[%zu] accessed, its size is %zu", i, n); return mem[G + i]; }
};
struct RuntimeProvider { template<typename T> using buffer = Guarded<T>; };
// ---- size policies
struct Zero { std::size_t operator()(std::size_t) const { return 0; } };
struct One { std::size_t operator()(std::size_t) const { return 1; } };
struct Twice { std::size_t operator()(std::size_t n) const { return 2 * n + 5; } };
struct AllButOne { std::size_t operator()(std::size_t n) const { return n ? n - 1 : 0; } };

template<typename S, typename F> static void run(S& s, const Input& in, int kind, F after, const char* what) {
    static Arr<E> a;
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
    i64 live = w.live;
    if (kind == 0) s(a.begin<2>(), a.end<2>());
    else if (kind == 1) s(a.begin<2>(), a.end<2>(), Less{});
    else s(a.begin<2>(), a.end<2>(), KeyLess<true>{}, KeyOf{});
    check_sorted_perm(what, a.d, in.n, in.k.data(), kind == 2, true);
    if (w.live != live) fail("%s: %ld elements are alive after the sort instead of %ld", what, long(w.live), long(live));
    after();
    bool nt = !std::is_sorted(in.k.begin(), in.k.begin() + in.n);
    note_behaviour(w.trace + u64(kind)); count_eval(nt, w.cmps + w.projs);
}
#if RUNTIME
static void run_size(const Input& in, std::size_t size, int kind) {
    static cppsort::FAMILY<RuntimeProvider> s;
    g_size = size; g_arg = -1; g_made = 0;
    desc().text = "buffer of " + std::to_string(size);
    run(s, in, kind, [&] {
        if (g_made > 1) fail("%d buffers were requested for one sort", g_made);
        if (g_made && g_arg != in.n) fail("the buffer was asked for %ld elements, the collection has %d", long(g_arg), in.n);
    }, "runtime-sized buffer");
    ++sh().extra[x_configs];
}
#endif
MC_JOBS {
    bool t = thorough();
    x_configs = extra_id("input x buffer size configurations");
#if RUNTIME
    // every buffer size from 0 to beyond the size of the collection, for every input of the space
    auto all_sizes = [](const Input& in) { for (int b = 0; b <= in.n + 3; ++b) run_size(in, std::size_t(b), b % 3); };
    auto some_sizes = [](const Input& in) {
        std::size_t n = std::size_t(in.n), last = ~std::size_t(0);
        std::size_t sq = 1; while ((sq + 1) * (sq + 1) <= n) ++sq;
        std::vector<std::size_t> v = {0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, sq - 1, sq, sq + 1, 2 * sq, 2 * sq + 1, n / 4, n / 2 - 1, n / 2, n / 2 + 1, n - 1, n, n + 1, 2 * n};
        std::sort(v.begin(), v.end());
        int k = 0; for (auto b : v) if (b != last && b <= 2 * n) { run_size(in, b, ++k % 3); last = b; }
    };
    std::vector<Space> small, mid, large;
    for (int n = 0; n <= (t ? 7 : 6); ++n) small.push_back(weak_orders(n));
    for (int n = 10; n <= (t ? 14 : 12); ++n) small.push_back(words(2, n));
    for (int n : {15, 16, 17, 20, 24, 31, 32, 33}) mid.push_back(shape_words(n, 2)), mid.push_back(switch_words(2, n, t ? 3 : 2));
    for (int n : {40, 48, 63, 64, 65, 100, 127, 128, 129}) mid.push_back(shapes(n)), mid.push_back(switch_words(2, n, 1)), mid.push_back(switch_words(3, n, 1));
    for (int k : {2, 3, 5, 8, 13, 33}) mid.push_back(inversive_mod(67, 60, t ? 67 : 17, k)), mid.push_back(inversive_mod(131, 128, t ? 60 : 10, k));
    mid.push_back(inversive_mod(67, 67, 30)), mid.push_back(inversive_mod(131, 131, 20));
    for (int n : {255, 256, 257, 511, 513, 1023, 1025}) large.push_back(shapes(n));
    for (int k : {2, 3, 6, 11, 15, 16, 17, 30, 35, 70, 200}) large.push_back(inversive_mod(257, 250, t ? 60 : 9, k)), large.push_back(inversive_mod(521, 519, t ? 30 : 4, k)), large.push_back(inversive_mod(1031, 1031, t ? 12 : 2, k));
    large.push_back(inversive_mod(257, 257, t ? 60 : 12)), large.push_back(inversive_mod(1031, 1029, t ? 20 : 4)), large.push_back(shape_words(260, 2));
    large.push_back(inversive_mod(4099, 4097, 2)), large.push_back(inversive_mod(4099, 4097, 2, 90)), large.push_back(inversive_mod(2053, 2050, 2, 40));
    // past the 16-bit sizes: around the square root, a fixed size of the library, nothing
    add_space_jobs("huge", {inversive_mod(70001, 70001, 1, 60)}, [](const Input& in) { int k = 0; for (std::size_t b : {std::size_t(0), std::size_t(263), std::size_t(512), std::size_t(35001)}) run_size(in, b, ++k % 3); });
    add_space_jobs("all-sizes", small, all_sizes); add_space_jobs("all-sizes", mid, all_sizes); add_space_jobs("critical-sizes", large, some_sizes);
#else
    auto reg = [&](const char* nm, auto s, auto expect) {
        static auto st = s;
        std::string name = nm;
        auto f = [name, expect](const Input& in) {
            for (int kind = 0; kind < 3; ++kind) run(st, in, kind, [] {}, name.c_str());
            ++sh().extra[x_configs]; (void)expect;
        };
        std::vector<Space> sp;
        for (int n = 0; n <= (t ? 7 : 6); ++n) sp.push_back(weak_orders(n));
        for (int n : {11, 12}) sp.push_back(words(2, t ? n : n - 2));
        for (int n : {16, 17, 24, 33, 65}) sp.push_back(shape_words(n, 2));
        sp.push_back(switch_words(2, 66, 2)), sp.push_back(switch_words(3, 40, 1));
        for (int k : {2, 4, 9, 20, 60}) sp.push_back(inversive_mod(131, 128, 20, k)), sp.push_back(inversive_mod(257, 250, 10, k)), sp.push_back(inversive_mod(521, 519, 6, k));
        for (int k : {3, 17, 45, 300, 3000}) sp.push_back(inversive_mod(1031, 1031, 6, k)), sp.push_back(inversive_mod(2053, 2050, 2, k));
        sp.push_back(shapes(513)), sp.push_back(shapes(1025)), sp.push_back(shape_words(300, 2));
        add_space_jobs(nm, sp, f);
    };
#define P(...) reg(#__VA_ARGS__, cppsort::FAMILY<__VA_ARGS__>{}, 0)
    PROVIDERS
#endif
}
