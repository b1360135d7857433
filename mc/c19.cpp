// C19: counting_adapter and metrics. XS lists X(name, sorter type, weakest category, stable).
#include "spaces.hpp"
#include "elem.hpp"
#include <chrono>
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/metrics/comparisons.h>
#include <cpp-sort/metrics/moves.h>
#include <cpp-sort/metrics/projections.h>
#include <cpp-sort/metrics/running_time.h>
#include <cpp-sort/utility/functional.h>
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif
template<int Cat> struct Rng {
    It<E, Cat> b, e; std::ptrdiff_t n;
    It<E, Cat> begin() const { return b; }
    It<E, Cat> end() const { return e; }
    std::ptrdiff_t size() const { return n; }
};
struct Obs { u64 cmps, projs, moves, trace, mtrace; std::vector<int> order; };
static Arr<E>& store() { static Arr<E> a; return a; }
template<typename R> static void observe(const Input& in, Obs& o, R r) {
    Arr<E>& a = store();
    World& w = W();
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
    r(a);
    o.cmps = w.cmps; o.projs = w.projs; o.moves = w.moves; o.trace = w.trace; o.mtrace = w.mtrace;
    o.order.clear();
    if (w.live != in.n) fail("%ld live elements", long(w.live));
    for (int i = 0; i < in.n; ++i) { a.d[i].check_alive("result"); o.order.push_back(a.d[i].id); }
}
template<typename M> static u64 value(const M& m) { return u64(m.value()); }
static u64 value(std::size_t m) { return m; }
static u64 value(int m) { return u64(m); }
// kind: 0 comparisons, 1 projections, 2 moves
template<typename D, typename M> static void same(const char* who, int kind, const Input& in, D direct, M metric) {
    static Obs d, m;
    u64 result = 0;
    observe(in, d, direct);
    observe(in, m, [&](Arr<E>& a) { result = metric(a); });
    if (m.order != d.order) fail("%s: the result differs from that of the adapted sorter", who);
    if ((kind == 0 || kind == 4) && result != d.cmps) fail("%s: reports %lu comparisons, the adapted sorter makes %lu", who, result, d.cmps);
    if (kind == 1 && result != d.projs) fail("%s: reports %lu projections, the adapted sorter makes %lu", who, result, d.projs);
    if (kind == 2 && result != d.moves) fail("%s: reports %lu moves, the adapted sorter makes %lu", who, result, d.moves);
    if (kind != 4 && m.cmps != d.cmps) fail("%s: %lu comparator calls, without it %lu", who, m.cmps, d.cmps);
    if (m.projs != d.projs) fail("%s: %lu projections, without it %lu", who, m.projs, d.projs);
    if (m.trace != d.trace) fail("%s: the sequence of comparisons and projections changed", who);
    if (kind != 2 && (m.mtrace != d.mtrace || m.moves != d.moves)) fail("%s: the sequence of moves changed", who);
    note_behaviour(d.trace ^ d.mtrace * 3);
    count_eval(!in.sorted(), d.cmps + d.moves + d.projs);
}
// functions that the user declares branchless: the adapted sorter has to take the same path when it is observed
struct BLess: KeyLess<true> {};
struct BKey: KeyOf {};
namespace cppsort { namespace utility {
    template<> struct is_probably_branchless_comparison<BLess, int>: std::true_type {};
    template<> struct is_probably_branchless_projection<BKey, E>: std::true_type {};
}}
template<typename S, int Cat> static void all(const char* name) {
    static S s;
    bool t = thorough();
    std::vector<Space> sp;
    for (int n = 0; n <= (t ? 7 : 5); ++n) sp.push_back(weak_orders(n));
    sp.push_back(words(2, t ? 13 : 9));
    for (int n : {8, 16, 17, 20, 32, 33, 40, 64, 65, 81, 100, 130, 200, 300}) sp.push_back(shapes(n));
    sp.push_back(linear_mod(61, 61)), sp.push_back(linear_mod_few(127, 127, 7)), sp.push_back(inversive_mod(127, 127, 40)), sp.push_back(inversive_mod(331, 331, 20, 50)), sp.push_back(switch_words(2, 34, 2)), sp.push_back(shape_words(35, 2));
    if (t) append(sp, medium_spaces(1)), append(sp, large_spaces(1));
    std::vector<Space> few{weak_orders(0), weak_orders(1), weak_orders(2), weak_orders(4), weak_orders(5), shapes(17), shapes(40), shapes(100), linear_mod(61, 61), inversive_mod(127, 127, 20, 20)};
    std::string n = name;
    const char* who = name;
    const std::vector<Space> tiny = few;     // for the 16-bit counter
    if (Cat == 2) append(few, huge_few(n));
#define IT a.template begin<Cat>(), a.template end<Cat>()
    static cppsort::metrics::comparisons<S> mc_; static cppsort::metrics::projections<S> mp; static cppsort::metrics::moves<S> mm; static cppsort::counting_adapter<S> ca;
    static cppsort::metrics::moves<S, unsigned long long> mm64; static cppsort::metrics::comparisons<S, unsigned short> mc16; static cppsort::metrics::projections<S, int> mpi; static cppsort::counting_adapter<S, int> cai;
    add_space_jobs(n + "/comparisons/iter,comp", sp, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT, Less{}); }, [](Arr<E>& a) { return value(mc_(IT, Less{})); }); });
    add_space_jobs(n + "/projections/iter,comp,proj", sp, [=](const Input& in) { same(who, 1, in, [](Arr<E>& a) { s(IT, KeyLess<true>{}, KeyOf{}); }, [](Arr<E>& a) { return value(mp(IT, KeyLess<true>{}, KeyOf{})); }); });
    add_space_jobs(n + "/moves/iter,comp", sp, [=](const Input& in) { same(who, 2, in, [](Arr<E>& a) { s(IT, Less{}); }, [](Arr<E>& a) { return value(mm(IT, Less{})); }); });
    add_space_jobs(n + "/counting/iter,comp,proj", sp, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT, KeyLess<true>{}, KeyOf{}); }, [](Arr<E>& a) { return value(ca(IT, KeyLess<true>{}, KeyOf{})); }); });
    add_space_jobs(n + "/comparisons/range,comp,proj", tiny, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT, KeyLess<true>{}, KeyOf{}); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; return value(mc16(r, KeyLess<true>{}, KeyOf{})); }); });
    add_space_jobs(n + "/projections/range,proj", few, [=](const Input& in) { same(who, 1, in, [](Arr<E>& a) { s(IT, KeyOf{}); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; return value(mpi(r, KeyOf{})); }); });
    add_space_jobs(n + "/moves/range,comp,proj", few, [=](const Input& in) { same(who, 2, in, [](Arr<E>& a) { s(IT, KeyLess<true>{}, KeyOf{}); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; return value(mm64(r, KeyLess<true>{}, KeyOf{})); }); });
    add_space_jobs(n + "/counting/range", few, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; return value(cai(r)); }); });
    if (Cat == 2) {
        std::vector<Space> br{shapes(30), shapes(65), shapes(200), shapes(700), switch_words(2, 40, 2), inversive_mod(127, 127, 20, 20), inversive_mod(1031, 1031, 20), inversive_mod(1031, 1031, 20, 60), shape_words(130, 2)};
        static cppsort::metrics::comparisons<cppsort::metrics::projections<S>> bcp; static cppsort::metrics::projections<cppsort::metrics::comparisons<S, unsigned long long>> bpc;
        static cppsort::metrics::projections<S, int> bp;
        add_space_jobs(n + "/branchless/comparisons", br, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT, BLess{}, BKey{}); }, [](Arr<E>& a) { return value(mc_(IT, BLess{}, BKey{})); }); });
        add_space_jobs(n + "/branchless/projections", br, [=](const Input& in) { same(who, 1, in, [](Arr<E>& a) { s(IT, BLess{}, BKey{}); }, [](Arr<E>& a) { return value(bp(IT, BLess{}, BKey{})); }); });
        add_space_jobs(n + "/branchless/counting", br, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT, BLess{}, BKey{}); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; return value(cai(r, BLess{}, BKey{})); }); });
        add_space_jobs(n + "/branchless/comparisons<projections>", br, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT, BLess{}, BKey{}); }, [](Arr<E>& a) { return value(bcp(IT, BLess{}, BKey{})); }); });
        add_space_jobs(n + "/branchless/projections<comparisons>", br, [=](const Input& in) { same(who, 1, in, [](Arr<E>& a) { s(IT, BLess{}, BKey{}); }, [](Arr<E>& a) { return value(bpc(IT, BLess{}, BKey{})); }); });
    }
#if EXTRA
    static cppsort::metrics::running_time<S> rt; static cppsort::metrics::running_time<S, std::chrono::duration<double>> rtd;
    add_space_jobs(n + "/running_time", few, [=](const Input& in) { same(who, 3, in, [](Arr<E>& a) { s(IT, KeyLess<true>{}, KeyOf{}); }, [](Arr<E>& a) { auto m = rt(IT, KeyLess<true>{}, KeyOf{}); if (m.value().count() < 0) fail("negative running time"); return u64(0); }); });
    add_space_jobs(n + "/running_time/range", few, [=](const Input& in) { same(who, 3, in, [](Arr<E>& a) { s(IT, Less{}); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; auto m = rtd(r, Less{}); if (m.value().count() < 0 || m.value().count() > 60) fail("impossible running time"); return u64(0); }); });
    add_space_jobs(n + "/moves/iter", few, [=](const Input& in) { same(who, 2, in, [](Arr<E>& a) { s(IT); }, [](Arr<E>& a) { return value(mm(IT)); }); });
    add_space_jobs(n + "/moves/range,proj", few, [=](const Input& in) { same(who, 2, in, [](Arr<E>& a) { s(IT, KeyOf{}); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; return value(mm(r, KeyOf{})); }); });
    add_space_jobs(n + "/comparisons/iter", few, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT); }, [](Arr<E>& a) { return value(mc_(IT)); }); });
    add_space_jobs(n + "/comparisons/range,proj", few, [=](const Input& in) { same(who, 4, in, [](Arr<E>& a) { s(IT, KeyLess<false>{}, KeyOf{}); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; return value(mc_(r, KeyOf{})); }); });
    add_space_jobs(n + "/projections/iter,comp", few, [=](const Input& in) { same(who, 3, in, [](Arr<E>& a) { s(IT, Less{}); }, [](Arr<E>& a) { return value(mp(IT, Less{})); }); });
    add_space_jobs(n + "/counting/range,proj", few, [=](const Input& in) { same(who, 4, in, [](Arr<E>& a) { s(IT, KeyLess<false>{}, KeyOf{}); }, [](Arr<E>& a) { Rng<Cat> r{IT, a.n}; return value(ca(r, KeyOf{})); }); });
    // metrics of metrics and of adapters
    static cppsort::counting_adapter<cppsort::counting_adapter<S>> cc;
    add_space_jobs(n + "/counting<counting>", few, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT, Less{}); }, [](Arr<E>& a) { return value(cc(IT, Less{})); }); });
    static cppsort::metrics::moves<cppsort::metrics::comparisons<S>> mmc;
    add_space_jobs(n + "/moves<comparisons>", few, [=](const Input& in) { same(who, 2, in, [](Arr<E>& a) { s(IT, Less{}); }, [](Arr<E>& a) { return value(mmc(IT, Less{})); }); });
    static cppsort::metrics::comparisons<cppsort::metrics::projections<S>> mcp;
    add_space_jobs(n + "/comparisons<projections>", few, [=](const Input& in) { same(who, 0, in, [](Arr<E>& a) { s(IT, KeyLess<true>{}, KeyOf{}); }, [](Arr<E>& a) { return value(mcp(IT, KeyLess<true>{}, KeyOf{})); }); });
#endif
}
MC_JOBS {
#define X(name, type, cat) all<type, cat>(name);
    XS
}
