// C06: the n-th allocation fails (each n), all allocations from the n-th on fail (each n), no block above m bytes is
// available (each m); and the product of limited memory with an exception at every callback / move point.
#define MC_COUNTED_IT 1
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
using namespace mc;
#if S_DC
using E = DElem;
using TE = DTElem;
#else
using E = Elem;
using TE = TElem;
#endif
static auto s = SEXPR;
struct Plan { u64 fail_at = 0, fail_from = 0, max_size = ~0ull; };
// returns the number of allocations requested
template<typename T, typename R> static u64 one(const Input& in, bool desc_order, R& r, const char* what, const Plan& p, u64 throw_any, u64* points) {
    static Arr<T> a;
    World& w = W();
    char b[160];
    snprintf(b, sizeof b, "%s: failing allocation %lu, all from %lu, blocks above %ld bytes; exception at point %lu", what, p.fail_at, p.fail_from, long(p.max_size), throw_any);
    desc().text = b;
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
    w.throw_any = throw_any;
    H() = Heap{}; H().armed = true;
    H().fail_at = p.fail_at; H().fail_from = p.fail_from; H().max_size = p.max_size;
    int how = 0;
    try { r(a); }
    catch (const std::bad_alloc&) { how = 1; }
    catch (const Injected&) { how = 2; }
    catch (...) { how = 3; }
    H().armed = false;
    if (how == 3) fail("an exception other than bad_alloc (or the injected one) reached the caller");
    if (how == 2 && !throw_any) fail("unexpected exception");
    if (how == 1 && !H().failed) fail("std::bad_alloc although no allocation failed");
    if (how == 1 && S_SAFE) fail("std::bad_alloc although the sorter is documented not to throw it");
    if (w.iters) fail("%ld iterators created by the sort are still alive after %s", long(w.iters), how ? "an exception" : "it");
    if (w.live != in.n) fail("%ld live elements instead of %d after %s (leak or double destruction)", long(w.live), in.n, how ? "an exception" : "the sort");
    if (H().outstanding) fail("%ld heap blocks not released", long(H().outstanding));
    if (how == 0) {
        if (w.thrown) fail("the injected exception did not reach the caller");
        check_sorted_perm("result", a.d, in.n, in.k.data(), desc_order, S_STABLE);
    } else check_perm("after the exception", a.d, in.n, in.k.data(), true);
    note_behaviour(w.trace * 3 + u64(how));
    count_eval(H().failed > 0, w.any);
    sh().seq = sh().seq + 1;
    if (points) *points = w.any;
    return H().count;
}
template<typename T, typename R> static void explore(const Input& in, bool desc_order, R r, const char* what, bool dense) {
    u64 A = one<T>(in, desc_order, r, what, Plan{}, 0, nullptr);
    u64 mb = H().max_block;
    auto next = [&](u64 k) { return k + (dense || k < 24 || k + 8 >= A ? 1 : A / 24 + 1); };
    for (u64 k = 1; k <= A; k = next(k)) one<T>(in, desc_order, r, what, Plan{k, 0, ~0ull}, 0, nullptr);
    for (u64 k = 1; k <= A; k = next(k)) one<T>(in, desc_order, r, what, Plan{0, k, ~0ull}, 0, nullptr);
    if (!A) return;
    if (dense) for (u64 m = 0; m < mb; m += sizeof(T)) one<T>(in, desc_order, r, what, Plan{0, 0, m}, 0, nullptr);
    else { u64 last = ~0ull; for (u64 m = 0; m < mb; m = m < 4 * sizeof(T) ? m + sizeof(T) : m * 5 / 3) if (m / sizeof(T) != last) { last = m / sizeof(T); one<T>(in, desc_order, r, what, Plan{0, 0, m}, 0, nullptr); } }
    desc().text.clear();
}
// limited memory x exception at each point
template<typename R> static void product(const Input& in, R r) {
    u64 A = one<TE>(in, false, r, "product", Plan{}, 0, nullptr);
    if (!A) return;
    u64 mb = H().max_block;
    std::vector<Plan> ps;
    ps.push_back(Plan{0, 1, ~0ull});
    for (u64 m = sizeof(TE); m < mb; m = thorough() ? m + sizeof(TE) : m * 2 + sizeof(TE)) ps.push_back(Plan{0, 0, m});
    for (u64 k = 1; k <= A && k <= 3; ++k) ps.push_back(Plan{k, 0, ~0ull});
    for (auto& p : ps) {
        u64 pts = 0;
        one<TE>(in, false, r, "product", p, 0, &pts);
        u64 stride = thorough() || pts < 250 ? 1 : pts / 120 + 1;
        for (u64 k = 1; k <= pts; k += stride) one<TE>(in, false, r, "product", p, k, nullptr);
    }
    desc().text.clear();
}
MC_JOBS {
    bool t = thorough();
    auto cmp = [](bool dense) { return [dense](const Input& in) { explore<E>(in, false, [](Arr<E>& a) { s(a.template begin<IT_CAT>(), a.template end<IT_CAT>(), Less{}); }, "comparator", dense); }; };
    auto prj = [](bool dense) { return [dense](const Input& in) { explore<E>(in, true, [](Arr<E>& a) { s(a.template begin<IT_CAT>(), a.template end<IT_CAT>(), KeyLess<true>{}, KeyOf{}); }, "projection", dense); }; };
    std::vector<Space> d;
    for (int n = 1; n <= (t ? 7 : 6); ++n) d.push_back(weak_orders(n));
    d.push_back(words(2, t ? 12 : 10));
    append(d, {shapes(9), shapes(12), shapes(16), shapes(17), shapes(20), shapes(24), shapes(33), shapes(40), switch_words(2, 18, 2), switch_words(2, 34, 1), switch_words(3, 24, 1),
               deviations(18, 4), deviations(25, 6), shape_words(20, 2), shape_words(35, 1), inversive_mod(31, 31, 20), inversive_mod(61, 61, 12)});
    if (t) append(d, {shape_words(35, 2), shape_words(64, 2), deviations(33, 2), deviations(40, 5), switch_words(2, 34, 3), linear_mod(61, 61)});
    add_space_jobs("dense", d, cmp(true));
    std::vector<Space> l;
    for (int n : {50, 66, 70, 90, 100, 129, 131, 150, 200, 260, 300, 520, 700, 1030}) l.push_back(shapes(n));
    append(l, {shape_words(66, 2), shape_words(140, 1), shape_words(300, 1), inversive_mod(131, 131, 20), inversive_mod(131, 131, 20, 9), inversive_mod(521, 521, 8), inversive_mod(521, 521, 8, 12), inversive_mod(1031, 1031, 4), inversive_mod(1031, 1031, 4, 60), rotations(150, 3, 7), shuffles(40)});
    if (t) append(l, {shape_words(150, 2), shape_words(300, 2), shape_words(1100, 2), inversive_mod(2053, 2053, 10), inversive_mod(2053, 2053, 10, 50), shapes(2050), shapes(4100), deviations(300, 40)});
    add_space_jobs("large", l, cmp(false));
    add_space_jobs("proj", {weak_orders(5), shapes(17), shapes(33), shape_words(20, 1), inversive_mod(31, 31, 8)}, prj(true));
    add_space_jobs("proj", {shapes(70), shapes(150), shapes(600), inversive_mod(521, 521, 3, 12), shape_words(140, 1)}, prj(false));
    add_space_jobs("product", t ? std::vector<Space>{weak_orders(5), shapes(12), shapes(16), shapes(20), shapes(33), shapes(40), shapes(66), shapes(140), shape_words(30, 1), inversive_mod(61, 61, 10)}
                                : std::vector<Space>{weak_orders(4), shapes(12), shapes(18), shapes(34), shapes(66), inversive_mod(61, 61, 3)},
                   [](const Input& in) { product(in, [](Arr<TE>& a) { s(a.template begin<IT_CAT>(), a.template end<IT_CAT>(), Less{}); }); });
}
