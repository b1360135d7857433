// C05: an exception at every callback / move point.
#define MC_COUNTED_IT 1
#include "alloc.hpp"
#include "spaces.hpp"
#include "elem.hpp"
using namespace mc;
#ifndef TAG
#define TAG 2
#endif
#if TAG == 2
  #if S_DC
  using E = DTElem;
  #else
  using E = TElem;
  #endif
#else
  #if S_DC
  using E = DElem;
  #else
  using E = Elem;
  #endif
#endif
static auto s = SEXPR;
template<typename R> static void explore(const Input& in, bool desc_order, R r, const char* what, bool strided) {
    static Arr<E> a;
    World& w = W();
    // fault-free run: how many points are there?
    a.fill(in.k, in.n);
    w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
    H() = Heap{}; H().armed = true;
    r(a);
    H().armed = false;
    check_sorted_perm(what, a.d, in.n, in.k.data(), desc_order, S_STABLE);
    if (H().outstanding) fail("%s: %ld heap blocks leaked without any exception", what, long(H().outstanding));
    if (w.iters) fail("%s: %ld iterators created by the sort are still alive after it", what, long(w.iters));
    u64 points = w.any;
    note_behaviour(w.trace);
    count_eval(false, w.any);
    u64 step = 1;
    for (u64 k = 1; k <= points; k += step) {
        if (strided) step = (k <= 40 || k + 40 >= points) ? 1 : points / 60 + 1;
        desc().text = std::string("throwing at callback/move point ") + std::to_string(k) + " of " + std::to_string(points);
        a.fill(in.k, in.n);
        w.reset(); a.arm(); w.cmp_budget = generous_budget(in.n);
        w.throw_any = k;
        H() = Heap{}; H().armed = true;
        bool caught = false;
        try { r(a); }
        catch (const Injected& x) { caught = true; if (x.tag != 1) fail("%s: %lu exceptions were thrown", what, x.tag); }
        catch (...) { fail("%s: another exception than the injected one reached the caller", what); }
        H().armed = false;
        if (!caught) fail("%s: the injected exception did not reach the caller", what);
        if (w.iters) fail("%s: %ld iterators created by the sort are still alive after the exception", what, long(w.iters));
        if (w.live != in.n) fail("%s: %ld live elements after the exception instead of %d (leak or double destruction)", what, long(w.live), in.n);
        if (H().outstanding) fail("%s: %ld heap blocks not released after the exception", what, long(H().outstanding));
        check_perm(what, a.d, in.n, in.k.data(), true);
        // the range can still be used: give every element a value again and sort it
        w.reset(); w.throw_any = 0;
        for (int i = 0; i < in.n; ++i) { E e(in[i], i); a.d[i] = std::move(e); }
        a.arm(); w.cmp_budget = generous_budget(in.n);
        if (k % 7 == 1) {
            r(a);
            check_sorted_perm("sort after an exception", a.d, in.n, in.k.data(), desc_order, S_STABLE);
        }
        count_eval(true, w.any);
        sh().seq = sh().seq + 1;
    }
    desc().text.clear();
}
MC_JOBS {
    bool t = thorough();
    for (int strided = 0; strided < 2; ++strided) {
        std::vector<Space> v;
        if (!strided) {
            for (int n = 1; n <= (t ? 6 : 5); ++n) v.push_back(weak_orders(n));
            v.push_back(words(2, t ? 9 : 7));
            v.push_back(shapes(9)), v.push_back(shapes(16)), v.push_back(shapes(20)), v.push_back(switch_words(2, 18, 1)), v.push_back(shapes(33));
            if (t) { for (int n = 8; n < 70; n += 3) v.push_back(shapes(n)); v.push_back(shape_words(24, 2)); v.push_back(switch_words(2, 20, 2)); }
        } else {
            for (int n : {25, 40, 66, 100, 131, 150, 300}) v.push_back(shapes(n));
            v.push_back(inversive_mod(61, 60, 10)), v.push_back(inversive_mod(131, 130, 6, 20)), v.push_back(inversive_mod(307, 300, 2, 40)), v.push_back(linear_mod_few(67, 67, 3));
            v.push_back(inversive_mod(1031, 700, 1, 100)), v.push_back(inversive_mod(1031, 1025, 1));
            v.push_back(inversive_mod(1201, 1200, 1, 3)), v.push_back(inversive_mod(1201, 1200, 1, 20));
            if (t) { v.push_back(shape_words(40, 2)), v.push_back(shape_words(140, 2)), v.push_back(inversive_mod(1031, 1030, 12, 30)), v.push_back(shapes(1030)); }
        }
        bool st = strided;
        add_space_jobs(st ? "comp-strided" : "comp", v, [st](const Input& in) { explore(in, false, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }, "comparator", st); });
#if TAG == 2
        std::vector<Space> p = st ? std::vector<Space>{shapes(40), shapes(150), inversive_mod(131, 130, 4, 20)} : std::vector<Space>{weak_orders(4), shapes(12), shapes(18)};
        add_space_jobs(st ? "proj-strided" : "proj", t ? v : p, [st](const Input& in) { explore(in, true, [](Arr<E>& a) { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), KeyLess<true>{}, KeyOf{}); }, "comparator on projections", st); });
#endif
    }
    add_space_jobs("unwinding", {weak_orders(2), weak_orders(3), shapes(9), shapes(20), shapes(33)}, [](const Input& in) { explore(in, false, [](Arr<E>& a) { during_unwinding([&] { s(a.begin<IT_CAT>(), a.end<IT_CAT>(), Less{}); }); }, "during the unwinding of another exception", true); });
}
