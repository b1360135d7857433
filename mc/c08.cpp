// C08: two (three) sorts run as coroutines under a controlled scheduler. Every comparator call, projection call, move and
// swap is a scheduling point. Schedules are enumerated completely up to a preemption bound; each sort has to perform
// exactly the operation sequence, and give the result, it gives alone. Schedules "A until i, whole B, rest of A" are also
// exactly the sorts started from within a callback of another sort.
#include "spaces.hpp"
#include "elem.hpp"
#include <ucontext.h>
using namespace mc;
#if S_DC
using E = DElem;
#else
using E = Elem;
#endif
static auto s = SEXPR;
enum { K = 3, STACK = 512 * 1024 };
struct Co {
    ucontext_t ctx; char* stack = nullptr; Arr<E> a; World w; const Input* in = nullptr; bool proj = false, done = true; u64 steps = 0;
    u64 trace = 0, mtrace = 0, cmps = 0, result = 0, base_steps = 0;
};
static Co co[K];
static ucontext_t sched;
static int cur = -1;
static u64 budget = 0;          // points the current coroutine may still pass
static void point() {           // runs inside a coroutine
    Co& c = co[cur];
    ++c.steps;
    if (budget == 0) { swapcontext(&c.ctx, &sched); }
    --budget;
}
static void sort_one(Co& c) {
    if (c.proj) s(c.a.template begin<IT_CAT>(), c.a.template end<IT_CAT>(), KeyLess<true>{}, KeyOf{});
    else s(c.a.template begin<IT_CAT>(), c.a.template end<IT_CAT>(), Less{});
}
static void entry(int k) { sort_one(co[k]); co[k].done = true; swapcontext(&co[k].ctx, &sched); }
static void start(int k) {
    Co& c = co[k];
    World save = W(); c.a.clear(); W() = World{}; c.a.fill(c.in->k, c.in->n);
    W().reset(); c.a.arm(); W().cmp_budget = generous_budget(c.in->n); W().point = point;
    c.w = W(); W() = save;
    c.steps = 0; c.done = false;
    if (!c.stack) c.stack = static_cast<char*>(std::malloc(STACK));
    getcontext(&c.ctx); c.ctx.uc_stack.ss_sp = c.stack; c.ctx.uc_stack.ss_size = STACK; c.ctx.uc_link = &sched;
    makecontext(&c.ctx, reinterpret_cast<void (*)()>(reinterpret_cast<void*>(entry)), 1, k);
}
// let coroutine k pass up to m points (it stops in front of the (m+1)-th), or finish
static void resume(int k, u64 m) {
    Co& c = co[k];
    if (c.done) return;
    W() = c.w; cur = k; budget = m;
    swapcontext(&sched, &c.ctx);
    c.w = W();
}
static u64 result_of(Co& c) { u64 r = 0; for (int i = 0; i < c.in->n; ++i) r = mix(r ^ u64(u32(c.a.d[i].id) + 1)); return r; }
static void baseline(int k) {
    Co& c = co[k];
    start(k); resume(k, ~0ull);
    check_sorted_perm("alone", c.a.d, c.in->n, c.in->k.data(), c.proj, S_STABLE);
    c.trace = c.w.trace; c.mtrace = c.w.mtrace; c.cmps = c.w.cmps; c.result = result_of(c); c.base_steps = c.steps;
}
static void check(int k) {
    Co& c = co[k];
    resume(k, ~0ull);
    const char* nm = k == 0 ? "first" : k == 1 ? "second" : "third";
    if (c.w.trace != c.trace || c.w.mtrace != c.mtrace || c.steps != c.base_steps || c.w.cmps != c.cmps) fail("the %s sort performed other operations than alone (%lu steps instead of %lu)", nm, c.steps, c.base_steps);
    if (result_of(c) != c.result) fail("the %s sort gave another result than alone", nm);
    if (c.w.live != c.in->n) fail("the %s sort left %ld live elements instead of %d", nm, long(c.w.live), c.in->n);
    check_sorted_perm(nm, c.a.d, c.in->n, c.in->k.data(), c.proj, S_STABLE);
}
static int X_STATES, X_TRANS, X_TRACES;
static void bump(int x, u64 v) { sh().extra[x] = sh().extra[x] + v; }
static void schedule_done(u64 trans) {
    bump(X_TRACES, 1); bump(X_TRANS, trans);
    count_eval(true, trans); sh().seq = sh().seq + 1;
}
static void describe(const char* f, u64 a, u64 b = 0, u64 c = 0) { char t[160]; snprintf(t, sizeof t, f, a, b, c); desc().text = t; }
// all schedules with at most 2 (3) preemptions of coroutines 0 and 1, both orders
static void pair_schedules(int preemptions, u64 stride) {
    baseline(0); baseline(1);
    for (int first = 0; first < 2; ++first) {
        int A = first, B = 1 - first;
        u64 ka = co[A].base_steps, kb = co[B].base_steps;
        u64 cap = thorough() ? 4000 : S_WORST == 2 ? (ka > 20000 ? 12 : ka > 2000 ? 60 : 250) : 250;     // quadratic sorters: fewer switch points on large inputs
        if (preemptions == 1 && ka / stride > cap) stride = ka / cap;
        for (u64 i = 0; i < ka; i += stride) {
            if (preemptions == 1) {
                describe("first until its step %lu, then the whole second one, then the rest", i);
                start(0); start(1);
                resume(A, i); resume(B, ~0ull); check(A); check(B);
                bump(X_STATES, kb); schedule_done(ka + kb);
                continue;
            }
            for (u64 j = 0; j <= kb; j += stride) {
                bump(X_STATES, first == 0);
                if (preemptions == 2) {
                    describe("switches after %lu steps of one sort and %lu steps of the other one", i, j);
                    start(0); start(1);
                    resume(A, i); resume(B, j); check(A); check(B);
                    schedule_done(ka + kb);
                    continue;
                }
                for (u64 i2 = 1; i + i2 < ka; ++i2) {
                    describe("switches after %lu, %lu, %lu more steps", i, j, i2);
                    start(0); start(1);
                    resume(A, i); resume(B, j); resume(A, i2); check(B); check(A);
                    schedule_done(ka + kb);
                }
            }
        }
    }
    // strict alternation every q steps
    for (u64 q = 1; q <= 3; ++q) {
        describe("alternating every %lu steps", q);
        start(0); start(1);
        while (!co[0].done || !co[1].done) { resume(0, q); resume(1, q); }
        check(0); check(1);
        schedule_done(co[0].base_steps + co[1].base_steps);
    }
    note_behaviour(co[0].trace ^ mix(co[1].trace));
    desc().text.clear();
}
static void triple_schedules(u64 stride) {
    for (int k = 0; k < 3; ++k) baseline(k);
    static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (auto& o : ord) {
        for (u64 i = 0; i < co[o[0]].base_steps; i += stride)
            for (u64 j = 0; j < co[o[1]].base_steps; j += stride) {
                describe("three nested sorts: %lu steps, then %lu steps of the second, then the whole third one", i, j);
                for (int k = 0; k < 3; ++k) start(k);
                resume(o[0], i); resume(o[1], j); resume(o[2], ~0ull);
                check(o[0]); check(o[1]); check(o[2]);
                bump(X_STATES, 1); schedule_done(co[0].base_steps + co[1].base_steps + co[2].base_steps);
            }
    }
    desc().text.clear();
}
static Input part[4];
static void partner(int which, int n, int form) {
    Input& p = part[which]; p.resize(n);
    for (int i = 0; i < n; ++i) p[i] = form == 0 ? n - i : form == 1 ? (i * 7) % (n + 3) : form == 2 ? i / 2 : (i * i) % 11;
}
static void job(const char* name, std::vector<Space> sp, int pn, int form, int preemptions, u64 stride, bool proj = false) {
    add_space_jobs(name, sp, [=](const Input& in) {
        partner(0, pn ? pn : in.n, form);
        co[0].in = &in; co[1].in = &part[0]; co[0].proj = proj; co[1].proj = false;
        pair_schedules(preemptions, stride);
    });
}
MC_JOBS {
    X_STATES = extra_id("states"); X_TRANS = extra_id("transitions"); X_TRACES = extra_id("traces");
    bool t = thorough();
    job("pair3", {weak_orders(2), weak_orders(3)}, 3, 0, 3, 1);
    job("pair2", {weak_orders(4)}, 4, 1, 2, 1);
    if (t) job("pair3", {weak_orders(4)}, 4, 1, 3, 1), job("pair2", {weak_orders(5)}, 5, 1, 2, 1), job("pair2", {weak_orders(5)}, 4, 3, 2, 1, true), job("pair2", {shapes(17), shapes(20)}, 17, 1, 2, 1);
    job("pair2p", {shapes(5)}, 4, 3, 2, 1, true);
    job("pair2", {shapes(18)}, 18, 1, 2, t ? 2 : 9);
    job("pair2", {shapes(40)}, 36, 3, 2, t ? 7 : 40);
    job("nest", {shapes(9), shapes(17), shapes(20), shapes(33)}, 0, 1, 1, 1);
    job("nestp", {shapes(12), shapes(33)}, 0, 3, 1, 1, true);
    job("nest", {shapes(40), shapes(66)}, 0, 1, 1, t ? 1 : 3);
    job("nest", {shapes(100), shapes(150)}, 70, 1, 1, t ? 1 : 17);
    job("nest", {shapes(300), shapes(600), shapes(1030)}, 140, 3, 1, t ? 40 : 1500);
    add_space_jobs("three", {shapes(4), shapes(6)}, [=](const Input& in) {
        partner(0, in.n, 1); partner(1, in.n - 1, 0);
        co[0].in = &in; co[1].in = &part[0]; co[2].in = &part[1]; co[0].proj = co[1].proj = co[2].proj = false;
        triple_schedules(t ? 1 : 3);
    });
}
