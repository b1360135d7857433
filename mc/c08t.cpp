// C08: the same sorters on real threads without any synchronisation between them, under ThreadSanitizer: two conflicting
// accesses of two sorts are never ordered, so any shared mutable state they touch is reported whatever the schedule was.
#include "spaces.hpp"
#include <atomic>
#include <list>
#include <forward_list>
#include <thread>
using namespace mc;
template<typename S> static void threads(const S& s, const Input& in, const char* name) {
    desc().text = name;
    std::vector<std::vector<int>> v(4);
    for (auto& x : v) x.assign(in.k.begin(), in.k.begin() + in.n);
    std::atomic<int> go{0};
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&, k] {
        go.fetch_add(1, std::memory_order_relaxed);
        while (go.load(std::memory_order_relaxed) < 4) {}
        s(v[std::size_t(k)].begin(), v[std::size_t(k)].end(), std::less<>{});
    });
    for (auto& x : t) x.join();
    for (auto& x : v) for (int i = 1; i < in.n; ++i) if (x[std::size_t(i)] < x[std::size_t(i - 1)]) fail("%s: concurrent sorts: not sorted", name);
    count_eval(true, 4);
    sh().extra[0] = sh().extra[0] + 4; sh().extra[1] = sh().extra[1] + u64(in.n); sh().extra[2] = sh().extra[2] + 1;
}
MC_JOBS {
    extra_id("states"); extra_id("transitions"); extra_id("traces");
    std::vector<Space> v{shapes(7), shapes(20), shapes(40), shapes(150), shapes(700), inversive_mod(521, 521, 4), inversive_mod(1031, 1031, 4, 40)};
#define X(e) { static auto s = e; add_space_jobs(#e, v, [](const Input& in) { threads(s, in, #e); }, 60); }
    SLIST
#undef X
}
