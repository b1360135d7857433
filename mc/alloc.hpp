// Owned heap: counts, fails and poisons allocations. Include in exactly one TU (replaces operator new/delete).
#ifndef MC_ALLOC_HPP
#define MC_ALLOC_HPP
#include "core.hpp"
namespace mc {
struct Heap {
    bool armed = false;
    i64 outstanding = 0;       // blocks allocated while armed and not freed
    u64 count = 0;             // allocations requested while armed
    u64 bytes = 0, max_block = 0;
    i64 cur = 0, peak = 0;     // bytes of the blocks allocated while armed
    u64 fail_at = 0;           // fail exactly this allocation (1-based)
    u64 fail_from = 0;         // fail this one and all later ones
    u64 max_size = ~0ull;      // fail requests above this size
    u64 failed = 0;
    int fill = -1;             // poison byte for fresh memory, -1 = 0xA5
};
inline Heap& H() { static Heap h; return h; }
struct Hdr { u64 magic; u64 size; u64 armed; u64 pad; };
inline void* heap_alloc(std::size_t n, std::size_t align = 16) {
    Heap& h = H();
    if (h.armed) {
        ++h.count;
        bool f = (h.fail_at && h.count == h.fail_at) || (h.fail_from && h.count >= h.fail_from) || n > h.max_size;
        if (f) { ++h.failed; return nullptr; }
    }
    (void)align;
    Hdr* p = static_cast<Hdr*>(std::malloc(n + sizeof(Hdr)));
    if (!p) return nullptr;
    p->magic = 0x4d434845; p->size = n; p->armed = h.armed; p->pad = 0;
    if (h.armed) { ++h.outstanding; h.bytes += n; h.cur += i64(n); if (h.cur > h.peak) h.peak = h.cur; if (n > h.max_block) h.max_block = n; }
    if (h.armed) std::memset(static_cast<void*>(p + 1), h.fill < 0 ? 0xA5 : h.fill, n);
    return p + 1;
}
inline void heap_free(void* q) noexcept {
    if (!q) return;
    Hdr* p = static_cast<Hdr*>(q) - 1;
    if (p->magic != 0x4d434845) fail("deallocation of a block that is not allocated (double free or wrong pointer)");
    p->magic = 0xF4EEF4EE;
    if (p->armed) { --H().outstanding; H().cur -= i64(p->size); }
    std::free(p);
}
} // namespace mc
void* operator new(std::size_t n) { for (;;) { if (void* p = mc::heap_alloc(n)) return p; throw std::bad_alloc(); } }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return mc::heap_alloc(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return mc::heap_alloc(n); }
void operator delete(void* p) noexcept { mc::heap_free(p); }
void operator delete[](void* p) noexcept { mc::heap_free(p); }
void operator delete(void* p, std::size_t) noexcept { mc::heap_free(p); }
void operator delete[](void* p, std::size_t) noexcept { mc::heap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc::heap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc::heap_free(p); }
#endif
