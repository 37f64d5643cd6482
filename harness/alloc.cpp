// Heap events: every operator new/delete in the process goes through here, so
// that a call's allocations can be counted, made to fail, and balanced.
#include "alloc.h"
#include <cstdlib>
#include <new>
#include "tracked.h"
namespace vp {
HeapPlan heap;
static inline void* get(std::size_t sz, bool nothrow, std::size_t align = 0) {
    if (heap.active) {
        bool in_call = mon.phase != PH_IDLE;
        if (in_call) {
            if (mon.phase == PH_UNW) {
                if (mon.unwinds_bad_alloc && mon.lost == 0) mon.resume();
                else mon.violation("memory is allocated while an exception propagates");
            }
            ++heap.count;
            if (heap.should_fail(sz)) {
                ++heap.failed;
                if (nothrow) {
                    if (mon.log) { heap.active = false; mon.lines.push_back("[\"allocfail\"]"); heap.active = true; }
                    return nullptr;
                }
                if (mon.log) { heap.active = false; mon.lines.push_back("[\"throw\",1]"); heap.active = true; }
                ++heap.thrown; mon.bad_alloc_thrown();
                throw std::bad_alloc();
            }
        }
    }
    void* p = align ? std::aligned_alloc(align, (sz + align) / align * align) : std::malloc(sz ? sz : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (heap.active && mon.phase != PH_IDLE) {
        ++heap.live;
        if (sz > heap.max_block) heap.max_block = sz;
        heap.active = false;
        heap.own.emplace(p, HeapPlan::Block{++heap.next_id, sz, align});
        if (mon.log) mon.lines.push_back("[\"alloc\"," + std::to_string(heap.next_id) + "]");
        heap.active = true;
    }
    return p;
}
static inline void put(void* p, std::size_t sz = std::size_t(-1), std::size_t align = 0) {
    if (!p) return;
    if (heap.active && mon.phase != PH_IDLE) {
        auto it = heap.own.find(p);
        if (it == heap.own.end()) { heap.active = false; mon.violation("a block that the call does not own was released"); heap.active = true; }
        else {
            heap.active = false;
            if (sz != std::size_t(-1) && sz != it->second.size) mon.violation("a block was released with another size than it was allocated with");
            if (align != it->second.align) mon.violation("a block was released with another alignment than it was allocated with");
            if (mon.log) mon.lines.push_back("[\"free\"," + std::to_string(it->second.id) + "]");
            heap.own.erase(it); --heap.live;
            heap.active = true;
        }
    }
    std::free(p);
}
} // namespace vp
void* operator new(std::size_t s) { return vp::get(s, false); }
void* operator new[](std::size_t s) { return vp::get(s, false); }
void* operator new(std::size_t s, const std::nothrow_t&) noexcept { return vp::get(s, true); }
void* operator new[](std::size_t s, const std::nothrow_t&) noexcept { return vp::get(s, true); }
void* operator new(std::size_t s, std::align_val_t a) { return vp::get(s, false, std::size_t(a)); }
void* operator new[](std::size_t s, std::align_val_t a) { return vp::get(s, false, std::size_t(a)); }
void* operator new(std::size_t s, std::align_val_t a, const std::nothrow_t&) noexcept { return vp::get(s, true, std::size_t(a)); }
void* operator new[](std::size_t s, std::align_val_t a, const std::nothrow_t&) noexcept { return vp::get(s, true, std::size_t(a)); }
void operator delete(void* p) noexcept { vp::put(p); }
void operator delete[](void* p) noexcept { vp::put(p); }
void operator delete(void* p, std::size_t n) noexcept { vp::put(p, n); }
void operator delete[](void* p, std::size_t n) noexcept { vp::put(p, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vp::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vp::put(p); }
void operator delete(void* p, std::align_val_t a) noexcept { vp::put(p, std::size_t(-1), std::size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { vp::put(p, std::size_t(-1), std::size_t(a)); }
void operator delete(void* p, std::size_t n, std::align_val_t a) noexcept { vp::put(p, n, std::size_t(a)); }
void operator delete[](void* p, std::size_t n, std::align_val_t a) noexcept { vp::put(p, n, std::size_t(a)); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { vp::put(p, std::size_t(-1), std::size_t(a)); }
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept { vp::put(p, std::size_t(-1), std::size_t(a)); }
