#ifndef VP_ALLOC_H
#define VP_ALLOC_H
#include <cstddef>
#include <unordered_map>
namespace vp {
struct HeapPlan {
    bool active = false;             // observe allocations made during a call
    long count = 0, failed = 0, thrown = 0, live = 0;
    int next_id = 0;
    std::size_t max_block = 0;
    // failure plan
    enum Kind { NONE, KTH, FROM_KTH, BIGGER, FIRST_K } kind = NONE;
    long k = 0;
    struct Block { int id; std::size_t size, align; };
    std::unordered_map<void*, Block> own;
    bool should_fail(std::size_t sz) const {
        switch (kind) {
            case KTH: return count == k;
            case FROM_KTH: return count >= k;
            case FIRST_K: return count <= k;
            case BIGGER: return long(sz) > k;
            default: return false;
        }
    }
    void start(Kind kd = NONE, long kk = 0) { count = failed = thrown = live = 0; next_id = 0; max_block = 0; kind = kd; k = kk; own.clear(); active = true; }
    void stop() { active = false; }
};
extern HeapPlan heap;
}
#endif
