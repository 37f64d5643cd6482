#include "tracked.h"
#include "alloc.h"
#include <fstream>
#include <sstream>
namespace vp {
Monitor mon;
static const char* PHN[] = {"idle", "running", "unwinding"};
static const char* WN[] = {"range", "outer", "temp"};
static const char* SN[] = {"absent", "hole", "full"};
static const char* ON[] = {"construct", "default-construct", "assign to", "move from", "compare", "project", "destroy", "self-assign"};
void Monitor::bad_event(Where w, OState s, Op o, const void*) {
    struct Quiet { bool a = heap.active; Quiet() { heap.active = false; } ~Quiet() { heap.active = a; } } quiet;
    if (bad.empty()) bad = std::string("event not allowed by the specification: ") + ON[o] + " an object in state " + SN[s] + " (" + WN[w] + ") while " + PHN[phase];
}
void Monitor::violation(const char* m) {
    bool a = heap.active; heap.active = false; if (bad.empty()) bad = m; heap.active = a;
}
bool Monitor::load(const char* path) {
    // lines: [phase, where, state, op, allowed]
    std::ifstream in(path); std::string line; int count = 0;
    memset(table, 0, sizeof table);
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        const char* p = line.c_str(); J j = parse_json(p);
        auto idx = [](const std::string& s, const char** names, int n) { for (int i = 0; i < n; ++i) if (s == names[i]) return i; return -1; };
        int ph = idx(j[0].s, PHN, 3), w = idx(j[1].s, WN, 3), st = idx(j[2].s, SN, 3), op = idx(j[3].s, ON, N_OPS);
        if (ph < 1 || w < 0 || st < 0 || op < 0) return false;
        table[ph - 1][w][st][op] = (signed char)j[4].i; ++count;
    }
    return loaded = (count == 2 * 3 * 3 * N_OPS);
}
} // namespace vp
