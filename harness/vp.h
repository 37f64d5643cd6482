// Replay framework: runs every registered case on every vector produced by
// the specification (TLC) and compares what the code does with what the
// specification says.  No expected value is computed on this side.
#ifndef VP_H
#define VP_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace vp {

// A small JSON value: integer, string or array; what the spec emits.
struct J {
    enum K { INT, STR, ARR } k = INT;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    const J& operator[](std::size_t n) const { return a.at(n); }
    std::size_t size() const { return a.size(); }
    std::vector<int> ints() const {
        std::vector<int> r; r.reserve(a.size());
        for (auto& x : a) r.push_back(int(x.i));
        return r;
    }
    std::string dump() const;
};
J parse_json(const char*& p);

// One vector: a JSON array whose layout depends on the generator; the usual
// one is [tag, keys, perm] with perm the (1-based) stable outcome.
struct Vec {
    J raw;
    std::string tag;
    std::vector<int> keys;
    std::vector<int> perm;      // 0-based
    std::size_t n() const { return keys.size(); }
};

struct Case {
    std::string name;
    std::size_t max_n;
    std::function<std::string(const Vec&)> run;   // "" when conformant
};
std::vector<Case>& registry();
struct Reg {
    Reg(std::string name, std::size_t max_n, std::function<std::string(const Vec&)> f) {
        registry().push_back(Case{std::move(name), max_n, std::move(f)});
    }
};
inline void add(std::string name, std::function<std::string(const Vec&)> f,
                std::size_t max_n = std::size_t(-1)) {
    registry().push_back(Case{std::move(name), max_n, std::move(f)});
}
// registration functions called by main (one per translation unit)
std::vector<void(*)()>& units();
struct Unit { Unit(void(*f)()) { units().push_back(f); } };
#define VP_CAT2(a,b) a##b
#define VP_CAT(a,b) VP_CAT2(a,b)
#define VP_UNIT static void vp_unit_fn(); static vp::Unit vp_unit_obj(&vp_unit_fn); static void vp_unit_fn()

std::string show(const std::vector<int>&, std::size_t lim = 40);

// extra counters reported in the result file
extern long long counter[16];
// write a line to this process's trace file (see main --trace DIR)
void trace_line(const std::string&);
bool tracing();
} // namespace vp
#endif
