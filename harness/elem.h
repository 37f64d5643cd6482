// Plain element types and the outcome comparison shared by the drivers.
#ifndef VP_ELEM_H
#define VP_ELEM_H
#include "vp.h"
#include <cmath>
#include <deque>
#include <forward_list>
#include <list>
#include <functional>
namespace vp {
struct P { int key; int id; };                       // trivial
struct ByKey { bool operator()(const P& a, const P& b) const { return a.key < b.key; } };
// class type with a non-trivial move: algorithms that special-case trivial types take the other path
struct Q {
    int key; int id;
    Q(int k = -1, int i = -1) : key(k), id(i) {}
    Q(const Q& o) : key(o.key), id(o.id) {}
    Q(Q&& o) noexcept : key(o.key), id(o.id) { o.id = -7; }
    Q& operator=(const Q& o) { key = o.key; id = o.id; return *this; }
    Q& operator=(Q&& o) noexcept { key = o.key; int t = o.id; o.id = -7; id = t; return *this; }
    ~Q() {}
};
struct GreaterNeg { bool operator()(const Q& a, const Q& b) const { return a.key > b.key; } };
struct NegProj { int operator()(const Q& a) const { return -a.key; } };

template<class C> inline void fill(C& c, const Vec& v, bool neg = false) {
    using T = typename C::value_type;
    std::vector<T> tmp;
    tmp.reserve(v.n());
    for (std::size_t i = 0; i < v.n(); ++i) tmp.push_back(T{neg ? -v.keys[i] : v.keys[i], int(i)});
    c.assign(tmp.begin(), tmp.end());
}
// What the spec allows as outcome: [sorted permutation] or exactly perm.
template<class C> inline std::string judge(const C& c, const Vec& v, bool stable, bool neg = false) {
    std::size_t n = v.n(), i = 0;
    std::vector<char> seen(n, 0);
    for (auto& e : c) {
        if (i >= n) return "more elements than before";
        if (e.id < 0 || std::size_t(e.id) >= n) return "position " + std::to_string(i) + " holds no original element";
        if (seen[std::size_t(e.id)]) return "element " + std::to_string(e.id) + " duplicated at position " + std::to_string(i);
        seen[std::size_t(e.id)] = 1;
        int key = neg ? -e.key : e.key;
        if (key != v.keys[std::size_t(e.id)]) return "element " + std::to_string(e.id) + " changed value";
        if (key != v.keys[std::size_t(v.perm[i])])
            return "not sorted: position " + std::to_string(i) + " holds key " + std::to_string(key) + ", specification says " + std::to_string(v.keys[std::size_t(v.perm[i])]);
        if (stable && e.id != v.perm[i])
            return "not stable: position " + std::to_string(i) + " holds element " + std::to_string(e.id) + ", specification says " + std::to_string(v.perm[i]);
        ++i;
    }
    if (i != n) return "fewer elements than before";
    return "";
}
inline std::string judge_ints(const std::vector<int>& c, const Vec& v) {
    if (c.size() != v.n()) return "size changed";
    for (std::size_t i = 0; i < c.size(); ++i)
        if (c[i] != v.keys[std::size_t(v.perm[i])])
            return "position " + std::to_string(i) + " holds " + std::to_string(c[i]) + ", specification says " + std::to_string(v.keys[std::size_t(v.perm[i])]);
    return "";
}
// Floating point: the key of the first element becomes zero, of alternating signs, so that the
// multiset of values is not the multiset of equivalence classes.
template<class F> inline std::vector<F> fp_keys(const Vec& v, bool neg = false) {
    std::vector<F> r; r.reserve(v.n()); bool minus = false;
    for (int k : v.keys) {
        F x = F(k - v.keys[0]) * F(0.5);
        if (k == v.keys[0]) { x = (minus = !minus) ? F(-0.0) : F(0.0); r.push_back(x); }
        else r.push_back(neg ? -x : x);
    }
    return r;
}
template<class C> inline std::string judge_fp(const C& c, const Vec& v, bool neg = false) {
    using F = typename C::value_type;
    auto in = fp_keys<F>(v, neg);
    std::size_t i = 0, zin = 0, zout = 0;
    for (F x : in) zin += std::signbit(x) && x == F(0);
    for (F x : c) {
        if (i >= in.size()) return "more elements than before";
        if (x != in[std::size_t(v.perm[i])]) return "position " + std::to_string(i) + " holds " + std::to_string(x) + ", specification says " + std::to_string(in[std::size_t(v.perm[i])]);
        zout += std::signbit(x) && x == F(0);
        ++i;
    }
    if (i != in.size()) return "fewer elements than before";
    if (zin != zout) return std::to_string(zin) + " negative zeros became " + std::to_string(zout);
    return "";
}
} // namespace vp
#endif
