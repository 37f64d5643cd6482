// C09: comparators implement the documented orders (spec/Comparators.tla).
#include "vp.h"
#include <cfloat>
#include <cmath>
#include <forward_list>
#include <list>
#include <deque>
#include <limits>
#include <locale>
#include <string>
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/partial_greater.h>
#include <cpp-sort/comparators/partial_less.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/refined.h>
namespace cs = cppsort;
namespace vp {
inline std::string str(const J& j) { return j.dump(); }
// every pair of q through the comparison and its mirror
template<class T, class L, class G>
std::string pairs(const std::vector<T>& q, const J& m, L less, G greater, const char* what, const J* names = nullptr) {
    std::size_t n = q.size();
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
        bool want = m[i * n + j].i != 0;
        ++counter[1];
        auto who = [&] { return names ? str((*names)[i]) + " and " + str((*names)[j]) : std::to_string(i) + " and " + std::to_string(j); };
        if (bool(less(q[i], q[j])) != want) return std::string(what) + "_less of " + who() + " is not " + (want ? "true" : "false");
        if (bool(greater(q[j], q[i])) != want) return std::string(what) + "_greater of " + who() + " swapped is not " + (want ? "true" : "false");
    }
    return "";
}
template<class T> T fp_of(const J& v) {
    using L = std::numeric_limits<T>;
    static const T mag[13] = {T(0), L::denorm_min(), L::denorm_min() * 2, L::min() / 2, L::min(), T(1e-5L), T(0.1L), T(1), T(1) + L::epsilon(), T(3), T(1e10L), L::max() / 2, L::max()};
    T r = v[1].i == 2 ? L::quiet_NaN() : v[1].i == 1 ? L::infinity() : mag[v[2].i];
    return std::copysign(r, v[0].i ? T(-1) : T(1));
}
template<class T> std::string fp_all(const Vec& v) {
    std::vector<T> q;
    for (auto& x : v.raw[3].a) q.push_back(fp_of<T>(x));
    auto r = pairs(q, v.raw[4], cs::total_less, cs::total_greater, "total", &v.raw[3]);
    if (r.empty()) r = pairs(q, v.raw[5], cs::weak_less, cs::weak_greater, "weak", &v.raw[3]);
    if (r.empty()) r = pairs(q, v.raw[6], cs::partial_less, cs::partial_greater, "partial", &v.raw[3]);
    if (r.empty()) r = pairs(q, v.raw[4], cs::flip(cs::total_greater), cs::flip(cs::total_less), "flipped total", &v.raw[3]);
    if (r.empty()) r = pairs(q, v.raw[5], cs::refined<T>(cs::weak_less), cs::refined<T>(cs::weak_greater), "refined weak", &v.raw[3]);
    return r;
}
template<class T> std::string int_all(const Vec& v, const std::vector<T>& q) {
    auto r = pairs(q, v.raw[4], cs::total_less, cs::total_greater, "total");
    if (r.empty()) r = pairs(q, v.raw[4], cs::weak_less, cs::weak_greater, "weak");
    if (r.empty()) r = pairs(q, v.raw[4], cs::partial_less, cs::partial_greater, "partial");
    if constexpr (std::numeric_limits<T>::is_specialized) {
        if (r.empty()) r = pairs(q, v.raw[4], cs::flip(std::greater<>{}), cs::flip(std::less<>{}), "flipped std");
        if (r.empty()) r = pairs(q, v.raw[4], cs::flip(cs::flip(std::less<T>{})), cs::flip(cs::flip(std::greater<T>{})), "twice flipped std");
        if (r.empty()) r = pairs(q, v.raw[4], cs::flip(cs::total_greater), cs::flip(cs::weak_less), "flipped total/weak");
        if (r.empty()) r = pairs(q, v.raw[4], cs::not_fn(cs::not_fn(std::less<>{})), cs::not_fn(cs::not_fn(cs::total_greater)), "twice negated std");
        if (r.empty()) r = pairs(q, v.raw[4], cs::not_fn(std::greater_equal<>{}), cs::not_fn(cs::flip(std::greater_equal<>{})), "negated std");
        if (r.empty()) r = pairs(q, v.raw[4], cs::make_projection_compare(std::greater<>{}, [](T x) { return T(~x); }), cs::projection_compare<std::less<>, T(*)(T)>(std::less<>{}, [](T x) { return T(~x); }), "projected std");
    }
    return r;
}
template<class T> std::vector<T> ints_of(T lo, T hi) {
    if (lo < T(0)) return {lo, T(lo + 1), T(-7), T(-1), T(0), T(1), T(5), T(hi - 1), hi};
    return {T(0), T(1), T(2), T(5), T(100), T(hi / 2), T(hi / 2 + 1), T(hi - 1), hi};
}
namespace user {
    struct Tot { int v; friend bool total_less(const Tot& a, const Tot& b) { return a.v < b.v; } friend bool total_greater(const Tot& a, const Tot& b) { return a.v > b.v; } };
    struct Weak { int v; friend bool weak_less(const Weak& a, const Weak& b) { return a.v < b.v; } friend bool weak_greater(const Weak& a, const Weak& b) { return a.v > b.v; } };
}
// a range whose iterators notice when they leave it
struct Bounded {
    std::string s;
    static bool& out() { static bool b; return b; }
    struct iterator {
        using value_type = char; using reference = const char&; using pointer = const char*; using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        const std::string* s = nullptr; std::size_t i = 0;
        const char& operator*() const { static const char z = '0'; if (i >= s->size()) { out() = true; return z; } return (*s)[i]; }
        iterator& operator++() { if (i >= s->size()) { out() = true; } else ++i; return *this; }
        iterator operator++(int) { auto t = *this; ++*this; return t; }
        bool operator==(const iterator& o) const { return i == o.i; }
        bool operator!=(const iterator& o) const { return i != o.i; }
    };
    iterator begin() const { return {&s, 0}; }
    iterator end() const { return {&s, s.size()}; }
};
template<class S> S text(const J& j) { S r; std::vector<typename S::value_type> t; for (auto& c : j.a) t.push_back(typename S::value_type(c.i)); r.assign(t.begin(), t.end()); return r; }
template<class S1, class S2, class L> std::string ranked(const Vec& v, L less, const char* what) {
    std::vector<S1> a; std::vector<S2> b;
    for (auto& j : v.raw[3].a) { a.push_back(text<S1>(j)); b.push_back(text<S2>(j)); }
    auto rank = v.raw[4].ints();
    for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) {
        ++counter[1];
        bool want = rank[i] < rank[j];
        if (bool(less(a[i], b[j])) != want)
            return std::string(what) + " of " + str(v.raw[3][i]) + " and " + str(v.raw[3][j]) + " is not " + (want ? "true" : "false");
    }
    return "";
}
inline std::string in_bounds(const Vec& v) {
    std::vector<Bounded> a;
    for (auto& j : v.raw[3].a) a.push_back(Bounded{text<std::string>(j)});
    auto rank = v.raw[4].ints();
    for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < a.size(); ++j) {
        Bounded::out() = false;
        bool r = cs::natural_less(a[i], a[j]);
        if (Bounded::out()) return "natural_less of " + str(v.raw[3][i]) + " and " + str(v.raw[3][j]) + " reads past the end";
        if (r != (rank[i] < rank[j])) return "natural_less of " + str(v.raw[3][i]) + " and " + str(v.raw[3][j]) + " is wrong";
    }
    return "";
}
// adapters over an arbitrary predicate and projection
struct Value { int v; };
struct Table {
    const std::vector<int>* t = nullptr; int m = 0;
    bool operator()(int a, int b) const { return (*t)[std::size_t((a - 1) * m + (b - 1))] != 0; }
    bool operator()(const Value& a, const Value& b) const { return (*this)(a.v, b.v); }
};
struct Map {
    const std::vector<int>* f = nullptr;
    int operator()(int a) const { return (*f)[std::size_t(a - 1)]; }
    Value operator()(const Value& a) const { return {(*f)[std::size_t(a.v - 1)]}; }
};
inline const std::vector<int>*& cur_t() { static const std::vector<int>* p; return p; }
inline int& cur_m() { static int m; return m; }
inline const std::vector<int>*& cur_f() { static const std::vector<int>* p; return p; }
inline bool table_fn(int a, int b) { return Table{cur_t(), cur_m()}(a, b); }
inline int map_fn(int a) { return Map{cur_f()}(a); }
template<class F> std::string agrees(F f, const Vec& v, const char* what) {
    int m = cur_m(); auto want = v.raw[5].ints();
    const F& cf = f;
    for (int a = 1; a <= m; ++a) for (int b = 1; b <= m; ++b) {
        bool w = want[std::size_t((a - 1) * m + b - 1)] != 0;
        int x = a; const int y = b;
        if (bool(f(a, b)) != w || bool(cf(x, y)) != w || bool(F(f)(a, b)) != w || bool(static_cast<const F&&>(f)(a, b)) != w)
            return std::string(what) + ": result for (" + std::to_string(a) + "," + std::to_string(b) + ") is not " + (w ? "true" : "false");
    }
    return "";
}
template<class F> std::string agrees_v(F f, const Vec& v, const char* what) {
    return agrees([f](int a, int b) { Value x{a}; const Value y{b}; return f(x, y); }, v, what);
}
template<int Op> struct Ad;
template<> struct Ad<1> { template<class F, class P> static auto fn(F f, P) { return cs::flip(f); } template<class F, class P> static auto cls(F f, P) { return cs::flip_t<F>(f); } };
template<> struct Ad<2> { template<class F, class P> static auto fn(F f, P) { return cs::not_fn(f); } template<class F, class P> static auto cls(F f, P) { return cs::not_fn_t<F>(f); } };
template<> struct Ad<3> { template<class F, class P> static auto fn(F f, P p) { return cs::make_projection_compare(f, p); } template<class F, class P> static auto cls(F f, P p) { return cs::projection_compare<F, P>(f, p); } };
template<bool Cls, class F, class P> auto chain(F f, P) { return f; }
template<bool Cls, int Op, int... Ops, class F, class P> auto chain(F f, P p) {
    if constexpr (Cls) { auto g = Ad<Op>::cls(f, p); if constexpr (sizeof...(Ops) == 0) return g; else return chain<Cls, Ops...>(g, p); }
    else { auto g = Ad<Op>::fn(f, p); if constexpr (sizeof...(Ops) == 0) return g; else return chain<Cls, Ops...>(g, p); }
}
template<int Code, int... Ops> std::string adapt(const Vec& v) {
    if (v.keys[0] != Code) return "";
    static std::vector<int> t, f; t = v.raw[3].ints(); f = v.raw[4].ints();
    cur_t() = &t; cur_f() = &f; cur_m() = int(f.size());
    Table tab{&t, cur_m()}; Map map{&f};
    auto r = agrees(chain<false, Ops...>(tab, map), v, "make functions");
    if (r.empty()) r = agrees(chain<true, Ops...>(tab, map), v, "class templates");
    if (r.empty()) r = agrees(chain<false, Ops...>(&table_fn, &map_fn), v, "function pointers");
    if (r.empty()) r = agrees_v(chain<false, Ops...>(tab, map), v, "class values");
    return r;
}
}
