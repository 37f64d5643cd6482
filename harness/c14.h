// Counting sorters: what calls return against what the caller and the sorter saw.
#ifndef VP_C14_H
#define VP_C14_H
#include "elem.h"
#include <array>
#include <chrono>
#include <iterator>
#include <type_traits>
#include "adapters_list.h"
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/metrics.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/branchless_traits.h>
#include <cpp-sort/utility/iter_move.h>
#include <cpp-sort/utility/metrics_tools.h>
namespace vp {
namespace cs = ::cppsort;
using clk = std::chrono::steady_clock;
// what the caller and the leaf sorter saw
struct Seen {
    long long ucmp = 0, uproj = 0, lcmp = 0, lproj = 0, lmv = 0, runs = 0;
    int lcat = -1; bool timed = false, any = false; clk::time_point first, last; std::vector<int> per;
    void reset(std::size_t n) { *this = Seen{}; per.assign(n, 0); }
    void at() { ++ucmp; if (timed) { last = clk::now(); if (!any) { first = last; any = true; } } }
    void proj(int id) { ++uproj; if (id >= 0 && std::size_t(id) < per.size()) ++per[std::size_t(id)]; }
};
inline Seen seen;
struct K { int key; friend bool operator<(const K& a, const K& b) { seen.at(); return a.key < b.key; } };
struct E { K k; int id; int key;
    E(int x = -1, int i = -1): k{x}, id(i), key(x) {}
    E(const E& o): k(o.k), id(o.id), key(o.key) {}
    E(E&& o): k(o.k), id(o.id), key(o.key) { o.id = -7; }
    E& operator=(const E& o) { k = o.k; id = o.id; key = o.key; return *this; }
    E& operator=(E&& o) { k = o.k; key = o.key; int t = o.id; o.id = -7; id = t; return *this; }
    friend bool operator<(const E& a, const E& b) { seen.at(); return a.key < b.key; } };
struct Cmp {
    bool operator()(const E& a, const E& b) const { seen.at(); return a.key > b.key; }
    bool operator()(const K& a, const K& b) const { seen.at(); return a.key > b.key; } };
struct RefProj { const K& operator()(const E& e) const { seen.proj(e.id); return e.k; } };   // a reference into the element
struct ValProj { K operator()(const E& e) const { seen.proj(e.id); return e.k; } };          // a new object
struct WholeProj { const E& operator()(const E& e) const { seen.proj(e.id); return e; } };
}
// sorters may choose other algorithms for such comparisons: counted or not, they are to run the same one
namespace cppsort { namespace utility { template<> struct is_probably_branchless_comparison<vp::Cmp, vp::E>: std::true_type {}; template<class T> struct is_probably_branchless_projection<vp::WholeProj, T>: std::true_type {}; } }
namespace vp {
template<class It> constexpr int cat_of() {
    using C = typename std::iterator_traits<It>::iterator_category;
    return std::is_base_of<std::random_access_iterator_tag, C>::value ? 2 : std::is_base_of<std::bidirectional_iterator_tag, C>::value ? 1 : 0;
}
// A sorter that keeps an account of what it does; it uses copies of its arguments, swaps, and moves through a temporary.
template<class Cat, bool Stateful> struct acct_impl {
    int t = 7; acct_impl() = default; explicit acct_impl(int x): t(x) {}
    template<class It, class C = std::less<>, class P = cs::utility::identity, class = std::enable_if_t<cs::is_projection_iterator_v<P, It, C>>>
    int operator()(It first, It last, C cmp = {}, P prj = {}) const {
        using cs::utility::iter_move; using cs::utility::iter_swap;
        ++seen.runs; seen.lcat = cat_of<It>();
        C cmp2 = cmp; P prj2 = prj; long long k = 0;
        auto lt = [&](auto&& a, auto&& b) {
            auto&& c = cs::utility::as_function(++k % 3 ? cmp : cmp2); auto&& p = cs::utility::as_function(k % 2 ? prj : prj2); auto&& q = cs::utility::as_function(prj);
            ++seen.lcmp; seen.lproj += 2;
            return bool(c(p(a), q(b))); };
        std::vector<It> p; for (It i = first; i != last; ++i) p.push_back(i);
        for (std::size_t i = 1; i < p.size(); ++i) {
            std::size_t j = i;
            if (i % 2) for (; j > 0 && lt(*p[j], *p[j - 1]); --j) { iter_swap(p[j], p[j - 1]); seen.lmv += 3; }
            else if (lt(*p[j], *p[j - 1])) {
                auto tmp = iter_move(p[j]); ++seen.lmv;
                do { *p[j] = iter_move(p[j - 1]); ++seen.lmv; --j; } while (j > 0 && lt(tmp, *p[j - 1]));
                *p[j] = std::move(tmp); ++seen.lmv;
            }
        }
        return 4200 + t;
    }
    using iterator_category = Cat;
    using is_always_stable = std::true_type;
};
template<class Cat> struct acct: cs::sorter_facade<acct_impl<Cat, true>> { acct() = default; explicit acct(int t): cs::sorter_facade<acct_impl<Cat, true>>(t) {} };
using acct_f = acct<std::forward_iterator_tag>; using acct_b = acct<std::bidirectional_iterator_tag>; using acct_r = acct<std::random_access_iterator_tag>;
// a counter type of one's own
struct Big { long long v; explicit Big(int x): v(x) {} Big& operator++() { ++v; return *this; } };
inline long long num(const Big& b) { return b.v; }
template<class T> auto num(const T& t) -> std::enable_if_t<std::is_arithmetic<T>::value, long long> { return (long long)t; }
template<class R, class P> long long num(const std::chrono::duration<R, P>& d) { return (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
template<class T, class Tag> long long num(const cs::utility::metric<T, Tag>& m) { return num(m.value()); }
// the smallest count to be reported for a duration, with the granularity of the type
template<class R> long long grain(const R&) { return 0; }
template<class R, class P> long long grain(const std::chrono::duration<R, P>&) { return (long long)(1e9 * double(P::num) / double(P::den)); }
template<class T, class Tag> long long grain(const cs::utility::metric<T, Tag>& m) { return grain(m.value()); }
struct Rel { const char* a; const char* b; };
struct Outcome { long long ret, grain, before, n; std::size_t size; };
inline std::string relation(const Rel& r, long long ret, long long grain_ns, long long outer, std::size_t n, int value, int cat) {
    auto val = [&](const std::string& s) -> long long {
        return s == "ret" ? ret : s == "user.cmp" ? seen.ucmp : s == "user.proj" ? seen.uproj : s == "sorter.cmp" ? seen.lcmp : s == "sorter.proj" ? seen.lproj : s == "sorter.mv" ? seen.lmv
             : s == "n" ? (long long)n : s == "value" ? value : -12345; };
    std::string a = r.a, b = r.b;
    if (a == "user.projmax") {
        for (std::size_t i = 0; i < n; ++i) if (seen.per[i] != 1) return "element " + std::to_string(i) + " was projected " + std::to_string(seen.per[i]) + " times, the specification says once";
        return "";
    }
    if (b == "collection") {
        if (n && seen.runs && seen.lcat != cat) return "the sorter was given iterators of category " + std::to_string(seen.lcat) + " for a collection of category " + std::to_string(cat);
        return "";
    }
    if (b == "elapsed") {
        long long inner = seen.any ? (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(seen.last - seen.first).count() : 0;
        if (ret < 0 || ret > outer || ret + grain_ns < inner)
            return "reports " + std::to_string(ret) + " ns; the call took at most " + std::to_string(outer) + " and its comparisons at least " + std::to_string(inner);
        return "";
    }
    if (val(a) == val(b)) return "";
    return a + " is " + std::to_string(val(a)) + " and " + b + " is " + std::to_string(val(b)) + ", the specification says they are equal";
}
template<class S, class = void> struct metric_of { using type = void; using tag = void; };
template<class S> struct metric_of<S, std::void_t<typename S::metric_t>> { using type = typename S::metric_t; using tag = typename S::tag_t; };
// One call form of a chain; Form: 0 nothing, 1 comparison; Proj: 0 none, 1 by reference, 2 by value
template<class C, bool Iter, int Form, int Proj, class S> auto invoke(const S& s, C& c) {
    auto with = [&](auto... a) { if constexpr (Iter) return s(c.begin(), c.end(), a...); else return s(c, a...); };
    if constexpr (Form == 0) { if constexpr (Proj == 0) return with(); else if constexpr (Proj == 1) return with(RefProj{}); else return with(ValProj{}); }
    else { if constexpr (Proj == 0) return with(Cmp{}); else if constexpr (Proj == 1) return with(Cmp{}, RefProj{}); else return with(Cmp{}, ValProj{}); }
}
template<class C, bool Iter, int Form, int Proj, class Make> void chain(const std::string& name, Make make, std::vector<Rel> rels, bool timed, int value) {
    using S = decltype(make());
    add(name, [=](const Vec& v) -> std::string {
        constexpr bool neg = Form == 1;
        C c; fill(c, v, neg);
        const S s = make();
        for (int round = 0; round < 2; ++round) {                    // the second call sorts what the first one sorted
            std::vector<int> renum; int i = 0;
            for (auto& e : c) { renum.push_back(e.id); e.id = i++; }
            seen.reset(v.n()); seen.timed = timed;
            auto start = clk::now();
            auto r = invoke<C, Iter, Form, Proj>(s, c);
            auto outer = (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(clk::now() - start).count();
            using M = typename metric_of<S>::type;
            if constexpr (!std::is_void_v<M>) {
                static_assert(std::is_same<decltype(r), M>::value, "metrics return their metric_t");
                static_assert(std::is_same<M, cs::utility::metric<decltype(r.value()), typename metric_of<S>::tag>>::value, "metric_t is a metric with the tag");
            }
            for (auto& x : rels) { auto bad = relation(x, num(r), grain(r), outer, v.n(), value, cat_of<decltype(c.begin())>()); if (!bad.empty()) return (round ? "second call: " : "") + bad; }
            for (auto& e : c) { if (e.id < 0 || e.id >= int(renum.size())) return "an element was lost"; e.id = renum[std::size_t(e.id)]; }
            auto bad = judge(c, v, true, neg); if (!bad.empty()) return bad;   // the sorter is stable, and so is everything around it
        }
        return "";
    }, 16);
}
// ---- the sorters of the library
struct M { E value; long long* count;
    M(E&& e, long long& n): value(std::move(e)), count(&n) {}
    M(M&& o): value(std::move(o.value)), count(o.count) { ++*count; }
    M& operator=(M&& o) { value = std::move(o.value); count = o.count; ++*count; return *this; } };
template<class C> struct rebind;
template<template<class...> class C, class T, class... A> struct rebind<C<T, A...>> { using type = C<M>; };
inline void insert(std::forward_list<M>& c, std::vector<E>& v, long long& n) { for (std::size_t i = v.size(); i-- > 0;) c.emplace_front(std::move(v[i]), n); }
template<class C> auto insert(C& c, std::vector<E>& v, long long& n) -> decltype(c.reserve(1)) { c.reserve(v.size()); for (auto& e : v) c.emplace_back(std::move(e), n); }
inline void insert(std::list<M>& c, std::vector<E>& v, long long& n) { for (auto& e : v) c.emplace_back(std::move(e), n); }
template<class C> std::vector<int> ids(C& c) { std::vector<int> r; for (auto& e : c) r.push_back(e.id); return r; }
inline std::string differ(const char* what, long long a, const char* other, long long b) {
    return a == b ? "" : std::string(what) + " is " + std::to_string(a) + " and " + other + " is " + std::to_string(b) + ", the specification says they are equal"; }
// Counts of comparisons and projections, and the same sort as without counting.
template<template<class...> class W, class CT, class S, class C, bool Iter, int Form, int Proj, bool Stable> std::string counted(const Vec& v, bool projections) {
    constexpr bool neg = Form == 1;
    C c; fill(c, v, neg); seen.reset(v.n());
    const W<S, CT> s{};
    auto r = num(invoke<C, Iter, Form, Proj>(s, c));
    std::string bad = projections ? differ("the number of projections reported", r, "the number of calls", seen.uproj) : differ("the number of comparisons reported", r, "the number of calls", seen.ucmp);
    if (!bad.empty()) return bad;
    bad = judge(c, v, Stable, neg); if (!bad.empty()) return bad;
    C d; fill(d, v, neg); auto mine = seen; seen.reset(v.n());
    const S bare{};
    auto with = [&](auto... a) { if constexpr (Iter) bare(d.begin(), d.end(), a...); else bare(d, a...); };
    if constexpr (Form == 1) {
        if constexpr (Proj == 0) with(Cmp{}); else if constexpr (Proj == 1) with(Cmp{}, RefProj{}); else with(Cmp{}, ValProj{});
        bad = projections ? differ("the number of projections reported", r, "that without the counter", seen.uproj) : differ("the number of comparisons reported", r, "that without the counter", seen.ucmp);
        if (bad.empty() && ids(c) != ids(d)) bad = "the result is not that of the sorter alone: " + show(ids(c)) + " instead of " + show(ids(d));
    }
    return bad;
}
// projections are counted without one being given, too
template<class S, class C, bool Iter, int Form> std::string counted_identity(const Vec& v) {
    constexpr bool neg = Form == 1;
    C c; fill(c, v, neg); seen.reset(v.n());
    const cs::metrics::projections<S, int> s{};
    auto r = num(invoke<C, Iter, Form, 0>(s, c));
    auto bad = judge(c, v, false, neg); if (!bad.empty()) return bad;
    C d; fill(d, v, neg); seen.reset(v.n());
    const S bare{};
    if constexpr (Form == 0) bare(d.begin(), d.end(), std::less<>{}, WholeProj{}); else bare(d.begin(), d.end(), Cmp{}, WholeProj{});
    return differ("the number of projections reported", r, "that of calls of a projection by the sorter alone", seen.uproj);
}
template<class CT, class S, class C, bool Iter, int Form, int Proj, bool Stable> std::string moved(const Vec& v) {
    constexpr bool neg = Form == 1;
    C c; fill(c, v, neg); seen.reset(v.n());
    const cs::metrics::moves<S, CT> s{};
    auto r = num(invoke<C, Iter, Form, Proj>(s, c));
    auto bad = judge(c, v, Stable, neg); if (!bad.empty()) return bad;
    std::vector<E> w; fill(w, v, neg);
    typename rebind<C>::type m; long long n = 0; insert(m, w, n); n = 0;
    auto mp = cs::utility::as_projection(&M::value);
    auto go = [&](auto cmp, auto proj) { S{}(m.begin(), m.end(), cmp, mp | cs::utility::as_projection(proj)); };
    auto prj = [&](auto cmp) { if constexpr (Proj == 0) go(cmp, cs::utility::identity{}); else if constexpr (Proj == 1) go(cmp, RefProj{}); else go(cmp, ValProj{}); };
    if constexpr (Form == 0) prj(std::less<>{}); else prj(Cmp{});
    return differ("the number of moves reported", r, "the number of moves the sorter makes", n);
}
template<class S, class C, bool Iter, int Form, int Proj, bool Stable, bool Exact> std::string schwartz(const Vec& v) {
    constexpr bool neg = Form == 1;
    C c; fill(c, v, neg); seen.reset(v.n());
    const cs::schwartz_adapter<S> s{};
    auto with = [&](auto... a) { if constexpr (Iter) s(c.begin(), c.end(), a...); else s(c, a...); };
    if constexpr (Form == 0) { if constexpr (Proj == 1) with(RefProj{}); else with(ValProj{}); }
    else { if constexpr (Proj == 1) with(Cmp{}, RefProj{}); else with(Cmp{}, ValProj{}); }
    for (std::size_t i = 0; i < v.n(); ++i) if (seen.per[i] != 1) return "element " + std::to_string(i) + " was projected " + std::to_string(seen.per[i]) + " times, the specification says once";
    if (seen.uproj != (long long)v.n()) return std::to_string(seen.uproj) + " projections of " + std::to_string(v.n()) + " elements";
    return judge(c, v, Stable, neg);
}
template<class S, class C, int X> void reg_adapted(const std::string& name) {
    constexpr int F1 = X % 2, P1 = (X / 2) % 3, P2 = 1 + X % 2; constexpr bool I = (X / 2) % 2, St = cs::is_always_stable_v<S>;
    add(name + " comparisons", [](const Vec& v) { return counted<cs::metrics::comparisons, std::size_t, S, C, I, F1, P1, St>(v, false); });
    add(name + " counting_adapter", [](const Vec& v) { return counted<cs::counting_adapter, int, S, C, !I, 1 - F1, P2, St>(v, false); });
    add(name + " projections", [](const Vec& v) { return counted<cs::metrics::projections, std::size_t, S, C, I, 1 - F1, P2, St>(v, true); });
}
template<class S, class C, int X, bool Proxy = true, bool Default = false> void reg_real(const std::string& name) {
    constexpr int F1 = X % 2, P1 = (X / 2) % 3, P2 = 1 + X % 2, P3 = (X / 3) % 3; constexpr bool I = (X / 2) % 2, St = cs::is_always_stable_v<S>;
    std::size_t lim = quadratic_limit(name.substr(0, name.find('/')).c_str());
    add(name + " comparisons", [](const Vec& v) { return counted<cs::metrics::comparisons, std::size_t, S, C, I, F1, P1, St>(v, false); }, lim);
    if constexpr (X % 3 == 0) add(name + " comparisons, explicit", [](const Vec& v) { return counted<cs::metrics::comparisons, Big, S, C, !I, 1, P2, St>(v, false); }, lim);
    add(name + " counting_adapter", [](const Vec& v) { return counted<cs::counting_adapter, std::conditional_t<X % 2, int, Big>, S, C, !I, 1, P3, St>(v, false); }, lim);
    add(name + " projections", [](const Vec& v) { return counted<cs::metrics::projections, std::conditional_t<X % 2, long long, double>, S, C, I, (X / 3) % 2, P2, St>(v, true); }, lim);
    if constexpr (X % 4 == 1) add(name + " projections of nothing", [](const Vec& v) { return counted_identity<S, C, I, F1>(v); }, lim);
    // (fixed buffers need elements with default constructors, which wrapped ones do not have)
    if constexpr (!Default) add(name + " moves", [](const Vec& v) { return moved<std::conditional_t<X % 2, std::size_t, Big>, S, C, !I, F1, P1, St>(v); }, lim);
    if constexpr (Proxy && !Default) add(name + " schwartz", [](const Vec& v) { return schwartz<S, C, !I, 1 - F1, P2, St, true>(v); }, lim);
}
// fixed-size sorters under schwartz_adapter
template<template<std::size_t> class F, std::size_t N, int X> void reg_fixed(const std::string& name) {
    auto doit = [](const Vec& v, auto& arr, auto& s) -> std::string {
        constexpr bool neg = X % 2;
        std::vector<E> w; fill(w, v, neg);
        for (std::size_t i = 0; i < N; ++i) arr[i] = w[i];
        seen.reset(N);
        if constexpr (neg) s(arr, Cmp{}, ValProj{}); else s(arr, RefProj{});
        for (std::size_t i = 0; i < N; ++i) if (seen.per[i] != 1) return "element " + std::to_string(i) + " was projected " + std::to_string(seen.per[i]) + " times, the specification says once";
        for (std::size_t i = 0; i < N; ++i) w[i] = arr[i];
        return judge(w, v, false, neg); };
    add(name + "<" + std::to_string(N) + "> schwartz of small_array", [=](const Vec& v) -> std::string {
        if (v.n() != N) return "skip";
        const cs::schwartz_adapter<cs::small_array_adapter<F>> s{}; std::array<E, N> a; return doit(v, a, s); }, N);
    add(name + "<" + std::to_string(N) + "> schwartz of small_array, C array", [=](const Vec& v) -> std::string {
        if (v.n() != N) return "skip";
        const cs::schwartz_adapter<cs::small_array_adapter<F>> s{}; E a[N]; return doit(v, a, s); }, N);
    add(name + "<" + std::to_string(N) + "> counted", [=](const Vec& v) -> std::string {
        if (v.n() != N) return "skip";
        constexpr bool neg = X % 2;
        std::vector<E> w; fill(w, v, neg); seen.reset(N);
        long long r; const cs::metrics::comparisons<F<N>> s{};
        if constexpr (neg) r = num(s(w, Cmp{})); else r = num(s(w.begin(), w.end()));
        auto bad = differ("the number of comparisons reported", r, "the number of calls", seen.ucmp); if (!bad.empty()) return bad;
        return judge(w, v, false, neg); }, N);
    add(name + "<" + std::to_string(N) + "> moves", [=](const Vec& v) -> std::string { return v.n() != N ? std::string("skip") : moved<int, F<N>, std::vector<E>, true, X % 2, X % 3, false>(v); }, N);
}
} // namespace vp
#endif
