// Adapted sorters: leaves that record being called, and the calls.
#ifndef VP_C03_H
#define VP_C03_H
#include "elem.h"
#include <array>
#include <iterator>
#include <type_traits>
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/iter_move.h>
namespace vp {
namespace cs = cppsort;
struct Hit { std::string name; int tag; };
inline std::vector<Hit> hits;
struct E : Q { using Q::Q; friend bool operator<(const E& a, const E& b) { return a.key < b.key; } };
struct Desc {
    bool operator()(const E& a, const E& b) const { return a.key > b.key; }
    bool operator()(int a, int b) const { return a > b; }
};
// the simplest sorts there are; the unstable one reverses equivalent elements
template<class It, class Lt> void plain_sort(It first, It last, Lt lt, bool stable) {
    using cs::utility::iter_swap;
    std::vector<It> p;
    for (It i = first; i != last; ++i) p.push_back(i);
    for (std::size_t n = p.size(); n > 1; --n)
        for (std::size_t i = 1; i < n; ++i) if (lt(p[i], p[i - 1])) iter_swap(p[i], p[i - 1]);
    if (stable) return;
    for (std::size_t b = 0, e; b < p.size(); b = e) {
        for (e = b + 1; e < p.size() && !lt(p[e - 1], p[e]); ++e) {}
        for (std::size_t i = b, j = e; i + 1 < j; ++i) { --j; iter_swap(p[i], p[j]); }
    }
}
template<bool Stateful> struct Tag { int tag() const { return 0; } Tag() = default; explicit Tag(int) {} };
template<> struct Tag<true> { int t = 0; int tag() const { return t; } Tag() = default; explicit Tag(int x): t(x) {} };
template<class Name, class Cat, bool Stable, bool Native, bool Stateful> struct leaf_impl: Tag<Stateful> {
    using Tag<Stateful>::Tag;
    template<class It, class Cmp = std::less<>, class Proj = cs::utility::identity, class = std::enable_if_t<cs::is_projection_iterator_v<Proj, It, Cmp>>>
    int operator()(It first, It last, Cmp cmp = {}, Proj proj = {}) const {
        static_assert(std::is_base_of<Cat, typename std::iterator_traits<It>::iterator_category>::value, "called with weaker iterators than required");
        hits.push_back({Name::str(), this->tag()});
        auto&& c = cs::utility::as_function(cmp); auto&& p = cs::utility::as_function(proj);
        plain_sort(first, last, [&](It a, It b) { return bool(c(p(*a), p(*b))); }, Stable);
        return Name::value();
    }
    using iterator_category = Cat;
    using is_always_stable = std::integral_constant<bool, Stable>;
};
template<class Name, class Cat, bool Stable, bool Stateful> struct leaf_impl<Name, Cat, Stable, true, Stateful>: Tag<Stateful> {
    using Tag<Stateful>::Tag;
    template<class It> auto operator()(It first, It last) const -> decltype(*first < *first, int()) {
        static_assert(std::is_base_of<Cat, typename std::iterator_traits<It>::iterator_category>::value, "called with weaker iterators than required");
        hits.push_back({Name::str(), this->tag()});
        plain_sort(first, last, [&](It a, It b) { return bool(*a < *b); }, Stable);
        return Name::value();
    }
    using iterator_category = Cat;
    using is_always_stable = std::integral_constant<bool, Stable>;
};
#define VP_LEAF(n, v, cat, st, nat) \
    struct n##_name { static const char* str() { return #n; } static int value() { return v; } }; \
    template<bool Stateful> struct n: cs::sorter_facade<leaf_impl<n##_name, cat, st, nat, Stateful>> { \
        n() = default; explicit n(int t): cs::sorter_facade<leaf_impl<n##_name, cat, st, nat, Stateful>>(t) {} };
VP_LEAF(f_u, 101, std::forward_iterator_tag, false, false)
VP_LEAF(f_s, 102, std::forward_iterator_tag, true, false)
VP_LEAF(b_u, 103, std::bidirectional_iterator_tag, false, false)
VP_LEAF(b_s, 104, std::bidirectional_iterator_tag, true, false)
VP_LEAF(r_u, 105, std::random_access_iterator_tag, false, false)
VP_LEAF(r_s, 106, std::random_access_iterator_tag, true, false)
VP_LEAF(r_n, 107, std::random_access_iterator_tag, false, true)
struct sm_u_name { static const char* str() { return "sm_u"; } static int value() { return 108; } };
struct sm_s_name { static const char* str() { return "sm_s"; } static int value() { return 109; } };
template<std::size_t N> struct fixed_u: cs::sorter_facade<leaf_impl<sm_u_name, std::random_access_iterator_tag, false, false, false>> {};
template<std::size_t N> struct fixed_s: cs::sorter_facade<leaf_impl<sm_s_name, std::random_access_iterator_tag, true, false, false>> {};
} // namespace vp
namespace cppsort {
    template<> struct fixed_sorter_traits<vp::fixed_u> { using domain = std::make_index_sequence<4>; using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::false_type; };
    template<> struct fixed_sorter_traits<vp::fixed_s> { using domain = std::make_index_sequence<4>; using iterator_category = std::random_access_iterator_tag; using is_always_stable = std::true_type; };
}
namespace vp {
using sm_u = cs::small_array_adapter<fixed_u>;
using sm_s = cs::small_array_adapter<fixed_s>;
inline int value_of(const std::string& n) {
    for (auto p : {std::make_pair("f_u", 101), std::make_pair("f_s", 102), std::make_pair("b_u", 103), std::make_pair("b_s", 104), std::make_pair("r_u", 105),
                   std::make_pair("r_s", 106), std::make_pair("r_n", 107), std::make_pair("sm_u", 108), std::make_pair("sm_s", 109), std::make_pair("sort", 110), std::make_pair("stable_sort", 111)})
        if (n == p.first) return p.second;
    return -1;
}
// iterables: bare ones, and ones that can sort themselves
template<class C> struct Bare {
    using value_type = E; C c;
    auto begin() { return c.begin(); } auto end() { return c.end(); } auto begin() const { return c.begin(); } auto end() const { return c.end(); }
    template<class It> void assign(It a, It b) { c.assign(a, b); }
};
template<bool Sort, bool Stable> struct Own: Bare<std::vector<E>> {
    template<class C> int go(const char* n, int v, C cmp, bool stable) {
        hits.push_back({n, 0});
        using It = std::vector<E>::iterator;
        plain_sort(c.begin(), c.end(), [&](It a, It b) { return bool(cmp(*a, *b)); }, stable);
        return v;
    }
    template<bool B = Sort, std::enable_if_t<B, int> = 0> int sort() { return go("sort", 110, std::less<>{}, false); }
    template<class C, bool B = Sort, std::enable_if_t<B, int> = 0> auto sort(C cmp) -> decltype(bool(cmp(std::declval<E&>(), std::declval<E&>())), int()) { return go("sort", 110, cmp, false); }
    template<bool B = Stable, std::enable_if_t<B, int> = 0> int stable_sort() { return go("stable_sort", 111, std::less<>{}, true); }
    template<class C, bool B = Stable, std::enable_if_t<B, int> = 0> auto stable_sort(C cmp) -> decltype(bool(cmp(std::declval<E&>(), std::declval<E&>())), int()) { return go("stable_sort", 111, cmp, true); }
};
template<std::size_t N> struct Arr { using value_type = E; std::array<E, N> a;
    E* begin() { return a.data(); } E* end() { return a.data() + N; } const E* begin() const { return a.data(); } const E* end() const { return a.data() + N; }
    template<class It> void assign(It b, It e) { std::size_t i = 0; for (; b != e; ++b, ++i) a[i] = *b; } };
template<std::size_t N> struct CArr { using value_type = E; E a[N];
    E* begin() { return a; } E* end() { return a + N; } const E* begin() const { return a; } const E* end() const { return a + N; }
    template<class It> void assign(It b, It e) { std::size_t i = 0; for (; b != e; ++b, ++i) a[i] = *b; } };
template<class C> C& whole(C& c) { return c; }
template<std::size_t N> std::array<E, N>& whole(Arr<N>& c) { return c.a; }
template<std::size_t N> auto whole(CArr<N>& c) -> E(&)[N] { return c.a; }
// comparison and projection arguments
struct None {};
struct Kind { bool isvoid; long long value; };
struct Allowed { const char* hit; bool once; const char* ret; };
template<class S, class... A> Kind invoke(const S& s, A&&... a) {
    if constexpr (std::is_void_v<decltype(s(std::forward<A>(a)...))>) { s(std::forward<A>(a)...); return {true, 0}; }
    else return {false, (long long)(s(std::forward<A>(a)...))};
}
inline std::string verdict(const Kind& k, std::size_t n, const std::vector<Allowed>& allowed, const std::vector<std::pair<std::string, int>>& tags, bool stateful) {
    std::string seen; for (auto& h : hits) { if (seen.size() < 120) seen += (seen.empty() ? "" : ", ") + h.name; }
    std::string want;
    for (auto& a : allowed) {
        want += std::string(want.empty() ? "" : " or ") + a.hit + (a.once ? " once" : "") + ", returning " + a.ret;
        bool list = !strcmp(a.hit, "list"), ok = true;
        if (a.once) ok = hits.size() == (list ? 0u : 1u) || (n < 2 && hits.empty());
        for (auto& h : hits) {
            ok = ok && h.name == a.hit;
            if (stateful && value_of(h.name) < 108) { bool t = false; for (auto& p : tags) t = t || (p.first == h.name && p.second == h.tag); ok = ok && t; }
        }
        if (!strcmp(a.ret, "void")) ok = ok && k.isvoid;
        else if (!strcmp(a.ret, "count")) ok = ok && !k.isvoid && k.value >= (n < 2 ? 0 : (long long)(n - 1));
        else ok = ok && !k.isvoid && (n < 2 || k.value == value_of(a.hit));
        if (ok) return "";
    }
    return "called " + (seen.empty() ? "nothing" : seen) + ", returned " + (k.isvoid ? "nothing" : std::to_string(k.value)) + "; the specification says " + want;
}
template<class C, bool It, std::size_t N, class Cmp, class Proj, class Make>
void call(const std::string& name, Make make, bool guaranteed, std::vector<Allowed> allowed, std::vector<std::pair<std::string, int>> tags, bool stateful) {
    using S = decltype(make());
    add(name, [=](const Vec& v) -> std::string {
        if (N && v.n() != N) return "skip";
        C c; constexpr bool neg = std::is_same_v<Cmp, Desc>;
        fill(c, v, neg);
        const S s = make();
        hits.clear();
        Kind k; bool trait;
        auto go = [&](auto&&... r) {
            auto with = [&](auto... a) { k = invoke(s, std::forward<decltype(r)>(r)..., a...); trait = cs::is_stable_v<S(decltype(r)..., decltype(a)...)>; };
            if constexpr (std::is_same_v<Cmp, None>) {
                if constexpr (std::is_same_v<Proj, None>) with();
                else if constexpr (std::is_same_v<Proj, cs::utility::identity>) with(Proj{});
                else with(&E::key);
            } else {
                if constexpr (std::is_same_v<Proj, None>) with(Cmp{});
                else if constexpr (std::is_same_v<Proj, cs::utility::identity>) with(Cmp{}, Proj{});
                else with(Cmp{}, &E::key);
            }
        };
        if constexpr (It) go(c.begin(), c.end());
        else go(whole(c));
        std::string bad = verdict(k, v.n(), allowed, tags, stateful);
        if (!bad.empty()) return bad;
        bad = judge(c, v, guaranteed, neg);
        if (bad.empty() && trait && !(bad = judge(c, v, true, neg)).empty()) bad = "is_stable holds for the call, but " + bad;
        return bad;
    }, N ? N : 16);
}
template<class S> void traits(const std::string& name, int cat, bool always, bool empty) {
    add(name + " traits", [=](const Vec& v) -> std::string {
        using C = cs::iterator_category<S>;
        int have = std::is_same_v<C, std::random_access_iterator_tag> ? 2 : std::is_same_v<C, std::bidirectional_iterator_tag> ? 1 : std::is_same_v<C, std::forward_iterator_tag> ? 0 : -1;
        if (have != cat) return "iterator_category is " + std::to_string(have) + ", the specification says " + std::to_string(cat);
        if (cs::is_always_stable_v<S> != always) return std::string("is_always_stable is ") + (always ? "false" : "true") + ", unlike what the specification says";
        if (empty && !(std::is_empty_v<S> && std::is_default_constructible_v<S>)) return "not empty and default-constructible though all it adapts is";
        return ""; }, 1);
}
struct key_t_ {};
} // namespace vp
#endif
