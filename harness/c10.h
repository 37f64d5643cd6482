// C10: sorted_indices, sorted_iterators and apply_permutation (spec/Indirect.tla).
#include "elem.h"
#include "mv.h"
#include "cells.h"
#include "sorters_list.h"
#include "adapters_list.h"
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
namespace vp {
struct Pid { int key; int id; bool operator==(const Pid& o) const { return key == o.key && id == o.id; } };
struct PidNeg { int operator()(const Pid& p) const { return -p.key; } };
struct PidRef { const int& operator()(const Pid& p) const { return p.key; } };
template<class C> bool untouched(const C& c, const Vec& v) {
    std::size_t i = 0;
    for (auto& e : c) { if (e.id != int(i) || e.key != v.keys[i]) return false; ++i; }
    return i == v.n();
}
template<class I> std::string judge_indices(const I& idx, const Vec& v, bool stable) {
    std::vector<Pid> r;
    for (auto i : idx) { if (i < 0 || std::size_t(i) >= v.n()) return "index " + std::to_string(i) + " out of the collection"; r.push_back({v.keys[std::size_t(i)], int(i)}); }
    return judge(r, v, stable);
}
// keeps copies of the projected elements
template<class S> struct copies_keys : std::false_type {};
template<class S> struct copies_keys<cs::schwartz_adapter<S>> : std::true_type {};
template<class S> void reg_indices(const char* n) {
    using A = cs::utility::sorted_indices<S>;
    using C = std::vector<Pid>; using D = std::deque<Pid>;
    std::string name = "sorted_indices/" + std::string(n);
    add(name + "/const vector, projection by reference", [](const Vec& v) -> std::string {
        C c; fill(c, v); const C& k = c;
        auto idx = A{}(k, PidRef{});
        if (!untouched(c, v)) return "the collection was modified";
        return judge_indices(idx, v, cs::is_stable<A(const C&, PidRef)>::value); }, quadratic_limit(n));
    add(name + "/deque iterators, comparison, projection by value; apply", [](const Vec& v) -> std::string {
        D c; fill(c, v);
        auto idx = A{}(c.begin(), c.end(), std::greater<>{}, PidNeg{});
        if (!untouched(c, v)) return "the collection was modified";
        constexpr bool st = cs::is_stable<A(D::iterator, D::iterator, std::greater<>, PidNeg)>::value;
        auto r = judge_indices(idx, v, st);
        if (!r.empty()) return r;
        cs::utility::apply_permutation(c, idx);
        return judge(c, v, st); }, quadratic_limit(n));
    add(name + "/vector, member pointer; apply with iterators", [](const Vec& v) -> std::string {
        C c; fill(c, v);
        auto idx = A{}(c, &Pid::key);
        if (!untouched(c, v)) return "the collection was modified";
        cs::utility::apply_permutation(c.begin(), c.end(), idx.begin(), idx.end());
        return judge(c, v, cs::is_stable<A(C&, int Pid::*)>::value); }, quadratic_limit(n));
    if constexpr (!copies_keys<S>::value)
    add(name + "/move-only elements, comparison", [](const Vec& v) -> std::string {
        std::vector<std::unique_ptr<Pid>> c; for (std::size_t i = 0; i < v.n(); ++i) c.push_back(std::unique_ptr<Pid>(new Pid{v.keys[i], int(i)}));
        auto idx = A{}(c, [](const std::unique_ptr<Pid>& a, const std::unique_ptr<Pid>& b) { return a->key < b->key; });
        cs::utility::apply_permutation(c, idx);
        C r; for (auto& p : c) { if (!p) return "an element was lost"; r.push_back(*p); }
        return judge(r, v, cs::is_always_stable<A>::value); }, quadratic_limit(n));
    add(name + "/array of int", [](const Vec& v) -> std::string {
        if (v.n() == 0) return "skip";
        std::vector<int> c(v.keys);
        auto idx = A{}(c.data(), c.data() + c.size());
        if (c != v.keys) return "the collection was modified";
        auto r = judge_indices(idx, v, cs::is_stable<A(int*, int*)>::value);
        if (!r.empty()) return r;
        cs::utility::apply_permutation(c.data(), c.data() + c.size(), idx.begin(), idx.end());
        return judge_ints(c, v); }, quadratic_limit(n));
}
// collections whose iterators return temporary objects
template<class S> void reg_cells(const char* n) {
    using R = CellIt<std::random_access_iterator_tag>; using F = CellIt<std::forward_iterator_tag>;
    auto cells = [](const Vec& v) { std::vector<Cell> c; for (std::size_t i = 0; i < v.n(); ++i) c.push_back(Cell{v.keys[i], int(i)}); return c; };
    using A = cs::utility::sorted_indices<S>; using B = cs::utility::sorted_iterators<S>;
    add("sorted_indices/" + std::string(n) + "/cells; apply", [cells](const Vec& v) -> std::string {
        auto c = cells(v); R a{c.data()}, b{c.data() + c.size()};
        auto idx = A{}(a, b, CellLess{}, CellSelf{});
        if (!untouched(c, v)) return "the collection was modified";
        constexpr bool st = cs::is_stable<A(R, R, CellLess, CellSelf)>::value;
        auto r = judge_indices(idx, v, st);
        if (!r.empty()) return r;
        cs::utility::apply_permutation(a, b, idx.begin(), idx.end());
        return judge(c, v, st); }, quadratic_limit(n));
    add("sorted_iterators/" + std::string(n) + "/cells", [cells](const Vec& v) -> std::string {
        auto c = cells(v); F a{c.data()}, b{c.data() + c.size()};
        auto its = B{}(a, b, CellLess{}, CellSelf{});
        if (!untouched(c, v)) return "the collection was modified";
        std::vector<Pid> r;
        for (F it : its) { if (it.p < c.data() || it.p >= c.data() + c.size()) return "an iterator leaves the collection"; r.push_back({it.p->key, it.p->id}); }
        return judge(r, v, cs::is_stable<B(F, F, CellLess, CellSelf)>::value); }, quadratic_limit(n));
}
template<class I, class C> std::string judge_iterators(const I& its, const C& c, const Vec& v, bool stable) {
    std::unordered_map<const void*, int> pos; int k = 0;
    for (auto& e : c) pos[&e] = k++;
    std::vector<Pid> r;
    for (auto it : its) { auto p = pos.find(&*it); if (p == pos.end()) return "an iterator leaves the collection"; r.push_back({v.keys[std::size_t(p->second)], p->second}); }
    return judge(r, v, stable);
}
template<class S, class C> void reg_iterators(const char* n, const char* what) {
    using A = cs::utility::sorted_iterators<S>;
    std::string name = "sorted_iterators/" + std::string(n) + "/" + what;
    add(name + "/const, projection by value", [](const Vec& v) -> std::string {
        C c; fill(c, v); const C& k = c;
        auto its = A{}(k, std::greater<>{}, PidNeg{});
        if (!untouched(c, v)) return "the collection was modified";
        return judge_iterators(its, c, v, cs::is_stable<A(const C&, std::greater<>, PidNeg)>::value); }, quadratic_limit(n));
    add(name + "/iterators, member pointer", [](const Vec& v) -> std::string {
        C c; fill(c, v);
        auto its = A{}(c.begin(), c.end(), &Pid::key);
        if (!untouched(c, v)) return "the collection was modified";
        return judge_iterators(its, c, v, cs::is_stable<A(typename C::iterator, typename C::iterator, int Pid::*)>::value); }, quadratic_limit(n));
    add(name + "/comparison", [](const Vec& v) -> std::string {
        C c; fill(c, v);
        auto its = A{}(c, [](const Pid& a, const Pid& b) { return a.key < b.key; });
        if (!untouched(c, v)) return "the collection was modified";
        return judge_iterators(its, c, v, cs::is_always_stable<A>::value); }, quadratic_limit(n));
}
// apply_permutation over every permutation the specification enumerates
template<class C, class I> void reg_apply(const char* what) {
    for (int form = 0; form < 2; ++form)
    add(std::string("apply_permutation/") + what + (form ? "/iterators" : ""), [form](const Vec& v) -> std::string {
        if (v.tag != "p") return "skip";
        C c; load(c, v);
        I idx; for (int k : v.keys) idx.push_back(typename I::value_type(k - 1));
        if (form) { if (tracing()) return "skip"; cs::utility::apply_permutation(c.begin(), c.end(), idx.begin(), idx.end()); }
        else { begin_trace(c, v, 2); cs::utility::apply_permutation(c, idx); end_trace(c); }
        ledger().on = false;
        for (std::size_t i = 0; i < v.n(); ++i)
            if (c[i].id != v.keys[i] - 1) return "position " + std::to_string(i) + " holds element " + std::to_string(c[i].id) + ", specification says " + std::to_string(v.keys[i] - 1);
        if (ledger().copies) return "elements were copied";
        if (ledger().overwrites) return "a value was overwritten or moved twice";
        return ""; });
}
// a sorter with a state: the one given is the one that sorts
struct Numbered { int tag; static int& used() { static int u = 0; return u; }
    explicit Numbered(int t) : tag(t) {}
    template<class... A> auto operator()(A&&... a) const -> decltype(cs::merge_sorter{}(std::forward<A>(a)...)) { used() += tag; return cs::merge_sorter{}(std::forward<A>(a)...); }
    using iterator_category = std::forward_iterator_tag; using is_always_stable = std::true_type; };
inline void reg_more() {
    add("sorted_indices/a sorter with a state", [](const Vec& v) -> std::string {
        std::vector<Pid> c; fill(c, v); Numbered::used() = 0;
        cs::utility::sorted_indices<Numbered> a(Numbered{5});
        auto idx = a(c, &Pid::key);
        if (Numbered::used() != 5) return "the sorter given was used " + std::to_string(Numbered::used()) + "/5 times";
        return judge_indices(idx, v, true); });
    add("sorted_iterators/a sorter with a state", [](const Vec& v) -> std::string {
        std::forward_list<Pid> c; fill(c, v); Numbered::used() = 0;
        cs::utility::sorted_iterators<Numbered> a(Numbered{5});
        auto its = a(c.begin(), c.end(), std::greater<>{}, PidNeg{});
        if (Numbered::used() != 5) return "the sorter given was used " + std::to_string(Numbered::used()) + "/5 times";
        return judge_iterators(its, c, v, true); });
    add("sorted_indices/vector<bool>", [](const Vec& v) -> std::string {
        long long lo = 0, hi = 0; for (int k : v.keys) { lo = std::min<long long>(lo, k); hi = std::max<long long>(hi, k); }
        std::vector<bool> c; for (int k : v.keys) c.push_back(k > (lo + hi) / 2);
        auto k = c;
        auto idx = cs::utility::sorted_indices<cs::merge_sorter>{}(c);
        if (c != k) return "the collection was modified";
        if (idx.size() != c.size()) return "wrong number of indices";
        std::vector<bool> seen(c.size());
        for (std::size_t i = 0; i < idx.size(); ++i) {
            if (idx[i] < 0 || std::size_t(idx[i]) >= c.size() || seen[std::size_t(idx[i])]) return "not a permutation of the indices";
            seen[std::size_t(idx[i])] = true;
            if (i && c[std::size_t(idx[i - 1])] > c[std::size_t(idx[i])]) return "not sorted at position " + std::to_string(i);
            if (i && c[std::size_t(idx[i - 1])] == c[std::size_t(idx[i])] && idx[i - 1] > idx[i]) return "not stable at position " + std::to_string(i);
        }
        return ""; });
    add("apply_permutation/two collections with the same indices", [](const Vec& v) -> std::string {
        if (v.tag != "p") return "skip";
        std::vector<std::string> a, b; for (std::size_t i = 0; i < v.n(); ++i) { a.push_back("a long enough value " + std::to_string(i)); b.push_back(std::to_string(i)); }
        std::vector<long> x, y; for (int k : v.keys) { x.push_back(k - 1); y.push_back(k - 1); }
        cs::utility::apply_permutation(a, std::move(x));
        cs::utility::apply_permutation(b.data(), b.data() + b.size(), y.data(), y.data() + y.size());
        for (std::size_t i = 0; i < v.n(); ++i)
            if (a[i] != "a long enough value " + std::to_string(v.keys[i] - 1) || b[i] != std::to_string(v.keys[i] - 1)) return "position " + std::to_string(i) + " holds " + a[i] + " and " + b[i];
        return ""; });
    add("apply_permutation/vector<bool>", [](const Vec& v) -> std::string {
        if (v.tag != "p") return "skip";
        std::vector<bool> a; for (std::size_t i = 0; i < v.n(); ++i) a.push_back(i * 7 % 5 < 2);
        std::vector<int> x; for (int k : v.keys) x.push_back(k - 1);
        cs::utility::apply_permutation(a, x);
        for (std::size_t i = 0; i < v.n(); ++i) if (a[i] != (std::size_t(v.keys[i] - 1) * 7 % 5 < 2)) return "position " + std::to_string(i) + " does not hold element " + std::to_string(v.keys[i] - 1);
        return ""; });
    add("apply_permutation/narrow indices", [](const Vec& v) -> std::string {
        if (v.tag != "p" || v.n() > 255) return "skip";
        std::vector<int> a; std::vector<unsigned char> x; for (std::size_t i = 0; i < v.n(); ++i) { a.push_back(int(i)); x.push_back((unsigned char)(v.keys[i] - 1)); }
        cs::utility::apply_permutation(a, x);
        for (std::size_t i = 0; i < v.n(); ++i) if (a[i] != v.keys[i] - 1) return "position " + std::to_string(i) + " holds element " + std::to_string(a[i]);
        return ""; });
}
}
