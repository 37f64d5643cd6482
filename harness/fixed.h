// C07: fixed-size sorters, dispatched on the size of the vector.
#ifndef VP_FIXED_H
#define VP_FIXED_H
#include "evless.h"
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/sorting_networks.h>
#include <array>
#include <atomic>
#include <thread>
#include <numeric>
namespace vp {
namespace cs = cppsort;
template<class T> using Fn = std::string (*)(T&, const Vec&);
// a family: template<size_t> S, sizes I...
template<class V> std::string expect_sorted(const V& c, const std::vector<long long>& want) {
    for (std::size_t i = 0; i < want.size(); ++i) if (!(c[i] == typename V::value_type(want[i]))) return "not sorted at position " + std::to_string(i);
    return "";
}
template<class T, class Cmp, class S, bool Rev> std::string plain(const Vec& v) {
    std::vector<T> c; std::vector<long long> want;
    for (int k : v.keys) c.push_back(T(Rev ? -k : k));
    for (int p : v.perm) want.push_back(Rev ? -v.keys[std::size_t(p)] : v.keys[std::size_t(p)]);
    c.push_back(T(-1000)); c.insert(c.begin(), T(1000));          // must stay where they are
    auto d = c;                                                   // pointers: see reg_int_vec
    S{}(c.begin() + 1, c.end() - 1, Cmp{});
    S{}(d.data() + 1, d.data() + d.size() - 1, Cmp{});
    for (auto* x : {&c, &d}) {
        if (x->front() != T(1000) || x->back() != T(-1000)) return "an element outside of the range changed";
        x->erase(x->begin()); x->pop_back();
    }
    auto r = expect_sorted(c, want);
    return r.empty() ? expect_sorted(d, want) : r;
}
template<class T, class Cmp, class S, bool Rev> std::string zeros(const Vec& v) {
    auto c = fp_keys<T>(v, Rev), d = c;
    S{}(c, Cmp{}); S{}(d.data(), d.data() + d.size(), Cmp{});
    auto r = judge_fp(c, v, Rev);
    return r.empty() ? judge_fp(d, v, Rev) : r;
}
template<class S> std::string with_ev(const Vec& v, int form) {
    bool st = cs::is_stable_v<S(std::vector<Q>&, EvLess)>;
    return ev_call<std::vector<Q>>(v, st, [form](std::vector<Q>& c) {
        switch (form) {
            case 0: S{}(c, EvLess{}); break;
            case 1: S{}(c.begin(), c.end(), EvLess{}); break;
            case 2: S{}(c, EvLess{}, EvProj{}); break;
            default: S{}(c.begin(), c.end(), EvLess{}, EvProj{});
        }
    });
}
template<class S, std::size_t N> std::string on_array(const Vec& v) {
    std::array<int, N> a{}; for (std::size_t i = 0; i < N; ++i) a[i] = v.keys[i];
    S{}(a);
    for (std::size_t i = 0; i < N; ++i) if (a[i] != v.keys[std::size_t(v.perm[i])]) return "not sorted at position " + std::to_string(i);
    int b[N ? N : 1]; for (std::size_t i = 0; i < N; ++i) b[i] = -v.keys[i];
    S{}(b, b + N, std::greater<>{});
    for (std::size_t i = 0; i < N; ++i) if (b[i] != -v.keys[std::size_t(v.perm[i])]) return "not in reverse order at position " + std::to_string(i);
    return "";
}
template<class Table> void reg_table(const std::string& name, Table table) {
    auto t = std::make_shared<Table>(std::move(table));
    std::size_t max = 0; for (auto& x : *t) max = std::max(max, x.first);
    add(name, [t](const Vec& v) -> std::string {
        for (auto& x : *t) if (x.first == v.n()) return x.second(v);
        return "";
    }, max);
}
using Entry = std::pair<std::size_t, std::function<std::string(const Vec&)>>;
template<template<std::size_t> class S, std::size_t... I> void reg_family(const std::string& f, std::index_sequence<I...>) {
    for (int form = 0; form < 4; ++form)
        reg_table(f + "/evidence, form " + std::to_string(form), std::vector<Entry>{{I, [form](const Vec& v) { return with_ev<S<I>>(v, form); }}...});
    reg_table(f + "/int less", std::vector<Entry>{{I, [](const Vec& v) { return plain<int, std::less<>, S<I>, false>(v); }}...});
    reg_table(f + "/int greater", std::vector<Entry>{{I, [](const Vec& v) { return plain<int, std::greater<>, S<I>, true>(v); }}...});
    reg_table(f + "/double less", std::vector<Entry>{{I, [](const Vec& v) { return plain<double, std::less<>, S<I>, false>(v); }}...});
    reg_table(f + "/double greater", std::vector<Entry>{{I, [](const Vec& v) { return plain<double, std::greater<>, S<I>, true>(v); }}...});
    reg_table(f + "/float zeros less", std::vector<Entry>{{I, [](const Vec& v) { return zeros<float, std::less<>, S<I>, false>(v); }}...});
    reg_table(f + "/double zeros greater", std::vector<Entry>{{I, [](const Vec& v) { return zeros<double, std::greater<>, S<I>, true>(v); }}...});
    reg_table(f + "/arrays", std::vector<Entry>{{I, [](const Vec& v) { return on_array<S<I>, I>(v); }}...});
}
#ifdef VP_CXX20
template<class T, class Cmp, class Proj, class S, bool Rev> std::string plain20(const Vec& v) {
    std::vector<T> c; std::vector<long long> want;
    for (int k : v.keys) c.push_back(T(Rev ? -k : k));
    for (int p : v.perm) want.push_back(Rev ? -v.keys[std::size_t(p)] : v.keys[std::size_t(p)]);
    auto d = c;
    if constexpr (std::is_void_v<Proj>) { S{}(c, Cmp{}); S{}(d.data(), d.data() + d.size(), Cmp{}); }
    else { S{}(c.begin(), c.end(), Cmp{}, Proj{}); S{}(d.data(), d.data() + d.size(), Cmp{}, Proj{}); }
    auto r = expect_sorted(c, want);
    return r.empty() ? expect_sorted(d, want) : r;
}
template<template<std::size_t> class S, std::size_t... I> void reg_family20(const std::string& f, std::index_sequence<I...>) {
    reg_table(f + "/int ranges::less", std::vector<Entry>{{I, [](const Vec& v) { return plain20<int, std::ranges::less, void, S<I>, false>(v); }}...});
    reg_table(f + "/int ranges::greater", std::vector<Entry>{{I, [](const Vec& v) { return plain20<int, std::ranges::greater, void, S<I>, true>(v); }}...});
    reg_table(f + "/double ranges::less, identity", std::vector<Entry>{{I, [](const Vec& v) { return plain20<double, std::ranges::less, std::identity, S<I>, false>(v); }}...});
    reg_table(f + "/double ranges::greater, identity", std::vector<Entry>{{I, [](const Vec& v) { return plain20<double, std::ranges::greater, std::identity, S<I>, true>(v); }}...});
    reg_table(f + "/long less, identity", std::vector<Entry>{{I, [](const Vec& v) { return plain20<long, std::less<>, std::identity, S<I>, false>(v); }}...});
    reg_table(f + "/float greater, identity", std::vector<Entry>{{I, [](const Vec& v) { return plain20<float, std::greater<>, std::identity, S<I>, true>(v); }}...});
}
#endif
// ---- networks ----
struct CELog {
    std::vector<std::array<int, 3>> ces;
    bool operator()(const P& a, const P& b) { bool r = a.key < b.key; ces.push_back({a.id, b.id, int(r)}); return r; }
};
struct CERef { CELog* l; bool operator()(const P& a, const P& b) const { return (*l)(a, b); } };
template<class S> std::string oblivious(const Vec& v, int net, int form) {
    // distinct keys: the rank of each position in the stable order
    std::vector<P> c(v.n());
    for (std::size_t r = 0; r < v.n(); ++r) c[std::size_t(v.perm[r])] = P{int(r), 0};
    for (std::size_t i = 0; i < v.n(); ++i) c[i].id = int(i);
    std::vector<P> start = c;
    CELog log;
    auto pairs = S::template index_pairs<>();
    if (form == 0) S{}(c, CERef{&log});
    else if (form == 1) S{}(c.begin(), c.end(), CERef{&log}, [](const P& p) -> const P& { return p; });
    else if (form == 2) cs::utility::swap_index_pairs(c.begin(), pairs, CERef{&log});
    else if constexpr (std::tuple_size<decltype(pairs)>::value <= 130) cs::utility::swap_index_pairs_force_unroll(c.begin(), pairs, CERef{&log}, cs::utility::identity{});
    else return "";
    if (tracing()) {
        std::string k = "[\"call\"," + std::to_string(net) + ",[";
        for (std::size_t i = 0; i < start.size(); ++i) k += (i ? "," : "") + std::to_string(start[i].key);
        trace_line(k + "]]");
        for (auto& e : log.ces) trace_line("[\"ce\"," + std::to_string(e[0]) + "," + std::to_string(e[1]) + "," + std::to_string(e[2]) + "]");
        k = "[\"return\",[";
        for (std::size_t i = 0; i < c.size(); ++i) k += (i ? "," : "") + std::to_string(c[i].id);
        trace_line(k + "]]");
        return "";
    }
    if (log.ces.size() != pairs.size()) return std::to_string(log.ces.size()) + " comparisons, but index_pairs() has " + std::to_string(pairs.size());
    for (std::size_t i = 0; i < c.size(); ++i) if (c[i].key != int(i)) return "not sorted at position " + std::to_string(i);
    return "";
}
template<template<std::size_t> class S, std::size_t... I> void reg_network(const std::string& f, int first_net, std::index_sequence<I...>) {
    static const char* F[] = {"range", "iterators, projection", "swap_index_pairs", "swap_index_pairs_force_unroll"};
    for (int form = 0; form < 4; ++form) {
        int k = first_net; std::vector<Entry> t;
        (t.push_back({I, [form, k](const Vec& v) { return oblivious<S<I>>(v, k, form); }}), ...);
        // the k-th size is the k-th network of the family in the extraction
        int idx = first_net; t.clear();
        ((t.push_back({I, [form, idx](const Vec& v) { return oblivious<S<I>>(v, idx, form); }}), ++idx), ...);
        reg_table(f + "/compare-exchanges, " + F[form], t);
    }
}
// What is left of a network, on the whole product of two sets of 0-1 vectors.
inline std::string suffix(const Vec& v) {
    const J& j = v.raw;
    int n = int(j[2].i);
    std::vector<std::pair<int, int>> p; for (auto& x : j[3].a) p.emplace_back(int(x[0].i), int(x[1].i));
    auto full = [](const J& t) { unsigned __int128 r = 0; for (std::size_t w = 0; w < t.size(); ++w) r |= (unsigned __int128)(t[w].i) << (22 * w); return r; };
    std::vector<std::vector<unsigned __int128>> sets;
    for (auto& s : j[4].a) { sets.emplace_back(); for (auto& t : s.a) sets.back().push_back(full(t)); }
    double total = 1; for (auto& s : sets) total *= double(s.size());
    if (total > 4e8) return "";                                       // left undecided
    while (sets.size() > 2) { auto b = sets.back(); sets.pop_back(); std::vector<unsigned __int128> r; for (auto x : sets.back()) for (auto y : b) r.push_back(x | y); sets.back() = r; }
    if (sets.size() < 2) sets.push_back({0});
    std::atomic<std::size_t> next{0}; std::atomic<bool> bad{false}; std::atomic<long long> seen{0}; std::vector<std::thread> th;
    for (int t = 0; t < 8; ++t) th.emplace_back([&] {
        for (;;) {
            std::size_t a = next++; if (a >= sets[0].size() || bad) return;
            for (std::size_t b = 0; b < sets[1].size(); b += 64) {
                std::vector<std::uint64_t> w(std::size_t(n), 0);      // 64 inputs at once
                std::size_t m = std::min<std::size_t>(64, sets[1].size() - b);
                for (std::size_t l = 0; l < m; ++l) { auto x = sets[0][a] | sets[1][b + l]; for (int i = 0; i < n; ++i) if ((x >> i) & 1) w[std::size_t(i)] |= std::uint64_t(1) << l; }
                for (auto& c : p) { auto x = w[std::size_t(c.first)], y = w[std::size_t(c.second)]; w[std::size_t(c.first)] = x & y; w[std::size_t(c.second)] = x | y; }
                for (int i = 1; i < n; ++i) if (w[std::size_t(i - 1)] & ~w[std::size_t(i)]) bad = true;
            }
            seen += (long long)sets[1].size();
        }
    });
    for (auto& t : th) t.join();
    counter[1] += seen;
    return bad ? "an input of zeros and ones is not sorted" : "";
}
// ---- documented weights ----
struct CountLess { long long* c; bool operator()(int a, int b) const { ++*c; return a < b; } };
static thread_local long long the_moves = 0;
struct Mv {
    int k = 0; Mv() = default; explicit Mv(int x) : k(x) {}
    Mv(Mv&& o) noexcept : k(o.k) { ++the_moves; }
    Mv& operator=(Mv&& o) noexcept { k = o.k; ++the_moves; return *this; }
    bool operator<(const Mv& o) const { return k < o.k; }
};
template<class F> long long over_permutations(std::size_t n, F one) {     // sums one(perm) over all permutations, 8 threads
    std::atomic<long long> sum{0}; std::atomic<int> next{0}; std::vector<std::thread> th;
    int heads = n >= 2 ? int(n * (n - 1)) : 1;
    for (int t = 0; t < 8; ++t) th.emplace_back([&] {
        for (;;) {
            int h = next++; if (h >= heads) return;
            std::vector<int> p; 
            if (n >= 2) { int a = h / int(n - 1), b = h % int(n - 1); if (b >= a) ++b; p = {a, b}; for (int i = 0; i < int(n); ++i) if (i != a && i != b) p.push_back(i); }
            else for (int i = 0; i < int(n); ++i) p.push_back(i);
            long long s = 0; bool more = true;
            while (more) {
                long long r = one(p); if (r < 0) { sum = -(1LL << 62); return; }
                s += r;
                more = n > 2 && std::next_permutation(p.begin() + 2, p.end());
            }
            sum += s;
        }
    });
    for (auto& t : th) t.join();
    return sum;
}
template<std::size_t N> long long weight_cmp() {
    return over_permutations(N, [](const std::vector<int>& p) -> long long {
        int a[N ? N : 1]; for (std::size_t i = 0; i < N; ++i) a[i] = p[i];
        long long c = 0; cs::low_comparisons_sorter<N>{}(a, a + N, CountLess{&c});
        for (std::size_t i = 0; i < N; ++i) if (a[i] != int(i)) return -1;
        return c; });
}
template<std::size_t N> long long weight_mov() {
    return over_permutations(N, [](const std::vector<int>& p) -> long long {
        Mv a[N ? N : 1]; for (std::size_t i = 0; i < N; ++i) a[i].k = p[i];
        the_moves = 0; cs::low_moves_sorter<N>{}(a, a + N);
        long long m = the_moves;
        for (std::size_t i = 0; i < N; ++i) if (a[i].k != int(i)) return -1;
        return m; });
}
template<std::size_t... I> std::string weight_of(const Vec& v, std::index_sequence<I...>) {
    std::size_t n = std::size_t(v.raw[2].i); bool cmp = v.raw[1].s == "low_comparisons"; long long got = -2;
    ((n == I ? void(got = cmp ? weight_cmp<I>() : weight_mov<I>()) : void()), ...);
    if (got == -2) return "no such size";
    counter[2] += 1;
    if (got < 0) return "some permutation of " + std::to_string(n) + " elements is not sorted";
    return std::to_string(got) == v.raw[3].s ? "" : std::string(cmp ? "comparisons" : "moves") + " over all permutations of " + std::to_string(n) + ": " + std::to_string(got) + ", documented: " + v.raw[3].s;
}
} // namespace vp
#endif
