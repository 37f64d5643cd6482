// C08: the value of every probe is the one of the specification.
#include "elem.h"
#include "alloc.h"
#include "sorters_list.h"
#include <cpp-sort/probes.h>
#include <array>
namespace vp {
enum { VALUES = 3 };
inline std::string within(long long r, const Vec& v, int m) {
    const J& b = v.raw[VALUES][std::size_t(m)];
    if (r >= b[0].i && r <= b[1].i) return "";
    return "returns " + std::to_string(r) + ", the definition gives " + std::to_string(b[0].i) +
           (b[0].i == b[1].i ? "" : ".." + std::to_string(b[1].i));
}
template<class C> std::string same(const C& c, const Vec& v, bool neg = false) {
    std::size_t i = 0;
    for (auto& e : c) {
        if (i >= v.n() || e.id != int(i) || e.key != (neg ? -v.keys[i] : v.keys[i])) return "the collection changed at position " + std::to_string(i);
        ++i;
    }
    return i == v.n() ? "" : "the collection changed";
}
inline bool is_max(const Vec& v) { return v.tag == "max"; }
inline std::string both(std::string a, std::string b) { return a.empty() ? b : a; }
template<class Pr> struct IntLess { bool operator()(int a, int b) const { return a < b; } };
template<class Pr> void reg_probe(const char* name, int m) {
    std::string n = name;
    add(n + "/vector<int>", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        const std::vector<int> c(v.keys); long long r = Pr{}(c);
        std::string s = within(r, v, m);
        if (s.empty() && r > (long long)Pr::max_for_size(c.size())) s = "returns more than max_for_size";
        return c == v.keys ? s : both(s, "the collection changed"); });
    add(n + "/forward_list<int>", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        std::forward_list<int> c(v.keys.begin(), v.keys.end());
        return both(within(Pr{}(c.begin(), c.end()), v, m), std::vector<int>(c.begin(), c.end()) == v.keys ? "" : "the collection changed"); });
    add(n + "/forward_list<Q>/greater+proj", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        std::forward_list<Q> c; fill(c, v);
        return both(within(Pr{}(c, std::greater<>{}, NegProj{}), v, m), same(c, v)); });
    add(n + "/list<P>/cmp", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        std::list<P> c; fill(c, v);
        return both(within(Pr{}(c.begin(), c.end(), ByKey{}), v, m), same(c, v)); });
    add(n + "/deque<Q>/greater", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        std::deque<Q> c; fill(c, v, true);
        return both(within(Pr{}(c, GreaterNeg{}), v, m), same(c, v, true)); });
    add(n + "/vector<P>/member", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        std::vector<P> c; fill(c, v);
        return both(within(Pr{}(c, &P::key), v, m), same(c, v)); });
    add(n + "/part of vector<P>/greater+proj", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        std::vector<P> c; fill(c, v); c.insert(c.begin(), P{1 << 30, -3}); c.push_back(P{-(1 << 30), -4});
        long long r = Pr{}(c.begin() + 1, c.end() - 1, std::greater<>{}, [](const P& p) { return -p.key; });
        c.pop_back(); c.erase(c.begin());
        return both(within(r, v, m), same(c, v)); });
    add(n + "/int[7]", [=](const Vec& v) -> std::string {
        if (is_max(v) || v.n() != 7) return "skip";
        int a[7]; for (int i = 0; i < 7; ++i) a[i] = v.keys[std::size_t(i)];
        std::string s = within(Pr{}(a), v, m);
        for (int i = 0; i < 7; ++i) if (a[i] != v.keys[std::size_t(i)]) s = both(s, "the collection changed");
        return s; });
    add(n + "/no heap", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        std::list<P> l; fill(l, v); std::vector<int> c(v.keys); long long r = -1; std::string s;
        for (int which = 0; which < 2; ++which) {
            heap.start(HeapPlan::FROM_KTH, 1);
            bool ok = true;
            try { r = which ? (long long)Pr{}(l, &P::key) : (long long)Pr{}(c); } catch (const std::bad_alloc&) { ok = false; }
            heap.stop();
            if (ok) s = both(s, within(r, v, m));
        }
        return both(s, both(same(l, v), c == v.keys ? "" : "the collection changed")); });
    add(n + "/indirect_adapter", [=](const Vec& v) -> std::string {
        if (is_max(v)) return "skip";
        std::vector<P> c; fill(c, v);
        return both(within(cs::indirect_adapter<Pr>{}(c, &P::key), v, m), same(c, v)); });
    add(n + "/max_for_size", [=](const Vec& v) -> std::string {
        if (!is_max(v)) return "skip";
        int k = v.keys[0]; long long want = v.raw[VALUES][std::size_t(m)].i;
        static_assert(Pr::max_for_size(3) >= 0, "");
        auto cmp = [&](const char* t, long long got) { return got == want ? std::string() : std::string(t) + " max_for_size(" + std::to_string(k) + ") is " + std::to_string(got) + ", specification says " + std::to_string(want); };
        return both(cmp("int", Pr::max_for_size(k)), both(cmp("size_t", (long long)Pr::max_for_size(std::size_t(k))), both(cmp("ptrdiff_t", Pr::max_for_size(std::ptrdiff_t(k))),
               cmp("unsigned", (long long)Pr::max_for_size(unsigned(k)))))); });
}
}
