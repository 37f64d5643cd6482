// C06: comparison counts within the documented complexity (spec/Cost.tla, spec/Adversary.tla).
#include "elem.h"
#include "adversary.h"
#include "sorters_list.h"
#include <algorithm>
#include <map>
#include <unistd.h>
namespace vp {
enum { K_NLOGN = 0, K_QUAD = 1, K_BEST = 2, K_SELECT = 3 };
struct Measured {
    std::map<std::string, std::pair<double, std::string>> worst;
    void see(const std::string& k, double r, const std::string& d) { auto& w = worst[k]; if (r > w.first) { w = {r, d}; FILE* o = fopen((std::string(getenv("VP_MEASURE")) + std::to_string(getpid())).c_str(), "a"); fprintf(o, "%.3f %s %s\n", r, k.c_str(), d.c_str()); fclose(o); } }
};
inline Measured& measured() { static Measured m; return m; }
inline std::string over(const std::string& name, long long used, long long limit, std::size_t n, const Vec& v, const char* what) {
    if (getenv("VP_MEASURE") && n > 15) measured().see(name + " " + what, double(used) / double(limit), "n=" + std::to_string(n) + " tag " + v.tag);
    if (used <= limit) return "";
    return std::to_string(used) + " comparisons for " + std::to_string(n) + " elements, specification allows " + std::to_string(limit) + " (" + what + ")";
}
template<class T> struct Counting { long long* n; bool operator()(const T& a, const T& b) const { ++*n; return a.key < b.key; } };
struct CountingInt { long long* n; bool operator()(int a, int b) const { ++*n; return a < b; } };
struct CountingIntBranchless { long long* n; bool operator()(int a, int b) const { ++*n; return a < b; } };
}
namespace cppsort { namespace utility {
template<typename T> struct is_probably_branchless_comparison<vp::CountingIntBranchless, T> : std::is_arithmetic<T> {};
}}
namespace vp {
template<class C> std::string in_order(const C& c, const Vec& v, const Adv& a) {
    std::vector<char> seen(a.rank.size(), 0); int prev = 0;
    for (int e : c) {
        if (e < 1 || std::size_t(e) >= seen.size() || seen[e]) return "not a permutation";
        seen[e] = 1;
        if (prev && !(a.rank[prev] && (!a.rank[e] || a.rank[prev] < a.rank[e]))) return "not sorted according to the adversary's answers";
        prev = e;
    }
    return "";
}
template<class S, class C, class Less, class Plain> std::string fight(const std::string& name, const Vec& v, int kind) {
    std::size_t n = std::size_t(v.keys[0]); long long limit = v.raw[3].a[kind].i;
    Adv a(n); std::vector<int> ids(n); for (std::size_t i = 0; i < n; ++i) ids[i] = int(i) + 1;
    C c(ids.begin(), ids.end());
    if (tracing()) trace_line("[\"call\"," + std::to_string(n) + "," + std::to_string(kind) + "]");
    S{}(c, Less{&a});
    if (tracing()) { std::string s; for (int e : c) s += (s.empty() ? "" : ",") + std::to_string(e); trace_line("[\"return\",[" + s + "]]"); }
    auto r = over(name, a.asked, limit, n, v, "adversary");
    if (r.empty()) r = in_order(c, v, a);
    if (!r.empty() || tracing()) return r;
    // the arrangement the adversary ended up with, against ordinary comparisons
    std::vector<int> killer(n); for (std::size_t i = 0; i < n; ++i) killer[i] = a.rank[i + 1] ? a.rank[i + 1] : int(n) + 1;
    long long used = 0;
    for (int form = 0; form < 4; ++form) {
        std::vector<int> k = killer;
        if (form == 1) for (auto& x : k) x = int(n) + 1 - x;
        if (form == 2) std::reverse(k.begin(), k.end());
        if (form == 3) { auto o = k; for (std::size_t i = 0; i < n; ++i) k[i] = o[i] / 2; }
        C d(k.begin(), k.end()); used = 0;
        S{}(d, Plain{&used});
        r = over(name, used, limit, n, v, "adversarial arrangement");
        if (!r.empty()) return r;
        std::sort(k.begin(), k.end());
        if (!std::equal(k.begin(), k.end(), d.begin())) return "adversarial arrangement not sorted";
        C p(killer.begin(), killer.end()); S{}(p);
        if (!std::is_sorted(p.begin(), p.end())) return "adversarial arrangement not sorted by operator<";
    }
    return "";
}
template<class S, class C> void reg_cost(const char* n, const char* what, int kind, bool linear) {
    using T = typename C::value_type;
    std::string name = std::string(n) + "/" + what;
    add(name, [=](const Vec& v) -> std::string {
        if (v.tag == "adv") return "skip";
        C c; fill(c, v); long long used = 0;
        S{}(c, Counting<T>{&used});
        auto r = over(name, used, v.raw[3].a[kind].i, v.n(), v, "worst");
        if (r.empty() && linear && v.raw[3].a[K_BEST].i >= 0) r = over(name, used, v.raw[3].a[K_BEST].i, v.n(), v, "sorted");
        return r.empty() ? judge(c, v, false) : r; }, quadratic_limit(n));
}
template<class S, class C> void reg_adv(const char* n, const char* what, int kind) {
    std::string name = std::string(n) + "/" + what + "/adversary";
    add(name, [=](const Vec& v) -> std::string {
        if (v.tag != "adv") return "skip";
        if (v.keys[0] > (kind == K_QUAD ? 600 : 1 << 20)) return "skip";
        return fight<S, C, AdvLess, CountingInt>(name, v, kind); });
    add(name + " branchless", [=](const Vec& v) -> std::string {
        if (v.tag != "adv" || tracing()) return "skip";
        if (v.keys[0] > (kind == K_QUAD ? 600 : 1 << 20)) return "skip";
        return fight<S, C, AdvLessBranchless, CountingIntBranchless>(name, v, kind); });
}
constexpr bool one_of(const char* a, const char* list) {
    for (const char* p = list; *p; ) { const char* q = a; while (*q && *p == *q) { ++p; ++q; } if (!*q && (*p == ' ' || !*p)) return true; while (*p && *p != ' ') ++p; if (*p) ++p; }
    return false;
}
// documented: quadratic worst case; linear best case, for those that look for existing order
inline int worst_kind(const char* n) { return one_of(n, "insertion selection") ? K_QUAD : one_of(n, "quick quick_merge std_") ? K_SELECT : K_NLOGN; }
inline bool best_linear(const char* n) {
    return one_of(n, "adaptive_shivers cartesian_tree drop_merge insertion mel pdq slab smooth spin splay split tim verge wiki");
}
template<class S, class CP, class CI> void reg_all(const char* n, const char* what) {
    reg_cost<S, CP>(n, what, worst_kind(n), best_linear(n));
    reg_adv<S, CI>(n, what, worst_kind(n));
}
}
