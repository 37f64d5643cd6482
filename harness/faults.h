// C04 and C05: the same monitored calls, with a fault injected at every point
// where the specification has a Throw or an allocation that may fail.
#ifndef VP_FAULTS_H
#define VP_FAULTS_H
#include "tracked_run.h"
#include "adapters_list.h"
#include <cpp-sort/probes.h>
namespace vp {
// fault points to try among 1..count: all of them when there are few
inline std::vector<long> points(long count, std::size_t salt, long all_up_to = 40, long others = 24) {
    std::vector<long> r;
    if (count <= all_up_to) for (long k = 1; k <= count; ++k) r.push_back(k);
    else {
        for (long k = 1; k <= 8; ++k) { r.push_back(k); r.push_back(count + 1 - k); }
        for (long j = 0; j < others; ++j) r.push_back(1 + long((std::size_t(j) * 2654435761u + salt * 40503u + 977u * std::size_t(count)) % std::size_t(count)));
    }
    return r;
}
inline std::size_t salt_of(const Vec& v) { std::size_t h = 7; for (int k : v.keys) h = h * 31 + std::size_t(k + 1000003); return h; }
enum FaultKind { F_CMP, F_PROJ, F_MOVE };
template<class C, class Call>
std::string every_throw(const Vec& v, FaultKind kind, bool stable, bool whole, Call call, Mode mode = {}) {
    Outcome base = tracked_call<C>(v, stable, whole, {}, call, mode);
    if (!base.bad.empty()) return "without a fault: " + base.bad;
    long n = kind == F_CMP ? base.cmps : kind == F_PROJ ? base.projs : base.moves;
    mode.facts = false;
    for (long k : points(n, salt_of(v))) {
        Faults f; (kind == F_CMP ? f.cmp : kind == F_PROJ ? f.proj : f.move) = k;
        Outcome o = tracked_call<C>(v, stable, whole, f, call, mode);
        ++counter[0];
        static const char* what[] = {"comparison", "projection", "move"};
        if (o.bad.empty() && !o.threw) o.bad = "nothing was thrown to the caller";
        if (!o.bad.empty()) return std::string("throw at ") + what[kind] + " " + std::to_string(k) + " of " + std::to_string(n) + ": " + o.bad;
    }
    return "";
}
// which move faults apply: std algorithms are not the library's code
template<class S> struct lib_moves : std::true_type {};
template<> struct lib_moves<cs::std_sorter> : std::false_type {};
// indirect_adapter leaves the collection alone while the iterators are sorted
template<class S> struct keeps : std::false_type {};
template<class S> struct keeps<cs::indirect_adapter<S>> : std::true_type {};
template<class S, class C> void reg_throw(const char* n, const char* what) {
    constexpr bool stable = cs::is_stable_v<S(C&, TrLess)>;
    using It = typename C::iterator;
    Mode m; m.keep_on_throw = keeps<S>::value;
    auto cmp = [](C&, It a, It b) { S{}(a, b, TrLess{}); };
    auto prj = [](C& c, It, It) { S{}(c, ViewLess{}, TrProj{}); };
    std::string name = std::string(n) + "/" + what;
    add(name + "/throwing comparison", [=](const Vec& v) { return every_throw<C>(v, F_CMP, stable, false, cmp, m); }, 320);
    add(name + "/throwing projection", [=](const Vec& v) { return every_throw<C>(v, F_PROJ, stable, true, prj, m); }, 320);
    if (lib_moves<S>::value)
        add(name + "/throwing move", [=](const Vec& v) { return every_throw<C>(v, F_MOVE, stable, false, cmp); }, 320);
}
// ---- C05 ----
// documented never to throw std::bad_alloc; documented O(1) memory: never allocates
template<class S> struct never_throws : std::false_type {};
template<class S> struct no_alloc : std::false_type {};
#define VP_NT(...) template<> struct never_throws<__VA_ARGS__> : std::true_type {};
#define VP_NA(...) template<> struct no_alloc<__VA_ARGS__> : std::true_type {}; VP_NT(__VA_ARGS__)
VP_NT(cs::pdq_sorter) VP_NT(cs::quick_merge_sorter) VP_NT(cs::quick_sorter) VP_NT(cs::split_sorter) VP_NT(cs::std_sorter) VP_NT(cs::merge_sorter)
VP_NT(cs::split_adapter<cs::pdq_sorter>) VP_NT(cs::split_adapter<cs::merge_sorter>) VP_NT(cs::counting_adapter<cs::merge_sorter>)
VP_NT(cs::self_sort_adapter<cs::merge_sorter>) VP_NT(cs::default_sorter) VP_NT(cs::hybrid_adapter<cs::merge_sorter, cs::insertion_sorter, cs::pdq_sorter>)
VP_NA(grail_0) VP_NA(wiki_512) VP_NA(dary_2) VP_NA(dary_3) VP_NA(dary_4) VP_NA(dary_5) VP_NA(dary_8) VP_NA(cs::heap_sorter)
VP_NA(cs::smooth_sorter) VP_NA(cs::insertion_sorter) VP_NA(cs::selection_sorter)
template<class C, class Call>
std::string every_alloc(const Vec& v, bool stable, bool whole, Call call, bool must_work, bool must_not_alloc, Mode mode = {}) {
    Outcome base = tracked_call<C>(v, stable, whole, {}, call, mode);
    if (!base.bad.empty()) return "without a fault: " + base.bad;
    if (must_not_alloc && base.allocs) return "documented to use O(1) memory, but allocates from the heap";
    auto attempt = [&](HeapPlan::Kind hk, long hv, const char* what) -> std::string {
        Faults f; f.hk = hk; f.hv = hv;
        Outcome o = tracked_call<C>(v, stable, whole, f, call, mode);
        ++counter[0];
        if (o.bad.empty() && must_work && o.threw) o.bad = "std::bad_alloc although documented never to throw it";
        return o.bad.empty() ? "" : std::string(what) + " " + std::to_string(hv) + " (of " + std::to_string(base.allocs) + "): " + o.bad;
    };
    std::string m = attempt(HeapPlan::FROM_KTH, 1, "every allocation fails from");
    if (base.allocs) {
        std::size_t s = salt_of(v);
        for (long k : points(base.allocs, s, 6, 6)) if (m.empty()) m = attempt(HeapPlan::KTH, k, "allocation fails:");
        for (long k : points(base.allocs, s + 1, 4, 4)) if (m.empty() && k > 1) m = attempt(HeapPlan::FROM_KTH, k, "every allocation fails from");
        for (long k : {1, 2, 3, 5}) if (m.empty()) m = attempt(HeapPlan::FIRST_K, k, "the first allocations fail, up to");
        for (long sz : {16, 64, 200, 500, 1000, 3000}) if (m.empty()) m = attempt(HeapPlan::BIGGER, sz, "allocations fail above bytes:");
    }
    return m;
}
template<class S, class C> void reg_heap(const char* n, const char* what) {
    constexpr bool stable = cs::is_stable_v<S(C&, TrLess)>;
    using It = typename C::iterator;
    auto cmp = [](C&, It a, It b) { S{}(a, b, TrLess{}); };
    auto prj = [](C& c, It, It) { S{}(c, ViewLess{}, TrProj{}); };
    std::string name = std::string(n) + "/" + what;
    bool nt = never_throws<S>::value, na = no_alloc<S>::value;
    add(name + "/heap,cmp", [=](const Vec& v) { return every_alloc<C>(v, stable, false, cmp, nt, na); }, quadratic_limit(n));
    add(name + "/heap,proj", [=](const Vec& v) { return every_alloc<C>(v, stable, true, prj, nt, na); }, quadratic_limit(n));
}
// ---- probes ----
template<class Pr, class C> void reg_probe_throw(const char* n, const char* what) {
    using It = typename C::iterator;
    Mode m; m.untouched = true; m.keep_on_throw = true;
    auto cmp = [](C&, It a, It b) { (void)Pr{}(a, b, TrLess{}); };
    auto prj = [](C& c, It, It) { (void)Pr{}(c, ViewLess{}, TrProj{}); };
    std::string name = std::string("probe ") + n + "/" + what;
    add(name + "/throwing comparison", [=](const Vec& v) { return every_throw<C>(v, F_CMP, false, false, cmp, m); }, 320);
    add(name + "/throwing projection", [=](const Vec& v) { return every_throw<C>(v, F_PROJ, false, true, prj, m); }, 320);
}
template<class Pr, class C> void reg_probe_heap(const char* n, const char* what, bool never) {
    using It = typename C::iterator;
    Mode m; m.untouched = true; m.keep_on_throw = true;
    auto cmp = [](C&, It a, It b) { (void)Pr{}(a, b, TrLess{}); };
    std::string name = std::string("probe ") + n + "/" + what;
    add(name + "/heap", [=](const Vec& v) { return every_alloc<C>(v, false, false, cmp, never, false, m); }, 300);
}
} // namespace vp
#if defined(VP_CXX14) && defined(__cpp_lib_uncaught_exceptions)
#error "a header brought the features of C++17 back"
#endif
#endif
