// C15: indirect_adapter moves elements along the cycles of the permutation (spec/Indirect.tla),
// out_of_place_adapter moves each element once out and once back.
#include "elem.h"
#include "mv.h"
#include "sorters_list.h"
namespace vp {
inline std::string frugal(const Vec& v, const std::vector<int>& lab) {
    auto& l = ledger();
    std::unordered_map<int, std::array<long long, 3>> c;
    long long total = 0;
    for (std::size_t i = 0; i < v.n(); ++i) { auto& x = c[lab[i]]; x[0] += 1; x[1] += l.moves[i]; x[2] += l.swaps[i]; total += l.moves[i]; }
    for (auto& kv : c) {
        auto& x = kv.second;
        std::string who = "cycle of " + std::to_string(x[0]) + " elements with element " + std::to_string(kv.first - 1);
        if (x[0] == 1) { if (x[1] || x[2]) return "element " + std::to_string(kv.first - 1) + " is in place but was moved"; }
        else if (!((x[2] == 0 && x[1] <= x[0] + 1) || (x[1] == 0 && x[2] <= x[0] - 1)))
            return who + ": " + std::to_string(x[1]) + " moves and " + std::to_string(x[2]) + " exchanges";
    }
    if (2 * total > 3 * (long long)v.n()) return "more than 3n/2 moves";
    if (l.copies) return "elements were copied";
    if (l.overwrites) return "a value was overwritten or moved twice";
    return "";
}
// labels of the arrangement actually left: only needed when equivalent elements may go anywhere
template<class C> std::string judged(const C& c, const Vec& v, bool stable, const std::vector<int>& lab) {
    auto r = judge(c, v, stable);
    if (!r.empty()) return r;
    bool same = true; std::size_t i = 0;
    for (auto& e : c) same = same && e.id == v.perm[i++];
    if (same) return frugal(v, lab);
    std::vector<int> l2(v.n(), 0), order; for (auto& e : c) order.push_back(e.id);
    for (std::size_t s = 0; s < v.n(); ++s) if (!l2[s]) for (std::size_t j = s; !l2[j]; j = std::size_t(order[j])) l2[j] = int(s) + 1;
    return frugal(v, l2);
}
template<class S, class C> void reg_indirect(const char* n, const char* what) {
    using A = cs::indirect_adapter<S>;
    constexpr bool st = cs::is_stable<A(C&, MvLess)>::value;
    auto name = "indirect/" + std::string(n) + "/" + what;
    add(name, [](const Vec& v) -> std::string {
        if (v.tag != "w" && v.tag != "p") return "skip";
        auto lab = v.raw[3].ints();
        C c; load(c, v); begin_trace(c, v, st ? 1 : 0);
        A{}(c, MvLess{});
        end_trace(c);
        return judged(c, v, st, lab); }, quadratic_limit(n));
    add(name + "/iterators+projection", [](const Vec& v) -> std::string {
        if (tracing()) return "skip";
        auto lab = v.raw[3].ints();
        C c; load(c, v);
        A{}(c.begin(), c.end(), MvKey{});
        end_trace(c);
        return judged(c, v, cs::is_stable<A(typename C::iterator, typename C::iterator, MvKey)>::value, lab); }, quadratic_limit(n));
}
template<class S, class C> void reg_oop(const char* n, const char* what) {
    using A = cs::out_of_place_adapter<S>;
    constexpr bool st = cs::is_stable<A(C&, MvLess)>::value;
    for (int form = 0; form < 2; ++form)
    add("out_of_place/" + std::string(n) + "/" + what + (form ? "/iterators" : ""), [form](const Vec& v) -> std::string {
        if (tracing()) return "skip";
        C c; load(c, v);
        if (form) A{}(c.begin(), c.end(), MvLess{}); else A{}(c, MvLess{});
        end_trace(c);
        auto r = judge(c, v, st);
        if (!r.empty()) return r;
        auto& l = ledger();
        for (std::size_t i = 0; i < v.n(); ++i)
            if (l.out[i] != 1 || l.in[i] != 1) {
                if (l.moves[i] == 0 && v.n() < 2) continue;     // nothing to sort
                return "element " + std::to_string(i) + " moved " + std::to_string(l.out[i]) + " times out of and " + std::to_string(l.in[i]) + " times into the collection";
            }
        if (l.copies) return "elements were copied";
        return ""; }, quadratic_limit(n));
}
}
#if defined(VP_CXX14) && defined(__cpp_lib_uncaught_exceptions)
#error "a header brought the features of C++17 back"
#endif
