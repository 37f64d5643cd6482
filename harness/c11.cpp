#include "c11.h"
#include <map>
namespace vp {
std::vector<E> sample;
std::string check_call(const J& e, const Seen& s, bool completion, const std::string& how) {
    const std::string& must = e[3].s; bool exact = e[4].i != 0;
    if (!s.traits) return how + ": the sorter traits disagree with whether it can be called";
    if (!s.callable) {
        if (must == "must" && !completion) return how + " is rejected, although an overload with the same meaning exists";
        if (must == "complete" && completion) return how + " is rejected, although completing its arguments leads to an overload with the same meaning";
        return "";
    }
    if (completion) return "";
    if (must == "not") return how + " is accepted, although no overload means the same";
    bool ok = false; for (auto& b : e[5].a) ok = ok || b.i == s.r.bit;
    if (!ok) return how + " runs " + bits(s.r.bit) + ", the specification allows others";
    std::string table; for (auto& b : e[6].a) table += b.i ? '1' : '0';
    if (s.r.table != table) return how + " runs " + bits(s.r.bit) + " with a different order than asked for";
    if (s.r.n != std::ptrdiff_t(sample.size())) return how + " runs " + bits(s.r.bit) + " on another range";
    if (s.r.self != s.self) return how + " runs on another instance of the implementation";
    if (s.r.bit < 16) { if (s.r.where != s.first) return how + " runs " + bits(s.r.bit) + " on another range"; }
    else if (s.r.where != s.range || s.r.rval != s.rval || s.r.cst != s.cst || *s.r.r != *s.rt) return how + " runs " + bits(s.r.bit) + (s.r.where != s.range ? " with another range" : *s.r.r != *s.rt ? " with a range of another type" : " with the range as another kind of value: rvalue " + std::to_string(s.r.rval) + " not " + std::to_string(s.rval) + ", const " + std::to_string(s.r.cst) + " not " + std::to_string(s.cst));
    if (exact) {
        auto name = [](const std::type_info* t) { return t ? std::string(t->name()) : std::string("nothing"); };
        if ((s.c != nullptr) != (s.r.c != nullptr) || (s.c && *s.c != *s.r.c)) return how + ": the comparison passed on is " + name(s.r.c) + ", not " + name(s.c);
        if ((s.p != nullptr) != (s.r.p != nullptr) || (s.p && *s.p != *s.r.p)) return how + ": the projection passed on is " + name(s.r.p) + ", not " + name(s.p);
        if (s.ctag != s.r.ctag || s.ptag != s.r.ptag) return how + ": the state of the function objects passed on changed";
    }
    return "";
}
namespace { struct Entry { int cs, ps; FacadeTable t; }; std::map<int, Entry> tables; }
// only: the implementation to look at; completion: -1, or only whether it completes the calls of that kind
static std::string run_facade(const Vec& v, int only, int completion) {
    if (v.raw[0].s != "facade" || ((only >= 0 && v.raw[1].i != only))) return "skip";
    auto it = tables.find(int(v.raw[1].i)); if (it == tables.end()) return "skip";
    sample.clear(); for (std::size_t i = 0; i < v.raw[3][0].size(); ++i) sample.emplace_back(int(v.raw[3][0][i].i), int(v.raw[3][1][i].i), int(i));
    bool any = completion < 0;
    for (auto& e : v.raw[2].a) {
        if (completion >= 0 && completion != (e[0].s == "range") * 2 + (e[1].s != "none")) continue;
        if (completion >= 0 && e[3].s != "complete") continue;
        any = true;
        std::string how = "(" + std::string(e[0].s == "iter" ? "iterators" : "range") + ", " + e[1].s + ", " + e[2].s + ")";
        if (e[1].s == "fn") how += std::string(", comparison: ") + cmp_names[it->second.cs];
        if (e[2].s == "fn") how += std::string(", projection: ") + prj_names[it->second.ps];
        FacadeCall fn = it->second.t.f[e[0].s == "range"][mode(e[1].s)][mode(e[2].s)];
        std::string bad = check_call(e, fn(), completion >= 0, how);
        if (!bad.empty()) return (only >= 0 ? "" : "facade of " + bits(int(v.raw[1].i)) + ": ") + bad;
    }
    return any ? "" : "skip";
}
void reg_facade(int f, bool, int cs, int ps, const FacadeTable& t, const char* what) {
    static const char* const kinds[] = {"(first, last)", "(first, last, comparison)", "(range)", "(range, comparison)"};
    // (every implementation lacking the needed overloads fails these four on the unchanged tree: see known_findings.txt)
    if (tables.empty()) for (int k = 0; k < 4; ++k) add(std::string("facade completes ") + kinds[k], [k](const Vec& v) { return run_facade(v, -1, k); });
    tables[f] = Entry{cs, ps, t};
    add("facade of " + bits(f) + what, [f](const Vec& v) { return run_facade(v, f, -1); });
}
} // namespace vp
