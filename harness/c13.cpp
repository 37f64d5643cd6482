#include "c13.h"
namespace vp {
long Item::alive = 0, Item::made = 0;
Watch watch;
std::vector<E> sample;
std::vector<long> throw_points(long n) {
    std::vector<long> r;
    if (n <= 24) for (long k = 1; k <= n; ++k) r.push_back(k);
    else { for (long k = 1; k <= 5; ++k) { r.push_back(k); r.push_back(n + 1 - k); } for (long j = 0; j < 10; ++j) r.push_back(6 + j * 37 % (n - 10)); }
    return r;
}
void reg_hooks(int h, int cs_, int ps, std::array<HookFn, 9> t) {
    static const char* const n[] = {"sort(s, c)", "sort(s, c, comparison)", "sort(s, c, projection)", "sort(s, c, comparison, projection)"};
    std::string name; for (int i = 0; i < 4; ++i) if (h >> i & 1) name += (name.empty() ? "" : "; ") + std::string(n[i]);
    add("hooks {" + name + "} styles " + std::to_string(cs_) + "," + std::to_string(ps), [=](const Vec& v) -> std::string {
        if (v.raw[0].s != "hooks" || v.raw[1].i != h) return "skip";
        sample.clear(); for (std::size_t i = 0; i < v.raw[3][0].size(); ++i) sample.emplace_back(int(v.raw[3][0][i].i), int(v.raw[3][1][i].i), int(i));
        for (auto& e : v.raw[2].a) {
            HookSeen s = t[std::size_t(mode(e[0].s) * 3 + mode(e[1].s))]();
            std::string how = "(collection, " + e[0].s + ", " + e[1].s + ")";
            if (e[0].s == "fn") how += std::string(", comparison: ") + cmp_names[cs_];
            if (e[1].s == "fn") how += std::string(", projection: ") + prj_names[ps];
            std::string table; for (auto& b : e[5].a) table += b.i ? '1' : '0';
            bool hook = s.r.self == 99;
            if (s.r.table != table) return how + " runs " + (hook ? "a dedicated function" : "the sorter") + " with a different order than asked for";
            if (s.r.where != s.range || s.r.rval || s.r.cst) return how + " runs on another collection";
            if (e[2].i && !hook) return how + " does not use the dedicated function";
            if (hook) {
                bool ok = false; for (auto& b : e[4].a) ok = ok || b.i == s.r.bit;
                if (!ok) return how + " uses another function than the specification allows: " + std::to_string(s.r.bit);
                if (s.claims) return how + " claims to be stable although it runs a function of the container";
                if (e[3].i && (s.r.ctag != s.ctag || s.r.ptag != s.ptag || (s.c && *s.c != *s.r.c) || (s.p && *s.p != *s.r.p))) return how + ": other function objects than those given are passed on";
            }
            if (!s.fptr) return how + " through a function pointer does something else";
        }
        return ""; });
}
}
