// Comparisons that record what they teach (SortCall!facts) for plain elements.
#ifndef VP_EVLESS_H
#define VP_EVLESS_H
#include "elem.h"
#include "evidence.h"
namespace vp {
inline Evidence& the_ev() { static Evidence e; return e; }
struct EvLess {
    template<class T> bool operator()(const T& a, const T& b) const {
        bool r = a.key < b.key; the_ev().saw(a.id, b.id, r); return r; }
};
struct EvView { int key, id; };
struct EvProj { template<class T> EvView operator()(const T& a) const { return {a.key, a.id}; } };
// runs the call on a container of T, judges outcome and evidence
template<class C, class Call>
std::string ev_call(const Vec& v, bool stable, Call call) {
    C c; fill(c, v);
    bool facts = v.n() <= 64;
    the_ev().reset(facts ? v.n() : 0);
    call(c);
    std::string m = judge(c, v, stable);
    if (m.empty() && facts) {
        std::vector<int> out; for (auto& e : c) out.push_back(e.id);
        m = the_ev().judge(out, stable);
    }
    return m;
}
}
#endif
