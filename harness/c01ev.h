// C01: sorted outcome with the comparisons to justify it.
#include "evless.h"
#include "sorters_list.h"
namespace vp {
template<class S, class C> void reg_ev(const char* n, const char* what) {
    std::string name = n;
    add(name + "/" + what + "/evidence cmp", [](const Vec& v) {
        return ev_call<C>(v, false, [](C& c) { S{}(c, EvLess{}); }); }, quadratic_limit(n));
    add(name + "/" + what + "/evidence cmp,proj", [](const Vec& v) {
        return ev_call<C>(v, false, [](C& c) { S{}(c.begin(), c.end(), EvLess{}, EvProj{}); }); }, quadratic_limit(n));
}
}
