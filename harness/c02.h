// The documentation (Sorters.md) says these are stable.
// C02: calls whose stability trait is true must leave the one stable outcome.
#include "evless.h"
#include "adapters_list.h"
namespace vp {
template<class S> struct documented_stable : std::false_type {};
template<> struct documented_stable<cs::spin_sorter> : std::true_type {};
template<class S, class C> void reg_stable(const std::string& name, const char* what) {
    using It = typename C::iterator;
    if constexpr ((cs::is_stable_v<S(C&, EvLess)> || documented_stable<S>::value) && std::is_invocable_v<S, C&, EvLess>)
        add(name + "/" + what + "/range,cmp", [](const Vec& v) {
            return ev_call<C>(v, true, [](C& c) { S{}(c, EvLess{}); }); }, quadratic_limit(name));
    if constexpr ((cs::is_stable_v<S(It, It, EvLess, EvProj)> || documented_stable<S>::value) && std::is_invocable_v<S, It, It, EvLess, EvProj>)
        add(name + "/" + what + "/iters,cmp,proj", [](const Vec& v) {
            return ev_call<C>(v, true, [](C& c) { S{}(c.begin(), c.end(), EvLess{}, EvProj{}); }); }, quadratic_limit(name));
}
// must be stable, whatever the trait says
template<class S, class C> void reg_must(const std::string& name, const char* what) {
    static_assert(cs::is_stable_v<S(C&, EvLess)>, "a stable adapter is stable");
    reg_stable<S, C>(name, what);
}
template<class S, class C> void reg_all(const char* n, const char* what) {
    std::string name = n;
    reg_stable<S, C>(name, what);
}
// A fixed buffer needs default-constructible elements (documented), which the
// elements a stable adapter shows to the wrapped sorter are not.
template<class S> struct wrap_ok : std::true_type {};
template<> struct wrap_ok<wiki_512> : std::false_type {};
template<class S, class C> void reg_wrapped(const char* n, const char* what) {
    std::string name = n;
    if constexpr (!wrap_ok<S>::value) reg_must<cs::stable_t<S>, C>("stable_t<" + name + ">", what);
    else {
    reg_must<cs::stable_adapter<S>, C>("stable_adapter<" + name + ">", what);
    if constexpr (!std::is_same<S, cs::std_sorter>::value)     // std::sort does not take proxy iterators
    reg_must<cs::make_stable<S>, C>("make_stable<" + name + ">", what);
    reg_must<cs::stable_t<S>, C>("stable_t<" + name + ">", what);
    }
}
}
