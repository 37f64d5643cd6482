// C12: the sort of part of a collection, every object watched (SortCall).
#include "tracked_run.h"
namespace vp {
template<class S, class C> void reg_tracked(const char* n, const char* what, bool both = true) {
    constexpr bool stable = cs::is_stable_v<S(C&, TrLess)>;
    using It = typename C::iterator;
    add(std::string(n) + "/" + what + "/part,cmp", [](const Vec& v) {
        return tracked_call<C>(v, stable, false, {}, [](C&, It a, It b) { S{}(a, b, TrLess{}); }).bad; }, quadratic_limit(n));
    if (both)
    add(std::string(n) + "/" + what + "/whole,cmp,proj", [](const Vec& v) {
        return tracked_call<C>(v, stable, true, {}, [](C& c, It, It) { S{}(c, ViewLess{}, TrProj{}); }).bad; }, quadratic_limit(n));
}
template<class S> struct wrap_ok : std::true_type {};
template<> struct wrap_ok<wiki_512> : std::false_type {};
template<> struct wrap_ok<cs::std_sorter> : std::false_type {};
// sorters that accept elements without a default constructor
template<class S> struct no_default_ok : std::true_type {};
template<> struct no_default_ok<wiki_512> : std::false_type {};
// through stable_adapter the sorter works on a proxy iterator whose elements
// are moved in and out of the collection with utility::iter_move
template<class S, class C> void reg_proxy(const char* n, const char* what) {
    if constexpr (wrap_ok<S>::value) reg_tracked<cs::make_stable<S>, C>((std::string("make_stable<") + n + ">").c_str(), what);
}
template<class S, class C> void reg_movonly(const char* n, const char* what) {
    if constexpr (no_default_ok<S>::value) reg_tracked<S, C>(n, what);
}
}
