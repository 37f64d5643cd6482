// C12: collections whose iterators return temporary objects that stand for the elements: std::vector<bool>, and cells
// whose reference type knows nothing of utility::iter_move.  Run with every access to memory checked.
#include "cells.h"
#include "adapters_list.h"
namespace vp {
// std::vector<bool>: the order of an element is the parity of its key
inline std::string judge_bits(const std::vector<bool>& b, const Vec& v, bool down) {
    std::size_t ones = 0, n = v.n();
    for (int k : v.keys) ones += k & 1;
    if (b.size() != n) return "size changed";
    for (std::size_t i = 0; i < n; ++i) {
        bool want = down ? i < ones : i >= n - ones;
        if (b[i] != want) return "position " + std::to_string(i) + " holds " + (b[i] ? "true" : "false");
    }
    return "";
}
template<class S> struct cells_ok : std::true_type {};
template<> struct cells_ok<cs::std_sorter> : std::false_type {};      // std::sort does not promise to take proxies
template<class S, class Cat> void reg_bits(const char* n) {
    auto bits = [](const Vec& v) { std::vector<bool> b; for (int k : v.keys) b.push_back(k & 1); return b; };
    if constexpr (cells_ok<S>::value) {
    add(std::string(n) + "/vector<bool>/cmp", [bits](const Vec& v) { auto b = bits(v); S{}(b); return judge_bits(b, v, false); }, quadratic_limit(n));
    add(std::string(n) + "/vector<bool>/it,cmp,proj", [bits](const Vec& v) { auto b = bits(v); S{}(b.begin(), b.end(), std::less<>{}, [](bool x) { return !x; }); return judge_bits(b, v, true); }, quadratic_limit(n));
    using It = CellIt<Cat>;
    constexpr bool stable = cs::is_stable_v<S(It, It, CellLess)>;
    auto run = [](const Vec& v, auto call) -> std::string {
        std::vector<Cell> c;
        for (std::size_t i = 0; i < v.n(); ++i) c.push_back(Cell{v.keys[i], int(i)});
        call(It{c.data()}, It{c.data() + c.size()});
        return judge(c, v, stable);
    };
    add(std::string(n) + "/cells/it,cmp", [run](const Vec& v) { return run(v, [](It a, It b) { S{}(a, b, CellLess{}); }); }, quadratic_limit(n));
    add(std::string(n) + "/cells/it,cmp,proj", [run](const Vec& v) { return run(v, [](It a, It b) { S{}(a, b, std::less<>{}, CellProj{}); }); }, quadratic_limit(n));
    // schwartz_adapter keeps what the projection returns: it must not be a proxy of the element
    const std::string nm = n;
    if (nm.find("schwartz") == nm.npos && nm.find("nest") == nm.npos)
    add(std::string(n) + "/cells/it,cmp,self", [run](const Vec& v) { return run(v, [](It a, It b) { S{}(a, b, CellLess{}, CellSelf{}); }); }, quadratic_limit(n));
    }
}
}
