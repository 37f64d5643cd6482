// C08: probes of collections whose iterators return temporary objects.  Run with every access to memory checked.
#include "c08.h"
#include "cells.h"
namespace vp {
template<class Pr> void reg_probe_cells(const char* name, int m) {
    std::string n = name;
    auto run = [m](const Vec& v, auto call) -> std::string {
        if (is_max(v)) return "skip";
        std::vector<Cell> c;
        for (std::size_t i = 0; i < v.n(); ++i) c.push_back(Cell{v.keys[i], int(i)});
        return both(within(call(c.data(), c.data() + c.size()), v, m), same(c, v));
    };
    using F = CellIt<std::forward_iterator_tag>; using R = CellIt<std::random_access_iterator_tag>;
    add(n + "/cells/forward,cmp", [run](const Vec& v) { return run(v, [](Cell* a, Cell* b) { return Pr{}(F{a}, F{b}, CellLess{}); }); });
    add(n + "/cells/cmp", [run](const Vec& v) { return run(v, [](Cell* a, Cell* b) { return Pr{}(R{a}, R{b}, CellLess{}); }); });
    add(n + "/cells/cmp,proj", [run](const Vec& v) { return run(v, [](Cell* a, Cell* b) { return Pr{}(R{a}, R{b}, std::less<>{}, CellProj{}); }); });
    add(n + "/cells/forward,cmp,self", [run](const Vec& v) { return run(v, [](Cell* a, Cell* b) { return Pr{}(F{a}, F{b}, CellLess{}, CellSelf{}); }); });
    add(n + "/cells/cmp,self", [run](const Vec& v) { return run(v, [](Cell* a, Cell* b) { return Pr{}(R{a}, R{b}, CellLess{}, CellSelf{}); }); });
}
}
