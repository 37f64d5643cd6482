// McIlroy's adversary, as specified by spec/Adversary.tla (elements are 1..n).
#ifndef VP_ADVERSARY_H
#define VP_ADVERSARY_H
#include "vp.h"
#include <cpp-sort/utility/branchless_traits.h>
namespace vp {
struct Adv {
    std::vector<int> rank; int frozen = 0, pivot = 0; long long asked = 0;
    explicit Adv(std::size_t n) : rank(n + 1, 0) {}
    bool ask(int a, int b) {
        ++asked;
        if (a != b && !rank[a] && !rank[b]) rank[a == pivot ? a : b] = ++frozen;
        if (!rank[a]) pivot = a; else if (!rank[b]) pivot = b;
        bool r = a != b && rank[a] && (!rank[b] || rank[a] < rank[b]);
        if (tracing()) trace_line("[\"ask\"," + std::to_string(a) + "," + std::to_string(b) + "," + (r ? "1]" : "0]"));
        return r;
    }
};
struct AdvLess { Adv* a; bool operator()(int x, int y) const { return a->ask(x, y); } };
struct AdvLessBranchless { Adv* a; bool operator()(int x, int y) const { return a->ask(x, y); } };
}
namespace cppsort { namespace utility {
template<typename T> struct is_probably_branchless_comparison<vp::AdvLessBranchless, T> : std::is_arithmetic<T> {};
}}
#endif
