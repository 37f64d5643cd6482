// The comparison sorters of the library, by the iterator category they accept.
#ifndef VP_SORTERS_LIST_H
#define VP_SORTERS_LIST_H
#ifndef CPPSORT_DISABLE_DEPRECATION_WARNINGS
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS
#endif
#include <cpp-sort/sorters.h>
#include <cpp-sort/adapters.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>
#include <deque>
#include <forward_list>
#include <list>
#include <string>
#include <vector>
namespace cs = cppsort;
namespace cu = cppsort::utility;
using grail_0      = cs::grail_sorter<>;
using grail_512    = cs::grail_sorter<cu::fixed_buffer<512>>;
using grail_sqrt   = cs::grail_sorter<cu::dynamic_buffer<cu::sqrt>>;
using wiki_512     = cs::wiki_sorter<>;
using wiki_0       = cs::wiki_sorter<cu::fixed_buffer<0>>;
using wiki_half    = cs::wiki_sorter<cu::dynamic_buffer<cu::half>>;
using dary_2 = cs::d_ary_heap_sorter<2>;
using dary_3 = cs::d_ary_heap_sorter<3>;
using dary_4 = cs::d_ary_heap_sorter<4>;
using dary_5 = cs::d_ary_heap_sorter<5>;
using dary_7 = cs::d_ary_heap_sorter<7>;
using dary_8 = cs::d_ary_heap_sorter<8>;
// X(name, type)
#define VP_FWD_SORTERS(X) \
  X(cartesian_tree, cs::cartesian_tree_sorter) X(default_, cs::default_sorter) X(mel, cs::mel_sorter) \
  X(merge, cs::merge_sorter) X(quick_merge, cs::quick_merge_sorter) X(quick, cs::quick_sorter) \
  X(selection, cs::selection_sorter) X(splay, cs::splay_sorter)
#define VP_BIDIR_SORTERS(X) \
  X(drop_merge, cs::drop_merge_sorter) X(insertion, cs::insertion_sorter) X(slab, cs::slab_sorter) \
  X(verge, cs::verge_sorter)
#define VP_RA_SORTERS(X) \
  X(adaptive_shivers, cs::adaptive_shivers_sorter) X(dary2, dary_2) X(dary3, dary_3) X(dary4, dary_4) \
  X(dary5, dary_5) X(dary8, dary_8) X(grail0, grail_0) X(heap, cs::heap_sorter) \
  X(merge_insertion, cs::merge_insertion_sorter) X(pdq, cs::pdq_sorter) X(poplar, cs::poplar_sorter) \
  X(smooth, cs::smooth_sorter) X(spin, cs::spin_sorter) X(split, cs::split_sorter) X(std_, cs::std_sorter) X(tim, cs::tim_sorter) X(wiki, wiki_512)
// the largest collections sorters that take quadratic time are given
inline std::size_t quadratic_limit(const std::string& n) {
    if (n == "insertion" || n == "selection") return 700;
    for (const char* w : {"insertion", "selection", "hybrid", "user"}) if (n.find(w) != n.npos) return 5000;
    return std::size_t(-1);
}
#endif
