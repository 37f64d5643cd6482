// Representative adapted sorters, by the iterator category they accept.
#ifndef VP_ADAPTERS_LIST_H
#define VP_ADAPTERS_LIST_H
#include "sorters_list.h"
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/iter_move.h>
using ad_counting   = cs::counting_adapter<cs::merge_sorter>;
using ad_drop_quick = cs::drop_merge_adapter<cs::quick_sorter>;
using ad_drop_pdq   = cs::drop_merge_adapter<cs::pdq_sorter>;
using ad_drop_merge = cs::drop_merge_adapter<cs::merge_sorter>;
using ad_hybrid     = cs::hybrid_adapter<cs::merge_sorter, cs::insertion_sorter, cs::pdq_sorter>;
using ad_hybrid_fb  = cs::hybrid_adapter<cs::quick_merge_sorter, cs::slab_sorter>;
using ad_ind_heap   = cs::indirect_adapter<cs::heap_sorter>;
using ad_ind_merge  = cs::indirect_adapter<cs::merge_sorter>;
using ad_ind_quick  = cs::indirect_adapter<cs::quick_sorter>;
using ad_oop_pdq    = cs::out_of_place_adapter<cs::pdq_sorter>;
using ad_oop_merge  = cs::out_of_place_adapter<cs::merge_sorter>;
using ad_schwartz_p = cs::schwartz_adapter<cs::pdq_sorter>;
using ad_schwartz_m = cs::schwartz_adapter<cs::merge_sorter>;
using ad_self       = cs::self_sort_adapter<cs::merge_sorter>;
using ad_split_pdq  = cs::split_adapter<cs::pdq_sorter>;
using ad_split_mrg  = cs::split_adapter<cs::merge_sorter>;
using ad_stable_h   = cs::stable_adapter<cs::heap_sorter>;
using ad_stable_q   = cs::stable_adapter<cs::quick_sorter>;
using ad_stable_v   = cs::stable_adapter<cs::verge_sorter>;
using ad_stable_hy  = cs::stable_adapter<cs::hybrid_adapter<cs::quick_sorter, cs::pdq_sorter>>;
using ad_verge_heap = cs::verge_adapter<cs::heap_sorter>;
using ad_verge_mrg  = cs::verge_adapter<cs::merge_sorter>;
using ad_verge_st   = cs::stable_adapter<cs::verge_adapter<cs::merge_sorter>>;
using ad_small_lc   = cs::small_array_adapter<cs::low_comparisons_sorter>;
// a sorter of the user, which moves elements straight from one place to another
struct shift_impl {
    template<class It, class Compare = std::less<>, class Projection = cu::identity,
             class = std::enable_if_t<cs::is_projection_iterator_v<Projection, It, Compare>>>
    void operator()(It first, It last, Compare compare = {}, Projection projection = {}) const {
        using cu::iter_move;
        auto&& comp = cu::as_function(compare);
        auto&& proj = cu::as_function(projection);
        if (first == last) return;
        for (It i = std::next(first); i != last; ++i) {
            if (!comp(proj(*i), proj(*std::prev(i)))) continue;
            auto value = iter_move(i);
            It j = i;
            do {
                shift(j, std::prev(j), std::is_lvalue_reference<decltype(*j)>());
                --j;
            } while (j != first && comp(proj(value), proj(*std::prev(j))));
            *j = std::move(value);
        }
    }
    template<class It> static void shift(It to, It from, std::true_type) { *to = std::move(*from); }
    template<class It> static void shift(It to, It from, std::false_type) { using cu::iter_move; *to = iter_move(from); }
    using iterator_category = std::bidirectional_iterator_tag;
    using is_always_stable = std::true_type;
};
struct shift_sorter : cs::sorter_facade<shift_impl> {};
using ad_schwartz_u = cs::schwartz_adapter<shift_sorter>;
using ad_stable_u   = cs::stable_adapter<cs::verge_adapter<shift_sorter>>;
using ad_stable_s   = cs::make_stable<shift_sorter>;
using ad_schwartz_st = cs::schwartz_adapter<cs::stable_adapter<cs::heap_sorter>>;
using ad_stable_sw  = cs::stable_adapter<cs::schwartz_adapter<cs::quick_sorter>>;
using ad_nest1 = cs::schwartz_adapter<cs::indirect_adapter<cs::stable_adapter<cs::smooth_sorter>>>;
using ad_nest2 = cs::out_of_place_adapter<cs::drop_merge_adapter<cs::split_adapter<cs::poplar_sorter>>>;
using ad_nest3 = cs::schwartz_adapter<cs::indirect_adapter<cs::verge_adapter<cs::spin_sorter>>>;
#define VP_FWD_ADAPTERS(X) \
  X(counting_merge, ad_counting) X(hybrid_quick_merge_slab, ad_hybrid_fb) X(hybrid_3, ad_hybrid) X(indirect_merge, ad_ind_merge) \
  X(indirect_quick, ad_ind_quick) X(out_of_place_pdq, ad_oop_pdq) X(out_of_place_merge, ad_oop_merge) \
  X(schwartz_merge, ad_schwartz_m) X(self_sort_merge, ad_self) X(stable_quick, ad_stable_q) X(stable_hybrid, ad_stable_hy)
#define VP_BIDIR_ADAPTERS(X) \
  X(drop_merge_quick, ad_drop_quick) X(drop_merge_merge, ad_drop_merge) X(split_merge, ad_split_mrg) X(verge_merge, ad_verge_mrg) \
  X(stable_verge, ad_verge_st) \
  X(schwartz_user, ad_schwartz_u) X(make_stable_user, ad_stable_s)
#define VP_RA_ADAPTERS(X) \
  X(drop_merge_pdq, ad_drop_pdq) X(indirect_heap, ad_ind_heap) X(schwartz_pdq, ad_schwartz_p) X(split_pdq, ad_split_pdq) \
  X(stable_heap, ad_stable_h) X(verge_heap, ad_verge_heap) X(stable_verge_sorter, ad_stable_v) X(nest1, ad_nest1) X(nest2, ad_nest2) X(nest3, ad_nest3) \
  X(schwartz_stable_heap, ad_schwartz_st) X(stable_verge_user, ad_stable_u) X(stable_schwartz_quick, ad_stable_sw)
#endif
