#include "c01.h"
VP_UNIT {
#define X(n, ...) vp::reg_fp_list<__VA_ARGS__, std::list<double>>(#n, "list<double>");
VP_FWD_SORTERS(X) VP_BIDIR_SORTERS(X)
#undef X
#define X(n, ...) vp::reg_fp_list<__VA_ARGS__, std::forward_list<float>>(#n, "forward_list<float>");
VP_FWD_SORTERS(X)
}
