#include "c01.h"
VP_UNIT {
#define X(n, ...) vp::reg_P_flist<__VA_ARGS__>(#n);
VP_FWD_SORTERS(X)
}
