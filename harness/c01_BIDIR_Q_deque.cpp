#include "c01.h"
VP_UNIT {
#define X(n, ...) vp::reg_Q_deque<__VA_ARGS__>(#n);
VP_BIDIR_SORTERS(X)
}
