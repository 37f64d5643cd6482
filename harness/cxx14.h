// The library as it is compiled where these features of the standard library are missing (C++14): the standard
// headers are included first, then what the library looks at is withdrawn. For use with -include.
#ifndef VP_CXX14_H
#define VP_CXX14_H
#define VP_CXX14
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <forward_list>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#if __has_include(<version>)
#include <version>
#endif
#undef __cpp_lib_uncaught_exceptions
#undef __cpp_lib_is_invocable
#undef __cpp_nontype_template_parameter_auto
#undef __cpp_sized_deallocation
#endif
