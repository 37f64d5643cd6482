// C16: the type-specific sorters over pools of values enumerated by
// spec/GenKeys.tla, each pool in strictly ascending order.
#include "typed.h"
#include <cpp-sort/sorters/counting_sorter.h>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
namespace vp {
namespace cs = cppsort;
template<class S, class T> void radix(const char* sorter, const char* type, const char* cpp) {
    each_pool<T>(sorter, type, cpp, "vector", plain<std::conditional_t<std::is_same<T, bool>::value, std::deque<bool>, std::vector<T>>, T>([](auto& c) { S{}(c); }));
    each_pool<T>(sorter, type, cpp, "deque iterators", plain<std::deque<T>, T>([](auto& c) { S{}(c.begin(), c.end()); }));
    each_pool<T>(sorter, type, cpp, "member pointer", wrapped<T>([](auto& c) { S{}(c, &Wrap<T>::v); }));
    each_pool<T>(sorter, type, cpp, "projection by value", wrapped<T>([](auto& c) { S{}(c.begin(), c.end(), ByValue<T>{}); }));
}
template<class S, class T> void radix_desc(const char* sorter, const char* type, const char* cpp) {
    each_pool<T>(sorter, type, cpp, "vector, greater", plain<std::vector<T>, T>([](auto& c) { S{}(c, std::greater<>{}); }, true));
    each_pool<T>(sorter, type, cpp, "member pointer, greater", wrapped<T>([](auto& c) { S{}(c, std::greater<>{}, &Wrap<T>::v); }, true));
}
template<class T> void counting(const char* type, const char* cpp) {
    const char* narrow = sizeof(T) <= 2 ? nullptr : "|low|min|max|umax|across|";
    each_pool<T>("counting", type, cpp, "vector", plain<std::conditional_t<std::is_same<T, bool>::value, std::deque<bool>, std::vector<T>>, T>([](auto& c) { cs::counting_sorter{}(c); }), narrow);
    each_pool<T>("counting", type, cpp, "forward_list, greater", plain<std::forward_list<T>, T>([](auto& c) { cs::counting_sorter{}(c, std::greater<>{}); }, true), narrow);
    each_pool<T>("counting", type, cpp, "list iterators", plain<std::list<T>, T>([](auto& c) { cs::counting_sorter{}(c.begin(), c.end()); }), narrow);
    each_pool<T>("counting", type, cpp, "deque, greater", plain<std::deque<T>, T>([](auto& c) { cs::counting_sorter{}(c, std::greater<>{}); }, true), narrow);
}
#ifdef VP_CXX20
// the same orders in the vocabulary of C++20
template<class S, class T> void radix20(const char* sorter, const char* type, const char* cpp) {
    each_pool<T>(sorter, type, cpp, "ranges::less", plain<std::vector<T>, T>([](auto& c) { S{}(c, std::ranges::less{}); }));
    each_pool<T>(sorter, type, cpp, "ranges::less, identity", plain<std::deque<T>, T>([](auto& c) { S{}(c.begin(), c.end(), std::ranges::less{}, std::identity{}); }));
    each_pool<T>(sorter, type, cpp, "identity", plain<std::deque<T>, T>([](auto& c) { S{}(c, std::identity{}); }));
    each_pool<T>(sorter, type, cpp, "ranges::less, member", wrapped<T>([](auto& c) { S{}(c, std::ranges::less{}, &Wrap<T>::v); }));
}
template<class S, class T> void radix_desc20(const char* sorter, const char* type, const char* cpp) {
    each_pool<T>(sorter, type, cpp, "ranges::greater", plain<std::vector<T>, T>([](auto& c) { S{}(c, std::ranges::greater{}); }, true));
    each_pool<T>(sorter, type, cpp, "ranges::greater, identity", plain<std::deque<T>, T>([](auto& c) { S{}(c.begin(), c.end(), std::ranges::greater{}, std::identity{}); }, true));
    each_pool<T>(sorter, type, cpp, "member, ranges::greater", wrapped<T>([](auto& c) { S{}(c, std::ranges::greater{}, &Wrap<T>::v); }, true));
}
template<class T> void counting20(const char* type, const char* cpp) {
    const char* narrow = sizeof(T) <= 2 ? nullptr : "|low|min|max|umax|across|";
    each_pool<T>("counting", type, cpp, "ranges::less", plain<std::list<T>, T>([](auto& c) { cs::counting_sorter{}(c, std::ranges::less{}); }), narrow);
    each_pool<T>("counting", type, cpp, "ranges::greater", plain<std::forward_list<T>, T>([](auto& c) { cs::counting_sorter{}(c, std::ranges::greater{}); }, true), narrow);
    each_pool<T>("counting", type, cpp, "iterators, ranges::greater", plain<std::deque<T>, T>([](auto& c) { cs::counting_sorter{}(c.begin(), c.end(), std::ranges::greater{}); }, true), narrow);
}
#endif
} // namespace vp
