// Keys of the standard's own types (strings, integers, floating point) under the standard's own orders
// and projections: pools of values from spec/GenKeys.tla. Compiled once per language standard; VP_CXX20
// stands for the vocabulary of C++20 (std::ranges::less, std::ranges::greater, std::identity).
#ifndef VP_C01T_H
#define VP_C01T_H
#include "typed.h"
#include "adapters_list.h"
namespace vp {
#ifdef VP_CXX20
using StdLess = std::ranges::less; using StdGreater = std::ranges::greater; using StdIdentity = std::identity;
#define VP_LESS "ranges::less"
#define VP_GREATER "ranges::greater"
#else
using StdLess = std::less<>; using StdGreater = std::greater<>; using StdIdentity = cu::identity;
#define VP_LESS "less"
#define VP_GREATER "greater"
#endif
// Stable: equivalent elements keep their order.
template<class T, bool Stable, class Sort> auto with_ids(Sort sort, bool descending) {
    return [sort, descending](const Typed<T>& t, const Vec& v) -> std::string {
        std::vector<T> in; std::vector<std::size_t> idx; t.input(v, in, idx);
        std::vector<Wrap<T>> c; for (std::size_t i = 0; i < in.size(); ++i) c.push_back({in[i], int(i)});
        sort(c);
        std::vector<T> out; std::vector<bool> seen(in.size());
        for (std::size_t i = 0; i < c.size(); ++i) {
            auto& w = c[i];
            if (w.id < 0 || std::size_t(w.id) >= in.size() || seen[std::size_t(w.id)]) return "an element appeared or disappeared";
            seen[std::size_t(w.id)] = true;
            if (!(w.v == in[std::size_t(w.id)])) return "an element was torn";
            if (Stable && i > 0 && c[i - 1].v == w.v && c[i - 1].id > w.id) return "not stable at position " + std::to_string(i);
            out.push_back(w.v);
        }
        return t.judge(v, idx, in, out, descending); };
}
template<class S, class T> void typed_values(const char* n, const char* type, const char* cpp, const char* which) {
    if (quadratic_limit(n) < 1000 && std::string(type) != "str") which = "|bounds|";
    each_pool<T>(n, type, cpp, VP_LESS, plain<std::vector<T>, T>([](auto& c) { S{}(c, StdLess{}); }), which);
    each_pool<T>(n, type, cpp, VP_GREATER ", identity", plain<std::vector<T>, T>([](auto& c) { S{}(c.begin(), c.end(), StdGreater{}, StdIdentity{}); }, true), which);
    each_pool<T>(n, type, cpp, VP_LESS ", identity", plain<std::vector<T>, T>([](auto& c) { S{}(c.data(), c.data() + c.size(), StdLess{}, StdIdentity{}); }), which);
    each_pool<T>(n, type, cpp, VP_GREATER, plain<std::vector<T>, T>([](auto& c) { S{}(c.data(), c.data() + c.size(), StdGreater{}); }, true), which);
#ifdef VP_CXX20
    each_pool<T>(n, type, cpp, "less, identity", plain<std::vector<T>, T>([](auto& c) { S{}(c.data(), c.data() + c.size(), std::less<>{}, StdIdentity{}); }), which);
    each_pool<T>(n, type, cpp, "greater, identity", plain<std::vector<T>, T>([](auto& c) { S{}(c.data(), c.data() + c.size(), std::greater<>{}, StdIdentity{}); }, true), which);
#endif
}
template<class S, class T, bool Stable> void typed_members(const char* n, const char* type, const char* cpp, const char* which) {
    each_pool<T>(n, type, cpp, VP_LESS ", member", with_ids<T, Stable>([](auto& c) { S{}(c, StdLess{}, &Wrap<T>::v); }, false), which);
    each_pool<T>(n, type, cpp, VP_GREATER ", member", with_ids<T, Stable>([](auto& c) { S{}(c.begin(), c.end(), StdGreater{}, &Wrap<T>::v); }, true), which);
}
template<class S> void reg_typed(const char* n) {
    typed_values<S, int>(n, "s4", "int", "|bounds|across|");
    typed_values<S, double>(n, "f8", "double", "|bounds|");
    typed_values<S, std::string>(n, "str", "std::string", "|tail|nulls|");
    typed_members<S, std::string, false>(n, "str", "std::string", "|bounds|");
    typed_members<S, std::u16string, false>(n, "vec_u2", "std::u16string", "|short|");
}
template<class S> void reg_typed_stable(const char* n) {
    if constexpr (cs::is_stable_v<S(std::vector<Wrap<std::string>>&, StdLess, std::string Wrap<std::string>::*)>) {
        typed_members<S, std::string, true>(n, "str", "std::string", "|bounds|tail|nulls|");
        typed_members<S, int, true>(n, "s4", "int", "|bounds|");
    }
}
} // namespace vp
#endif
