// Pools of values of a type, enumerated by spec/GenKeys.tla, each in strictly ascending order.
#ifndef VP_TYPED_H
#define VP_TYPED_H
#include "vp.h"
#include <array>
#include <cmath>
#include <cstring>
#include <deque>
#include <forward_list>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <vector>
namespace vp {
struct Pool { std::string name; J values; };
inline const std::vector<Pool>& pools(const std::string& type) {
    static std::map<std::string, std::vector<Pool>> all;
    if (all.empty()) {
        std::string files = getenv("VP_POOLS") ? getenv("VP_POOLS") : "";
        for (std::size_t b = 0; b < files.size();) {
            std::size_t e = files.find(':', b); if (e == std::string::npos) e = files.size();
            std::ifstream in(files.substr(b, e - b)); std::string line; b = e + 1;
            while (std::getline(in, line)) if (!line.empty()) {
                const char* p = line.c_str(); J j = parse_json(p);
                J vals; vals.k = J::ARR; vals.a.resize(j[2].size());
                for (auto& rv : j[2].a) vals.a.at(std::size_t(rv[0].i)) = rv[1];
                all[j[0].s].push_back({j[1].s, vals});
            }
        }
        if (all.empty()) { fprintf(stderr, "no pools\n"); exit(3); }
    }
    auto it = all.find(type);
    if (it == all.end()) { fprintf(stderr, "no pool for type %s\n", type.c_str()); exit(3); }
    return it->second;
}
// from the bytes of the specification, most significant first
template<class T, class = void> struct Mk;
template<class T> struct Mk<T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_pointer<T>::value ||
                                                std::is_same<T, __int128>::value || std::is_same<T, unsigned __int128>::value>> {
    static T of(const J& j) {
        unsigned char b[sizeof(T)];
        if (j.size() != sizeof(T)) { fprintf(stderr, "size of a scalar\n"); exit(3); }
        for (std::size_t i = 0; i < sizeof(T); ++i) b[sizeof(T) - 1 - i] = (unsigned char)(j[i].i);
        T r; std::memcpy(&r, b, sizeof(T)); return r;
    }
};
template<> struct Mk<std::string> { static std::string of(const J& j) { std::string s; for (auto& c : j.a) s += char((unsigned char)c.i); return s; } };
template<> struct Mk<std::string_view> {
    static std::string_view of(const J& j) { static std::list<std::string> keep; keep.push_back(Mk<std::string>::of(j)); return keep.back(); }
};
template<class A, class B> struct Mk<std::pair<A, B>> { static std::pair<A, B> of(const J& j) { return {Mk<A>::of(j[0]), Mk<B>::of(j[1])}; } };
template<class... A> struct Mk<std::tuple<A...>> {
    template<std::size_t... I> static std::tuple<A...> go(const J& j, std::index_sequence<I...>) { return std::tuple<A...>(Mk<A>::of(j[I])...); }
    static std::tuple<A...> of(const J& j) { return go(j, std::index_sequence_for<A...>{}); }
};
template<class A, std::size_t N> struct Mk<std::array<A, N>> {
    static std::array<A, N> of(const J& j) { std::array<A, N> r{}; for (std::size_t i = 0; i < N; ++i) r[i] = Mk<A>::of(j[i]); return r; }
};
template<class C> struct Mk<C, std::void_t<decltype(std::declval<C&>().push_back(std::declval<typename C::value_type>())), std::enable_if_t<!std::is_same<C, std::string>::value>>> {
    static C of(const J& j) { C c; for (auto& x : j.a) c.push_back(Mk<typename C::value_type>::of(x)); return c; }
};
// both zeros are equivalent: the number of negative ones, and the value with its zeros of the other sign
template<class T> struct Zeros { static long minus(const T&) { return 0; } static T other(const T& t) { return t; } };
template<class F> struct FZeros { static long minus(F f) { return f == 0 && std::signbit(f); } static F other(F f) { return f == 0 ? -f : f; } };
template<> struct Zeros<float>: FZeros<float> {};
template<> struct Zeros<double>: FZeros<double> {};
template<class A, class B> struct Zeros<std::pair<A, B>> {
    static long minus(const std::pair<A, B>& p) { return Zeros<A>::minus(p.first) + Zeros<B>::minus(p.second); }
    static std::pair<A, B> other(const std::pair<A, B>& p) { return {Zeros<A>::other(p.first), Zeros<B>::other(p.second)}; }
};
template<class... A> struct Zeros<std::tuple<A...>> {
    static long minus(const std::tuple<A...>& t) { return std::apply([](auto&... x) { return (0 + ... + Zeros<std::decay_t<decltype(x)>>::minus(x)); }, t); }
    static std::tuple<A...> other(const std::tuple<A...>& t) { return std::apply([](auto&... x) { return std::tuple<A...>(Zeros<std::decay_t<decltype(x)>>::other(x)...); }, t); }
};
template<class F> struct Zeros<std::vector<F>> {
    static long minus(const std::vector<F>& v) { long n = 0; for (auto&& x : v) n += Zeros<F>::minus(x); return n; }
    static std::vector<F> other(const std::vector<F>& v) { std::vector<F> r; for (auto&& x : v) r.push_back(Zeros<F>::other(x)); return r; }
};
template<class T> long minus_zero(const T& t) { return Zeros<T>::minus(t); }
template<class T> T other_zero(const T& t) { return Zeros<T>::other(t); }

template<class T> struct Typed {
    std::vector<T> vals;
    // monotone: the stable outcome of the keys is that of the values
    std::size_t at(const Vec& v, std::size_t i, int lo, long span) const { return std::size_t((long(v.keys[i]) - lo) * long(vals.size() - 1) / span); }
    void input(const Vec& v, std::vector<T>& in, std::vector<std::size_t>& idx) const {
        int lo = 0, hi = 0; bool any = false;
        for (int k : v.keys) { if (!any || k < lo) lo = k; if (!any || k > hi) hi = k; any = true; }
        long span = hi > lo ? long(hi) - lo : 1;
        in.reserve(v.n()); idx.reserve(v.n());
        for (std::size_t i = 0; i < v.n(); ++i) {
            idx.push_back(at(v, i, lo, span));
            in.push_back(i % 3 == 1 ? other_zero(vals[idx.back()]) : vals[idx.back()]);
        }
    }
    template<class Out> std::string judge(const Vec& v, const std::vector<std::size_t>& idx, const std::vector<T>& in, const Out& out, bool descending) const {
        std::size_t n = 0; long minus = 0;
        for (auto&& t : in) minus += minus_zero(T(t));
        for (auto it = out.begin(); it != out.end(); ++it, ++n) {
            if (n >= v.n()) return "the range grew";
            std::size_t want = idx[std::size_t(v.perm[descending ? v.n() - 1 - n : n])];
            if (!(*it == vals[want])) {
                std::size_t got = 0; while (got < vals.size() && !(*it == vals[got])) ++got;
                return "position " + std::to_string(n) + ": expected value #" + std::to_string(want) + " of the pool, got #" + std::to_string(got) +
                       (got == vals.size() ? " (not a value of the pool)" : "");
            }
            minus -= minus_zero(T(*it));
        }
        if (n != v.n()) return "the range shrank";
        if (minus) return "negative zeros appeared or disappeared";
        return "";
    }
};
inline std::size_t lim(const std::string& type) { return type.size() > 3 ? 13000 : type == "str" ? 30000 : 100000; }
template<class T, class F> void each_pool(const std::string& sorter, const std::string& type, const char* cpp, const std::string& how, F f, const char* which = nullptr) {
    for (auto& p : pools(type)) {
        if (which && !std::strstr(which, ("|" + p.name + "|").c_str())) continue;
        auto t = std::make_shared<Typed<T>>();
        for (auto& j : p.values.a) t->vals.push_back(Mk<T>::of(j));
        add(sorter + "/" + cpp + "/" + how + "/pool " + p.name, [t, f](const Vec& v) -> std::string { return f(*t, v); }, lim(type));
    }
}
template<class T> struct Wrap { T v; int id; };
template<class T> struct Ref { const T& operator()(const Wrap<T>& w) const { return w.v; } };
template<class T> struct ByValue { T operator()(const Wrap<T>& w) const { return w.v; } };
template<class C, class T, class Sort> auto plain(Sort sort, bool descending = false) {
    return [sort, descending](const Typed<T>& t, const Vec& v) -> std::string {
        std::vector<T> in; std::vector<std::size_t> idx; t.input(v, in, idx);
        C c(in.begin(), in.end());
        sort(c);
        return t.judge(v, idx, in, c, descending); };
}
template<class T, class Sort> auto wrapped(Sort sort, bool descending = false) {
    return [sort, descending](const Typed<T>& t, const Vec& v) -> std::string {
        std::vector<T> in; std::vector<std::size_t> idx; t.input(v, in, idx);
        std::vector<Wrap<T>> c; for (std::size_t i = 0; i < in.size(); ++i) c.push_back({in[i], int(i)});
        sort(c);
        std::vector<T> out; std::vector<bool> seen(in.size());
        for (auto& w : c) {
            if (w.id < 0 || std::size_t(w.id) >= in.size() || seen[std::size_t(w.id)]) return "an element appeared or disappeared";
            seen[std::size_t(w.id)] = true;
            if (!(w.v == in[std::size_t(w.id)])) return "an element was torn";
            out.push_back(w.v);
        }
        return t.judge(v, idx, in, out, descending); };
}
} // namespace vp
#endif
