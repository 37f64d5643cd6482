// C11: the forms of a sorter call.
#ifndef VP_C11_H
#define VP_C11_H
#include "elem.h"
#include <array>
#include <memory>
#include <iterator>
#include <type_traits>
#include <typeinfo>
#include <functional>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/refined.h>
namespace vp {
namespace cs = cppsort;
namespace cu = cppsort::utility;
struct B {
    int k;
    bool after(const B& o) const { return k > o.k; }
    friend bool operator<(const B& a, const B& b) { return a.k < b.k; } friend bool operator>(const B& a, const B& b) { return a.k > b.k; }
    friend bool operator<=(const B& a, const B& b) { return a.k <= b.k; } friend bool operator>=(const B& a, const B& b) { return a.k >= b.k; }
    friend bool operator==(const B& a, const B& b) { return a.k == b.k; } friend bool operator!=(const B& a, const B& b) { return a.k != b.k; }
};
struct Box { B b; };
struct E : B {
    B other{0}; Box box{{0}}; int id = -1;
    E() : B{0} {}
    E(int k_, int o, int i) : B{k_}, other{o}, box{{o}}, id(i) {}
    B flip() const { return other; }
};
// ---- arguments, in the documented styles
struct Cmp { int tag; bool operator()(const B& a, const B& b) const { return b.k < a.k; } };
struct RCmp { int tag; bool operator()(const B& a, const B& b) const { return b.k < a.k; } template<class T> Cmp refine() const { return Cmp{tag + 1000}; } };
struct Prj { int tag; B operator()(const E& e) const { return e.other; } };
struct RPrj { int tag; B operator()(const E& e) const { return e.other; } template<class T> Prj refine() const { return Prj{tag + 1000}; } };
struct Dual { int tag; bool operator()(const B& a, const B& b) const { return b.k < a.k; } B operator()(const E& e) const { return e.other; } };
inline bool fcmp(const B& a, const B& b) { return b.k < a.k; }
inline B fprj(const E& e) { return e.other; }
inline const auto lcmp = [](const B& a, const B& b) { return b.k < a.k; };
inline const auto lprj = [](const E& e) { return e.other; };
constexpr int NSTYLES = 9;
template<int S> auto cmp_style(int tag) {
    if constexpr (S == 0) return Cmp{tag}; else if constexpr (S == 1) return RCmp{tag}; else if constexpr (S == 2) return &fcmp;
    else if constexpr (S == 3) return &B::after; else if constexpr (S == 4) return cu::as_comparison(Dual{tag}); else if constexpr (S == 5) return std::greater<B>{};
    else if constexpr (S == 6) return lcmp; else if constexpr (S == 7) return cu::function_constant<&B::after>{}; else return std::greater<>{};
}
template<int S> auto prj_style(int tag) {
    if constexpr (S == 0) return Prj{tag}; else if constexpr (S == 1) return RPrj{tag}; else if constexpr (S == 2) return &fprj;
    else if constexpr (S == 3) return &E::other; else if constexpr (S == 4) return &E::flip; else if constexpr (S == 5) return cu::as_projection(Dual{tag});
    else if constexpr (S == 6) return cu::as_projection(&E::box) | &Box::b; else if constexpr (S == 7) return lprj; else return cu::function_constant<&E::other>{};
}
inline const char* const cmp_names[] = {"object", "refinable", "function pointer", "member function", "as_comparison", "std::greater<T>", "lambda", "function_constant", "std::greater<>"};
inline const char* const prj_names[] = {"object", "refinable", "function pointer", "member", "member function", "as_projection", "composed", "lambda", "function_constant"};
template<class F> auto tag_of(const F& f, int) -> decltype(int(f.tag)) { return f.tag; }
template<class F> int tag_of(const F&, long) { return -1; }
struct None {};
enum { NONE, LESS, IDENT = LESS, FN };
#ifdef VP_STD_STANDINS
using Less = std::ranges::less; using Ident = std::identity;
#else
using Less = std::less<>; using Ident = cu::identity;
#endif
template<int M, int S> auto cmp_arg(int tag) { if constexpr (M == NONE) return None{}; else if constexpr (M == LESS) return Less{}; else return cmp_style<S>(tag); }
template<int M, int S> auto prj_arg(int tag) { if constexpr (M == NONE) return None{}; else if constexpr (M == IDENT) return Ident{}; else return prj_style<S>(tag); }
template<class F> struct refines { using type = F; static constexpr int add = 0; };
template<> struct refines<RCmp> { using type = Cmp; static constexpr int add = 1000; };
template<> struct refines<RPrj> { using type = Prj; static constexpr int add = 1000; };
inline int mode(const std::string& s) { return s == "none" ? NONE : s == "fn" ? FN : LESS; }
// ---- implementations providing some of the overloads
struct Rec {
    int bit = 0, self = 0, ctag = -1, ptag = -1; std::string table;
    const std::type_info *c = nullptr, *p = nullptr, *r = nullptr; bool rval = false, cst = false; const void* where = nullptr; std::ptrdiff_t n = 0;
};
template<class It, class C, class P> Rec record(int bit, int self, It first, It last, C c, P p) {
    Rec r; r.bit = bit; r.self = self; r.n = std::distance(first, last); r.where = &*first;
    for (It a = first; a != last; ++a) for (It b = first; b != last; ++b) {
        auto before = [&](auto&& x, auto&& y) -> bool { if constexpr (std::is_same_v<C, None>) return x < y; else return std::invoke(c, x, y); };
        bool t; if constexpr (std::is_same_v<P, None>) t = before(*a, *b); else t = before(std::invoke(p, *a), std::invoke(p, *b));
        r.table += t ? '1' : '0';
    }
    if constexpr (!std::is_same_v<C, None>) { r.c = &typeid(C); r.ctag = tag_of(c, 0); }
    if constexpr (!std::is_same_v<P, None>) { r.p = &typeid(P); r.ptag = tag_of(p, 0); }
    return r;
}
template<class R, class C, class P> Rec record_range(int bit, int self, R& rg, bool rval, C c, P p) {
    Rec r = record(bit, self, std::begin(rg), std::end(rg), c, p);
    r.r = &typeid(R); r.rval = rval; r.cst = std::is_const_v<R>; r.where = std::addressof(rg); return r;
}
template<bool State> struct Self { int self() const { return 0; } };
template<> struct Self<true> { int t; explicit Self(int x) : t(x) {} int self() const { return t; } };
#define VP_IF(b, ...) std::enable_if_t<((G & b) != 0) __VA_ARGS__
template<int F, bool State> struct impl : Self<State> {
    using Self<State>::Self;
    template<class It, int G = F, VP_IF(1), int> = 0> auto operator()(It f, It l) const -> decltype(*f, Rec()) { return record(1, this->self(), f, l, None{}, None{}); }
    template<class It, class C, int G = F, VP_IF(2, && cs::is_projection_iterator_v<cu::identity, It, C>), int> = 0> Rec operator()(It f, It l, C c) const { return record(2, this->self(), f, l, c, None{}); }
    template<class It, class P, int G = F, VP_IF(4, && cs::is_projection_iterator_v<P, It>), int*> = nullptr> Rec operator()(It f, It l, P p) const { return record(4, this->self(), f, l, None{}, p); }
    template<class It, class C, class P, int G = F, VP_IF(8, && cs::is_projection_iterator_v<P, It, C>), int> = 0> Rec operator()(It f, It l, C c, P p) const { return record(8, this->self(), f, l, c, p); }
    template<class R, int G = F, VP_IF(16), int> = 0> auto operator()(R&& r) const -> decltype(std::begin(r), Rec()) { return record_range(16, this->self(), r, !std::is_lvalue_reference_v<R>, None{}, None{}); }
    template<class R, class C, int G = F, VP_IF(32, && cs::is_projection_v<cu::identity, R, C>), int> = 0> Rec operator()(R&& r, C c) const { return record_range(32, this->self(), r, !std::is_lvalue_reference_v<R>, c, None{}); }
    template<class R, class P, int G = F, VP_IF(64, && cs::is_projection_v<P, R>), int*> = nullptr> Rec operator()(R&& r, P p) const { return record_range(64, this->self(), r, !std::is_lvalue_reference_v<R>, None{}, p); }
    template<class R, class C, class P, int G = F, VP_IF(128, && cs::is_projection_v<P, R, C>), int> = 0> Rec operator()(R&& r, C c, P p) const { return record_range(128, this->self(), r, !std::is_lvalue_reference_v<R>, c, p); }
};
extern std::vector<E> sample;      // from the vector
inline std::string bits(int f) {
    static const char* const n[] = {"I0", "I1c", "I1p", "I2", "R0", "R1c", "R1p", "R2"};
    std::string s; for (int i = 0; i < 8; ++i) if (f >> i & 1) s += (s.empty() ? "" : ",") + std::string(n[i]);
    return "{" + s + "}";
}
struct Seen { bool callable = false, traits = true; Rec r; const std::type_info *c = nullptr, *p = nullptr, *rt = nullptr; int ctag = -1, ptag = -1, self = 0; bool rval = false, cst = false; const void *range = nullptr, *first = nullptr; };
std::string check_call(const J& e, const Seen& s, bool completion, const std::string& how);
// one call of the facade of impl<F>
// (g++ 13 forgets the value category of packs captured by nested lambdas, hence plain functions)
template<bool CM, bool PM, class S, class R, class... A> void call_range(Seen& o, const S& s, R&& r, A... a) {
    o.callable = std::is_invocable_v<const S&, R&&, A...>;
    if constexpr (std::is_invocable_v<const S&, R&&, A...>) {
        static_assert(std::is_same_v<decltype(s(std::forward<R>(r), a...)), Rec>, "does not return what the implementation returns");
        o.r = s(std::forward<R>(r), a...);
    }
    bool t;
    if constexpr (!CM && !PM) t = cs::is_sorter_v<S, R&&>;
    else if constexpr (CM && PM) t = cs::is_comparison_projection_sorter_v<S, R&&, A...>;
    else if constexpr (CM) t = cs::is_comparison_sorter_v<S, R&&, A...>;
    else t = cs::is_projection_sorter_v<S, R&&, A...>;
    o.traits = t == o.callable;
}
template<bool CM, bool PM, class S, class It, class... A> void call_iter(Seen& o, const S& s, It f, It l, A... a) {
    o.callable = std::is_invocable_v<const S&, It, It, A...>;
    if constexpr (std::is_invocable_v<const S&, It, It, A...>) {
        static_assert(std::is_same_v<decltype(s(f, l, a...)), Rec>, "does not return what the implementation returns");
        o.r = s(f, l, a...);
    }
    bool t;
    if constexpr (!CM && !PM) t = cs::is_sorter_iterator_v<S, It>;
    else if constexpr (CM && PM) t = cs::is_comparison_projection_sorter_iterator_v<S, It, A...>;
    else if constexpr (CM) t = cs::is_comparison_sorter_iterator_v<S, It, A...>;
    else t = cs::is_projection_sorter_iterator_v<S, It, A...>;
    o.traits = t == o.callable;
}
template<class C, class P, class F> void with_args(const F& f, C c, P p) {
    if constexpr (std::is_same_v<C, None>) { if constexpr (std::is_same_v<P, None>) f(); else f(p); }
    else { if constexpr (std::is_same_v<P, None>) f(c); else f(c, p); }
}
template<int F, bool State, bool Range, int CM, int PM, int CS, int PS, int Cat> Seen facade_call() {
    using S = cs::sorter_facade<impl<F, State>>;
    const S s = [] { if constexpr (State) return S(7); else return S{}; }();
    Seen o; o.self = State ? 7 : 0;
    auto c = cmp_arg<CM, CS>(21); auto p = prj_arg<PM, PS>(42);
    using C = decltype(c); using P = decltype(p);
    if (CM != NONE) { o.c = &typeid(typename refines<C>::type); o.ctag = tag_of(c, 0) + refines<C>::add; }
    if (PM != NONE) { o.p = &typeid(typename refines<P>::type); o.ptag = tag_of(p, 0) + refines<P>::add; }
    std::vector<E>& v = sample; const std::vector<E>& cv = v;
    o.first = v.data(); o.range = &v; o.rt = &typeid(v);
    constexpr bool cm = CM != NONE, pm = PM != NONE;
    o.cst = Range && Cat == 1; o.rval = Range && Cat == 2;
    with_args([&](auto... a) {
        if constexpr (!Range) {
            if constexpr (Cat == 1) call_iter<cm, pm>(o, s, cv.begin(), cv.end(), a...); else if constexpr (Cat == 2) call_iter<cm, pm>(o, s, v.data(), v.data() + v.size(), a...); else call_iter<cm, pm>(o, s, v.begin(), v.end(), a...);
        } else {
            if constexpr (Cat == 0) call_range<cm, pm>(o, s, v, a...); else if constexpr (Cat == 1) call_range<cm, pm>(o, s, cv, a...); else call_range<cm, pm>(o, s, std::move(v), a...);
        }
    }, c, p);
    return o;
}
using FacadeCall = Seen (*)();
struct FacadeTable { FacadeCall f[2][3][3]; };
template<int F, bool State, int CS, int PS, int Cat> FacadeTable facade_table() {
    FacadeTable t;
    auto set = [&](auto range, auto cm, auto pm) {
        t.f[decltype(range)::value][decltype(cm)::value][decltype(pm)::value] = &facade_call<F, State, bool(decltype(range)::value), decltype(cm)::value, decltype(pm)::value, CS, PS, (Cat + decltype(cm)::value + decltype(pm)::value) % 3>;
    };
    using I0 = std::integral_constant<int, 0>; using I1 = std::integral_constant<int, 1>; using I2 = std::integral_constant<int, 2>;
    auto l3 = [&](auto r, auto c) { set(r, c, I0{}); set(r, c, I1{}); set(r, c, I2{}); };
    auto l2 = [&](auto r) { l3(r, I0{}); l3(r, I1{}); l3(r, I2{}); };
    l2(I0{}); l2(I1{});
    return t;
}
void reg_facade(int f, bool state, int cs, int ps, const FacadeTable& t, const char* what);
template<int F, bool State, int CS, int PS, int Cat> void facade(const char* what) { reg_facade(F, State, CS, PS, facade_table<F, State, CS, PS, Cat>(), what); }
} // namespace vp
#endif
