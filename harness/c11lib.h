// C11: every form of a call of the sorters, adapters and probes of the library.
#ifndef VP_C11LIB_H
#define VP_C11LIB_H
#include "c11.h"
#include "adapters_list.h"
#include <cpp-sort/probes.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
namespace vp {
// what each form means, according to the specification
struct Forms { bool loaded = false; bool order[2][3][3] = {}, view[2][3][3] = {}; void load(); };
extern Forms forms;
inline bool reversed(bool r, int cm, int pm) { return forms.order[r][cm][pm]; }
inline bool viewed(bool r, int cm, int pm) { return forms.view[r][cm][pm]; }
std::string form_name(bool range, int cm, int pm, int cs, int ps, const char* how);
template<class C> void fill_e(C& c, const Vec& v, bool rev, bool view) {
    std::vector<E> t; std::size_t n = v.n();
    for (std::size_t i = 0; i < n; ++i) {
        int k = rev ? -v.keys[i] : v.keys[i], other = v.keys[(i * 5 + 1) % n] * 3 - v.keys[(i + 2) % n];
        t.push_back(view ? E(other, k, int(i)) : E(k, other, int(i)));
    }
    c.assign(t.begin(), t.end());
}
template<class C> std::string judge_e(const C& c, const Vec& v, bool stable, bool rev, bool view) {
    std::vector<Q> q;
    for (auto& e : c) {
        if (e.other.k != e.box.b.k) return "an element is torn apart";
        int k = view ? e.other.k : e.k; q.emplace_back(rev ? -k : k, e.id);
    }
    return judge(q, v, stable);
}
template<class C> struct RView { C* c; auto begin() const { return c->begin(); } auto end() const { return c->end(); } };
template<class C> RView(C*) -> RView<C>;
template<class S, class R, class... A> long long do_range(const S& s, R&& r, A... a) {
    if constexpr (std::is_void_v<decltype(s(std::forward<R>(r), a...))>) { s(std::forward<R>(r), a...); return 0; } else return (long long)(s(std::forward<R>(r), a...));
}
template<class S, class It, class... A> long long do_iter(const S& s, It f, It l, A... a) {
    if constexpr (std::is_void_v<decltype(s(f, l, a...))>) { s(f, l, a...); return 0; } else return (long long)(s(f, l, a...));
}
template<class S, class R, class... A> long long ptr_range(const S& s, R&& r, A... a) {
    using Ret = decltype(s(std::forward<R>(r), a...));
    void (*g)(R&&, A...) = s; (void)g;
    Ret (*f)(R&&, A...) = s; 
    if constexpr (std::is_void_v<Ret>) { g(std::forward<R>(r), a...); return 0; } else return (long long)(f(std::forward<R>(r), a...));
}
template<class S, class It, class... A> long long ptr_iter(const S& s, It f, It l, A... a) {
    using Ret = decltype(s(f, l, a...));
    void (*g)(It, It, A...) = s; (void)g;
    Ret (*h)(It, It, A...) = s;
    if constexpr (std::is_void_v<Ret>) { g(f, l, a...); return 0; } else return (long long)(h(f, l, a...));
}
// one form; Cat: which kind of range
template<class S, class C, bool Range, int CM, int PM, int CS, int PS, int Cat, bool Ptr> long long one_form(C& c) {
    const S s{}; long long r = 0;
    with_args([&](auto... a) {
        if constexpr (!Range) { if constexpr (Ptr) r = ptr_iter(s, c.begin(), c.end(), a...); else r = do_iter(s, c.begin(), c.end(), a...); }
        else if constexpr (Cat == 0) { if constexpr (Ptr) r = ptr_range(s, c, a...); else r = do_range(s, c, a...); }
        else if constexpr (Cat == 1) { if constexpr (Ptr) r = ptr_range(s, RView{&c}, a...); else r = do_range(s, RView{&c}, a...); }
        else { if constexpr (Ptr) r = ptr_range(s, std::move(c), a...); else r = do_range(s, std::move(c), a...); }
    }, cmp_arg<CM, CS>(1), prj_arg<PM, PS>(2));
    return r;
}
template<class C> using FormFn = long long (*)(C&);
template<class C> struct FormSet { FormFn<C> f[2][3][3] = {}, p[2][3][3] = {}; };
template<class S, class C, int CS, int PS, int Cat, bool Ptr, bool RangeOnly> FormSet<C> form_set() {
    FormSet<C> t;
    auto set = [&](auto range, auto cm, auto pm) {
        constexpr bool r = decltype(range)::value; constexpr int c = decltype(cm)::value, p = decltype(pm)::value;
        t.f[r][c][p] = &one_form<S, C, r, c, p, CS, PS, RangeOnly ? 0 : (Cat + c + p) % 3, false>;
        if constexpr (Ptr) t.p[r][c][p] = &one_form<S, C, r, c, p, CS, PS, RangeOnly ? 0 : (Cat + c + p + 1) % 3, true>;
    };
    using I0 = std::integral_constant<int, 0>; using I1 = std::integral_constant<int, 1>; using I2 = std::integral_constant<int, 2>;
    auto l3 = [&](auto r, auto c) { set(r, c, I0{}); set(r, c, I1{}); set(r, c, I2{}); };
    auto l2 = [&](auto r) { l3(r, I0{}); l3(r, I1{}); l3(r, I2{}); };
    if constexpr (!RangeOnly) l2(I0{});
    l2(I1{});
    return t;
}
// Judge: sorts -> content; probes and counting sorters: same value as the canonical call
template<class C> std::string run_forms(const FormSet<C>& t, const Vec& v, bool stable, bool sorts, bool values, int cs, int ps) {
    long long want = 0;
    {   bool r = !t.f[0][FN][FN]; C c; fill_e(c, v, reversed(r, FN, FN), viewed(r, FN, FN)); want = t.f[r][FN][FN](c); }
    for (int r = 0; r < 2; ++r) for (int cm = 0; cm < 3; ++cm) for (int pm = 0; pm < 3; ++pm) for (int ptr = 0; ptr < 2; ++ptr) {
        FormFn<C> f = ptr ? t.p[r][cm][pm] : t.f[r][cm][pm];
        if (!f) continue;
        C c; fill_e(c, v, reversed(r, cm, pm), viewed(r, cm, pm));
        long long got = f(c);
        std::string bad;
        if (sorts) bad = judge_e(c, v, stable, reversed(r, cm, pm), viewed(r, cm, pm));
        else { C d; fill_e(d, v, reversed(r, cm, pm), viewed(r, cm, pm)); auto i = d.begin(); for (auto& e : c) { if (e.id != i->id || e.k != i->k) bad = "the collection changed"; ++i; } }
        if (bad.empty() && values && got != want) bad = "returns " + std::to_string(got) + ", the canonical call returns " + std::to_string(want);
        if (!bad.empty()) return form_name(r, cm, pm, cs, ps, ptr ? " through a function pointer" : "") + ": " + bad;
    }
    return "";
}
template<class S, class = void> struct always_stable : std::false_type {};
template<class S> struct always_stable<S, std::void_t<typename cs::sorter_traits<S>::is_always_stable>> : cs::sorter_traits<S>::is_always_stable {};
template<class S, class C, int K, bool Ptr = true, bool Sorts = true, bool Values = false, bool RangeOnly = false> void reg_forms(const char* name, const char* cname) {
    constexpr int CS = (K * 5 + 2) % 9, PS = (K * 7 + 3 + K / 9) % 9;
    bool stable = false; if constexpr (Sorts) stable = always_stable<S>::value;
    auto t = form_set<S, C, CS, PS, RangeOnly ? 0 : K % 3, Ptr, RangeOnly>();
    add(std::string(name) + "/" + cname, [=](const Vec& v) -> std::string {
        if (v.n() == 0) return "skip";
        return run_forms<C>(t, v, stable, Sorts, Values, CS, PS); });
}
// the functions sort and stable_sort
template<class S> struct with_sorter {
    template<class... A> auto operator()(A&&... a) const -> decltype(auto) { return cs::sort(S{}, std::forward<A>(a)...); }
    using is_always_stable = std::false_type;
};
template<class S> struct with_stable_sorter {
    template<class... A> auto operator()(A&&... a) const -> decltype(auto) { return cs::stable_sort(S{}, std::forward<A>(a)...); }
    using is_always_stable = std::true_type;
};
struct plain_sort_fn { template<class... A> void operator()(A&&... a) const { cs::sort(std::forward<A>(a)...); } using is_always_stable = std::false_type; };
struct plain_stable_sort_fn { template<class... A> void operator()(A&&... a) const { cs::stable_sort(std::forward<A>(a)...); } using is_always_stable = std::true_type; };
// ---- type-specific sorters: no comparison but std::less<>
template<class X> struct NBox { X v; };
template<class X> struct N { X v; NBox<X> box; int id; const X& get() const { return v; } };
template<class X> X key_of(int k);
template<> inline int key_of<int>(int k) { return k * 1000 - 3; }
template<> inline unsigned char key_of<unsigned char>(int k) { return (unsigned char)(k * 7 + 130); }
template<> inline long long key_of<long long>(int k) { return k * 30ll - 4; }
template<> inline float key_of<float>(int k) { return float(k) * 1.25f; }
template<> inline double key_of<double>(int k) { return double(k) * -0.5 + double(k); }
template<> inline std::string key_of<std::string>(int k) { return std::string("k") + char('!' + k) + (k % 2 ? "x" : ""); }
// the keys, made small: same order
std::vector<int> ranks(const Vec& v);
template<class S, class X> void reg_natural(const char* name, const char* xname) {
    std::string base = std::string(name) + "/" + xname;
    add(base, [](const Vec& v) -> std::string {
        std::vector<X> in, want; for (int k : ranks(v)) in.push_back(key_of<X>(k)); for (int p : v.perm) want.push_back(in[std::size_t(p)]);
        const S s{};
        auto go = [&](const char* form, auto&& f) -> std::string { auto c = in; f(c); return c == want ? "" : std::string(form) + " does not sort as specified"; };
        using C = std::vector<X>; using It = typename C::iterator; std::string bad; auto keep = [&](std::string x) { if (bad.empty()) bad = x; };
        keep(go("(range)", [&](C& c) { s(c); })); keep(go("(iterators)", [&](C& c) { s(c.begin(), c.end()); }));
        keep(go("(range, less)", [&](C& c) { s(c, std::less<>{}); })); keep(go("(iterators, less)", [&](C& c) { s(c.begin(), c.end(), std::less<>{}); }));
        keep(go("(range, identity)", [&](C& c) { s(c, cu::identity{}); })); keep(go("(iterators, identity)", [&](C& c) { s(c.begin(), c.end(), cu::identity{}); }));
        keep(go("(range, less, identity)", [&](C& c) { s(c, std::less<>{}, cu::identity{}); })); keep(go("(iterators, less, identity)", [&](C& c) { s(c.begin(), c.end(), std::less<>{}, cu::identity{}); }));
        keep(go("(range) through a function pointer", [&](C& c) { void (*f)(C&) = s; f(c); })); keep(go("(iterators, less, identity) through a function pointer", [&](C& c) { void (*f)(It, It, std::less<>, cu::identity) = s; f(c.begin(), c.end(), {}, {}); }));
        keep(go("(rvalue range)", [&](C& c) { s(RView{&c}); }));
        return bad; });
}
template<class S, class X> void reg_projected(const char* name, const char* xname) {
    add(std::string(name) + "/projected " + xname, [](const Vec& v) -> std::string {
        using C = std::vector<N<X>>; using It = typename C::iterator; C in; auto rk = ranks(v);
        for (std::size_t i = 0; i < v.n(); ++i) { X x = key_of<X>(rk[i]); in.push_back(N<X>{x, {x}, int(i)}); }
        const S s{}; std::string bad;
        auto go = [&](const std::string& form, auto&& f) { if (!bad.empty()) return; C c = in; f(c);
            std::vector<Q> q; for (auto& e : c) { if (e.id < 0 || e.id >= int(v.n()) || !(e.v == in[std::size_t(e.id)].v)) { bad = form + ": an element is torn apart"; return; } q.emplace_back(v.keys[std::size_t(e.id)], e.id); }
            bad = judge(q, v, false); if (!bad.empty()) bad = form + ": " + bad; };
        auto all = [&](const char* style, auto p) {
            std::string st = std::string(", projection: ") + style + ")"; using Pj = decltype(p);
            go("(range" + st, [&](C& c) { s(c, p); }); go("(iterators" + st, [&](C& c) { s(c.begin(), c.end(), p); });
            go("(range, less" + st, [&](C& c) { s(c, std::less<>{}, p); }); go("(iterators, less" + st, [&](C& c) { s(c.begin(), c.end(), std::less<>{}, p); });
            go("(rvalue range, less" + st, [&](C& c) { s(RView{&c}, std::less<>{}, p); });
            go("(range" + st + " through a function pointer", [&](C& c) { void (*f)(C&, Pj) = s; f(c, p); }); go("(iterators, less" + st + " through a function pointer", [&](C& c) { void (*f)(It, It, std::less<>, Pj) = s; f(c.begin(), c.end(), {}, p); });
        };
        all("member", &N<X>::v); all("member function", &N<X>::get); all("lambda", [](const N<X>& n) { return n.v; });
        all("as_projection", cu::as_projection(&N<X>::v)); all("composed", cu::as_projection(&N<X>::box) | &NBox<X>::v); all("function_constant", cu::function_constant<&N<X>::v>{});
        return bad; });
}
} // namespace vp
#endif
