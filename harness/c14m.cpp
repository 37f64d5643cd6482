// utility::metric and utility::metrics against the behaviours of module Metric.
#include "vp.h"
#include <chrono>
#include <sstream>
#include <type_traits>
#include <cpp-sort/utility/metrics_tools.h>
namespace {
namespace cu = cppsort::utility;
using std::get;
struct ta {}; struct tc {};
template<class A, class B> bool same(const A& a, const B& b, const vp::J& want, const char* how, std::string& bad) {
    bool r[6] = {a == b, a != b, a < b, a <= b, a > b, a >= b}; static const char* ops[] = {"==", "!=", "<", "<=", ">", ">="};
    for (int i = 0; i < 6; ++i) if (r[i] != (want[std::size_t(i)].i != 0)) { bad = std::string(how) + ": " + ops[i] + " is " + (r[i] ? "true" : "false"); return false; }
    return true;
}
template<class A, class B> std::string run(const vp::Vec& v) {
    using MA = cu::metric<A, ta>; using MB = cu::metric<B, ta>; using MC = cu::metric<short, tc>;
    auto& log = v.raw[0];
    MA a(A(log[0][1].i)); MB b(B(log[0][2].i)); MC c(short(log[0][3].i));
    cu::metrics<MA, MC> mm(a, c);
    std::string bad;
    for (std::size_t k = 0; k < log.size(); ++k) {
        std::string op = log[k][0].s; A va = A(log[k][1].i); B vb = B(log[k][2].i); short vc = short(log[k][3].i);
        if (op == "a=b") a = b; else if (op == "b=a") b = a;
        else if (op == "a=move(b)") a = std::move(b); else if (op == "b=move(a)") b = std::move(a);
        else if (op == "a=value") a = va; else if (op == "c=value") c = vc;
        else if (op == "a=copy") { MA x(a); a = x; MA y(std::move(x)); a = std::move(y); }
        else if (op == "b=metric(a)") b = MB(B(a.value()));
        else if (op == "get<a>=value") { get<ta>(mm) = va; a = get<ta>(mm); }
        else if (op == "get<0>=value") { get<0>(mm) = va; a = get<0>(mm); }
        else if (op == "get<c>=value") { get<tc>(mm) = vc; const auto& cm = mm; c = get<1>(cm); }
        else if (op != "init") return "unknown operation " + op;
        mm = cu::metrics<MA, MC>(a, c);
        auto copy = mm;
        if (a.value() != va || b.value() != vb || c.value() != vc || A(a) != va || B(b) != vb || static_cast<short>(c) != vc)
            return "after " + op + ": values " + std::to_string(a.value()) + ", " + std::to_string(b.value()) + ", " + std::to_string(c.value()) + "; the specification says " + std::to_string(va) + ", " + std::to_string(vb) + ", " + std::to_string(vc);
        if (get<ta>(copy).value() != va || get<tc>(std::move(copy)).value() != vc) return "after " + op + ": get<tag> is not the metric with the tag";
    }
    if (!same(a, b, v.raw[1], "a ? b", bad) || !same(b, a, v.raw[2], "b ? a", bad)) return bad;
    A xa = a.value(); B xb = b.value();
    if (!same(a, A(xb), v.raw[1], "a ? value", bad) || !same(A(xb), a, v.raw[2], "value ? a", bad) || !same(b, B(xa), v.raw[2], "b ? value", bad) || !same(B(xa), b, v.raw[1], "value ? b", bad)) return bad;
    if (!same(a, MA(A(xb)), v.raw[1], "a ? metric of its type", bad)) return bad;
    std::ostringstream o1, o2; o1 << a << ' ' << c; o2 << xa << ' ' << c.value();
    if (o1.str() != o2.str()) return "prints " + o1.str() + " for " + o2.str();
    return "";
}
template<class X, class Y, class = void> struct comparable: std::false_type {};
template<class X, class Y> struct comparable<X, Y, std::void_t<decltype(std::declval<X>() == std::declval<Y>())>>: std::true_type {};
template<class X, class Y, class = void> struct ordered: std::false_type {};
template<class X, class Y> struct ordered<X, Y, std::void_t<decltype(std::declval<X>() < std::declval<Y>())>>: std::true_type {};
}
VP_UNIT {
    vp::add("metric<int>, metric<long long>", run<int, long long>);
    vp::add("metric<double>, metric<int>", run<double, int>);
    vp::add("metric<unsigned long>, metric<unsigned short>", run<unsigned long, unsigned short>);
    vp::add("tags keep metrics apart", [](const vp::Vec&) -> std::string {
        using A = cu::metric<int, ta>; using C = cu::metric<int, tc>;
        if (comparable<A, C>::value || ordered<A, C>::value) return "metrics with different tags can be compared";
        if (std::is_assignable<A&, C>::value || std::is_convertible<C, A>::value) return "metrics with different tags can be assigned";
        if (std::is_convertible<A, int>::value || std::is_convertible<int, A>::value) return "metrics convert implicitly from or to values";
        if (!std::is_constructible<int, A>::value || !std::is_constructible<A, int>::value) return "metrics do not convert explicitly";
        if (!std::is_assignable<A&, const cu::metric<long, ta>&>::value) return "metrics with different value types cannot be assigned";
        constexpr A k(3); static_assert(k.value() == 3 && k == 3 && k < 4 && A(2) != k, "");
        return ""; }, 0);
}
