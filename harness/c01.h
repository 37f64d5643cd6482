#include "elem.h"
#include "sorters_list.h"
namespace vp {
// One instantiation kind = container x element x (comparison, projection).
template<class S> void reg_int_vec(const char* n) {      // arithmetic keys, default order
    add(std::string(n) + "/vector<int>/less", [](const Vec& v) -> std::string {
        std::vector<int> c(v.keys); S{}(c.begin(), c.end()); return judge_ints(c, v); }, quadratic_limit(n));
    // std::iter_swap is found for the iterators of the standard library, not for pointers: other code is chosen
    add(std::string(n) + "/int[]/less", [](const Vec& v) -> std::string {
        std::vector<int> c(v.keys); S{}(c.data(), c.data() + c.size()); return judge_ints(c, v); }, quadratic_limit(n));
}
template<class S> void reg_P_vec(const char* n) {        // pointer to member projection
    add(std::string(n) + "/vector<P>/proj", [](const Vec& v) -> std::string {
        std::vector<P> c; fill(c, v); S{}(c, &P::key); return judge(c, v, false); }, quadratic_limit(n));
    add(std::string(n) + "/Q[]/cmp", [](const Vec& v) -> std::string {
        std::vector<Q> c; fill(c, v, true); S{}(c.data(), c.data() + c.size(), GreaterNeg{}); return judge(c, v, false, true); }, quadratic_limit(n));
}
template<class S> void reg_Q_deque(const char* n) {      // class type, reversed comparison on negated keys
    add(std::string(n) + "/deque<Q>/greater", [](const Vec& v) -> std::string {
        std::deque<Q> c; fill(c, v, true); S{}(c.begin(), c.end(), GreaterNeg{}); return judge(c, v, false, true); }, quadratic_limit(n));
}
template<class S> void reg_Q_list(const char* n) {
    add(std::string(n) + "/list<Q>/greater+proj", [](const Vec& v) -> std::string {
        std::list<Q> c; fill(c, v); S{}(c.begin(), c.end(), std::greater<>{}, NegProj{}); return judge(c, v, false); }, quadratic_limit(n));
}
template<class S> void reg_P_flist(const char* n) {
    add(std::string(n) + "/forward_list<P>/cmp", [](const Vec& v) -> std::string {
        std::forward_list<P> c; fill(c, v); S{}(c.begin(), c.end(), ByKey{}); return judge(c, v, false); }, quadratic_limit(n));
}
template<class S> void reg_int_flist(const char* n) {
    add(std::string(n) + "/forward_list<int>/greater", [](const Vec& v) -> std::string {
        std::forward_list<int> c; std::vector<int> k(v.keys); for (auto& x : k) x = -x; c.assign(k.begin(), k.end());
        S{}(c, std::greater<>{}); k.assign(c.begin(), c.end()); for (auto& x : k) x = -x; return judge_ints(k, v); }, quadratic_limit(n));
}
template<class S> void reg_fp_vec(const char* n) {
    add(std::string(n) + "/vector<double>/less", [](const Vec& v) -> std::string {
        auto c = fp_keys<double>(v); S{}(c.begin(), c.end()); return judge_fp(c, v); }, quadratic_limit(n));
    add(std::string(n) + "/float[]/greater", [](const Vec& v) -> std::string {
        auto c = fp_keys<float>(v, true); S{}(c.data(), c.data() + c.size(), std::greater<>{}); return judge_fp(c, v, true); }, quadratic_limit(n));
    add(std::string(n) + "/long long[]/greater", [](const Vec& v) -> std::string {
        std::vector<long long> c; for (int k : v.keys) c.push_back(-(1000000007LL * k)); S{}(c.data(), c.data() + c.size(), std::greater<>{});
        std::vector<int> o; for (auto x : c) o.push_back(int(-x / 1000000007LL)); return judge_ints(o, v); }, quadratic_limit(n));
    add(std::string(n) + "/deque<unsigned>/less", [](const Vec& v) -> std::string {
        std::deque<unsigned> c; for (int k : v.keys) c.push_back(unsigned(k) + 0x80000000u); S{}(c, std::less<>{});
        std::vector<int> o; for (auto x : c) o.push_back(int(x - 0x80000000u)); return judge_ints(o, v); }, quadratic_limit(n));
}
template<class S, class C> void reg_fp_list(const char* n, const char* what) {
    add(std::string(n) + "/" + what + "/less", [](const Vec& v) -> std::string {
        auto k = fp_keys<typename C::value_type>(v); C c(k.begin(), k.end()); S{}(c); return judge_fp(c, v); }, quadratic_limit(n));
}
}
