// Keys returned by value and comparisons that take (and use up) their arguments, and the other shapes
// a comparison or projection may legally have: module KeyLife.
#ifndef VP_C01K_H
#define VP_C01K_H
#include "elem.h"
#include "adapters_list.h"
#include <unordered_map>
namespace vp {
// Every key object is known to the ledger: address -> id; ids are never reused.
struct KeyLedger {
    bool on = false, bad = false; const char* what = "";
    int next = 0; long long live = 0;
    void begin(const std::vector<int>& ranks) { on = true; bad = false; what = ""; next = 0; live = 0; if (tracing()) trace_line("[\"call\"," + show_all(ranks) + "]"); }
    void end(const std::vector<int>& ranks) { on = false; if (tracing()) trace_line("[\"return\"," + show_all(ranks) + "]"); }
    void fault(const char* w) { if (!bad) { bad = true; what = w; } }
    static std::string show_all(const std::vector<int>& r) { std::string s = "["; for (std::size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + std::to_string(r[i]); return s + "]"; }
    void ev(const char* e, int a, int b) { if (on && tracing()) trace_line(std::string("[\"") + e + "\"," + std::to_string(a) + "," + std::to_string(b) + "]"); }
};
inline KeyLedger& key_ledger() { static KeyLedger l; return l; }
struct Key {
    static constexpr int nothing = -1000000;
    int rank, id;
    explicit Key(int r) : rank(r), id(++key_ledger().next) { ++key_ledger().live; key_ledger().ev("project", id, r); }
    Key(const Key& o) : rank(o.rank), id(++key_ledger().next) {
        auto& l = key_ledger(); ++l.live;
        if (rank == nothing && l.on) l.fault("a key that has been used up was copied");
        l.ev("copy", id, o.id);
    }
    Key(Key&& o) noexcept : rank(o.rank), id(++key_ledger().next) { ++key_ledger().live; key_ledger().ev("move", id, o.id); o.rank = nothing; }
    Key& operator=(const Key& o) { if (&o != this) { rank = o.rank; key_ledger().ev("copy", id, o.id); } return *this; }
    Key& operator=(Key&& o) noexcept { if (&o != this) { rank = o.rank; key_ledger().ev("move", id, o.id); o.rank = nothing; } return *this; }
    ~Key() { --key_ledger().live; if (key_ledger().on && tracing()) trace_line("[\"die\"," + std::to_string(id) + "]"); }
};
struct KeyOf { Key operator()(const P& e) const { return Key(e.key); } };
inline bool key_less(const Key& a, const Key& b) {
    auto& l = key_ledger();
    if (a.rank == Key::nothing || b.rank == Key::nothing) l.fault("a key that has been used up was compared");
    bool r = a.rank < b.rank;
    if (l.on && tracing()) trace_line("[\"less\"," + std::to_string(a.id) + "," + std::to_string(b.id) + (r ? ",1]" : ",0]"));
    return r;
}
struct UsesUp { bool operator()(Key a, Key b) const { return key_less(a, b); } };
struct Greedy {                               // takes what it is offered, whether or not as a parameter
    bool operator()(const Key& a, const Key& b) const { return key_less(a, b); }
    bool operator()(Key&& a, const Key& b) const { Key x(std::move(a)); return key_less(x, b); }
    bool operator()(const Key& a, Key&& b) const { Key y(std::move(b)); return key_less(a, y); }
    bool operator()(Key&& a, Key&& b) const { Key x(std::move(a)), y(std::move(b)); return key_less(x, y); }
};
struct MutLess { int calls = 0; bool operator()(const P& a, const P& b) { ++calls; return a.key < b.key; } };
struct MutProj { int calls = 0; int operator()(const P& a) { ++calls; return a.key; } };
struct IntLess { int operator()(const P& a, const P& b) const { return a.key < b.key ? -2 : 0; } };    // any non-zero value is true

template<class C> std::vector<int> ranks_of(const C& c) { std::vector<int> r; for (auto& e : c) r.push_back(e.key); return r; }
template<class C, class F> std::string key_call(const Vec& v, bool stable, F f) {
    C c; fill(c, v);
    auto& l = key_ledger();
    l.begin(v.keys);
    f(c);
    l.end(ranks_of(c));
    if (l.bad) return l.what;
    if (l.live != 0) return "keys outlive the call";
    return judge(c, v, stable);
}
template<class S, class C> void reg_k(const char* n, const char* what) {
    std::string name = std::string(n) + "/" + what;
    add(name + "/keys by value, used up by the comparison", [](const Vec& v) {
        return key_call<C>(v, false, [](C& c) { S{}(c, UsesUp{}, KeyOf{}); }); }, quadratic_limit(n));
    add(name + "/keys by value, greedy comparison, iterators", [](const Vec& v) {
        return key_call<C>(v, false, [](C& c) { S{}(c.begin(), c.end(), Greedy{}, KeyOf{}); }); }, quadratic_limit(n));
}
template<class S, class C> void reg_shapes(const char* n, const char* what) {
    std::string name = std::string(n) + "/" + what;
    add(name + "/comparison without const call operator", [](const Vec& v) -> std::string {
        C c; fill(c, v); S{}(c, MutLess{}); return judge(c, v, false); }, quadratic_limit(n));
    add(name + "/projection without const call operator", [](const Vec& v) -> std::string {
        C c; fill(c, v); S{}(c.begin(), c.end(), std::less<>{}, MutProj{}); return judge(c, v, false); }, quadratic_limit(n));
    add(name + "/comparison returning int", [](const Vec& v) -> std::string {
        C c; fill(c, v); S{}(c, IntLess{}); return judge(c, v, false); }, quadratic_limit(n));
}
}
#endif
