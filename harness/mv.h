// An element that remembers who moved: moves and exchanges are counted per original element, and
// recorded with the slot they go from and to (collection positions 1..n, temporaries negative).
#ifndef VP_MV_H
#define VP_MV_H
#include "vp.h"
#include <deque>
#include <forward_list>
#include <list>
#include <unordered_map>
namespace vp {
struct Ledger {
    std::vector<int> moves, swaps, out, in;             // per original element; out of / into the collection
    std::unordered_map<const void*, int> slot; int temps = 0;
    long long copies = 0, overwrites = 0;
    bool on = false;
    void start(std::size_t n) { moves.assign(n, 0); swaps.assign(n, 0); out.assign(n, 0); in.assign(n, 0); slot.clear(); temps = 0; copies = overwrites = 0; on = false; }
    int where(const void* p) { auto it = slot.find(p); if (it != slot.end()) return it->second; return slot[p] = -(++temps); }
};
inline Ledger& ledger() { static Ledger l; return l; }
struct Mv {
    int key, id;
    static constexpr int none = -1;
    Mv() : key(0), id(none) {}
    Mv(int k, int i) : key(k), id(i) {}
    Mv(const Mv& o) : key(o.key), id(o.id) { ++ledger().copies; }
    Mv& operator=(const Mv& o) { key = o.key; id = o.id; ++ledger().copies; return *this; }
    Mv(Mv&& o) noexcept : key(o.key), id(o.id) { took(o); }
    Mv& operator=(Mv&& o) noexcept { if (this == &o) return *this; if (ledger().on && id != none) ++ledger().overwrites; key = o.key; id = o.id; took(o); return *this; }
    ~Mv() { if (ledger().on && id == none) {} }
    void took(Mv& o) noexcept {
        auto& l = ledger();
        if (!l.on) return;
        if (o.id == none) { ++l.overwrites; return; }    // moved from an object holding no value
        o.id = none;
        ++l.moves[std::size_t(id)];
        int a = l.where(&o), b = l.where(this);
        if (a > 0 && b < 0) ++l.out[std::size_t(id)];
        if (b > 0 && a < 0) ++l.in[std::size_t(id)];
        if (tracing()) trace_line("[\"move\"," + std::to_string(a) + "," + std::to_string(b) + "]");
    }
    friend void swap(Mv& a, Mv& b) noexcept {
        std::swap(a.key, b.key); std::swap(a.id, b.id);
        auto& l = ledger();
        if (!l.on || &a == &b) return;
        if (a.id != none) ++l.swaps[std::size_t(a.id)];
        if (tracing()) trace_line("[\"swap\"," + std::to_string(l.where(&a)) + "," + std::to_string(l.where(&b)) + "]");
    }
};
struct MvLess { bool operator()(const Mv& a, const Mv& b) const { return a.key < b.key; } };
struct MvKey { int operator()(const Mv& a) const { return a.key; } };
template<class C> void load(C& c, const Vec& v) {
    ledger().start(v.n());
    c.clear();
    std::vector<std::pair<int, int>> t;
    if constexpr (std::is_same<C, std::forward_list<Mv>>::value) { auto it = c.before_begin(); for (std::size_t i = 0; i < v.n(); ++i) it = c.emplace_after(it, v.keys[i], int(i)); }
    else for (std::size_t i = 0; i < v.n(); ++i) c.emplace_back(v.keys[i], int(i));
    int k = 0;
    ledger().start(v.n());
    for (auto& e : c) ledger().slot[&e] = ++k;
    ledger().on = true;
}
template<class C> std::string ids_of(const C& c) { std::string s; for (auto& e : c) s += (s.empty() ? "" : ",") + std::to_string(e.id + 1); return "[" + s + "]"; }
inline std::string list_of(const std::vector<int>& k, int plus = 0) { std::string s; for (int x : k) s += (s.empty() ? "" : ",") + std::to_string(x + plus); return "[" + s + "]"; }
template<class C> void begin_trace(const C&, const Vec& v, int mode) { if (tracing()) trace_line("[\"call\"," + list_of(v.keys) + "," + std::to_string(mode) + "]"); }
template<class C> void end_trace(const C& c) { if (tracing()) trace_line("[\"return\"," + ids_of(c) + "]"); ledger().on = false; }
}
#endif
