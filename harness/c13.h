// C13: container-aware sorts relink the nodes of lists; dispatch to the dedicated functions of a container.
#ifndef VP_C13_H
#define VP_C13_H
#include "c11.h"
#include <forward_list>
#include <list>
#include <map>
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters.h>
namespace vp {
// ---- nodes which stay where they are
struct Item {
    static constexpr int LIVE = 0x5a17e;
    int k, other, id, magic = LIVE; Item* self = this;
    static long alive, made;
    Item(int k_, int o, int i) : k(k_), other(o), id(i) { ++alive; ++made; }
    Item(const Item&) = delete; Item& operator=(const Item&) = delete;
    ~Item() { magic = 0; self = nullptr; --alive; }
    int flip() const { return other; }
    friend bool operator<(const Item& a, const Item& b); friend bool operator>(const Item& a, const Item& b) { return b < a; }
};
// (moving one is noticed)
struct MItem : Item { using Item::Item; MItem(MItem&& o) : Item(o.k, o.other, o.id) {} MItem& operator=(MItem&& o) { k = o.k; other = o.other; id = o.id; ++made; return *this; } };
struct Stop {};
struct Watch { long calls = 0, throw_at = 0; bool stray = false; void look(const Item& x) { if (x.magic != Item::LIVE || x.self != &x) stray = true; } void tick() { if (++calls == throw_at) throw Stop(); } };
extern Watch watch;
inline bool operator<(const Item& a, const Item& b) { watch.look(a); watch.look(b); watch.tick(); return a.k < b.k; }
struct Down { template<class T> bool operator()(const T& a, const T& b) const { return b < a; } };
struct WLess { bool operator()(int a, int b) const { watch.tick(); return a < b; } };
struct WDown { bool operator()(int a, int b) const { watch.tick(); return b < a; } };
struct ByOther { const int& operator()(const Item& x) const { watch.look(x); watch.tick(); return x.other; } };
struct NegOther { int operator()(const Item& x) const { watch.look(x); watch.tick(); return -x.other; } };
// an allocator with a state: memory goes back to where it comes from
struct Heap { long blocks = 0; bool wrong = false; };
template<class T> struct Arena {
    using value_type = T; Heap* h;
    using propagate_on_container_copy_assignment = std::false_type; using propagate_on_container_move_assignment = std::false_type; using is_always_equal = std::false_type;
    explicit Arena(Heap* x) : h(x) {} template<class U> Arena(const Arena<U>& o) : h(o.h) {}
    T* allocate(std::size_t n) { ++h->blocks; auto p = static_cast<std::max_align_t*>(::operator new(sizeof(T) * n + sizeof(std::max_align_t) * 2)); std::memcpy(p, &h, sizeof h); return reinterpret_cast<T*>(p + 2); }
    void deallocate(T* t, std::size_t) { auto p = reinterpret_cast<std::max_align_t*>(t) - 2; Heap* o; std::memcpy(&o, p, sizeof o); --o->blocks; if (o != h) o->wrong = h->wrong = true; ::operator delete(p); }
    template<class U> bool operator==(const Arena<U>& o) const { return h == o.h; } template<class U> bool operator!=(const Arena<U>& o) const { return h != o.h; }
};
enum Form { RANGE, RANGE_CMP, RANGE_PROJ, RANGE_CMP_PROJ, RANGE_MEMBER, FORMS };
inline const char* const form_names[] = {"(list)", "(list, greater)", "(list, projection)", "(list, greater, projection to a value)", "(list, less, pointer to member)"};
template<class S, class L> void ca_call(int form, L& l) {
    const cs::container_aware_adapter<S> s{};
    switch (form) { case RANGE: s(l); break; case RANGE_CMP: s(l, Down{}); break; case RANGE_PROJ: s(l, ByOther{}); break; case RANGE_CMP_PROJ: s(l, WDown{}, NegOther{}); break; default: s(l, WLess{}, &Item::other); }
}
template<class T, class A> bool mirrored(const std::list<T, A>& l) { std::vector<const T*> f, b; for (auto& x : l) f.push_back(&x); for (auto i = l.rbegin(); i != l.rend(); ++i) b.push_back(&*i); std::reverse(b.begin(), b.end()); return f == b && f.size() == l.size(); }
template<class T, class A> bool mirrored(const std::forward_list<T, A>&) { return true; }
template<class S, class L> std::string list_once(const Vec& v, int form, bool stable, long throw_at, long* calls) {
    std::size_t n = v.n(); Heap heap; std::vector<Item*> node(n); std::string bad;
    bool neg = form == RANGE_CMP, other = form >= RANGE_PROJ;
    long before = Item::alive;
    {
        L l = [&] { if constexpr (std::is_constructible_v<L, typename L::allocator_type>) { if constexpr (std::is_constructible_v<typename L::allocator_type, Heap*>) return L(typename L::allocator_type(&heap)); else return L(); } else return L(); }();
        using It = typename L::iterator; std::vector<It> its(n);
        for (std::size_t j = n; j-- > 0;) {
            int k = neg ? -v.keys[j] : v.keys[j], dud = v.keys[(j * 7 + 1) % n] * 2 - v.keys[(j + 1) % n];
            l.emplace_front(other ? dud : k, other ? k : dud, int(j)); its[j] = l.begin(); node[j] = &l.front();
        }
        long made = Item::made, blocks = heap.blocks; watch = Watch{}; watch.throw_at = throw_at; bool threw = false;
        try { ca_call<S>(form, l); } catch (Stop&) { threw = true; }
        if (calls) *calls = watch.calls;
        if (threw != (throw_at != 0)) bad = "nothing was thrown to the caller";
        if (bad.empty() && watch.stray) bad = "a comparison or a projection received something else than an element in its node";
        if (bad.empty() && Item::made != made) bad = "elements were made";
        std::size_t i = 0; std::vector<char> seen(n, 0);
        for (auto p = l.begin(); bad.empty() && p != l.end(); ++p, ++i) {
            const Item& x = *p;
            if (i >= n) { bad = "more nodes than before"; break; }
            if (x.magic != Item::LIVE || x.id < 0 || std::size_t(x.id) >= n) { bad = "position " + std::to_string(i) + " holds no original element"; break; }
            std::size_t id = std::size_t(x.id);
            if (&x != node[id]) bad = "element " + std::to_string(id) + " is not in its node any more";
            else if (its[id] != p) bad = "the iterator to element " + std::to_string(id) + " does not designate it any more";
            else if (seen[id]) bad = "element " + std::to_string(id) + " is there twice";
            else if ((neg ? -x.k : other ? x.other : x.k) != v.keys[id]) bad = "element " + std::to_string(id) + " changed value";
            else if (!threw && v.keys[id] != v.keys[std::size_t(v.perm[i])]) bad = "not sorted at position " + std::to_string(i);
            else if (!threw && stable && int(id) != v.perm[i]) bad = "not stable: position " + std::to_string(i) + " holds element " + std::to_string(id) + ", specification says " + std::to_string(v.perm[i]);
            seen[id] = 1;
        }
        if (bad.empty() && !threw && i != n) bad = "nodes got lost";
        if (bad.empty() && Item::alive - before != long(i)) bad = "nodes are neither in the list nor destroyed";
        if (bad.empty() && !threw && heap.blocks != blocks) bad = "memory of the allocator was taken or given back";
        if (bad.empty() && !mirrored(l)) bad = "the list reads differently backwards";
    }
    if (bad.empty() && heap.wrong) bad = "a node was given to the allocator of another list";
    if (bad.empty() && (heap.blocks || Item::alive != before)) bad = "nodes leak";
    return bad;
}
std::vector<long> throw_points(long n);
template<class S, class L> void reg_list(const std::string& name, bool stable) {
    add("relink/" + name, [stable](const Vec& v) -> std::string {
        if (v.n() == 0) { L* p = nullptr; (void)p; }
        for (int f = 0; f < FORMS; ++f) if (auto b = list_once<S, L>(v, f, stable, 0, nullptr); !b.empty()) return std::string(form_names[f]) + ": " + b;
        return ""; });
    add("abort/" + name, [stable](const Vec& v) -> std::string {
        if (v.n() > 40) return "skip";
        for (int f = 0; f < FORMS; ++f) {
            long calls = 0; if (auto b = list_once<S, L>(v, f, stable, 0, &calls); !b.empty()) return "without a throw: " + b;
            for (long k : throw_points(calls)) if (auto b = list_once<S, L>(v, f, stable, k, nullptr); !b.empty()) return std::string(form_names[f]) + ", call " + std::to_string(k) + " of " + std::to_string(calls) + " throws: " + b;
        }
        return ""; });
    using CA = cs::container_aware_adapter<S>;
    bool claims[5] = {cs::is_stable<CA(L&)>::value, cs::is_stable<CA(L&, Down)>::value, cs::is_stable<CA(L&, ByOther)>::value, cs::is_stable<CA(L&, WDown, NegOther)>::value, cs::is_stable<CA(L&, WLess, int Item::*)>::value};
    // whatever claims to be stable must be
    for (int f = 0; f < FORMS; ++f) add("claimed stability/" + name + " " + form_names[f], [f, claim = claims[f]](const Vec& v) -> std::string { return claim ? list_once<S, L>(v, f, true, 0, nullptr) : "skip"; });
}
// when there is nothing dedicated the adapted sorter runs: other collections, pairs of iterators
template<class S, class C> void reg_plain(const std::string& name, bool stable) {
    add("plain/" + name, [stable](const Vec& v) -> std::string {
        const cs::container_aware_adapter<S> s{}; std::string bad;
        auto go = [&](const char* form, bool neg, auto f) { if (!bad.empty()) return; C c; fill(c, v, neg); f(c); bad = judge(c, v, stable, neg); if (!bad.empty()) bad = std::string(form) + ": " + bad; };
        auto less = [](const Q& a, const Q& b) { return a.key < b.key; }; auto down = [](int a, int b) { return b < a; };
        if constexpr (!std::is_same_v<C, std::list<Q>> && !std::is_same_v<C, std::forward_list<Q>>) {
            go("(collection, comparison)", false, [&](C& c) { s(c, less); }); go("(collection, projection)", false, [&](C& c) { s(c, &Q::key); });
            go("(collection, comparison, projection)", true, [&](C& c) { s(c, down, &Q::key); });
        }
        go("(first, last, comparison)", false, [&](C& c) { s(c.begin(), c.end(), less); }); go("(first, last, projection)", false, [&](C& c) { s(c.begin(), c.end(), &Q::key); });
        go("(first, last, comparison, projection)", true, [&](C& c) { s(c.begin(), c.end(), down, &Q::key); });
        go("iterators that are lvalues", true, [&](C& c) { auto f = c.begin(); const auto l = c.end(); s(f, l, down, &Q::key); auto g = c.begin(); s(g, l, down, &Q::key); });
        return bad; });
}
} // namespace vp
// ---- containers with dedicated functions
namespace vpbag {
using vp::E; using vp::Rec; using vp::None; namespace cs = cppsort; namespace cu = cppsort::utility;
template<int H> struct Bag : std::vector<E> { using std::vector<E>::vector; };
struct Under_impl : vp::impl<240, false> { using is_always_stable = std::true_type; using iterator_category = std::forward_iterator_tag; };
struct Under : cs::sorter_facade<Under_impl> {};
#define VP_HOOK(b, ...) std::enable_if_t<((H & b) != 0) __VA_ARGS__
template<int H, VP_HOOK(1), int> = 0> Rec sort(Under, Bag<H>& r) { return vp::record_range(1, 99, r, false, None{}, None{}); }
template<int H, class C, VP_HOOK(2, && cs::is_projection_v<cu::identity, Bag<H>, C>), int> = 0> Rec sort(Under, Bag<H>& r, C c) { return vp::record_range(2, 99, r, false, c, None{}); }
template<int H, class P, VP_HOOK(4, && cs::is_projection_v<P, Bag<H>>), int*> = nullptr> Rec sort(Under, Bag<H>& r, P p) { return vp::record_range(4, 99, r, false, None{}, p); }
template<int H, class C, class P, VP_HOOK(8, && cs::is_projection_v<P, Bag<H>, C>), int> = 0> Rec sort(Under, Bag<H>& r, C c, P p) { return vp::record_range(8, 99, r, false, c, p); }
}
namespace vp {
struct HookSeen { Rec r; bool claims = false; const std::type_info *c = nullptr, *p = nullptr; int ctag = -1, ptag = -1; const void* range = nullptr; bool fptr = true; };
template<int H, int CM, int PM, int CS, int PS> HookSeen hook_call() {
    using CA = cs::container_aware_adapter<vpbag::Under>; using Bg = vpbag::Bag<H>;
    const CA s{}; HookSeen o; static Bg bag; bag.assign(sample.begin(), sample.end()); o.range = &bag;
    auto c = cmp_arg<CM, CS>(21); auto p = prj_arg<PM, PS>(42);
    if (CM != NONE) { o.c = &typeid(decltype(c)); o.ctag = tag_of(c, 0); }
    if (PM != NONE) { o.p = &typeid(decltype(p)); o.ptag = tag_of(p, 0); }
    with_args([&](auto... a) {
        o.r = s(bag, a...); o.claims = cs::is_stable<CA(Bg&, decltype(a)...)>::value;
        Rec (*f)(Bg&, decltype(a)...) = s; Rec q = f(bag, a...); o.fptr = q.bit == o.r.bit && q.self == o.r.self && q.table == o.r.table;
    }, c, p);
    return o;
}
using HookFn = HookSeen (*)();
void reg_hooks(int h, int cs, int ps, std::array<HookFn, 9> t);
template<int H, int CS, int PS> void hooks() {
    reg_hooks(H, CS, PS, {&hook_call<H, 0, 0, CS, PS>, &hook_call<H, 0, 1, CS, PS>, &hook_call<H, 0, 2, CS, PS>, &hook_call<H, 1, 0, CS, PS>, &hook_call<H, 1, 1, CS, PS>, &hook_call<H, 1, 2, CS, PS>, &hook_call<H, 2, 0, CS, PS>, &hook_call<H, 2, 1, CS, PS>, &hook_call<H, 2, 2, CS, PS>});
}
} // namespace vp
#endif
