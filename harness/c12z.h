// C12: element types with unusual combinations of trivial and non-trivial members (the library chooses algorithms by
// such traits).  A moved-from element holds nothing; comparing one, copying one, or losing one is reported.
#include "elem.h"
#include "adapters_list.h"
namespace vp {
struct ZooLedger { const char* bad = nullptr; void fault(const char* w) { if (!bad) bad = w; } };
inline ZooLedger& zoo() { static ZooLedger z; return z; }
constexpr int HOLE = -999999;
struct ZooBase { int key, id; };
// trivially destructible, but moves leave the source empty
struct TrivialDtor : ZooBase {
    TrivialDtor(int k, int i) : ZooBase{k, i} {}
    TrivialDtor(TrivialDtor&& o) noexcept : ZooBase{o.key, o.id} { o.key = HOLE; o.id = -7; }
    TrivialDtor& operator=(TrivialDtor&& o) noexcept { if (&o != this) { key = o.key; id = o.id; o.key = HOLE; o.id = -7; } return *this; }
};
// trivial move constructor, move assignments leave the source empty
struct TrivialCtor : ZooBase {
    TrivialCtor(int k, int i) : ZooBase{k, i} {}
    TrivialCtor(TrivialCtor&&) = default;
    TrivialCtor& operator=(TrivialCtor&& o) noexcept { if (&o != this) { key = o.key; id = o.id; o.key = HOLE; o.id = -7; } return *this; }
};
// trivial move assignment and destructor, move construction leaves the source empty
struct TrivialAssign : ZooBase {
    TrivialAssign(int k, int i) : ZooBase{k, i} {}
    TrivialAssign(TrivialAssign&& o) noexcept : ZooBase{o.key, o.id} { o.key = HOLE; o.id = -7; }
    TrivialAssign& operator=(TrivialAssign&&) = default;
};
// copyable, but every value is to be moved
struct Copyable : ZooBase {
    Copyable(int k, int i) : ZooBase{k, i} {}
    Copyable(const Copyable& o) : ZooBase{o.key, o.id} { zoo().fault("an element was copied"); }
    Copyable(Copyable&& o) noexcept : ZooBase{o.key, o.id} { o.key = HOLE; o.id = -7; }
    Copyable& operator=(const Copyable& o) { key = o.key; id = o.id; zoo().fault("an element was copied"); return *this; }
    Copyable& operator=(Copyable&& o) noexcept { if (&o != this) { key = o.key; id = o.id; o.key = HOLE; o.id = -7; } return *this; }
    ~Copyable() { id = -9; }
};
// large, with a swap of its own
struct Large : ZooBase {
    int more[40];
    Large(int k, int i) : ZooBase{k, i} { for (int& m : more) m = i; }
    Large(Large&& o) noexcept : ZooBase{o.key, o.id} { for (int j = 0; j < 40; ++j) { more[j] = o.more[j]; o.more[j] = -1; } o.key = HOLE; o.id = -7; }
    Large& operator=(Large&& o) noexcept { if (&o != this) { key = o.key; id = o.id; for (int j = 0; j < 40; ++j) { more[j] = o.more[j]; o.more[j] = -1; } o.key = HOLE; o.id = -7; } return *this; }
    ~Large() {}
    friend void swap(Large& a, Large& b) noexcept {
        std::swap(a.key, b.key); std::swap(a.id, b.id);
        for (int j = 0; j < 40; ++j) std::swap(a.more[j], b.more[j]);
    }
};
// needs an alignment that plain memory does not give
struct alignas(128) Aligned : ZooBase {
    void placed() const { if (reinterpret_cast<std::uintptr_t>(this) % alignof(Aligned)) zoo().fault("an element was placed at an address not fit for its type"); }
    Aligned(int k, int i) : ZooBase{k, i} { placed(); }
    Aligned(Aligned&& o) noexcept : ZooBase{o.key, o.id} { placed(); o.key = HOLE; o.id = -7; }
    Aligned& operator=(Aligned&& o) noexcept { placed(); if (&o != this) { key = o.key; id = o.id; o.key = HOLE; o.id = -7; } return *this; }
};
struct ZooLess { bool operator()(const ZooBase& a, const ZooBase& b) const {
    if (a.key == HOLE || b.key == HOLE) zoo().fault("an element that holds no value was compared");
    return a.key < b.key; } };
struct ZooKey { const int& operator()(const ZooBase& a) const { if (a.key == HOLE) zoo().fault("an element that holds no value was projected"); return a.key; } };
template<class C> struct zoo_fill { static void fill(C& c, const Vec& v) { for (std::size_t i = 0; i < v.n(); ++i) c.emplace_back(v.keys[i], int(i)); } };
template<class T> struct zoo_fill<std::vector<T>> { static void fill(std::vector<T>& c, const Vec& v) { c.reserve(v.n()); for (std::size_t i = 0; i < v.n(); ++i) c.emplace_back(v.keys[i], int(i)); } };
template<class T> struct zoo_fill<std::forward_list<T>> { static void fill(std::forward_list<T>& c, const Vec& v) { for (std::size_t i = v.n(); i-- > 0;) c.emplace_front(v.keys[i], int(i)); } };
template<class C> std::string whole(const C& c) { for (auto& e : c) for (int m : e.more) if (m != e.id) return "part of an element is missing"; return ""; }
template<class S, class C> void reg_zoo(const char* n, const char* what) {
    using T = typename C::value_type;
    constexpr bool stable = cs::is_stable_v<S(C&, ZooLess)>;
    auto check = [](const Vec& v, auto call) -> std::string {
        C c; zoo_fill<C>::fill(c, v);
        zoo().bad = nullptr;
        call(c);
        if (zoo().bad) return zoo().bad;
        if constexpr (std::is_same<T, Large>::value) { auto w = whole(c); if (!w.empty()) return w; }
        return judge(c, v, stable);
    };
    add(std::string(n) + "/" + what + "/cmp", [check](const Vec& v) { return check(v, [](C& c) { S{}(c, ZooLess{}); }); }, quadratic_limit(n));
    if constexpr (std::is_same<T, TrivialDtor>::value)
        add(std::string(n) + "/" + what + "/cmp,proj", [check](const Vec& v) { return check(v, [](C& c) { S{}(c.begin(), c.end(), std::less<>{}, ZooKey{}); }); }, quadratic_limit(n));
}
template<class S> struct zoo_ok : std::true_type {};
template<> struct zoo_ok<wiki_512> : std::false_type {};      // needs a default constructor
template<class S, class C> void reg_zoo_ok(const char* n, const char* what) { if constexpr (zoo_ok<S>::value) reg_zoo<S, C>(n, what); }
}
