// C17: buffered sorters (spec/Buffered.tla, GenBuffers.tla, Providers.tla).
#ifndef VP_C17_H
#define VP_C17_H
#include "elem.h"
#include <new>
#include <unordered_map>
#include <cpp-sort/sorters/block_sorter.h>
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>
namespace vp {
namespace cs = ::cppsort;
namespace cu = ::cppsort::utility;
template<class B> using grail_of = cs::grail_sorter<B>;
template<class B> using wiki_of = cs::wiki_sorter<B>;
template<class B> using block_of = cs::block_sorter<B>;

// ------------------------------------------------------------ what a run is given and what it did
struct Watch {
    std::size_t n = 0, size = 0; bool fail = false; long long made = 0, used = 0; std::string wrong;
    void start(std::size_t n_, std::size_t s, bool f = false) { n = n_; size = s; fail = f; made = used = 0; wrong.clear(); }
    void bad(const std::string& w) { if (wrong.empty()) wrong = w; }
};
inline Watch watch;
struct Given { std::size_t operator()(std::size_t n) const { if (n != watch.n) watch.bad("the size policy received " + std::to_string(n) + " for a collection of " + std::to_string(watch.n)); ++watch.made; return watch.size; } };
struct GivenFloat { double operator()(std::size_t) const { return double(watch.size) + 0.75; } };
struct Same { std::size_t operator()(std::size_t n) const { return n; } };
struct Twice { int operator()(std::size_t n) const { return int(2 * n); } };
struct Conv { struct R { std::size_t v; operator std::size_t() const { return v; } }; R operator()(std::size_t n) const { return {n / 3}; } };

// ------------------------------------------------------------ elements that know whether they are there
struct H {
    int key = -1, id = -1; bool live = false;
    H() {}
    H(int k, int i): key(k), id(i), live(true) {}
    H(H&& o) noexcept: key(o.key), id(o.id), live(o.live) { if (!o.live) watch.bad("an element was moved from a cell that holds none"); o.live = false; o.id = -7; }
    H& operator=(H&& o) noexcept {
        if (this == &o) return *this;
        if (!o.live) watch.bad("an element was moved from a cell that holds none");
        if (live) watch.bad("an element was overwritten");
        key = o.key; id = o.id; live = o.live; o.live = false; o.id = -7; return *this; }
};
struct HLess { bool operator()(const H& a, const H& b) const { if (!a.live || !b.live) watch.bad("a cell that holds no element was compared"); return a.key < b.key; } };
struct HKey { const H& operator()(const H& a) const { if (!a.live) watch.bad("a cell that holds no element was projected"); return a; } };
struct PKey { int operator()(const P& p) const { return -p.key; } };

// ------------------------------------------------------------ an instrumented provider
template<class T> struct Cell {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
    T* b = nullptr; difference_type i = 0, n = 0;
    T& at(difference_type k) const {
        static T nowhere{};
        if (k < 0 || k >= n) { watch.bad("cell " + std::to_string(k) + " of a buffer of " + std::to_string(n)); return nowhere; }
        ++watch.used; return b[k]; }
    T& operator*() const { return at(i); } T* operator->() const { return &at(i); } T& operator[](difference_type k) const { return at(i + k); }
    Cell& operator++() { ++i; return *this; } Cell operator++(int) { auto t = *this; ++i; return t; }
    Cell& operator--() { --i; return *this; } Cell operator--(int) { auto t = *this; --i; return t; }
    Cell& operator+=(difference_type k) { i += k; return *this; } Cell& operator-=(difference_type k) { i -= k; return *this; }
    friend Cell operator+(Cell a, difference_type k) { return a += k; } friend Cell operator+(difference_type k, Cell a) { return a += k; } friend Cell operator-(Cell a, difference_type k) { return a -= k; }
    friend difference_type operator-(const Cell& a, const Cell& b) { return a.i - b.i; }
    friend bool operator==(const Cell& a, const Cell& b) { return a.i == b.i; } friend bool operator!=(const Cell& a, const Cell& b) { return a.i != b.i; }
    friend bool operator<(const Cell& a, const Cell& b) { return a.i < b.i; } friend bool operator>(const Cell& a, const Cell& b) { return a.i > b.i; }
    friend bool operator<=(const Cell& a, const Cell& b) { return a.i <= b.i; } friend bool operator>=(const Cell& a, const Cell& b) { return a.i >= b.i; }
};
struct probe_provider {
    template<class T> class buffer {
        std::size_t s; std::unique_ptr<T[]> m;
    public:
        explicit buffer(std::size_t asked): s(watch.size), m(nullptr) {
            if (asked != watch.n) watch.bad("a buffer was asked for with " + std::to_string(asked) + " for a collection of " + std::to_string(watch.n));
            ++watch.made;
            if (watch.fail) throw std::bad_alloc();
            m.reset(s ? new T[s]() : nullptr);
        }
        buffer(const buffer&) = delete; buffer& operator=(const buffer&) = delete;
        std::size_t size() const { return s; }
        Cell<T> begin() { return {m.get(), 0, std::ptrdiff_t(s)}; } Cell<T> end() { return {m.get(), std::ptrdiff_t(s), std::ptrdiff_t(s)}; }
        Cell<const T> begin() const { return {m.get(), 0, std::ptrdiff_t(s)}; } Cell<const T> end() const { return {m.get(), std::ptrdiff_t(s), std::ptrdiff_t(s)}; }
        Cell<const T> cbegin() const { return begin(); } Cell<const T> cend() const { return end(); }
        Cell<T> data() { return begin(); }
        T& operator[](std::size_t i) { return begin()[std::ptrdiff_t(i)]; }
    };
};
// a provider that gives plain memory of the requested size followed and preceded by guards
struct guard_provider {
    template<class T> class buffer {
        std::size_t s; std::vector<T> m;
    public:
        explicit buffer(std::size_t): s(watch.size), m(watch.size + 16, T{-77, -77}) { for (std::size_t i = 8; i < 8 + s; ++i) m[i] = T{-5, -5}; }
        ~buffer() { for (std::size_t i = 0; i < m.size(); ++i) if ((i < 8 || i >= 8 + s) && (m[i].id != -77 || m[i].key != -77)) watch.bad("memory outside of the buffer was written"); }
        std::size_t size() const { return s; }
        T* begin() { return m.data() + 8; } T* end() { return begin() + s; } const T* cbegin() const { return m.data() + 8; } const T* cend() const { return cbegin() + s; } T* data() { return begin(); }
    };
};
inline std::vector<std::size_t> sizes_of(const Vec& v) { std::vector<std::size_t> r; for (auto& x : v.raw[3].a) r.push_back(std::size_t(x.i)); return r; }
inline bool fact(const Vec& v) { return v.raw[0].k == J::STR; }
inline std::string with(std::size_t s, const std::string& w) { return w.empty() ? w : "with a buffer of " + std::to_string(s) + ": " + w; }

template<class S, class C, class F> std::string over_sizes(const Vec& v, F call) {
    for (std::size_t s : sizes_of(v)) {
        using T = typename C::value_type;
        C c; for (std::size_t i = 0; i < v.n(); ++i) c.push_back(T{v.keys[i], int(i)});
        watch.start(v.n(), s);
        call(S{}, c);
        ++counter[1]; if (watch.used) ++counter[2];
        auto r = judge(c, v, true);
        if (r.empty()) r = watch.wrong;
        if (!r.empty()) return with(s, r);
    }
    return "";
}
template<template<class> class S> void reg_sized(const std::string& nm) {
    add("cells/" + nm, [](const Vec& v) -> std::string { if (fact(v)) return "skip"; return over_sizes<S<probe_provider>, std::vector<H>>(v, [](auto s, auto& c) { s(c, HLess{}); }); });
    add("cells, projected/" + nm, [](const Vec& v) -> std::string { if (fact(v)) return "skip"; return over_sizes<S<probe_provider>, std::deque<H>>(v, [](auto s, auto& c) { s(c.begin(), c.end(), HLess{}, HKey{}); }); });
    add("guards/" + nm, [](const Vec& v) -> std::string { if (fact(v)) return "skip"; return over_sizes<S<guard_provider>, std::vector<P>>(v, [](auto s, auto& c) { s(c, std::greater<>{}, PKey{}); }); });
    add("guards, class/" + nm, [](const Vec& v) -> std::string { if (fact(v)) return "skip"; return over_sizes<S<guard_provider>, std::vector<Q>>(v, [](auto s, auto& c) { s(c, &Q::key); }); });
    add("failing/" + nm, [](const Vec& v) -> std::string {
        if (fact(v)) return "skip";
        std::vector<H> c; for (std::size_t i = 0; i < v.n(); ++i) c.push_back(H{v.keys[i], int(i)});
        watch.start(v.n(), 7, true);
        bool thrown = false;
        try { S<probe_provider>{}(c, HLess{}); } catch (const std::bad_alloc&) { thrown = true; }
        if (!watch.wrong.empty()) return "with a buffer that cannot be had: " + watch.wrong;
        if (!thrown) return with(0, judge(c, v, true));
        if (!watch.made) return "std::bad_alloc from nowhere";
        return "";
    });
}
template<template<class> class S> void reg_dynamic(const std::string& nm) {
    using D = cu::dynamic_buffer<Given>; using F = cu::dynamic_buffer<GivenFloat>;
    add("dynamic_buffer/" + nm, [](const Vec& v) -> std::string { if (fact(v)) return "skip"; return over_sizes<S<D>, std::vector<P>>(v, [](auto s, auto& c) { s(c, &P::key); }); });
    add("dynamic_buffer, class/" + nm, [](const Vec& v) -> std::string { if (fact(v)) return "skip"; return over_sizes<S<F>, std::deque<Q>>(v, [](auto s, auto& c) { s(c, std::greater<>{}, NegProj{}); }); });
}
template<class S, class T> void reg_provider(const std::string& nm) {
    add("provider " + nm, [](const Vec& v) -> std::string {
        if (fact(v)) return "skip";
        std::vector<T> c; for (std::size_t i = 0; i < v.n(); ++i) c.push_back(T{v.keys[i], int(i)});
        watch.start(v.n(), 0);
        if (v.n() % 2) S{}(c, &T::key); else S{}(c.begin(), c.end(), std::less<>{}, &T::key);
        ++counter[1];
        return judge(c, v, true);
    });
}

// the default grail_sorter is documented to work with types without a default constructor
struct NoDefault { int key, id; NoDefault() = delete; NoDefault(int k, int i): key(k), id(i) {} };

// ------------------------------------------------------------ the providers themselves
struct Counted { static inline long long born = 0, alive = 0; int v = 0; Counted() { ++born; ++alive; } ~Counted() { --alive; } Counted(const Counted&) = delete; };
template<class B> std::string buffer_facts(B& b, std::size_t want) {
    const B& c = b;
    if (std::size_t(b.size()) != want || std::size_t(c.size()) != want) return "size() is " + std::to_string(b.size()) + ", documented " + std::to_string(want);
    if (std::size_t(b.end() - b.begin()) != want) return "end() - begin() is not size()";
    if (std::size_t(b.cend() - b.cbegin()) != want || std::size_t(c.end() - c.begin()) != want || std::size_t(c.cend() - c.cbegin()) != want) return "cend() - cbegin() is not size()";
    if (b.begin() != b.cbegin() || b.end() != b.cend() || c.begin() != c.cbegin() || c.end() != c.cend() || c.begin() != b.begin()) return "begin() and cbegin() or end() and cend() differ";
    for (std::size_t i : {std::size_t(0), want / 2, want - 1}) if (i < want) { if (&b[i] != &*(b.begin() + std::ptrdiff_t(i)) || &c[i] != &b[i]) return "operator[] is not an element of the buffer"; }
    return "";
}
template<class Pol> std::string dynamic_facts(std::size_t n, std::size_t want) {
    std::string r;
    Counted::born = 0; Counted::alive = 0;
    {
        typename cu::dynamic_buffer<Pol>::template buffer<Counted> b(n);
        r = buffer_facts(b, want);
        if (r.empty() && std::size_t(Counted::born) != want) r = std::to_string(Counted::born) + " elements were created, documented " + std::to_string(want);
        if (want) { b[0].v = 1; b[want - 1].v = 2; }
    }
    if (r.empty() && Counted::alive != 0) r = "elements outlive their buffer";
    return r.empty() ? r : "for " + std::to_string(n) + ": " + r;
}
template<std::size_t N> std::string fixed_facts(std::size_t n) {
    Counted::born = Counted::alive = 0;
    std::string r;
    { typename cu::fixed_buffer<N>::template buffer<Counted> b(n); r = buffer_facts(b, N); if (r.empty() && Counted::alive != (long long)N) r = "wrong number of elements"; }
    { typename cu::fixed_buffer<N>::template buffer<int> b; if (r.empty()) r = buffer_facts(b, N); }
    if (r.empty() && Counted::alive != 0) r = "elements outlive their buffer";
    return r.empty() ? r : "fixed_buffer<" + std::to_string(N) + ">: " + r;
}
template<class F> void reg_fact(const std::string& nm, F f) {
    add("fact/" + nm, [f](const Vec& v) -> std::string {
        if (!fact(v)) return "skip";
        return f(std::size_t(v.raw[1].i), std::size_t(v.raw[2].i), std::size_t(v.raw[3].i), std::size_t(v.raw[4].i)); });
}

// ------------------------------------------------------------ recorded executions
namespace rec {
    inline std::size_t n = 0, next = 0; inline const void* base = nullptr; inline std::size_t width = 0; inline bool on = false;
    inline std::unordered_map<const void*, long long> place;
    inline void ev(const std::string& s) { if (on) trace_line(s); }
    inline long long at(const void* p) { auto i = place.find(p); return i == place.end() ? -1 : i->second; }
    inline std::string num(long long x) { return std::to_string(x); }
}
struct TE {
    int key = -1, id = -1;
    TE() {}
    TE(int k, int i): key(k), id(i) {}
    TE(TE&& o): key(o.key), id(o.id) {
        if (!rec::on) return;
        long long p = (long long)++rec::next; rec::place[this] = p;
        rec::ev("[\"new\"," + rec::num(rec::at(&o)) + "," + rec::num(p) + "]"); }
    TE& operator=(TE&& o) {
        key = o.key; id = o.id;
        if (rec::on) rec::ev("[\"assign\"," + rec::num(rec::at(&o)) + "," + rec::num(rec::at(this)) + "]");
        return *this; }
    ~TE() {
        if (!rec::on) return;
        auto i = rec::place.find(this);
        if (i == rec::place.end()) return;
        rec::ev("[\"gone\"," + rec::num(i->second) + ",1]"); rec::place.erase(i); }
};
struct TLess { bool operator()(const TE& a, const TE& b) const {
    bool r = a.key < b.key;
    if (rec::on) rec::ev("[\"cmp\"," + rec::num(rec::at(&a)) + "," + rec::num(rec::at(&b)) + "," + (r ? "1" : "0") + "]");
    return r; } };
struct traced_provider {
    template<class T> class buffer {
        std::size_t s; T* m; long long b;
    public:
        explicit buffer(std::size_t asked): s(watch.size), m(nullptr), b((long long)rec::next + 1) {
            rec::next += s + 1;
            bool was = rec::on; rec::on = false;
            m = new T[s + 1];
            rec::on = was;
            for (std::size_t i = 0; i < s; ++i) rec::place[&m[i]] = b + (long long)i;
            rec::ev("[\"buffer\"," + rec::num((long long)asked) + "," + rec::num(b) + "," + rec::num((long long)s) + "]"); }
        ~buffer() {
            rec::ev("[\"gone\"," + rec::num(b) + "," + rec::num((long long)s) + "]");
            for (std::size_t i = 0; i < s; ++i) rec::place.erase(&m[i]);
            bool was = rec::on; rec::on = false;
            delete[] m;
            rec::on = was; }
        buffer(const buffer&) = delete; buffer& operator=(const buffer&) = delete;
        std::size_t size() const { return s; }
        T* begin() { return m; } T* end() { return m + s; } const T* cbegin() const { return m; } const T* cend() const { return m + s; } T* data() { return m; }
    };
};
template<template<class> class S> void reg_traced(const std::string& nm) {
    add("trace/" + nm, [](const Vec& v) -> std::string {
        if (fact(v) || !tracing()) return "skip";
        for (std::size_t s : sizes_of(v)) {
            rec::on = false;
            std::vector<TE> c(v.n());
            for (std::size_t i = 0; i < v.n(); ++i) { c[i].key = v.keys[i]; c[i].id = int(i); }
            watch.start(v.n(), s);
            rec::place.clear(); rec::next = v.n();
            for (std::size_t i = 0; i < v.n(); ++i) rec::place[&c[i]] = (long long)i + 1;
            std::string k;
            for (std::size_t i = 0; i < v.n(); ++i) k += (i ? "," : "") + std::to_string(v.keys[i]);
            rec::on = true;
            rec::ev("[\"call\",[" + k + "]," + rec::num((long long)s) + "]");
            S<traced_provider>{}(c, TLess{});
            k.clear();
            for (std::size_t i = 0; i < v.n(); ++i) k += (i ? "," : "") + std::to_string(c[i].id + 1);
            rec::ev("[\"return\",[" + k + "]]");
            rec::on = false;
        }
        return "";
    });
}
} // namespace vp
#endif
