// One monitored call of a sorter on tracked elements.
#ifndef VP_TRACKED_RUN_H
#define VP_TRACKED_RUN_H
#include "tracked.h"
#include "alloc.h"
#include "sorters_list.h"
namespace vp {
enum { USE_CMP = 0, USE_PROJ = 1 };
struct Faults { long cmp = 0, proj = 0, move = 0; HeapPlan::Kind hk = HeapPlan::NONE; long hv = 0; };
struct Mode {
    bool keep_on_throw = false;      // the collection is as it was when an exception escapes
    bool untouched = false;          // a probe: the collection is as it was in any case
    bool facts = true;
};
struct Outcome {
    std::string bad;                 // "" when conformant
    bool threw = false, bad_alloc = false;
    long cmps = 0, projs = 0, moves = 0, allocs = 0;
};
template<class C> struct pad_ok { static const int before = 2, after = 2; };
template<class T, class A> struct pad_ok<std::forward_list<T, A>> { static const int before = 1, after = 2; };

template<class C> struct Filler {
    static void put(C& c, int k, int i) { c.emplace_back(k, i); }
};
template<class T, class A> struct Filler<std::forward_list<T, A>> {
    static void put(std::forward_list<T, A>& c, int k, int i) { c.emplace_front(k, i); }   // filled backwards
};
template<class C> void reserve_if(C&, std::size_t) {}
template<class T, class A> void reserve_if(std::vector<T, A>& c, std::size_t n) { c.reserve(n); }
template<class C> struct is_flist : std::false_type {};
template<class T, class A> struct is_flist<std::forward_list<T, A>> : std::true_type {};

// stable: the outcome must be the stable one.  Range: call with the iterable.
template<class C, class Call>
Outcome tracked_call(const Vec& v, bool stable, bool whole, const Faults& f, Call call, const Mode& mode = {}) {
    using T = typename C::value_type;
    Outcome o;
    int n = int(v.n());
    int nb = whole ? 0 : 2, na = whole ? 0 : 2;
    mon.log = tracing() && n <= 16;
    mon.reset(std::size_t(n));
    mon.want_facts = n <= 64 && !mode.untouched && mode.facts;
    if (mon.want_facts) mon.reset(std::size_t(n));
    mon.lines.clear(); mon.ids.clear(); mon.next_id = 1;
    long live0 = mon.live;
    {
        C c;
        reserve_if(c, std::size_t(n + nb + na));
        auto val = [&](int i) {     // i in [-nb, n + na)
            if (i < 0) return std::make_pair((i & 1) ? 1000000 : -1000000, 1000 + n - i);
            if (i >= n) return std::make_pair((i & 1) ? -1000000 : 1000000, 2000 + i);
            return std::make_pair(v.keys[std::size_t(i)], i);
        };
        if (is_flist<C>::value) for (int i = n + na - 1; i >= -nb; --i) { auto p = val(i); Filler<C>::put(c, p.first, p.second); }
        else for (int i = -nb; i < n + na; ++i) { auto p = val(i); Filler<C>::put(c, p.first, p.second); }
        auto first = c.begin(); std::advance(first, nb);
        auto last = first; std::advance(last, n);
        {
            int i = -nb;
            for (auto& e : c) { e.where = (i < 0 || i >= n) ? W_OUTER : W_RANGE; ++i; }
        }
        if (mon.log) {
            mon.ids.clear(); int i = -nb; std::string ks = "[";
            int out = 0;
            for (auto& e : c) {
                if (i >= 0 && i < n) { mon.ids[&e] = i + 1; ks += (i ? "," : "") + std::to_string(e.key); }
                else mon.ids[&e] = -(++out);
                ++i;
            }
            mon.next_id = n + 1;
            mon.lines.push_back("[\"call\"," + ks + "]," + std::to_string(out) + "," + (mode.untouched ? "2" : stable ? "1" : "0") + "]");
        }
        mon.throw_cmp = f.cmp; mon.throw_proj = f.proj; mon.throw_move = f.move;
        heap.start(f.hk, f.hv);
        mon.phase = PH_RUN;
        try {
            call(c, first, last);
            mon.phase = PH_IDLE;
        } catch (const Injected&) {
            o.threw = true; mon.phase = PH_IDLE;
        } catch (const std::bad_alloc&) {
            o.threw = o.bad_alloc = true; mon.phase = PH_IDLE;
        } catch (...) { mon.phase = PH_IDLE; o.threw = true; mon.violation("an exception that nobody threw escaped"); }
        heap.stop();
        o.cmps = mon.cmps; o.projs = mon.projs; o.moves = mon.ctors + mon.assigns; o.allocs = heap.count;
        o.bad = mon.bad;
        auto say = [&](const std::string& m) { if (o.bad.empty()) o.bad = m; };
        if (mon.throws && !o.threw) say("the injected exception did not reach the caller");
        if (mon.throws && o.bad_alloc) say("another exception than the injected one reached the caller");
        if (o.threw && !o.bad_alloc && !mon.throws) say("an exception that nobody threw escaped");
        if (o.bad_alloc && heap.thrown == 0) say("std::bad_alloc escaped although no allocation failed");
        if (heap.live != 0) say("the call leaked " + std::to_string(heap.live) + " heap block(s)");
        long expect_live = live0 + n + nb + na;
        if (mon.live != expect_live) say("object count changed by " + std::to_string(mon.live - expect_live) + " during the call");
        // outcome
        std::vector<int> out; int i = -nb; std::size_t size = 0;
        std::vector<char> seen(std::size_t(n), 0);
        for (auto& e : c) {
            ++size;
            if (e.magic != MAGIC_LIVE) { say("position " + std::to_string(i) + " holds no live object"); }
            else if (i < 0 || i >= n) {
                if (e.key != val(i).first || e.id != val(i).second) say("an element outside of the range changed");
            } else {
                if (mode.untouched) {
                    if (e.id != i) say("the collection changed");
                    out.push_back(e.id);
                } else if (!o.threw) {
                    if (e.id < 0 || e.id >= n) say("position " + std::to_string(i) + " is left without a value");
                    else if (seen[std::size_t(e.id)]++) say("value duplicated");
                    else {
                        if (e.key != v.keys[std::size_t(v.perm[std::size_t(i)])]) say("not sorted at position " + std::to_string(i));
                        if (stable && e.id != v.perm[std::size_t(i)]) say("not stable at position " + std::to_string(i));
                        out.push_back(e.id);
                    }
                } else if (mode.keep_on_throw && e.id != i) say("the collection changed although the sort of iterators threw");
            }
            ++i;
        }
        if (size != std::size_t(n + nb + na)) say("the number of elements changed");
        if (!o.threw && mon.want_facts && int(out.size()) == n) {
            auto ev = mon.ev.judge(out, stable);
            if (!ev.empty()) say(ev);
        }
        if (mon.log) {
            if (o.threw) mon.lines.push_back("[\"escape\"]");
            else {
                std::string s = "[";
                for (std::size_t k = 0; k < out.size(); ++k) s += (k ? "," : "") + std::to_string(out[k] + 1);
                mon.lines.push_back("[\"return\"," + s + "]]");
            }
            for (auto& l : mon.lines) trace_line(l);
        }
    }
    if (mon.live != live0 && o.bad.empty()) o.bad = "objects leaked";
    if (!mon.bad.empty() && o.bad.empty()) o.bad = mon.bad;
    mon.live = live0;
    return o;
}
} // namespace vp
#endif
