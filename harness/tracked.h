// Elements whose every construction, move, comparison, projection and
// destruction is an event of the specification (SortCall.tla).  Each event is
// checked against the object life table emitted by TLC (ObjLife.tla), and,
// when a trace is recorded, written down for TLC to validate (TraceSortCall).
#ifndef VP_TRACKED_H
#define VP_TRACKED_H
#include "vp.h"
#include "evidence.h"
#include "alloc.h"
#include <new>
#include <unordered_map>
namespace vp {
enum Where : unsigned char { W_RANGE = 0, W_OUTER = 1, W_TEMP = 2 };
enum OState : unsigned char { S_ABSENT = 0, S_HOLE = 1, S_FULL = 2 };
enum Op : unsigned char { O_CTOR = 0, O_DEFCTOR, O_ASSIGN, O_SRC, O_CMP, O_PROJ, O_DESTROY, O_SELF, N_OPS };
enum Phase : unsigned char { PH_IDLE = 0, PH_RUN = 1, PH_UNW = 2 };

struct Quiet { bool a; Quiet() : a(heap.active) { heap.active = false; } ~Quiet() { heap.active = a; } };
struct Injected { int what; };          // the exception thrown by injected faults

struct Monitor {
    // allowed[phase-1][where][state][op], from the specification
    signed char table[2][3][3][N_OPS];
    bool loaded = false;
    Phase phase = PH_IDLE;
    std::string bad;                    // first disallowed event
    long cmps = 0, projs = 0, ctors = 0, assigns = 0, live = 0, allocs = 0, blocks = 0;
    // fault plan: throw at the k-th event of a kind (counted from 1)
    long throw_cmp = 0, throw_proj = 0, throw_move = 0;
    long throws = 0;
    bool unwinds_bad_alloc = false; long lost = 0;
    // evidence: pairs of values known to be in order
    bool want_facts = false;
    Evidence ev;
    // trace
    bool log = false;
    std::vector<std::string> lines;
    std::unordered_map<const void*, int> ids;
    int next_id = 1;
    void put(const char* fmt, int a = 0, int b = 0, int c = 0) {
        Quiet q_; char buf[64]; snprintf(buf, sizeof buf, fmt, a, b, c); lines.push_back(buf);
    }
    bool load(const char* path);
    void violation(const char* m);
    void reset(std::size_t n) {
        phase = PH_IDLE; bad.clear(); cmps = projs = ctors = assigns = throws = allocs = lost = 0; unwinds_bad_alloc = false;
        throw_cmp = throw_proj = throw_move = 0;
        if (want_facts) ev.reset(n);
    }
    int id(const void* p) { auto it = ids.find(p); return it == ids.end() ? 0 : it->second; }
    void check(Where w, OState s, Op o, const void* p) {
        if (phase == PH_IDLE) return;
        if (w > W_TEMP) w = W_TEMP;         // never constructed: its members are garbage
        if (phase == PH_UNW && o == O_DESTROY && s == S_FULL) ++lost;
        if (table[phase - 1][w][s][o]) return;
        // CatchBadAlloc
        if (phase == PH_UNW && unwinds_bad_alloc && lost == 0 && table[PH_RUN - 1][w][s][o]) { resume(); return; }
        bad_event(w, s, o, p);
    }
    void bad_alloc_thrown() { if (phase == PH_RUN) { phase = PH_UNW; unwinds_bad_alloc = true; } }
    void resume() { phase = PH_RUN; unwinds_bad_alloc = false; }
    void bad_event(Where w, OState s, Op o, const void* p);
    void fact(int a, int b, bool less) { if (want_facts) ev.saw(a, b, less); }
};
extern Monitor mon;
constexpr std::uint32_t MAGIC_LIVE = 0x51CEA11Fu, MAGIC_DEAD = 0xDEAD0BADu;

// Move-only tracked element.  Tag distinguishes variants at compile time:
// DefaultOk: default constructible.
template<bool DefaultOk, bool NothrowMove = true> struct Tr;
struct TrBase {
    int key; int id;                    // id: the value (original position); -1: hole
    std::uint32_t magic; Where where;
    static const int HOLE = -1;
    OState st() const { return magic != MAGIC_LIVE ? S_ABSENT : id == HOLE ? S_HOLE : S_FULL; }
    TrBase(int k, int i) : key(k), id(i), magic(MAGIC_LIVE), where(mon.phase == PH_IDLE ? W_RANGE : W_TEMP) {
        ++mon.live;
        if (mon.phase != PH_IDLE) mon.violation("a new value was created during the call");
        if (mon.log) mon.ids[this] = mon.next_id++;
    }
    TrBase() : key(0), id(HOLE), magic(MAGIC_LIVE), where(mon.phase == PH_IDLE ? W_RANGE : W_TEMP) {
        ++mon.live;
        if (mon.phase != PH_IDLE) {
            mon.check(W_TEMP, S_ABSENT, O_DEFCTOR, this);
            if (mon.log) { Quiet q_; int d = mon.ids[this] = mon.next_id++; mon.lines.push_back("[\"defctor\"," + std::to_string(d) + "]"); }
        } else if (mon.log) mon.ids[this] = mon.next_id++;
    }
    void may_throw() {
        if (mon.phase == PH_RUN && mon.throw_move && mon.ctors + mon.assigns + 1 == mon.throw_move) {
            mon.throw_move = 0; ++mon.throws; mon.phase = PH_UNW;
            if (mon.log) mon.put("[\"throw\",2]");
            throw Injected{3};
        }
    }
    TrBase(TrBase&& o) : where(mon.phase == PH_IDLE ? W_RANGE : W_TEMP) {
        if (mon.phase != PH_IDLE) {
            mon.check(o.where, o.st(), O_SRC, &o);
            may_throw();
            ++mon.ctors;
            if (mon.log) { Quiet q_; int s = mon.id(&o), d = mon.ids[this] = mon.next_id++; mon.lines.push_back("[\"ctor\"," + std::to_string(d) + "," + std::to_string(s) + "]"); }
        } else if (mon.log) mon.ids[this] = mon.next_id++;
        key = o.key; id = o.id; magic = MAGIC_LIVE; o.id = HOLE; o.key = 0x7ead; ++mon.live;
    }
    TrBase& operator=(TrBase&& o) {
        if (mon.phase != PH_IDLE) {
            if (this == &o) {
                mon.check(where, st(), O_SELF, this);
                if (mon.log) mon.put("[\"self\",%d]", mon.id(this));
                return *this;
            }
            mon.check(o.where, o.st(), O_SRC, &o);
            mon.check(where, st(), O_ASSIGN, this);
            may_throw();
            ++mon.assigns;
            if (mon.log) mon.put("[\"assign\",%d,%d]", mon.id(this), mon.id(&o));
        }
        if (magic != MAGIC_LIVE) { ++mon.live; magic = MAGIC_LIVE; where = W_TEMP; }
        int k = o.key, i = o.id; o.id = HOLE; o.key = 0x7ead; key = k; id = i;
        return *this;
    }
    ~TrBase() {
        if (mon.phase != PH_IDLE) {
            mon.check(where, st(), O_DESTROY, this);
            if (mon.log) { Quiet q_; mon.lines.push_back("[\"destroy\"," + std::to_string(mon.id(this)) + "]"); mon.ids.erase(this); }
        } else if (magic != MAGIC_LIVE) mon.violation("an object was destroyed twice");
        magic = MAGIC_DEAD; --mon.live;
    }
};
template<bool D, bool N> struct Tr : TrBase {
    Tr(int k, int i) : TrBase(k, i) {}
    Tr(Tr&& o) noexcept(N) : TrBase(static_cast<TrBase&&>(o)) {}
    Tr& operator=(Tr&& o) noexcept(N) { TrBase::operator=(static_cast<TrBase&&>(o)); return *this; }
};
template<bool N> struct Tr<true, N> : TrBase {
    Tr() {}
    Tr(int k, int i) : TrBase(k, i) {}
    Tr(Tr&& o) noexcept(N) : TrBase(static_cast<TrBase&&>(o)) {}
    Tr& operator=(Tr&& o) noexcept(N) { TrBase::operator=(static_cast<TrBase&&>(o)); return *this; }
};
using MoveOnly = Tr<false>;             // move-only, no default constructor
using MoveDef = Tr<true>;               // move-only, default constructible
using MoveThrow = Tr<true, false>;       // moves may throw

inline void saw(const TrBase& a, const TrBase& b, bool less) {
    if (mon.phase == PH_IDLE) return;
    mon.check(a.where, a.st(), O_CMP, &a);
    mon.check(b.where, b.st(), O_CMP, &b);
    mon.fact(a.id, b.id, less);
    if (mon.log) mon.put("[\"cmp\",%d,%d,%d]", mon.id(&a), mon.id(&b), int(less));
}
inline void cmp_may_throw() {
    ++mon.cmps;
    if (mon.phase == PH_RUN && mon.throw_cmp && mon.cmps == mon.throw_cmp) {
        mon.throw_cmp = 0; ++mon.throws; mon.phase = PH_UNW;
        if (mon.log) mon.put("[\"throw\",2]");
        throw Injected{1};
    }
}
// comparison of elements
struct TrLess {
    bool operator()(const TrBase& a, const TrBase& b) const {
        cmp_may_throw();
        bool r = a.key < b.key;
        saw(a, b, r);
        return r;
    }
};
// Projection to a view of the element; the comparison then sees views.  A view
// remembers the value it was made from, so comparisons still teach facts.
struct View { int key; int id; };
struct TrProj {
    View operator()(const TrBase& a) const {
        ++mon.projs;
        if (mon.phase != PH_IDLE) {
            mon.check(a.where, a.st(), O_PROJ, &a);
            if (mon.log) mon.put("[\"proj\",%d]", mon.id(&a));
            if (mon.phase == PH_RUN && mon.throw_proj && mon.projs == mon.throw_proj) {
                mon.throw_proj = 0; ++mon.throws; mon.phase = PH_UNW;
                if (mon.log) mon.put("[\"throw\",2]");
                throw Injected{2};
            }
        }
        return View{a.key, a.id};
    }
};
struct ViewLess {
    bool operator()(const View& a, const View& b) const {
        cmp_may_throw();
        bool r = a.key < b.key;
        if (mon.phase != PH_IDLE) {
            mon.fact(a.id, b.id, r);
            if (mon.log) mon.put("[\"vcmp\",%d,%d,%d]", a.id + 1, b.id + 1, int(r));
        }
        return r;
    }
};
} // namespace vp
#endif
