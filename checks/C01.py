import glob, os
from .common import *
LEVEL = "model_checking"

def run(c):
    mods = [c.bg(c.model, "MC_Adversary"), c.bg(c.model, "MC_SortCall", "MC_SortCall_evidence3"), c.bg(c.model, "MC_SortCall", "MC_SortCall_custody")]
    if c.thorough:
        mods.append(c.bg(c.model, "MC_SortCall", "MC_SortCall_evidence4", None, 4))
    vec = c.bg(c.gen, "GenSort", "thorough" if c.thorough else "quick", 8)
    huge = c.bg(c.gen, "GenSort", "huge", 4, name="huge")
    units = [os.path.basename(f) for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../harness/c01_*.cpp")))]
    conts = [("FWD", "std::forward_list<vp::Q>", "flist<Q>", CATS[:1]), ("BIDIR", "std::list<vp::P>", "list<P>", CATS[:2]),
             ("RA", "std::vector<vp::Q>", "vector<Q>", CATS[2:]), ("RA2", "std::vector<vp::Q>", "vector<Q>", CATS[:2]),
             ("RA3", "std::deque<vp::P>", "deque<P>", CATS[2:])]
    for tag, typ, nm, cats in conts:
        units.append(("c01ev_%s.cpp" % tag, unit("c01ev.h", *xlist(cats, 'vp::reg_ev<__VA_ARGS__, %s>(#n, "%s");' % (typ, nm)))))
    advec = c.bg(c.gen, "GenSort", "adv", 1)
    for tag, cats, ci, nm in (("f", CATS[:1], "std::forward_list<int>", "flist"), ("l", CATS[:2], "std::list<int>", "list"), ("v", CATS, "std::vector<int>", "vector")):
        units.append(("c01adv_%s.cpp" % tag, unit("c06.h", *xlist(cats, 'vp::reg_adv<__VA_ARGS__, %s>(#n, "%s", vp::worst_kind(#n));' % (ci, nm)))))
    # other shapes of comparisons and projections (KeyLife)
    mods += [c.bg(c.model, "MC_KeyLife"), c.bg(c.model, "MC_KeyLife", "MC_KeyLife_wasteful", expect_violation="Sees")]
    kvec = c.bg(c.gen, "GenSort", "small" if c.thorough else "tiny", 1, name="k")
    ktvec = c.bg(c.gen, "GenSort", "trace", 1, name="kt")
    kunits = []
    for tag, typ, cats in (("l", "list", CATS[:2]), ("v", "vector", CATS)):
        for cat in cats:
            for kind in ("SORTERS", "ADAPTERS"):
                x = lambda e: ["#define X(n, ...) " + e, "VP_%s_%s(X)" % (cat, kind), "#undef X"]
                t = 'std::%s<vp::P>' % typ
                kunits.append(("c01k_%s_%s_%s.cpp" % (tag, cat, kind), unit("c01k.h", *(x('vp::reg_k<__VA_ARGS__, %s>(#n, "%s");' % (t, typ))
                               + (x('vp::reg_shapes<__VA_ARGS__, %s>(#n, "%s");' % (t, typ)) if tag == "v" else [])))))
    # the standard's own types, orders and projections, under two language standards
    pools = c.bg(c.gen, "GenKeys", "quick", 8, name="pools")
    tunits = []
    for cat in CATS:
        for kind in ("SORTERS", "ADAPTERS"):
            tunits.append(("c01t_%s_%s.cpp" % (cat, kind), unit("c01t.h", "#define X(n, ...) vp::reg_typed<__VA_ARGS__>(#n);", "VP_%s_%s(X)" % (cat, kind), "#undef X")))
    exe = c.bg(c.cxx, "c01", ["vp_main.cpp"] + units)
    kexe = c.bg(c.cxx, "c01k", ["vp_main.cpp"] + kunits)
    texe = [c.bg(c.cxx, "c01t17", ["vp_main.cpp"] + tunits), c.bg(c.cxx, "c01t20", ["vp_main.cpp"] + tunits, ("-std=c++20", "-DVP_CXX20"))]
    vecs, advec, huge, exe = wait(vec, advec, huge, exe)
    c.replay(exe, vecs + advec + huge, only=c.only)
    kvec, ktvec, kexe = wait(kvec, ktvec, kexe)
    c.replay(kexe, kvec, name="k", only=c.only)
    c.replay(kexe, ktvec, name="kt", trace_dir=c.path("ktr"), only=c.only or "keys by value")
    c.validate("TraceKeyLife", c.path("ktr"), max_events=400000 if c.thorough else 60000, corrupt_event="project")
    pools = ":".join(wait(pools)[0])
    for std, e in zip(("17", "20"), wait(*texe)):
        c.replay(e, kvec, name="t" + std, only=c.only, env={"VP_POOLS": pools})
    wait(*mods)
