from .common import *
LEVEL = "model_checking"

def run(c):
    mods = [c.bg(c.model, "MC_SortCall", "MC_SortCall_stable3")]
    if c.thorough:
        mods.append(c.bg(c.model, "MC_SortCall", "MC_SortCall_stable4", None, 4))
    vec = c.bg(c.gen, "GenSort", "thorough" if c.thorough else "mid", 8)
    big = c.bg(c.gen, "GenSort", "big", 4)
    # more elements than small integers count
    huge = c.bg(c.gen, "GenSort", "huge", 4, name="huge")
    units = []
    conts = [("v", "std::vector<vp::Q>", "vector<Q>", CATS), ("d", "std::deque<vp::P>", "deque<P>", CATS),
             ("l", "std::list<vp::Q>", "list<Q>", CATS[:2]), ("f", "std::forward_list<vp::P>", "flist<P>", CATS[:1])]
    for tag, typ, nm, cats in conts:
        for cat in cats:
            units.append(("c02_%s_%s.cpp" % (tag, cat), unit("c02.h", *xlist([cat], 'vp::reg_all<__VA_ARGS__, %s>(#n, "%s");' % (typ, nm)))))
            us = unit("c02.h", '#define X(n, ...) vp::reg_all<__VA_ARGS__, %s>("adapter " #n, "%s");' % (typ, nm), "VP_%s_ADAPTERS(X)" % cat, "#undef X")
            units.append(("c02a_%s_%s.cpp" % (tag, cat), us))
            if tag != "d":
                units.append(("c02w_%s_%s.cpp" % (tag, cat), unit("c02.h", *xlist([cat], 'vp::reg_wrapped<__VA_ARGS__, %s>(#n, "%s");' % (typ, nm)))))
    exe = c.bg(c.cxx, "c02", ["vp_main.cpp"] + units)
    vecs, big, huge, exe = wait(vec, big, huge, exe)
    vecs = vecs + big + huge
    c.replay(exe, vecs, only=c.only)
    wait(*mods)
