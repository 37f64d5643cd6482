from .common import *
LEVEL = "model_checking"

def run(c):
    mods = [c.bg(c.model, "MC_ListSort", "MC_ListSort_deep" if c.thorough else None, None, 2), c.bg(c.model, "MC_ContainerAware")]
    vec = c.bg(c.gen, "GenSort", "mid" if c.thorough else "small", 2)
    hooks = c.bg(c.gen, "GenContainerAware")
    units = []
    for s, stable in (("insertion", True), ("selection", True), ("merge", True), ("mel", False)):
        for l in ("list", "forward_list"):
            S = "vp::cs::%s_sorter" % s
            I = "MItem" if s == "mel" else "Item"   # (vector::erase of lists with unequal allocators needs the types to be movable)
            units.append(("c13_%s_%s.cpp" % (s, l), unit("c13.h",
                'vp::reg_list<%s, std::%s<vp::Item>>("%s, %s", %s);' % (S, l, s, l, str(stable).lower()),
                'vp::reg_list<%s, std::%s<vp::%s, vp::Arena<vp::%s>>>("%s, %s with an allocator", %s);' % (S, l, I, I, s, l, str(stable).lower()))))
    plain = []
    for s, stable, conts in (("insertion", True, "vector list"), ("selection", False, "vector list forward_list"), ("merge", True, "vector list forward_list"), ("mel", False, "vector list forward_list"),
                             ("heap", False, "vector"), ("tim", True, "vector"), ("quick", False, "vector forward_list")):
        for k in conts.split():
            plain.append('vp::reg_plain<vp::cs::%s_sorter, std::%s<vp::Q>>("%s, %s", %s);' % (s, k, s, k, str(stable).lower()))
    for b in range(3):
        units.append(("c13_plain%d.cpp" % b, unit("c13.h", *plain[b::3])))
    hk = ["vp::hooks<%d, %d, %d>();" % (h, (h * m + m) % 9, (h * 2 * m + 1 + m) % 9) for h in range(16) for m in (1, 5)]
    for b in range(4):
        units.append(("c13_hooks%d.cpp" % b, unit("c13.h", *hk[b::4])))
    exe = c.bg(c.cxx, "c13", ["vp_main.cpp", "c13.cpp"] + units)
    vec, hooks, exe = wait(vec, hooks, exe)
    c.replay(exe, vec, "relink", only=c.only or "relink/|abort/|claimed|plain/")
    c.replay(exe, hooks, "hooks", only=c.only or "hooks")
    wait(*mods)
