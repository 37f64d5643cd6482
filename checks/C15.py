from .common import *
LEVEL = "model_checking"

def run(c):
    mods = [c.bg(c.model, "MC_Indirect"), c.bg(c.model, "MC_Indirect", "MC_Indirect_tight", expect_violation="NeverTight")]
    vec = c.bg(c.gen, "GenPermutation", "thorough" if c.thorough else "quick", 8)
    tvec = c.bg(c.gen, "GenPermutation", "trace", 1)
    us = []
    for i, cat in enumerate(CATS):
        for fn, tag in (("reg_indirect", "i"), ("reg_oop", "o")):
            for k, (typ, nm) in enumerate((("std::vector<vp::Mv>", "vector"), ("std::list<vp::Mv>", "list"), ("std::forward_list<vp::Mv>", "flist"))):
                us.append(("c15%s%d%s.cpp" % (tag, k, cat), unit("c15.h", *xlist([cat], 'vp::%s<__VA_ARGS__, %s>(#n, "%s");' % (fn, typ, nm)))))
    exe = c.bg(c.cxx, "c15", ["vp_main.cpp"] + us)
    exe14 = c.bg(c.cxx, "c15cxx14", ["vp_main.cpp"] + us, CXX14)
    vec, tvec, exe = wait(vec, tvec, exe)
    c.replay(exe, vec, only=c.only)
    c.replay(exe, tvec, name="t", trace_dir=c.path("tr"), only=c.only)
    c.validate("TraceIndirect", c.path("tr"), max_events=3000000 if c.thorough else 150000, corrupt_event="move")
    c.replay(wait(exe14)[0], vec, name="c14", only=c.only)
    wait(*mods)
