from .common import *
LEVEL = "model_checking"

def run(c):
    mods = [c.bg(c.model, "MC_Adversary")]
    vec = c.bg(c.gen, "GenSort", "costdeep" if c.thorough else "cost", 8)
    tvec = c.bg(c.gen, "GenSort", "advtrace", 1)
    us = []
    for tag, cats, cp, ci, nm in (("f", CATS[:1], "std::forward_list<vp::P>", "std::forward_list<int>", "flist"), ("l", CATS[:2], "std::list<vp::P>", "std::list<int>", "list"),
                                  ("v", CATS[:2], "std::vector<vp::P>", "std::vector<int>", "vector"), ("r", CATS[2:], "std::vector<vp::P>", "std::vector<int>", "vector"),
                                  ("d", CATS[2:], "std::deque<vp::Q>", "std::deque<int>", "deque")):
        for cat in cats:
            us.append(("c06%s%s.cpp" % (tag, cat), unit("c06.h", *xlist([cat], 'vp::reg_all<__VA_ARGS__, %s, %s>(#n, "%s");' % (cp, ci, nm)))))
    exe = c.bg(c.cxx, "c06", ["vp_main.cpp"] + us)
    vec, tvec, exe = wait(vec, tvec, exe)
    c.replay(exe, vec, only=c.only)
    c.replay(exe, tvec, name="t", trace_dir=c.path("tr"), only=c.only or "/adversary")
    c.validate("TraceAdversary", c.path("tr"), max_events=3000000 if c.thorough else 200000, corrupt_event="ask")
    wait(*mods)
