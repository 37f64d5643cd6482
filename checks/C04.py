from .common import *
from .C12 import RUNTIME
LEVEL = "model_checking"
PROBES = ["block", "dis", "enc", "exc", "ham", "inv", "max", "mono", "osc", "rem", "runs", "sus"]
NEVER = {"dis", "mono", "osc", "runs"}

def fault_units(tag, fn, elem, probe_lines):
    us = []
    def add(suffix, cats, kind, cont, label):
        lines = ["#define X(n, ...) vp::%s<__VA_ARGS__, %s<vp::%s>>(#n, \"%s\");" % (fn, cont, elem, label)] + ["VP_%s_%s(X)" % (k, kind) for k in cats]
        us.append(("%s_%s.cpp" % (tag, suffix), unit("faults.h", *lines, life=True)))
    for cat in CATS:
        add("v" + cat, [cat], "SORTERS", "std::vector", "vector")
        add("a" + cat, [cat], "ADAPTERS", "std::vector", "vector")
    add("lF", ["FWD"], "SORTERS", "std::list", "list")
    add("lB", ["BIDIR"], "SORTERS", "std::list", "list")
    add("f", ["FWD"], "SORTERS", "std::forward_list", "flist")
    add("la", ["FWD", "BIDIR"], "ADAPTERS", "std::list", "list")
    add("fa", ["FWD"], "ADAPTERS", "std::forward_list", "flist")
    us.append(("%s_probes.cpp" % tag, unit("faults.h", *probe_lines, life=True)))
    return us

def run(c):
    mods = [c.bg(c.model, "MC_SortCall", "MC_SortCall_custody"), c.bg(c.model, "MC_ObjLife"),
            c.bg(c.model, "MC_SortCall", "MC_SortCall_witness_escapes", expect_violation="NeverEscapes")]
    vec = c.bg(c.gen, "GenSort", "small" if c.thorough else "tiny", 4)
    bvec = c.bg(c.gen, "GenSort", "bigfault", 2)
    tvec = c.bg(c.gen, "GenSort", "faulttrace", 1)
    life = c.bg(c.gen, "GenLife", name="life")
    pl = ['vp::reg_probe_throw<decltype(cs::probe::%s), %s<vp::MoveThrow>>("%s", "%s");' % (p, t, p, l)
          for p in PROBES for t, l in (("std::vector", "vector"), ("std::list", "list"), ("std::forward_list", "flist"))]
    us14 = [u for u in fault_units("c04n", "reg_throw", "MoveThrow", []) if "ADAPTERS" in u[1]]
    exe14 = c.bg(c.cxx, "c04cxx14", RUNTIME + us14, CXX14)
    exe = c.bg(c.cxx, "c04", RUNTIME + fault_units("c04", "reg_throw", "MoveThrow", pl))
    vec, bvec, tvec, life, exe = wait(vec, bvec, tvec, life, exe)
    env = {"VP_LIFE": life[0]}
    r = c.replay(exe, vec + bvec, env=env, only=c.only)
    if r:
        c.notes["faults_injected"] = r["counters"][0]
    c.replay(wait(exe14)[0], vec, name="c14", env=env, only=c.only)
    c.replay(exe, tvec, name="t", env=env, trace_dir=c.path("tr"), only=c.only)
    c.validate("TraceSortCall", c.path("tr"), max_events=1500000 if c.thorough else 110000)
    wait(*mods)
