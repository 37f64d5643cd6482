from .common import *
from .C12 import RUNTIME
from .C04 import fault_units, PROBES, NEVER
LEVEL = "model_checking"

def run(c):
    mods = [c.bg(c.model, "MC_SortCall", "MC_SortCall_custody"), c.bg(c.model, "MC_ObjLife"),
            c.bg(c.model, "MC_SortCall", "MC_SortCall_witness_escapes", expect_violation="NeverEscapes")]
    vec = c.bg(c.gen, "GenSort", "mid" if c.thorough else "heap", 4)
    tvec = c.bg(c.gen, "GenSort", "faulttrace", 1)
    life = c.bg(c.gen, "GenLife", name="life")
    pl = ['vp::reg_probe_heap<decltype(cs::probe::%s), %s<vp::MoveDef>>("%s", "%s", %s);' % (p, t, p, l, "true" if p in NEVER else "false")
          for p in PROBES for t, l in (("std::vector", "vector"), ("std::list", "list"), ("std::forward_list", "flist"))]
    exe = c.bg(c.cxx, "c05", RUNTIME + fault_units("c05", "reg_heap", "MoveDef", pl))
    vec, tvec, life, exe = wait(vec, tvec, life, exe)
    env = {"VP_LIFE": life[0]}
    r = c.replay(exe, vec, env=env, only=c.only)
    if r:
        c.notes["faults_injected"] = r["counters"][0]
    c.replay(exe, tvec, name="t", env=env, trace_dir=c.path("tr"), only=c.only)
    c.validate("TraceSortCall", c.path("tr"), max_events=1500000 if c.thorough else 110000)
    wait(*mods)
