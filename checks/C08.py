from .common import *
from .C12 import RUNTIME
LEVEL = "model_checking"
NAMES = ["block", "dis", "enc", "exc", "ham", "inv", "max", "mono", "osc", "rem", "runs", "sus"]

def run(c):
    mods = [c.bg(c.model, "MC_Presortedness", "MC_Presortedness_deep" if c.thorough else "MC_Presortedness", None, 4)]
    vec = c.bg(c.gen, "GenProbes", "thorough" if c.thorough else "quick", 8)
    units = [("c08_%s.cpp" % n, unit("c08.h", 'vp::reg_probe<std::decay_t<decltype(cs::probe::%s)>>("%s", %d);' % (n, n, i))) for i, n in enumerate(NAMES)]
    units.append(("c08_par.cpp", unit("c08.h", 'vp::reg_probe<std::decay_t<decltype(cs::probe::par)>>("par", 1);').replace('#include "c08.h"', '#define CPPSORT_DISABLE_DEPRECATION_WARNINGS\n#include "c08.h"\n#include <cpp-sort/probes/par.h>')))
    exe = c.bg(c.cxx, "c08", RUNTIME + units)
    cells = [("c08b_%s.cpp" % n, unit("c08b.h", 'vp::reg_probe_cells<std::decay_t<decltype(cs::probe::%s)>>("%s", %d);' % (n, n, i))) for i, n in enumerate(NAMES)]
    asan = c.bg(c.cxx, "c08a", ["vp_main.cpp"] + cells, ("-fsanitize=address,undefined", "-fno-sanitize-recover=all"))
    vec, exe, asan = wait(vec, exe, asan)
    c.replay(exe, vec, only=c.only)
    c.replay(asan, vec, name="a", env={"VP_NO_AS": "1", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}, only=c.only or "/cells/")
    wait(*mods)
