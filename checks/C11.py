import os
from .common import *
LEVEL = "model_checking"

def facade_units(fs, per, what, st20=False):
    units = []
    fs = list(fs)
    for b in range(0, len(fs), per):
        ls = ['vp::facade<%d, %s, %d, %d, %d>("%s");' % (f, "true" if f % 3 == 0 else "false", (f + f // 9) % 9, (f * 5 + f // 7) % 9, f % 3, what) for f in fs[b:b + per]]
        units.append(("c11f%s_%d.cpp" % ("20" if st20 else "", b // per), ("#define VP_STD_STANDINS\n" if st20 else "") + unit("c11.h", *ls)))
    return units

PROBES = "block dis enc exc ham inv max mono osc par rem runs sus".split()
TYPED = [("ska", "vp::cs::ska_sorter", "int,unsigned char,long long,float,double,std::string", True), ("spread", "vp::cs::spread_sorter", "int,float,double,std::string", True),
         ("integer_spread", "vp::cs::integer_spread_sorter", "int,long long", True), ("float_spread", "vp::cs::float_spread_sorter", "float,double", True),
         ("string_spread", "vp::cs::string_spread_sorter", "std::string", True), ("counting", "vp::cs::counting_sorter", "int,unsigned char,long long", False),
         ("default", "vp::cs::default_sorter", "int,std::string", True), ("std", "vp::cs::std_sorter", "float", True)]

def lib_units():
    """The sorters, adapters and probes, in all call forms, each with its own styles of arguments."""
    import re
    units, k = [], 0
    jobs = []
    def macro(name):
        txt = "".join(open(os.path.join(os.path.dirname(__file__), "../harness", f)).read() for f in ("sorters_list.h", "adapters_list.h"))
        body = re.search(r"#define %s\(X\)(.*?[^\\])\n" % name, txt, re.S).group(1)
        return re.findall(r"X\((\w+), ([^)]*)\)", body)
    for cat, cont, nm, two in (("FWD", "std::forward_list<vp::E>", "forward_list", True), ("BIDIR", "std::list<vp::E>", "list", True), ("RA", "std::vector<vp::E>", "vector", False)):
        for what in ("SORTERS", "ADAPTERS"):
            for n, t in macro("VP_%s_%s" % (cat, what)):
                jobs.append('vp::reg_forms<%s, %s, %d, true, true, %s>("%s", "%s");' % (t, cont, k, "true" if n == "counting_merge" else "false", n, nm)); k += 1
                if two and what == "SORTERS":
                    jobs.append('vp::reg_forms<%s, std::vector<vp::E>, %d>("%s", "vector");' % (t, k, n)); k += 1
    for s in ("insertion", "mel", "merge", "selection"):
        for cont, nm in (("std::list<vp::E>", "list"), ("std::forward_list<vp::E>", "forward_list")):
            jobs.append('vp::reg_forms<vp::cs::container_aware_adapter<vp::cs::%s_sorter>, %s, %d, %s, true, false, true>("container_aware %s", "%s");' % (s, cont, k, "false" if s == "insertion" and nm == "forward_list" else "true", s, nm)); k += 1
    for w, n in (("plain_sort_fn", "cppsort::sort"), ("plain_stable_sort_fn", "cppsort::stable_sort"), ("with_sorter<vp::cs::heap_sorter>", "cppsort::sort with heap_sorter"),
                 ("with_sorter<vp::cs::merge_sorter>", "cppsort::sort with merge_sorter"), ("with_stable_sorter<vp::cs::quick_sorter>", "cppsort::stable_sort with quick_sorter"),
                 ("with_stable_sorter<vp::cs::merge_sorter>", "cppsort::stable_sort with merge_sorter")):
        for cont, nm in (("std::vector<vp::E>", "vector"), ("std::list<vp::E>", "list")):
            if "heap" in w and nm == "list": continue
            jobs.append('vp::reg_forms<vp::%s, %s, %d, false>("%s", "%s");' % (w, cont, k, n, nm)); k += 1
    for p in PROBES:
        cont, nm = (("std::forward_list<vp::E>", "forward_list"), ("std::vector<vp::E>", "vector"))[k % 2]
        jobs.append('vp::reg_forms<std::decay_t<decltype(vp::cs::probe::%s)>, %s, %d, true, false, true>("probe::%s", "%s");' % (p, cont, k, p, nm)); k += 1
    for n, t, xs, proj in TYPED:
        for x in xs.split(","):
            jobs.append('vp::reg_natural<%s, %s>("%s", "%s");' % (t, x, n, x))
            if proj:
                jobs.append('vp::reg_projected<%s, %s>("%s", "%s");' % (t, x, n, x))
    n = 40
    for b in range(n):
        ls = jobs[b::n]
        units.append(("c11l_%d.cpp" % b, unit("c11lib.h", "if (!vp::forms.loaded) vp::forms.load();", *ls)))
    return units

def run(c):
    mod = c.bg(c.model, "MC_Facade", None, None, 3)
    fac = c.bg(c.gen, "GenFacade")
    e1 = c.bg(c.cxx, "c11", ["vp_main.cpp", "c11.cpp"] + facade_units(range(256), 16, ""))
    e2 = c.bg(c.cxx, "c11std", ["vp_main.cpp", "c11.cpp"] + facade_units(range(0, 256, 1 if c.thorough else 5), 16, " with std::ranges::less and std::identity", True), ("-std=c++20",))
    e3 = c.bg(c.cxx, "c11lib", ["vp_main.cpp", "c11.cpp", "c11lib.cpp"] + lib_units())
    vec = fac.result()
    inputs = c.gen("GenSort", "calls", 2)
    c.replay(e1.result(), vec, "facade", only=c.only)
    c.replay(e2.result(), vec, "facade20", only=c.only)
    c.replay(e3.result(), inputs, "lib", {"VP_FORMS": vec[0]}, only=c.only)
    wait(mod)
