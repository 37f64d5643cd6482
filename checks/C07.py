import json, os, glob
from .common import *
LEVEL = "model_checking"
TECHNIQUE = "TLC decides the 0-1 principle on the comparator networks extracted from the code; traces of the real sorters validated against the network machine; TLC-generated inputs and documented weights replayed"
NOTE = ("Networks: exhaustive for every network (sizes 0-64; for the two whose reachable sets are too large for TLC, the driver runs the product of the sets TLC computed through the rest of the network). "
        "Data independence: recorded executions validated by TLC. low_comparisons/low_moves: all permutations up to size 11-12 (quick) or 13 (thorough), all weak orders up to 6, structured inputs above.")

def units():
    seq = lambda *r: "std::index_sequence<%s>{}" % ", ".join(str(i) for i in r)
    us = []
    def add(name, *lines):
        us.append(("c07_%s.cpp" % name, unit("fixed.h", *lines)))
    for lo, hi in ((0, 24), (24, 36), (36, 46), (46, 56), (56, 65)):
        add("sn%d" % lo, 'vp::reg_family<cppsort::sorting_network_sorter>("sorting_network %d", %s);' % (lo, seq(*range(lo, hi))))
        add("snx%d" % lo, 'vp::reg_network<cppsort::sorting_network_sorter>("sorting_network %d", %d, %s);' % (lo, lo + 1, seq(*range(lo, hi))))
    for lo, hi in ((0, 24), (24, 40), (40, 54), (54, 65)):
        add("me%d" % lo, 'vp::reg_family<cppsort::merge_exchange_network_sorter>("merge_exchange %d", %s);' % (lo, seq(*range(lo, hi))))
        add("mex%d" % lo, 'vp::reg_network<cppsort::merge_exchange_network_sorter>("merge_exchange %d", %d, %s);' % (lo, 66 + lo, seq(*range(lo, hi))))
    add("oe", 'vp::reg_family<cppsort::odd_even_merge_network_sorter>("odd_even_merge", %s);' % seq(1, 2, 4, 8, 16, 32, 64),
        'vp::reg_network<cppsort::odd_even_merge_network_sorter>("odd_even_merge", 134, %s);' % seq(1, 2, 4, 8, 16, 32, 64))
    add("lc", 'vp::reg_family<cppsort::low_comparisons_sorter>("low_comparisons", %s);' % seq(*range(14)))
    add("lm", 'vp::reg_family<cppsort::low_moves_sorter>("low_moves", %s);' % seq(*range(41)))
    add("w", 'vp::add("weights", [](const vp::Vec& v) -> std::string { return v.raw[0].s == "weight" ? vp::weight_of(v, std::make_index_sequence<14>{}) : ""; });',
        'vp::add("suffix", [](const vp::Vec& v) -> std::string { return v.raw[0].s == "suffix" ? vp::suffix(v) : ""; });',
        # the domain of a fixed-size sorter is the set of its valid specializations
        'static_assert(std::is_same<cppsort::fixed_sorter_traits<cppsort::low_comparisons_sorter>::domain, std::make_index_sequence<14>>::value, "domain");',
        'static_assert(std::is_same<cppsort::fixed_sorter_traits<cppsort::sorting_network_sorter>::domain, std::make_index_sequence<65>>::value, "domain");',
        *['static_assert(cppsort::is_stable_v<cppsort::sorting_network_sorter<%d>(std::vector<int>&)>, "documented to be stable");' % k for k in range(4)])
    return us

def units20():
    seq = lambda *r: "std::index_sequence<%s>{}" % ", ".join(str(i) for i in r)
    fams = [("sorting_network", seq(*range(0, 33))), ("merge_exchange_network", seq(*range(0, 17), 31)), ("odd_even_merge_network", seq(1, 2, 4, 8, 16, 32)),
            ("low_comparisons", seq(*range(14))), ("low_moves", seq(*range(12)))]
    return [("c07x%d.cpp" % k, unit("fixed.h", 'vp::reg_family20<cppsort::%s_sorter>("%s", %s);' % (f, f, s))) for k, (f, s) in enumerate(fams)]

def networks(c):
    exe = c.cxx("extract", ["net_extract.cpp"], ("-O0",))
    if exe is None:
        return None
    rc, out = c.proc([exe], timeout=300)
    if rc != 0:
        c.violations.append({"case": "index_pairs", "vector": "", "what": "extracting the networks crashed: " + out[-300:]})
        return None
    p = c.path("nets.nd")
    open(p, "w").write(out)
    with open(p) as f:
        nets = [json.loads(l) for l in f]
    c.notes["networks"] = len(nets)
    def one(s):
        return c.tlc("Networks", None, {"VP_IN": p, "VP_OUT": c.path("prod"), "VP_SHARD": s, "VP_NSHARDS": 16}, 1, 700, heap="3g")
    for r in [f.result() for f in [c.bg(one, s) for s in range(16)]]:
        with c.lock:
            c.states += r["distinct"]; c.transitions += r["generated"]
        def describe(st, inv):
            k = int(st.get("net", "1"))
            return ("%s %s" % (nets[k - 1][0], nets[k - 1][1]), "comparators " + st.get("pos", "?"))
        c.impl_verdict(r, describe)
    c.log("networks: %d" % len(nets))
    return p

def run(c):
    net = c.bg(networks, c)
    vec = c.bg(c.gen, "GenSort", "quick" if c.thorough else "small", 4)
    tvec = c.bg(c.gen, "GenSort", "net", 2)
    w = c.bg(c.gen, "GenFixed", name="weights", VP_MAXC="13" if c.thorough else "12", VP_MAXM="13" if c.thorough else "11")
    exe = c.bg(c.cxx, "c07", ["vp_main.cpp"] + units())
    exe20 = c.bg(c.cxx, "c07cxx20", ["vp_main.cpp"] + units20(), ("-std=c++20", "-DVP_CXX20"))
    net, vec, tvec, w, exe = wait(net, vec, tvec, w, exe)
    c.replay(exe, vec, only=c.only)
    c.replay(wait(exe20)[0], vec, name="c20", only=c.only)
    prod = sorted(glob.glob(c.path("prod") + ".*"))
    r = c.replay(exe, w + prod, name="w", only="weights|suffix", nproc=1, hang=7000)
    if r:
        c.notes["zero_one_inputs_replayed"] = r["counters"][1]
        c.notes["sizes_enumerated"] = r["counters"][2]
    if net:
        c.replay(exe, tvec, name="t", trace_dir=c.path("tr"), only=c.only)
        c.validate("TraceNetwork", c.path("tr"), env={"VP_NETS": net}, max_events=2000000 if c.thorough else 160000, corrupt_event="ce")
