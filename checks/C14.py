import json
from .common import *
LEVEL = "model_checking"
W = {"cmp": "vp::cs::metrics::comparisons<%s, %s>", "cadapt": "vp::cs::counting_adapter<%s, %s>", "mv": "vp::cs::metrics::moves<%s, %s>", "pj": "vp::cs::metrics::projections<%s, %s>",
     "time": "vp::cs::metrics::running_time<%s, %s>", "schwartz": "vp::cs::schwartz_adapter<%s>", "oop": "vp::cs::out_of_place_adapter<%s>", "indirect": "vp::cs::indirect_adapter<%s>",
     "hybrid": "vp::cs::hybrid_adapter<%s>", "stable": "vp::cs::stable_adapter<%s>"}
CT = ("std::size_t", "int", "vp::Big", "double", "long long")
DT = ("std::chrono::steady_clock::duration", "std::chrono::microseconds", "std::chrono::duration<double>")

def chain_type(ch, leaf, k):
    if not ch:
        return leaf
    inner = chain_type(ch[1:], leaf, k + 1)
    w = W[ch[0]]
    return w % ((inner, (DT if ch[0] == "time" else CT)[k % (3 if ch[0] == "time" else 5)]) if w.count("%s") == 2 else inner)

def chain_expr(ch, leaf, k, tag):
    return leaf + "(%d)" % tag if not ch else "%s(%s)" % (chain_type(ch, leaf, k), chain_expr(ch[1:], leaf, k + 1, tag))

def run(c):
    mods = [c.bg(c.model, "MC_Counting", "MC_Counting_deep", None, 3)]
    mods.append(c.bg(c.model, "MC_Counting", "MC_Counting_byvalue", None, 1, 800, "RelationsHold"))
    vec = c.bg(c.gen, "GenSort", "calls", 2)
    rvec = c.bg(c.gen, "GenSort", "small" if c.thorough else "tiny", 4)
    mvec = c.bg(c.gen, "MC_Metric", None, 1)
    files = c.gen("GenCounting", None, 2, VP_CHAINS=600 if c.thorough else 110)
    lines = []
    for f in files:
        with open(f) as fh:
            lines += [json.loads(l) for l in fh if l.strip()]
    lines.sort(key=lambda l: json.dumps(l[:2]))
    units, per, body = [], 24, []
    for k, (ch, given, rels) in enumerate(lines):
        leaf = ("vp::acct_f", "vp::acct_b", "vp::acct_r")[k % 3]
        cont = {0: ("std::forward_list<vp::E>", "std::list<vp::E>", "std::vector<vp::E>"), 1: ("std::list<vp::E>", "std::vector<vp::E>"), 2: ("std::vector<vp::E>", "std::deque<vp::E>")}[k % 3]
        cont = cont[(k // 3) % len(cont)]
        tag = 10 + k % 80
        name = " of ".join(ch + [leaf[4:]]) + " on " + cont[5:cont.index("<")]
        rl = "{%s}" % ", ".join('{"%s", "%s"}' % tuple(r) for r in sorted(rels))
        for form in (0, 1):
            it = (k + form + k // 7) % 2
            pr = 0 if not given else 1 + (k + form) % 2
            nm = name + ("(comparison, " if form else "(") + (("projection by value" if pr == 2 else "projection") if given else "no projection") + (", iterators)" if it else ", range)")
            body.append('vp::chain<%s, %s, %d, %d>("%s", [] { return %s; }, %s, %s, %d);' % (
                cont, "true" if it else "false", form, pr, nm,
                chain_expr(ch, leaf, k, tag), rl, "true" if "time" in ch else "false", 4200 + tag))
    units = [("c14_%d.cpp" % (b // per), unit("c14.h", *body[b:b + per])) for b in range(0, len(body), per)]
    import re, os
    def macro(name):
        txt = "".join(open(os.path.join(os.path.dirname(__file__), "../harness", f)).read() for f in ("sorters_list.h", "adapters_list.h"))
        return re.findall(r"X\((\w+), ([^)]*)\)", re.search(r"#define %s\(X\)(.*?[^\\])\n" % name, txt, re.S).group(1))
    jobs, x = [], 0
    for cat, conts in (("FWD", ("forward_list", "vector")), ("BIDIR", ("list", "vector")), ("RA", ("vector",))):
        for n, t in macro("VP_%s_SORTERS" % cat):
            for ct in conts:
                jobs.append('vp::reg_real<%s, std::%s<vp::E>, %d, %s, %s>("%s/%s");' % (t, ct, x, "false" if n == "std_" else "true", "true" if n == "wiki" else "false", n, ct)); x += 1
        for n, t in macro("VP_%s_ADAPTERS" % cat):
            jobs.append('vp::reg_adapted<%s, std::%s<vp::E>, %d>("%s/%s");' % (t, conts[x % len(conts)], x, n, conts[x % len(conts)])); x += 1
    reals = [("c14r_%d.cpp" % (b // 2), unit("c14.h", *jobs[b:b + 2])) for b in range(0, len(jobs), 2)]
    fixed = []
    for i, (f, sizes) in enumerate((("low_comparisons_sorter", (0, 1, 2, 3, 5, 8, 11)), ("low_moves_sorter", (2, 3, 4, 7, 9)), ("sorting_network_sorter", (2, 3, 6, 11, 16)),
                                    ("merge_exchange_network_sorter", (3, 5, 8)), ("odd_even_merge_network_sorter", (4, 8)))):
        fixed.append(("c14f_%d.cpp" % i, unit("c14.h", *['vp::reg_fixed<vp::cs::%s, %d, %d>("%s");' % (f, s, s + i, f) for s in sizes if s > 0 and not (f.startswith("odd"))])))
    exe = c.bg(c.cxx, "c14", ["vp_main.cpp"] + units)
    rexe = c.bg(c.cxx, "c14r", ["vp_main.cpp"] + reals + fixed)
    mexe = c.bg(c.cxx, "c14m", ["vp_main.cpp", "c14m.cpp"])
    c.replay(wait(exe)[0], wait(vec)[0], name="chains", only=c.only)
    c.replay(wait(rexe)[0], wait(rvec)[0], name="sorters", only=c.only)
    c.replay(wait(mexe)[0], wait(mvec)[0], name="metric", only=c.only)
    wait(*mods)
