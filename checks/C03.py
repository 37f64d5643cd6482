import json
from .common import *
LEVEL = "model_checking"
CONT = {(0, "iter"): ("std::forward_list<vp::E>", 1), (1, "iter"): ("std::list<vp::E>", 1), (2, "iter"): ("std::vector<vp::E>", 1),
        (0, "plain"): ("vp::Bare<std::forward_list<vp::E>>", 0), (1, "plain"): ("vp::Bare<std::list<vp::E>>", 0), (2, "plain"): ("std::vector<vp::E>", 0),
        (0, "flist"): ("std::forward_list<vp::E>", 0), (1, "list"): ("std::list<vp::E>", 0),
        (2, "sort"): ("vp::Own<true, false>", 0), (2, "stable"): ("vp::Own<false, true>", 0), (2, "both"): ("vp::Own<true, true>", 0)}
CMP = {"none": "vp::None", "less": "std::less<>", "cmp": "vp::Desc"}
PROJ = {"none": "vp::None", "ident": "vp::cs::utility::identity", "key": "vp::key_t_"}

def show(t):
    return t[1] if t[0] in ("leaf", "small") else "%s<%s>" % (t[0], ", ".join(show(x) for x in t[1:]))

def ctype(t, st):
    if t[0] == "leaf": return "vp::%s<%s>" % (t[1], "true" if st else "false")
    if t[0] == "small": return "vp::" + t[1]
    if t[0] == "hybrid": return "vp::cs::hybrid_adapter<%s>" % ", ".join(ctype(x, st) for x in t[1:])
    n = {"make_stable": "make_stable", "stable_t": "stable_t"}.get(t[0], t[0] + "_adapter")
    return "vp::cs::%s<%s>" % (n, ctype(t[1], st))

def expr(t, st, tags):
    if t[0] == "leaf":
        tags.append((t[1], 10 + len(tags)))
        return "%s(%d)" % (ctype(t, st), tags[-1][1]) if st else ctype(t, st) + "{}"
    if t[0] == "small": return ctype(t, st) + "{}"
    return "%s(%s)" % (ctype(t, st), ", ".join(expr(x, st, tags) for x in t[1:]))

def heads(t):
    return [] if t[0] in ("leaf", "small") else [t[0]] + [h for x in t[1:] for h in heads(x)]

def nested(t, under=False):
    """A hybrid directly in a hybrid somewhere below a stable adapter: cannot be made from an instance."""
    if t[0] in ("leaf", "small"): return False
    under = under or t[0] in ("stable", "stable_t")
    return (under and t[0] == "hybrid" and any(x[0] == "hybrid" for x in t[1:])) or any(nested(x, under) for x in t[1:])

def term_lines(k, t, cat, always, calls, deftype):
    h = heads(t)
    # stable_t may name what stable_adapter adapts, which needs not be made from the adapter itself
    st = k % 2 == 0 and not nested(t) and not ("stable_t" in h and h.count("stable_t") + h.count("stable") > 1)
    tags = []
    ex = expr(t, st, tags)
    out = ["{ using S = %s;" % ctype(t, st),
           "auto make = [] { return %s; };" % (ex if st else "S{}"),
           'vp::traits<S>("%s", %d, %s, %s);' % (show(t), cat, "true" if always else "false", "false" if st else "true")]
    tagl = "{%s}" % ", ".join('{"%s", %d}' % x for x in tags)
    for ccat, src, n, cmp, proj, stable, outs in calls:
        if src == "arr":
            cont, it = ("vp::Arr<%d>" % n, 0) if n == 0 or (k + n) % 2 else ("vp::CArr<%d>" % n, 0)
        else:
            cont, it = CONT[(ccat, src)]
        name = "%s(%s%s, %s, %s)%s" % (show(t), ("forward ", "bidirectional ", "random-access ")[ccat] if src in ("iter", "plain") else "", src + (str(n) if src == "arr" else ""), cmp, proj, " stateful" if st else "")
        al = ", ".join('{"%s", %s, "%s"}' % (o[0], "true" if o[1] else "false", o[2]) for o in outs)
        out.append('vp::call<%s, %d, %d, %s, %s>("%s", make, %s, {%s}, %s, %s);' % (cont, it, n if src == "arr" else 0, CMP[cmp], PROJ[proj], name, "true" if stable else "false", al, tagl, "true" if st else "false"))
    return out + ["}"]

def run(c):
    mods = [c.bg(c.model, "MC_Adapters", None, None, 3)]
    if c.thorough:
        mods.append(c.bg(c.model, "MC_Adapters", "MC_Adapters_deep", None, 6))
    vec = c.bg(c.gen, "GenSort", "calls", 2)
    files = c.gen("GenAdapters", None, 4, VP_TERMS=900 if c.thorough else 200, VP_CALLS=14 if c.thorough else 8)
    terms = []
    for f in files:
        with open(f) as fh:
            terms += [json.loads(l) for l in fh if l.strip()]
    terms.sort(key=lambda t: json.dumps(t[0]))
    per = 6
    units = []
    for b in range(0, len(terms), per):
        lines = []
        for k, (t, cat, always, calls) in enumerate(terms[b:b + per]):
            lines += term_lines(b + k, t, cat, always, calls, None)
        units.append(("c03_%d.cpp" % (b // per), unit("c03.h", *lines)))
    exe = c.cxx("c03", ["vp_main.cpp"] + units)
    c.replay(exe, wait(vec)[0], only=c.only)
    wait(*mods)
