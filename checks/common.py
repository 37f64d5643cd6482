"""Unit sources shared by several checks."""
CATS = ("FWD", "BIDIR", "RA")
# the code chosen where features of C++17 are missing
CXX14 = ("-include", "cxx14.h")

def unit(header, *lines, life=False):
    out = ['#include "%s"' % header, "VP_UNIT {"]
    if life:
        out.append('if (!vp::mon.loaded && !vp::mon.load(getenv("VP_LIFE"))) { fprintf(stderr, "no life table\\n"); exit(3); }')
    return "\n".join(out + list(lines) + ["}"]) + "\n"

def xlist(cats, expr):
    """expr uses n (name token) and __VA_ARGS__ (type)"""
    return ["#define X(n, ...) " + expr] + ["VP_%s_SORTERS(X)" % c for c in cats] + ["#undef X"]

def wait(*futs):
    return [f.result() for f in futs]
