from .common import *
LEVEL = "model_checking"

def run(c):
    mods = [c.bg(c.model, "MC_Indirect")]
    vec = c.bg(c.gen, "GenPermutation", "thorough" if c.thorough else "quick", 8)
    tvec = c.bg(c.gen, "GenPermutation", "trace", 1)
    us = []
    for cat in CATS:
        us.append(("c10i_%s.cpp" % cat, unit("c10.h", *xlist([cat], 'vp::reg_indices<__VA_ARGS__>(#n);'))))
        us.append(("c10t_%s.cpp" % cat, unit("c10.h", *xlist([cat], 'vp::reg_iterators<__VA_ARGS__, std::list<vp::Pid>>(#n, "list");'))))
        us.append(("c10u_%s.cpp" % cat, unit("c10.h", *xlist([cat], 'vp::reg_iterators<__VA_ARGS__, std::deque<vp::Pid>>(#n, "deque");'))))
    us.append(("c10f.cpp", unit("c10.h", *xlist(CATS[:2], 'vp::reg_iterators<__VA_ARGS__, std::forward_list<vp::Pid>>(#n, "flist");'))))
    us.append(("c10a.cpp", unit("c10.h", *["vp::reg_apply<std::%s<vp::Mv>, std::%s<%s>>(\"%s, %s %s\");" % (a, b, t, a, b, t)
               for a, b, t in (("vector", "vector", "int"), ("deque", "vector", "long"), ("vector", "deque", "short"), ("vector", "vector", "std::size_t"), ("deque", "deque", "unsigned"))])))
    for cat in CATS:
        us.append(("c10w_%s.cpp" % cat, unit("c10.h", "#define X(n, ...) vp::reg_indices<__VA_ARGS__>(#n); vp::reg_iterators<__VA_ARGS__, std::list<vp::Pid>>(#n, \"list\");", "VP_%s_ADAPTERS(X)" % cat, "#undef X")))
    cells = [("c10c_%s.cpp" % cat, unit("c10.h", "#define X(n, ...) if (std::string(#n).find(\"schwartz\") == std::string::npos && std::string(#n).find(\"nest\") == std::string::npos) vp::reg_cells<__VA_ARGS__>(#n);",
                                        "VP_%s_SORTERS(X)" % cat, "VP_%s_ADAPTERS(X)" % cat, "#undef X")) for cat in CATS]
    asan = c.bg(c.cxx, "c10a", ["vp_main.cpp"] + cells, ("-fsanitize=address,undefined", "-fno-sanitize-recover=all"))
    us.append(("c10m.cpp", unit("c10.h", "vp::reg_more();")))
    exe = c.bg(c.cxx, "c10", ["vp_main.cpp"] + us)
    vec, tvec, exe = wait(vec, tvec, exe)
    c.replay(exe, vec, only=c.only)
    c.replay(exe, tvec, name="t", trace_dir=c.path("tr"), only=c.only or "apply_permutation")
    c.replay(wait(asan)[0], vec, name="a", env={"VP_NO_AS": "1", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}, only=c.only)
    c.validate("TraceIndirect", c.path("tr"), max_events=3000000, corrupt_event="move")
    wait(*mods)
