import glob, os
from .common import *
LEVEL = "model_checking"

def tracked_units(c, tag, header, fn_sorters, fn_adapters, life=True):
    """Units instantiating fn<type, container>(name, label) over every sorter and adapter."""
    us = []
    def add(suffix, cats, kind, expr):
        pre = ['adapters_list.h'] if kind == "ADAPTERS" else []
        text = "".join('#include "%s"\n' % h for h in pre)
        lines = ["#define X(n, ...) " + expr] + ["VP_%s_%s(X)" % (k, kind) for k in cats]
        us.append(("%s_%s.cpp" % (tag, suffix), text + unit(header, *lines, life=life)))
    for cat in CATS:
        add("v" + cat, [cat], "SORTERS", 'vp::%s<__VA_ARGS__, std::vector<vp::MoveDef>>(#n, "vector");' % fn_sorters)
    add("lF", CATS[:1], "SORTERS", 'vp::%s<__VA_ARGS__, std::list<vp::MoveDef>>(#n, "list");' % fn_sorters)
    add("lB", CATS[1:2], "SORTERS", 'vp::%s<__VA_ARGS__, std::list<vp::MoveDef>>(#n, "list");' % fn_sorters)
    add("f", CATS[:1], "SORTERS", 'vp::%s<__VA_ARGS__, std::forward_list<vp::MoveDef>>(#n, "flist");' % fn_sorters)
    for cat in CATS:
        add("a" + cat, [cat], "ADAPTERS", 'vp::%s<__VA_ARGS__, std::vector<vp::MoveOnly>>(#n, "vector<MoveOnly>");' % fn_adapters)
    add("al", CATS[:2], "ADAPTERS", 'vp::%s<__VA_ARGS__, std::list<vp::MoveOnly>>(#n, "list<MoveOnly>");' % fn_adapters)
    add("af", CATS[:1], "ADAPTERS", 'vp::%s<__VA_ARGS__, std::forward_list<vp::MoveOnly>>(#n, "flist<MoveOnly>");' % fn_adapters)
    return us

RUNTIME = ["vp_main.cpp", "tracked.cpp", "alloc.cpp"]

def run(c):
    mods = [c.bg(c.model, "MC_SortCall", "MC_SortCall_custody"), c.bg(c.model, "MC_ObjLife"),
            c.bg(c.model, "MC_SortCall", "MC_SortCall_witness_returns", expect_violation="NeverReturns")]
    vec = c.bg(c.gen, "GenSort", "quick" if c.thorough else "mid", 8)
    tvec = c.bg(c.gen, "GenSort", "trace", 1)
    life = c.bg(c.gen, "GenLife", name="life")
    us = tracked_units(c, "c12", "c12.h", "reg_tracked", "reg_tracked")
    for cat in CATS:
        us.append(("c12p_%s.cpp" % cat, unit("c12.h", *xlist([cat], 'vp::reg_proxy<__VA_ARGS__, std::vector<vp::MoveDef>>(#n, "vector");'), life=True)))
        us.append(("c12m_%s.cpp" % cat, unit("c12.h", *xlist([cat], 'vp::reg_movonly<__VA_ARGS__, std::deque<vp::MoveOnly>>(#n, "deque<MoveOnly>");'), life=True)))
    for cat in CATS:
        for typ in ("TrivialDtor", "TrivialCtor", "TrivialAssign", "Copyable", "Large", "Aligned"):
            for kind, cont in (("SORTERS", "vector"), ("ADAPTERS", "vector"), ("SORTERS", "list")):
                if (kind == "ADAPTERS" and typ not in ("TrivialDtor", "Copyable", "Aligned")) or (cont == "list" and (cat == "RA" or typ not in ("TrivialDtor", "Aligned"))):
                    continue
                us.append(("c12z_%s_%s_%s_%s.cpp" % (cat, typ, kind, cont), unit("c12z.h",
                          '#define X(n, ...) vp::reg_zoo_ok<__VA_ARGS__, std::%s<vp::%s>>(#n, "%s<%s>");' % (cont, typ, cont, typ), "VP_%s_%s(X)" % (cat, kind), "#undef X")))
    exe = c.bg(c.cxx, "c12", RUNTIME + us)
    # the working memory of the sorters: plain elements, with every access to memory checked
    plain = [os.path.basename(f) for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../harness/c01_*.cpp")))]
    plain = [f for f in plain if "fp_list" not in f and "int_flist" not in f]
    pools = c.bg(c.gen, "GenKeys", "quick", 8, name="pools")
    kvec = c.bg(c.gen, "GenSort", "keys", 8, name="kv")
    radix = [("c12r_%d.cpp" % k, unit("c16.h", "using T = %s;" % cpp, *lines)) for k, (cpp, lines) in enumerate((
        ("int", ['vp::radix<vp::cs::ska_sorter, T>("ska", "s4", "int");', 'vp::radix<vp::cs::spread_sorter, T>("spread", "s4", "int");', 'vp::counting<T>("s4", "int");']),
        ("double", ['vp::radix<vp::cs::ska_sorter, T>("ska", "f8", "double");', 'vp::radix<vp::cs::spread_sorter, T>("spread", "f8", "double");']),
        ("std::string", ['vp::radix<vp::cs::ska_sorter, T>("ska", "str", "std::string");', 'vp::radix<vp::cs::spread_sorter, T>("spread", "str", "std::string");', 'vp::radix_desc<vp::cs::spread_sorter, T>("spread", "str", "std::string");']),
        ("std::vector<signed char>", ['vp::radix<vp::cs::ska_sorter, T>("ska", "vec_s1", "vector<signed char>");'])))]
    tags = {"FWD": "forward", "BIDIR": "bidirectional", "RA": "random_access"}
    bits = [("c12b_%s_%s.cpp" % (cat, kind), unit("c12b.h", "#define X(n, ...) vp::reg_bits<__VA_ARGS__, std::%s_iterator_tag>(#n);" % tags[cat],
             "VP_%s_%s(X)" % (cat, kind), "#undef X")) for cat in CATS for kind in ("SORTERS", "ADAPTERS")]
    asan = c.bg(c.cxx, "c12a", ["vp_main.cpp"] + plain + radix + bits, ("-fsanitize=address,undefined", "-fno-sanitize-recover=all"))
    vec, tvec, life, exe = wait(vec, tvec, life, exe)
    env = {"VP_LIFE": life[0]}
    c.replay(exe, vec, env=env, only=c.only)
    c.replay(exe, tvec, name="t", env=env, trace_dir=c.path("tr"), only=c.only or "part,cmp|whole,cmp,proj")
    c.validate("TraceSortCall", c.path("tr"), max_events=3000000 if c.thorough else 100000)
    aenv = {"VP_NO_AS": "1", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0"}
    pools, kvec, asan = wait(pools, kvec, asan)
    aenv["VP_POOLS"] = ":".join(pools)
    c.replay(asan, vec, name="a", env=aenv, only=c.only or "/vector<|/deque<|/list<|/forward_list<|[]/|/cells/")
    c.replay(asan, kvec, name="ar", env=aenv, only=c.only or "/vector/pool|deque iterators/pool b|/vector, greater/pool")
    wait(*mods)
