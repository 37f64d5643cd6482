from .common import *
LEVEL = "model_checking"
TECHNIQUE = "TLC checks a merge sort over an explicit buffer of any size; TLC-generated inputs x buffer sizes replayed with an instrumented provider and the library's; recorded executions validated as behaviours of the model"
FIXED = (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 64, 100, 128, 512, 1000)
SORTERS = ("grail", "wiki", "block")

def run(c):
    mods = [c.bg(c.model, "MC_Buffered"), c.bg(c.model, "MC_Buffered", "MC_Buffered_live"),
            c.bg(c.model, "MC_Buffered", "MC_Buffered_overflow", None, 1, 600, "NeverStuck")]
    vec = c.bg(c.gen, "GenBuffers", "thorough" if c.thorough else "quick", 6)
    tvec = c.bg(c.gen, "GenBuffers", "trace", 2, name="t")
    U = [("c17_s%s.cpp" % s, unit("c17.h", 'vp::reg_sized<vp::%s_of>("%s");' % (s, s))) for s in SORTERS]
    U += [("c17_t.cpp", unit("c17.h", *['vp::reg_traced<vp::%s_of>("%s");' % (s, s) for s in SORTERS]))]
    A = [("c17_d%s.cpp" % s, unit("c17.h", 'vp::reg_dynamic<vp::%s_of>("%s");' % (s, s))) for s in SORTERS]
    jobs = []
    for s in SORTERS:
        for k, n in enumerate(FIXED if s != "block" else FIXED[::3]):
            jobs.append('vp::reg_provider<vp::%s_of<vp::cu::fixed_buffer<%d>>, vp::%s>("%s fixed %d");' % (s, n, "PQ"[k % 2], s, n))
        for k, p in enumerate(("vp::cu::half", "vp::cu::sqrt", "vp::cu::log", "vp::Same", "vp::Twice", "vp::Conv")):
            jobs.append('vp::reg_provider<vp::%s_of<vp::cu::dynamic_buffer<%s>>, vp::%s>("%s %s");' % (s, p, "QP"[k % 2], s, p[4:].lstrip(":")))
        jobs.append('vp::reg_provider<vp::cs::%s_sorter<>, vp::Q>("%s default");' % (s, s))
    jobs.append('vp::reg_provider<vp::cs::grail_sorter<>, vp::NoDefault>("grail default, elements without a default constructor");')
    A += [("c17_p%d.cpp" % (b // 10), unit("c17.h", *jobs[b:b + 10])) for b in range(0, len(jobs), 10)]
    A.append(("c17_f.cpp", unit("c17.h",
        'vp::reg_fact("half", [](std::size_t n, std::size_t h, std::size_t, std::size_t) { return vp::dynamic_facts<vp::cu::half>(n, h); });',
        'vp::reg_fact("sqrt", [](std::size_t n, std::size_t, std::size_t q, std::size_t) { return vp::dynamic_facts<vp::cu::sqrt>(n, q); });',
        'vp::reg_fact("log", [](std::size_t n, std::size_t, std::size_t, std::size_t l) { return n ? vp::dynamic_facts<vp::cu::log>(n, l) : std::string("skip"); });',
        'vp::reg_fact("same", [](std::size_t n, std::size_t, std::size_t, std::size_t) { return vp::dynamic_facts<vp::Same>(n, n); });',
        'vp::reg_fact("twice", [](std::size_t n, std::size_t h, std::size_t, std::size_t) { return vp::dynamic_facts<vp::Twice>(h, 2 * h); });',
        'vp::reg_fact("fixed", [](std::size_t n, std::size_t, std::size_t, std::size_t) { std::string r;',
        *['if (r.empty()) r = vp::fixed_facts<%d>(n);' % n for n in FIXED], 'return r; });')))
    exe = c.bg(c.cxx, "c17", ["vp_main.cpp"] + U)
    aexe = c.bg(c.cxx, "c17a", ["vp_main.cpp"] + A, ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    vec, tvec, exe, aexe = wait(vec, tvec, exe, aexe)
    r = c.replay(exe, vec, name="cells", only=c.only)
    if r:
        c.notes["sorts_per_buffer_size"], c.notes["sorts_that_used_the_buffer"] = r["counters"][1], r["counters"][2]
    c.replay(aexe, vec, name="providers", only=c.only, env={"VP_NO_AS": "1", "ASAN_OPTIONS": "quarantine_size_mb=8:detect_leaks=0:allocator_may_return_null=1"})
    c.replay(exe, tvec, name="t", trace_dir=c.path("tr"), only=c.only or "trace/")
    c.validate("TraceBuffered", c.path("tr"), max_events=3000000 if c.thorough else 150000)
    wait(*mods)
