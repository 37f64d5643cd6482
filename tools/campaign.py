#!/usr/bin/env python3
"""Mutation campaign (a development tool, no part of the checks): makes small changes to one header of a scratch
copy and runs reduced versions of the checks on them: only the sorters/adapters given, no TLC, vectors generated once.
  campaign.py vectors Cxx...                       generate the vectors once
  campaign.py run FILE names(comma separated) Cxx,Cyy,... COUNT [SEED]
  campaign.py one DIR names Cxx,Cyy,...            reduced checks on a tree"""
import json, os, random, re, shutil, subprocess, sys, concurrent.futures as cf, threading, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/camp"
os.makedirs(W, exist_ok=True)

def mini(check, names, gen=False):
    sys.path.insert(0, V)
    import vplib
    class Mini(vplib.Ctx):
        def model(self, *a, **k): return None
        def validate(self, *a, **k): return None
        def gen(self, module, plan=None, shards=1, cfg=None, timeout=600, heap="2g", name=None, **env):
            d = os.path.join(W, "vec"); os.makedirs(d, exist_ok=True)
            base = "%s.%s.%s" % (module, plan, name) + "".join("." + k + str(v) for k, v in sorted(env.items()))
            outs = [os.path.join(d, base + ".%d_%d.ndjson" % (s, shards)) for s in range(shards)]
            if all(os.path.exists(o) for o in outs): return outs
            if not gen: raise SystemExit("no vectors for " + base)
            got = super().gen(module, plan, shards, cfg, timeout, heap, name, **env)
            for g, o in zip(got, outs): shutil.copy(g, o)
            return outs
        def cxx(self, name, units, flags=(), compiler=vplib.CXX, libs=("-lpthread",)):
            if gen: return None
            inc = []
            if names != "*":
                keep = set(names.split(","))
                for h in ("sorters_list.h", "adapters_list.h"):
                    s = open(os.path.join(V, "harness", h)).read()
                    s = re.sub(r"X\((\w+), ([^()]*)\)", lambda m: m.group(0) if m.group(1) in keep else "", s)
                    p = self.path(h); open(p, "w").write(s); inc += ["-include", p]
            heads, bodies, objs = [], [], []
            for k, u in enumerate(units):
                text = u[1] if isinstance(u, tuple) else None
                fn = u[0] if isinstance(u, tuple) else u
                if text is None:
                    p = u if os.path.isabs(u) else os.path.join(V, "harness", u)
                    text = open(p).read()
                    if fn in ("vp_main.cpp", "tracked.cpp", "alloc.cpp") or "VP_UNIT" not in text:
                        o = os.path.join(W, fn + "_" + name + ".o")
                        if fn in ("vp_main.cpp", "tracked.cpp", "alloc.cpp"): o = os.path.join(W, fn + ".o")
                        else: o = self.path(fn + ".o")
                        if not os.path.exists(o):
                            rc, out = self.proc([*compiler, *flags, "-I" + vplib.REPO + "/include", "-I" + vplib.HARNESS, "-c", p, "-o", o])
                            if rc: raise vplib.Broken(out[-500:])
                        objs.append(o); continue
                if names != "*" and "VP_" not in text.replace("VP_UNIT", ""): continue
                if names != "*" and "_SORTERS(" not in text and "_ADAPTERS(" not in text: continue
                for l in text.splitlines():
                    if l.startswith("#include") and l not in heads: heads.append(l)
                bodies.append("namespace u%d {\n%s\n}" % (k, "\n".join(l for l in text.splitlines() if not l.startswith("#include"))))
            src = self.path(name + "_all.cpp"); open(src, "w").write("\n".join(heads + bodies) + "\n")
            exe = self.path(name)
            rc, out = self.proc([*compiler, *flags, *inc, "-I" + vplib.REPO + "/include", "-I" + vplib.HARNESS, "-I" + self.dir, src, *objs, "-o", exe, *libs], timeout=900)
            if rc:
                self.violations.append({"case": "compile", "vector": "", "what": (re.findall(r"error: .*", out) or [out[-300:]])[0]})
                return None
            return exe
        def replay(self, exe, vectors, name="r", **k):
            if exe is None: return None
            k["name"] = name
            k["nproc"] = int(os.environ.get("VP_NPROC", "1")); k["hang"] = 8; k["timeout"] = 400
            return super().replay(exe, vectors, **k)
    import checks
    c = Mini(check, "quick", 1)
    c.only = None
    try:
        m = importlib.import_module("checks." + check)
        try: m.run(c)
        except vplib.Broken as e:
            if not c.violations: return ["broken: " + str(e)[:200]]
        return ["%s: %s" % (v["case"], v["what"][:120]) for v in c.violations]
    finally: c.close()

def mutants(path, count, seed):
    s = open(path).read().split("\n")
    out = []
    for i, l in enumerate(s):
        t = l.strip()
        if not t or t.startswith(("//", "#", "*", "/*", "CPPSORT_ASSERT", "using ", "template", "typename", "auto&& comp =", "auto&& proj =", "namespace")) or "static_assert" in t or "enable_if" in t: continue
        code = l.split("//")[0]
        def sub(a, b, tag):
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code: out.append((i, n, tag))
        sub(r" < ", " <= ", "lt"); sub(r" <= ", " < ", "le"); sub(r" > ", " >= ", "gt"); sub(r" >= ", " > ", "ge")
        sub(r" == ", " != ", "eq"); sub(r" != ", " == ", "ne"); sub(r" && ", " || ", "and"); sub(r" \|\| ", " && ", "or")
        sub(r" \+ ", " - ", "plus"); sub(r" - ", " + ", "minus"); sub(r" [+-] 1\b", "", "one"); sub(r"\bnot comp\(", "comp(", "not"); sub(r"(?<!not )\bcomp\(", "not comp(", "neg")
        sub(r"(?<![\w.])(\d+)(?![\w.])", None, "") if False else None
        for m in re.finditer(r"(?<![\w.<])(\d+)(?![\w.>])", code):
            v = int(m.group(1))
            for nv in (v + 1, v - 1):
                if nv >= 0: out.append((i, code[:m.start()] + str(nv) + code[m.end():], "const"))
        m = re.match(r"(.*?)(not )?comp\(([^,]*(?:\([^()]*\))?[^,]*), (.*)\)(.*)$", code)
        if m and m.group(3).count("(") == m.group(3).count(")"):
            # swapped arguments, and ties decided the other way
            d, rest, depth = None, m.group(4) + ")" + m.group(5), 0
            for k, ch in enumerate(rest):
                if ch == "(": depth += 1
                if ch == ")":
                    if depth == 0: d = k; break
                    depth -= 1
            if d is not None:
                b, tail = rest[:d], rest[d + 1:]
                for rep in range(3 if m.group(3).startswith("proj") else 2): 
                    out.append((i, m.group(1) + ("" if m.group(2) else "not ") + "comp(%s, %s)" % (b, m.group(3)) + tail, "tie"))
        if re.match(r"^(\+\+|--)?[\w\[\]*.>-]+(\+\+|--)?( [-+*/]?= [^;]*)?;$", t) and not t.startswith(("return", "break", "continue")): out.append((i, l.replace(t, ""), "del"))
        if t in ("break;", "continue;"): out.append((i, l.replace(t, ";"), "del"))
        sub(r"^(\s*)((?:detail::|utility::)?(?:iter_swap|iter_move|move|rotate|reverse|swap)\([^;]*\);)$", r"\1", "delcall")
    seen, uniq = set(), []
    for m in out:
        if m[:2] not in seen or m[2] == "tie": uniq.append(m); seen.add(m[:2])
    random.Random(seed).shuffle(uniq)
    res, got = [], set()
    for m in uniq:
        if m[:2] in got: continue
        got.add(m[:2]); res.append(m)
        if len(res) == count: break
    return s, res

def run(f, names, checks, count, seed):
    src = os.path.join("/repo/include/cpp-sort", f)
    s, ms = mutants(src, count, seed)
    lk, free = threading.Lock(), list(range(8))
    def one(m):
        i, line, tag = m
        with lk: k = free.pop()
        d = "%s/t%d" % (W, k)
        try:
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree("/repo/include", d + "/include")
            t = list(s); t[i] = line
            open(os.path.join(d, "include/cpp-sort", f), "w").write("\n".join(t))
            for c in checks:
                p = subprocess.run([sys.executable, __file__, "one", d, names, c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VP_REPO=d))
                o = p.stdout.strip().split("\n")[-1]
                if p.returncode: return m, c, o
            return m, None, o
        finally:
            with lk: free.append(k)
    caught = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for m, c, o in ex.map(one, ms):
            key = c or "MISSED"
            caught[key] = caught.get(key, 0) + 1
            if c is None or "broken" in o: print("  %s %s:%d [%s]\n      - %s\n      + %s   %s" % (key, f, m[0] + 1, m[2], s[m[0]].strip(), m[1].strip(), o[:150] if c else ""), flush=True)
            elif "compile" in o: caught["compile"] = caught.get("compile", 0) + 1
    print("%s: %s" % (f, caught), flush=True)

a = sys.argv
if a[1] == "vectors":
    for c in a[2:]: print(c, mini(c, "*", True))
elif a[1] == "one":
    for c in a[4].split(","):
        r = mini(c, a[3])
        if r: print("%s %s" % (c, r[0])); os._exit(1)
    os._exit(0)
elif a[1] == "run":
    run(a[2], a[3], a[4].split(","), int(a[5]), int(a[6]) if len(a) > 6 else 1)
