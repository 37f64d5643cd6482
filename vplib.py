"""Shared machinery of the checks: TLC runs, vector generation, building the
drivers against /repo/include, replay, trace validation, evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))
CXX = ["g++", "-std=c++17", "-O1", "-fno-ipa-modref", "-w", "-pipe"]  # g++ 13 -O1 loses stores made through a comparator held by value otherwise


class Broken(Exception):
    """The machinery itself failed: no verdict."""


class Ctx:
    def __init__(self, pid, tier, seed, keep=False):
        self.id, self.tier, self.seed, self.keep = pid, tier, seed, keep
        self.t0 = time.time()
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + ".", dir=base)
        self.slots = threading.Semaphore(NCPU)
        self.pool = cf.ThreadPoolExecutor(max_workers=64)
        self.lock = threading.Lock()
        self.violations = []          # dicts: case, vector, what
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.vectors = self.evals = self.cases = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.distinct = set()
        self.timing = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def bg(self, fn, *a, **k):
        return self.pool.submit(fn, *a, **k)

    # ---------------------------------------------------------------- processes
    def proc(self, cmd, env=None, timeout=600, cwd=None, slot=True):
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        if slot:
            self.slots.acquire()
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, cwd=cwd or self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout or ""
            return -999, out if isinstance(out, str) else out.decode(errors="replace")
        finally:
            self.timing.append((round(time.time() - t, 1), os.path.basename(str(cmd[-1]))))
            if slot:
                self.slots.release()

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=800, heap="2g", extra=()):
        tag = "%s.%s.%s" % (module, cfg or module, hashlib.md5(repr(env).encode()).hexdigest()[:8])
        meta = self.path("tlc." + tag)
        cmd = ["java", "-XX:+UseSerialGC", "-Xss16m", "-Xmx" + heap, "-XX:+UseStringDeduplication" if False else "-XX:TieredStopAtLevel=4",
               "-DTLA-Library=" + SPEC, "-cp", JAVA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *extra,
               os.path.join(SPEC, module + ".tla")]
        rc, out = self.proc(cmd, env, timeout)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
        return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "module": module, "cfg": cfg or module}

    def model(self, module, cfg=None, env=None, workers=2, timeout=800, expect_violation=None, heap="4g"):
        """Design-level model checking: must succeed on its own, it does not look at the code."""
        r = self.tlc(module, cfg, env, workers, timeout, heap=heap, extra=("-deadlock",))
        if expect_violation:
            if r["rc"] == 12 or ("Invariant " + expect_violation + " is violated") in r["out"]:
                with self.lock:
                    self.models.append({"module": module, "config": r["cfg"], "witness": expect_violation + " reachable"})
                return r
            raise Broken("%s/%s: expected %s to be reachable\n%s" % (module, cfg, expect_violation, r["out"][-2000:]))
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise Broken("specification %s/%s rejected by TLC (rc %s)\n%s" % (module, cfg, r["rc"], r["out"][-3000:]))
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.models.append({"module": module, "config": r["cfg"], "states": r["distinct"], "transitions": r["generated"]})
        self.log("model %s/%s: %d distinct states" % (module, r["cfg"], r["distinct"]))
        return r

    def impl_verdict(self, r, describe):
        """TLC explored a model extracted from the code: a violated invariant is a violation of the property."""
        if r["rc"] == 0 and "No error has been found" in r["out"]:
            return True
        m = re.search(r"Invariant (\w+) is violated", r["out"])
        if not m:
            raise Broken("%s/%s failed (rc %s)\n%s" % (r["module"], r["cfg"], r["rc"], r["out"][-3000:]))
        last = re.split(r"^State \d+:.*$", r["out"], flags=re.M)[-1]
        st = dict(re.findall(r"^/\\ (\w+) = (.*)$", last, re.M))
        case, vec = describe(st, m.group(1))
        with self.lock:
            self.violations.append({"case": case, "vector": vec, "what": "TLC: invariant %s is violated by the behaviour extracted from the code" % m.group(1)})
        return False

    def gen(self, module, plan=None, shards=1, cfg=None, timeout=600, heap="2g", name=None, **env):
        """Runs a generator module; returns the files it wrote."""
        outs = [self.path("%s.%d.ndjson" % (name or (module + ("." + plan if plan else "")), s)) for s in range(shards)]

        def one(s):
            e = {"VP_OUT": outs[s], "VP_SEED": self.seed, "VP_SHARD": s, "VP_NSHARDS": shards}
            if plan:
                e["VP_PLAN"] = plan
            e.update(env)
            r = self.tlc(module, cfg, e, 1, timeout, heap=heap)
            if r["rc"] != 0 or not os.path.exists(outs[s]):
                raise Broken("generator %s failed (rc %s)\n%s" % (module, r["rc"], r["out"][-3000:]))
        fs = [self.bg(one, s) for s in range(shards)]
        for f in fs:
            f.result()
        total = 0
        for o in outs:
            with open(o, "rb") as fh:
                for line in fh:
                    if line.strip():
                        total += 1
                        self.distinct.add(hashlib.md5(line).digest()[:10])
                        if len(self.samples) < 3 and 20 < len(line) < 300:
                            self.samples.append(json.loads(line))
        with self.lock:
            self.vectors += total
        self.log("%s%s: %d vectors" % (module, "/" + plan if plan else "", total))
        return outs

    # ---------------------------------------------------------------- building
    def cxx(self, name, units, flags=(), compiler=CXX, libs=("-lpthread",)):
        """Compiles the units (files in harness/, absolute paths, or (name, source text)) and links them."""
        objs, srcs = [], []
        for u in units:
            if isinstance(u, tuple):
                p = self.path(u[0])
                with open(p, "w") as f:
                    f.write(u[1])
            else:
                p = u if os.path.isabs(u) else os.path.join(HARNESS, u)
            srcs.append(p)
        failed = []

        def one(src):
            obj = self.path(name + "." + os.path.basename(src) + ".o")
            cmd = [*compiler, *flags, "-I" + REPO + "/include", "-I" + HARNESS, "-I" + self.dir, "-c", src, "-o", obj]
            rc, out = self.proc(cmd, timeout=500)
            if rc != 0:
                failed.append((src, out))
                return None
            return obj
        objs = [f.result() for f in [self.bg(one, s) for s in srcs]]
        if failed:
            self.compiler_sane()
            for src, out in failed:
                err = [l for l in out.splitlines() if re.search(r"\berror:", l)][:4]
                self.violations.append({"case": "compile " + os.path.basename(src), "vector": "",
                                        "what": "valid use of the library does not compile: " + " | ".join(err)[:1500]})
            objs = [o for o in objs if o]
        exe = self.path(name)
        if len(failed) == len(srcs) or any(os.path.basename(s) in ("vp_main.cpp",) for s, _ in failed):
            return None
        rc, out = self.proc([compiler[0], *[f for f in flags if f.startswith("-fsanitize")], *objs, "-o", exe, *libs], timeout=300)
        if rc != 0:
            if failed:
                return None
            raise Broken("link of %s failed\n%s" % (name, out[-3000:]))
        self.log("built", name, "(%d units)" % len(objs))
        return exe

    def compiler_sane(self):
        p = self.path("sane.cpp")
        open(p, "w").write("#include <vector>\n#include <algorithm>\nint main(){std::vector<int> v{2,1};std::sort(v.begin(),v.end());return v[0]!=1;}\n")
        rc, out = self.proc([*CXX, p, "-o", self.path("sane")], timeout=120)
        if rc != 0:
            raise Broken("the compiler does not work\n" + out[-1000:])
        # every public header must still be there: if /repo is not a cpp-sort tree there is nothing to judge
        if not os.path.isdir(os.path.join(REPO, "include", "cpp-sort")):
            raise Broken("no cpp-sort tree in " + REPO)

    # ---------------------------------------------------------------- replay
    def replay(self, exe, vectors, name="r", env=None, trace_dir=None, only=None, timeout=800, nproc=NCPU, hang=15, count=True):
        if exe is None:
            return None
        out = self.path(name + ".json")
        cmd = [exe, *vectors, "--out", out, "--nproc", str(nproc), "--hang", str(hang)]
        if trace_dir:
            os.makedirs(trace_dir, exist_ok=True)
            cmd += ["--trace", trace_dir]
        if only:
            cmd += ["--only", only]
        rc, log = self.proc(cmd, env, timeout, slot=False)
        if rc != 0 or not os.path.exists(out):
            raise Broken("driver %s failed (rc %s)\n%s" % (name, rc, log[-2000:]))
        with open(out, errors="replace") as f:
            r = json.load(f)
        with self.lock:
            if count:
                self.evals += r["evaluations"]
                self.cases += r["cases"]
            for f in r["failures"]:
                f["binary"] = name
                self.violations.append(f)
        self.log("replay %s: %d cases, %d evaluations, %d failures" % (name, r["cases"], r["evaluations"], len(r["failures"])))
        return r

    # ---------------------------------------------------------------- trace validation
    def validate(self, module, trace_dir, cfg=None, per_shard=18000, max_events=400000, corrupt=True, timeout=700, env=None, corrupt_event="assign"):
        """Traces recorded from the real code must be behaviours of the specification."""
        files = sorted(os.path.join(trace_dir, f) for f in os.listdir(trace_dir)) if os.path.isdir(trace_dir) else []
        calls, cur = [], []
        for f in files:
            for line in open(f, errors="replace"):
                line = line.strip()
                if not line:
                    continue
                if line.startswith('["call"') and cur:
                    calls.append(cur)
                    cur = []
                cur.append(line)
            if cur:
                calls.append(cur)
                cur = []
        if not calls:
            if self.violations:        # nothing recorded because everything crashed
                return
            raise Broken("no trace was recorded for " + module)
        import random
        random.Random(self.seed).shuffle(calls)
        shards, cur, total = [], [], 0
        for c in calls:
            if total >= max_events:
                break
            if len(cur) + len(c) > per_shard and cur:
                shards.append(cur)
                cur = []
            cur = cur + c
            total += len(c)
        shards.append(cur)

        def run(lines, tag):
            p = self.path("%s.%s.trace.ndjson" % (module, tag))
            with open(p, "w") as f:
                f.write("\n".join(lines) + "\n")
            return self.tlc(module, cfg, {"VP_TRACE": p, **(env or {})}, 1, timeout, heap="3g"), p

        def accepted(r):
            if "No error has been found" in r["out"]:
                return None
            m = re.search(r"accepted up to\D*(\d+)", r["out"])
            if m:
                return int(m.group(1))
            m = re.search(r"Invariant (\w+) is violated", r["out"])
            if m:
                ks = re.findall(r"^/\\ i = (\d+)", r["out"], re.M) or re.findall(r"\bi = (\d+)", r["out"])
                return int(ks[-1]) - 1 if ks else 0
            raise Broken("trace validation with %s failed (rc %s)\n%s" % (module, r["rc"], r["out"][-2500:]))

        futs = [(self.bg(run, s, "s%d" % k), s) for k, s in enumerate(shards)]
        if corrupt:
            bad = self.corrupted(calls, corrupt_event)
            fbad = self.bg(run, bad, "corrupt") if bad else None
        for f, lines in futs:
            r, p = f.result()
            k = accepted(r)
            with self.lock:
                self.states += r["distinct"]
                self.transitions += r["generated"]
            if k is not None:
                start = max(j for j in range(min(k, len(lines) - 1) + 1) if lines[j].startswith('["call"'))
                excerpt = lines[start:k + 2]
                label = next((l for l in excerpt if l.startswith('["call"')), "")
                self.violations.append({"case": "trace " + module, "vector": json.dumps(excerpt[:1] + excerpt[-12:]),
                                        "what": "recorded execution is not a behaviour of the specification: event %s of %s" % (lines[min(k, len(lines) - 1)], label[:200])})
            else:
                with self.lock:
                    self.traces += sum(1 for l in lines if l.startswith('["call"'))
                    self.events += len(lines)
        if corrupt and fbad:
            r, _ = fbad.result()
            if accepted(r) is None:
                raise Broken("a corrupted trace was accepted by " + module)
            self.notes["corrupted_trace_rejected"] = True
        self.log("validated %d calls / %d events with %s" % (self.traces, self.events, module))

    @staticmethod
    def corrupted(calls, kind):
        """One recorded call with one event dropped."""
        for c in calls:
            for j, l in enumerate(c):
                e = json.loads(l)
                if e[0] == kind:
                    return c[:j] + c[j + 1:]
        return None

    # ---------------------------------------------------------------- results
    def finish(self, level):
        known, fixed = load_known()
        fresh, seen_known = [], {}
        for v in self.violations:
            k = next((f for f in known if f["property"] == self.id and f["case"] == v["case"] and
                      (f["vector"] == "*" or f["vector"] == v["vector"])), None)
            if k:
                seen_known[k["what"]] = True
            else:
                fresh.append(v)
        for w in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, w))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces + self.evals,
               "samples": self.samples[:3] or [m for m in self.models[:2]],
               "recorded_traces_validated": self.traces, "recorded_events_validated": self.events,
               "replayed_behaviours": self.evals, "spec_vectors": self.vectors, "distinct_vectors": len(self.distinct),
               "driver_cases": self.cases, "models": self.models}
        cov.update(self.notes)
        if level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", self.evals)
            cov.setdefault("distinct_nontrivial", len(self.distinct))
            cov.setdefault("rule", "vectors emitted by TLC; distinct by content, each run against every driver case")
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if fresh:
            rep = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rep, exist_ok=True)
            shown = set()
            for v in fresh:
                key = (v["case"], v["what"][:60])
                if key in shown or len(shown) >= 8:
                    continue
                shown.add(key)
                p = os.path.join(rep, "%s-%d.json" % (self.id, len(shown)))
                with open(p, "w") as f:
                    json.dump({"property": self.id, "tier": self.tier, "seed": self.seed, **v,
                               "how": "python3 check.py %s --tier %s (VERIF_SEED=%d) reports it again; --only '%s' narrows it" % (self.id, self.tier, self.seed, v["case"])}, f, indent=1)
                print("VIOLATION property=%s replay=%s  %s: %s  [%s]" % (self.id, p, v["case"], v["what"][:300], v["vector"][:160]))
            print("%d violation(s)" % len(fresh))
        self.log("done: %s" % ("violated" if fresh else "held"))
        return 1 if fresh else 0

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)


def load_known():
    """known_findings.txt: 'finding: property=ID case=<case> vector=<vector or *> :: what' and 'fixed: ...' lines."""
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) case=(.*?) vector=(.*?) :: (.*)", line.strip())
            if m:
                known.append(dict(zip(("property", "case", "vector", "what"), m.groups())))
            elif line.startswith("fixed:"):
                fixed.append(line.strip())
    return known, fixed
