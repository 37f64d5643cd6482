#!/usr/bin/env python3
"""Planted bugs.  plant.py new ID PROP FILE <<< JSON   |  plant.py confirm ID...  |  plant.py check ID [Cxx...]
Scratch copies of /repo live in /tmp/plant; a private mount namespace shows one as /repo for the build and the tests."""
import json, os, subprocess, sys, shutil, tempfile, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
P = "/tmp/plant"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def slot(k, build=True):
    d = "%s/r%s" % (P, k)
    if not os.path.isdir(d):
        os.makedirs(P, exist_ok=True)
        if build: sh(["cp", "-a", "/repo", d])
        else: sh(["git", "clone", "-q", "/repo", d])
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s fetch -q /repo HEAD; git -C %s checkout -q -f FETCH_HEAD; git -C %s clean -fdq -e _build" % (d, d, d))
    return d
def new(i, prop, spec):
    """spec: {needs, breaks, edits: [[file, old, new]...], demo: c++ text, flags}"""
    d = slot("n", False)
    for f, old, nw in spec["edits"]:
        p = os.path.join(d, "include/cpp-sort", f)
        s = open(p).read()
        if s.count(old) != 1: sys.exit("%s: %d occurrences of %r" % (f, s.count(old), old[:60]))
        open(p, "w").write(s.replace(old, nw))
    o = os.path.join(SEED, i); os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(sh("git -C %s diff" % d).stdout)
    open(o + "/demo.cpp", "w").write(spec["demo"])
    open(o + "/demo.sh", "w").write('#!/bin/sh\nd=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\ng++ -std=c++17 %s -w -Iinclude "$(dirname "$0")/demo.cpp" -o "$d/demo" && timeout 250 "$d/demo"\n' % spec.get("flags", "-O1"))
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    r0 = sh(["sh", o + "/demo.sh"], cwd="/repo"); r1 = sh(["sh", o + "/demo.sh"], cwd=d)
    print(i, "demo clean:", r0.returncode, "patched:", r1.returncode, r0.stdout[-300:] if r0.returncode else "", r1.stdout[-200:])
def confirm(i, k):
    d = slot(k)
    o = os.path.join(SEED, i)
    t = tempfile.mktemp(prefix="plant")
    r = sh("git -C %s apply %s/patch.diff" % (d, o))
    if r.returncode: return i, "patch does not apply: " + r.stdout
    r = sh(["unshare", "-m", "sh", "-c", "mount --bind %s /repo && bash /opt/vp/build.sh > %s.b 2>&1; echo build $?; bash /opt/vp/test.sh %s.o 2>&1 | tail -1; cd /repo; sh %s/demo.sh >/dev/null 2>&1; echo demo $?" % (d, t, t, o)])
    out = " / ".join(r.stdout.split("\n"))
    try:
        b = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open(t + ".o"))
        out += " keys " + str({k: (len(v) if hasattr(v, "__len__") else v) for k, v in res.items()})
        if isinstance(res.get("failed"), list): out += " FAILED " + ", ".join(map(str, res["failed"]))[:300]
    except Exception as e: out += " (%s)" % e
    if "build 0" not in r.stdout: out += open(t + ".b").read()[-600:]
    slot(k)
    return i, out
def check(i, props):
    d = slot("c" + i, False)
    r = sh("git -C %s apply %s/patch.diff" % (d, os.path.join(SEED, i)))
    if r.returncode: sys.exit(r.stdout)
    p = props or [json.load(open(os.path.join(SEED, i, "meta.json")))["property"]]
    for c in p:
        r = sh(["python3", "check.py", c, "--tier", "quick"], cwd=V, env=dict(os.environ, VP_REPO=d))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        print(i, c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed", (v or [r.stdout[-300:]])[0][:260], flush=True)
    shutil.rmtree(d)
if sys.argv[1] == "new":
    new(sys.argv[2], sys.argv[3], json.load(sys.stdin))
elif sys.argv[1] == "confirm":
    K = 3; q = list(range(K)); lk = threading.Lock()
    def one(i):
        with lk: k = q.pop()
        try: return confirm(i, k)
        finally:
            with lk: q.append(k)
    with cf.ThreadPoolExecutor(K) as ex:
        for i, out in ex.map(one, sys.argv[2:]): print(i, out, flush=True)
elif sys.argv[1] == "check":
    ids = [a for a in sys.argv[2:] if not a.startswith("C") or not a[1:].isdigit()]
    pr = [a for a in sys.argv[2:] if a.startswith("C") and a[1:].isdigit()]
    for i in ids: check(i, pr)
