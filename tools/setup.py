#!/usr/bin/env python3
"""Sanity of the toolchain: every module of the specification parses."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
from concurrent.futures import ThreadPoolExecutor
def one(f):
    p = subprocess.run(["java", "-XX:+UseSerialGC", "-DTLA-Library=" + S, "-cp", CP, "tla2sany.SANY", os.path.join(S, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and "Could not" not in p.stdout and "*** Errors" not in p.stdout
    return f, ok, p.stdout
with ThreadPoolExecutor(6) as ex:
    for f, ok, out in ex.map(one, sorted(x for x in os.listdir(S) if x.endswith(".tla"))):
        if not ok:
            bad += 1
            print(f, out[-1500:])
print("setup:", "ok" if not bad else "%d modules rejected" % bad)
sys.exit(1 if bad else 0)
