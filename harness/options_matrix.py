#!/usr/bin/env python3
"""C23: every combination of build options compiles."""
import argparse, glob, itertools, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vbuild

ap = argparse.ArgumentParser()
for a in ("seed", "cases", "shard"):
    ap.add_argument("--" + a, type=int, default=1)
for a in ("prop", "tier", "out"):
    ap.add_argument("--" + a, default="")
A = ap.parse_args()
R = {"evaluations": 0, "distinct": [], "stats": {"combinations": 0, "compiled_files": 0}, "samples": [], "violation_count": 0, "violations": []}
MODES = ["OFF", "NICE", "STRICT_VERBOSE", "DEBUG_OFF"]
FLAGS = ["-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSM_DISABLE_THREADSAFETY", "-DHSMBUILD_DEBUGGING"]
pc = vbuild.pkg(["glib-2.0", "glibmm-2.4", "Qt5Core"], "cflags")
core = sorted(f for f in glob.glob(vbuild.REPO + "/src/*.cpp") if not any(x in os.path.basename(f) for x in ("FreeRTOS", "Arduino")))
inner = [f for f in core if os.path.basename(f).lower().startswith(("hsmimpl", "hsm.cpp"))]       # which depend on the other options
mode = MODES[A.shard % len(MODES)]
todo = []
for n in range(8):
    flags = [f for i, f in enumerate(FLAGS) if n >> i & 1]
    for f in (core if n == 0 else inner):
        todo.append((n, flags, f))


def one(t):
    n, flags, f = t
    cmd = ["g++", "-std=c++17", "-fsyntax-only", "-w", "-fPIC", "-DHSM_LOGGING_MODE_" + mode, "-DPLATFORM_POSIX=1"] + flags + ["-I" + vbuild.REPO + "/include", "-I" + vbuild.REPO + "/src"] + pc + [f]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return t, r.returncode, r.stdout


with ThreadPoolExecutor(2) as ex:
    for (n, flags, f), rc, text in ex.map(one, todo):
        R["stats"]["compiled_files"] += 1
        if rc != 0:
            R["violation_count"] += 1
            if len(R["violations"]) < 4:
                R["violations"].append({"key": "build:" + mode + ":" + os.path.basename(f), "msg": "doesn't compile with traces " + mode + " and options " + (" ".join(flags) or "none"), "detail": text[-4000:]})
        if f == inner[-1]:
            R["stats"]["combinations"] += 1
            R["evaluations"] += 1
            R["distinct"].append(str(A.shard * 8 + n))
with open(A.out, "w") as f:
    json.dump(R, f)
