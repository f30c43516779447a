#!/usr/bin/env python3
"""C22: logs are read with the library which hsmdebugger uses (yaml.safe_load) and compared with what h_debuglog understood."""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
try:
    import yaml
except ImportError:
    vt = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
    if os.environ.get("DEBUGLOG_VT") or not os.path.exists(vt):
        yaml = None
    else:
        os.execve(vt, [vt] + sys.argv, dict(os.environ, DEBUGLOG_VT="1"))
import vbuild

ap = argparse.ArgumentParser()
for a in ("seed", "cases", "shard"):
    ap.add_argument("--" + a, type=int, default=1)
for a in ("prop", "tier", "out"):
    ap.add_argument("--" + a, default="")
A = ap.parse_args()
R = {"evaluations": 0, "distinct": [], "stats": {}, "samples": [], "violation_count": 0, "violations": []}


def violate(key, msg, detail):
    R["violation_count"] += 1
    if len(R["violations"]) < 8:
        R["violations"].append({"key": "debuglog:" + key, "msg": msg, "detail": detail[-6000:]})


def same(y, t):
    if isinstance(y, bool):
        return t == ("true" if y else "false")
    if isinstance(y, int):
        return str(y) == t
    if isinstance(y, float):
        return abs(y - float(t)) < 1e-5
    if y is None:
        return t == ""
    return y == t or y.encode("utf-8").decode("latin1") == t


exe = vbuild.build([("h_debuglog", "plain")])[("h_debuglog", "plain")]
work = tempfile.mkdtemp(prefix="hsmyaml")
try:
    if yaml:
        loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
        p = subprocess.run([exe, "--mode", "steps", "--seed", str(A.seed + 500), "--cases", str(A.cases), "--keep", work, "--out", os.path.join(work, "r.json")], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            print(p.stderr[-2000:], file=sys.stderr)
            sys.exit(p.returncode if p.returncode > 0 else 4)
        for f in sorted(glob.glob(work + "/*.hsmlog")):
            if not os.path.exists(f + ".json"):
                continue        # already reported by the harness
            R["evaluations"] += 1
            text = open(f, "rb").read()
            try:
                got = yaml.load(text, Loader=loader)
            except Exception as e:
                violate("yaml", "log is not valid YAML: " + str(e).splitlines()[0][:200], str(e) + text.decode("latin1"))
                continue
            want = json.load(open(f + ".json"))
            if (got or []) and len(got) != len(want):
                violate("yaml", "%d entries, expected %d" % (len(got), len(want)), text.decode("latin1"))
                continue
            for g, w in zip(got or [], want):
                R["stats"]["yaml_entries"] = R["stats"].get("yaml_entries", 0) + 1
                for k in w:
                    if k not in g:
                        violate("yaml", "no field " + k, str(g))
                    elif isinstance(w[k], list):
                        l = g[k] or []
                        if len(l) != len(w[k]) or not all(same(y, t) for y, t in zip(l, w[k])):
                            violate("yaml", "%s is read as %r, written as %r" % (k, l, w[k]), str(g))
                    elif not same(g[k], w[k]):
                        violate("yaml", "%s is read as %r, written as %r" % (k, g[k], w[k]), str(g))
            R["stats"]["yaml_logs"] = R["stats"].get("yaml_logs", 0) + 1
    else:
        R["stats"]["yaml_library_missing"] = 1
finally:
    shutil.rmtree(work, ignore_errors=True)
json.dump(R, open(A.out, "w"))
