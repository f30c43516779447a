#!/usr/bin/env python3
"""check.py <property>: builds the harnesses of a property from /repo, runs them, merges what their monitors
observed, writes evidence/<property>.json and decides.

exit 0: held on everything explored;  exit 1 + VIOLATION line: broken;  exit 2: the check could not decide."""
import hashlib, json, os, re, subprocess, sys, time, signal, shutil, threading
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from jobs import JOBS, Job

VERIF = vbuild.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known(pid):
    """lines: 'finding: property=<id> key=<regular expression> :: <description>'"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (/\S+?):(\d+)")
TFRAME = re.compile(r"#\d+ (.+?) (/\S+?):(\d+)")


def frames(text):
    res = []
    for l in text.splitlines():
        m = FRAME.search(l) or TFRAME.search(l)
        if m and (m.group(2).startswith(vbuild.REPO + "/") or "/harness/" in m.group(2)):
            f = re.sub(r"\(.*", "", m.group(1)).strip()
            f = re.sub(r"<.*?>", "", f).split("::")
            res.append("::".join(f[-2:]))
    return res


def crash_key(rc, err):
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
    if m:
        body = err[m.start():m.start() + 6000]
        fr = [f for f in frames(body) if not f.startswith("main")]
        return "tsan:%s in %s" % (m.group(1).strip(), fr[0] if fr else "?")
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err) or re.search(r"ERROR: (LeakSanitizer: detected memory leaks)", err)
    if m:
        fr = frames(err[m.start():m.start() + 6000])
        return "asan:%s in %s" % (m.group(1).replace("LeakSanitizer: detected memory leaks", "leak"), fr[0] if fr else "?")
    m = re.search(r"(/\S+?):(\d+):\d+: runtime error: ([^\n]+)", err)
    if m:
        msg = re.sub(r"-?\d[\d.e+-]*", "N", m.group(3))[:80]
        return "ubsan:%s in %s" % (msg, os.path.basename(m.group(1)))
    if rc < 0:
        try:
            return "crash:" + signal.Signals(-rc).name
        except ValueError:
            return "crash:%d" % rc
    return None


class Run:
    def __init__(self, job, idx, seed, cmd, out, timeout, env):
        self.job, self.idx, self.seed, self.cmd, self.out, self.timeout, self.env = job, idx, seed, cmd, out, timeout, env
        self.rc, self.err, self.timed_out, self.data, self.skipped = None, "", False, None, False

    def go(self, deadline, found, known, relevant):
        """found: set as soon as some run observed a violation, the rest is skipped then"""
        for attempt in (1, 2):
            self.timed_out = False
            if found.is_set() or time.time() > deadline:
                self.skipped = True
                return self
            timeout = max(5, min(self.timeout, deadline - time.time()))
            if os.path.exists(self.out):
                os.remove(self.out)
            with open(self.out + ".err", "wb") as ef:
                p = subprocess.Popen(self.cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=self.env, start_new_session=True,
                                     cwd=os.path.dirname(self.out))
                try:
                    self.rc = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    self.timed_out = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    self.rc = p.wait()
            self.err = open(self.out + ".err", errors="replace").read()[-60000:]
            if not self.timed_out:
                break
        self.data = None
        if os.path.exists(self.out):
            try:
                self.data = json.load(open(self.out))
            except ValueError:
                self.data = None
        if self.timed_out or any(relevant(v["key"]) and not any(re.search(rx, v["key"]) for rx, _ in known) for v in (self.data or {}).get("violations", [])):
            found.set()
        return self


def builds_by_default():
    try:
        vbuild.build([("h_machine", "plain")])
        return True
    except vbuild.BuildError:
        return False


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = JOBS[pid]
    jobs = spec["jobs"]
    pairs = sorted({(j.target, j.cfg) for j in jobs if j.target and not (j.script and j.target not in vbuild.TARGETS) and j.in_tier(tier)})
    try:
        exes = vbuild.build(pairs)
        build_error = None
    except vbuild.BuildError as e:
        if not spec.get("options") or not builds_by_default():
            print("ERROR: build failed: %s" % e)
            return 2
        # every harness of this property is built with options of the library which are not the default ones
        build_error, jobs = str(e), []
    tb = time.time() - t0
    work = os.path.join(vbuild.BUILD, "run", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    runs = []
    n = 0
    for j in jobs:
        if not j.in_tier(tier):
            continue
        shards = j.shards[0 if tier == "quick" else 1]
        cases = j.cases[0 if tier == "quick" else 1]
        per = max(1, cases // shards)
        for k in range(shards):
            out = os.path.join(work, "r%d.json" % n)
            n += 1
            s = seed * 1000 + k
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=%d:allocator_may_return_null=1:detect_stack_use_after_return=0" % (1 if j.leaks else 0)
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
            env["QT_QPA_PLATFORM"] = "offscreen"
            env.pop("DISPLAY", None)
            env.update(j.env)
            args = ["--prop", pid, "--seed", str(s), "--cases", str(per), "--shard", str(k), "--tier", tier, "--out", out] + [a for a in j.args]
            if not j.script:
                cmd = [exes[(j.target, j.cfg)]] + args
            else:
                cmd = [sys.executable, os.path.join(VERIF, "harness", j.script)] + args
            runs.append(Run(j, k, s, cmd, out, j.timeout[0 if tier == "quick" else 1], env))
    known = load_known(pid)
    keys = spec.get("keys")
    other = {}

    def relevant(key):
        return not keys or re.search(keys, key) is not None

    found = threading.Event()
    deadline = t0 + (780 if tier == "quick" else 3500)
    with ThreadPoolExecutor(spec.get("parallel", 8)) as ex:
        done = list(ex.map(lambda r: r.go(deadline, found, known, relevant), runs))
    ev = 0
    distinct = set()
    stats, samples, viols, errors, known_hits = {}, [], [], [], {}
    nviol = 0

    def report(key, msg, detail, run):
        nonlocal nviol
        if not relevant(key):
            other[key] = other.get(key, 0) + 1       # belongs to another property
            return
        for rx, desc in known:
            if re.search(rx, key):
                known_hits[rx] = known_hits.get(rx, 0) + 1
                return
        nviol += 1
        viols.append((key, msg, detail, run))

    if build_error:
        viols.append(("build:options", "the library doesn't compile with one of its build options", build_error, None))
        nviol += 1
    for r in done:
        if r.skipped:
            if not found.is_set():
                errors.append("no time left for " + " ".join(r.cmd))
            continue
        d = r.data
        if d:
            ev += d["evaluations"]
            distinct.update(d["distinct"])
            for k, v in d["stats"].items():
                stats[k] = max(stats.get(k, 0), v) if k.startswith("max.") else stats.get(k, 0) + v
            if len(samples) < 6:
                samples += d["samples"][:2]
            for v in d["violations"]:
                report(v["key"], v["msg"], v["detail"], r)
        if r.timed_out:
            report("hang:" + (r.job.script or r.job.target), "did not finish within %ss (twice)" % r.timeout, r.err[-3000:], r)
        elif r.rc != 0:
            key = crash_key(r.rc, r.err)
            if key:
                report(key, "abnormal termination of the workload: " + key, r.err[-12000:], r)
            else:
                errors.append("%s exited with %s: %s" % (" ".join(r.cmd), r.rc, r.err[-800:]))
        elif not d:
            errors.append("%s wrote no result" % " ".join(r.cmd))
    inconclusive = []
    for k, v in spec.get("need", {}).items():
        want = v if tier == "quick" else v
        if stats.get(k, 0) < want:
            inconclusive.append("observed only %d of %s, need %d" % (stats.get(k, 0), k, want))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(distinct), "rule": spec["rule"],
            "samples": samples[:6] or ["none"],
            "observed": stats, "runs": len(done), "build_s": round(tb, 1),
            "configurations": sorted({"%s/%s" % (j.script or j.target, j.cfg) for j in jobs if j.in_tier(tier)}),
            "known_findings_observed": known_hits, "observations_of_other_properties": other, "inconclusive": inconclusive,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    rc = 0
    for rx, desc in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    if viols:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for key, msg, detail, r in viols:
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 8:
                break
            p = os.path.join(rd, "%s-%s.txt" % (pid, hashlib.sha256(key.encode()).hexdigest()[:10]))
            with open(p, "w") as f:
                f.write("property: %s\nkey: %s\nwhat: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 lib/check.py %s\ncommand: %s\n\n%s\n" %
                        (pid, key, msg, seed, tier, pid, " ".join(r.cmd) if r else "-", detail))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  key: %s\n  what: %s" % (key, msg[:400]))
        rc = 1
    elif errors or inconclusive:
        for e in errors[:5] + inconclusive:
            print("ERROR: " + e)
        rc = 2
    else:
        print("held: property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, seed, ev, len(distinct), time.time() - t0))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
