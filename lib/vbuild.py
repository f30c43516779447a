"""Builds harnesses from /repo's working tree into /verif/.build (ignored by git).

Objects are cached by the hash of the compiler command, the source and all headers, so a second
check in the same sandbox re-uses them and any change in /repo leads to a rebuild."""
import hashlib, os, glob, subprocess, sys, shutil, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
HARN = os.path.join(VERIF, "harness")

DEFS = ["-DHSM_LOGGING_MODE_OFF", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSMBUILD_DEBUGGING", "-DPLATFORM_POSIX=1"]
CFG = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "ubvar": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def pkg(mods, what):
    r = sh(["pkg-config", "--" + what] + mods)
    if r.returncode != 0:
        raise BuildError("pkg-config failed: " + r.stdout)
    return r.stdout.split()


def headers_hash():
    h = hashlib.sha256()
    files = []
    for root in (REPO + "/include", REPO + "/src", HARN):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h", ".inc"))]
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def core_sources(exclude_dispatchers=True):
    s = sorted(glob.glob(REPO + "/src/*.cpp"))
    special = ("HsmEventDispatcherArduino.cpp", "HsmEventDispatcherFreeRTOS.cpp", "HsmEventDispatcherGLib.cpp",
               "HsmEventDispatcherGLibmm.cpp", "HsmEventDispatcherQt.cpp")
    s = [f for f in s if os.path.basename(f) not in special]
    for d in ("common", "posix", "stl"):
        s += sorted(glob.glob(REPO + "/src/os/%s/*.cpp" % d))
    return s


def version_hpp():
    """cmake generates version.hpp; only needed by harnesses which include hsmcpp/version.hpp"""
    d = os.path.join(BUILD, "gen", "hsmcpp")
    os.makedirs(d, exist_ok=True)
    src = glob.glob(REPO + "/include/**/version.hpp.in", recursive=True) + glob.glob(REPO + "/**/version.hpp.in", recursive=True)
    return d


# name -> (sources in harness/, extra repository sources, pkg-config modules, extra flags, link flags)
TARGETS = {}


def target(name, srcs=None, repo=None, pkgs=None, flags=None, libs=None, core=True, moc=None, defs=None, repo_exclude=()):
    TARGETS[name] = dict(srcs=srcs or [name + ".cpp"], repo=repo or [], pkgs=pkgs or [], flags=flags or [], libs=libs or [],
                         core=core, moc=moc or [], defs=defs, repo_exclude=repo_exclude)


target("h_machine")
target("h_variant")
target("h_structure")
target("h_debuglog")
target("h_scxml", srcs=["scxml_rt.cpp"])


def disp_targets(name):
    """one executable per dispatcher from the same harness source"""
    src = [name + ".cpp"]
    target(name + "_std", srcs=src, flags=["-DDISP_STD"])
    target(name + "_glib", srcs=src, repo=["src/HsmEventDispatcherGLib.cpp"], pkgs=["glib-2.0"], flags=["-DDISP_GLIB"])
    target(name + "_glibmm", srcs=src, repo=["src/HsmEventDispatcherGLibmm.cpp"], pkgs=["glibmm-2.4"], flags=["-DDISP_GLIBMM"])
    # dispatchers which use their own main context
    target(name + "_glibctx", srcs=src, repo=["src/HsmEventDispatcherGLib.cpp"], pkgs=["glib-2.0"], flags=["-DDISP_GLIB", "-DOWN_CTX"])
    target(name + "_glibmmctx", srcs=src, repo=["src/HsmEventDispatcherGLibmm.cpp"], pkgs=["glibmm-2.4"], flags=["-DDISP_GLIBMM", "-DOWN_CTX"])
    target(name + "_qt", srcs=src, repo=["src/HsmEventDispatcherQt.cpp"], pkgs=["Qt5Core"], flags=["-DDISP_QT", "-fPIC"], moc=["include/hsmcpp/HsmEventDispatcherQt.hpp"])
    target(name + "_arduino", srcs=src, repo=["src/Hsm*.cpp", "src/hsm.cpp", "src/variant.cpp", "src/logging.cpp", "src/os/arduino/*.cpp", "src/os/common/*.cpp"],
           repo_exclude=("FreeRTOS", "GLib", "GLibmm", "Qt", "STD"), flags=["-DDISP_ARDUINO"], core=False, defs=ARDUINO_DEFS)
    # STD dispatcher as it's built where no POSIX semaphores are available (Windows)
    target(name + "_stdcv", srcs=src, repo=["src/Hsm*.cpp", "src/hsm.cpp", "src/variant.cpp", "src/logging.cpp", "src/os/windows/*.cpp", "src/os/stl/*.cpp", "src/os/common/*.cpp"],
           repo_exclude=("FreeRTOS", "GLib", "GLibmm", "Qt", "Arduino"), flags=["-DDISP_STD", "-DDISP_STDCV"], core=False, defs=STDCV_DEFS)


ARDUINO_DEFS = ["-DHSM_LOGGING_MODE_OFF", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DPLATFORM_ARDUINO=1", "-I" + HARN + "/arduino"]
STDCV_DEFS = ["-DHSM_LOGGING_MODE_OFF", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSMBUILD_DEBUGGING", "-DPLATFORM_WINDOWS=1", "-U__unix__", "-U__linux__"]
disp_targets("h_disp")
disp_targets("h_timers")
disp_targets("h_life")
disp_targets("h_growth")


# the same harness on other build options of the library
OPTIONS = {
    "verbose": ["-DHSM_LOGGING_MODE_STRICT_VERBOSE", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSMBUILD_DEBUGGING", "-DPLATFORM_POSIX=1"],
    "nice": ["-DHSM_LOGGING_MODE_NICE", "-DPLATFORM_POSIX=1"],
    "minimal": ["-DHSM_LOGGING_MODE_OFF", "-DHSM_DISABLE_THREADSAFETY", "-DPLATFORM_POSIX=1"],
    "nosafe": ["-DHSM_LOGGING_MODE_OFF", "-DPLATFORM_POSIX=1"],
}
for _o, _d in OPTIONS.items():
    target("h_machine_" + _o, srcs=["h_machine.cpp"], defs=_d, flags=["-DQUIET_STDOUT"])
    if _o != "minimal":
        for _h in ("h_disp", "h_timers", "h_life"):
            target("%s_std_%s" % (_h, _o), srcs=[_h + ".cpp"], defs=_d, flags=["-DDISP_STD", "-DQUIET_STDOUT"])
target("h_debuglog_verbose", srcs=["h_debuglog.cpp"], defs=OPTIONS["verbose"], flags=["-DQUIET_STDOUT"])


def compile_one(src, flags, hh):
    cmd = ["g++", "-std=c++17"] + flags
    key = hashlib.sha256()
    key.update(" ".join(cmd).encode())
    key.update(src.encode())
    key.update(open(src, "rb").read())
    key.update(hh.encode())
    obj = os.path.join(BUILD, "obj", key.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = sh(cmd + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        raise BuildError("cannot compile %s:\n%s" % (src, r.stdout[-3000:]))
    os.rename(tmp, obj)
    return obj


def build(pairs):
    """pairs: list of (target, config). Returns {(target, config): path}."""
    hh = headers_hash()
    res = {}
    with ThreadPoolExecutor(8) as ex:
        todo = {}
        running = {}

        def compile_once(src, flags, hh):
            k = (src, tuple(flags))
            if k not in running:
                running[k] = ex.submit(compile_one, src, flags, hh)
            return running[k]

        for (name, cfg) in pairs:
            t = TARGETS[name]
            defs = t["defs"] if t["defs"] is not None else DEFS
            inc = ["-I" + REPO + "/include", "-I" + REPO + "/src"]
            pc = pkg(t["pkgs"], "cflags") if t["pkgs"] else []
            lib_flags = CFG[cfg] + ["-w"] + defs + inc
            own = CFG[cfg] + ["-w"] + defs + ["-I" + HARN] + t["flags"] + inc + pc
            jobs = []
            # slow files (the harness) first
            for s in t["srcs"]:
                jobs.append(compile_once(os.path.join(HARN, s), own, hh))
            if t["core"]:
                for s in core_sources():
                    f = lib_flags + (["-fPIC"] if "-fPIC" in t["flags"] else [])
                    jobs.append(compile_once(s, f, hh))
            for s in t["repo"]:
                for path in sorted(glob.glob(os.path.join(REPO, s))):
                    if any(x in os.path.basename(path) for x in t["repo_exclude"]):
                        continue
                    jobs.append(compile_once(path, own, hh))
            for m in t["moc"]:
                os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
                out = os.path.join(BUILD, "gen", "moc_" + os.path.basename(m) + ".cpp")
                tmp = out + ".%d.tmp" % os.getpid()
                # NOTE: the path of the header is written relative to the output
                r = sh(["moc", "-I" + REPO + "/include", os.path.join(REPO, m), "-o", tmp])
                if r.returncode != 0:
                    raise BuildError("moc failed: " + r.stdout)
                if os.path.exists(out) and open(out).read() == open(tmp).read():
                    os.remove(tmp)
                else:
                    os.rename(tmp, out)
                jobs.append(compile_once(out, own, hh))
            todo[(name, cfg)] = (t, jobs)
        for k, (t, jobs) in todo.items():
            objs = [j.result() for j in jobs]
            key = hashlib.sha256((" ".join(objs) + str(t["libs"]) + k[1]).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (k[0], k[1], key))
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                libs = pkg(t["pkgs"], "libs") if t["pkgs"] else []
                tmp = exe + ".%d.tmp" % os.getpid()
                r = sh(["g++"] + CFG[k[1]] + objs + ["-o", tmp] + libs + t["libs"] + ["-lpthread", "-ldl"])
                if r.returncode != 0:
                    raise BuildError("cannot link %s:\n%s" % (k[0], r.stdout[-3000:]))
                os.rename(tmp, exe)
            res[k] = exe
    return res


def objects(name, cfg):
    """objects of a target (without the dispatchers of toolkits) and the flags to compile a file which uses them"""
    t = TARGETS[name]
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src"]
    own = CFG[cfg] + ["-w"] + DEFS + ["-I" + HARN] + t["flags"] + inc
    hh = headers_hash()
    res = []
    with ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(compile_one, os.path.join(HARN, s), own, hh) for s in t["srcs"]]
        jobs += [ex.submit(compile_one, s, CFG[cfg] + ["-w"] + DEFS + inc, hh) for s in core_sources()]
        res = [j.result() for j in jobs]
    return res, DEFS + ["-I" + HARN] + inc


if __name__ == "__main__":
    import time
    t0 = time.time()
    pairs = [tuple(a.split(":")) for a in sys.argv[1:]]
    for k, v in build(pairs).items():
        print(k, v)
    print("%.1fs" % (time.time() - t0))
