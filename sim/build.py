#!/usr/bin/env python3
"""Content-addressed incremental build of the simulators from /repo's working tree.

  build.py [plain] [inst]     build the requested simulator binaries (default: both)

Translation units are taken from /repo/lib/Makefile.am (what the real build compiles)
and /repo/app; an object is reused only if the hash of its flags and of the content of
every /repo and /verif file it includes is unchanged (modification times play no part).
Build products live in /verif/build (ignored by git)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
COMMON = ["-std=c++17", "-O1", "-fopenmp", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          "-DHAVE_CONFIG_H", "-DHNCO_SIM=1", "-DCPP_STANDALONE", "-I" + SIM, "-I" + os.path.join(REPO, "lib")]
VARIANT = {"plain": [], "inst": ["-fsanitize=thread", "-DSIM_INST=1"]}
# The harness itself is never instrumented: it is the simulator, not the system.
HARNESS = ["main.cc", "core.cc", "omp_stub.cc", "vdisk.cc", "stack.cc", "zoo.cc", "props_ctrl.cc", "props_alg.cc",
           "props_io.cc", "props_app.cc", "props_learn.cc", "props_model.cc", "props_gen.cc", "props_par.cc", "props_misc.cc", "props_reach.cc"]
APPS = [("app/hnco.cc", "hnco_main"), ("app/hnco-mo.cc", "hnco_mo_main"), ("app/ffgen.cc", "ffgen_main"),
        ("app/mapgen.cc", "mapgen_main"), ("app/ffgen-options.cc", None), ("app/mapgen-options.cc", None)]
SKIP = {"hnco/functions/collection/python-function.cc",
        "hnco/multiobjective/functions/collection/python-function.cc", "gomea/src/utils/embed.cpp",
        "gomea/src/discrete/main.cpp"}

_hash = {}
_lock = threading.Lock()


def fhash(path):
    with _lock:
        if path in _hash:
            return _hash[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _hash[path] = h
    return h


def lib_sources():
    """The .cc/.cpp files libhnco is built from, read from lib/Makefile.am."""
    text = open(os.path.join(REPO, "lib/Makefile.am")).read()
    out = []
    for tok in re.findall(r"[\w./+-]+\.(?:cc|cpp)\b", text):
        p = os.path.join(REPO, "lib", tok)
        if tok not in SKIP and tok not in out and os.path.exists(p):
            out.append(tok)
    return out


def units(variant):
    us = []
    vf = VARIANT[variant]
    for s in lib_sources():
        us.append((os.path.join(REPO, "lib", s), "lib/" + s, COMMON + vf))
    for s, m in APPS:
        us.append((os.path.join(REPO, s), s, COMMON + vf + ["-I" + os.path.join(REPO, "app")] +
                   (["-Dmain=" + m] if m else [])))
    for s in HARNESS:
        p = os.path.join(SIM, s)
        if os.path.exists(p):
            us.append((p, "sim/" + s, COMMON + (["-DSIM_INST=1"] if variant == "inst" else []) +
                       ["-I" + os.path.join(REPO, "app"), "-O2"]))
    return us


def parse_dep(path):
    t = open(path).read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [d for d in t.split() if d.startswith(REPO + "/") or d.startswith(VERIF + "/")]


def compile_unit(variant, unit):
    src, name, flags = unit
    obj = os.path.join(BUILD, variant, name + ".o")
    stamp = obj + ".key"
    dep = obj + ".d"
    fkey = hashlib.sha256("\0".join(flags).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(stamp):
        try:
            st = json.load(open(stamp))
            if st["flags"] == fkey and all(fhash(d) == h for d, h in st["deps"].items()):
                return (obj, False, "")
        except (ValueError, KeyError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    p = subprocess.run([CXX] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", obj], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return (None, True, p.stdout)
    deps = {d: fhash(d) for d in parse_dep(dep)}
    with open(stamp, "w") as f:
        json.dump({"flags": fkey, "deps": deps}, f)
    return (obj, True, "")


def build(variant, log=sys.stderr):
    t0 = time.time()
    us = units(variant)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        # longest first
        big = {"fpoptimizer.cc": 0, "fparser.cc": 1, "function-factory.cc": 2}
        us.sort(key=lambda u: big.get(os.path.basename(u[0]), 9))
        rs = list(ex.map(lambda u: compile_unit(variant, u), us))
    bad = [r for r in rs if r[0] is None][:2]
    if bad:
        for r in bad:
            log.write(r[2][:3000])
        log.write("build: compilation failed\n")
        return None
    exe = os.path.join(BUILD, "sim-" + variant)
    objs = [r[0] for r in rs]
    key = hashlib.sha256(("\n".join(sorted(objs)) + "".join(sorted(open(o + ".key").read() for o in objs))).encode()).hexdigest()
    kf = exe + ".key"
    if any(r[1] for r in rs) or not os.path.exists(exe) or not os.path.exists(kf) or open(kf).read() != key:
        link = [CXX, "-o", exe] + objs + ["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=malloc,--wrap=calloc,--wrap=realloc",
                                         "-lboost_serialization", "-lgmpxx", "-lgmp", "-ldl"]
        p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            log.write(p.stdout[-6000:])
            log.write("build: link failed\n")
            return None
        open(kf, "w").write(key)
    n = sum(1 for r in rs if r[1])
    log.write("build %s: %d/%d units compiled in %.1f s\n" % (variant, n, len(rs), time.time() - t0))
    return exe


if __name__ == "__main__":
    want = sys.argv[1:] or ["plain", "inst"]
    ok = True
    for v in want:
        ok = build(v) is not None and ok
    sys.exit(0 if ok else 2)
