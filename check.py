#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: build the simulator from /repo's working tree, search seeds for a violation of PROP.

Exit 0: the property held on every simulated run.  Exit 1 with a VIOLATION line: a run breaks it, and its minimised
replay file reproduced in a fresh process.  Anything else (2): the check gives no answer.

check.py --setup            build both simulators
check.py --replay FILE      replay one file (exit 0: reproduced exactly)
check.py --determinism N    every property: N runs, hashes from two processes must agree"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "sim"))
import build as B

META = json.load(open(os.path.join(V, "sim/props.json")))
KNOWN = os.path.join(V, "KNOWN-FINDINGS.txt")
NW = 8


def known_findings(prop):
    """Lines 'known: property=<id> class=<glob> | text' and 'fixed: property=<id> <commit> <text>'."""
    out = []
    for l in open(KNOWN):
        l = l.strip()
        if l.startswith("known: property=%s " % prop):
            head, text = l.split(" | ", 1)
            out.append((head.split("class=", 1)[1].strip(), text.strip()))
    return out


def run_check(prop, tier, seed):
    t0 = time.time()
    meta = META["properties"][prop]
    variant = meta.get("variant", "plain")
    exe = B.build(variant)
    if exe is None:
        print("check: /repo does not build", file=sys.stderr)
        return 2
    t1 = time.time()
    runs, seconds = meta["quick"] if tier == "quick" else meta["thorough"]
    scratch = tempfile.mkdtemp(prefix="hnco-sim-")
    replays = os.path.join(V, "replays")
    os.makedirs(replays, exist_ok=True)
    for f in glob.glob(os.path.join(replays, prop + "-*.replay")):
        os.unlink(f)
    try:
        kf = os.path.join(scratch, "known")
        kn = known_findings(prop)
        with open(kf, "w") as f:
            for cls, _ in kn:
                f.write(prop + "\t" + cls + "\n")
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
        ps = []
        for w in range(NW):
            err = open(os.path.join(scratch, "err%d" % w), "w+")
            ps.append((subprocess.Popen([exe, "batch", prop, str(seed), str(w), str(NW), str(seconds), str(runs), scratch, tier, kf],
                                        stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=scratch), err))
        bad = False
        for w, (p, err) in enumerate(ps):
            rc = p.wait()
            err.seek(0)
            e = err.read()
            if e:
                sys.stderr.write(e[:4000])
            if rc != 0:
                sys.stderr.write("check: worker %d ended with %d\n" % (w, rc))
                bad = True
        t2 = time.time()
        ws = []
        for w in range(NW):
            f = os.path.join(scratch, "%s.w%d.json" % (prop, w))
            if os.path.exists(f):
                ws.append(json.load(open(f)))
        vs = sorted((w["violation"] for w in ws if w["violation"]), key=lambda v: (len(v["plan"]), v["index"]))
        confirmed = None
        for v in vs:
            r = subprocess.run([exe, "replay", v["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode == 0:
                dst = os.path.join(replays, os.path.basename(v["replay"]))
                shutil.copy(v["replay"], dst)
                confirmed = (v, dst)
                break
            sys.stderr.write("check: %s does not reproduce in a fresh process; not reported\n%s\n" % (v["replay"], r.stdout[-600:]))
            bad = True
        if any(w["unreproducible"] for w in ws):
            bad = True
        runs_done = sum(w["runs"] for w in ws)
        covers = set()
        counters, kh = {}, {}
        for w in ws:
            covers.update(w["covers"])
            for k, n in w["counters"].items():
                counters[k] = counters.get(k, 0) + n
            for k, n in w["known"].items():
                kh[k] = kh.get(k, 0) + n
        search = max(1e-9, t2 - t1)
        faults = {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("fault:")}
        other = {k: n for k, n in sorted(counters.items()) if not k.startswith("fault:")}
        samples = [s for w in ws for s in w["samples"]][:3]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"),
            "coverage": {
                "evaluations": runs_done,
                "distinct_nontrivial": len(covers),
                "rule": META["common_rule"] + " " + meta["rule"],
                "samples": samples,
                "nontrivial_runs": sum(w["nontrivial"] for w in ws),
                "runs_per_hour": round(3600 * runs_done / search),
                "seeds": "run i of property P uses the stream mix(mix(VERIF_SEED, P), i), i = 0..%d" % (runs - 1),
                "runs_planned": runs,
                "time_cap_reached": any(w["timed_out"] for w in ws),
                "simulated_seconds": round(sum(w["sim_time"] for w in ws), 3),
                "simulator_events": sum(w["steps"] for w in ws),
                "faults_injected": faults,
                "outcomes": other,
                "distinct_measure": meta.get("measure", META["common_measure"]),
                "determinism_rechecks": sum(w["rechecked"] for w in ws),
                "components_real": meta.get("real", META["common_real"]),
                "components_stubbed": meta.get("stub", META["common_stub"]),
                "known_finding_hits": kh,
            },
            "assumptions": META["common_assumptions"] + meta.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if confirmed else 0,
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for cls, text in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        print("%s %s: %d runs (%d distinct non-trivial), %d events, faults %s, %.1f s build + %.1f s search" % (
            prop, tier, runs_done, len(covers), ev["coverage"]["simulator_events"], faults, t1 - t0, search))
        if confirmed:
            v, path = confirmed
            print("violation class %s\n  %s" % (v["class"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if bad:
            return 2
        if not covers:
            sys.stderr.write("check: no run exercised the property\n")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism(n):
    rc = 0
    for prop, meta in META["properties"].items():
        exe = B.build(meta.get("variant", "plain"), open(os.devnull, "w"))
        if exe is None:
            return 2
        outs = []
        for i in range(2):
            e = {"PATH": os.environ["PATH"], "FILLER": "x" * (1 + 5000 * i)}
            ps = [subprocess.Popen([exe, "hashes", prop, "7", str(n * w // NW), str(n * (w + 1) // NW)], stdout=subprocess.PIPE, text=True, env=e)
                  for w in range(NW)]
            outs.append("".join(p.communicate()[0] for p in ps))
        same = outs[0] == outs[1] and outs[0].count("\n") == n
        print("%s: %d runs in two processes each: %s" % (prop, n, "identical" if same else "DIFFERENT"))
        if not same:
            a, b = outs[0].split("\n"), outs[1].split("\n")
            print("  first:", next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b))))
            rc = 1
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return 0 if all(B.build(v) for v in ("plain", "inst")) else 2
    if a and a[0] == "--determinism":
        return determinism(int(a[1]) if len(a) > 1 else 400)
    if a and a[0] == "--replay":
        v = next((l.split(": ")[1].strip() for l in open(a[1]) if l.startswith("@variant: ")), "plain")
        exe = B.build(v)
        return 2 if exe is None else subprocess.run([exe, "replay", a[1], "verbose"]).returncode
    if not a or a[0] not in META["properties"]:
        print(__doc__, file=sys.stderr)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(a[0], tier, int(os.environ.get("VERIF_SEED", "1") or "1"))


if __name__ == "__main__":
    sys.exit(main())
