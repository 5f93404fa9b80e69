#!/usr/bin/env python3
"""Decides one property by deterministic simulation: check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: a line "VIOLATION property=<id> replay=<path>".  Exit 2 or 3: the check itself failed."""
import argparse, json, os, subprocess, sys, tempfile, time, shutil, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B

# property -> (variant, runs of the quick tier)
CFG = {
    "C01": ("asan", 20000), "C02": ("asan", 20000), "C03": ("asan", 20000), "C04": ("asan", 20000), "C05": ("asan", 20000),
    "C06": ("asan", 20000), "C07": ("asan", 20000), "C08": ("asan", 20000), "C09": ("asan", 12000), "C10": ("thr", 6000),
    "C11": ("asan", 20000), "C12": ("asan", 20000), "C13": ("asan", 20000), "C14": ("asan", 20000), "C15": ("asan", 20000),
    "C16": ("asan", 20000), "C17": ("asan", 20000), "C18": ("asan", 14000), "C19": ("asan", 14000), "C20": ("asan", 10000), "C21": ("asan", 24000), "C22": ("asan", 20000),
}
THOROUGH_FACTOR = 40
QUICK_CAP = float(os.environ.get("SIM_QUICK_CAP", 45))
THOROUGH_CAP = float(os.environ.get("SIM_THOROUGH_CAP", 600))
KNOWN = os.path.join(V, "KNOWN_FINDINGS.txt")
REAL = ["libmseed/*.c (all of the library, from /repo's working tree, with LIBMSEED_URL)", "src/*.c (the msi program, main renamed)", "glibc stdio buffering (on top of simulated streams)"]
STUB = ["libcurl (simulated servers and transfers)", "files, descriptors, standard streams (simulated disk behind stdio)", "malloc family and the configurable allocator (simulated, tracks every block)",
        "clock, time zone, sleep, select, environment, process exit (simulated)", "thread scheduling (real threads released one at a time by the seeded scheduler; C10 only)"]

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:symbolize=0:handle_segv=1:malloc_context_size=6"
    e["UBSAN_OPTIONS"] = "exitcode=77:print_stacktrace=0"
    e.pop("LIBMSEED_LEAPSECOND_FILE", None)
    return e

def known_for(prop):
    """signatures "scenario|class" listed as known findings of the property"""
    k = {}
    try:
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("known: "): continue
            f = l[7:].split(" ", 2)
            if f[0] == "property=" + prop and f[1].startswith("sig="): k[f[1][4:]] = f[2] if len(f) > 2 else ""
    except OSError: pass
    return k

def workers(sim, prop, seed, runs, n, cap, tmp, known, sub, tag):
    ps = []
    stop = os.path.join(tmp, tag + ".stop")
    for i in range(n):
        out = os.path.join(tmp, "%s.%d" % (tag, i))
        cmd = [sim, "run", "--prop", prop, "--seed", str(seed), "--start", str(i), "--stride", str(n), "--runs", str(runs), "--time", str(cap), "--out", out, "--known", "\n".join(known), "--sub", str(sub), "--stop", stop]
        ps.append((subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT), out))
    res = []
    for p, out in ps:
        o, _ = p.communicate()
        if p.returncode != 0: raise RuntimeError("worker failed (%d): %s" % (p.returncode, o.decode(errors="replace")[-800:]))
        res.append(json.load(open(out)))
    return res

def replay_run(sim, prop, rep, tmp):
    t = os.path.join(tmp, "trace")
    with open(t, "w") as f: f.write(",".join(map(str, rep["trace"])))
    p = subprocess.run([sim, "replay", "--prop", prop, "--scenario", rep["scenario"], "--trace", t, "--quiet", "1"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode(errors="replace")
    last = [l for l in out.splitlines() if l.startswith("RESULT ")]
    f = last[-1][7:].split("|") if last else ["?", "", ""]
    return p.returncode, f[0], f[-1], out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay"); ap.add_argument("--runs", type=int); ap.add_argument("--cap", type=float)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    try: seed = int(a.seed)
    except ValueError: seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:15], 16)
    variant, qruns = CFG[prop]
    print("property %s, tier %s, VERIF_SEED=%d" % (prop, a.tier, seed), flush=True)
    sim = B.build((variant,), prop)[variant]
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="simrun.", dir=B.OUT)
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            rc, cls, h, out = replay_run(sim, prop, rep, tmp)
            sys.stdout.write(out)
            if rc == 1:
                print("replay: class %s, hash %s (recorded: %s, %s)" % (cls, h, rep["class"], rep["hash"]))
                print("VIOLATION property=%s replay=%s" % (prop, a.replay)); return 1
            return 0 if rc == 0 else 3
        return search(prop, sim, a, seed, variant, qruns, tmp, t0, tb)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def search(prop, sim, a, seed, variant, qruns, tmp, t0, tb):
    known = known_for(prop)
    runs = a.runs or (qruns if a.tier == "quick" else qruns * THOROUGH_FACTOR)
    cap = a.cap or (QUICK_CAP if a.tier == "quick" else THOROUGH_CAP)
    n = min(8, os.cpu_count() or 8)
    sub = min(runs, max(60, runs // 40)) if a.tier == "quick" else min(runs, 2000)
    res = workers(sim, prop, seed, runs, n, cap, tmp, known, sub, "main")
    errs = [r["error"] for r in res if "error" in r]
    viol = sorted((r["violation"] for r in res if "violation" in r), key=lambda v: v["run"])
    code = 0; nviol = 0
    for k in sorted({k for r in res for k in r["known"]}):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known.get(k, ""), k))
    if viol:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        done = False
        for v in viol:
            path = os.path.join(V, "replays", "%s-seed%d-run%d.json" % (prop, seed, v["run"]))
            p = subprocess.run([sim, "shrink", "--prop", prop, "--seed", str(seed), "--run", str(v["run"]), "--time", "25" if a.tier == "quick" else "120", "--out", path], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                print("run %d: not reproducible: %s" % (v["run"], p.stdout.decode(errors="replace").strip())); continue
            rep = json.load(open(path))
            rc, cls, h, _ = replay_run(sim, prop, rep, tmp)
            if rc != 1 or cls != rep["class"] or h != rep["hash"]:
                print("run %d: replay in a fresh process differs (%s %s, expected %s %s)" % (v["run"], cls, h, rep["class"], rep["hash"])); continue
            print("run %d, scenario %s, class %s: %s" % (v["run"], rep["scenario"], rep["class"], rep["message"]))
            print("minimised from %d to %d choices; replay with: python3 /verif/check.py %s --replay %s" % (rep["original_choices"], len(rep["trace"]), prop, path))
            print("VIOLATION property=%s replay=%s" % (prop, path)); done = True; nviol = len(viol); code = 1
            break
        if not done:
            print("ERROR: violations were observed but could not be reproduced"); code = 2
    elif errs:
        print("ERROR: %s" % errs[0]); code = 3
    det = None
    if code == 0:
        # determinism: the same runs again, in other processes and with another number of workers
        m = 3
        r2 = workers(sim, prop, seed, sub, m, 300, tmp, known, sub, "det")
        x = y = 0; nx = ny = 0
        for r in res: x ^= int(r["subhash"], 16); nx += r["subruns"]
        for r in r2: y ^= int(r["subhash"], 16); ny += r["subruns"]
        if nx == ny:
            det = {"runs_repeated": ny, "workers_first": n, "workers_second": m, "identical": x == y}
            if x != y: print("ERROR: the same seeds gave different executions: the simulation is not deterministic"); code = 2
    wall = time.time() - t0
    T = lambda k: sum(r[k] for r in res)
    sw = max(r["wall"] for r in res) or 1e-9
    cnt = {}; scn = {}
    for r in res:
        for k, (c, q) in r["counts"].items(): z = cnt.setdefault(k, [0, 0]); z[0] += c; z[1] += q
        for k, (c, s) in r["scenarios"].items(): z = scn.setdefault(k, [0, 0.0]); z[0] += c; z[1] += s
    dist = set(); sch = set()
    for r in res: dist.update(r["dist"]); sch.update(r["scheds"])
    samples = [s for r in res[:2] for s in r["samples"]][:4]
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": nviol,
        "assumptions": ["the simulated disk, network, clock and allocator behave as documented in DESIGN.md", "reference model in sim/ref.cc"],
        "coverage": {
            "evaluations": T("runs"), "distinct_nontrivial": len(dist),
            "rule": "One evaluation is one simulated execution: scenario, input, delivery, schedule and faults are all drawn from VERIF_SEED, the property and the run number. Non-trivial: the run reached the operation under test (set by the scenario). Distinct: different (scenario, edge hit-count vector of the code under test in 6 buckets, thread schedule).",
            "samples": samples,
            "nontrivial_runs": T("nontrivial"), "build_wall_s": round(tb, 2), "search_wall_s": round(sw, 2), "runs_per_hour": int(T("runs") / sw * 3600), "seeds_per_hour": int(T("runs") / sw * 3600),
            "simulated_time_s": round(T("vtime_ns") / 1e9, 3), "simulated_steps": T("steps"), "code_edges_reached": max(r["edges"] for r in res),
            "thread_switches": T("switches"), "distinct_schedules": len(sch),
            "faults_injected": {k[2:]: {"times": v[0], "runs": v[1]} for k, v in sorted(cnt.items()) if k.startswith("f:")},
            "probes_reached": {k[2:]: {"times": v[0], "runs": v[1]} for k, v in sorted(cnt.items()) if k.startswith("p:")},
            "scenarios": {k: {"runs": v[0], "seconds": round(v[1], 2)} for k, v in sorted(scn.items())},
            "stopped_by_time_cap": any(r["capped"] for r in res), "determinism_check": det or "not performed (violation or error)",
            "known_findings_hit": {k: sum(r["known"].get(k, 0) for r in res) for r0 in res for k in r0["known"]},
            "real_components": REAL, "stub_components": STUB, "build_variant": variant,
        },
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    print("%s: %d runs (%d non-trivial, %d distinct) in %.1f s, build %.1f s, total %.1f s%s" % (prop, T("runs"), T("nontrivial"), len(dist), sw, tb, wall, ", stopped by the time cap" if ev["coverage"]["stopped_by_time_cap"] else ""))
    return code

if __name__ == "__main__":
    try: sys.exit(main())
    except RuntimeError as e: print("ERROR: %s" % e); sys.exit(3)
