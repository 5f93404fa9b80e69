#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
claimed = sorted({os.path.basename(p)[:3].upper() for p in glob.glob(V + "/sim/c[0-9][0-9]*.cc")})
NOTE = "Seeded search over simulated executions of the real library and msi program: every input, delivery, schedule and fault is drawn from one seed; evidence, not proof. Trusts the simulated disk, network, clock and allocator and the reference model in sim/ref.cc."
NA = {
 "N01": "Pure function of its argument: no schedule, clock, I/O, allocation or multi-party behaviour for a simulation to control (the calendar conversions that matter to streams are exercised through C01).",
 "N02": "Pure function of its arguments; nothing nondeterministic to simulate (identifiers of records are compared through C01).",
 "N04": "Pure functions from samples to bytes and back; delivery, truncation, corruption and packing of encoded data are decided under C01, C04, C07 and C16.",
}
TECH = {"C10": "deterministic simulation: real threads released one at a time by a seeded scheduler, compared with solo runs"}
checks = [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
  "technique": TECH.get(p, "deterministic simulation with seeded fault injection against a reference model"), "level": "exploration", "level_note": NOTE} for p in claimed]
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = [{"property": i, "reason": NA.get(i, "Not claimed yet: the scenarios for it are still being built.")} for i in ids if i not in claimed]
m = {"version": 1, "setup_cmd": "python3 build.py asan thr", "hooks": {"guard": "LIBMSEED_SIM", "enable": "build.py compiles /repo's sources with -DLIBMSEED_SIM (and -DLIBMSEED_URL against the simulated libcurl)", "source_commits": ["4d6756b"]},
 "checks": checks, "not_applicable": na, "notes": "Replay a reported violation with: python3 check.py <property> --replay <file>"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
