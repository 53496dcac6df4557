#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulator from /repo's working tree, searches
schedules and fault sequences for a violation of PROPERTY from VERIF_SEED, and
writes evidence/PROPERTY.json.  Exit 0: held; exit 1 with a VIOLATION line:
broken; anything else: the check itself failed."""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")


def known_findings(prop):
    """id -> text, for the findings listed (not the fixed ones)."""
    out = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    b = subprocess.run([sys.executable, os.path.join(HERE, "sim", "build.py")], stdout=subprocess.PIPE, text=True)
    if b.returncode:
        print("check %s: the simulator could not be built" % prop, file=sys.stderr)
        return 3
    vsim = b.stdout.strip().splitlines()[-1]
    built = time.time() - t0
    known = known_findings(prop)
    env = dict(os.environ, VSIM_KNOWN=",".join(sorted(known)), LC_ALL="C")
    cmd = [vsim, "run", "--prop", prop, "--seed", str(seed), "--workers", "8", "--out", REPLAYS,
           "--budget", "3000" if thorough else "420", "--shrink", "60" if thorough else "30"]
    if thorough:
        cmd.append("--thorough")
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True)
    try:
        r = json.loads(p.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        print("check %s: no answer from the simulator (exit %d): %s" % (prop, p.returncode, p.stdout[-500:]), file=sys.stderr)
        return 3
    if "error" in r:
        print("check %s: %s" % (prop, r["error"]), file=sys.stderr)
        return 4
    v = r.get("violation")
    if v:
        # a violation counts only when a fresh process repeats it exactly from its replay file
        q = subprocess.run([vsim, "replay", v["replay"], "-q"], env=env, stdout=subprocess.PIPE, text=True)
        if q.returncode != 1:
            print("check %s: the replay of %s did not repeat (%d): %s" % (prop, v["replay"], q.returncode, q.stdout[-300:]), file=sys.stderr)
            return 4
    hours = max(r["search_s"], 1e-6) / 3600.0
    faults, probes, knowns = {}, {}, {}
    for k, (n, runs) in sorted(r["counters"].items()):
        d, key = (faults, k[6:]) if k.startswith("fault.") else (knowns, k[6:]) if k.startswith("known.") else (probes, k[6:] if k.startswith("probe.") else k)
        d[key] = {"times": n, "runs": runs}
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["runs"], "planned_runs": r["planned_runs"], "distinct_nontrivial": r["distinct_nontrivial"],
            "nontrivial_runs": r["nontrivial"], "rule": r["rule"], "samples": r["samples"],
            "runs_per_hour": int(r["runs"] / hours), "seeds_per_hour": int(r["runs"] / hours),
            "simulated_seconds": r["simtime_s"], "simulated_events": r["events"],
            "faults_injected": faults, "probes": probes, "known_findings_met": knowns,
            "distinct_interleavings": r["distinct_interleavings"],
            "interleaving_measure": "hash of the sequence (which simulated process did which kind of operation)",
            "distinct_final_states": r["distinct_states"],
            "state_measure": "hash of the final file system, counters and outputs",
            "real_components": r["real"], "stub_components": r["stub"],
        },
        "assumptions": ["sampling: no violation among the runs executed; schedules, faults and inputs outside the sample are not decided",
                        "the simulated libc (files, clocks, memory, random numbers) behaves as POSIX describes it"],
        "wall_s": round(time.time() - t0, 3), "build_s": round(built, 3), "search_s": r["search_s"],
        "violations": 1 if v else 0,
    }
    if v:
        ev["coverage"]["violation"] = v
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs (%d distinct non-trivial), %d interleavings, %.0f simulated seconds, %.1f s" % (
        prop, r["runs"], r["distinct_nontrivial"], r["distinct_interleavings"], r["simtime_s"], time.time() - t0))
    for k in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if v:
        print("  run %d of seed %d: %s: %s" % (v["run"], seed, v["kind"], v["what"]))
        print("  minimised from %d to %d choices; replay: %s replay %s" % (v["choices_before"], v["choices_after"], vsim, v["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(v["replay"], HERE)))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
