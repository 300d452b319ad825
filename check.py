#!/usr/bin/env python3
"""check.py <property> quick|thorough

Builds the simulator from /repo's current tree, searches seeded runs with 8 workers, confirms and minimises any violation,
replays it in a fresh process, writes /verif/evidence/<property>.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 3: the check itself could not decide."""
import json, os, pathlib, shutil, subprocess, sys, time

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from config import CHECKS, REAL, STUBS

def known_findings():
    """lines `KNOWN-FINDING: property=<id> class=<class> <what fails>`"""
    found = []
    f = HERE / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("KNOWN-FINDING: property="):
                pid, rest = line[len("KNOWN-FINDING: property="):].split(" ", 1)
                cls, what = rest[len("class="):].split(" ", 1) if rest.startswith("class=") else ("", rest)
                found.append((pid, cls, what))
    return found

def build(flavour):
    r = subprocess.run([sys.executable, str(HERE / "sim/build.py"), flavour], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        print(f"check: the simulator does not build ({flavour})")
        sys.exit(3)
    return r.stdout.strip().splitlines()[-1]

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    started = time.time()
    workers = int(os.environ.get("VP_WORKERS", "8"))
    out = HERE / "build" / ("out-" + pid)
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)
    evidence = HERE / "evidence"
    evidence.mkdir(exist_ok=True)
    (evidence / "replays").mkdir(exist_ok=True)
    known = [k for k in known_findings() if k[0] == pid]
    total = {"runs": 0, "evaluations": 0, "choices": 0, "nontrivial": 0, "sim_time_s": 0, "rechecked": 0, "mismatches": 0,
             "unconfirmed": 0}
    counters, knownSeen, states, samples, violations, harness = {}, {}, set(), [], [], []
    buildTime = 0.0
    searchTime = 0.0
    for part in cfg["parts"]:
        t0 = time.time()
        binary = build(part["flavour"])
        buildTime += time.time() - t0
        t0 = time.time()
        procs = []
        q = part[tier]
        for w in range(workers):
            d = out / f"{part['scenario']}-{w}"
            d.mkdir()
            cmd = [binary, "run", part["scenario"], "--seed", str(seed), "--first", str(w), "--step", str(workers),
                   "--count", str(max(1, q["runs"] // workers)), "--seconds", str(q["seconds"]), "--tier", tier, "--out", str(d),
                   "--summary", str(d / "summary.json"), "--recheck", "25", "--shrink", "25", "--cpu", str(q.get("cpu", 60)),
                   "--known", ",".join(k[1] for k in known if k[1])]
            procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(d / "stderr", "w")), d, w))
        # a violation found by one worker ends the others, once they are through with the runs before it
        for p, d, w in procs:
            p.wait()
            try:
                s = json.loads((d / "summary.json").read_text())
            except Exception as e:
                harness.append(f"worker {w} of {part['scenario']}: exit {p.returncode}: " + (d / "stderr").read_text()[-500:])
                continue
            for k in total:
                total[k] += s[k]
            for k, v in s["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in s["known"].items():
                knownSeen[k] = knownSeen.get(k, 0) + v
            states.update(s["state_hashes"])
            samples += s["samples"][:1]
            if s["harness"]:
                harness.append(s["harness"])
            if s["violation"]:
                violations.append((s["violation"], s["violation_class"], s["violation_detail"], binary))
        searchTime += time.time() - t0
        if violations:
            break
    # fresh-process replay of what was found
    confirmed = []
    for path, cls, detail, binary in sorted(violations, key=lambda v: int(v[0].rsplit("-run", 1)[1].split(".")[0])):
        r = subprocess.run([binary, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            dst = evidence / "replays" / pathlib.Path(path).name
            shutil.copy(path, dst)
            confirmed.append((dst, cls, detail, binary))
        else:
            harness.append(f"violation {cls} of {path} was not reproduced by a fresh process: {r.stdout[-300:]}")
    faults = {k: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    wall = time.time() - started
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": total["nontrivial"],
            "rule": cfg["rule"],
            "samples": samples[:3],
            "oracle_evaluations": total["evaluations"],
            "choices_drawn": total["choices"],
            "simulated_runs_per_hour": int(total["runs"] / max(searchTime, 1e-3) * 3600),
            "seeds_per_hour": int(total["runs"] / max(searchTime, 1e-3) * 3600),
            "simulated_time_s": round(total["sim_time_s"], 3),
            "faults_injected": faults,
            "events": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault:")},
            "distinct_states": len(states),
            "distinct_states_measure": cfg["states"],
            "runs_repeated_to_check_determinism": total["rechecked"],
            "determinism_mismatches": total["mismatches"],
            "violations_not_confirmed_by_repetition": total["unconfirmed"],
            "known_findings_seen": knownSeen,
            "real_components": cfg.get("real", REAL), "stubbed_components": cfg.get("stubs", STUBS),
            "workers": workers, "build_s": round(buildTime, 1), "search_s": round(searchTime, 1),
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    if harness:
        ev["coverage"]["harness_errors"] = harness[:5]
    (evidence / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for _, cls, what in known:
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid} {tier}: {total['runs']} runs, {total['nontrivial']} distinct, {len(states)} states, faults {sum(faults.values())}, "
          f"build {buildTime:.0f} s, search {searchTime:.0f} s")
    if confirmed:
        path, cls, detail, binary = confirmed[0]
        print(f"class {cls}: {detail[:1500]}")
        print(f"replay with: {binary} replay {path} --verbose 1")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if harness or total["mismatches"] or total["unconfirmed"]:
        print("check: no verdict:", harness[:3], f"mismatches {total['mismatches']}, unconfirmed {total['unconfirmed']}")
        sys.exit(3)
    sys.exit(0)

main()
