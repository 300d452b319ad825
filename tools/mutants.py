#!/usr/bin/env python3
"""mutants.py LIST.py [ID...]: applies each change of LIST.py (M = [(id, "C01 C02", file, old, new), ...]; file/old/new may repeat
as a list of triples) to a scratch copy of /repo, builds the simulator there and searches the named properties.
Nothing in /repo or /verif is touched. SECS (default 30) per property, W (default 8) workers."""
import json, os, pathlib, shutil, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parent.parent
R, B, O = pathlib.Path("/tmp/mr"), pathlib.Path("/tmp/mb"), pathlib.Path("/tmp/mo")
SECS, W = float(os.environ.get("SECS", "30")), int(os.environ.get("W", "8"))
if not R.exists():
    subprocess.check_call(["git", "clone", "-q", "/repo", str(R)])
subprocess.check_call("git fetch -q origin HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R)
ns = {}
exec(open(sys.argv[1]).read(), ns)
known = ",".join(l.split("class=")[1].split()[0] for l in open(V / "known-findings.txt") if l.startswith("KNOWN-FINDING: property"))
for m in ns["M"]:
    mid, props = m[0], m[1].split()
    if len(sys.argv) > 2 and mid not in sys.argv[2:]:
        continue
    edits = m[2] if isinstance(m[2], list) else [m[2:5]]
    bad = False
    for f, old, new in edits:
        p = R / f
        s = p.read_text()
        if s.count(old) != 1:
            print(f"{mid}: {f}: {s.count(old)} matches", flush=True); bad = True; break
        p.write_text(s.replace(old, new))
    if not bad:
        for pid in props:
            fl = "tsan" if pid == "C03" else "asan"
            env = dict(os.environ, VP_REPO=str(R), VP_BUILD=str(B))
            r = subprocess.run([sys.executable, str(V / "sim/build.py"), fl], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                print(f"{mid}: does not build\n{r.stderr[-1500:]}", flush=True); break
            binary = r.stdout.strip()
            shutil.rmtree(O, ignore_errors=True); O.mkdir()
            t0 = time.time()
            ps = []
            for w in range(W):
                ps.append((w, subprocess.Popen([binary, "run", pid, "--seed", os.environ.get("SEED", "1"), "--first", str(w), "--step", str(W), "--count", "1000000", "--seconds", str(SECS),
                    "--out", str(O), "--summary", str(O / f"s{w}.json"), "--shrink", "3", "--known", known, "--cpu", "60"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
            found, runs = [], 0
            alive = list(ps)
            while alive:
                for x in list(alive):
                    if x[1].poll() is not None:
                        alive.remove(x)
                        try:
                            s = json.loads((O / f"s{x[0]}.json").read_text())
                        except Exception:
                            continue
                        runs += s["runs"]
                        if s["violation"]:
                            found.append((s["violation_class"], s["violation_detail"].replace("\n", " ")[:160], x[0]))
                        elif s["harness"]:
                            found.append(("HARNESS", s["harness"][:200], x[0]))
                if found:
                    for x in alive:
                        x[1].kill(); x[1].wait()
                    break
                time.sleep(0.1)
            if found:
                shutil.rmtree(f"/tmp/mut/{mid}-{pid}", ignore_errors=True)
                shutil.copytree(O, f"/tmp/mut/{mid}-{pid}")
            print(f"{mid} {pid}: " + (f"caught after {time.time()-t0:.0f} s: {found[0][0]}: {found[0][1]}" if found else f"MISSED ({runs} runs)"), flush=True)
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=R)
