#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--digests FILE]
check.py --replay FILE

Exit 0: held on every simulated run. Exit 1 with a VIOLATION line: broken. Exit 2: the
check itself failed.
"""
import argparse
import collections
import importlib
import json
import os
import selectors
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def worker_env(hashseed="0"):
    from sim import build
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "NAPPY_REPO", "TMPDIR", "SIM_SLOW")}
    e.update(LD_PRELOAD=build.ensure(), PYTHONHASHSEED=hashseed, LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC",
             PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             HDF5_USE_FILE_LOCKING="FALSE", PYTHONUNBUFFERED="1")
    return e


def spawn(cmd, env):
    return subprocess.Popen([PY, "-m", "sim.worker", json.dumps(cmd)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            stdin=subprocess.DEVNULL, cwd=HERE, env=env)


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def replay(path):
    rep = json.load(open(path))
    w = spawn({"prop": rep["property"], "tier": "quick", "replay": os.path.abspath(path)}, worker_env())
    o, e = w.communicate(timeout=600)
    for ln in o.decode().splitlines():
        r = json.loads(ln)
        if "error" in r:
            print(r["error"])
            return 2
        if "replayed" in r:
            hit = [v for v in r["replayed"] if v[0] == rep["class"]]
            for v in r["replayed"]:
                print("%s: %s" % (v[0], v[1]))
            print("digest %s (recorded %s)" % (r["digest"], rep.get("digest")))
            if hit:
                print("VIOLATION property=%s replay=%s" % (rep["property"], path))
                return 1
            print("not reproduced")
            return 0
    print(e.decode()[-2000:])
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--digests")
    ap.add_argument("--hashseed", default="0")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--evidence")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.monotonic()
    prop = a.prop.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    mod = importlib.import_module("props." + prop.lower())
    count = a.runs or (mod.THOROUGH if tier == "thorough" else mod.QUICK)
    cap = a.cap or (4 * 3600 if tier == "thorough" else 420)
    env = worker_env(a.hashseed)
    print("property=%s tier=%s seed=%d runs=%d" % (prop, tier, a.seed, count), flush=True)
    n = min(a.workers, count)
    ws = [spawn({"prop": prop, "tier": tier, "seed": a.seed, "k": k, "n": n, "count": count, "cap": cap}, env) for k in range(n)]
    sel = selectors.DefaultSelector()
    buf = {}
    for w in ws:
        os.set_blocking(w.stdout.fileno(), False)
        os.set_blocking(w.stderr.fileno(), False)
        sel.register(w.stdout, selectors.EVENT_READ, (w, "o"))
        sel.register(w.stderr, selectors.EVENT_READ, (w, "e"))
        buf[w] = {"o": b"", "e": b""}
    faults, probes = collections.Counter(), collections.Counter()
    traces, digests, samples, errors, viols, capped = set(), {}, [], [], [], 0
    done = nt = lives = plan = sim_ns = events = 0
    open_ = 2 * len(ws)
    found_at = None
    hard = time.monotonic() + cap + 240
    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    seen_known = set()

    def handle(r):
        nonlocal done, nt, lives, plan, sim_ns, events, capped, found_at
        if "error" in r:
            errors.append(r["error"])
        elif "capped" in r:
            capped += 1
        elif "found" in r:
            ks = [k for k in kf if k["class"] == r["cls"] and k.get("match", "") in r["msg"]]
            if not ks and found_at is None:
                found_at = time.monotonic()
                print("found: run %d %s: %s" % (r["found"], r["cls"], r["msg"]), flush=True)
        else:
            done += 1
            nt += r["nt"]
            lives += r["lives"]
            plan += r["plan_lives"]
            sim_ns += r["sim_ns"]
            events += r["events"]
            faults.update(r["faults"])
            probes.update(r["probes"])
            if r["nt"]:
                traces.add(r["trace"])
            digests[r["i"]] = r["digest"]
            if "sample" in r and len(samples) < 3:
                samples.append(r["sample"])
            if "violation" in r:
                v = dict(r["violation"], i=r["i"])
                ks = [k for k in kf if k["class"] == v["cls"] and k.get("match", "") in v["msg"]]
                if ks:
                    for k in ks:
                        seen_known.add(k["id"])
                else:
                    viols.append(v)

    while open_:
        for key, _ in sel.select(timeout=1.0):
            w, ch = key.data
            b = key.fileobj.read()
            if b is None:
                continue
            if b == b"":
                sel.unregister(key.fileobj)
                open_ -= 1
                continue
            buf[w][ch] += b
            if ch == "o":
                while b"\n" in buf[w]["o"]:
                    ln, buf[w]["o"] = buf[w]["o"].split(b"\n", 1)
                    handle(json.loads(ln))
        if viols and not a.keep_going:
            break
        if found_at and time.monotonic() - found_at > 150 and not a.keep_going:
            break
        if time.monotonic() > hard:
            errors.append("workers did not finish in time")
            break
    for w in ws:
        if w.poll() is None and (viols or errors or open_):
            w.terminate()
    for w in ws:
        try:
            w.wait(timeout=20)
        except subprocess.TimeoutExpired:
            w.kill()
            w.wait()
        if w.returncode not in (0, None) and not viols:
            errors.append("worker ended with %s: %s" % (w.returncode, buf[w]["e"].decode(errors="replace")[-1500:]))
    _sweep([w.pid for w in ws])
    wall = time.monotonic() - t0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    reported = {}
    for v in viols:
        if v["cls"] in reported:
            continue
        p = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop, a.seed, v["i"]))
        with open(p, "w") as f:
            json.dump({"property": prop, "seed": a.seed, "run": v["i"], "class": v["cls"], "message": v["msg"], "digest": v["digest"],
                       "what": v["what"], "scenario": v["scenario"]}, f, indent=1)
        reported[v["cls"]] = (p, v)
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": mod.LEVEL,
          "coverage": {"evaluations": done, "distinct_nontrivial": len(traces), "rule": mod.RULE, "samples": samples,
                       "simulated_process_lives": lives, "fault_planning_lives": plan,
                       "nontrivial_runs": nt, "runs_and_seeds_per_hour": round(done / wall * 3600),
                       "simulated_seconds": round(sim_ns / 1e9, 3), "io_events_intercepted": events,
                       "faults_injected": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
                       "distinct_measure": "hash of the run's I/O event sequence with faults, operation outcomes, interruption points and thread switches",
                       "real_components": mod.REAL, "stub_components": mod.STUB, "stopped_early_by_wall_cap": capped},
          "assumptions": mod.ASSUME, "wall_s": round(wall, 2), "violations": len(viols)}
    ep = a.evidence or os.path.join(HERE, "evidence", "%s.json" % prop)
    os.makedirs(os.path.dirname(ep), exist_ok=True)
    with open(ep, "w") as f:
        json.dump(ev, f, indent=1)
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump(digests, f)
    print("runs=%d nontrivial=%d distinct=%d lives=%d simulated=%.1fs wall=%.1fs (%d runs/h)" %
          (done, nt, len(traces), lives, sim_ns / 1e9, wall, done / wall * 3600))
    print("faults:", dict(sorted(faults.items())))
    print("probes:", dict(sorted(probes.items())))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for cls, (p, v) in reported.items():
        print("%s: %s" % (cls, v["msg"][:1200]))
        print("  minimised in %d attempts to: %s" % (v["tries"], json.dumps(v["what"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if reported:
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK ERROR: %s" % e)
        return 2
    if done < min(count, 20):
        print("CHECK ERROR: only %d runs done" % done)
        return 2
    missing = [p for p in getattr(mod, "MUST", []) if not probes.get(p) and not faults.get(p)]
    if missing and done >= count:
        print("CHECK ERROR: never reached: %s" % missing)
        return 2
    return 0


def _sweep(pids):
    """Remove scratch directories of workers that were ended early."""
    import glob
    import shutil
    for d in glob.glob("/dev/shm/nasim-*") + glob.glob("/tmp/nasim-*"):
        try:
            pid = int(open(os.path.join(d, "pid")).read())
        except (OSError, ValueError):
            continue
        if pid in pids:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
