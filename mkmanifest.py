"""Writes MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
NA = {
 "C15": "pure comparison of two texts: no concurrency, time or multi-party behaviour, and its only I/O is reading two inputs, so simulation would add nothing to plain input testing (its documented `apply`-based paths do not run on Python 3 either)",
 "C16": "pure function of a dictionary: nothing to schedule, delay, crash or fail",
 "C17": "pure string function: nothing to schedule, delay, crash or fail",
 "C18": "pure mapping from an argument list to keyword arguments: nothing to schedule, delay, crash or fail (the tools' I/O behaviour is covered under C04, C10, C11)",
}
NOTE = ("Seeded search over simulated executions: exact replay of each violation, no claim beyond the runs explored. Assumes the libc file interface is the only I/O "
        "path, process death keeps what the kernel accepted, third-party libraries report errors upwards; the reference NASA Ames parser is trusted.")
LEVELS = {}
checks, na = [], []
for ln in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(ln)["id"]
    if os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")):
        m = importlib.import_module("props." + p.lower())
        checks.append({"property": p, "quick_cmd": "/opt/venv/bin/python check.py %s" % p,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection (seeded search)",
                       "level": m.LEVEL, "level_note": getattr(m, "NOTE", NOTE)})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks were needed in /repo: the seams are libc (LD_PRELOAD), sys.monitoring, stdin, the clock and the environment. "
                    "check.py --replay FILE replays a violation."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
