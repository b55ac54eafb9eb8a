"""Worker: executes runs i = k, k+n, ... of one property, one JSON line per run."""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    cmd = json.loads(sys.argv[1])
    out = os.fdopen(os.dup(1), "w", buffering=1)
    from sim import core, life
    mod = importlib.import_module("props." + cmd["prop"].lower())
    try:
        life.prepare()
        if hasattr(mod, "prepare"):
            mod.prepare()
    except Exception:
        out.write(json.dumps({"error": traceback.format_exc()}) + "\n")
        return
    ctx = core.Ctx(cmd["tier"])
    try:
        if cmd.get("replay"):
            with open(cmd["replay"]) as f:
                rep = json.load(f)
            vs = core.one(mod, rep["scenario"], ctx)
            out.write(json.dumps({"replayed": vs, "digest": ctx.h.hexdigest()}) + "\n")
            return
        end = time.monotonic() + cmd["cap"]
        for i in range(cmd["k"], cmd["count"], cmd["n"]):
            if time.monotonic() > end:
                out.write(json.dumps({"capped": i}) + "\n")
                break
            t0 = time.monotonic()
            try:
                ctx.begin()
                r = core.rng_for(cmd["prop"], cmd["seed"], i)
                s = core.as_json(mod.generate(r, ctx))
                plan = ctx.lives
                vs = core.one(mod, s, ctx)
            except Exception:
                out.write(json.dumps({"error": "run %d: %s" % (i, traceback.format_exc())}) + "\n")
                break
            rec = {"i": i, "digest": ctx.h.hexdigest()[:20], "trace": ctx.th.hexdigest()[:20], "nt": bool(ctx.nontrivial),
                   "faults": dict(ctx.faults), "probes": dict(ctx.probes), "lives": ctx.lives, "plan_lives": plan,
                   "sim_ns": ctx.sim_ns, "events": ctx.events, "t": time.monotonic() - t0}
            if i < 3 or (vs and i < 10 ** 9):
                try:
                    rec["sample"] = mod.describe(s, ctx)
                except Exception:
                    rec["sample"] = "?"
            if vs:
                cls = vs[0][0]
                out.write(json.dumps({"found": i, "cls": cls, "msg": vs[0][1][:600], "all": [v[0] for v in vs][:10]}) + "\n")
                best, tries = core.minimise(mod, s, cls, ctx)
                fin = core.one(mod, best, ctx)
                rec["violation"] = {"cls": cls, "msg": [v[1] for v in fin if v[0] == cls][0][:1500] if any(v[0] == cls for v in fin) else vs[0][1],
                                    "scenario": best if any(v[0] == cls for v in fin) else s, "digest": ctx.h.hexdigest(), "tries": tries,
                                    "what": mod.describe(best, ctx)}
            out.write(json.dumps(rec) + "\n")
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
