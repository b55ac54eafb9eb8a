"""C01: an acknowledged write is complete and survives the death of the process."""
import random

from model import gen, refna
from props.common import *
from props import common, jobs

ID = "C01"
LEVEL = "exploration"
QUICK = 2200
THOROUGH = 60000
RULE = ("One run = one or two process lives over one scratch disk: a seeded program of writes through file objects (not closed), complete writes and CSV "
        "conversions for all nine FFIs, with short/interrupted transfers and random buffer sizes, ended by a crash at a seeded I/O event of a later "
        "operation or by immediate process death; then a restarted process and the reference parser read every acknowledged file. Non-trivial: at least one write was "
        "acknowledged before the process died. A third of the runs are programs of one to four jobs of every kind (NetCDF and xarray conversions in both directions, splits, CSV, command line "
        "tools): what they left on disk when the process died must equal what they leave in a life of the same program that ended normally.")
MUST = ["acked write() without close", "crash inside a later operation", "died right after the call", "acked NetCDF file", "acked file converted from NetCDF", "acked several files",
        "crash inside a later conversion"]


def generate_jobs(r, ctx):
    ks = r.choice([jobs.ALL, ["na2nc", "script-na2nc", "nc2na", "xr2na", "nc2csv", "script-nc2na", "csv"], ["na2nc"], ["nc2na", "xr2na"]])
    js = [jobs.make(r, i, ks, big=r.random() < 0.1, odd=True, ask=True, dirs=True) for i in range(r.choice([1, 1, 2, 2, 3, 4]))]
    s = {"jobs": js, "prog": base_prog(r), "faults": []}
    s["prog"]["clock"][1] = 0
    s["prog"]["noise"] = None
    if r.random() < 0.6 and len(js) > 1:
        o = life_jobs(s, ctx, plan=True)
        cand = [q for q in o.recs if q["i"] > 1 and q["hi"] > q["lo"]]
        if cand:
            q = r.choice(cand)
            s["faults"] = [{"op": q["i"], "at": r.randrange(q["hi"] - q["lo"]), "action": "crash", "arg": r.randrange(1 << 20)}]
    return s


def life_jobs(s, ctx, plan=False, end=True):
    docs, dss, files = jobs.collect(s["jobs"])
    ctx.fresh(files)
    ops = [{"do": "import"}] + [j["op"] for j in s["jobs"]]
    if end:
        ops.append({"do": "exit", "code": 97})
    return ctx.life(dict(s["prog"], docs=docs, datasets=dss, ops=ops, faults=s["faults"] if end else []), plan)


def run_jobs(s, ctx):
    o = life_jobs(s, ctx, end=False)
    want = []
    for i, j in enumerate(s["jobs"]):
        rec = o.rec(i + 1)
        want.append(jobs.outputs(ctx, j) if rec and rec.get("ok") else None)
    o = life_jobs(s, ctx)
    if hang_of(o):
        return [("hang", "an operation did not finish: %s" % hang_of(o))]
    v = []
    if o.status != "crash":
        v.append(("died", "the process ended with %s instead of the scripted death" % o.status))
    for i, j in enumerate(s["jobs"]):
        rec = o.rec(i + 1)
        if rec is None:
            break
        if not rec.get("ok") or want[i] is None:
            if bool(rec.get("ok")) != (want[i] is not None):
                v.append(("differs", "%s: %s in a process that dies later, but not in one that lives on" % (jobs.brief(j), "done" if rec.get("ok") else excs(rec))))
            continue
        got = jobs.outputs(ctx, j)
        if got:
            ctx.nontrivial = True
            ctx.probe("crash inside a later conversion" if o.fired.get("crash") else "died right after a conversion")
            if any(f.endswith(".nc") for f in got):
                ctx.probe("acked NetCDF file")
            if "spec" in j:
                ctx.probe("acked file converted from NetCDF")
            if len(got) > 1:
                ctx.probe("acked several files")
        if not jobs.same(want[i], got):
            v.append(("lost", "acknowledged %s, after process death: %s" % (jobs.brief(j), jobs.diff(want[i], got))))
    return v


def generate(r, ctx):
    if r.random() < 0.33:
        return generate_jobs(r, ctx)
    docs, ops, files = {}, [], {}
    n = r.randint(1, 4)
    for i in range(n):
        d = gen.doc(r, big=r.random() < 0.12)
        kind = r.choice(["session", "session", "session", "write", "csv", "close", "overwrite"])
        f = "f%d.na" % i
        if kind == "csv":
            d = gen.doc(r, big=r.random() < 0.12)
            docs["d%d" % i] = d
            files[f] = refna.render(d, refna.Style(random.Random(r.randrange(2 ** 31))))
            kw = {}
            if r.random() < 0.5:
                kw["csv_file"] = "out%d.csv" % i
            if r.random() < 0.3:
                kw["annotation"] = True
            if r.random() < 0.2:
                kw["no_header"] = True
            ops.append({"do": "fn", "name": "convertNAToCSV", "args": [f], "kw": kw, "k": "csv", "doc": "d%d" % i,
                        "out": kw.get("csv_file", "f%d.csv" % i)})
            continue
        docs["d%d" % i] = d
        kw = write_kw(r)
        if kind == "overwrite":
            # an existing, longer or shorter file is replaced
            old = gen.doc(r)
            files[f] = refna.render(old, refna.Style(random.Random(r.randrange(2 ** 31))))
        if kind == "write":
            ops.append({"do": "write", "file": f, "doc": "d%d" % i, "kw": kw, "style": r.choice(["plain", "with"]), "k": "ack", "out": f})
        else:
            ops.append({"do": "open", "as": "o%d" % i, "file": f, "mode": "w", "doc": "d%d" % i})
            ops.append({"do": "call", "obj": "o%d" % i, "meth": "write", "kw": kw, "k": "ack", "doc": "d%d" % i, "out": f})
            if kind == "close":
                ops.append({"do": "call", "obj": "o%d" % i, "meth": "close"})
    s = {"docs": docs, "files": files, "prog": base_prog(r), "ops": ops, "faults": []}
    if r.random() < 0.6 and len(ops) > 1:
        o = _life(s, ctx, plan=True)
        # a crash inside an operation after at least one acknowledgement
        acks = [i for i, op in enumerate(ops) if op.get("k") and (o.rec(i) or {}).get("ok")]
        cand = [q for q in o.recs if acks and q["i"] > acks[0] and q["hi"] > q["lo"]]
        if cand:
            q = r.choice(cand)
            s["faults"] = [{"op": q["i"], "at": r.randrange(q["hi"] - q["lo"]), "action": "crash", "arg": r.randrange(1 << 20)}]
    return s


def _life(s, ctx, plan=False):
    ctx.fresh(s["files"])
    ops = s["ops"] + [{"do": "exit", "code": 97}]
    return ctx.life(dict(s["prog"], docs=s["docs"], ops=ops, faults=s["faults"]), plan)


def run(s, ctx):
    if "jobs" in s:
        return run_jobs(s, ctx)
    v = []
    o = _life(s, ctx)
    if hang_of(o):
        return [("hang", "an operation did not finish: %s" % hang_of(o))]
    acked = []
    for i, op in enumerate(s["ops"]):
        rec = o.rec(i)
        if rec is None:
            break
        if not rec.get("ok"):
            # nothing was made to fail before the crash
            v.append(("refused", "%s failed without a fault: %s" % (brief_op(op), excs(rec))))
            continue
        if op.get("k"):
            acked.append(op)
    if o.status != "crash":
        v.append(("died", "the process ended with %s instead of the scripted death" % o.status))
    if acked:
        ctx.nontrivial = True
        if o.fired.get("crash"):
            ctx.probe("crash inside a later operation")
        else:
            ctx.probe("died right after the call")
    readable = []
    for op in acked:
        d = s["docs"][op["doc"]]
        if op["k"] == "csv":
            kw = {"delimiter": ",", "annotation": op["kw"].get("annotation", False), "no_header": op["kw"].get("no_header", False)}
            ctx.probe("acked csv")
        else:
            kw = op["kw"]
            if op["do"] == "call":
                ctx.probe("acked write() without close")
        if not ctx.exists(op["out"]):
            v.append(("lost", "%s was acknowledged but %s does not exist" % (brief_op(op), op["out"])))
            continue
        e = check_written(ctx.text(op["out"]), d, kw)
        if e:
            v.append(("lost", "acknowledged %s (%s), after process death %s: %s" % (brief_op(op), brief_doc(d), op["out"], e)))
        elif rereadable(kw):
            readable.append((op, d, kw))
    # restart
    if readable and not v:
        p = dict(s["prog"], ops=[{"do": "read", "file": op["out"], "style": "plain"} for op, _, _ in readable])
        p["seed"] += 1
        o2 = ctx.life(p)
        ctx.probe("restarts")
        for i, (op, d, kw) in enumerate(readable):
            rec = o2.rec(i)
            if rec is None or not rec.get("ok"):
                v.append(("unreadable", "acknowledged %s cannot be read after a restart: %s" % (op["out"], excs(rec))))
                continue
            e = read_matches(rec["ret"], d, fmt_of(kw))
            if e:
                v.append(("reread", "acknowledged %s (%s) reads differently after a restart: %s" % (op["out"], brief_doc(d), e)))
    return v


def shrink_jobs(s):
    js, f = s["jobs"], s["faults"]
    if f:
        yield dict(s, faults=[])
        if f[0]["at"]:
            yield dict(s, faults=[dict(f[0], at=f[0]["at"] // 2)])
    for i in range(len(js)):
        if len(js) > 1 and not (f and f[0]["op"] == i + 1):
            yield dict(s, jobs=js[:i] + js[i + 1:], faults=[dict(x, op=x["op"] - (x["op"] > i + 1)) for x in f])
    if s["prog"].get("blk"):
        yield dict(s, prog=dict(s["prog"], blk=0))
    for i, j in enumerate(js):
        for k in jobs.simpler(j):
            yield dict(s, jobs=js[:i] + [k] + js[i + 1:])


def shrink(s):
    if "jobs" in s:
        yield from shrink_jobs(s)
        return
    n = len(s["ops"])
    f = s["faults"]
    # drop trailing ops with their fault; drop an object's operations together
    if f and f[0]["op"] < n - 1:
        yield dict(s, ops=s["ops"][:f[0]["op"] + 1])
    if f:
        yield dict(s, faults=[])
    outs = [op.get("obj") or op.get("as") or op.get("out") for op in s["ops"]]
    for k in dict.fromkeys(outs):
        keep = [i for i in range(n) if outs[i] != k]
        if keep and (not f or f[0]["op"] in keep):
            yield dict(s, ops=[s["ops"][i] for i in keep], faults=[dict(x, op=keep.index(x["op"])) for x in f])
    p = s["prog"]
    for k, z in (("noise", None), ("blk", 0), ("clock", None)):
        if p.get(k):
            yield dict(s, prog=dict(p, **{k: z}))
    for i, op in enumerate(s["ops"]):
        if op.get("do") in ("call", "write") and op.get("kw"):
            for k in op["kw"]:
                kw = {a: b for a, b in op["kw"].items() if a != k}
                yield dict(s, ops=s["ops"][:i] + [dict(op, kw=kw)] + s["ops"][i + 1:])
    csv = {op["doc"]: op["args"][0] for op in s["ops"] if op.get("k") == "csv"}
    for t in shrink_docs(s):
        for k, f_ in csv.items():
            if t["docs"][k] is not s["docs"][k]:
                t = dict(t, files=dict(t["files"], **{f_: refna.render(t["docs"][k])}))
        yield t


def describe(s, ctx):
    if "jobs" in s:
        return {"jobs": [jobs.brief(j) for j in s["jobs"]], "faults": s["faults"], "blk": s["prog"].get("blk")}
    return {"ops": [brief_op(o) for o in s["ops"]], "docs": {k: brief_doc(d) for k, d in s["docs"].items()}, "faults": s["faults"],
            "noise": s["prog"].get("noise"), "blk": s["prog"].get("blk")}
