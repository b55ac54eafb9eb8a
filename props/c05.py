"""C05: operations leave what the caller handed them, and other files, as they were."""
import random

from model import gen, ncgen, refna
from props.common import *
from props import common, jobs, c04

ID = "C05"
LEVEL = "exploration"
QUICK = 2600
THOROUGH = 50000
RULE = ("One run = one process life of three to nine operations sharing dictionaries, datasets, variable lists and input files (writes, repeated writes, writing what "
        "was read, sessions, CSV/NetCDF/xarray conversions, tools), with bystander files of similar names; after each operation every caller-owned object, argument list and "
        "file is compared with before. In most runs one operation meets a seeded I/O fault or an interrupt at a seeded line. Non-trivial: an operation "
        "succeeded twice on the same object, or failed, and everything was compared afterwards.")
MUST = ["answers kept while the reader goes on", "interrupted", "I/O fault", "same object used twice", "written back what was read", "bystanders present"]


def generate(r, ctx):
    docs, dss, files, ops = {}, {}, {}, []
    n, mis = 0, set()
    for i in range(r.choice([1, 1, 2, 3])):
        j = jobs.make(r, i, odd=True, ask=True, dirs=True)
        odd = r.random() < 0.1
        if odd:
            jobs.misask(r, j)
            mis.add(i)
        docs.update(j["docs"])
        dss.update(j["datasets"])
        files.update(j["files"])
        seq = [dict(j["op"], out=outs(j, j["op"]), grp=i)]
        k = j["kind"]
        if k in ("write", "writenoffi", "xr2na") and r.random() < 0.75:
            for m in range(r.choice([1, 1, 2])):
                op = again(j["op"], "%s_again%d.na" % (j["pre"], m))
                seq.append(dict(op, out=outs(j, op), grp=i, same=i))
        if k == "write" and r.random() < 0.4:
            f = j["pre"] + "_s.na"
            seq += [{"do": "open", "as": "s%d" % i, "file": f, "mode": "w", "doc": j["pre"], "out": [f], "grp": i},
                    {"do": "call", "obj": "s%d" % i, "meth": "write", "kw": j["op"]["kw"], "out": [f], "grp": i},
                    {"do": "call", "obj": "s%d" % i, "meth": "close", "out": [f], "grp": i}]
        if k in ("read", "csv", "na2nc", "nc2na") and r.random() < 0.4:
            seq.append(dict(seq[0]))      # the same operation once more
        if k == "read" and r.random() < 0.8:
            seq[0]["as"] = "r%d" % i
            kw = write_kw(r)
            for m in range(r.choice([1, 2])):
                f = "%s_w%d.na" % (j["pre"], m)
                seq.append({"do": "write", "file": f, "doc": "r%d" % i, "kw": kw, "style": "plain", "out": [f], "grp": i, "wb": True, "same2": i})
        if k == "read" and not j["op"].get("pattern") and r.random() < 0.6:
            seq += session(r, i, j, kw if "as" in seq[0] else write_kw(r))
        ops.append(seq)
        for f in (j["pre"] + e for e in ("", ".csv~", "_out", ".old.na", "_out_9.na", "-001.txt")):
            if r.random() < 0.3 and f + "/" not in files:
                files.setdefault(f, "a bystander %d\n" % r.randrange(10 ** 6) * r.randint(1, 5))
        # places where the wrong default name would land
        for f in (j["pre"] + e for e in (".na", ".nc", ".csv", "_out.na", "_out.csv")):
            if r.random() < 0.2 and f not in files and f + "/" not in files:
                files[f] = "a bystander %d\n" % r.randrange(10 ** 6)
    flat = []
    while ops:
        q = r.choice(ops)
        flat.append(q.pop(0))
        if not q:
            ops.remove(q)
    flat = [dict(op, mis=1) if op["grp"] in mis else op for op in flat]
    s = {"docs": docs, "datasets": dss, "files": files, "ops": flat, "prog": base_prog(r), "faults": []}
    s["prog"]["clock"][1] = 0
    if any(f.endswith(".nc") for op in flat for f in op["out"] + op.get("args", []) + op.get("argv", []) if isinstance(f, str)):
        s["prog"]["noise"] = None         # the NetCDF C library does not retry short reads
    k = r.random()
    if k < 0.75:
        if k < 0.4:
            s["prog"]["noise"] = None
        o = life(s, ctx, plan=True)
        t = r.randrange(len(flat))
        rec = o.rec(2 * t + 2)
        if rec and rec.get("ok"):
            if k < 0.4 and rec["hi"] > rec["lo"] and not any(f.endswith(".nc") for f in flat[t]["out"]):
                s["faults"] = c04.pick(r, o.events[rec["lo"]:rec["hi"]], t, o.names)
            elif rec["lines"]:
                s["faults"] = [{"op": t, "line": r.randrange(rec["lines"]), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}]
    return s


def session(r, i, j, kw):
    """A reader whose answers are kept while it goes on being used."""
    q, c = "q%d" % i, "c%d" % i
    call = lambda meth, **x: dict({"do": "call", "obj": q, "meth": meth, "out": [], "grp": i}, **x)
    new = lambda cls, args: {"do": "new", "as": c, "cls": cls, "args": args, "kw": {"time_warning": False} if "NADict" in cls else {}, "out": [], "grp": i, "obj": q, "mis": 1}
    seq = [dict({"do": "open", "as": q, "file": j["op"]["file"], "out": [], "grp": i}, **({"ihl": j["op"]["ihl"]} if j["op"].get("ihl") else {}))]
    if r.random() < 0.4:
        seq.append(call("getNADict", asdoc="h%d" % i))
    seq += [call("readData"), call("getNADict", asdoc="g%d" % i)]
    f = "%s_g.na" % j["pre"]
    w = {"do": "write", "file": f, "doc": "g%d" % i, "kw": kw, "style": "plain", "out": [f], "grp": i, "wb": True, "same2": "g%d" % i}
    if r.random() < 0.5:
        seq.append(dict(w))
    for n in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < 0.3:
            seq.append(call("readData"))
        elif k < 0.5:
            seq.append(call("getNADict", asdoc="i%d.%d" % (i, n)))
        elif k < 0.8:
            seq += [new("nappy.nc_interface.na_to_xarray.NADictToXarrayObjects", [{"$obj": q}]), dict(call("convert"), obj=c, mis=1)]
        else:
            seq.append({"do": "meta", "obj": q, "out": [], "grp": i})
    seq += [call("close"), dict(w)]
    return seq


def again(op, f):
    op = dict(op)
    if op["do"] == "write":
        op["file"] = f
    else:
        op["args"] = op["args"][:2] + [f]
    return op


def outs(j, op):
    """Names the operation may create or replace (a trailing * for numbered output)."""
    k, p = j["kind"], j["pre"]
    kw = op.get("kw", {})
    if op["do"] == "write":
        return [op["file"]]
    if k == "csv":
        return [kw.get("csv_file", p + ".csv")]
    if k == "na2nc":
        return [kw.get("nc_file", p + ".nc")]
    if k == "script-na2nc":
        return [op["argv"][3] if "-o" in op["argv"] else p + ".nc"]
    if k == "nc2na":
        return numbered(kw.get("na_file", p + ".na"))
    if k == "nc2csv":
        return numbered(kw.get("csv_file", p + ".csv"))
    if k == "script-nc2na":
        return numbered(p + "_out.na")
    if k == "xr2na":
        return numbered(op["args"][2])
    return []


def numbered(f):
    return ["#" + f]


def allowed(f, out):
    import re
    for o in out:
        if o[0] != "#":
            if f == o:
                return True
            continue
        stem, _, ext = o[1:].rpartition(".")
        if re.fullmatch(re.escape(stem) + r"(_\d+)?(\.?-\d{3})?\.(%s|na)" % re.escape(ext), f):
            return True
    return False


def life(s, ctx, plan=False):
    ctx.fresh(s["files"])
    w = {"do": "watch", "vars": list(s["datasets"])}
    ops = [{"do": "import"}, w]
    for op in s["ops"]:
        ops += [op, w]
    fl = [dict(f, op=2 * f["op"] + 2) for f in s["faults"]]
    return ctx.life(dict(s["prog"], docs=s["docs"], datasets=s["datasets"], ops=ops, faults=fl, watch=True), plan)


def run(s, ctx):
    o = life(s, ctx)
    if hang_of(o):
        return [("hang", "an operation did not finish: %s" % hang_of(o))]
    if o.status != "exit":
        return [] if s["faults"] and o.status.startswith("signal") else [("died", "the process ended with %s" % o.status)]
    v = []
    if any("bystander" in t for t in s["files"].values() if isinstance(t, str)):
        ctx.probe("bystanders present")
    prev = o.rec(1)["ret"]["tree"]
    same = {}
    for i, op in enumerate(s["ops"]):
        rec, w = o.rec(2 * i + 2), o.rec(2 * i + 3)["ret"]
        faulty = any(f["op"] == i for f in s["faults"])
        what = "%s%s" % (brief_op({k: x for k, x in op.items() if k not in ("grp", "same", "same2", "wb", "out", "mis")}), " (failed: %s)" % excs(rec) if not rec.get("ok") else "")
        for c in w["changed"]:
            v.append(("mutated", "%s altered %s" % (what, c)))
        for f in sorted(set(prev) | set(w["tree"])):
            if prev.get(f) != w["tree"].get(f) and not allowed(f, op["out"]):
                v.append(("file", "%s %s %s" % (what, "created" if f not in prev else "removed" if f not in w["tree"] else "changed", f)))
        if faulty:
            ctx.nontrivial = True
            ctx.probe("interrupted" if any("line" in f for f in s["faults"]) else "I/O fault")
        elif not rec.get("ok"):
            dirty = s["faults"] and any(f["op"] < i for f in s["faults"]) and (op.get("obj") or op.get("wb"))
            ctx.probe("request refused", bool(op.get("mis")))
            if not dirty and not op.get("mis"):
                v.append(("refused", "%s without a fault" % what))
        else:
            out = [w["tree"].get(f) for f in (rec["ret"] if op["do"] == "fn" and op["name"].startswith("convertXarray") else op["out"])]
            if "same2" in op:
                k = ("w", op["same2"])
            elif op["do"] in ("write",) or (op["do"] == "fn" and op["name"].startswith("convertXarray")):
                k = ("g", op["grp"])
            else:
                k = None
            if k:
                if k in same:
                    ctx.probe("same object used twice")
                    ctx.nontrivial = True
                    if same[k] != out:
                        v.append(("again", "%s: using the same object again gave a different file" % what))
                same.setdefault(k, out)
            ctx.probe("answers kept while the reader goes on", bool(op.get("asdoc")))
            if op.get("wb"):
                ctx.probe("written back what was read")
        prev = w["tree"]
    return v[:6]


def shrink(s):
    for i, op in enumerate(s["ops"]):
        if any(f["op"] == i for f in s["faults"]) or op["do"] == "open":
            continue
        ops = s["ops"][:i] + s["ops"][i + 1:]
        if "as" in op and op["do"] == "read" and any(x.get("doc") == op["as"] for x in ops):
            continue
        if op.get("asdoc") and any(x.get("doc") == op["asdoc"] for x in ops) or op["do"] == "new" and any(x.get("obj") == op["as"] for x in ops):
            continue
        if op.get("meth") == "readData" and any(x.get("asdoc") and x["obj"] == op["obj"] for x in ops):
            continue
        yield dict(s, ops=ops, faults=[dict(f, op=f["op"] - (f["op"] > i)) for f in s["faults"]])
    if s["faults"]:
        yield dict(s, faults=[])
    used = {x for op in s["ops"] for x in op.get("args", []) if isinstance(x, str)} | {op.get("file") for op in s["ops"]} | \
           {x for op in s["ops"] for x in op.get("argv", [])}
    for f in s["files"]:
        if f not in used:
            yield dict(s, files={a: b for a, b in s["files"].items() if a != f})
    p = s["prog"]
    for k in ("noise", "blk"):
        if p.get(k):
            yield dict(s, prog=dict(p, **{k: 0 if k == "blk" else None}))
    for i, op in enumerate(s["ops"]):
        for k in op.get("kw", {}):
            if k not in ("na_file", "csv_file", "nc_file"):
                yield dict(s, ops=s["ops"][:i] + [dict(op, kw={a: b for a, b in op["kw"].items() if a != k})] + s["ops"][i + 1:])
    for k, d in s["docs"].items():
        if "FFI" in d:
            for e in gen.simpler(d):
                yield dict(s, docs=dict(s["docs"], **{k: e}))
    for k, d in s["datasets"].items():
        for e in ncgen.simpler(d):
            yield dict(s, datasets=dict(s["datasets"], **{k: e}))
    for k, d in s["files"].items():
        if isinstance(d, dict):
            for e in ncgen.simpler(d):
                yield dict(s, files=dict(s["files"], **{k: e}))


def describe(s, ctx):
    return {"ops": [brief_op({k: x for k, x in op.items() if k not in ("grp", "same", "same2")}) for op in s["ops"]], "faults": s["faults"],
            "docs": {k: "FFI %s NV=%s" % (d.get("FFI"), d.get("NV")) for k, d in s["docs"].items()},
            "datasets": {k: [[v["name"], v["dims"]] for v in d["vars"]] for k, d in list(s["datasets"].items()) + [(f, t) for f, t in s["files"].items() if isinstance(t, dict)]},
            "files": sorted(s["files"])}
