"""C06: an operation behaves as in a fresh process whatever the process did before."""
import random
import re

from model import gen, ncgen, refna
from props.common import *
from props import common, jobs, c04
from sim import shim

ID = "C06"
LEVEL = "exploration"
QUICK = 2000
THOROUGH = 50000
RULE = ("One run = one life in which one to six operations (any kind; good, refused for bad input, failing on a seeded I/O fault also in configuration files, interrupted by "
        "KeyboardInterrupt or MemoryError at a seeded line, sessions left open, the same file names with other contents) are followed by one to three operations whose outcome, "
        "return value or exception, output files and process-wide state are compared with the same operation in a fresh process. Non-trivial: something preceded and was compared.")
MUST = ["after an interrupt", "after an I/O fault", "after refused input", "same names, other contents", "after a configuration fault", "probe refused as in a fresh process",
        "same inputs again"]
ANN = "[annotations]\n%s\n"
LOC = "[nc_attributes]\ninstitution = Data of %s\n\n[na_attributes]\nORG = %s\n"


def bad(r, n):
    """An operation that is refused."""
    p = "b%d" % n
    f, docs, dss, files = p + ".na", {}, {}, {}
    k = r.randrange(15)
    if k == 0:
        op = {"do": "read", "file": f}
    elif k == 1:
        files[f] = r.choice(["", "hello\n", "12 1001\nx\n", "zz zz\n", "14 1002\nA\nB\nC\nD\n1 1\n", "%d 1001\n" % 10 ** 6])
        op = {"do": r.choice(["read", "read", "fn"]), "file": f, "name": "convertNAToCSV", "args": [f]}
    elif k == 2:
        d = gen.doc(r)
        files[f] = refna.render(d)[:r.randint(20, 120)]
        op = {"do": "read", "file": f}
    elif k == 3:
        d = gen.doc(r)
        for x in r.sample(["VNAME", "V", "X", "ONAME", "VMISS", "NV", "DATE"], 2):
            d.pop(x, None)
        docs[p] = d
        op = {"do": "write", "file": f, "doc": p, "kw": {}}
    elif k == 4:
        docs[p] = gen.doc(r)
        op = {"do": "write", "file": f, "doc": p, "kw": {"float_format": r.choice(["%q", "%s %s", 5])}}
    elif k == 5:
        docs[p] = gen.doc(r)
        op = {"do": "open", "as": p, "file": f, "mode": r.choice(["a", "x", "rw", ""]), "doc": p}
    elif k == 6:
        d = jobs.conv_doc(r)
        files[f] = refna.render(d)
        op = {"do": "fn", "name": "convertNAToNC", "args": [f], "kw": r.choice([{"variables": ["no such variable"]}, {"mode": "z"}, {"time_units": "parsecs"},
                                                                              {"aux_variables": ["none"]}, {"variables": [99]}, {"rename_variables": 7}])}
    elif k == 7:
        files[p + ".nc"] = ncgen.spec(r)
        op = {"do": "fn", "name": r.choice(["convertNCToNA", "convertNCToCSV"]), "args": [p + ".nc"],
              "kw": r.choice([{"var_ids": ["nope"]}, {"requested_ffi": 4010}, {"requested_ffi": 1}, {"requested_ffi": 2310}, {"float_format": "%q"}, {"size_limit": "x"}])}
    elif k == 8:
        files[p + ".nc"] = "not a NetCDF file " * r.randint(0, 9)
        op = {"do": "fn", "name": "convertNCToNA", "args": [p + ".nc"]}
    elif k == 9:
        op = {"do": "script", "name": r.choice(["na2nc", "nc2na", "nc2csv"]), "argv": r.choice([["-i", f], ["--frob"], ["-i"]])}
    elif k == 10:
        op = {"do": "fn", "name": "convertXarrayObjectsToNA", "args": [[], [], f]}
    elif k == 11:
        d = jobs.conv_doc(r)
        files[f] = refna.render(d)
        op = {"do": "fn", "name": "getXarrayVariableFromNA", "args": [f, "no such variable"]}
    elif k == 12:
        op = {"do": "fn", "name": "chooseFFI", "args": [{}]}
    elif k == 13:
        d = gen.doc(r, ffi=2110)
        files[f] = refna.render(d)
        op = {"do": "fn", "name": "convertNAToNC", "args": [f]}
    else:
        d = gen.doc(r, ffi=1001)
        d["V"] = [v[:-1] + ["x"] if v else v for v in d["V"]]
        docs[p] = d
        op = {"do": "write", "file": f, "doc": p, "kw": {}}
    return {"kind": "bad", "pre": p, "op": op, "docs": docs, "datasets": dss, "files": files}


def twin_of(r, j):
    """A job on the same file names with other contents."""
    t = jobs.make(r, 0, [j["kind"]], odd=True, ask="all", pre=j["pre"]) if j["kind"] != "bad" else None
    if t is None:
        return None
    k = j["pre"] + "t"
    t["docs"] = {k: d for d in t["docs"].values()}
    t["datasets"] = {k: d for d in t["datasets"].values()}
    if "doc" in t["op"]:
        t["op"]["doc"] = k
    if t["datasets"]:
        t["op"]["args"][0] = {"$vars": k}
    return t


def setter(r, n, probe):
    """A reader with settings of its own, of the format a later operation uses."""
    p = "s%d" % n
    d = gen.doc(r, ffi=probe["doc"]["FFI"]) if probe.get("doc") else gen.doc(r)
    return {"kind": "read", "pre": p, "docs": {}, "datasets": {}, "files": {p + ".na": refna.render(d)}, "doc": d,
            "op": {"do": "read", "file": p + ".na", "style": r.choice(["plain", "with"]), "meta": 1,
                   "pattern": [r.choice(["set", "set", "call"]), r.choice([r"^\s*(.*)\[(.+?)\](.*)\s*$", r"^(\w*) ?(\S+) ?(.*)$"])]}}


def generate(r, ctx):
    n = 0
    hist, probes = [], []
    ks = jobs.ALL if r.random() < 0.6 else r.choice([["nc2na", "xr2na", "nc2csv"], ["na2nc", "readxr"], ["read", "write", "csv"]])
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        probes.append(jobs.make(r, n, ks, odd=True, ask="all", dirs=True) if r.random() < 0.85 else bad(r, n))
        n += 1
    for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
        q = r.random()
        if q < 0.25:
            j = bad(r, n)
        elif q < 0.45:
            p = r.choice(probes)
            j = twin_of(r, p)
            if j:
                hist.append({"job": j, "twin": p["pre"], "keep": r.random() < 0.3})
                continue
            j = jobs.make(r, n, ks, odd=True, ask="all", dirs=True)
        elif q < 0.6:
            p = r.choice(probes)
            hist.append({"again": p["pre"], "job": p})
            continue
        elif q < 0.68:
            j = setter(r, n, r.choice(probes))
        else:
            j = jobs.make(r, n, ks, odd=True, ask="all", dirs=True)
            if r.random() < 0.2:
                jobs.misask(r, j)
        n += 1
        it = {"job": j}
        if j["kind"] in ("write", "read") and r.random() < 0.3:
            it["session"] = r.choice(["open", "half", "nodata"])
        hist.append(it)
    s = {"hist": hist, "probes": probes, "faults": [], "prog": base_prog(r), "cfg": r.random() < 0.3, "env": {}, "envfiles": {}}
    s["prog"]["clock"][1] = 0
    s["prog"]["noise"] = None
    if r.random() < 0.2:
        s["env"] = {"NAPPY_ANNOTATIONS": "zz_ann.ini", "NAPPY_LOCAL_ATTRIBUTES": "zz_loc.ini"}
        keys = ["NLHEAD_FFI", "ONAME", "ORG", "SNAME", "MNAME", "IVOL_NVOL", "DATE_RDATE", "DX", "NVPM", "NX", "NXDEF", "X", "LENX", "LENA", "XNAME", "NV", "VSCAL", "VMISS",
                "VNAME", "NAUXV", "NAUXC", "ASCAL", "AMISS", "ANAME", "NSCOML", "SCOM", "NNCOML", "NCOM", "Data"]
        s["envfiles"] = {"zz_ann.ini": ANN % "\n".join("%s = The %s" % (k, k.lower()) for k in keys), "zz_loc.ini": LOC % ("A", "Someone, somewhere")}
    if r.random() < 0.8:
        s["prog"]["locs"] = 1
        o, at = life(s, ctx, plan=True)
        s["prog"].pop("locs")
        for _ in range(r.choice([1, 1, 1, 2])):
            t = r.randrange(len(hist))
            rec = o.rec(at["hist"][t])
            if not rec:
                continue
            ev = o.events[rec["lo"]:rec["hi"]]
            nc = any(o.names[e[1]].endswith(".nc") for e in ev)
            cf = [i for i, e in enumerate(ev) if o.names[e[1]].startswith("<config>") or o.names[e[1]].startswith("zz_")]
            q = r.random()
            if cf and q < 0.5:
                s["faults"].append({"op": t, "at": r.choice(cf), "action": "err", "arg": r.choice([E.EIO, E.EMFILE, E.EACCES, E.ENOENT])})
            elif q < 0.55 and rec["lines"]:
                s["faults"].append({"op": t, "line": r.choice(rec["locs"]) if r.random() < 0.6 else r.randrange(rec["lines"]),
                                    "exc": r.choice(["KeyboardInterrupt", "MemoryError"])})
            elif ev and rec.get("ok") and not (nc and ("twin" in hist[t] or "again" in hist[t])):
                s["faults"] += c04.pick(r, ev, t, o.names)
        s["faults"] = [f for i, f in enumerate(s["faults"]) if "line" not in f or not any("line" in g and g["op"] == f["op"] for g in s["faults"][:i])]
    return s


def parts(s):
    docs, dss, files = jobs.collect(s["probes"])
    moved = {}
    twins = {h["twin"] for h in s["hist"] if "twin" in h}
    for p in s["probes"]:
        if p["pre"] in twins:
            for f in inputs(p):
                k = "zz_" + f.replace("/", "-")
                files[k] = files.pop(f)
                moved.setdefault(p["pre"], []).append([k, f])
    ops = [{"do": "import"}, {"do": "state"}]
    at = {"hist": [], "probes": []}
    pres = {p["pre"]: p for p in s["probes"]}
    for h in s["hist"]:
        j = h["job"]
        if "again" in h:
            # in the first round, the inputs have to be in place
            if h["again"] in moved:
                mv = [m for m in moved[h["again"]]]
                ops.append({"do": "disk", "copy": mv})
            at["hist"].append(len(ops))
            ops.append(j["op"])
            continue
        docs.update(j["docs"])
        dss.update(j["datasets"])
        if "twin" in h:
            # its input files are put in place first
            mv = []
            for f in inputs(j):
                k = "zt%d_%s" % (len(ops), f.replace("/", "-"))
                files[k] = j["files"][f]
                mv.append([k, f])
            if mv:
                ops.append({"do": "disk", "copy": mv})
        else:
            files.update(j["files"])
        at["hist"].append(len(ops))
        if h.get("session"):
            op = dict(j["op"])
            o1 = {"do": "open", "as": "s" + j["pre"], "file": op["file"]}
            if j["kind"] == "write":
                o1.update(mode="w", doc=op["doc"])
                o2 = {"do": "call", "obj": "s" + j["pre"], "meth": "write", "kw": op["kw"]}
            else:
                o2 = {"do": "call", "obj": "s" + j["pre"], "meth": r_choice(h["session"])}
            if h["session"] == "half":
                ops.append(o1)
                at["hist"][-1] = len(ops)
                ops.append(o2)
            else:
                ops.append(o1)
        else:
            ops.append(j["op"])
    for p in s["probes"]:
        mv = moved.get(p["pre"], [])
        keep = all(h.get("keep") for h in s["hist"] if h.get("twin") == p["pre"]) and not any(h.get("again") == p["pre"] for h in s["hist"])
        ops.append({"do": "disk", "clear": [] if keep else [p["pre"] + "_", p["pre"] + "-", p["pre"] + "."] if mv or not inputs(p) else [], "but": sorted(inputs(p)) if not mv else [],
                    "copy": mv})
    ops.append({"do": "state"})
    for p in s["probes"]:
        at["probes"].append(len(ops))
        ops.append(p["op"])
    ops.append({"do": "state"})
    files.update(s["envfiles"])
    return docs, dss, files, ops, at


def inputs(j):
    return [f for f in j["files"] if not f.endswith("/")]


def r_choice(k):
    return "readData" if k == "half" else "getNADict"


def life(s, ctx, plan=False):
    docs, dss, files, ops, at = parts(s)
    ctx.fresh(files)
    fl = [dict(f, op=at["hist"][f["op"]]) for f in s["faults"]]
    return ctx.life(dict(s["prog"], docs=docs, datasets=dss, ops=ops, faults=fl, config_faults=s["cfg"], env=s["env"]), plan), at


def out_of(ctx, p):
    return jobs.outputs(ctx, p)


def norm(e):
    return None if e is None else [e[0], re.sub(r"0x[0-9a-f]+|\b\d{5,}\b", "#", e[1])]


def run(s, ctx):
    ref = []
    for p in s["probes"]:
        ctx.fresh(dict(p["files"], **s["envfiles"]))
        o = ctx.life(dict(s["prog"], docs=p["docs"], datasets=p["datasets"], ops=[{"do": "import"}, {"do": "state"}, p["op"]], faults=[], env=s["env"]))
        if o.status != "exit":
            return []          # not this property's concern
        ref.append((o.rec(2), out_of(ctx, p), o.rec(1)["ret"]))
    o, at = life(s, ctx)
    if hang_of(o):
        return [("hang", "an operation did not finish: %s" % hang_of(o))]
    if o.status != "exit":
        return [] if o.status.startswith("signal") and any("line" not in f for f in s["faults"]) else [("died", "the process ended with %s" % o.status)]
    v = []
    story = []
    for t, h in enumerate(s["hist"]):
        rec = o.rec(at["hist"][t])
        fl = [f for f in s["faults"] if f["op"] == t]
        what = h["job"]["kind"]
        if rec.get("ok"):
            story.append(what)
        else:
            story.append("%s (%s)" % (what, excs(rec)[:80]))
        if any("line" in f for f in fl):
            ctx.probe("after an interrupt")
        elif fl and not rec.get("ok"):
            ctx.probe("after an I/O fault")
            if any(o.names[e[1]].startswith("<config>") and e[4] for e in o.events[rec["lo"]:rec["hi"]]):
                ctx.probe("after a configuration fault")
        elif h["job"]["kind"] == "bad" and not rec.get("ok"):
            ctx.probe("after refused input")
        if "twin" in h:
            ctx.probe("same names, other contents")
        if "again" in h:
            ctx.probe("same inputs again")
    story = "after " + "; ".join(story)
    st0 = ref[0][2]
    for rec in (o.recs[1], o.rec(at["probes"][0] - 1), o.recs[-1]):
        if rec.get("do") == "state" and repr(rec.get("ret")) != repr(st0):
            v.append(("state", "process-wide state changed %s: %s" % (story, jobs.diff(st0, rec.get("ret")))))
            break
    for p, i, (rr, rout, _) in zip(s["probes"], at["probes"], ref):
        rec = o.rec(i)
        ctx.nontrivial = True
        b = jobs.brief(p)
        if bool(rec.get("ok")) != bool(rr.get("ok")):
            v.append(("outcome", "%s, %s: %s; in a fresh process %s" % (story, b, "accepted" if rec.get("ok") else excs(rec), "accepted" if rr.get("ok") else excs(rr))))
            continue
        if not rec.get("ok"):
            ctx.probe("probe refused as in a fresh process")
            if repr(norm(rec["exc"])) != repr(norm(rr["exc"])):
                v.append(("outcome", "%s, %s fails with %s; in a fresh process with %s" % (story, b, excs(rec), excs(rr))))
        elif repr(rec.get("ret")) != repr(rr.get("ret")):
            v.append(("result", "%s, the result of %s differs: %s" % (story, b, jobs.diff(rr.get("ret"), rec.get("ret")))))
        out = out_of(ctx, p)
        if any(h.get("twin") == p["pre"] or h.get("again") == p["pre"] for h in s["hist"]):
            out = {f: x for f, x in out.items() if f in rout}
        if repr(out) != repr(rout):
            v.append(("output", "%s, the output of %s differs: %s" % (story, b, jobs.diff(rout, out))))
    return v[:5]


def shrink(s):
    for i in range(len(s["hist"])):
        if len(s["hist"]) > 1:
            yield dict(s, hist=s["hist"][:i] + s["hist"][i + 1:], faults=[dict(f, op=f["op"] - (f["op"] > i)) for f in s["faults"] if f["op"] != i])
    for i in range(len(s["probes"])):
        p = s["probes"][i]["pre"]
        if len(s["probes"]) > 1 and not any(h.get("twin") == p or h.get("again") == p for h in s["hist"]):
            yield dict(s, probes=s["probes"][:i] + s["probes"][i + 1:])
    for i in range(len(s["faults"])):
        yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    if s["env"]:
        yield dict(s, env={}, envfiles={})
    for i, h in enumerate(s["hist"]):
        if "session" in h:
            yield dict(s, hist=s["hist"][:i] + [{"job": h["job"]}] + s["hist"][i + 1:])
        if "again" not in h and h["job"]["kind"] != "bad":
            for j in jobs.simpler(h["job"]):
                yield dict(s, hist=s["hist"][:i] + [dict(h, job=j)] + s["hist"][i + 1:])
    for i, p in enumerate(s["probes"]):
        if p["kind"] == "bad":
            continue
        for j in jobs.simpler(p):
            yield dict(s, probes=s["probes"][:i] + [j] + s["probes"][i + 1:],
                       hist=[dict(h, job=j) if h.get("again") == p["pre"] else h for h in s["hist"]])
    if s["prog"].get("blk"):
        yield dict(s, prog=dict(s["prog"], blk=0))


def describe(s, ctx):
    return {"before": [dict(jobs.brief(h["job"]), **{k: x for k, x in h.items() if k != "job"}) for h in s["hist"]], "faults": s["faults"],
            "then": [jobs.brief(p) for p in s["probes"]], "env": s["env"]}
