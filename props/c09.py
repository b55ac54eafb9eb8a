"""C09: splitting on a size limit loses, repeats and renames nothing."""
import random
import re

from model import gen, ncgen, refna
from props.common import *
from props import common, jobs, c04
from sim import shim

ID = "C09"
LEVEL = "exploration"
QUICK = 1100
THOROUGH = 50000
RULE = ("One run = a seeded dataset converted through one of the five entry points with a seeded size limit, layout options and output name; the files are compared, record by record, "
        "with what the same conversion writes without the limit; then the names-only form; then, on the same disk, the conversion hit by a crash at a seeded I/O call, an I/O fault, a full disk "
        "or an interruption at a seeded line, and repeated in the same or a new process. Non-trivial: at least one file was split in two or more.")
MUST = ["split", "not split because it fits", "several groups", "left alone: not FFI 1001", "crash", "fault", "interrupt", "repeated in the same process", "repeated in a new process",
        "names only", "without header", "annotated", "one record per file", "limit divides the records", "name without extension", "another limit before"]
KW = ("float_format", "delimiter", "annotation", "no_header", "na_items_to_override", "var_ids", "exclude_vars", "requested_ffi")


def generate(r, ctx):
    big = r.random() < 0.06
    many = r.random() < 0.008
    ranks = [1] if many or r.random() < 0.75 else None
    sp = ncgen.spec(r, ranks=ranks, big=big and not many, n0=r.choice([1001, 1002, 1013, 2005]) if many else r.choice([1, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20]) if not big else None)
    n = len(sp["axes"][0]["values"]) if sp["axes"] else 1
    lim = r.choice([1, 1, 2, 3, 4, n - 1, n, n + 1, n // 2, (n + 1) // 2, n // 3, 1000])
    lim = r.randint(1, n - 1) if n > 1 and r.random() < 0.4 else lim
    lim = max(1, n // 1001) if many else max(1, lim if not big else r.choice([n // 7, n - 1, 50, n // 2 + 1]))
    api = r.choice(["fn", "fn", "csv", "script", "script-csv", "xr", "xrcsv", "class", "class"])
    csv = api in ("csv", "script-csv", "xrcsv")
    out = r.choice(["out.na", "out", "out.v2.na", "out.txt", "sub.d/out", "sub.d/out.na", None] if not csv else ["out.csv", "out", "out.na", "sub.d/x.csv", None])
    if out is None and api in ("xr", "xrcsv"):
        out = "out.na"
    kw = jobs.nc_out_kw(r)
    kw.pop("size_limit", None)
    if csv:
        kw.pop("delimiter", None)
    if api.startswith("script"):
        kw.pop("na_items_to_override", None)
    if r.random() < 0.1:
        kw["requested_ffi"] = 1001
    names = [v["name"] for v in sp["vars"] if not v.get("bounds")]
    if r.random() < 0.15 and len(names) > 1 and api not in ("xr", "xrcsv"):
        if r.random() < 0.5:
            kw["exclude_vars"] = [r.choice(names)]
        else:
            kw["var_ids"] = r.sample(names, r.randint(1, len(names)))
    s = {"spec": sp, "api": api, "out": out, "limit": lim, "kw": kw, "prog": base_prog(r), "faults": [], "retry": r.choice(["same", "new", "new"]),
         "before": r.choice([1, 2, 3, 5]) if r.random() < 0.15 else None}
    s["prog"]["clock"][1] = 0
    if many:
        s["prog"]["cpu"] = 150
    if api not in ("xr", "xrcsv"):
        s["prog"]["noise"] = None
    o, i = life(s, ctx, [step(s, lim)], plan=True)
    rec = o.rec(i[0]) if i else None
    if rec and rec.get("ok") and not many:
        ev = o.events[rec["lo"]:rec["hi"]]
        wr = [k for k, e in enumerate(ev) if shim.KINDS.get(e[0]) in ("write", "open-w", "close", "trunc", "rename", "unlink")]
        q = r.random()
        if q < 0.4 and wr:
            s["faults"] = [{"op": 0, "at": r.choice(wr), "action": "crash", "arg": r.randrange(1 << 20)}]
        elif q < 0.7 and ev:
            s["faults"] = c04.pick(r, ev, 0, o.names)
        elif q < 0.9 and rec["lines"]:
            s["faults"] = [{"op": 0, "line": r.randrange(rec["lines"]), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}]
    return s


def step(s, limit, names=False, plain=False):
    """The operations of one conversion; the last one is what is looked at."""
    kw = {k: s["kw"][k] for k in KW if k in s["kw"]}
    if plain:
        kw.pop("no_header", None)
        kw.pop("annotation", None)
    if limit is not None:
        kw["size_limit"] = limit
    out, api, src = s["out"], s["api"], "in.nc"
    if api in ("xr", "xrcsv"):
        ga = {"$tuples": [[k, v] for k, v in s["spec"]["attrs"].items()]}
        return [{"do": "fn", "name": "convertXarrayObjectsToNA" if api == "xr" else "convertXarrayObjectsToCSV", "args": [{"$vars": "d"}, ga, out], "kw": kw}]
    if api in ("fn", "csv"):
        if out is not None:
            kw["na_file" if api == "fn" else "csv_file"] = out
        if names:
            kw["only_return_file_names"] = True
        return [{"do": "fn", "name": "convertNCToNA" if api == "fn" else "convertNCToCSV", "args": [src], "kw": kw}]
    if api == "class":
        ck = {k: kw.pop(k) for k in ("var_ids", "exclude_vars", "requested_ffi", "na_items_to_override") if k in kw}
        ops = [{"do": "new", "as": "c", "cls": "nappy.nc_interface.nc_to_na.NCToNA", "args": [src], "kw": ck},
               {"do": "call", "obj": "c", "meth": "convert", "ret": False}]
        if names:
            return ops + [{"do": "call", "obj": "c", "meth": "constructNAFileNames", "ret": 1, "args": [out], "kw": {"size_limit": limit}}]
        return ops + [{"do": "call", "obj": "c", "meth": "writeNAFiles", "ret": 1, "args": [out], "kw": kw},
                      {"do": "attr", "obj": "c", "attr": "output_files_written"}]
    av = ["-i", src]
    if out is not None:
        av += ["-o", out]
    for k, o in (("float_format", "-f"), ("delimiter", "-d")):
        if k in kw and (k != "delimiter" or api == "script"):
            av += [o, kw[k]]
    if "var_ids" in kw:
        av += ["-v", ",".join(kw["var_ids"])]
    if "exclude_vars" in kw:
        av += ["-e", ",".join(kw["exclude_vars"])]
    if "requested_ffi" in kw:
        av += ["--ffi=%d" % kw["requested_ffi"]]
    for k, o in (("no_header", "--no-header"), ("annotation", "--annotated")):
        if kw.get(k):
            av.append(o)
    if names:
        av.append("--names-only")
    if limit is not None:
        av += ["-l", str(limit)]
    return [{"do": "script", "name": "nc2na" if api == "script" else "nc2csv", "argv": av, "out": 1}]


def life(s, ctx, steps, faults=(), plan=False, fresh=True, at=0):
    """Runs the steps in one process; `faults` aim at step `at`'s last writing operation."""
    if fresh:
        ctx.fresh({"in.nc": s["spec"], "sub.d/keep": "x"})
    ops, idx = [{"do": "import"}], []
    for st in steps:
        ops += st
        idx.append(len(ops) - 1)
    w = idx[at] - (1 if steps[at][-1]["do"] == "attr" else 0)
    fl = [dict(f, op=w) for f in faults]
    o = ctx.life(dict(s["prog"], docs={}, datasets={"d": s["spec"]}, ops=ops, faults=fl), plan)
    return o, idx if not plan else [w]


def names_of(s, rec):
    """The returned list of names."""
    r = rec["ret"]
    return r[0] if s["api"].startswith("script") else r


def files(ctx):
    return {k: v.decode("utf-8", "surrogateescape") for k, v in ctx.tree().items() if k not in ("in.nc", "sub.d/keep")}


def delim_of(s):
    if s["api"] in ("csv", "script-csv", "xrcsv"):
        return ","
    return s["kw"].get("delimiter")


def run(s, ctx):
    lim, kw = s["limit"], s["kw"]
    o, i = life(s, ctx, [step(s, None, plain=True)])
    rec = o.rec(i[0])
    if o.status != "exit" or not rec or not rec.get("ok"):
        return []
    unames, utree = names_of(s, rec), files(ctx)
    unsplit = []
    for f in unames:
        try:
            unsplit.append(refna.parse(utree[f], delim=delim_of(s)))
        except (refna.Malformed, KeyError) as e:
            return [("unsplit", "without a size limit, %r is not a complete file: %s" % (f, e))]
    o, i = life(s, ctx, [step(s, lim)])
    if hang_of(o):
        return [("hang", "did not finish: %s" % hang_of(o))]
    rec = o.rec(i[0])
    if rec is None or not rec.get("ok"):
        return [("refused", "accepted without a size limit, with size limit %d: %s" % (lim, excs(rec) if rec else o.status))]
    names, tree = names_of(s, rec), files(ctx)
    e = check(s, ctx, names, tree, unsplit, unames)
    if e:
        return [e]
    e = reported(s, o, i[0], names)
    if e:
        return [("reported", e)]
    # only the names
    if s["api"] not in ("xr", "xrcsv"):
        o, i = life(s, ctx, [step(s, lim, names=True)])
        q = o.rec(i[0])
        if not q or not q.get("ok"):
            return [("names", "asked for the names only: %s" % (excs(q) if q else o.status))]
        if names_of(s, q) != names:
            return [("names", "asked for the names only: %s, but %s are written" % (names_of(s, q), names))]
        if files(ctx):
            return [("names", "asked for the names only, but wrote %s" % sorted(files(ctx)))]
        ctx.probe("names only")
    # another limit first, on the same disk and in the same process
    if s["before"]:
        o, i = life(s, ctx, [step(s, s["before"]), step(s, lim)], at=1)
        q = o.rec(i[1])
        if not q or not q.get("ok"):
            return [("again", "after a conversion with size limit %d: %s" % (s["before"], excs(q) if q else o.status))]
        e = same(ctx, names_of(s, q), names, tree)
        if e:
            return [("again", "after a conversion with size limit %d: %s" % (s["before"], e))]
        ctx.probe("another limit before")
    if not s["faults"]:
        return []
    crash = any(f.get("action") == "crash" for f in s["faults"])
    how = "crash" if crash else "interrupt" if "line" in s["faults"][0] else "fault"
    one_life = s["retry"] == "same" and not crash
    if one_life:
        o, i = life(s, ctx, [step(s, lim), step(s, lim)], faults=s["faults"], at=0)
        q = o.rec(i[1])
        if o.status.startswith("signal") and any(e[4] and e[3] < 0 and o.names[e[1]].endswith(".nc") for e in o.events):
            # the NetCDF C library does not survive every I/O error
            ctx.probe("process died in the NetCDF library")
            one_life = False
    if not one_life:
        o, i = life(s, ctx, [step(s, lim)], faults=s["faults"])
        a = o.rec(i[0])
        if hang_of(o):
            return [("hang", "did not finish after %s: %s" % (s["faults"], hang_of(o)))]
        if a and a.get("ok") and how != "crash":
            e = same(ctx, names_of(s, a), names, tree)
            if e:
                return [("silent", "success reported in spite of %s: %s" % (s["faults"], e))]
        o, i = life(s, ctx, [step(s, lim)], fresh=False)
        q = o.rec(i[0])
    if hang_of(o):
        return [("hang", "did not finish after %s: %s" % (s["faults"], hang_of(o)))]
    if not q or not q.get("ok"):
        return [("repeat", "after %s, repeating the conversion: %s" % (s["faults"], excs(q) if q else o.status))]
    ctx.probe(how)
    ctx.probe("repeated in the same process" if one_life else "repeated in a new process")
    e = same(ctx, names_of(s, q), names, tree)
    if e:
        return [("repeat", "after %s, repeating the conversion: %s" % (s["faults"], e))]
    return []


def same(ctx, got, names, tree):
    if got != names:
        return "returned %s instead of %s" % (got, names)
    now = files(ctx)
    for f in names:
        if now.get(f) != tree[f]:
            return "%r differs: %s" % (f, jobs.diff(tree[f], now.get(f)))
    return None


def check(s, ctx, names, tree, unsplit, unames):
    lim, kw = s["limit"], s["kw"]
    if len(set(names)) != len(names):
        return "names", "a name is returned twice: %s" % names
    if sorted(names) != sorted(tree):
        return "names", "returned %s, but the files written are %s" % (sorted(names), sorted(tree))
    asked = s["out"] or ("in.csv" if s["api"] in ("csv", "script-csv") else "in.na")
    m = re.match(r"^(.*?)(\.[^./]*)?$", asked)
    stem, ext = m.group(1), m.group(2) or ""
    for f in names:
        if not (f.startswith(stem) and f.endswith(ext)):
            return "names", "asked for %r, wrote %r" % (asked, f)
    ann = kw.get("delimiter") or "    "
    ann = ("," if delim_of(s) == "," else ann) if kw.get("annotation") else None
    left = list(names)
    if len(unsplit) > 1:
        ctx.probe("several groups")
    for u, uf in zip(unsplit, unames):
        n = len(u["X"])
        split = u["FFI"] == 1001 and n > lim
        k = -(-n // lim) if split else 1
        mine, left = left[:k], left[k:]
        if len(mine) < k:
            return "number", "%d records with limit %d take %d files, but only %s are left of %s" % (n, lim, k, mine, names)
        if split:
            ctx.nontrivial = True
            ctx.probe("split")
            if any(re.search(r"-\d{4,}(\.|$)", f) for f in ctx.tree()):
                ctx.probe("more than 999 volumes")
            ctx.probe("one record per file", lim == 1)
            ctx.probe("limit divides the records", n % lim == 0)
            ctx.probe("without header", bool(kw.get("no_header")))
            ctx.probe("annotated", bool(kw.get("annotation")))
            ctx.probe("name without extension", not ext)
        elif u["FFI"] == 1001:
            ctx.probe("not split because it fits")
        elif n > lim:
            ctx.probe("left alone: not FFI 1001")
        at = 0
        for v, f in enumerate(mine):
            exp = dict(u)
            if split:
                hi = min(at + lim, n)
                exp.update(IVOL=v + 1, NVOL=k, X=u["X"][at:hi], V=[x[at:hi] for x in u["V"]], A=[x[at:hi] for x in u["A"]], RNX=u["RNX"][at:hi])
                at = hi
            try:
                if kw.get("no_header"):
                    got = refna.parse_nohead(tree[f], exp, ann, delim_of(s))
                    exp = {q: exp[q] for q in got}
                else:
                    got = refna.parse(tree[f], ann, delim=delim_of(s))
            except refna.Malformed as e:
                return "incomplete", "%r (%d of %d, records %d-%d) is not a complete file: %s" % (f, v + 1, k, at, at + lim, e)
            d = refna.diff(exp, got)
            if d:
                return "content", "%r, volume %d of %d of a file with %d records, limit %d: %s" % (f, v + 1, k, n, lim, "; ".join(d)[:400])
    if left:
        return "number", "%s are more files than %d groups take with limit %d" % (left, len(unsplit), lim)
    return None


def reported(s, o, i, names):
    """The names in messages and printed output."""
    if s["api"] == "class":
        msg = o.rec(i - 1)["ret"]
        txt = "\n".join(m for m in msg if "written successfully" in m)
        m = re.match(r"\s*(\d+) files? written", msg[-1]) if msg else None
        if m and int(m.group(1)) != len(names):
            return "%r, but %d files were written" % (msg[-1].strip(), len(names))
    elif s["api"].startswith("script"):
        txt = o.rec(i)["ret"][1]
    else:
        return None
    lines = [x.strip() for x in txt.split("\n")]
    for f in names:
        if lines.count(f) != 1:
            return "%r is reported %d times in %r" % (f, lines.count(f), txt[:400])
    return None


def shrink(s):
    if s["faults"]:
        yield dict(s, faults=[])
        if len(s["faults"]) > 1:
            for i in range(len(s["faults"])):
                yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    if s["before"]:
        yield dict(s, before=None)
    for k in list(s["kw"]):
        yield dict(s, kw={a: b for a, b in s["kw"].items() if a != k})
    for e in ncgen.simpler(s["spec"]):
        yield dict(s, spec=e)
    if s["limit"] > 2:
        yield dict(s, limit=2)
    if s["out"] not in (None, "out.na"):
        yield dict(s, out="out.na")
    if s["prog"].get("blk"):
        yield dict(s, prog=dict(s["prog"], blk=0))
    for f in s["faults"]:
        for k in ("at", "line"):
            if f.get(k):
                for a in (f[k] // 2, f[k] - 1):
                    yield dict(s, faults=[dict(g, **{k: a}) if g is f else g for g in s["faults"]])


def describe(s, ctx):
    return {"variables": [[v["name"], v["dims"]] for v in s["spec"]["vars"]], "axes": [[a["name"], len(a["values"])] for a in s["spec"]["axes"]], "api": s["api"], "out": s["out"],
            "limit": s["limit"], "kw": s["kw"], "faults": s["faults"], "retry": s["retry"], "before": s["before"]}
