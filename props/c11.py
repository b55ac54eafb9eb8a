"""C11: NetCDF to NASA Ames conversion writes each variable exactly once."""
import datetime
import random
import re

from model import gen, ncgen, refna
from props.common import *
from props import common, jobs, c04, c09, c10
from sim import shim

ID = "C11"
LEVEL = "exploration"
QUICK = 1500
THOROUGH = 50000
RULE = ("One run = a seeded dataset (shared, subset, scalar, bounds and integer axes, packed and integer data, missing values, any order of axes) converted through one of the seven entry points with a "
        "seeded selection, exclusion, requested format, header items and layout, after 0-2 other conversions in the process; every file is parsed by the reference parser and compared with the "
        "dataset; then the names-only form; then the conversion hit by a crash, I/O fault, full disk or interruption at a seeded point, and repeated in the same or a new process. "
        "Non-trivial: at least one variable was compared.")
MUST = ["several files", "auxiliary variable", "scalar", "missing value", "packed", "integer with missing", "subset axis", "implied axis", "bounds left out", "excluded", "selected",
        "requested format", "request refused", "rank 2", "rank 3", "rank 4", "axes reordered", "crash", "fault", "interrupt", "repeated in the same process", "repeated in a new process",
        "names only", "header items overridden", "after other conversions", "date of a time axis", "NaN as missing value", "without output name", "axis in the records", "descending axis in the records", "axes of the same name"]
FFI_RANK = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2310: 2, 3010: 3, 4010: 4}


def generate(r, ctx):
    big = r.random() < 0.04
    api = r.choice(["fn", "fn", "fn", "csv", "script", "script-csv", "xr", "xrcsv", "class", "class"])
    sp = ncgen.spec(r, ranks=r.choice([None, None, None, [1], [2], [3, 4]]), big=big, odd=r.random() < 0.7)
    if api in ("xr", "xrcsv"):
        sp = nobounds(sp)
        if r.random() < 0.25:
            ncgen.twin(r, sp, same=True)
    csv = api in ("csv", "script-csv", "xrcsv")
    out = r.choice(["out.na", "out", "out.v2.na", "sub.d/out.na", None] if not csv else ["out.csv", "out", "sub.d/x.csv", None])
    if out is None and api in ("xr", "xrcsv"):
        out = "out.na"
    kw = jobs.nc_out_kw(r)
    kw.pop("size_limit", None)
    kw.pop("no_header", None)
    if csv:
        kw.pop("delimiter", None)
    if api.startswith("script"):
        kw.pop("na_items_to_override", None)
    if kw.get("float_format") is None and r.random() < 0.1:
        kw["float_format"] = r.choice(["%.1f", "%.3e", "%.6g", "%10.3f"])
    vs = [v for v in sp["vars"] if not v.get("bounds")]
    names = [v["name"] for v in vs]
    if r.random() < 0.3 and len(names) > 1 and api not in ("xr", "xrcsv"):
        if r.random() < 0.5:
            x = r.sample(names, r.choice([1, 1, 2]) if len(names) > 2 else 1)
            kw["exclude_vars"] = [r.choice([n, n.upper(), n.lower(), n.replace("_", " ")]) for n in x] + r.choice([[], ["nosuchvar"]])
        else:
            kw["var_ids"] = r.sample(names, r.randint(1, len(names)))
            if r.random() < 0.3 and sp["axes"]:
                kw["var_ids"].append(r.choice(sp["axes"])["name"])
            if len(kw["var_ids"]) == 1 and api != "script" and r.random() < 0.5:
                kw["var_ids"] = kw["var_ids"][0] if not api.startswith("script") else kw["var_ids"]
    if r.random() < 0.2:
        ranks = {len(v["dims"]) for v in vs if v["dims"]}
        good = [f for f, k in FFI_RANK.items() if k in ranks]
        kw["requested_ffi"] = r.choice(good) if good and r.random() < 0.85 else r.choice(list(FFI_RANK))
    elif r.random() < 0.08:
        # the formats that take each record's axis from the record itself
        vs = [v for v in vs if len(v["dims"]) == 2]
        if vs:
            m = r.choice(vs)
            sp["vars"] = [v for v in sp["vars"] if v.get("bounds") or v["dims"] in ([], m["dims"], m["dims"][:1])]
            used = {d for v in sp["vars"] for d in v["dims"]}
            sp["axes"] = [a for a in sp["axes"] if a["name"] in used]
            for a in sp["axes"]:
                if a["name"] == m["dims"][1] and a.get("dtype", "f8") == "f8" and "since" not in a["attrs"].get("units", ""):
                    a["values"] = ncgen._uniform(r, len(a["values"]))
            kw["requested_ffi"] = r.choice([2110, 2310, 2310])
            kw.pop("var_ids", None)
            kw.pop("exclude_vars", None)
    prior = []
    if r.random() < 0.25:
        for _ in range(r.choice([1, 1, 2])):
            prior.append({"spec": ncgen.spec(r), "api": r.choice(["fn", "csv"]), "out": "p%d.na" % len(prior), "kw": {}, "src": "p%d.nc" % len(prior)})
    s = {"spec": sp, "api": api, "out": out, "kw": kw, "prog": base_prog(r), "faults": [], "retry": r.choice(["same", "new", "new"]), "prior": prior}
    s["prog"]["clock"][1] = 0
    if api not in ("xr", "xrcsv"):
        s["prog"]["noise"] = None
    o, i = life(s, ctx, [step(s)], plan=True)
    rec = o.rec(i[0]) if i else None
    if rec and rec.get("ok"):
        ev = o.events[rec["lo"]:rec["hi"]]
        wr = [k for k, e in enumerate(ev) if shim.KINDS.get(e[0]) in ("write", "open-w", "close", "trunc", "rename", "unlink")]
        q = r.random()
        if q < 0.25 and wr:
            s["faults"] = [{"op": 0, "at": r.choice(wr), "action": "crash", "arg": r.randrange(1 << 20)}]
        elif q < 0.5 and ev:
            s["faults"] = c04.pick(r, ev, 0, o.names)
        elif q < 0.65 and rec["lines"]:
            s["faults"] = [{"op": 0, "line": r.randrange(rec["lines"]), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}]
    return s


def nobounds(sp):
    return dict(sp, vars=[v for v in sp["vars"] if not v.get("bounds")],
                axes=[dict(a, attrs={k: x for k, x in a["attrs"].items() if k != "bounds"}) for a in sp["axes"]])


def step(s, names=False):
    t = dict(s, kw=dict(s["kw"]))
    if isinstance(t["kw"].get("var_ids"), str) and t["api"].startswith("script"):
        t["kw"]["var_ids"] = [t["kw"]["var_ids"]]
    st = c09.step(t, None, names)
    if "src" in s:
        st = [dict(op, args=[s["src"]] + op["args"][1:]) for op in st]
    if st[-1]["do"] == "call" and names:
        st = st[:-1] + [dict(st[-1], kw={})]
    return st


def life(s, ctx, steps, faults=(), plan=False, fresh=True, at=0):
    if fresh:
        f = {"in.nc": s["spec"], "sub.d/keep": "x"}
        f.update((p["src"], p["spec"]) for p in s["prior"])
        ctx.fresh(f)
    ops, idx = [{"do": "import"}], []
    for st in steps:
        ops += st
        idx.append(len(ops) - 1)
    w = idx[at] - (1 if steps[at][-1]["do"] == "attr" else 0)
    o = ctx.life(dict(s["prog"], docs={}, datasets={"d": s["spec"]}, ops=ops, faults=[dict(f, op=w) for f in faults]), plan)
    return o, idx if not plan else [w]


def files(ctx):
    return {k: v.decode("utf-8", "surrogateescape") for k, v in ctx.tree().items() if not re.match(r"(in\.nc|sub\.d/keep|p\d.*)$", k)}


def norm(x):
    return x.lower().replace(" ", "_")


def wanted(s):
    """The variables the conversion has to write."""
    kw = s["kw"]
    ids = kw.get("var_ids")
    ids = [ids] if isinstance(ids, str) else ids
    ex = {norm(x) for x in kw.get("exclude_vars", [])}
    return [v for v in s["spec"]["vars"] if not v.get("bounds") and (ids is None or v["name"] in ids) and norm(v["name"]) not in ex]


def must_succeed(s, want):
    main = [v for v in want if v["dims"]]
    if not main:
        return False
    f = s["kw"].get("requested_ffi")
    if f is None:
        return True
    if len({tuple(v["dims"]) for v in main}) > 1:
        return False
    k = len(main[0]["dims"])
    return f in ({1: (1001,), 2: (2010, 2110), 3: (3010,), 4: (4010,)}[k])


def run(s, ctx):
    want = wanted(s)
    pre = [step(p) for p in s["prior"]]
    o, i = life(s, ctx, pre + [step(s)], at=len(pre))
    if hang_of(o):
        return [("hang", "did not finish: %s" % hang_of(o))]
    rec = o.rec(i[-1])
    if o.status != "exit" or rec is None or not rec.get("ok"):
        if must_succeed(s, want):
            return [("refused", "conversion failed: %s" % (excs(rec) if rec and not rec.get("ok") else o.status))]
        ctx.probe("request refused", bool(s["kw"].get("requested_ffi")))
        return []
    if not [v for v in want if v["dims"]]:
        return []
    ctx.probe("after other conversions", bool(pre))
    names, tree = c09.names_of(s, rec), files(ctx)
    e = check(s, ctx, names, tree, want, o)
    if e:
        return [e]
    e = c09.reported(s, o, i[-1], names)
    if e:
        return [("reported", e)]
    if s["api"] not in ("xr", "xrcsv"):
        o, i = life(s, ctx, [step(s, names=True)])
        q = o.rec(i[0])
        if not q or not q.get("ok"):
            return [("names", "asked for the names only: %s" % (excs(q) if q else o.status))]
        if c09.names_of(s, q) != names:
            return [("names", "asked for the names only: %s, but %s are written" % (c09.names_of(s, q), names))]
        if files(ctx):
            return [("names", "asked for the names only, but wrote %s" % sorted(files(ctx)))]
        ctx.probe("names only")
    if not s["faults"]:
        return []
    crash = any(f.get("action") == "crash" for f in s["faults"])
    how = "crash" if crash else "interrupt" if "line" in s["faults"][0] else "fault"
    one_life = s["retry"] == "same" and not crash
    if one_life:
        o, i = life(s, ctx, [step(s), step(s)], faults=s["faults"], at=0)
        q = o.rec(i[1])
        if o.status.startswith("signal") and any(e[4] and e[3] < 0 and o.names[e[1]].endswith(".nc") for e in o.events):
            ctx.probe("process died in the NetCDF library")
            one_life = False
    if not one_life:
        o, i = life(s, ctx, [step(s)], faults=s["faults"])
        a = o.rec(i[0])
        if hang_of(o):
            return [("hang", "did not finish after %s: %s" % (s["faults"], hang_of(o)))]
        if a and a.get("ok") and how != "crash":
            e = c09_same(ctx, c09.names_of(s, a), names, tree)
            if e:
                return [("silent", "success reported in spite of %s: %s" % (s["faults"], e))]
        o, i = life(s, ctx, [step(s)], fresh=False)
        q = o.rec(i[0])
    if hang_of(o):
        return [("hang", "did not finish after %s: %s" % (s["faults"], hang_of(o)))]
    if not q or not q.get("ok"):
        return [("repeat", "after %s, repeating the conversion: %s" % (s["faults"], excs(q) if q else o.status))]
    ctx.probe(how)
    ctx.probe("repeated in the same process" if one_life else "repeated in a new process")
    e = c09_same(ctx, c09.names_of(s, q), names, tree)
    if e:
        return [("repeat", "after %s, repeating the conversion: %s" % (s["faults"], e))]
    return []


def c09_same(ctx, got, names, tree):
    if got != names:
        return "returned %s instead of %s" % (got, names)
    now = files(ctx)
    for f in names:
        if now.get(f) != tree[f]:
            return "%r differs: %s" % (f, jobs.diff(tree[f], now.get(f)))
    return None


def decoded(v):
    """Values of a variable as a user sees them; None: missing."""
    at = v["attrs"]

    def f(x):
        if isinstance(x, list):
            return [f(y) for y in x]
        if x is None:
            return None
        if v["dtype"] == "f4":
            import numpy as np
            x = float(np.float32(x))
        return x * at["scale_factor"] + at["add_offset"] if "scale_factor" in at else x
    return f(v["data"])


def best_name(v):
    at = v["attrs"]
    n = next((at[k] for k in ("long_name", "standard_name", "title") if k in at), v["name"])
    return n


def values_ok(exp, got, fmt, miss, seen):
    if isinstance(exp, list) or isinstance(got, list):
        if not (isinstance(exp, list) and isinstance(got, list)) or len(exp) != len(got):
            return "%s values instead of %s" % (len(got) if isinstance(got, list) else "single", len(exp) if isinstance(exp, list) else "single")
        for k, (a, b) in enumerate(zip(exp, got)):
            e = values_ok(a, b, fmt, miss, seen)
            if e:
                return "[%d]%s%s" % (k, "" if e[0] == "[" else " ", e)
        return None
    if exp is None:
        seen.append(1)
        return None if got == miss else "%r instead of the missing value %r" % (got, miss)
    w = float(fmt % exp)
    return None if w == got or abs(w - got) <= 1e-14 * abs(w) else "%r instead of %r" % (got, w)


def check(s, ctx, names, tree, want, o):
    kw, sp = s["kw"], s["spec"]
    if len(set(names)) != len(names):
        return "names", "a name is returned twice: %s" % names
    if sorted(names) != sorted(tree):
        return "names", "returned %s, but the files written are %s" % (sorted(names), sorted(tree))
    asked = s["out"] or ("in.csv" if s["api"] in ("csv", "script-csv") else "in.na")
    ctx.probe("without output name", s["out"] is None)
    m = re.match(r"^(.*?)(\.[^./]*)?$", asked)
    for f in names:
        if not (f.startswith(m.group(1)) and f.endswith(m.group(2) or "")) or (len(names) == 1 and f != asked):
            return "names", "asked for %r, wrote %r" % (asked, f)
    ctx.probe("several files", len(names) > 1)
    ctx.probe("bounds left out", any(v.get("bounds") for v in sp["vars"]))
    ctx.probe("excluded", bool(kw.get("exclude_vars")))
    ctx.probe("selected", bool(kw.get("var_ids")))
    ctx.probe("requested format", bool(kw.get("requested_ffi")))
    delim = c09.delim_of(s)
    ann = None
    if kw.get("annotation"):
        ann = "," if delim == "," else (kw.get("delimiter") or "    ")
    fmt = kw.get("float_format", "%.10g")
    byname = {a["name"]: a for a in sp["axes"]}
    where, main = {}, set()
    for f in names:
        try:
            c = refna.parse(tree[f], ann, delim=delim)
        except refna.Malformed as e:
            return "incomplete", "%r is not a complete file: %s" % (f, e)
        if kw.get("requested_ffi") not in (None, c["FFI"]):
            return "format", "%r has FFI %d, %d was asked for" % (f, c["FFI"], kw["requested_ffi"])
        own = {2110: 1, 2310: 3}.get(c["FFI"], 0)
        ax0 = axs = None
        for kind, n, k in [("v", c["NV"], 0), ("a", c["NAUXV"], own)]:
            for j in range(k, n):
                nm = (c["VNAME"] if kind == "v" else c["ANAME"])[j]
                hit = [v for v in sp["vars"] if v["tok"] and v["tok"] in nm]
                if len(hit) != 1:
                    return "unknown", "%r holds %r, which is no variable of the source" % (f, nm)
                v = hit[0]
                what = "%s in %r" % (v["name"], f)
                if v["name"] in where:
                    return "twice", "%s is in %r and in %r" % (v["name"], where[v["name"]], f)
                where[v["name"]] = f
                if kind == "v":
                    main.add(v["name"])
                if v not in want:
                    return "unwanted", "%s was not to be written" % what
                e = one(s, ctx, c, kind, j, v, byname, fmt, nm)
                if e:
                    return e[0], "%s: %s" % (what, e[1])
        e = header(s, ctx, c, f, [v for v in want if where.get(v["name"]) == f and v["name"] in main], o, byname)
        if e:
            return "header", "%r: %s" % (f, e)
    for v in want:
        if v["dims"]:
            if v["name"] not in where:
                return "dropped", "%s is in none of %s" % (v["name"], names)
            continue
        n = sum(1 for f in names for x in tree[f].split("\n") if re.search(r"  Variable [^:]*: .*" + v["tok"], x))
        if n != 1:
            return "scalar", "scalar %s is written %d times" % (v["name"], n)
        vals = scalar_values(names, tree, v)
        x = decoded(v)
        if not any(abs(y - x) <= 1e-6 * abs(x) for y in vals):
            return "scalar", "scalar %s has value %s instead of %r" % (v["name"], vals, x)
        ctx.probe("scalar")
    for v in sp["vars"]:
        if v not in want and v["tok"]:
            for f in names:
                if v["tok"] in tree[f]:
                    return "unwanted", "%s was not to be written, but is mentioned in %r" % (v["name"], f)
    return None


def scalar_values(names, tree, v):
    out = []
    for f in names:
        ls = tree[f].split("\n")
        for k, x in enumerate(ls):
            if re.search(r"  Variable [^:]*: .*" + v["tok"], x):
                for y in ls[k + 1:]:
                    m = re.search(r"    value = (\S+)\s*$", y)
                    if "  Variable " in y or "== " in y:
                        break
                    if m:
                        out.append(float(m.group(1)))
    return out


def one(s, ctx, c, kind, j, v, byname, fmt, nm):
    V, M, S = ("V", "VMISS", "VSCAL") if kind == "v" else ("A", "AMISS", "ASCAL")
    got, miss, ffi = c[V][j], c[M][j], c["FFI"]
    if c[S][j] != 1:
        return "scale", "scale factor %r" % c[S][j]
    n = best_name(v)
    if n not in " ".join(nm.split()):
        return "name", "named %r instead of %r" % (nm, n)
    u = v["attrs"].get("units", "").strip()
    if u and nm.count("(%s)" % u) != 1:
        return "name", "units %r are not once in the name %r" % (u, nm)
    seen = []
    exp = decoded(v)
    e = values_ok(exp, got, fmt, miss, seen)
    if e:
        return "values", "(dims %s, FFI %d) %s" % (v["dims"], ffi, e)
    ctx.nontrivial = True
    ctx.probe("missing value", bool(seen))
    ctx.probe("NaN as missing value", bool(seen) and v["fill"] is not None and v["fill"] != v["fill"])
    ctx.probe("packed", "scale_factor" in v["attrs"])
    ctx.probe("integer with missing", bool(seen) and v["dtype"][0] == "i" and "scale_factor" not in v["attrs"])
    ctx.probe("rank %d" % len(v["dims"]))
    ctx.probe("auxiliary variable", kind == "a")
    ctx.probe("subset axis", any(d.endswith("_sub") for d in v["dims"]))
    order = [list(byname).index(d) for d in v["dims"]]
    ctx.probe("axes of the same name", any("as" in byname[d] for d in v["dims"]))
    ctx.probe("axes reordered", order != sorted(order))
    # axes
    if kind == "a":
        if len(v["dims"]) != 1:
            return "axes", "is auxiliary, but has axes %s" % v["dims"]
        return axis_ok(byname[v["dims"][0]], c["X"] if ffi not in (2110, 2310) else [x[0] for x in c["X"]], fmt, None, ffi == 1020)
    if len(v["dims"]) != c["FFI"] // 1000:
        return "axes", "has axes %s in FFI %d" % (v["dims"], ffi)
    if ffi in (2110, 2310):
        e = axis_ok(byname[v["dims"][0]], [x[0] for x in c["X"]], fmt, c["XNAME"][0])
        a1 = byname[v["dims"][1]]
        for m in range(len(c["X"])):
            if e:
                return e
            if c["RNX"][m] != len(a1["values"]):
                return "axes", "record %d has %d values instead of %d" % (m, c["RNX"][m], len(a1["values"]))
            x = c["X"][m][1]
            if ffi == 2310:
                x = [x[0] + k * c["A"][2][m] for k in range(c["RNX"][m])]
            e = axis_ok(a1, x, fmt, c["XNAME"][1], ffi == 2310)
        if e is None and ffi == 2310:
            e = step_ok(byname[v["dims"][0]], c["DX"][0])
        ctx.probe("axis in the records")
        ctx.probe("descending axis in the records", ffi == 2310 and len(a1["values"]) > 1 and a1["values"][1] < a1["values"][0])
        return e
    ax = c10.axes(c)
    ctx.probe("implied axis", ffi == 1020)
    for k, d in enumerate(v["dims"]):
        full = ffi != 1020 and (k == 0 or c["NXDEF"][k - 1] == c["NX"][k - 1])
        e = axis_ok(byname[d], ax[k], fmt, c["XNAME"][k], not full) or step_ok(byname[d], c["DX"][k])
        if e:
            return e
    return None


def axis_ok(a, got, fmt, name=None, derived=False):
    exp = [float(fmt % x) for x in a["values"]]
    if len(exp) != len(got):
        return "axes", "axis %s has %d values instead of %d" % (a["name"], len(got), len(exp))
    big = max(abs(x) for x in a["values"])
    tol = 1e-9 * big
    if derived:
        tol += 3 * len(exp) * max(abs(x - y) for x, y in zip(exp, a["values"]))
    for k, (x, y) in enumerate(zip(exp, got)):
        if abs(x - y) > tol:
            return "axes", "axis %s[%d] is %r instead of %r" % (a["name"], k, y, x)
    if name is not None:
        n = best_name(dict(a, name=a.get("as", a["name"])))
        u = a["attrs"].get("units", "").strip()
        if n not in name or (u and u not in name):
            return "axes", "axis %s is named %r" % (a["name"], name)
    return None


def step_ok(a, dx):
    v = a["values"]
    d = [y - x for x, y in zip(v, v[1:])]
    if not d:
        return None if dx == 0 else ("axes", "axis %s has one value, but increment %r" % (a["name"], dx))
    if dx:
        if any(abs(x - dx) > 1e-6 * max(abs(dx), max(map(abs, v))) for x in d):
            return "axes", "axis %s has increment %r, but steps %s" % (a["name"], dx, d[:5])
    elif len(set(d)) == 1 and (all(x == int(x) for x in v) or v[0] == 0 and all(x == k * v[1] for k, x in enumerate(v))):
        return "axes", "axis %s has increment 0, but constant steps %r" % (a["name"], d[0])
    return None


def header(s, ctx, c, f, mine, o, byname):
    g, ov = s["spec"]["attrs"], dict(s["kw"].get("na_items_to_override") or {})
    exp = {"MNAME": g.get("title"), "SNAME": g.get("source")}
    inst = g.get("institution")
    if inst:
        m = re.match(r"(.*) \(ONAME from NASA Ames file\); (.*) \(ORG from", inst)
        exp["ONAME"] = m.group(1) if m else inst
    ctx.probe("header items overridden", bool(ov))
    for k in ("MNAME", "SNAME", "ONAME"):
        v = ov.get(k, exp.get(k))
        if v is not None and c[k] != v:
            return "%s is %r instead of %r" % (k, c[k], v)
    com = [x.strip() for x in c["NCOM"]]
    spec_com = [x.strip() for x in c["SCOM"]]
    for x in ov.get("NCOM", []):
        if x not in com:
            return "comment %r is missing" % x
    for k in ("Conventions", "project", "references"):
        if k in g and not any(x.startswith(k + ":") and g[k] in x for x in com):
            return "global attribute %s = %r is missing from %r" % (k, g[k], com)
    for x in str(g.get("comment", "")).split("\n"):
        if x.strip() and "====" not in x and x.strip() not in com + spec_com:
            return "comment line %r is missing" % x
    if "history" in g:
        lines = [x for x in com if re.match(r"History:  \d{4}-\d\d-\d\d \d\d:\d\d:\d\d - Converted to NASA Ames format using nappy-", x)]
        if len(lines) != 1:
            return "%d history lines of this conversion: %s" % (len(lines), lines)
        e = stamp(lines[0], s, o)
        if e:
            return e
        for x in g["history"].split("\n"):
            if x.strip() not in com:
                return "history line %r is missing" % x
    now = [datetime.datetime.fromtimestamp(t // 10 ** 9, datetime.timezone.utc) for t in clocks(s, o)]
    rd = [int(x) for x in ov["RDATE"].split()] if "RDATE" in ov else None
    if rd is not None and c["RDATE"] != rd or rd is None and c["RDATE"] not in [[t.year, t.month, t.day] for t in now]:
        return "revision date %s instead of %s" % (c["RDATE"], rd or now[0])
    first = byname[mine[0]["dims"][0]] if mine else None
    date = None
    if "DATE" in ov:
        date = [int(x) for x in ov["DATE"].split()]
    elif first and "since" in first["attrs"].get("units", ""):
        import cftime
        d = cftime.num2date(first["values"][0], first["attrs"]["units"], first["attrs"].get("calendar", "standard"))
        date = [d.year, d.month, d.day]
        ctx.probe("date of a time axis")
    elif "first_valid_date_of_data" in g:
        date = g["first_valid_date_of_data"]
    if date and c["DATE"] != date:
        return "date %s instead of %s" % (c["DATE"], date)
    for v in mine:
        for k, x in v["attrs"].items():
            if isinstance(x, str) and k != "coordinates" and k != "units" and "%s = %s" % (k, x) not in spec_com:
                return "attribute %s = %r of %s is missing" % (k, x, v["name"])
    return None


def clocks(s, o):
    lo = s["prog"]["clock"][0]
    return [lo, o.final["clock"][1] if o.final else lo]


def stamp(line, s, o):
    m = re.search(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) - Converted", line)
    t = datetime.datetime.strptime(m.group(1), "%Y-%m-%d %H:%M:%S").replace(tzinfo=datetime.timezone.utc).timestamp()
    lo, hi = clocks(s, o)
    if not lo // 10 ** 9 <= t <= max(lo, hi) // 10 ** 9 + 1:
        return "history line %r instead of the time on the clock (%d)" % (line, lo // 10 ** 9)
    return None


def shrink(s):
    if s["faults"]:
        yield dict(s, faults=[])
        if len(s["faults"]) > 1:
            for i in range(len(s["faults"])):
                yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    if s["prior"]:
        yield dict(s, prior=s["prior"][1:])
    for k in list(s["kw"]):
        yield dict(s, kw={a: b for a, b in s["kw"].items() if a != k})
    for e in ncgen.simpler(s["spec"]):
        if not any(v["attrs"].get("coordinates") and v["attrs"]["coordinates"] not in [w["name"] for w in e["vars"]] for v in e["vars"]):
            yield dict(s, spec=e)
    if s["out"] not in (None, "out.na"):
        yield dict(s, out="out.na")
    if s["prog"].get("blk"):
        yield dict(s, prog=dict(s["prog"], blk=0))
    for f in s["faults"]:
        for k in ("at", "line"):
            if f.get(k):
                for a in (f[k] // 2, f[k] - 1):
                    yield dict(s, faults=[dict(g, **{k: a}) if g is f else g for g in s["faults"]])


def describe(s, ctx):
    return {"variables": [[v["name"], v["dims"], v["dtype"]] for v in s["spec"]["vars"]], "axes": [[a["name"], len(a["values"])] for a in s["spec"]["axes"]], "api": s["api"],
            "out": s["out"], "kw": s["kw"], "faults": s["faults"], "retry": s["retry"], "prior": len(s["prior"])}
