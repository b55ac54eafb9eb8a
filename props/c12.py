"""C12: the documented pipelines conserve data across process restarts."""
import datetime
import random
import re

from model import gen, ncgen, refna
from props.common import *
from props import common, jobs, c04, c10
from sim import shim

ID = "C12"
LEVEL = "exploration"
QUICK = 1100
THOROUGH = 50000
RULE = ("One run = a seeded file of a convertible format taken through a seeded chain of one to nine steps (to NetCDF, back, through xarray objects, read and written again, to CSV), each through a "
        "seeded entry point, in the same process or a new one with a clock of its own that jumps at seeded readings; one step may be hit by a crash, an I/O fault, a full disk or an interruption and "
        "then be repeated. What comes out at the end is parsed by the reference parser and compared with the first file and with the history of the run. Non-trivial: a final file was compared.")
MUST = ["to NetCDF and back", "through xarray objects", "to NetCDF and back twice", "rewritten", "ends as CSV", "several processes", "one process", "clock jump between two conversions",
        "clock goes backwards between processes", "missing value", "scaled", "auxiliary variable", "time axis", "rank 1", "rank 2", "rank 3", "rank 4", "crash", "fault", "interrupt",
        "repeated in the same process", "repeated in a new process", "several files", "comments kept"]
FORMATS = {"%.10g": 1.1e-9, "%.12g": 1.1e-11, "%.17g": 1e-14}
HIST = re.compile(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) - Converted to (.*?) format")


def generate(r, ctx):
    d = jobs.conv_doc(r, big=r.random() < 0.03, simple=r.random() < 0.7)
    for k, p in (("VNAME", "v"), ("ANAME", "a")):
        if k in d:
            d[k] = [tag(x, "tk%s%d" % (p, i)) for i, x in enumerate(d[k])]
    steps, cur = [], "na"
    for i in range(r.choice([2, 2, 2, 2, 3, 4, 4, 4, 5, 9])):
        if cur == "na":
            k = r.choice(["na2nc", "na2nc", "na2nc", "xr", "rewrite"])
        else:
            k = "nc2na"
        steps.append(k)
        cur = "nc" if k == "na2nc" else "na"
    if cur == "nc":
        steps.append(r.choice(["nc2na", "nc2na", "nc2csv"]))
    elif r.random() < 0.2:
        steps.append("na2csv")
    elif steps[-1] == "xr" and r.random() < 0.3:
        steps[-1] = "xrcsv"
    out, n = [], 0
    for i, k in enumerate(steps):
        st = {"kind": k, "api": r.choice(["fn", "fn", "script", "class"]), "new": i > 0 and r.random() < 0.5}
        if k in ("nc2na", "xr", "rewrite", "xrcsv", "nc2csv") and r.random() < 0.4:
            st["fmt"] = r.choice(sorted(FORMATS))
        if k in ("nc2na", "rewrite") and r.random() < 0.3:
            st["delim"] = r.choice([" ", "\t", "  "])
        out.append(st)
    lives = 1 + sum(st["new"] for st in out)
    s = {"doc": d, "style": r.randrange(2 ** 31) if r.random() < 0.5 else None, "steps": out, "progs": [base_prog(r) for _ in range(lives + 1)], "faults": [], "t": 0,
         "retry": r.choice(["same", "new"])}
    for p in s["progs"]:
        p["noise"] = None
        p["clock"] = [r.randint(400_000_000, 4_000_000_000) * 10 ** 9 + r.randrange(10 ** 9), r.choice([0, 10 ** 6, 10 ** 9, 3600 * 10 ** 9])]
        if r.random() < 0.4:
            p["jumps"] = [[r.randrange(0, 8), r.choice([-1, 1]) * r.choice([1, 3600, 86400, 10 ** 8]) * 10 ** 9] for _ in range(r.choice([1, 1, 2]))]
    s["t"] = r.randrange(len(out))
    if r.random() < 0.65:
        h = history(s, ctx, plan=True)
        rec = h["recs"].get(s["t"])
        if rec and rec[1].get("ok"):
            o, rc = rec[0], rec[1]
            ev = o.events[rc["lo"]:rc["hi"]]
            wr = [k for k, e in enumerate(ev) if shim.KINDS.get(e[0]) in ("write", "open-w", "close", "trunc", "rename", "unlink")]
            q = r.random()
            if q < 0.4 and wr:
                s["faults"] = [{"at": r.choice(wr), "action": "crash", "arg": r.randrange(1 << 20)}]
            elif q < 0.75 and ev:
                s["faults"] = [{x: y for x, y in f.items() if x != "op"} for f in c04.pick(r, ev, 0, o.names)]
            elif rc["lines"]:
                s["faults"] = [{"line": r.randrange(rc["lines"]), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}]
            if s["faults"] and "line" not in s["faults"][0] and out[s["t"]]["kind"] == "na2nc":
                s["retry"] = "new"      # the NetCDF library keeps a file open that it could not close
    return s


def tag(name, tok):
    m = re.match(r"^(.*?)( \([^()]*\))?$", name)
    return "%s %s%s" % (m.group(1), tok, m.group(2) or "")


def names(s):
    """Input and output of every step."""
    out, cur = [], "f0.na"
    for i, st in enumerate(s["steps"]):
        e = {"na2nc": "nc", "nc2csv": "csv", "na2csv": "csv", "xrcsv": "csv"}.get(st["kind"], "na")
        nxt = "f%d.%s" % (i + 1, e)
        out.append((cur, nxt))
        cur = nxt
    return out


def ops_of(s, i):
    st = s["steps"][i]
    src, out = names(s)[i]
    k, api = st["kind"], st["api"]
    kw = {}
    if "fmt" in st:
        kw["float_format"] = st["fmt"]
    if "delim" in st:
        kw["delimiter"] = st["delim"]
    if k in ("xr", "xrcsv"):
        return [{"do": "xrpipe", "file": src, "out": out, "csv": k == "xrcsv", "kw": kw}]
    if k == "rewrite":
        return [{"do": "rewrite", "file": src, "out": out, "kw": kw}]
    if k == "na2csv":
        return [{"do": "fn", "name": "convertNAToCSV", "args": [src], "kw": {"csv_file": out}}] 
    if k == "na2nc":
        if api == "script":
            return [{"do": "script", "name": "na2nc", "argv": ["-i", src, "-o", out, "-n"]}]
        if api == "class":
            return [{"do": "new", "as": "c%d" % i, "cls": "nappy.nc_interface.na_to_nc.NAToNC", "args": [src], "kw": {"time_warning": False}},
                    {"do": "call", "obj": "c%d" % i, "meth": "convert"}, {"do": "call", "obj": "c%d" % i, "meth": "writeNCFile", "args": [out, "w"]}]
        return [{"do": "fn", "name": "convertNAToNC", "args": [src], "kw": {"nc_file": out, "time_warning": False}}]
    csv = k == "nc2csv"
    if api == "script":
        av = ["-i", src, "-o", out]
        for x, y in (("float_format", "-f"), ("delimiter", "-d")):
            if x in kw:
                av += [y, kw[x]]
        return [{"do": "script", "name": "nc2csv" if csv else "nc2na", "argv": av}]
    if api == "class" and not csv:
        return [{"do": "new", "as": "c%d" % i, "cls": "nappy.nc_interface.nc_to_na.NCToNA", "args": [src]}, {"do": "call", "obj": "c%d" % i, "meth": "convert"},
                {"do": "call", "obj": "c%d" % i, "meth": "writeNAFiles", "args": [out], "kw": kw}]
    kw["csv_file" if csv else "na_file"] = out
    return [{"do": "fn", "name": "convertNCToCSV" if csv else "convertNCToNA", "args": [src], "kw": kw}]


def text0(s):
    return refna.render(s["doc"], refna.Style(random.Random(s["style"])) if s["style"] is not None else None)


def clock_at(p, n):
    """The time the n-th reading of a life's clock gives."""
    t = p["clock"][0]
    for k in range(n + 1):
        t += sum(d for a, d in p.get("jumps", []) if a == k)
        if k < n:
            t += p["clock"][1]
    return t


def history(s, ctx, plan=False, faults=()):
    """Runs the chain. Returns what happened, with the times each step may have seen."""
    ctx.fresh({"f0.na": text0(s)})
    h = {"recs": {}, "times": {}, "err": None, "hit": False, "how": None, "lives": 0}
    n, i, pi = len(s["steps"]), 0, 0
    pending = list(faults)
    while i < n:
        ops, idx, j = [{"do": "import"}], [], i
        fl = []
        while j < n and (j == i or not s["steps"][j]["new"]):
            twice = pending and j == s["t"] and s["retry"] == "same" and not any(f.get("action") == "crash" for f in pending)
            own = ops_of(s, j)
            lo = len(ops)
            ops += own
            if pending and j == s["t"]:
                fl = [dict(f, op=len(ops) - 1) for f in pending]
                if own[0]["do"] == "new":
                    fl = [dict(f, op=len(ops) - 1) for f in pending]
            if twice:
                idx.append((j, lo, len(ops) - 1))
                lo = len(ops)
                ops += own
            idx.append((j, lo, len(ops) - 1))
            j += 1
            if pending and j == s["t"] + 1 and not twice:
                break                   # nobody carries on with what a step that failed has left
        p = s["progs"][min(pi, len(s["progs"]) - 1)]
        pi += 1
        h["lives"] += 1
        o = ctx.life(dict(p, docs={}, datasets={}, ops=ops, faults=fl), plan)
        nxt = j
        for k, (step, lo, last) in enumerate(idx):
            rec = o.rec(last)
            again = k + 1 < len(idx) and idx[k + 1][0] == step
            first = pending and step == s["t"] and fl and fl[0]["op"] == last
            if first:
                pending = []
                h["how"] = "crash" if fl[0].get("action") == "crash" else "interrupt" if "line" in fl[0] else "fault"
                h["hit"] = bool(sum(o.fired.values()))
            if rec is not None and rec.get("ok"):
                h["recs"][step] = (o, rec)
                a = o.rec(lo)["clk"][0]
                h["times"][step] = sorted({clock_at(p, q) // 10 ** 9 for q in range(a, rec["clk"][1])})
                if again is False and k and idx[k - 1][0] == step:
                    h["repeat"] = "same process"
                continue
            if hang_of(o):
                h["err"] = ("hang", "step %d (%s) did not finish: %s" % (step, s["steps"][step]["kind"], hang_of(o)))
                return h
            if first and again and o.rec(idx[k + 1][2]) is not None:
                continue
            if first:
                # died, or to be repeated in a new process
                nxt = step
                h["repeat"] = "new process"
                break
            h["err"] = ("refused" if not h["how"] or step < s["t"] else "repeat",
                        "step %d (%s) failed%s: %s" % (step, s["steps"][step]["kind"], " after %s in step %d" % (s["faults"], s["t"]) if h["how"] else "", excs(rec) if rec else o.status))
            return h
        i = nxt
        multi = [x for st, (oo, rc) in h["recs"].items() for x in [rc.get("ret")] if s["steps"][st]["kind"] in ("nc2na", "nc2csv", "xr", "xrcsv") and isinstance(x, list) and len(x) > 1]
        if multi:
            break
    return h


def run(s, ctx):
    c = refna.parse(text0(s))
    for f in ([], s["faults"]):
        if f is s["faults"] and not f:
            break
        h = history(s, ctx, faults=f)
        if h["err"]:
            e = h["err"]
            several = later_refused(s, ctx)
            if e[0] == "refused" and several:
                ctx.probe("several files")
                e = several if isinstance(several, tuple) else None
            return [e] if e else []
        e = final(s, ctx, c, h)
        if e:
            return [(e[0], "%s%s" % ("after %s in step %d: " % (f, s["t"]) if f else "", e[1]))]
        if f and h["hit"]:
            ctx.probe(h["how"])
            if h.get("repeat"):
                ctx.probe("repeated in the %s" % h["repeat"] if h["repeat"].startswith("same") else "repeated in a new process")
    ks = [st["kind"] for st in s["steps"]]
    ctx.probe("to NetCDF and back", "na2nc" in ks)
    ctx.probe("to NetCDF and back twice", ks.count("na2nc") > 1)
    ctx.probe("through xarray objects", "xr" in ks or "xrcsv" in ks)
    ctx.probe("rewritten", "rewrite" in ks)
    ctx.probe("ends as CSV", ks[-1] in ("nc2csv", "na2csv", "xrcsv"))
    ctx.probe("several processes" if h["lives"] > 1 else "one process")
    return []


def outputs(ctx, base):
    """Files of the step that writes `base`: itself, or numbered ones."""
    stem, ext = base.rsplit(".", 1)
    return {k: v.decode("utf-8", "surrogateescape") for k, v in ctx.tree().items() if re.match(r"%s(_\w+)?\.%s$" % (stem, ext), k)}


def later_refused(s, ctx):
    """A conversion that gave several files ends the chain: true if that is what happened."""
    io = names(s)
    for i, st in enumerate(s["steps"]):
        if st["kind"] in ("nc2na", "xr") and not ctx.exists(io[i][1]) and len(outputs(ctx, io[i][1])) > 1:
            return True
    return False


def final(s, ctx, c, h):
    io = names(s)
    last = max(h["recs"])
    out = io[last][1]
    fs = outputs(ctx, out)
    st = s["steps"][last]
    if not fs or (len(fs) == 1 and out not in fs):
        return "names", "%r was asked for, %s were written" % (out, sorted(fs))
    ctx.probe("several files", len(fs) > 1)
    csv = out.endswith(".csv")
    delim = "," if csv else st.get("delim")
    docs = {}
    for f in sorted(fs):
        try:
            docs[f] = refna.parse(fs[f], None, delim=delim)
        except refna.Malformed as e:
            return "incomplete", "%r is not a complete file: %s" % (f, e)
    e = data(s, ctx, c, docs, last) or None
    if e:
        return e
    for f in docs:
        e = header(s, ctx, c, docs[f], h, last, f)
        if e:
            return e[0], "%r: %s" % (f, e[1])
    ctx.nontrivial = True
    return None


def tolerance(s, last):
    kinds = {"nc2na", "rewrite", "xr", "xrcsv", "nc2csv", "na2csv"}
    return sum(FORMATS[st.get("fmt", "%.10g")] for st in s["steps"][:last + 1] if st["kind"] in kinds) + 1e-13


def data(s, ctx, c, docs, last):
    tol = tolerance(s, last)
    kinds = [st["kind"] for st in s["steps"][:last + 1]]
    converted = [k for k in kinds if k not in ("rewrite", "na2csv")]
    seen = {}
    ax = c10.axes(c)
    a0 = c["X"] if c["FFI"] == 1020 else ax[0]
    exp = {}
    for i in range(c["NV"]):
        exp["tkv%d" % i] = (c["V"][i], c["VMISS"][i], c["VSCAL"][i], ax, c["VNAME"][i], range(len(ax)))
    for i in range(c.get("NAUXV") or 0):
        exp["tka%d" % i] = (c["A"][i], c["AMISS"][i], c["ASCAL"][i], [a0], c["ANAME"][i], [0])
    for f, d in docs.items():
        for kind, n in (("V", d["NV"]), ("A", d.get("NAUXV") or 0)):
            for j in range(n):
                nm = d["VNAME" if kind == "V" else "ANAME"][j]
                m = re.findall(r"tk[va]\d+", nm)
                if len(m) != 1 or m[0] not in exp:
                    return "unknown", "%r holds %r, which is no variable of the first file" % (f, nm)
                if m[0] in seen:
                    return "twice", "%r is in %r and in %r" % (nm, seen[m[0]], f)
                seen[m[0]] = f
                vals, miss, scal, axs, name, ai = exp[m[0]]
                e = one(s, ctx, d, kind, j, vals, miss, scal, axs, name, tol, converted, c, ai)
                if e:
                    return e[0], "%r in %r (FFI %d, was %d): %s" % (name, f, d["FFI"], c["FFI"], e[1])
                ctx.probe("auxiliary variable", m[0][2] == "a")
    gone = [exp[k][4] for k in exp if k not in seen]
    if gone:
        return "dropped", "%s: in none of %s" % (gone, sorted(docs))
    ctx.probe("rank %d" % len(ax))
    return None


def one(s, ctx, d, kind, j, vals, miss, scal, axs, name, tol, converted, c, ai):
    got, gmiss, gscal = (d["V"][j], d["VMISS"][j], d["VSCAL"][j]) if kind == "V" else (d["A"][j], d["AMISS"][j], d["ASCAL"][j])
    if converted and gscal != 1:
        return "scale", "scale factor %r after a conversion" % gscal
    if not converted and gscal != scal:
        return "scale", "scale factor %r instead of %r" % (gscal, scal)
    f = scal if converted else 1
    if abs(gmiss - miss) > tol * abs(miss):
        return "missing", "missing value %r instead of %r" % (gmiss, miss)
    e = near(vals, got, miss, gmiss, f, tol, ctx)
    if e:
        return "values", e
    if ncname(name, converted) != ncname(d["VNAME" if kind == "V" else "ANAME"][j], converted):
        return "name", "now called %r" % d["VNAME" if kind == "V" else "ANAME"][j]
    # axes
    gx = c10.axes(d)
    g = gx if kind == "V" else [d["X"] if d["FFI"] == 1020 else gx[0]]
    if len(g) != len(axs):
        return "axes", "%d axes instead of %d" % (len(g), len(axs))
    for k, (a, b) in enumerate(zip(axs, g)):
        e = axis(a, b, tol, c["XNAME"][ai[k]], d["XNAME"][ai[k]], d, k, ctx)
        if e:
            return "axes", "axis %d (%s): %s" % (k, c["XNAME"][ai[k]], e)
    return None


def ncname(x, converted):
    """A name without what NetCDF identifiers do not keep (their short form is what comes back), and its units."""
    x = " ".join(x.split())
    if not converted:
        return x
    m = re.match(r"^([^()]+?) \(([^()]+)\)$", x)
    return (re.sub(r"[^A-Za-z0-9]+", "_", m.group(1) if m else x).strip("_").lower(), m.group(2) if m else None)


def axis(a, b, tol, old, new, d, k, ctx):
    if len(a) != len(b):
        return "%d values instead of %d" % (len(b), len(a))
    big = max([abs(x) for x in a] + [1e-300])
    t = tol * big * (1 + 3 * len(a) * (d["FFI"] == 1020 or (k > 0 and d["NXDEF"][k - 1] < d["NX"][k - 1])))
    m = re.search(r"\((\w+) since ", old)
    if m:
        ctx.probe("time axis")
        t += 2e-6 / {"seconds": 1, "hours": 3600, "days": 86400}.get(m.group(1), 1)
    for i, (x, y) in enumerate(zip(a, b)):
        if not abs(x - y) <= t:
            return "value %d is %r instead of %r" % (i, y, x)
    o, n = " ".join(old.split()), " ".join(new.split())
    if o != n and n != o + " (Not known)":
        return "now called %r" % new
    return None


def near(e, g, miss, gmiss, f, tol, ctx, at=""):
    if isinstance(e, list) or isinstance(g, list):
        if not (isinstance(e, list) and isinstance(g, list)) or len(e) != len(g):
            return "%s: %s instead of %s values" % (at or "all", len(g) if isinstance(g, list) else "one", len(e) if isinstance(e, list) else "one")
        for i, (x, y) in enumerate(zip(e, g)):
            r = near(x, y, miss, gmiss, f, tol, ctx, "%s[%d]" % (at, i))
            if r:
                return r
        return None
    if e == miss:
        ctx.probe("missing value")
        return None if g == gmiss else "%s: missing value became %r" % (at, g)
    x = e * f
    if f != 1:
        ctx.probe("scaled")
    if abs(x - g) <= tol * max(abs(x), abs(g)):
        return None
    return "%s: %r instead of %r" % (at, g, x)


def header(s, ctx, c, d, h, last, f):
    steps = s["steps"][:last + 1]
    for k in ("ONAME", "SNAME", "MNAME"):
        if d[k].strip() != c[k].strip():
            return k, "%s is %r instead of %r" % (k, d[k], c[k])
    conv = [i for i, st in enumerate(steps) if st["kind"] not in ("rewrite", "na2csv")]
    if not conv:
        for k in ("SCOM", "NCOM", "DATE", "RDATE", "ORG"):
            if d[k] != c[k]:
                return k, "%s is %r instead of %r" % (k, d[k], c[k])
        return None
    for k in ("SCOM", "NCOM"):
        have = [x.strip() for x in d[k]]
        at = 0
        for x in c[k]:
            if x.strip():
                ctx.probe("comments kept")
                try:
                    at = have.index(x.strip(), at) + 1
                except ValueError:
                    return "comments", "%s line %r is missing or out of order in %s" % (k, x, d[k])
                if [y.strip() for y in c[k]].count(x.strip()) != have.count(x.strip()):
                    return "comments", "%s line %r is there %d times instead of %d" % (k, x, have.count(x.strip()), [y.strip() for y in c[k]].count(x.strip()))
    # history
    com = d["SCOM"] + d["NCOM"]
    rd = "%.4d-%.2d-%.2d" % tuple(c["RDATE"])
    n = sum(1 for x in com if rd in x and "NASA Ames File created/revised" in x)
    if n != 1:
        return "history", "the first file's revision date %s is recorded %d times: %s" % (rd, n, com)
    got = [(m.group(2), m.group(1)) for x in com for m in HIST.finditer(x)]
    want = []
    for i in conv:
        k = steps[i]["kind"]
        if k in ("na2nc", "xr", "xrcsv"):
            want.append((i, "NetCDF"))
        if k in ("nc2na", "nc2csv", "xr", "xrcsv"):
            want.append((i, "NASA Ames"))
    left = list(got)
    for i, what in want:
        stamps = [datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S") for t in h["times"][i]]
        hit = [x for x in left if what in x[0] and x[1] in stamps]
        if not hit:
            return "history", "step %d (%s) at %s is not in the history %s" % (i, steps[i]["kind"], " or ".join(stamps[:3]), got)
        left.remove(hit[0])
    if left:
        return "history", "the history has %s, which are no conversions that were made: %s" % (left, got)
    ts = [h["times"][i][0] for i in conv if h["times"][i]]
    ctx.probe("clock goes backwards between processes", any(a > b for a, b in zip(ts, ts[1:])))
    ctx.probe("clock jump between two conversions", any(p.get("jumps") for p in s["progs"]) and len(ts) > 1)
    if "RDATE" in d:
        t = [i for i in conv if steps[i]["kind"] != "na2nc"][-1]
        days = [list(datetime.datetime.fromtimestamp(x, datetime.timezone.utc).timetuple()[:3]) for x in h["times"][t]]
        if d["RDATE"] not in days:
            return "RDATE", "revision date %s instead of %s" % (d["RDATE"], days[:2])
    m = re.search(r"\((\w+ since [^()]*)\)", c["XNAME"][0])
    date = c["DATE"]
    if m:
        import cftime
        t = cftime.num2date(c10.axes(c)[0][0], m.group(1), "standard")
        date = [t.year, t.month, t.day]
        u = cftime.num2date(c10.axes(c)[0][0] + 2e-6, m.group(1), "standard"), cftime.num2date(c10.axes(c)[0][0] - 2e-6, m.group(1), "standard")
        if d["DATE"] in [[x.year, x.month, x.day] for x in u]:
            return None
    if d["DATE"] != date:
        if m and d["DATE"] == [999] * 3 and h["how"] == "interrupt" and h["hit"]:
            return None         # the documented answer when the date could not be worked out
        return "DATE", "date %s instead of %s" % (d["DATE"], date)
    return None


def regroup(s, steps, **kw):
    return dict(s, steps=steps, **kw)


def shrink(s):
    if s["faults"]:
        yield dict(s, faults=[])
        if len(s["faults"]) > 1:
            for i in range(len(s["faults"])):
                yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    ks = s["steps"]
    # leave out a step, or a pair that goes there and back
    for n in (2, 1):
        for i in range(len(ks) - n + 1):
            e = ks[:i] + ks[i + n:]
            if e and legal(e) and not (s["faults"] and i <= s["t"] < i + n):
                yield dict(s, steps=e, t=max(0, s["t"] - (n if i < s["t"] else 0)))
    for i, st in enumerate(ks):
        if st["new"]:
            yield dict(s, steps=ks[:i] + [dict(st, new=False)] + ks[i + 1:])
        for k in ("fmt", "delim"):
            if k in st:
                yield dict(s, steps=ks[:i] + [{a: b for a, b in st.items() if a != k}] + ks[i + 1:])
        if st["api"] != "fn":
            yield dict(s, steps=ks[:i] + [dict(st, api="fn")] + ks[i + 1:])
    if s["style"] is not None:
        yield dict(s, style=None)
    for e in gen.simpler(s["doc"]):
        if gen.nrecs(e) and all("tkv" in x for x in e["VNAME"]) and all("tka" in x for x in e.get("ANAME", [])):
            e["VNAME"] = [re.sub(r"tkv\d+", "tkv%d" % i, x) for i, x in enumerate(e["VNAME"])]
            yield dict(s, doc=e)
    for i, p in enumerate(s["progs"]):
        if p.get("jumps"):
            yield dict(s, progs=s["progs"][:i] + [{a: b for a, b in p.items() if a != "jumps"}] + s["progs"][i + 1:])
        if p.get("blk"):
            yield dict(s, progs=s["progs"][:i] + [dict(p, blk=0)] + s["progs"][i + 1:])
    for f in s["faults"]:
        for k in ("at", "line"):
            if f.get(k):
                for a in (f[k] // 2, f[k] - 1):
                    yield dict(s, faults=[dict(g, **{k: a}) if g is f else g for g in s["faults"]])


def legal(steps):
    cur = "na"
    for i, st in enumerate(steps):
        k = st["kind"]
        if k in ("nc2na", "nc2csv") and cur != "nc" or k not in ("nc2na", "nc2csv") and cur != "na":
            return False
        if k in ("nc2csv", "na2csv", "xrcsv") and i + 1 < len(steps):
            return False
        cur = "nc" if k == "na2nc" else "na"
    return cur == "na"


def describe(s, ctx):
    return {"doc": brief_doc(s["doc"]), "XNAME": s["doc"]["XNAME"], "VNAME": s["doc"]["VNAME"], "steps": s["steps"], "faults": s["faults"], "in step": s["t"], "retry": s["retry"],
            "clocks": [[p["clock"], p.get("jumps")] for p in s["progs"]]}
