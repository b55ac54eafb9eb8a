"""C10: NASA Ames to NetCDF conversion conserves every value."""
import datetime
import random
import re

from model import gen, ncgen, refna
from props.common import *
from props import common, jobs, c04
from sim import shim

ID = "C10"
LEVEL = "exploration"
QUICK = 1700
THOROUGH = 50000
RULE = ("One run = a seeded file of one of the six convertible formats (any legal layout, names, units and axes) converted to NetCDF or xarray through one of the five entry points with a seeded "
        "selection, renaming, time unit and global attributes; optionally appended to by a second conversion; everything written is compared with the reference parser's view of the text. Then the same "
        "chain with a crash, I/O fault, full disk or interruption at a seeded point of one conversion, and repeated. Non-trivial: at least one conversion was compared.")
MUST = ["appended", "append refused", "selection by name", "selection by number", "renamed", "scaled", "missing value", "time units given", "bounded axis expanded", "implied axis",
        "crash", "fault", "interrupt", "repeated", "xarray objects", "acknowledged conversion survives a later crash", "global attributes", "converted twice"]
VARS = ["global_attributes", "variables", "aux_variables", "rename_variables", "time_units", "time_warning", "mode"]


def renum(r, x, miss):
    return [renum(r, y, miss) for y in x] if isinstance(x, list) else gen.num(r, miss)


def second(r, d):
    """Another document on the same axes."""
    e = dict(d, VNAME=["b%d-%s" % (i, x) for i, x in enumerate(d["VNAME"])])
    e["V"] = [renum(r, v, m) for v, m in zip(d["V"], d["VMISS"])]
    if d.get("ANAME"):
        e["ANAME"] = ["b%d-%s" % (i, x) for i, x in enumerate(d["ANAME"])]
        e["A"] = [renum(r, v, m) for v, m in zip(d["A"], d["AMISS"])]
    e["MNAME"] = "second mission"
    if r.random() < 0.25:       # of variables that go by the same names
        for k in ("VNAME", "ANAME"):
            if d.get(k):
                e[k] = list(d[k])
        if r.random() < 0.5:
            e["VMISS"] = [r.choice([-77.5, m]) for m in d["VMISS"]]
    return e


def options(r, d, api):
    kw = {}
    c = refna.parse(refna.render(d))
    if r.random() < 0.4:
        g = jobs.ga(r)
        if g:
            kw["global_attributes"] = g
    if api == "script":
        if r.random() < 0.3:
            kw["rename_variables"] = {"temp": "air_temp", "o3": "ozone_mix", "flux": "f_new"}
        kw["time_warning"] = False
    else:
        q = r.random()
        k = r.sample(range(d["NV"]), r.randint(1, d["NV"]))
        if q < 0.2:
            kw["variables"] = k
        elif q < 0.3:
            kw["variables"] = [str(i) for i in k]
        elif q < 0.5 and not any(x.isdigit() for x in c["VNAME"]):
            kw["variables"] = [c["VNAME"][i] for i in k]
        elif q < 0.6:
            kw["variables"] = "all"
        na = d.get("NAUXV") or 0
        if na and r.random() < 0.4:
            k = r.sample(range(na), r.randint(1, na))
            kw["aux_variables"] = r.choice([k, [c["ANAME"][i] for i in k], "all"])
        if r.random() < 0.3:
            kw["rename_variables"] = {"temp": "air_temp", "O3": "ozone_mix", "flux": "f_new", "co": "monoxide", "pressure": "p1", "humidity": "hum"}
        kw["time_warning"] = False
    if r.random() < 0.3:
        kw["time_units"] = r.choice(["days since 1990-01-01 00:00:00", "hours since 2003-04-30", "seconds since 1970-01-01 00:00:00"])
    return kw


def generate(r, ctx):
    n = r.choice([1, 1, 1, 2, 2])
    steps = []
    for i in range(n):
        d = jobs.conv_doc(r, big=r.random() < 0.04)
        if r.random() < 0.15:
            d["XNAME"] = [r.choice(["time (unknown)", "time", "Time of day (UT)"])] + d["XNAME"][1:]
        api = r.choice(["fn", "fn", "fn", "script", "class", "readxr", "getvar"])
        app = False
        if steps and r.random() < 0.7 and steps[-1]["api"] not in ("readxr", "getvar"):
            app = True
            api = r.choice(["fn", "script", "class"])
            if r.random() < 0.8:
                d = second(r, steps[-1]["doc"])
        st = {"doc": d, "api": api, "kw": options(r, d, api), "style": r.randrange(2 ** 31) if r.random() < 0.6 else None, "append": app, "var": r.randrange(d["NV"]),
              "out": r.choice(["o%d.nc" % i, "o%d.nc" % i, None]), "twice": r.random() < 0.2}
        if api in ("readxr", "getvar"):
            st["kw"] = {}
            if any("ime" in x and not re.search(r"since", x) for x in d["XNAME"]):
                st["doc"] = d = dict(d, XNAME=[re.sub("[tT]ime", "tick", x) for x in d["XNAME"]])
        if app:
            short = [re.sub(r"\s*\(.*", "", x).lower().replace(" ", "_") for x in d["VNAME"] + (d.get("ANAME") or [])]
            if len(set(short)) < len(short):
                st["kw"].pop("rename_variables", None)      # which of them gets which name is not said
            st["out"] = steps[-1]["out"] or "j%d.nc" % (len(steps) - 1)
            if "time_units" in steps[-1]["kw"]:
                st["kw"]["time_units"] = steps[-1]["kw"]["time_units"]
            else:
                st["kw"].pop("time_units", None)
            steps[-1]["out"] = st["out"]
        steps.append(st)
    s = {"steps": steps, "prog": base_prog(r), "faults": [], "t": 0}
    s["prog"]["noise"] = None
    k = r.random()
    t = s["t"] = r.randrange(n)
    o, idx = life(s, ctx, plan=True)
    rec = o.rec(idx[t])
    if rec and rec.get("ok"):
        ev = o.events[rec["lo"]:rec["hi"]]
        if k < 0.35 and ev:
            s["faults"] = [{"at": r.randrange(len(ev)), "action": "crash", "arg": r.randrange(1 << 20)}]
        elif k < 0.7 and ev:
            s["faults"] = [{x: y for x, y in f.items() if x != "op"} for f in c04.pick(r, ev, 0, o.names)]
        elif k < 0.85 and rec["lines"]:
            s["faults"] = [{"line": r.randrange(rec["lines"]), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}]
    return s


def texts(s):
    return {"j%d.na" % i: refna.render(st["doc"], refna.Style(random.Random(st["style"])) if st["style"] is not None else None) for i, st in enumerate(s["steps"])}


def out_of(st, i):
    return st["out"] or "j%d.nc" % i


def ops_of(st, i, alone=False):
    """Operations of one step; the last one's outcome counts."""
    kw = {k: st["kw"][k] for k in VARS if k in st["kw"]}
    if alone:
        kw.pop("rename_variables", None)
    src, out = "j%d.na" % i, st["out"]
    if alone:
        out = "alone.nc"
    app = st["append"] and not alone
    api = st["api"]
    if api == "readxr":
        return [{"do": "fn", "name": "readXarrayObjectsFromNA", "args": [src]}]
    if api == "getvar":
        return [{"do": "fn", "name": "getXarrayVariableFromNA", "args": [src, st["var"]]}]
    if api == "script":
        av = ["-i", src]
        if out:
            av += ["-o", out]
        if app:
            av += ["-m", "a"]
        if "global_attributes" in kw:
            av += ["-g", ",".join("%s,%s" % tuple(x) for x in kw["global_attributes"]["$tuples"])]
        if "rename_variables" in kw:
            av += ["-r", ",".join("%s,%s" % x for x in kw["rename_variables"].items())]
        if "time_units" in kw:
            av += ["-t", kw["time_units"]]
        return [{"do": "script", "name": "na2nc", "argv": av + ["-n"]}]
    if api == "class":
        o = [{"do": "new", "as": "c%d" % i, "cls": "nappy.nc_interface.na_to_nc.NAToNC", "args": [src], "kw": kw},
             {"do": "call", "obj": "c%d" % i, "meth": "convert"}]
        w = {"do": "call", "obj": "c%d" % i, "meth": "writeNCFile", "args": [out or "j%d.nc" % i, "a" if app else "w"]}
        return o + ([w, w] if st["twice"] and not app else [w])
    if out:
        kw["nc_file"] = out
    if app:
        kw["mode"] = "a"
    f = {"do": "fn", "name": "convertNAToNC", "args": [src], "kw": kw}
    return [f, f] if st["twice"] and not app else [f]


def life(s, ctx, steps=None, faults=(), plan=False, fresh=True, alone=False):
    if fresh:
        ctx.fresh(texts(s))
    ops, idx = [{"do": "import"}], []
    for i in steps if steps is not None else range(len(s["steps"])):
        ops += ops_of(s["steps"][i], i, alone)
        idx.append(len(ops) - 1)
    fl = [dict(f, op=idx[s["t"]]) for f in faults]
    return ctx.life(dict(s["prog"], docs={}, datasets={}, ops=ops, faults=fl), plan), idx


def axes(c):
    """Expanded axes of a parsed document."""
    if c["FFI"] == 1020:
        p, dx = c["NVPM"], c["DX"][0]
        return [[x + k * dx for x in c["X"] for k in range(p)]]
    out = [c["X"]]
    for j, n in enumerate(c.get("NX", [])):
        a = list(c["AX"][j])
        while len(a) < n:
            a.append(c["AX"][j][-1] + (len(a) - len(c["AX"][j]) + 1) * c["DX"][j + 1])
        out.append(a)
    return out


def chosen(sel, names, n):
    if sel in (None, "all"):
        return list(range(n))
    return [names.index(x) if isinstance(x, str) and not x.isdigit() else int(x) for x in sel]


def expected(ctx, st, text):
    """{(kind, number): {data, miss, axes, units}} of the conversion of one file."""
    c = refna.parse(text)
    ax = axes(c)
    out = {}
    if c["FFI"] == 1020:
        ctx.probe("implied axis", c["NVPM"] > 1)
    ctx.probe("bounded axis expanded", any(a < b for a, b in zip(c.get("NXDEF", []), c.get("NX", []))))

    def put(kind, i, v, miss, scal, axs, name):
        hit = [0, 0]

        def sc(x):
            if isinstance(x, list):
                return [sc(y) for y in x]
            if x == miss:
                hit[0] += 1
                return x
            hit[1] += scal != 1
            return x * scal
        m = re.match(r"^[^()]+ \(([^()]+)\)$", name)
        out[kind, i] = {"data": sc(v), "miss": miss, "axes": axs, "units": m.group(1) if m else None}
        ctx.probe("missing value", hit[0] > 0)
        ctx.probe("scaled", hit[1] > 0)

    if st["api"] == "getvar":
        i = st["var"]
        put("v", i, c["V"][i], c["VMISS"][i], c["VSCAL"][i], ax, c["VNAME"][i])
        return c, out
    for i in chosen(st["kw"].get("variables"), c["VNAME"], c["NV"]):
        put("v", i, c["V"][i], c["VMISS"][i], c["VSCAL"][i], ax, c["VNAME"][i])
    if c["NAUXV"]:
        a0 = [c["X"]] if c["FFI"] == 1020 else ax[:1]
        for i in chosen(st["kw"].get("aux_variables"), c["ANAME"], c["NAUXV"]):
            put("a", i, c["A"][i], c["AMISS"][i], c["ASCAL"][i], a0, c["ANAME"][i])
    return c, out


def close(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    try:
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    except TypeError:
        return False


def key_of(v):
    a = v["attrs"]
    if "nasa_ames_var_number" in a:
        return "v", a["nasa_ames_var_number"]
    if "nasa_ames_aux_var_number" in a:
        return "a", a["nasa_ames_aux_var_number"]
    return None


def match(what, e, v, coords):
    """What is wrong with variable `v` of a file or a list of xarray objects."""
    if not close(e["data"], v["data"]):
        return "%s: values %s instead of %s" % (what, common_diff(v["data"], e["data"]), "")
    fill = v["attrs"].get("_FillValue", v.get("enc", {}).get("_FillValue"))
    if fill is None or not close(float(fill), float(e["miss"])):
        return "%s: missing values are marked %r instead of %r" % (what, fill, e["miss"])
    if len(v["dims"]) != len(e["axes"]):
        return "%s: %d axes instead of %d" % (what, len(v["dims"]), len(e["axes"]))
    for d, a in zip(v["dims"], e["axes"]):
        got = coords(v, d)
        if got is None:
            return "%s: axis %r has no values" % (what, d)
        if not all_near(a, got):
            return "%s: axis %r: %s" % (what, d, common_diff(got, a))
    if e["units"] and v["attrs"].get("units") != e["units"]:
        return "%s: units %r instead of %r" % (what, v["attrs"].get("units"), e["units"])
    return None


def all_near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-300) + 1e-9 * (max(map(abs, a)) if a else 0) for x, y in zip(a, b))


def common_diff(got, exp):
    return jobs.diff(exp, got)


def check_attrs(st, c, attrs, s, o):
    attrs = {k: "" if isinstance(v, list) and not v else v for k, v in attrs.items()}

    def bad(k, want):
        return "attribute %s is %r, expected %s" % (k, attrs.get(k), want)
    for k in ("ONAME", "ORG"):
        if c[k] not in str(attrs.get("institution")):
            return bad("institution", "it to contain %r" % c[k])
    for k, n in (("source", "SNAME"), ("title", "MNAME")):
        if str(attrs.get(k)).strip() != c[n]:
            return bad(k, repr(c[n]))
    for k, n in (("file_number_in_set", "IVOL"), ("total_files_in_set", "NVOL"), ("file_format_index", "FFI"), ("first_valid_date_of_data", "DATE")):
        if attrs.get(k) != c[n]:
            return bad(k, repr(c[n]))
    have = [x.strip() for x in str(attrs.get("comment", "")).split("\n")]
    at = 0
    for x in c["SCOM"] + c["NCOM"]:
        if x.strip():
            try:
                at = have.index(x.strip(), at) + 1
            except ValueError:
                return "comment line %r is missing or out of order in attribute comment %r" % (x, attrs.get("comment"))
    h = str(attrs.get("history"))
    rd = "%.4d-%.2d-%.2d" % tuple(c["RDATE"])
    if rd not in h:
        return bad("history", "it to contain the revision date %s" % rd)
    m = re.search(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) - Converted", h)
    if m and o.final:
        t = datetime.datetime.strptime(m.group(1), "%Y-%m-%d %H:%M:%S").replace(tzinfo=datetime.timezone.utc).timestamp()
        lo, hi = s["prog"]["clock"][0], o.final["clock"][1]
        if not lo // 10 ** 9 <= t <= max(lo, hi) // 10 ** 9 + 1:
            return bad("history", "the time on the clock (%d..%d)" % (lo // 10 ** 9, hi // 10 ** 9))
    for k, v in (st["kw"].get("global_attributes") or {"$tuples": []})["$tuples"]:
        if attrs.get(k) != v:
            return bad(k, repr(v))
    return None


def check_file(ctx, s, o, i, f, ref, prev=None):
    """`ref` maps (kind, number) to the variable's name when converted alone."""
    st = s["steps"][i]
    c, exp = expected(ctx, st, texts(s)["j%d.na" % i])
    try:
        x = ncgen.read(ctx.path(f))
    except Exception as e:
        return "%s cannot be read: %s" % (f, e)
    e = check_attrs(st, c, x["attrs"], s, o)
    if e:
        return e

    def coords(v, d):
        return x["vars"][d]["data"] if d in x["vars"] else None
    ren = {k.lower(): n for k, n in (st["kw"].get("rename_variables") or {}).items()}
    names = {}
    if prev is None:
        for n, v in x["vars"].items():
            k = key_of(v)
            if k:
                if k in names:
                    return "%s and %s are the same variable" % (n, names[k])
                names[k] = n
    else:
        for k, n in ref.items():
            names[k] = ren.get(n, n).lower().replace(" ", "_")
    if sorted(names) != sorted(exp):
        return "variables %s instead of %s" % (sorted(names), sorted(exp))
    for k, e in exp.items():
        if names[k] not in x["vars"]:
            return "variable %s is not in %s" % (names[k], sorted(x["vars"]))
        b = match("%s %d (%s)" % ("variable" if k[0] == "v" else "auxiliary variable", k[1], names[k]), e, x["vars"][names[k]], coords)
        if b:
            return b
        if ref is not None and ref.get(k) in ren and names[k] != ren[ref[k]]:
            return "variable %s is called %s though it was to be renamed %s" % (ref[k], names[k], ren[ref[k]])
        if ref is not None and ref.get(k) in ren:
            ctx.probe("renamed")
    if st["kw"].get("time_units"):
        for n, v in x["vars"].items():
            if n == "time" and not re.search("since", c["XNAME"][0]) and "ime" in c["XNAME"][0]:
                ctx.probe("time units given")
                if v["attrs"].get("units") != st["kw"]["time_units"]:
                    return "time units %r instead of %r" % (v["attrs"].get("units"), st["kw"]["time_units"])
    if prev is not None:
        have, mine = prev
        for n, v in have["vars"].items():
            if n not in names.values() and (n not in x["vars"] or repr(x["vars"][n]) != repr(v)):
                return "what was in the file before: variable %s %s" % (n, "is gone" if n not in x["vars"] else "changed: " + jobs.diff(v, x["vars"][n]))
    if st["kw"].get("global_attributes"):
        ctx.probe("global attributes")
    q = st["kw"].get("variables")
    if isinstance(q, list):
        ctx.probe("selection by name" if isinstance(q[0], str) and not q[0].isdigit() else "selection by number")
    return None


def check_xr(ctx, s, o, i, ret):
    st = s["steps"][i]
    c, exp = expected(ctx, st, texts(s)["j%d.na" % i])
    vs = [ret] if st["api"] == "getvar" else ret[0] + ret[1]
    if st["api"] == "readxr":
        e = check_attrs(st, c, dict((k, v) for k, v in ret[2]), s, o)
        if e:
            return e
    got = {}
    for v in vs:
        got[key_of(v)] = v
    if len(got) != len(vs) or sorted(got) != sorted(exp):
        return "variables %s instead of %s" % (sorted(map(key_of, vs)), sorted(exp))
    for k, e in exp.items():
        b = match("%s %d" % k, e, got[k], lambda v, d: v["coords"].get(d))
        if b:
            return b
    ctx.probe("xarray objects")
    return None


def verify(ctx, s, o, idx, refs, prevs, steps=None, last_only=False):
    """Checks the files the acknowledged steps left."""
    for n, i in enumerate(steps if steps is not None else range(len(s["steps"]))):
        st = s["steps"][i]
        rec = o.rec(idx[n])
        if rec is None or not rec.get("ok"):
            return None
        if st["api"] in ("readxr", "getvar"):
            e = check_xr(ctx, s, o, i, rec["ret"])
        else:
            if any(t["append"] and out_of(t, j) == out_of(st, i) for j, t in enumerate(s["steps"]) if j > i) and n + 1 < len(idx) and o.rec(idx[n + 1]) is not None:
                continue        # looked at together with what was appended
            e = check_file(ctx, s, o, i, out_of(st, i), refs[i], prevs[i])
        ctx.nontrivial = True
        if e:
            return "%s: %s" % (brief(st), e)
    return None


def brief(st):
    return "%s of FFI %s%s" % (st["api"], st["doc"]["FFI"], " appended" if st["append"] else "")


def run(s, ctx):
    # names each file's variables get on their own
    refs, prevs = [], []
    for i, st in enumerate(s["steps"]):
        refs.append(None)
        prevs.append(None)
        if st["api"] in ("readxr", "getvar"):
            continue
        o, idx = life(s, ctx, [i], alone=True)
        rec = o.rec(idx[0])
        if not rec or not rec.get("ok"):
            return []
        f = "alone.nc"
        if not ctx.exists(f):
            return [("names", "asked for %r, which was not written (%s)" % (f, sorted(ctx.tree())))]
        x = ncgen.read(ctx.path(f))
        refs[i] = {key_of(v): n for n, v in x["vars"].items() if key_of(v)}
        if st["append"]:
            # what was there before
            o, idx = life(s, ctx, list(range(i)))
            if not all(o.rec(k) and o.rec(k).get("ok") for k in idx):
                return []
            else:
                prevs[i] = (ncgen.read(ctx.path(st["out"])), refs[i])
    o, idx = life(s, ctx)
    if hang_of(o):
        return [("hang", hang_of(o))]
    if o.status != "exit":
        return [("died", "the process ended with %s" % o.status)]
    for i, st in enumerate(s["steps"]):
        rec = o.rec(idx[i])
        if rec.get("ok"):
            if st["append"]:
                ctx.probe("appended")
            if st["twice"] and not st["append"] and st["api"] in ("fn", "class"):
                ctx.probe("converted twice")
            if st["api"] in ("fn", "script") and rec["ret"] not in (None, out_of(st, i)):
                return [("names", "%s: returned %r, wrote %r" % (brief(st), rec["ret"], out_of(st, i)))]
        elif st["append"] and same_axes(s, i):
            return [("refused", "%s on the same axes: %s" % (brief(st), excs(rec)))]
        elif st["append"]:
            ctx.probe("append refused")
            # (the NetCDF library has replaced the file's attributes by then, and may have added variables: the others count)
            x = ncgen.read(ctx.path(st["out"]))["vars"]
            for n, v in prevs[i][0]["vars"].items():
                if n not in refs[i].values() and repr(x.get(n)) != repr(v):
                    return [("damage", "%s was refused (%s), but variable %s was changed: %s" % (brief(st), excs(rec), n, jobs.diff(v, x.get(n))))]
            return []
        else:
            return [("refused", "%s: accepted on its own, now %s" % (brief(st), excs(rec)))] if i else []
    e = verify(ctx, s, o, idx, refs, prevs)
    if e:
        return [("content", e)]
    if not s["faults"]:
        return []
    # the same with a fault, and again
    crash = any(f.get("action") == "crash" for f in s["faults"])
    how = "crash" if crash else "interrupt" if "line" in s["faults"][0] else "fault"
    o, idx = life(s, ctx, list(range(s["t"] + 1)), faults=s["faults"])
    if hang_of(o):
        return [("hang", "%s after %s" % (hang_of(o), s["faults"]))]
    rec = o.rec(idx[s["t"]])
    t = s["steps"][s["t"]]
    earlier = [i for i in range(s["t"]) if not (t["append"] and out_of(s["steps"][i], i) == t["out"])]
    hit = sum(o.fired.values())
    if hit:
        ctx.probe(how)
    if rec is not None and rec.get("ok"):
        e = verify(ctx, s, o, idx, refs, prevs, list(range(s["t"] + 1)))
        return [("silent", "success reported in spite of %s: %s" % (s["faults"], e))] if e else []
    for i in earlier:
        if s["steps"][i]["api"] not in ("readxr", "getvar"):
            e = check_file(ctx, s, o, i, out_of(s["steps"][i], i), refs[i], prevs[i])
            if e:
                return [("survival", "%s, complete before %s in another conversion: %s" % (brief(s["steps"][i]), s["faults"], e))]
            if crash:
                ctx.probe("acknowledged conversion survives a later crash")
    # repeated from the start of its chain, on the disk as it is
    again = [i for i in range(s["t"] + 1) if i not in earlier]
    if t["api"] in ("readxr", "getvar"):
        again = [s["t"]]
    o, idx = life(s, ctx, again, fresh=False)
    if not all(o.rec(k) and o.rec(k).get("ok") for k in idx):
        return [("repeat", "after %s in %s, repeating it: %s" % (s["faults"], brief(t), [excs(o.rec(k)) if o.rec(k) else o.status for k in idx]))]
    ctx.probe("repeated")
    e = verify(ctx, s, o, idx, refs, prevs, again)
    if e:
        return [("repeat", "after %s, repeated: %s" % (s["faults"], e))]
    return []


def same_axes(s, i):
    a, b = s["steps"][i - 1]["doc"], s["steps"][i]["doc"]
    return all(repr(a.get(k)) == repr(b.get(k)) for k in ("FFI", "X", "XNAME", "NX", "NXDEF", "DX", "NVPM", "VMISS", "AMISS"))


def shrink(s):
    if s["faults"]:
        yield dict(s, faults=[])
        if len(s["faults"]) > 1:
            for i in range(len(s["faults"])):
                yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    n = len(s["steps"])
    if n > 1:
        if s["t"] == 0 or not s["faults"]:
            yield dict(s, steps=s["steps"][:1], t=0)
        if not s["steps"][1]["append"] and (s["t"] == 1 or not s["faults"]):
            yield dict(s, steps=s["steps"][1:], t=0)
    for i, st in enumerate(s["steps"]):
        for k in list(st["kw"]):
            yield dict(s, steps=s["steps"][:i] + [dict(st, kw={a: b for a, b in st["kw"].items() if a != k})] + s["steps"][i + 1:])
        if st["style"] is not None:
            yield dict(s, steps=s["steps"][:i] + [dict(st, style=None)] + s["steps"][i + 1:])
        if n == 1:
            for d in gen.simpler(st["doc"]):
                if gen.nrecs(d) and st["var"] < d["NV"]:
                    yield dict(s, steps=[dict(st, doc=d)])
    if s["prog"].get("blk"):
        yield dict(s, prog=dict(s["prog"], blk=0))
    for f in s["faults"]:
        for k in ("at", "line"):
            if f.get(k):
                for a in (f[k] // 2, f[k] - 1):
                    yield dict(s, faults=[dict(g, **{k: a}) if g is f else g for g in s["faults"]])


def describe(s, ctx):
    return {"steps": [{"api": st["api"], "doc": brief_doc(st["doc"]), "kw": st["kw"], "append": st["append"], "out": st["out"], "twice": st["twice"]} for st in s["steps"]],
            "faults": s["faults"], "in step": s["t"]}
