"""Jobs: self-contained operations (one public call on files and objects of their own),
used by the properties that compare executions."""
import random

from model import gen, ncgen, refna
from props.common import *

CONV = [1001, 1010, 1020, 2010, 3010, 4010]
NA = ["write", "writenoffi", "read", "csv", "ffi"]
NC = ["na2nc", "readxr", "getvar", "nc2na", "nc2csv", "xr2na", "names", "script-na2nc", "script-nc2na"]
ALL = NA + NC
SIMPLE = ["temp", "wind speed", "O3", "pressure", "NO2 column", "flux", "humidity", "aerosol", "CO", "Cloud-Fraction"]
AXN = ["altitude (m)", "wavelength (nm)", "size bin", "latitude (degrees_north)", "longitude (degrees_east)", "level (hPa)", "station"]
TIMES = ["time (seconds since 2003-04-30 10:00:00)", "time (hours since 1999-12-31 00:00:00)", "Time (days since 2000-1-1)"]


def conv_doc(r, ffi=None, recs=None, simple=None, timely=None, big=False, nv=None):
    """A document of a convertible FFI with at least one record. Time axes have units."""
    ffi = ffi or r.choice(CONV)
    if big:
        recs = {1001: 900, 1010: 600, 1020: 200, 2010: 150, 3010: 40, 4010: 15}[ffi]
    if nv is None and recs is None and r.random() < 0.05:
        recs, nv = r.choice([1, 2, 3]), r.choice([9, 11, 13])
    d = gen.doc(r, ffi=ffi, recs=recs or r.choice([1, 1, 2, 3, 4, 6, 9]), nv=nv)
    simple = r.random() < 0.7 if simple is None else simple
    if simple:
        nm = list(SIMPLE)
        r.shuffle(nm)
        it = iter(nm + ["q%d" % i for i in range(60)])
        d["VNAME"] = ["%s %s" % (next(it), r.choice(gen.UNITS)) for _ in d["VNAME"]]
        d["VNAME"] = [x.strip() for x in d["VNAME"]]
        if d.get("ANAME"):
            d["ANAME"] = [("%s %s" % (next(it), r.choice(gen.UNITS))).strip() for _ in d["ANAME"]]
        ax = list(AXN)
        r.shuffle(ax)
        d["XNAME"] = ax[:d["NIV"]]
    q = r.random()
    if q < 0.08:
        # names too long for an identifier
        for k in ("VNAME", "ANAME"):
            if d.get(k):
                d[k] = [x if r.random() < 0.2 else "a rather long description of the quantity measured there %s %s" % ("abcdefghij"[i % 10] * 3, x) for i, x in enumerate(d[k])]
    elif q < 0.16 and simple and d["NV"] > 1:
        # names that begin with another one
        base = d["VNAME"][-1].split(" (")[0]
        d["VNAME"] = ["%s %s" % (base, x) for x in d["VNAME"][:-1]] + [base]
        if r.random() < 0.3:
            d["VNAME"].reverse()
            for k in ("V", "VMISS", "VSCAL"):
                d[k] = d[k][::-1]
    elif q < 0.26 and q >= 0.22:
        i = r.randrange(d["NV"])
        d["VNAME"] = [x if j != i else r.choice(["2m ", "10 m ", "3"]) + x for j, x in enumerate(d["VNAME"])]
    elif q < 0.22 and simple:
        # names that differ only in what an identifier does not keep
        c = ["%s (%s)" % (x, u) for x in ("temp", "Temp", "TEMP") for u in ("K", "m", "1", "%", "ppbv", "hPa")] + ["temp", "Temp", "temp 2", "temp_2", "%s (9)" % d["XNAME"][-1].split(" (")[0]]
        r.shuffle(c)
        if len(c) >= d["NV"] + len(d.get("ANAME") or []):
            for k in ("VNAME", "ANAME"):
                if d.get(k):
                    d[k] = [c.pop() for _ in d[k]]
    timely = r.random() < 0.5 if timely is None else timely
    if timely:
        d["XNAME"] = [r.choice(TIMES)] + d["XNAME"][1:]
    d["XNAME"] = [x if i == 0 and timely else x.replace("time", "tick").replace("Time", "Tick") for i, x in enumerate(d["XNAME"])]
    return d


def ga(r):
    if r.random() < 0.5:
        return None
    return {"$tuples": [[k, v] for k, v in r.sample([("project", "worms"), ("Conventions", "CF-1.8"), ("contact", "someone@example.org"), ("run", "12")], r.choice([1, 2]))]}


def nc_out_kw(r, sp=None):
    kw = {}
    if r.random() < 0.3:
        kw["float_format"] = r.choice(["%.10g", "%g", "%12.5f", "%.17g"])
    if r.random() < 0.3:
        kw["delimiter"] = r.choice(["    ", ",", "\t"])
    if r.random() < 0.15:
        kw["annotation"] = True
    if r.random() < 0.1:
        kw["no_header"] = True
    if r.random() < 0.25:
        kw["size_limit"] = r.choice([1, 2, 3, 5, 100])
    if r.random() < 0.2:
        kw["na_items_to_override"] = dict(r.sample([("MNAME", "Big Mission"), ("ONAME", "Someone Else"), ("SNAME", "radar"), ("DATE", "2009 01 02"),
                                                    ("RDATE", "2010 03 04")], 2))
        if r.random() < 0.5:
            kw["na_items_to_override"]["NCOM"] = ["an extra comment"]
    return kw


def make(r, n, kinds=ALL, big=False, odd=False, ask=False, dirs=False, pre=None):
    kind = r.choice(list(kinds))
    p = pre or ("e%d.d/j%d" % (r.randrange(2), n) if dirs and r.random() < 0.2 else "j%d" % n)
    j = {"kind": kind, "pre": p, "files": {p.split("/")[0] + "/": ""} if "/" in p else {}, "docs": {}, "datasets": {}}
    if kind in ("write", "writenoffi"):
        d = gen.doc(r, big=big)
        kw = write_kw(r)
        if r.random() < 0.15:
            # lines as other programs leave them
            for k in ("NCOM", "SCOM"):
                d[k] = [r.choice(["", " ", "\t"]) + x + r.choice(["  ", " ", "\t", ""]) for x in d[k]]
        if kind == "writenoffi":
            d = gen.doc(r, ffi=r.choice([1001, 2010, 3010, 4010]), recs=r.choice([2, 3, 4]), big=False)
            del d["FFI"]
            kw.pop("annotation", None)
        j["docs"][p] = d
        j["op"] = {"do": "write", "file": p + ".na", "doc": p, "kw": kw, "style": r.choice(["plain", "with"])}
    elif kind in ("read", "csv", "ffi"):
        d = gen.doc(r, big=big)
        st = refna.Style(random.Random(r.randrange(2 ** 31)) if r.random() < 0.6 else None)
        j["files"][p + ".na"] = refna.render(d, st)
        j["doc"] = d
        if kind == "read":
            j["op"] = {"do": "read", "file": p + ".na", "style": r.choice(["plain", "with"])}
            if r.random() < 0.2:
                lines = ["#%d leading line" % i for i in range(r.choice([1, 1, 2, 3]))]
                j["files"][p + ".na"] = "\n".join(lines + [j["files"][p + ".na"]])
                j["op"].update(ihl=len(lines), meta=1)
                j["ihl"] = lines
            if r.random() < 0.4:
                j["op"]["meta"] = 1
                if r.random() < 0.5:
                    j["op"]["pattern"] = [r.choice(["set", "call"]), r.choice([r"^\s*(.*)\[(.+?)\](.*)\s*$", r"^(\w*) ?(\S+) ?(.*)$"])]
        elif kind == "ffi":
            j["op"] = {"do": "fn", "name": "readFFI", "args": [p + ".na"]}
        else:
            kw = {}
            if r.random() < 0.5:
                kw["csv_file"] = p + "_out.csv"
            if r.random() < 0.3:
                kw["annotation"] = True
            if r.random() < 0.2:
                kw["no_header"] = True
            j["op"] = {"do": "fn", "name": "convertNAToCSV", "args": [p + ".na"], "kw": kw}
    elif kind in ("na2nc", "readxr", "getvar", "script-na2nc"):
        d = conv_doc(r, big=big)
        ask = r.random() < 0.3 and ask
        if ask:
            d["XNAME"] = [r.choice(["time (UT)", "time", "Time of day (hours)"])] + [x.replace("time", "tick").replace("Time", "Tick") for x in d["XNAME"][1:]]
        j["files"][p + ".na"] = refna.render(d)
        j["doc"] = d
        if kind == "readxr":
            j["op"] = {"do": "fn", "name": "readXarrayObjectsFromNA", "args": [p + ".na"]}
        elif kind == "getvar":
            j["op"] = {"do": "fn", "name": "getXarrayVariableFromNA", "args": [p + ".na", r.choice([0, d["NV"] - 1])]}
        elif kind == "script-na2nc":
            av = ["-i", p + ".na"]
            if r.random() < 0.5:
                av += ["-o", p + "_s.nc"]
            if r.random() < 0.3:
                av += ["-n"]
            j["op"] = {"do": "script", "name": "na2nc", "argv": av}
        else:
            kw = {}
            if r.random() < 0.5:
                kw["nc_file"] = p + "_out.nc"
            g = ga(r)
            if g:
                kw["global_attributes"] = g
            if r.random() < 0.3:
                kw["variables"] = r.choice([[0], [d["NV"] - 1], [str(d["NV"] - 1)], "all", list(range(d["NV"]))])
            if r.random() < 0.2 and d.get("NAUXV"):
                kw["aux_variables"] = r.choice([[0], "all"])
            if r.random() < 0.3:
                kw["rename_variables"] = r.choice([{"temp": "air_temp", "o3": "ozone_mix", "flux": "f_new"}, {"Temp": "Air_temp", "O3": "ozone_mix", "FLUX": "f_new", "CO": "carbon"}])
            if r.random() < 0.2:
                kw["time_units"] = "days since 1990-01-01 00:00:00"
            j["op"] = {"do": "fn", "name": "convertNAToNC", "args": [p + ".na"], "kw": kw}
        if ask:
            j["op"]["stdin"] = r.choice([["days since 1990-01-01 00:00:00"], ["noon", "hours since 2003-4-30"], [""]] + ([["?"], []] if ask == "all" else []))
    else:
        sp = ncgen.spec(r, ranks=[1] if r.random() < 0.3 else None, big=big, odd=odd and r.random() < 0.6)
        kw = nc_out_kw(r, sp)
        if kind == "xr2na":
            j["datasets"][p] = sp
            j["op"] = {"do": "fn", "name": r.choice(["convertXarrayObjectsToNA", "convertXarrayObjectsToCSV"]),
                       "args": [{"$vars": p}, dict(sp["attrs"]) if r.random() < 0.3 else {"$tuples": [[k, v] for k, v in sp["attrs"].items()]}, p + "_out.na"], "kw": kw}
            if j["op"]["name"].endswith("CSV"):
                kw.pop("delimiter", None)
        else:
            j["files"][p + ".nc"] = sp
            names = [v["name"] for v in sp["vars"] if not v.get("bounds")]
            if r.random() < 0.25 and len(names) > 1:
                if r.random() < 0.5:
                    kw["exclude_vars"] = [r.choice(names)]
                else:
                    kw["var_ids"] = r.sample(names, r.randint(1, len(names)))
            if kind == "script-nc2na":
                av = ["-i", p + ".nc", "-o", p + "_out.na"]
                for k, o in (("float_format", "-f"), ("delimiter", "-d")):
                    if k in kw:
                        av += [o, kw[k]]
                if kw.get("var_ids"):
                    av += ["-v", ",".join(kw["var_ids"])]
                if kw.get("exclude_vars"):
                    av += ["-e", ",".join(kw["exclude_vars"])]
                if kw.get("no_header"):
                    av += ["--no-header"]
                if kw.get("annotation"):
                    av += ["--annotated"]
                j["op"] = {"do": "script", "name": "nc2na", "argv": av}
            elif kind == "nc2csv":
                kw.pop("delimiter", None)
                if r.random() < 0.5:
                    kw["csv_file"] = p + "_out.csv"
                j["op"] = {"do": "fn", "name": "convertNCToCSV", "args": [p + ".nc"], "kw": kw}
            else:
                if kind == "names":
                    kw["only_return_file_names"] = True
                if r.random() < 0.6:
                    kw["na_file"] = p + "_out.na"
                j["op"] = {"do": "fn", "name": "convertNCToNA", "args": [p + ".nc"], "kw": kw}
        j["spec"] = sp
    return j


def collect(jobs):
    """(docs, datasets, files) of several jobs."""
    docs, dss, files = {}, {}, {}
    for j in jobs:
        docs.update(j["docs"])
        dss.update(j["datasets"])
        files.update(j["files"])
    return docs, dss, files


def outputs(ctx, job, known=()):
    """Everything on disk that belongs to the job apart from its input files."""
    out = {}
    for f, b in sorted(ctx.tree().items()):
        if f.startswith(job["pre"]) and f[len(job["pre"]):len(job["pre"]) + 1] in ("_", ".", "-") and f not in job["files"] and f not in known:
            out[f] = content(ctx, f, b)
    return out


def content(ctx, f, b):
    if f.endswith(".nc"):
        try:
            return ncgen.read(ctx.path(f))
        except Exception as e:
            return "unreadable NetCDF: %s" % type(e).__name__
    return b.decode("utf-8", "surrogateescape")


def same(a, b):
    return repr(a) == repr(b)


def brief(job):
    s = {"kind": job["kind"], "op": {k: v for k, v in job["op"].items()}}
    d = job.get("doc") or (list(job["docs"].values()) or [None])[0]
    if d:
        s["doc"] = "FFI %s NV=%s" % (d.get("FFI"), d.get("NV"))
    if "spec" in job:
        s["vars"] = [[v["name"], v["dims"]] for v in job["spec"]["vars"]]
    return s


def diff(a, b, path=""):
    """First difference of two plain values, for messages."""
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return "%s: %s instead of %s" % (path, _s(b), _s(a))
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s/%s: only in the %s" % (path, k, "reference" if k in a else "observed")
            if repr(a[k]) != repr(b[k]):
                return diff(a[k], b[k], "%s/%s" % (path, k))
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d items instead of %d" % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            if repr(x) != repr(y):
                return diff(x, y, "%s[%d]" % (path, i))
    if isinstance(a, str) and a != b:
        la, lb = a.split("\n"), b.split("\n")
        for i, (x, y) in enumerate(zip(la, lb)):
            if x != y:
                return "%s line %d: %r instead of %r" % (path, i + 1, y[:120], x[:120])
        return "%s: %d lines instead of %d" % (path, len(lb), len(la))
    return "%s: %s instead of %s" % (path, _s(b), _s(a))


def _s(v):
    return repr(v)[:120]


def simpler(j):
    """Smaller jobs of the same kind."""
    for k in list(j["op"].get("kw", {})):
        yield dict(j, op=dict(j["op"], kw={a: b for a, b in j["op"]["kw"].items() if a != k}))
    for k, d in j["docs"].items():
        if "FFI" in d:
            for e in gen.simpler(d):
                yield dict(j, docs={k: e})
    if "doc" in j:
        for e in gen.simpler(j["doc"]):
            if gen.nrecs(e) or j["kind"] in ("read", "csv", "ffi"):
                yield dict(j, doc=e, files={f: f.endswith("/") and t or "\n".join(j.get("ihl", []) + [refna.render(e)]) for f, t in j["files"].items()})
    if "spec" in j:
        for e in ncgen.simpler(j["spec"]):
            if j["datasets"]:
                yield dict(j, spec=e, datasets={k: e for k in j["datasets"]})
            else:
                yield dict(j, spec=e, files={k: t if k.endswith("/") else e for k, t in j["files"].items()})


def misask(r, j):
    """Turns a job into a request that cannot be met (an unknown variable, a file or a
    directory that does not exist), where it can be one."""
    op = j["op"]
    q = r.random()
    if op["do"] == "fn" and q < 0.6 and op["name"] in ("convertNAToNC", "convertNCToNA", "convertNCToCSV", "getXarrayVariableFromNA"):
        if op["name"] == "convertNAToNC":
            op["kw"][r.choice(["variables", "variables", "aux_variables"])] = r.choice([["No such"], [99], ["99"], [-9]])
        elif op["name"] == "getXarrayVariableFromNA":
            op["args"][1] = r.choice(["No such", 99])
        else:
            op["kw"]["var_ids"] = r.choice([["nosuchvar"], [j["spec"]["vars"][0]["name"], "nosuchvar"]])
        return
    if op["do"] == "script" and q < 0.5 and op["name"] == "nc2na":
        op["argv"] += ["-v", "nosuchvar"]
        return
    names = [f for f in j["files"] if not f.endswith("/")]
    if names and q < 0.8:
        text = j["files"].pop(names[0])
        if r.random() < 0.5 and isinstance(text, str):
            j["files"][names[0] + "/"] = ""         # a directory goes by that name
        return
    for k in ("na_file", "csv_file", "nc_file"):
        if k in op.get("kw", {}):
            op["kw"][k] = "nowhere/" + op["kw"][k]
            return
