"""Datasets: random NetCDF content nappy can convert, as plain JSON specifications, with
writers and readers that do not use nappy."""
import itertools
import math
import os

TOK = "abcdefghjkmnpqrstuvwxyz"
QUANT = [("temp", "air temperature", "K"), ("ozone", "ozone mixing ratio", "ppbv"), ("uwind", "eastward wind", "m s-1"), ("pres", "pressure", "hPa"),
         ("flag", "quality flag", "1"), ("CO2", "carbon dioxide", "ppmv"), ("no2_column", "NO2 column", "molec/cm2"), ("rh", "humidity", "%"),
         ("H2O", "water vapour (lidar)", "g kg-1"), ("aod", "optical depth", "")]


def _uniform(r, n):
    dx = r.choice([1.0, 0.5, 2.0, -1.0, 10.0, 2.0 ** -24])
    x0 = float(r.randint(-50, 200)) if dx > 1e-6 or dx < 0 else 0.0
    return [x0 + i * dx for i in range(n)]


def _axis_values(r, n):
    k = r.random()
    if k < 0.35:
        return _uniform(r, n)
    if k < 0.42:  # evenly spaced but for next to nothing
        out = _uniform(r, n)
        if n > 2 and abs(out[1] - out[0]) > 0.1:
            for i in [n - 1] if r.random() < 0.5 else r.sample(range(1, n), r.randint(1, n - 1)):
                out[i] += r.choice([3e-7, -3e-7])
        return out
    if k < 0.6:  # evenly spaced but for one step
        out = _uniform(r, n)
        if n > 2:
            i = r.randrange(1, n)
            d = r.choice([0.5, 0.25, 3.0]) * (out[1] - out[0])
            out[i:] = [x + d for x in out[i:]]
        return out
    out = [round(r.uniform(-90, 90), 3)]
    while len(out) < n:
        out.append(round(out[-1] + r.uniform(0.01, 7), 3))
    return out


AXES = [("level", {"units": "hPa", "long_name": "pressure level", "positive": "down"}),
        ("lat", {"units": "degrees_north", "standard_name": "latitude", "long_name": "latitude"}),
        ("lon", {"units": "degrees_east", "standard_name": "longitude", "long_name": "longitude"}),
        ("alt", {"units": "m", "long_name": "altitude above ground"}), ("bin", {"units": "1", "long_name": "size bin"}),
        ("station", {"units": "1", "long_name": "station number"}), ("wavelength", {"units": "nm", "long_name": "wavelength"})]


def time_axis(r, n, name="time"):
    units = r.choice(["days since 2000-01-01 00:00:00", "hours since 1999-12-31 12:00:00", "seconds since 2003-04-30 10:00:00", "days since 1858-11-17", "days since 1500-01-01"])
    vals = _uniform(r, n) if r.random() < 0.6 else _axis_values(r, n)
    vals = [float(round(abs(v) * 4) / 4 + i * 0.0) for i, v in enumerate(vals)]
    vals = sorted(set(vals))
    while len(vals) < n:
        vals.append(vals[-1] + 0.25 * r.randint(1, 9))
    vals = vals[:n]
    a = {"units": units, "long_name": "time", "standard_name": "time"}
    if r.random() < 0.4:
        a["calendar"] = r.choice(["standard", "gregorian", "noleap", "360_day", "proleptic_gregorian"])
        if a["calendar"] == "360_day" and "-31 " in units:
            a["calendar"] = "365_day"
    return {"name": name, "values": vals, "attrs": a}


def num(r, kind):
    if kind in ("i4", "i2"):
        return r.randint(-3000, 3000)
    k = r.random()
    v = float(r.randint(-500, 500)) if k < 0.3 else round(r.uniform(-1000, 1000), r.randint(0, 5)) if k < 0.8 else r.uniform(-1, 1) * 10.0 ** r.randint(-12, 12)
    if kind == "f4":
        import numpy as np
        v = float(np.float32(v))
    return v


def _nest(flat, shape):
    if not shape:
        return flat[0]
    if len(shape) == 1:
        return list(flat)
    st = len(flat) // shape[0]
    return [_nest(flat[i * st:(i + 1) * st], shape[1:]) for i in range(shape[0])]


def spec(r, ranks=None, nvars=None, n0=None, scalars=True, big=False, odd=False):
    """A random dataset specification. Every variable's long_name ends with a unique
    token so that it can be recognised in converted files. `odd`: also the less usual
    (packed data, integers with missing values, NaN as missing value, other orders of the
    axes, other types of axes, names from other attributes)."""
    sp = _spec(r, ranks, nvars, n0, scalars, big)
    sp["load"] = r.random() < 0.5
    return _odd(r, sp) if odd else sp


def _odd(r, sp):
    if r.random() < 0.12:
        implied(r, sp)
    byname = {a["name"]: a for a in sp["axes"]}
    for v in sp["vars"]:
        if v.get("bounds"):
            continue
        if len(v["dims"]) > 1 and r.random() < 0.12:
            d = r.sample(v["dims"], len(v["dims"]))
            flat = _flat(v["data"])
            v["dims"], v["data"] = d, _nest(flat, [len(byname[a]["values"]) for a in d])
        k = r.random()
        if v["dims"] and k < 0.12:
            v["dtype"], v["fill"] = "i2", r.choice([-9999, 32767, -99])
            v["data"] = _each(v["data"], lambda x: None if x is None or r.random() < 0.1 else r.randint(-90, 3000))
            v["attrs"].update(scale_factor=r.choice([0.5, 0.25, 2.0, 0.0625]), add_offset=r.choice([0.0, 10.0, -2.5]))
        elif v["dims"] and k < 0.2:
            v["dtype"], v["fill"] = r.choice(["i4", "i2"]), r.choice([-9999, 32767, -99])
            v["data"] = _each(v["data"], lambda x: None if x is None or r.random() < 0.2 else r.randint(-90, 3000))
        elif v["dims"] and k < 0.27 and v["dtype"][0] == "f":
            v["fill"] = float("nan")
        q = r.random()
        ln = v["attrs"]["long_name"]
        if q < 0.06:
            v["attrs"] = dict([("standard_name", ln)] + [x for x in v["attrs"].items() if x[0] != "long_name"])
        elif q < 0.1:
            v["attrs"].pop("long_name")
            v["attrs"]["title"] = ln
        elif q < 0.15:
            v["attrs"].pop("long_name")
            v["name"] += "_" + v["tok"]
        elif q < 0.2 and v["attrs"].get("units"):
            v["attrs"]["long_name"] += " (%s)" % v["attrs"]["units"]
        elif q < 0.23:
            v["name"] += "_bnds"
        elif q < 0.27 and v["dims"] and v["dtype"] == "f8" and None not in _flat(v["data"]):
            # times as values
            v["fill"] = None
            v["attrs"]["units"] = r.choice(["days since 1999-03-01 00:00:00", "hours since 2001-01-01"])
            v["data"] = _each(v["data"], lambda x: float(r.randint(0, 4000)) / 4)
    if r.random() < 0.12:  # as if they came from a NASA Ames file, or from several
        for v in sp["vars"]:
            if not v.get("bounds") and r.random() < 0.8:
                v["attrs"]["nasa_ames_var_number"] = r.randrange(len(sp["vars"]) + 1)
            elif not v.get("bounds") and r.random() < 0.8:
                v["attrs"]["nasa_ames_aux_var_number"] = r.randrange(len(sp["vars"]) + 1)
    if r.random() < 0.15:
        twin(r, sp)
    for a in sp["axes"]:
        if r.random() < 0.15 and all(x == int(x) for x in a["values"]):
            a["dtype"] = "i4"
        elif r.random() < 0.1:
            import numpy as np
            vals = [float(np.float32(x)) for x in a["values"]]
            if len(set(vals)) == len(vals) and not any(x["name"] in (a["name"] + "_sub", a["name"][:-4]) for x in sp["axes"]):
                a["dtype"], a["values"] = "f4", vals
        if r.random() < 0.1:
            a["attrs"].pop("long_name", None)
    if r.random() < 0.15:
        sp["attrs"]["first_valid_date_of_data"] = [r.randint(1950, 2030), r.randint(1, 12), r.randint(1, 28)]
    if r.random() < 0.15:
        sp["attrs"]["numbers"] = [1.5, 2.5]
    if r.random() < 0.1:
        sp["attrs"]["references"] = "doi:10.1/x"
    vs = [v for v in sp["vars"] if not v.get("bounds")]
    if len(vs) > 1 and r.random() < 0.1:
        b = r.choice(vs)
        m = r.choice(vs)
        if b is not m and set(b["dims"]) <= set(m["dims"]):
            m["attrs"]["coordinates"] = b["name"]
    return sp


def implied(r, sp):
    """Make the dataset one of values along an evenly spaced axis and every so many of them."""
    a = sp["axes"][0]
    k, m = r.choice([2, 3, 4, 5]), r.choice([1, 2, 3, 4, 4, 5, 6])
    nm, at = r.choice(AXES)
    a = {"name": nm, "values": _uniform(r, k * m), "attrs": dict(at)} if r.random() < 0.8 else dict(time_axis(r, k * m), values=[float(x) for x in range(k * m)])
    b = {"name": nm + "_sub", "values": a["values"][::k], "attrs": dict(a["attrs"])}
    if a["name"] == "time":
        b = {"name": "time_sub", "values": a["values"][::k], "attrs": dict(a["attrs"])}
    if m > 1 and r.random() < 0.3:
        # very nearly
        b["values"][r.randrange(m)] += r.choice([0.25, -0.25]) * (a["values"][1] - a["values"][0])
    elif m > 2 and r.random() < 0.2:
        # not up to the end
        b["values"].pop()
        m -= 1
    sp["axes"] = [a, b]
    vs = [v for v in sp["vars"] if v["dims"] and not v.get("bounds")]
    for i, v in enumerate(vs):
        v["dims"] = [b["name"]] if i and r.random() < 0.6 else [a["name"]]
        flat = _flat(v["data"])
        n = len(a["values"]) if v["dims"] == [a["name"]] else m
        v["data"] = [flat[x % len(flat)] for x in range(n)]
    sp["vars"] = vs
    used = {d for v in vs for d in v["dims"]}
    sp["axes"] = [x for x in sp["axes"] if x["name"] in used]


def twin(r, sp, same=False):
    """Let some variables use an axis that is like another one but for a single value, or
    its units. `same`: and that goes by the same name, as it can in memory."""
    names = {x["name"] for x in sp["axes"] + sp["vars"]}
    pool = [a for a in sp["axes"] if "bounds" not in a["attrs"] and not a["name"].endswith("_sub") and not names & {a["name"] + x for x in ("_sub", "_b", "2")}]
    if not pool:
        return
    a = r.choice(pool)
    vs = [v for v in sp["vars"] if a["name"] in v["dims"] and not v.get("bounds")]
    if len(vs) < 2:
        return
    b = {"name": a["name"] + r.choice(["_b", "2"]), "values": list(a["values"]), "attrs": dict(a["attrs"])}
    i = r.randrange(len(b["values"]))
    if same:
        b["as"] = a["name"]
    if same or r.random() < 0.8:
        step = (b["values"][i + 1] - b["values"][i]) if i + 1 < len(b["values"]) else 1.0
        b["values"][i] += r.choice([0.5, 0.25]) * step
    elif "units" in b["attrs"] and "since" not in b["attrs"]["units"]:
        b["attrs"]["units"] += "2"
    sp["axes"].append(b)
    for v in r.sample(vs, r.randint(1, len(vs) - 1)):
        v["dims"] = [b["name"] if d == a["name"] else d for d in v["dims"]]
    used = {d for v in sp["vars"] for d in v["dims"]}
    sp["axes"] = [x for x in sp["axes"] if x["name"] in used]


def _flat(v):
    return [y for x in v for y in _flat(x)] if isinstance(v, list) else [v]


def _each(v, f):
    return [_each(x, f) for x in v] if isinstance(v, list) else f(v)


def _spec(r, ranks, nvars, n0, scalars, big):
    axes = []
    t = r.random() < 0.65
    n0 = n0 or (r.choice([1, 2, 3, 4, 6, 9]) if not big else r.choice([100, 200, 400]))
    if t:
        axes.append(time_axis(r, n0, r.choice(["time", "time", "time", "t", "Time"])))
    pool = list(AXES)
    r.shuffle(pool)
    for i in range(r.choice([1, 2, 3, 3])):
        nm, at = pool[i]
        n = n0 if (not axes) else r.choice([1, 2, 3, 4, 5, 7, n0, n0] if not big else [1, 2, 3, 4])
        axes.append({"name": nm, "values": _axis_values(r, n), "attrs": dict(at)})
    main = axes[0]
    if r.random() < 0.2 and len(main["values"]) in (2, 4, 6, 9, 200, 400, 900) and main["name"] not in ("time", "t", "Time"):
        # a regular subset of the main axis
        k = 2 if len(main["values"]) % 2 == 0 else 3
        if r.random() < 0.5:
            main["values"] = _uniform(r, len(main["values"]))
        axes.append({"name": main["name"] + "_sub", "values": main["values"][::k], "attrs": dict(main["attrs"])})
    byname = {a["name"]: a for a in axes}
    names = list(byname)
    combos = []
    for k in (1, 2, 3, 4):
        for c in itertools.combinations(names, k):
            if any(x + "_sub" in c for x in c):
                continue
            if k < 2 or "_sub" not in c[0]:
                combos.append(list(c))
    if big and not ranks:
        ranks = [1, 2]
    if ranks:
        combos = [c for c in combos if len(c) in ranks] or combos
    nv = nvars or (r.choice([1, 2, 2, 3, 4, 6]) if big or r.random() < 0.95 else r.choice([11, 14]))
    main_c = r.choice(combos)
    vs, used = [], set()
    for i in range(nv):
        q = r.choice(QUANT)
        nm = q[0] if q[0] not in used else "%s_%d" % (q[0], i)
        while nm in used or nm in byname:
            nm += "x"
        used.add(nm)
        c = main_c if r.random() < 0.55 else [main_c[0]] if r.random() < 0.5 else r.choice(combos)
        if scalars and i and r.random() < 0.1:
            c = []
        kind = r.choice(["f8", "f8", "f4", "i4"])
        shape = [len(byname[a]["values"]) for a in c]
        size = math.prod(shape)
        tok = "".join(r.choice(TOK) for _ in range(5)) + str(i)
        at = {"long_name": "%s %s" % (q[1], tok)}
        if q[2] and r.random() < 0.85:
            at["units"] = q[2]
        if r.random() < 0.3:
            at["source_note"] = "measured by %s" % r.choice(["lidar", "sonde", "aircraft"])
        if r.random() < 0.2:
            at["valid_max"] = r.randint(1, 100)
        if r.random() < 0.1:
            at["codes"] = [r.randint(1, 9) for _ in range(r.choice([1, 1, 2, 3]))]
        fill = None
        data = [num(r, kind) for _ in range(size)]
        if kind != "i4" and c and r.random() < 0.7:
            fill = r.choice([-9999.0, 1e20, -999.25, 99999.0])
            if kind == "f4":
                import numpy as np
                fill = float(np.float32(fill))
            miss = r.choice([0, 0.1, 0.5, 1.0])
            data = [None if r.random() < miss else (x if x != fill else 1.5) for x in data]
        vs.append({"name": nm, "dims": c, "data": _nest(data, shape), "dtype": kind, "fill": fill, "attrs": at, "tok": tok})
    if r.random() < 0.15 and t:
        byname[axes[0]["name"]]["attrs"]["bounds"] = "time_bnds"
        n = len(axes[0]["values"])
        vs.append({"name": "time_bnds", "dims": [axes[0]["name"], "nv"], "data": [[v, v + 0.25] for v in axes[0]["values"]], "dtype": "f8", "fill": None,
                   "attrs": {}, "tok": None, "bounds": True})
    ga = {"title": "Campaign %d" % r.randrange(99), "source": "instrument X"}
    for k in ("title", "source"):
        if r.random() < 0.12:
            ga.pop(k)
    if r.random() < 0.6:
        ga["institution"] = r.choice(["Some University", "A. Person (ONAME from NASA Ames file); Some Lab (ORG from NASA Ames file)."])
    if r.random() < 0.5:
        ga["history"] = r.choice(["2020-01-01 - created", "made\nthen edited", "  indented start", "\n".join("2019-03-%02d - step %d" % (30 - i, 30 - i) for i in range(20))])
    if r.random() < 0.4:
        ga["comment"] = r.choice(["one line", "two\nlines", "==== Special Comments follow ====\nspecial one\n==== Special Comments end ====\n==== Normal Comments follow ====\n"
                                  "normal one\n==== Normal Comments end ===="])
    if r.random() < 0.4:
        ga["Conventions"] = "CF-1.8"
    if r.random() < 0.4:
        ga["project"] = "worms"
    if r.random() < 0.2:
        ga["version"] = r.randint(1, 9)
    used_dims = {d for v in vs for d in v["dims"]}
    return {"axes": [a for a in axes if a["name"] in used_dims], "vars": vs, "attrs": ga,
            "format": r.choice(["NETCDF4", "NETCDF4", "NETCDF3_CLASSIC"])}


def write(sp, path):
    """Write the file with netCDF4 (no nappy, no xarray)."""
    import netCDF4
    import numpy as np
    ds = netCDF4.Dataset(path, "w", format=sp.get("format", "NETCDF4"))
    dims = {a["name"]: len(a["values"]) for a in sp["axes"]}
    for k, n in dims.items():
        ds.createDimension(k, n)
    for v in sp["vars"]:
        for d in v["dims"]:
            if d == "nv" and "nv" not in ds.dimensions:
                ds.createDimension("nv", 2)
    for a in sp["axes"]:
        x = ds.createVariable(a["name"], a.get("dtype", "f8"), (a["name"],))
        x[:] = a["values"]
        x.setncatts(a["attrs"])
    for v in sp["vars"]:
        kw = {"fill_value": v["fill"]} if v["fill"] is not None else {}
        x = ds.createVariable(v["name"], v["dtype"], tuple(v["dims"]), **kw)
        arr = np.array(_sub(v["data"], v["fill"] if v["fill"] is not None else 0), dtype=v["dtype"])
        x.set_auto_maskandscale(False)
        x[...] = arr
        x.setncatts({k: np.array(y, "i4") if isinstance(y, list) else y for k, y in v["attrs"].items()})
    ds.setncatts({k: np.array(x, "i4" if isinstance(x[0], int) else "f8") if isinstance(x, list) else x for k, x in sp["attrs"].items()})
    ds.close()


def _sub(v, fill):
    if isinstance(v, list):
        return [_sub(x, fill) for x in v]
    return fill if v is None else v


def build(sp):
    """The same content as an in-memory, decoded xarray Dataset."""
    import numpy as np
    import xarray as xr
    coords = {a["name"]: xr.Variable((a["name"],), np.array(a["values"], dtype=a.get("dtype", "f8")), dict(a["attrs"])) for a in sp["axes"]}
    data = {}
    for v in sp["vars"]:
        at = dict(v["attrs"])
        if v["fill"] is not None:
            at["_FillValue"] = np.dtype(v["dtype"]).type(v["fill"])
        at = {k: np.array(x) if isinstance(x, list) else x for k, x in at.items()}
        data[v["name"]] = xr.Variable(tuple(v["dims"]), np.array(_sub(v["data"], v["fill"] if v["fill"] is not None else 0), dtype=v["dtype"]), at)
    ds = xr.Dataset(data, coords=coords, attrs={k: np.array(x) if isinstance(x, list) else x for k, x in sp["attrs"].items()})
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = xr.decode_cf(ds, use_cftime=True, decode_timedelta=False)
    return ds.load() if sp.get("load") else ds


def objects(sp, ds):
    """The variables as a caller hands them over."""
    to = {a["name"]: a["as"] for a in sp["axes"] if "as" in a}
    out = []
    for k in ds.variables:
        v = ds[k]
        m = {a: b for a, b in to.items() if a in v.dims}
        out.append((v.rename(m).rename(to.get(k, k)) if m else v))
    return out


def read(path):
    """Everything in a NetCDF file, raw (no scaling, masking or time decoding), with
    netCDF4: {"vars": {name: {"dims", "data", "attrs"}}, "attrs"}."""
    import netCDF4
    import numpy as np
    ds = netCDF4.Dataset(path, "r")
    try:
        ds.set_auto_maskandscale(False)
        out = {"vars": {}, "attrs": _attrs(ds)}
        for k, v in ds.variables.items():
            a = np.asarray(v[...])
            out["vars"][k] = {"dims": list(v.dimensions), "data": a.tolist(), "attrs": _attrs(v)}
        return out
    finally:
        ds.close()


def _attrs(o):
    out = {}
    for k in o.ncattrs():
        v = o.getncattr(k)
        out[k] = v.tolist() if hasattr(v, "tolist") else v
    return out


def simpler(sp):
    real = [v for v in sp["vars"] if not v.get("bounds")]
    if len(real) > 1:
        for v in real:
            rest = [w for w in sp["vars"] if w is not v]
            ud = {d for w in rest for d in w["dims"]}
            if ud - {"nv"}:
                yield dict(sp, vars=rest, axes=[a for a in sp["axes"] if a["name"] in ud])
    for v in sp["vars"]:
        if v.get("bounds"):
            yield dict(sp, vars=[w for w in sp["vars"] if w is not v],
                       axes=[dict(a, attrs={k: x for k, x in a["attrs"].items() if k != "bounds"}) for a in sp["axes"]])
    for k in list(sp["attrs"]):
        yield dict(sp, attrs={a: b for a, b in sp["attrs"].items() if a != k})
    for i, v in enumerate(sp["vars"]):
        for k in list(v["attrs"]):
            if k not in ("long_name",):
                yield dict(sp, vars=sp["vars"][:i] + [dict(v, attrs={a: b for a, b in v["attrs"].items() if a != k})] + sp["vars"][i + 1:])
    for a in sp["axes"]:
        n = len(a["values"])
        if n > 1 and not any(x["name"] == a["name"] + "_sub" for x in sp["axes"]) and "bounds" not in a["attrs"]:
            m = n // 2
            yield dict(sp, axes=[dict(x, values=x["values"][:m]) if x is a else x for x in sp["axes"]],
                       vars=[dict(v, data=_trim(v["data"], v["dims"], a["name"], m)) for v in sp["vars"]])


def _trim(data, dims, name, m):
    if not dims:
        return data
    if dims[0] == name:
        data = data[:m]
    return [_trim(x, dims[1:], name, m) for x in data]
