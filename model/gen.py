"""Documents: legal NASA Ames dictionaries for every FFI nappy supports."""
import math

from model.refna import FFIS

WORDS = ["Temperature", "ozone", "wind", "speed", "CO2", "mixing", "ratio", "pressure", "level", "flux", "NOy", "H2O",
         "100%", "5 %s", "%d", "{note} inside", "a/b", "x=y", "O'Neill", 'say "hi" now', "caf\u00e9", "\u00b5g", "\u03b1-particles",
         "r\u00e9seau", "A & B", "tab-like", "comma, here", "semi; colon", "#hash", "back\\slash", "__space__", "$HOME", "1 2 3",
         "-9999", "long " * 12 + "text", "\u00b0C"]
UNITS = ["(K)", "(m/s)", "(ppbv)", "(hPa)", "(%)", "(degrees_north)", "(kg m-2 s-1)", ""]
SIZES = [0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 13, 30]
FORMATS = ["%.10g", "%.10g", "%g", "%s", "%12.5f", "%.3e", "%10.4g", "%.17g", "%+.6g", "%8.2f"]


NUMERIC = ["007", "0", "-999", "1e5", "nan", "12 34", "+1.50", "-9999.999", "1.0.0", "2000 01 02"]


def text(r, lo=1, hi=4, empty=0.0):
    if empty and r.random() < empty:
        return ""
    s = " ".join(r.choice(WORDS) for _ in range(r.randint(lo, hi)))
    s = s.strip()
    if s[-1:] in "}'\"" or s[:1] in "'\"":
        s = "v " + s + " x"
    return s


def name(r, used=None, simple=False):
    for _ in range(50):
        s = ("%s %s" % (text(r, 1, 2) if not simple else r.choice(["temp", "wind", "ozone", "pres", "flux"]) + str(r.randrange(99)), r.choice(UNITS))).strip()
        if used is None or s not in used:
            return s
    return s + " %d" % r.randrange(10 ** 6)


def num(r, miss=None):
    k = r.random()
    if miss is not None and k < 0.06:
        return miss
    if miss and k < 0.075:  # next to it
        return float("%.6g" % (miss * (1 + 8e-6)))
    if k < 0.30:
        return float(r.randint(-999, 9999))
    if k < 0.70:
        return round(r.uniform(-1000, 1000), r.randint(0, 6))
    if k < 0.80:
        return r.uniform(-1, 1) * 10.0 ** r.randint(-20, 20)
    if k < 0.85:
        return 0.0
    if k < 0.90:
        return r.randint(-50, 50)
    return r.random()


def axis(r, n, uniform=None):
    x0 = round(r.uniform(-500, 500), r.randint(0, 3))
    if uniform is None:
        uniform = r.random() < 0.5
    if uniform:
        dx = r.choice([1.0, 0.5, 2.0, 10.0, -1.0, 0.25])
        return [x0 + i * dx for i in range(n)], dx
    out = [x0]
    for _ in range(n - 1):
        out.append(round(out[-1] + r.uniform(0.01, 9), 4))
    return out[:n], 0.0


MISS = [-9999.0, -999.99, 9999.999, -1e20, 1e30, -99, 99999, -9999.0, 99999, 0.0, 1e-7]


def header(r, ffi, nv):
    d = {"FFI": ffi, "NIV": ffi // 1000, "NLHEAD": r.choice([-999, 1, 20, 9999]),
         "ONAME": text(r, empty=0.1), "ORG": text(r, empty=0.1), "SNAME": text(r, empty=0.1), "MNAME": text(r, empty=0.1),
         "DATE": [r.randint(1900, 2030), r.randint(1, 12), r.randint(1, 28)],
         "RDATE": [r.randint(1990, 2030), r.randint(1, 12), r.randint(1, 28)]}
    d["NVOL"] = r.choice([1, 1, 1, 3, 12])
    d["IVOL"] = r.randint(1, d["NVOL"])
    d["NV"] = nv
    used = []
    for _ in range(nv):
        used.append(name(r, used))
    d["VNAME"] = used
    d["VSCAL"] = [r.choice([1.0, 1.0, 1.0, 1, 1, 0.1, 0.1, 100.0, 1e-3, -1.0, -0.5]) for _ in range(nv)]
    d["VMISS"] = [r.choice(MISS) for _ in range(nv)]
    for k, n in (("SCOM", "NSCOML"), ("NCOM", "NNCOML")):
        c = r.choice([0, 0, 1, 2, 5])
        d[n] = c
        d[k] = [text(r, 1, 6, empty=0.15) for _ in range(c)]
    return d


def doc(r, ffi=None, recs=None, nv=None, big=False):
    """A random legal document."""
    ffi = ffi or r.choice(FFIS)
    wide = recs is None and nv is None and not big and r.random() < 0.06
    nv = nv or (r.choice([1, 1, 2, 3, 4]) if not wide else r.choice([1, 9, 11, 13, 24]))
    m = recs if recs is not None else r.choice(SIZES) if not wide else r.choice([1, 2, 3, 5])
    if big and recs is None:
        m = {1001: 2500, 1010: 1500, 1020: 700, 2010: 300, 2110: 300, 2160: 300, 2310: 300, 3010: 60, 4010: 30}[ffi] // r.choice([1, 2, 6])
    d = header(r, ffi, nv)
    vm = d["VMISS"]
    niv = d["NIV"]
    unb, dx = axis(r, max(m, 1))
    unb = unb[:m]
    d["XNAME"] = []
    for _ in range(niv):
        d["XNAME"].append(name(r, d["XNAME"] + d["VNAME"]))
    if niv > 1 and r.random() < 0.06:
        d["XNAME"] = [d["XNAME"][0]] * r.randint(2, niv) + d["XNAME"][1:]
        d["XNAME"] = d["XNAME"][:niv]
    if ffi == 1001:
        d["DX"] = [r.choice([0, 0.0, dx])]
        d["X"] = unb
        d["V"] = [[num(r, vm[n]) for _ in range(m)] for n in range(nv)]
        return d
    na = r.choice([0, 1, 1, 2, 3]) if not wide else r.choice([0, 2, 10, 12])
    if ffi in (2110, 2160):
        na += 1
    elif ffi == 2310:
        na += 3
    nc = r.choice([0, 1, 2]) if ffi == 2160 else 0
    aname = []
    for _ in range(na + nc):
        aname.append(name(r, aname + d["VNAME"] + d["XNAME"]))
    d["NAUXV"] = na + nc
    if na + nc:
        d["ANAME"] = aname
        d["ASCAL"] = [r.choice([1.0, 1.0, 1, 1, 0.1, 0.1, 10.0, -1.0]) for _ in range(na)]
        d["AMISS"] = [r.choice(MISS) for _ in range(na)]
    A = [[num(r, d["AMISS"][k]) for _ in range(m)] for k in range(na)]
    if ffi == 1010:
        d["DX"] = [r.choice([0, dx])]
        d["X"], d["A"] = unb, A
        d["V"] = [[num(r, vm[n]) for _ in range(m)] for n in range(nv)]
    elif ffi == 1020:
        p = d["NVPM"] = r.choice([1, 2, 3, 5])
        d["DX"] = [r.choice([0.5, 1.0, 2.0, 10.0])]
        d["X"], d["A"] = [5.0 + i * p * d["DX"][0] for i in range(m)], A
        d["V"] = [[num(r, vm[n]) for _ in range(m * p)] for n in range(nv)]
    elif ffi in (2010, 3010, 4010):
        nx = [r.choice([1, 2, 3, 4, 5]) for _ in range(niv - 1)]
        if wide:
            nx[r.randrange(niv - 1)] = r.choice([11, 17, 30])
        d["DX"] = [r.choice([0.0, dx])]
        d["NX"], d["NXDEF"], d["X"] = nx, [], [unb]
        for n in nx:
            ax, st = axis(r, n)
            if st == 0.0:
                k = n
            else:
                k = r.choice([n, 1, min(n, 3), min(n, 2)])
            d["DX"].append(st if k < n else r.choice([0.0, st]))
            d["NXDEF"].append(k)
            d["X"].append(ax[:k])
        d["A"] = A
        d["V"] = [[_arr(r, nx, vm[n]) for _ in range(m)] for n in range(nv)]
    else:
        nxs = [r.choice([0, 1, 2, 3, 4, 6]) if r.random() < 0.7 else r.choice([2, 5]) for _ in range(m)]
        if wide and m:
            nxs[r.randrange(m)] = r.choice([11, 25, 40])
        d["NX"] = nxs
        if m:
            A[0] = [float(x) for x in nxs]
        else:
            A[0] = []
        d["V"] = [[[num(r, vm[n]) for _ in range(nxs[i])] for i in range(m)] for n in range(nv)]
        if ffi == 2310:
            x0 = [round(r.uniform(-50, 50), 2) for _ in range(m)]
            A[1] = list(x0)
            A[2] = [r.choice([0.5, 1.0, -2.0]) for _ in range(m)]
            d["X"] = [[unb[i], [x0[i]]] for i in range(m)]
            d["DX"] = [r.choice([0.0, dx])] + list(A[2])
        else:
            second = [axis(r, max(k, 1))[0][:k] for k in nxs]
            if ffi == 2160:
                strs = [(text(r, 1, 3) if r.random() < 0.8 else r.choice(NUMERIC)) + " %d" % i for i in range(m)]
                strs = [s.rstrip(" ,") for s in strs]
                d["X"] = [[strs[i], second[i]] for i in range(m)]
                d["LENX"] = float(max([len(s) for s in strs] + [8]))
                d["DX"] = [r.choice([0.0, 1.0])]
                for _ in range(nc):
                    A.append([text(r, 1, 3) + " q" if r.random() < 0.8 else r.choice(NUMERIC) for _ in range(m)])
                d["NAUXC"] = nc
                d["LENA"] = [None] * na + [40] * nc
                d["AMISS"] = d["AMISS"] + [r.choice(["zzzz", "missing value", "***"]) for _ in range(nc)]
            else:
                d["X"] = [[unb[i], second[i]] for i in range(m)]
                d["DX"] = [r.choice([0.0, dx]), 0.0]
        d["A"] = A
    return d


def _arr(r, shape, miss):
    if len(shape) == 1:
        return [num(r, miss) for _ in range(shape[0])]
    return [_arr(r, shape[1:], miss) for _ in range(shape[0])]


def drop_records(d, keep):
    """The same document with only the first `keep` records (for shrinking)."""
    e = dict(d)
    ffi = d["FFI"]
    if ffi in (2010, 3010, 4010):
        e["X"] = [d["X"][0][:keep]] + d["X"][1:]
    else:
        e["X"] = d["X"][:keep]
    p = d["NVPM"] if ffi == 1020 else 1
    e["V"] = [v[:keep * p] for v in d["V"]]
    if "A" in d:
        e["A"] = [a[:keep] for a in d["A"]]
    if ffi in (2110, 2160, 2310):
        e["NX"] = d["NX"][:keep]
    if ffi == 2310:
        e["DX"] = d["DX"][:1 + keep]
    return e


def nrecs(d):
    return len(d["X"][0]) if d["FFI"] in (2010, 3010, 4010) else len(d["X"])


def simpler(d):
    """Smaller documents to try when shrinking, most aggressive first."""
    n = nrecs(d)
    for k in sorted({0, 1, 2, n // 2, n - 1}):
        if 0 <= k < n:
            yield drop_records(d, k)
    for k, c in (("SCOM", "NSCOML"), ("NCOM", "NNCOML")):
        if d.get(c):
            yield dict(d, **{k: [], c: 0})
    if d["NV"] > 1:
        for i in range(d["NV"]):
            e = dict(d, NV=d["NV"] - 1)
            for k in ("V", "VNAME", "VSCAL", "VMISS"):
                e[k] = d[k][:i] + d[k][i + 1:]
            yield e
    plain = {"ONAME": "a", "ORG": "b", "SNAME": "c", "MNAME": "d"}
    if any(d[k] != v for k, v in plain.items()):
        yield dict(d, **plain)
    nm = ["v%d" % i for i in range(d["NV"])]
    if d["VNAME"] != nm:
        yield dict(d, VNAME=nm)
    nm = ["x%d" % i for i in range(d["NIV"])]
    if d["XNAME"] != nm:
        yield dict(d, XNAME=nm)
    if d.get("ANAME"):
        nm = ["a%d" % i for i in range(len(d["ANAME"]))]
        if d["ANAME"] != nm:
            yield dict(d, ANAME=nm)
