"""Shared scenario pieces and oracles."""
import errno
import random

from model import gen, refna

E = errno
WRITE_ERRNOS = [E.ENOSPC, E.EIO, E.EDQUOT, E.EFBIG]
OPEN_ERRNOS = [E.EACCES, E.EMFILE, E.ENOSPC, E.EROFS, E.EIO]
READ_ERRNOS = [E.EIO, E.EISDIR, E.ESTALE]

REAL = ["nappy (all modules under test, from /repo)", "CPython text I/O layer", "configparser",
        "numpy/xarray/netCDF4/HDF5 where conversions are exercised", "the scratch file system (tmpfs) below the libc seam"]
STUB = ["wall clock (simulated)", "stdin (scripted)", "temporary-name source (seeded)", "libc file calls (intercepted: faults, short transfers, crashes)",
        "time zone"]
ASSUME = ["process death keeps what write(2) accepted (page cache survives); power loss is not simulated, nappy never syncs",
          "faults are those of the libc file interface; third-party libraries are trusted to report them upwards"]


def pick_noise(r):
    return r.choice([None, None, [r.randrange(1, 2 ** 40), r.choice([10, 40, 80]), r.choice([0, 5, 20])]])


def pick_blk(r):
    return r.choice([0, 0, 16, 64, 512, 4096])


def base_prog(r, **kw):
    p = {"seed": r.randrange(2 ** 31), "blk": pick_blk(r), "noise": pick_noise(r),
         "clock": [r.randint(0, 4_000_000_000) * 1_000_000_000 + r.randrange(10 ** 9), r.choice([0, 1000, 10 ** 6, 10 ** 9])]}
    p.update(kw)
    return p


def write_kw(r, header_only_ws=False):
    kw = {}
    if r.random() < 0.5:
        kw["float_format"] = r.choice(gen.FORMATS)
    ann = (not header_only_ws) and r.random() < 0.25
    if ann:
        kw["annotation"] = True
        if r.random() < 0.7:
            kw["delimiter"] = r.choice(["    ", ",", "\t"])
    elif r.random() < 0.5:
        kw["delimiter"] = r.choice(["    ", " ", "\t", "  "] if header_only_ws else ["    ", " ", "\t", ",", ", ", ";"])
    if not header_only_ws and r.random() < 0.12:
        kw["no_header"] = True
    return kw


def fmt_of(kw):
    return kw.get("float_format", "%.10g")


def rereadable(kw):
    return not kw.get("annotation") and not kw.get("no_header") and kw.get("delimiter", "    ").strip() == ""


def parse_written(text, kw, schema):
    ann = kw.get("delimiter", "    ") if kw.get("annotation") else None
    delim = kw.get("delimiter")
    if kw.get("no_header"):
        return refna.parse_nohead(text, schema, ann, delim)
    return refna.parse(text, ann, delim=delim)


def check_written(text, doc, kw):
    """None if `text` is exactly `doc` written with options `kw`, else what is wrong."""
    exp = refna.canon(doc, fmt_of(kw))
    try:
        got = parse_written(text, kw, exp)
    except refna.Malformed as e:
        return "not a complete NASA Ames file: %s" % e
    if kw.get("no_header"):
        exp = {k: exp[k] for k in got}
    d = refna.diff(exp, got)
    return "; ".join(d) if d else None


def read_matches(ret, doc, fmt):
    """None if what a read returned is `doc` (as written with `fmt`; None = exactly)."""
    d = refna.diff(refna.canon(doc, fmt), canon_read(ret))
    return "; ".join(d) if d else None


def canon_read(ret):
    try:
        return refna.canon(ret)
    except Exception as e:
        return {"unusable result": "%s: %s" % (type(e).__name__, e), "keys": sorted(ret) if isinstance(ret, dict) else repr(ret)[:100]}


def excs(rec):
    return "%s: %s" % tuple(rec["exc"]) if rec and rec.get("exc") else "?"


def hang_of(o):
    if o.status == "hang":
        return "CPU limit"
    for r in o.recs:
        if r.get("hang"):
            return r["exc"][1]
    return None


def shrink_docs(s, key="docs"):
    """Scenario variants with one document made smaller."""
    for k, d in s.get(key, {}).items():
        for e in gen.simpler(d):
            yield dict(s, **{key: dict(s[key], **{k: e})})


def brief_doc(d):
    return "FFI %s NV=%d records=%d" % (d["FFI"], d["NV"], gen.nrecs(d))


def brief_op(op):
    return {k: (v if k != "text" else "...") for k, v in op.items()}
