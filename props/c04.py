"""C04: I/O failures are reported, never silently lost."""
import random

from model import gen, refna
from props.common import *
from props import common, jobs
from sim import shim

ID = "C04"
LEVEL = "exploration"
QUICK = 1500
THOROUGH = 60000
RULE = ("One run = a fault-free reference life of a seeded program of one to three operations (write, read, CSV, NetCDF and xarray conversions, command line tools, "
        "incl. the first conversion, which reads configuration), then the same program with one or two seeded I/O faults in one operation (any errno on an open, read, "
        "write or close, a torn write, a disk that stays dead or full, a disk capacity), then the failed operation repeated in the same process without the fault. "
        "Non-trivial: a failing call was injected.")
MUST = ["failure raised", "repeated after the fault", "fault while a NetCDF file is written", "fault in configuration", "fault at close", "several files written"]
OLD = "a line of an older file\n"
NCW = ("na2nc", "script-na2nc")


def generate(r, ctx):
    ks = jobs.ALL if r.random() < 0.5 else ["na2nc"] if r.random() < 0.2 else ["write", "read", "csv", "nc2na", "xr2na", "write"]
    js = [jobs.make(r, i, ks, big=r.random() < 0.08, odd=True, ask=True, dirs=True) for i in range(r.choice([1, 1, 1, 2, 3]))]
    s = {"jobs": js, "prog": base_prog(r), "warm": True, "cfg": r.random() < 0.15}
    s["prog"]["clock"][1] = 0
    s["prog"]["noise"] = None
    if s["cfg"]:
        js = s["jobs"] = [jobs.make(r, 0, ["nc2na", "xr2na", "write", "nc2csv", "names"])]
        if js[0]["kind"] == "write":
            js[0]["op"]["kw"]["annotation"] = True
    s["faults"] = []
    if r.random() < 0.15:
        s["old"] = r.choice([1, 400])
    o = life(s, ctx, [], plan=True)
    t = r.randrange(len(js))
    rec = o.rec(base(s) + t)
    s["target"] = t
    if rec and rec["hi"] > rec["lo"] and rec.get("ok"):
        ev = o.events[rec["lo"]:rec["hi"]]
        s["faults"] = pick(r, ev, base(s) + t, o.names)
        cf = [i for i, e in enumerate(ev) if o.names[e[1]].startswith("<config>")]
        if cf and r.random() < 0.8:
            i = r.choice(cf)
            s["faults"] = [{"op": base(s) + t, "at": i, "action": "err", "arg": r.choice([E.EIO, E.EMFILE, E.EACCES, E.ENOENT])}]
    return s


def base(s):
    return 1 if s["warm"] else 0


def pick(r, ev, op, names):
    """One or two I/O faults inside an operation whose fault-free events are known."""
    k = r.random()
    wr = sum(e[3] for e in ev if shim.KINDS.get(e[0]) == "write" and e[3] > 0)
    if k < 0.12 and wr:
        return [{"op": op, "capacity": r.choice([0, wr - 1, r.randrange(wr), r.randrange(min(wr, 200))])}]
    out = []
    for _ in range(2 if r.random() < 0.15 else 1):
        # half of the faults aim at rarer kinds of calls
        kinds = sorted({e[0] for e in ev})
        if r.random() < 0.5:
            kk = r.choice(kinds)
            idx = r.choice([i for i, e in enumerate(ev) if e[0] == kk])
        else:
            idx = r.randrange(len(ev))
        name = shim.KINDS.get(ev[idx][0])
        q = r.random()
        if name == "write":
            f = {"action": r.choice(["err", "sticky", "tornerr"]), "arg": r.choice(WRITE_ERRNOS)}
        elif name in ("open-w", "mkdir", "trunc", "rename", "unlink"):
            f = {"action": "err" if q < 0.8 else "sticky", "arg": r.choice(OPEN_ERRNOS)}
        elif name == "open-r":
            f = {"action": "err", "arg": r.choice([E.EACCES, E.EMFILE, E.EIO, E.ENFILE])}
        elif name == "read":
            f = {"action": "err", "arg": r.choice(READ_ERRNOS)}
        else:
            f = {"action": "err", "arg": r.choice([E.EIO, E.ENOSPC, E.EDQUOT])}
        f.update(op=op, at=idx)
        out.append(f)
    return out


def life(s, ctx, faults, plan=False, ops=None):
    docs, dss, files = jobs.collect(s["jobs"])
    if ops is None:
        ctx.fresh(files)
        ops = ([{"do": "import"}] if s["warm"] else []) + [j["op"] for j in s["jobs"]]
    return ctx.life(dict(s["prog"], docs=docs, datasets=dss, ops=ops, faults=faults, config_faults=s["cfg"]), plan)


def run(s, ctx):
    # the reference: the same program without the fault
    o = life(s, ctx, [])
    ref = []
    for i, j in enumerate(s["jobs"]):
        rec = o.rec(base(s) + i)
        if not rec or not rec.get("ok"):
            return []      # not an operation that works without faults: not this property's concern
        ref.append((rec.get("ret"), jobs.outputs(ctx, j)))
    if not s["faults"]:
        return []
    t, b = s["target"], base(s)
    docs, dss, files = jobs.collect(s["jobs"])
    ops = ([{"do": "import"}] if s["warm"] else []) + [j["op"] for j in s["jobs"]]
    n = len(ops)
    j = s["jobs"][t]
    fresh_retry = j["kind"] in NCW
    if not fresh_retry:
        ops = ops + [j["op"]]
    # what is on disk before the retry has to be looked at first: the target is last but for the retry
    v = []
    first = ops[:n]
    ctx.fresh(dict(files, **{f: OLD * s["old"] for f in ref[t][1] if not f.endswith((".nc", "/")) and f not in files} if s.get("old") else files))
    o = ctx.life(dict(s["prog"], docs=docs, datasets=dss, ops=first, faults=s["faults"], config_faults=s["cfg"]))
    if hang_of(o):
        return [("hang", "%s did not finish after %s" % (jobs.brief(j), s["faults"]))]
    died = o.status.startswith("signal")
    hit = hits(o, b + t)
    if hit:
        ctx.nontrivial = True
        if any(k == "close" for k, _, _ in hit):
            ctx.probe("fault at close")
        if any(f.startswith("<config>") for _, f, _ in hit):
            ctx.probe("fault in configuration")
        if j["kind"] in NCW:
            ctx.probe("fault while a NetCDF file is written")
        if len(ref[t][1]) > 1:
            ctx.probe("several files written")
    rec = o.rec(b + t)
    if rec is None:
        if not died:
            return [("died", "%s ended the process with %s after %s" % (jobs.brief(j), o.status, s["faults"]))]
        ctx.probe("process died in the NetCDF library")
    elif rec.get("ok"):
        e = compare(ref[t], rec, jobs.outputs(ctx, j))
        if e:
            v.append(("silent", "%s reported success although %s failed: %s" % (jobs.brief(j), show(hit), e)))
        must = [h for h in hit if h[0] in ("write", "close", "trunc", "sync", "open-w") and h[1].startswith(j["pre"]) and not h[1].endswith(".nc") and h[2] == "out"]
        if must:
            v.append(("unreported", "%s reported success although %s failed" % (jobs.brief(j), show(must))))
        rd = [h for h in hit if h[0] in ("read", "open-r") and not h[1].endswith(".nc") and h[1].startswith(j["pre"])]
        if rd:
            v.append(("unreported", "%s reported success although %s failed" % (jobs.brief(j), show(rd))))
        ctx.probe("success in spite of the fault")
    else:
        ctx.probe("failure raised")
        if rec["exc"][0] == "SystemExit" and rec["exc"][1] in ("0", "None", ""):
            v.append(("unreported", "%s ended with exit status 0 after %s" % (jobs.brief(j), show(hit))))
        if not hit:
            v.append(("refused", "%s failed although no call failed: %s" % (jobs.brief(j), excs(rec))))
    # the others are untouched
    for i, k in enumerate(s["jobs"]):
        q = o.rec(b + i)
        if i == t or q is None:
            continue
        if not q.get("ok"):
            v.append(("others", "%s, which met no fault, failed: %s (fault %s in %s)" % (jobs.brief(k), excs(q), show(hit), jobs.brief(j))))
        else:
            e = compare(ref[i], q, jobs.outputs(ctx, k))
            if e:
                v.append(("others", "%s, which met no fault, differs: %s (fault %s in %s)" % (jobs.brief(k), e, show(hit), jobs.brief(j))))
    if v or rec is None or rec.get("ok"):
        return v
    # repeat in the same process (for NetCDF output: in a new one)
    if fresh_retry:
        o2 = life(s, ctx, [], ops=[j["op"]])
        rec = o2.rec(0)
    else:
        ctx.fresh(files)
        o2 = ctx.life(dict(s["prog"], docs=docs, datasets=dss, ops=ops, faults=s["faults"], config_faults=s["cfg"]))
        rec = o2.rec(n)
    if rec is None or not rec.get("ok"):
        return [("repeat", "after %s in %s, repeating it gives %s" % (show(hit), jobs.brief(j), excs(rec) if rec else o2.status))]
    ctx.probe("repeated after the fault")
    e = compare(ref[t], rec, jobs.outputs(ctx, j))
    if e:
        v.append(("repeat", "after %s in %s, repeating it gives something else: %s" % (show(hit), jobs.brief(j), e)))
    return v


def hits(o, i):
    """(call, file, out|in) of every call of operation i that was made to fail."""
    rec = o.rec(i)
    lo = rec["lo"] if rec else 0
    hi = rec["hi"] if rec else len(o.events)
    out = []
    wr = set()
    for n, e in enumerate(o.events):
        if shim.KINDS.get(e[0]) == "open-w":
            wr.add(e[1])
        if lo <= n < hi and e[4] and e[3] < 0:
            name = o.names[e[1]] if 0 <= e[1] < len(o.names) else "?"
            out.append((shim.KINDS.get(e[0]), name, "out" if e[1] in wr else "in"))
    return out


def show(hit):
    return ", ".join("%s of %s" % (a, b) for a, b, _ in hit[:4]) or "nothing"


def compare(ref, rec, out):
    ret, files = ref
    if repr(ret) != repr(rec.get("ret")):
        return "result " + jobs.diff(ret, rec.get("ret"))
    if repr(files) != repr(out):
        return "output " + jobs.diff(files, out)
    return None


def shrink(s):
    if len(s["jobs"]) > 1:
        for i in range(len(s["jobs"])):
            if i != s["target"]:
                js = s["jobs"][:i] + s["jobs"][i + 1:]
                t = s["target"] - (i < s["target"])
                yield dict(s, jobs=js, target=t, faults=[dict(f, op=(1 if s["warm"] else 0) + t) for f in s["faults"]])
    if len(s["faults"]) > 1:
        for i in range(len(s["faults"])):
            yield dict(s, faults=s["faults"][:i] + s["faults"][i + 1:])
    if s["prog"].get("blk"):
        yield dict(s, prog=dict(s["prog"], blk=0))
    for i, f in enumerate(s["faults"]):
        if f.get("at"):
            for a in (f["at"] // 2, f["at"] - 1):
                yield dict(s, faults=s["faults"][:i] + [dict(f, at=a)] + s["faults"][i + 1:])
    for i, j in enumerate(s["jobs"]):
        for k in jobs.simpler(j):
            yield dict(s, jobs=s["jobs"][:i] + [k] + s["jobs"][i + 1:])


def describe(s, ctx):
    return {"jobs": [jobs.brief(j) for j in s["jobs"]], "faults": s["faults"], "target": s["target"], "configuration": s["cfg"],
            "blk": s["prog"].get("blk")}
