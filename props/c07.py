"""C07: operations running in parallel on different files do not affect each other."""
import random
import re

from props.common import *
from props import common, jobs
from props.c06 import norm

ID = "C07"
LEVEL = "exploration"
QUICK = 650
THOROUGH = 50000
RULE = ("One run = two to four tasks, each a real thread with one to three operations (write, read, sessions, CSV/NetCDF/xarray conversions, tools) on files and objects of its "
        "own, interleaved by a seeded schedule of preemptions at executed lines (in part of the runs: bytecode instructions) of nappy code, including the first use of the "
        "configuration; sometimes one task is killed by an exception at a seeded point. Each operation's outcome, return value and output is compared with the same operation "
        "alone in a fresh process. Non-trivial: at least one switch happened inside an operation.")
MUST = ["first use raced", "same kind of operation in several tasks", "instruction-level switches", "a task killed", "conversions in parallel"]
MODS = ["nappy", "nappy.script.na2nc", "nappy.script.nc2na", "nappy.script.nc2csv"]
NCK = set(jobs.NC)


def generate(r, ctx):
    nt = r.choice([2, 2, 2, 3, 4])
    k = r.random()
    if k < 0.35:
        ks = [[r.choice(jobs.ALL)]] * nt
    elif k < 0.5:
        ks = [r.choice([["nc2na", "xr2na", "nc2csv", "names"], ["na2nc", "readxr", "getvar"], ["write", "writenoffi", "read"], ["csv", "read", "ffi"]])] * nt
    else:
        ks = [jobs.ALL] * nt
    tasks = []
    n = 0
    for t in range(nt):
        js = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            j = jobs.make(r, n, ks[t], odd=True, dirs=True)
            if r.random() < 0.08:
                jobs.misask(r, j)
            if j["kind"] == "write" and r.random() < 0.4:
                j["session"] = True
            js.append(j)
            n += 1
        tasks.append(js)
    if r.random() < 0.25:
        # all of them annotate, each with a delimiter of its own
        for j in (j for js in tasks for j in js):
            kw = j["op"].get("kw")
            if j["kind"] in ("write", "csv", "nc2na", "nc2csv", "xr2na") and kw is not None:
                kw["annotation"] = True
                kw.pop("no_header", None)
                if j["kind"] in ("write", "nc2na") and "delimiter" not in kw and r.random() < 0.5:
                    kw["delimiter"] = r.choice([",", "\t", "    "])
    s = {"tasks": tasks, "prog": base_prog(r), "warm": None, "switches": [], "kills": [], "first": r.randrange(nt), "fine": r.random() < 0.2}
    if r.random() < 0.3:
        s["warm"] = jobs.make(r, n, r.choice([["write"], ["nc2na"], ["na2nc"], ["xr2na"]]), dirs=True)
    s["prog"]["clock"][1] = 0
    s["prog"]["noise"] = None
    s["prog"]["locs"] = 1
    o = life(s, ctx, plan=True)
    s["prog"].pop("locs")
    st = (o.final or {}).get("sched")
    if not st:
        return s
    sw = set()
    k = r.random()
    for t in range(nt):
        N, locs = st["steps"][t], st["locs"][t]
        if not N:
            continue
        if k < 0.45:        # a few preemptions, at distinct places
            at = r.sample(locs, min(len(locs), r.choice([1, 2, 4, 8])))
        elif k < 0.7:       # a few preemptions, at any instant
            at = [r.randrange(N) for _ in range(r.choice([1, 3, 6]))]
        elif k < 0.9:       # many
            p = r.choice([0.02, 0.1, 0.3])
            at = [i for i in range(min(N, 4000)) if r.random() < p]
        else:               # dense around one place
            c = r.choice(locs)
            at = list(range(max(0, c - 15), min(N, c + 25)))
        sw |= {(t, a) for a in at}
    s["switches"] = [[t, a, r.randrange(nt)] for t, a in sorted(sw)]
    if r.random() < 0.12:
        t = r.randrange(nt)
        if st["steps"][t]:
            s["kills"] = [[t, r.choice(st["locs"][t]) if r.random() < 0.5 else r.randrange(st["steps"][t]), r.choice(["KeyboardInterrupt", "MemoryError"])]]
    return s


def ops_of(js):
    out, at = [], []
    for j in js:
        if j.get("session"):
            f = j["op"]["file"]
            out += [{"do": "open", "as": "s" + j["pre"], "file": f, "mode": "w", "doc": j["op"]["doc"]},
                    {"do": "call", "obj": "s" + j["pre"], "meth": "write", "kw": j["op"]["kw"]}, {"do": "call", "obj": "s" + j["pre"], "meth": "close"}]
            at.append((len(out) - 3, len(out)))
        else:
            out.append(j["op"])
            at.append((len(out) - 1, len(out)))
    return out, at


def life(s, ctx, plan=False):
    js = [j for t in s["tasks"] for j in t] + ([s["warm"]] if s["warm"] else [])
    docs, dss, files = jobs.collect(js)
    ctx.fresh(files)
    th = {"ops": [ops_of(t)[0] for t in s["tasks"]], "switches": s["switches"], "kills": s["kills"], "first": s["first"], "fine": s["fine"],
          "before": [{"do": "import", "mods": MODS}] + ([s["warm"]["op"]] if s["warm"] else [])}
    return ctx.life(dict(s["prog"], docs=docs, datasets=dss, threads=th), plan)


def run(s, ctx):
    ref = {}
    for j in [j for t in s["tasks"] for j in t]:
        ctx.fresh(j["files"])
        ops, at = ops_of([j])
        o = ctx.life(dict(s["prog"], docs=j["docs"], datasets=j["datasets"], ops=[{"do": "import", "mods": MODS}] + ops, faults=[]))
        if o.status != "exit":
            return []
        ref[j["pre"]] = (o.recs[1:], jobs.outputs(ctx, j))
    o = life(s, ctx)
    if hang_of(o):
        return [("hang", "an operation did not finish: %s" % hang_of(o))]
    if o.status != "exit":
        return [("died", "the process ended with %s" % o.status)]
    st = o.final["sched"]
    if st["switches"]:
        ctx.nontrivial = True
        if not s["warm"]:
            ctx.probe("first use raced")
        if s["fine"]:
            ctx.probe("instruction-level switches")
        if len({t[0]["kind"] for t in s["tasks"]}) < len(s["tasks"]):
            ctx.probe("same kind of operation in several tasks")
        if sum(any(j["kind"] in NCK for j in t) for t in s["tasks"]) > 1:
            ctx.probe("conversions in parallel")
    ctx.faults["thread-switch"] += st["switches"]
    ctx.faults["exception-in-task"] += len(st["killed"])
    if st["killed"]:
        ctx.probe("a task killed")
    v = []
    for t, js in enumerate(s["tasks"]):
        ops, at = ops_of(js)
        dead = st["killed"] and s["kills"][0][0] == t
        for j, (a, b) in zip(js, at):
            recs = [o.rec(i, t) for i in range(a, b)]
            rr, rout = ref[j["pre"]]
            what = "task %d, %s" % (t, jobs.brief(j))
            if dead and not all(bool(x.get("ok")) == bool(y.get("ok")) and repr(norm(x.get("exc"))) == repr(norm(y.get("exc"))) for x, y in zip(recs, rr)):
                continue
            bad = None
            for x, y in zip(recs, rr):
                if bool(x.get("ok")) != bool(y.get("ok")) or repr(norm(x.get("exc"))) != repr(norm(y.get("exc"))):
                    bad = ("outcome", "%s: %s; alone: %s" % (what, "done" if x.get("ok") else excs(x), "done" if y.get("ok") else excs(y)))
                elif repr(x.get("ret")) != repr(y.get("ret")):
                    bad = ("result", "%s: differs from when run alone: %s" % (what, jobs.diff(y.get("ret"), x.get("ret"))))
                if bad:
                    break
            if not bad:
                out = jobs.outputs(ctx, j)
                if repr(out) != repr(rout):
                    bad = ("output", "%s: the files differ from when run alone: %s" % (what, jobs.diff(rout, out)))
            if bad and not (dead and bad[0] == "output" and not all(x.get("ok") for x in recs)):
                v.append(bad)
    return v[:4]


def shrink(s):
    if len(s["tasks"]) > 2:
        for i in range(len(s["tasks"])):
            m = {a: a - (a > i) for a in range(len(s["tasks"]))}
            yield dict(s, tasks=s["tasks"][:i] + s["tasks"][i + 1:], switches=[[m[a], n, to] for a, n, to in s["switches"] if a != i],
                       kills=[[m[a], n, e] for a, n, e in s["kills"] if a != i])
    for i, t in enumerate(s["tasks"]):
        if len(t) > 1:
            for k in range(len(t)):
                yield dict(s, tasks=s["tasks"][:i] + [t[:k] + t[k + 1:]] + s["tasks"][i + 1:])
    if s["warm"]:
        yield dict(s, warm=None)
    if s["kills"]:
        yield dict(s, kills=[])
    w = s["switches"]
    n = max(1, len(w) // 2)
    while w and n >= 1:
        for i in range(0, len(w), n):
            yield dict(s, switches=w[:i] + w[i + n:])
        if n == 1 or len(w) > 40 and n <= len(w) // 16:
            break
        n //= 2
    if s["fine"]:
        yield dict(s, fine=False)
    for i, t in enumerate(s["tasks"]):
        for k, j in enumerate(t):
            for q in jobs.simpler(j):
                yield dict(s, tasks=s["tasks"][:i] + [t[:k] + [dict(q)] + t[k + 1:]] + s["tasks"][i + 1:])


def describe(s, ctx):
    return {"tasks": [[jobs.brief(j) for j in t] for t in s["tasks"]], "switches (task, its step, to)": s["switches"][:12] + (["%d more" % (len(s["switches"]) - 12)] if len(s["switches"]) > 12 else []),
            "kills": s["kills"], "instructions": s["fine"], "warm": jobs.brief(s["warm"]) if s["warm"] else None}
