"""C13: output depends only on the inputs, the options and the clock."""
import random
import re

from model import gen, ncgen, refna
from props.common import *
from props import common, jobs

ID = "C13"
LEVEL = "exploration"
QUICK = 1800
THOROUGH = 50000
RULE = ("One run = one to three seeded operations (reads, writes and conversions through functions and scripts) executed twice: as a reference, and in an execution that differs in a seeded selection of "
        "what must not matter: hash seed and locale (a second interpreter), block sizes, short transfers and interrupted calls, temporary names, working directory, environment variables, operations "
        "before, order, repetition, separate processes, and - where the time stamps are compared apart - clock, clock jumps and time zone. Results, exceptions, text files byte by byte and NetCDF "
        "content are compared. Non-trivial: an operation succeeded in both.")
VARY = ["hash", "io", "cwd", "env", "prior", "order", "repeat", "processes", "clock"]
MUST = ["varied: " + v for v in VARY] + ["kind: " + k for k in jobs.ALL] + ["time stamp differed", "time zone differed", "same exception", "NetCDF compared", "text compared", "result compared"]
LOCALES = ["C.UTF-8", "C", "POSIX"]
TZS = ["UTC", "JST-9", "EST5EDT", "NPT-5:45"]
STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d( - Converted to )")
ENVS = [{"LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8"}, {"LC_NUMERIC": "fr_FR.UTF-8"}, {"HOME": "/nonexistent"}, {"HOME": None, "USER": None}, {"COLUMNS": "20", "LINES": "5"},
        {"TMPDIR": "/nonexistent"}, {"PYTHONIOENCODING": "latin-1"}, {"PYTHONUTF8": "0"},
        {"USER": "camp", "LOGNAME": "camp", "HOSTNAME": "ship", "EDITOR": "false", "TZDIR": "/nonexistent"}, {"DEBUG": "1", "VERBOSE": "1"}, {"PATH": ""}]


def generate(r, ctx):
    n = r.choice([1, 1, 2, 2, 3])
    js = [jobs.make(r, i, big=r.random() < 0.04, odd=True, ask="all", dirs=True) for i in range(n)]
    for j in js:
        na = [f for f in j["files"] if f.endswith(".na")]
        if na and r.random() < 0.15:
            t = j["files"][na[0]]
            j["files"][na[0]] = r.choice([t[:r.randrange(len(t))], t.replace("\n", "\n\n", 1), t.replace(" ", " x", 1)])
        elif r.random() < 0.1:
            jobs.misask(r, j)
    vary = r.sample(VARY, r.choice([1, 1, 2, 3, 4]))
    if n == 1 and vary == ["order"]:
        vary = ["hash"]
    s = {"jobs": js, "vary": vary, "prog": base_prog(r)}
    s["prog"]["noise"] = None
    s["prog"]["clock"][1] = 0
    s["with"] = {"hash": [r.choice([1, 2]), r.choice(LOCALES[:2]) if r.random() < 0.5 else "C.UTF-8"], "blk": r.choice([16, 64, 512, 4096]), "seed": r.randrange(2 ** 31),
                 "noise": [r.randrange(1, 2 ** 40), r.choice([10, 40, 80]), r.choice([0, 5, 20])],
                 "cwd": r.choice(["w.d/deep", "w.d"]), "env": r.choice(ENVS), "reps": r.choice([2, 2, 3]),
                 "clock": [r.randint(0, 4_000_000_000) * 10 ** 9 + r.randrange(10 ** 9), r.choice([0, 10 ** 6, 10 ** 9])], "tz": r.choice(TZS),
                 "jumps": [[r.randrange(0, 6), r.choice([-1, 1]) * r.choice([1, 86400, 10 ** 8]) * 10 ** 9]] if r.random() < 0.4 else []}
    s["prior"] = [jobs.make(r, 7 + k, odd=True, ask="all", dirs=True) for k in range(r.choice([1, 2]))] if "prior" in vary else []
    return s


def moved(x, pre):
    """The same operation with every file name given from another directory."""
    if isinstance(x, dict):
        return {k: moved(v, pre) for k, v in x.items()}
    if isinstance(x, list):
        return [moved(v, pre) for v in x]
    return pre + x if isinstance(x, str) and re.match(r"(e\d\.d/|nowhere/)?j\d+[._]", x) else x


def unmoved(x, pre):
    if isinstance(x, dict):
        return {k: unmoved(v, pre) for k, v in x.items()}
    if isinstance(x, list):
        return [unmoved(v, pre) for v in x]
    return x.replace(pre, "") if isinstance(x, str) and pre else x


def execute(s, ctx, vary):
    """{job number: (ok, result or exception, files)}"""
    w = s["with"]
    js = list(enumerate(s["jobs"]))
    docs, dss, files = jobs.collect(s["jobs"] + s["prior"])
    files = dict(files)
    files["w.d/deep/keep"] = "x"
    ctx.fresh(files)
    p = dict(s["prog"], docs=docs, datasets=dss)
    pre = ""
    head = [{"do": "import"}]
    if "env" in vary:
        head.insert(0, {"do": "env", "set": w["env"]})
    if "cwd" in vary:
        head.append({"do": "chdir", "to": w["cwd"]})
        pre = "../" * (w["cwd"].count("/") + 1)
    if "io" in vary:
        p.update(blk=w["blk"], seed=w["seed"])
        if all(j["kind"] in jobs.NA for j in s["jobs"] + s["prior"]):
            p["noise"] = w["noise"]
    if "clock" in vary:
        p.update(clock=w["clock"], jumps=w["jumps"], tz=w["tz"])
    if "order" in vary:
        js.reverse()
    if "prior" in vary:
        head += [moved(j["op"], pre) for j in s["prior"]]
    reps = w["reps"] if "repeat" in vary else 1
    groups = [[x] for x in js] if "processes" in vary else [js]
    out = {}
    for g in groups:
        ops, at = list(head), {}
        for k, j in g:
            for _ in range(reps):
                ops.append(moved(j["op"], pre))
            at[k] = len(ops) - 1
        o = ctx.life(dict(p, ops=ops), twin=tuple(w["hash"]) if "hash" in vary else None)
        for k, j in g:
            rec = o.rec(at[k])
            if rec is None:
                out[k] = [False, "process ended: %s" % (hang_of(o) or o.status)]
            elif rec.get("ok"):
                out[k] = [True, rec.get("ret")]
            else:
                out[k] = [False, rec["exc"]]
            out[k][1] = unmoved(out[k][1], pre)
    for k, j in js:
        out[k].append(jobs.outputs(ctx, j))
    return out


def unstamp(x):
    if isinstance(x, dict):
        return {k: unstamp(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unstamp(v) for v in x]
    return STAMP.sub(r"<time>\1", x) if isinstance(x, str) else x


def masked(job, res):
    """A result without the time stamps the documentation promises."""
    if job["kind"] in jobs.NA:
        return res
    res = [res[0], unstamp(res[1]), unstamp(res[2])]
    op = job["op"]
    opts = repr(op)
    if job["kind"] in ("nc2na", "nc2csv", "xr2na", "names", "script-nc2na") and "no_header" not in opts and "--no-header" not in opts and "RDATE" not in opts:
        fs = {}
        for f, x in res[2].items():
            if isinstance(x, str):
                ls = x.split("\n")
                if len(ls) > 6:
                    ls[6] = re.sub(r"\d+(\D+)\d+(\D+)\d+(\s*)$", r"<y>\1<m>\2<d>\3", ls[6])
                x = "\n".join(ls)
            fs[f] = x
        res[2] = fs
    return res


def run(s, ctx):
    a = execute(s, ctx, [])
    b = execute(s, ctx, s["vary"])
    for k, j in enumerate(s["jobs"]):
        x, y = a[k], b[k]
        if "clock" in s["vary"]:
            ctx.probe("time stamp differed", x[2] != y[2] or x[1] != y[1])
            ctx.probe("time zone differed", s["with"]["tz"] != "UTC")
            x, y = masked(j, x), masked(j, y)
        ctx.probe("kind: " + j["kind"])
        what = "%s, varying %s" % (j["kind"], "+".join(s["vary"]))
        if x[0] != y[0]:
            return [("outcome", "%s: %s instead of %s" % (what, y[:2], x[:2]))]
        if not jobs.same(x[1], y[1]):
            return [("result", "%s: %s" % (what, jobs.diff(x[1], y[1])))]
        if sorted(x[2]) != sorted(y[2]):
            return [("files", "%s: files %s instead of %s" % (what, sorted(y[2]), sorted(x[2])))]
        for f in x[2]:
            if not jobs.same(x[2][f], y[2][f]):
                return [("content", "%s: %s %s" % (what, f, jobs.diff(x[2][f], y[2][f])))]
            ctx.probe("NetCDF compared" if f.endswith(".nc") else "text compared")
        ctx.probe("result compared", x[0] and x[1] is not None)
        ctx.probe("same exception", not x[0])
        if x[0]:
            ctx.nontrivial = True
    for v in s["vary"]:
        ctx.probe("varied: " + v)
    return []


def shrink(s):
    for v in s["vary"]:
        if len(s["vary"]) > 1:
            yield dict(s, vary=[x for x in s["vary"] if x != v])
    if s["prior"] and "prior" not in s["vary"]:
        yield dict(s, prior=[])
    if len(s["prior"]) > 1:
        for i in range(len(s["prior"])):
            yield dict(s, prior=s["prior"][:i] + s["prior"][i + 1:])
    for i in range(len(s["jobs"])):
        if len(s["jobs"]) > 1:
            yield dict(s, jobs=s["jobs"][:i] + s["jobs"][i + 1:])
    for i, j in enumerate(s["jobs"]):
        for e in jobs.simpler(j):
            yield dict(s, jobs=s["jobs"][:i] + [e] + s["jobs"][i + 1:])
    if s["prog"].get("blk"):
        yield dict(s, prog=dict(s["prog"], blk=0))


def describe(s, ctx):
    return {"jobs": [jobs.brief(j) for j in s["jobs"]], "vary": s["vary"], "with": {k: v for k, v in s["with"].items() if k in s["vary"] or "clock" in s["vary"] and k in ("tz", "jumps")},
            "before": [jobs.brief(j)["kind"] for j in s["prior"]]}
