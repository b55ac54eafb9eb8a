"""C14: nothing waits for a user who was not asked for."""
import random
import re

from model import gen, ncgen, refna
from props.common import *
from props import common, jobs, c04, c10

ID = "C14"
LEVEL = "exploration"
QUICK = 4000
THOROUGH = 50000
RULE = ("One run = one to four seeded operations in one process with a seeded script of standard input: operations that must not ask (reads, writes and conversions of every kind, and conversions told the "
        "units or told not to ask) and conversions of files whose time axis has no usable units, answered by the script with good, bad and blank lines, an interrupt, a read error or the end of the "
        "input at any question; plus damaged inputs, storms of one-byte reads and interrupted calls, and I/O faults at seeded calls. The number of questions each operation asks, its outcome, the "
        "units that arrive in the result and its end within a budget of executed lines are compared with what the answers call for. Non-trivial: an operation ended and was compared.")
MUST = ["asked", "not asked", "good answer", "blank answer", "bad answer asked again", "end of input", "interrupt at the question", "read error at the question", "told the units", "told not to ask",
        "question after another", "after end of input", "damaged input", "fault", "one-byte reads", "axis of FFI 1020", "later axis", "answer kept per operation", "asked again by the same converter"]
GOOD = ["days since 1990-01-01 00:00:00", "hours since 2003-4-30", "  seconds since 1970-01-01  ", "days since 2000-1-1 12:30:00", "hours since 1999-12-31 00:00:00", "Days since 1990-01-01"]
BAD = ["seconds", "since yesterday", "hours since noon", "42", "y", "days  since", "1990-01-01", "?", "days since 1990/01/01"]
TIME = ["time (UT)", "time", "Time of day (hours)", "time (seconds from midnight)", "elapsed time (s)", "time (since start)"]
PATTERN = re.compile(r"\w+\s+since\s+\d{1,4}-\d{1,2}-\d{1,2}(\s+\d+:\d+:\d+)?")
HOW = ["fn", "fn", "script", "class", "readxr", "getvar"]


def asking(r, n):
    """A conversion of a file whose time axis has no usable units."""
    d = jobs.conv_doc(r, timely=False, recs=r.choice([1, 2, 4]), simple=True)
    k = r.randrange(d["NIV"]) if r.random() < 0.3 else 0
    d["XNAME"] = [r.choice(TIME) if i == k else re.sub("[tT]ime", "tick", x) for i, x in enumerate(d["XNAME"])]
    how = r.choice(HOW)
    st = {"ask": True, "how": how, "doc": d, "axis": k, "told": None, "again": r.choice([0, 1, 2])}
    q = r.random()
    if how in ("fn", "script", "class"):
        if q < 0.15:
            st["told"] = ["units", r.choice([x.strip() for x in GOOD])]
        elif q < 0.3:
            st["told"] = ["quiet"]
    return st


def generate(r, ctx):
    steps, stdin, ended = [], [], False
    for i in range(r.choice([1, 1, 2, 3, 4])):
        if r.random() < 0.55:
            st = asking(r, i)
            if not st["told"]:
                st["answers"] = [r.choice(BAD) for _ in range(r.choice([0, 0, 1, 2, 5]))]
                q = r.random()
                if q < 0.55:
                    st["answers"].append(r.choice(GOOD))
                elif q < 0.72:
                    st["answers"].append(r.choice(["", "", "   "]))
                elif q < 0.8:
                    st["answers"].append({"raise": r.choice(["KeyboardInterrupt", "EIO"])})
                else:
                    ended = True
                if len(stdin) < 40:
                    stdin += st["answers"]
            steps.append(st)
            if ended:
                if r.random() < 0.5:
                    steps.append(asking(r, i))
                break
        else:
            steps.append({"ask": False, "job": jobs.make(r, i, big=r.random() < 0.03, odd=True, dirs=True)})
            if r.random() < 0.2:
                jobs.misask(r, steps[-1]["job"])
    if not ended and r.random() < 0.5:
        stdin += r.choice([["y"], ["days since 1990-01-01", "", "x"], [""]])
    s = {"steps": steps, "stdin": stdin, "prog": base_prog(r), "faults": [], "damage": None}
    s["prog"]["noise"] = None
    last = steps[-1]
    q = r.random()
    if q < 0.15 and (last["ask"] or any(f.endswith(".na") for f in last["job"]["files"])):
        s["damage"] = [r.choice(["cut", "cut", "dup", "number", "bytes"]), r.random(), r.choice(["", "x", "-1", "99999", "1e9", "0", "\n", "\u00e9", "nan"])]
    elif q < 0.4:
        o, at = life(s, ctx, plan=True)
        rec = o.rec(at[-1])
        if rec and rec["hi"] > rec["lo"]:
            s["faults"] = [{x: y for x, y in f.items() if x != "op"} for f in c04.pick(r, o.events[rec["lo"]:rec["hi"]], 0, o.names)]
    elif q < 0.55 and all(st["ask"] and st["how"] in ("readxr", "getvar") or not st["ask"] and st["job"]["kind"] in jobs.NA for st in steps):
        s["prog"]["blk"] = 16
        s["prog"]["noise"] = [r.randrange(1, 2 ** 40), 95, r.choice([0, 40])]
    return s


def ops_of(i, st):
    if not st["ask"]:
        return [st["job"]["op"]]
    src, out, how = "q%d.na" % i, "q%d.nc" % i, st["how"]
    kw = {}
    if st["told"]:
        kw = {"time_units": st["told"][1]} if st["told"][0] == "units" else {"time_warning": False}
    if how == "readxr":
        return [{"do": "fn", "name": "readXarrayObjectsFromNA", "args": [src]}]
    if how == "getvar":
        return [{"do": "fn", "name": "getXarrayVariableFromNA", "args": [src, 0]}]
    if how == "script":
        av = ["-i", src, "-o", out]
        if st["told"]:
            av += ["-t", st["told"][1]] if st["told"][0] == "units" else ["-n"]
        return [{"do": "script", "name": "na2nc", "argv": av}]
    if how == "class":
        return [{"do": "new", "as": "c%d" % i, "cls": "nappy.nc_interface.na_to_nc.NAToNC", "args": [src], "kw": kw},
                {"do": "call", "obj": "c%d" % i, "meth": "convert"}] + [{"do": "call", "obj": "c%d" % i, "meth": "convert"}] * st.get("again", 0) + [{"do": "call", "obj": "c%d" % i, "meth": "writeNCFile", "args": [out]}]
    return [{"do": "fn", "name": "convertNAToNC", "args": [src], "kw": dict(kw, nc_file=out)}]


def hurt(text, how):
    kind, at, what = how
    k = int(at * len(text))
    if kind == "cut":
        return text[:k]
    if kind == "dup":
        return text[:k] + text[k // 2:]
    if kind == "bytes":
        return text[:k] + what + text[k + 1:]
    nums = list(re.finditer(r"\S+", text))
    m = nums[int(at * len(nums))]
    return text[:m.start()] + what + text[m.end():]


def life(s, ctx, plan=False):
    files, docs, dss = {}, {}, {}
    ops, idx = [{"do": "import"}], []
    for i, st in enumerate(s["steps"]):
        own = ops_of(i, st)
        ops += own
        idx.append(len(ops) - 1)
        if st["ask"]:
            files["q%d.na" % i] = refna.render(st["doc"])
        else:
            j = st["job"]
            files.update(j["files"])
            docs.update(j["docs"])
            dss.update(j["datasets"])
    if s["damage"]:
        st = s["steps"][-1]
        f = "q%d.na" % (len(s["steps"]) - 1) if st["ask"] else [f for f in st["job"]["files"] if f.endswith(".na")][0]
        files[f] = hurt(files[f], s["damage"])
    ctx.fresh(files)
    return ctx.life(dict(s["prog"], docs=docs, datasets=dss, ops=ops, stdin=s["stdin"], faults=[dict(f, op=idx[-1]) for f in s["faults"]]), plan), idx


def run(s, ctx):
    o, idx = life(s, ctx)
    left = list(s["stdin"])
    lo = 1
    n = 0
    dead = False
    for i, st in enumerate(s["steps"]):
        last = i == len(s["steps"]) - 1
        what = "%s" % (st["how"] + (" of FFI %d" % st["doc"]["FFI"]) if st["ask"] else st["job"]["kind"])
        rec = o.rec(idx[i])
        if hang_of(o) and (rec is None or any(x.get("hang") for x in o.recs if lo <= x["i"] <= idx[i])):
            return [("hang", "%s: %s" % (what, hang_of(o)))]
        if rec is None:
            if s["faults"] and last and o.status.startswith("signal"):
                return []       # the NetCDF library did not survive the fault
            return [("died", "%s: the process ended with %s" % (what, o.status))]
        unsure = last and (s["faults"] or s["damage"])
        tries = list(range(lo, idx[i] + 1))
        if st["ask"] and st["how"] == "class":
            tries = tries[1:]       # (the first makes the converter)
        lo = idx[i] + 1
        done = False
        for k in tries:
            rec = o.rec(k)
            asked = rec.get("asked", 0)
            want, answer = 0, None
            if st["ask"] and not st["told"] and not done:
                want, answer = script(left)
            if unsure:
                if s["damage"] and not st["ask"] and may_ask(st["job"], s["damage"]):
                    want, answer = script(left)
                if asked > want:
                    return [("asked", "%s (%s): asked %d times instead of at most %d" % (what, s["faults"] or s["damage"], asked, want))]
                ctx.probe("damaged input", bool(s["damage"]))
                ctx.probe("fault", bool(s["faults"]) and sum(o.fired.values()) > 0)
                ctx.nontrivial = True
                if not rec.get("ok"):
                    return []
                done = True
                continue
            if asked != want:
                return [("asked", "%s: asked %d times instead of %d%s" % (what, asked, want, " (answers %s)" % st.get("answers") if want else ""))]
            ctx.nontrivial = True
            if not want:
                ctx.probe("not asked", not done)
                if st["ask"] and not rec.get("ok"):
                    return [("refused", "%s told %s: %s" % (what, st["told"] or "before", excs(rec)))]
                done = True
                continue
            ctx.probe("asked")
            n += 1
            ctx.probe("question after another", n > 1)
            ctx.probe("axis of FFI 1020", st["doc"]["FFI"] == 1020)
            ctx.probe("later axis", st["axis"] > 0)
            ctx.probe("bad answer asked again", want > 1)
            ctx.probe("asked again by the same converter", k > tries[0])
            if answer in ("eof", "KeyboardInterrupt", "EIO"):
                if rec.get("ok"):
                    return [("ended", "%s: succeeded though the question was answered by %s" % (what, answer))]
                e = rec["exc"][0]
                if answer == "EIO" and e != "OSError" or answer == "KeyboardInterrupt" and e != "KeyboardInterrupt":
                    return [("ended", "%s: %s at the question became %s" % (what, answer, excs(rec)))]
                ctx.probe({"eof": "end of input", "EIO": "read error at the question"}.get(answer, "interrupt at the question"))
                ctx.probe("after end of input", dead)
                dead = answer == "eof"
                continue
            if not rec.get("ok"):
                return [("refused", "%s, answered %r: %s" % (what, answer, excs(rec)))]
            done = answer
            if done == "":
                done = True
            ctx.probe("good answer" if answer else "blank answer")
            ctx.probe("answer kept per operation", n > 1)
            given = answer
        if not unsure and st["ask"] and done:
            given = given if not st["told"] else st["told"][1] if st["told"][0] == "units" else ""
            if st["told"]:
                ctx.probe("told the units" if st["told"][0] == "units" else "told not to ask")
            e = units(s, ctx, o, i, st, rec, given)
            if e:
                return [("units", "%s, %s: %s" % (what, "told %s" % st["told"] if st["told"] else "answered %r" % given, e))]
    ctx.probe("one-byte reads", bool(s["prog"].get("noise")))
    return []


def may_ask(j, damage):
    """Whether the damage may have taken the units from a time axis that had them, in a
    conversion that was not told not to ask."""
    op = j["op"]
    kw, av = op.get("kw") or {}, op.get("argv") or []
    if j["kind"] not in ("na2nc", "readxr", "getvar", "script-na2nc") or kw.get("time_units") or kw.get("time_warning") is False or "-n" in av or "-t" in av:
        return False
    f = [f for f in j["files"] if f.endswith(".na")][0]
    return "time" in hurt(j["files"][f], damage).lower()


def script(left):
    """How many lines one question takes from the script, and what ends it."""
    n = 0
    while True:
        n += 1
        if not left:
            return n, "eof"
        x = left.pop(0)
        if isinstance(x, dict):
            return n, x["raise"]
        if x.strip() == "" or PATTERN.match(x.strip()):
            return n, x.strip()


def units(s, ctx, o, i, st, rec, answer):
    """What is wrong with the time axis of the result."""
    d = st["doc"]
    c = refna.parse(refna.render(d))
    m = re.match(r"^[^()]+ \(([^()]+)\)$", c["XNAME"][st["axis"]])
    own = m.group(1) if m else None
    exp = c10.axes(c)[st["axis"]]
    if st["how"] in ("readxr", "getvar"):
        v = rec["ret"] if st["how"] == "getvar" else rec["ret"][0][0]
        x, got = v["coords"].get("time"), v.get("cunits", {}).get("time")
    else:
        f = ncgen.read(ctx.path("q%d.nc" % i))["vars"]
        if "time" not in f:
            return "there is no time axis in %s" % sorted(f)
        x, got = f["time"]["data"], f["time"]["attrs"].get("units")
    if x is None or not c10.all_near(exp, x):
        return "time axis %s instead of %s" % (x, exp)
    if answer and got != answer:
        return "units %r" % got
    if not answer and got not in (own, "Not known"):
        return "units %r though none were chosen (the file says %r)" % (got, own)
    return None


def shrink(s):
    if s["faults"]:
        yield dict(s, faults=[])
    if s["damage"]:
        yield dict(s, damage=None)
    if len(s["steps"]) > 1:
        for i in range(len(s["steps"])):
            e = s["steps"][:i] + s["steps"][i + 1:]
            if i < len(s["steps"]) - 1 or not (s["faults"] or s["damage"]):
                yield dict(s, steps=e, stdin=[x for st in e for x in st.get("answers", [])])
    for i in range(len(s["stdin"])):
        yield dict(s, stdin=s["stdin"][:i] + s["stdin"][i + 1:])
    for i, st in enumerate(s["steps"]):
        if st["ask"]:
            if st["how"] != "fn":
                yield dict(s, steps=s["steps"][:i] + [dict(st, how="fn")] + s["steps"][i + 1:])
            for d in gen.simpler(st["doc"]):
                if gen.nrecs(d) and d["XNAME"] == st["doc"]["XNAME"]:
                    yield dict(s, steps=s["steps"][:i] + [dict(st, doc=d)] + s["steps"][i + 1:])
        else:
            for j in jobs.simpler(st["job"]):
                yield dict(s, steps=s["steps"][:i] + [dict(st, job=j)] + s["steps"][i + 1:])
    if s["prog"].get("blk") or s["prog"].get("noise"):
        yield dict(s, prog=dict(s["prog"], blk=0, noise=None))


def describe(s, ctx):
    return {"steps": [{"how": st["how"], "doc": brief_doc(st["doc"]), "XNAME": st["doc"]["XNAME"], "told": st["told"], "answers": st.get("answers")} if st["ask"] else jobs.brief(st["job"])
                      for st in s["steps"]], "stdin": s["stdin"], "faults": s["faults"], "damage": s["damage"]}
