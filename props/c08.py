"""C08: one file object has one honest life cycle."""
import random

from model import gen, refna
from props.common import *
from props import common, jobs, c04

ID = "C08"
LEVEL = "exploration"
QUICK = 2200
THOROUGH = 80000
RULE = ("One run = one life of five to twenty calls on one to four file objects (open in every mode, write, read, accessors, close, with blocks, drops, repeats and calls that must "
        "be refused, whole conversions in between), in most runs with a seeded I/O fault or an interrupt at a seeded line, compared call by call with a reference state machine: "
        "outcome, every file's bytes, and the number of open descriptors. Non-trivial: a call had to be refused, or a fault was injected.")
MUST = ["second write refused", "write on a closed object refused", "write on a read object refused", "unknown mode refused", "closed twice", "dropped while open",
        "with block left by an exception", "fault at close", "interrupted", "write after a failed write", "closed by the end of the process"]
TAINT = {}         # file: objects whose write to it failed, and that may still hold unwritten bytes
WRITERS = []       # every object opened for writing, in order
FAMILY = {f: "nappy.na_file.na_file_%d.NAFile%d" % (f, f) for f in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)}


def generate(r, ctx):
    docs, files, ops = {}, {}, []
    objs = {}
    nf = [0]
    many = r.choice([1, 2, 2, 3, 4])

    def name():
        nf[0] += 1
        return "f%d.na" % nf[0]

    def wdoc():
        k = "d%d" % len(docs)
        docs[k] = gen.doc(r)
        q = r.random()
        if q < 0.1:
            docs[k] = gen.doc(r, ffi=r.choice([1001, 2010]), recs=3)
            if r.random() < 0.5:
                docs[k].pop(r.choice(["VNAME", "V", "X", "NCOM", "VSCAL"]))
            else:
                docs[k]["V"][-1] = ["bad"] * 3
        return k

    n = r.randint(5, 20)
    while len(ops) < n:
        live = sorted(objs)
        q = r.random()
        if len(live) < many and (not live or q < 0.3):
            a = "o%d" % len(ops)
            m = r.random()
            if m < 0.5:
                old = [o["file"] for o in objs.values() if o.get("wrote")]
                f = r.choice(old) if old and r.random() < 0.15 else name()
                if r.random() < 0.2:
                    files[f] = "old content\n"
                ops.append({"do": "open", "as": a, "file": f, "mode": "w", "doc": wdoc()})
                objs[a] = {"mode": "w", "file": f}
            elif m < 0.85:
                d = gen.doc(r)
                f = name()
                files[f] = refna.render(d)
                if r.random() < 0.1:
                    files[f] = files[f][:r.randint(0, 150)]
                elif r.random() < 0.12:
                    files[f] = spoil(r, files[f])
                ops.append({"do": "open", "as": a, "file": f, "mode": "r", "src": d})
                objs[a] = {"mode": "r", "file": f}
            else:
                f = name()
                if r.random() < 0.7:
                    files[f] = r.choice(["old content\n", refna.render(gen.doc(r))])
                m = r.choice(["a", "x", "rw", "w+", "r+", "wb", "", "W", "rb"])
                if r.random() < 0.5:
                    k = wdoc()
                    ops.append({"do": "open", "as": a, "file": f, "mode": m, "doc": k, "badmode": 1})
                else:
                    ops.append({"do": "new", "as": a, "cls": FAMILY[r.choice(gen.FFIS)], "args": [f], "kw": {"mode": m}, "badmode": 1})
            continue
        if q < 0.42:
            # in one go, or a conversion in between
            m = r.random()
            if m < 0.3:
                f = name()
                k = wdoc()
                ops.append({"do": "with", "file": f, "mode": "w", "doc": k, "raise": r.random() < 0.4,
                            "body": r.choice([[], ["write"], ["write"], ["write", "close"], ["write", "write"], ["close"]])})
            elif m < 0.5:
                d = gen.doc(r)
                f = name()
                files[f] = refna.render(d)
                ops.append({"do": "with", "file": f, "mode": "r", "raise": r.random() < 0.4, "body": r.choice([[], ["readData"], ["readData", "readData"], ["readData", "close"], ["write"]])})
            elif m < 0.75 and live:
                o = r.choice(live)
                b = r.choice([[], ["write"], ["close"]] if objs[o]["mode"] == "w" else [[], ["readData"], ["write"]])
                ops.append({"do": "with", "obj": o, "body": b, "raise": r.random() < 0.3})
            else:
                j = jobs.make(r, len(ops), ["csv", "ffi", "nc2na", "xr2na", "na2nc", "readxr"], dirs=True)
                ops.append({"do": "job", "job": j})
            continue
        if not live:
            continue
        o = r.choice(live)
        w = objs[o]["mode"] == "w"
        if q < 0.7:
            ops.append({"do": "call", "obj": o, "meth": "write", "kw": write_kw(r)} if w or r.random() < 0.25 else {"do": "call", "obj": o, "meth": "readData"})
            objs[o]["wrote"] = w
        elif q < 0.8:
            ops.append({"do": "call", "obj": o, "meth": "close"})
        elif q < 0.86:
            ops.append({"do": "drop", "obj": o})
            del objs[o]
        elif not w:
            ops.append({"do": "call", "obj": o, "meth": "getNADict", "ret": True} if r.random() < 0.6 else {"do": "meta", "obj": o})
    for op in ops:
        if op["do"] == "with":
            op["body"] = [{"meth": m, "kw": write_kw(r) if m == "write" else {}} for m in op["body"]]
    s = {"docs": docs, "files": files, "ops": ops, "prog": base_prog(r, end="normal"), "faults": []}
    s["prog"]["clock"][1] = 0
    if any(op["do"] == "job" for op in ops):
        s["prog"]["noise"] = None
    if r.random() < 0.7:
        o = life(s, ctx, plan=True)
        t = r.randrange(len(ops))
        if r.random() < 0.5:
            c = [i for i, op in enumerate(ops) if op["do"] == "with" or op.get("meth") in ("close", "write")]
            t = r.choice(c) if c else t
        rec = o.rec(2 * t + 2)
        if rec:
            ev = o.events[rec["lo"]:rec["hi"]]
            if r.random() < 0.5 and ev and not any(o.names[e[1]].endswith(".nc") for e in ev):
                s["prog"]["noise"] = None
                o = life(s, ctx, plan=True)
                rec = o.rec(2 * t + 2)
                ev = o.events[rec["lo"]:rec["hi"]]
                s["faults"] = c04.pick(r, ev, t, o.names) if ev else []
            elif rec["lines"]:
                s["faults"] = [{"op": t, "line": r.randrange(rec["lines"]), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}]
    return s


def spoil(r, t):
    """A header that cannot be right: something else instead of a number."""
    ls = t.split("\n")
    k = [i for i, x in enumerate(ls[:40]) if i > 5 and x.strip() and all(c in "0123456789.eE+- \r" for c in x)]
    if k:
        i = r.choice(k[:6])
        ws = ls[i].split()
        ws[r.randrange(len(ws))] = r.choice(["x", "1x", "--", "1,5", "nought"])
        ls[i] = " ".join(ws)
    return "\n".join(ls)


def life(s, ctx, plan=False):
    docs, dss, files = dict(s["docs"]), {}, dict(s["files"])
    ops = [{"do": "import"}, {"do": "watch", "text": 1}]
    for op in s["ops"]:
        if op["do"] == "job":
            j = op["job"]
            docs.update(j["docs"])
            dss.update(j["datasets"])
            files.update(j["files"])
            ops.append(j["op"])
        else:
            ops.append({k: v for k, v in op.items() if k != "src"})
        ops.append({"do": "watch", "text": 1})
    ctx.fresh(files)
    return ctx.life(dict(s["prog"], docs=docs, datasets=dss, ops=ops, faults=[dict(f, op=2 * f["op"] + 2) for f in s["faults"]]), plan)


class Obj:
    def __init__(self, op, kind):
        self.mode, self.file, self.doc = op.get("mode", "r"), op["file"], op.get("doc")
        self.open = True          # True, False or None (unknown)
        self.written = "no"       # no, yes, tried
        self.src = op.get("src")
        self.read = False
        if self.mode == "w":
            WRITERS.append(self)
            self.late = []        # objects on the same file that wrote after this one was opened


def run(s, ctx):
    o = life(s, ctx)
    if hang_of(o):
        return [("hang", "an operation did not finish: %s" % hang_of(o))]
    if o.status != "exit":
        return [] if o.status.startswith("signal") else [("died", "the process ended with %s" % o.status)]
    v, objs = [], {}
    TAINT.clear()
    del WRITERS[:]
    tree = o.rec(1)["ret"]["tree"]
    for i, op in enumerate(s["ops"]):
        rec, new = o.rec(2 * i + 2), o.rec(2 * i + 3)["ret"]["tree"]
        fl = [f for f in s["faults"] if f["op"] == i]
        faulty = bool(fl) and not rec.get("ok")
        if fl:
            ctx.nontrivial = True
            ctx.probe("interrupted" if "line" in fl[0] else "I/O fault")
        what = "%s" % brief({k: x for k, x in op.items() if k != "src"}, s)
        out = "done" if rec.get("ok") else excs(rec)
        changed = sorted(f for f in set(tree) | set(new) if tree.get(f) != new.get(f))
        e, may = step(op, rec, objs, faulty, fl, s, ctx, new)
        if e:
            v.append((e[0], "%s: %s (outcome: %s)" % (what, e[1], out)))
        for f in changed:
            if not allowed(f, may):
                v.append(("disk", "%s changed %s (outcome: %s)" % (what, f, out)))
        lo = sum(x.open is True for x in objs.values())
        hi = lo + sum(x.open is None for x in objs.values())
        if not lo <= rec["fds"] <= hi:
            v.append(("leak" if rec["fds"] > hi else "fds", "after %s (outcome: %s) %d files are open, not %s" % (what, out, rec["fds"], lo if lo == hi else "%d..%d" % (lo, hi))))
            return v[:4]
        tree = new
        if v:
            return v[:4]
    if o.gone is None or o.gone["fds"]:
        v.append(("leak", "%s files open after every reference was lost" % (o.gone and o.gone["fds"])))
    end = {f: b.decode("utf-8", "replace") for f, b in ctx.tree().items()}
    ok = [x.file for x in objs.values() if x.written == "tried"]
    if any(x.open for x in objs.values()):
        ctx.probe("closed by the end of the process")
    for f in set(tree) | set(end):
        if tree.get(f) != end.get(f) and f not in ok:
            v.append(("disk", "losing the last references changed %s" % f))
    return v[:4]


def allowed(f, may):
    return any(f == m or (m.endswith("*") and f.startswith(m[:-1])) for m in may)


def brief(op, s):
    d = dict(op)
    if "job" in d:
        return "conversion %s" % jobs.brief(d["job"])["op"]
    return str(d)


def step(op, rec, objs, faulty, fl, s, ctx, tree):
    """Advance the reference machine; ((class, message) or None, files that may have changed)."""
    ok, do = bool(rec.get("ok")), op["do"]
    if do == "job":
        j = op["job"]
        return None, [j["pre"] + "_*", j["pre"] + ".*", j["pre"] + "-*"]
    if do in ("open", "new"):
        if op.get("badmode"):
            ctx.nontrivial = True
            if ok:
                return ("accepted", "an unknown mode was accepted"), []
            ctx.probe("unknown mode refused")
            return None, []
        if ok:
            objs[op["as"]] = Obj(op, do)
            if op["mode"] == "w" and tree.get(op["file"]) != "":
                return ("disk", "the file is not empty after opening for writing"), [op["file"]]
        elif not faulty and good(op, s):
            return ("refused", "a legal open was refused"), []
        return None, [op["file"]] if op["mode"] == "w" and (ok or faulty) else []
    if do == "with" and not op.get("obj"):
        x = Obj(op, do)
        e, may, dead = None, [x.file] if x.mode == "w" else [], False
        e = body(op, x, ok, faulty, rec, s, ctx, tree)
        if op["raise"]:
            ctx.probe("with block left by an exception")
        return e, may
    if do == "drop":
        x = objs.pop(op["obj"], None)
        if x and x.open is True:
            ctx.probe("dropped while open")
        return None, [x.file] if x and x.written == "tried" else []
    x = objs.get(op["obj"])
    if x is None:
        # the object was never created
        return (("accepted", "a call on an object that does not exist was accepted"), []) if ok else (None, [])
    if do == "with":
        e = body(op, x, ok, faulty, rec, s, ctx, tree)
        return e, [x.file] if x.mode == "w" and (any(c["meth"] == "write" for c in op["body"]) or x.written == "tried") else []
    if do == "meta":
        return None, []
    m = op["meth"]
    if m == "close":
        was = x.open
        if x.open is False:
            ctx.probe("closed twice")
        if ok:
            x.open = False
        elif not faulty:
            if x.written != "tried" or x.open is False:
                return ("refused", "close failed"), [x.file] if x.written == "tried" else []
            x.open = False
        elif any("line" in f for f in fl):
            x.open = None if x.open else False
        else:
            ctx.probe("fault at close")
            x.open = False          # a failing close still gives up the file
        return None, [x.file] if x.written == "tried" and was is not False else []
    if m == "write":
        e = write(x, op["kw"], ok, faulty, s, ctx, tree)
        return e, [x.file] if x.mode == "w" and x.may else []
    if m == "readData":
        x.read = ok
        if not ok and not faulty and x.mode == "r" and x.open is True and x.src and whole(x, s):
            return ("refused", "reading the data failed"), []
        return None, []
    if m == "getNADict":
        if ok and x.read and whole(x, s):
            e = read_matches(rec["ret"], x.src, None)
            if e:
                return ("content", "the object no longer gives the file's content: %s" % e), []
        return None, []
    raise AssertionError(m)


def whole(x, s):
    return x.src is not None and s["files"].get(x.file) == refna.render(x.src)


def good(op, s):
    if op["mode"] == "r":
        return op.get("src") is not None and s["files"].get(op["file"]) == refna.render(op["src"])
    return fine(s["docs"][op["doc"]])


def fine(d):
    return all(k in d for k in ("VNAME", "V", "X", "NCOM", "VSCAL")) and not any(isinstance(v, list) and "bad" in v for v in d["V"])


def write(x, kw, ok, faulty, s, ctx, tree):
    """A write call on object x."""
    x.may = False
    if x.mode != "w":
        ctx.nontrivial = True
        if ok:
            return ("accepted", "a write on a read-mode object was accepted")
        ctx.probe("write on a read object refused")
        return None
    if x.written == "yes":
        ctx.nontrivial = True
        if ok:
            return ("accepted", "a second write was accepted")
        ctx.probe("second write refused")
        return None
    if x.open is False:
        ctx.nontrivial = True
        if ok:
            return ("accepted", "a write on a closed object was accepted")
        ctx.probe("write on a closed object refused")
        return None
    x.may = True
    if x.written == "tried":
        ctx.probe("write after a failed write")
        x.may = ok
    if ok:
        x.written = "yes"
        e = content(x, s, tree, kw)
        return ("content", "the file written is wrong: %s" % e) if e else None
    was = x.written
    x.written = "tried"
    TAINT.setdefault(x.file, []).append(x)
    if not faulty and was == "no" and x.open is True and fine(s["docs"][x.doc]):
        return ("refused", "the first write was refused")
    return None


def content(x, s, tree, kw):
    for y in WRITERS:
        if y is not x and y.file == x.file:
            y.late.append(x)
    if not fine(s["docs"][x.doc]) or any(y is not x for y in TAINT.get(x.file, [])):
        return None
    if x.late:
        return None        # two objects took turns on one file
    if TAINT.get(x.file) and sum(op.get("file") == x.file for op in s["ops"]) > 1:
        return None
    return check_written(tree.get(x.file, ""), s["docs"][x.doc], kw)


def body(op, x, ok, faulty, rec, s, ctx, tree):
    """A with block on x; afterwards the object is closed."""
    was = x.open
    if faulty or not ok:
        x.read = x.read and not any(c["meth"] == "readData" for c in op["body"])
        # somewhere in the block a call failed (or the caller raised): the model follows the calls as far as they must have succeeded
        expect = expectation(op, x, s)
        if not faulty and expect == "ok":
            return ("refused", "the block failed")
        for c in op["body"]:
            if c["meth"] == "write" and x.mode == "w" and x.written == "no":
                clean = not faulty and fine(s["docs"][x.doc]) and x.open is True
                x.written = "yes" if clean else "tried"
                if not clean:
                    TAINT.setdefault(x.file, []).append(x)
            if c["meth"] == "close":
                x.open = False
        x.open = None if op.get("obj") and any("line" in f for f in s["faults"]) and faulty and was is not False else False
        if x.written == "yes" and not faulty:
            for c in op["body"]:
                if c["meth"] == "write":
                    e = content(x, s, tree, c["kw"])
                    if e and not (op.get("obj") and was is not True):
                        return ("content", "the file written is wrong: %s" % e) if not op.get("obj") else None
                    break
        return None
    if expectation(op, x, s) == "error":
        return ("accepted", "the block ended without an error")
    for c in op["body"]:
        if c["meth"] == "write":
            x.written = "yes"
            e = content(x, s, tree, c["kw"])
            if e:
                return ("content", "the file written is wrong: %s" % e)
        if c["meth"] == "readData":
            x.read = True
    x.open = False
    return None


def expectation(op, x, s):
    """ok, error or either for a with block without faults."""
    if op["raise"]:
        return "error"
    st, wr = x.open, x.written
    res = "ok"
    for c in op["body"]:
        m = c["meth"]
        if m == "write":
            if x.mode != "w" or wr == "yes" or st is False:
                return "error" if res == "ok" else "either"
            if wr == "tried" or st is None or not fine(s["docs"][x.doc]):
                res = "either"
            wr = "yes"
        elif m == "close":
            st = False
        elif m == "readData" and (st is not True or (x.src is not None and not whole(x, s))):
            res = "either"
    if x.written == "tried":
        res = "either"
    return res


def shrink(s):
    for i, op in enumerate(s["ops"]):
        if any(f["op"] == i for f in s["faults"]):
            continue
        drop = {i}
        if op["do"] in ("open", "new"):
            drop |= {k for k, q in enumerate(s["ops"]) if q.get("obj") == op["as"]}
        if any(f["op"] in drop for f in s["faults"]):
            continue
        m, n = {}, 0
        for k in range(len(s["ops"])):
            m[k] = n
            n += k not in drop
        yield dict(s, ops=[q for k, q in enumerate(s["ops"]) if k not in drop], faults=[dict(f, op=m[f["op"]]) for f in s["faults"]])
    if s["faults"]:
        yield dict(s, faults=[])
    used = {op.get("file") for op in s["ops"]} | {(op.get("args") or [None])[0] for op in s["ops"] if op["do"] == "new"}
    for f in s["files"]:
        if f not in used:
            yield dict(s, files={a: b for a, b in s["files"].items() if a != f})
    p = s["prog"]
    for k in ("noise", "blk"):
        if p.get(k):
            yield dict(s, prog=dict(p, **{k: 0 if k == "blk" else None}))
    for i, op in enumerate(s["ops"]):
        if op.get("kw") and op["do"] == "call":
            yield dict(s, ops=s["ops"][:i] + [dict(op, kw={})] + s["ops"][i + 1:])
    for k, d in s["docs"].items():
        if fine(d):
            for e in gen.simpler(d):
                yield dict(s, docs=dict(s["docs"], **{k: e}))


def describe(s, ctx):
    return {"ops": [brief({k: x for k, x in op.items() if k != "src"}, s) for op in s["ops"]], "faults": s["faults"],
            "docs": {k: "FFI %s NV=%s" % (d.get("FFI"), d.get("NV")) for k, d in s["docs"].items()}}
