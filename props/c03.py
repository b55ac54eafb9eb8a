"""C03: damaged or unreadable input never becomes wrong data."""
import random
import re

from model import gen, refna
from props.common import *
from props import common

ID = "C03"
LEVEL = "exploration"
QUICK = 6000
THOROUGH = 80000
RULE = ("One run = one process life reading one generated file (nine FFIs) that a crash or disk fault damaged (cut at any byte, tail or block zeroed, block lost, stale "
        "tail, flipped byte or extra or missing token in the data section), or that is cut between opening and reading, or whose open/read/close calls fail at a seeded "
        "event; then the intact file is put back and read again in the same process, also through the object that had failed. The reference parser says what the intact part of the damaged "
        "text holds. Non-trivial: the damaged text differs from the original in more than trailing white space, or a read fault fired.")
MUST = ["cut in header", "cut in data", "zeroed", "garbled data", "read fault fired", "cut between open and readData", "damage refused", "intact part returned",
        "retried on the same object"]


def damage(r, text, ihl):
    b = text.encode("utf-8")
    n = len(b)
    eol = b"\n"
    top = b.split(eol)
    try:
        nl = int(top[ihl].split()[0]) + ihl
    except (ValueError, IndexError):
        nl = 0
    head = sum(len(x) + 1 for x in top[:nl])
    k = r.choice(["cut", "cut", "cut", "cut-line", "cut-head", "nul-tail", "nul-block", "lost-block", "stale-tail", "flip", "token+", "token-", "token~", "token~", "cut-number", "line-", "blank"])
    if head >= n and k not in ("cut-head", "nul-tail", "cut"):
        k = "cut"
    if k == "cut":
        at = r.randrange(head, n + 1) if head < n and r.random() < 0.75 else r.randrange(n + 1)
        return k, b[:at]
    if k == "cut-number":
        # in the middle of a number, right after its sign, point or exponent letter
        c = [i for i in range(head + 1, n) if b[i - 1:i] in (b"e", b"E", b"+", b"-", b".")]
        return k, b[:r.choice(c)] if c else b[:r.randrange(head, n + 1)]
    if k == "cut-head":
        return k, b[:r.randrange(min(head, n) + 1)]
    if k == "cut-line":
        lines = b.split(eol)
        m = r.randrange(nl, len(lines) + 1)
        return k, eol.join(lines[:m]) + (eol if r.random() < 0.5 else b"")
    blk = r.choice([16, 64, 512, 4096])
    if k == "nul-tail":
        at = r.randrange(n + 1) // blk * blk if r.random() < 0.7 else r.randrange(head, n + 1) if head <= n else n
        return k, b[:at] + b"\0" * (n - at)
    at = r.randrange(head, n)
    if k == "nul-block":
        at = max(at // blk * blk, head)
        return k, b[:at] + b"\0" * len(b[at:at + blk]) + b[at + blk:]
    if k == "lost-block":
        at = max(at // blk * blk, head)
        return k, b[:at] + b[at + blk:]
    if k == "stale-tail":
        at2 = r.randrange(head, n)
        return k, b[:at] + b[at2:]
    if k == "flip":
        c = r.choice([b"x", b"-", b".", b"e", b" ", b"\n", b"9", b"\0", b"\xff", b"{", b"}", b",", b"n"])
        return k, b[:at] + c + b[at + 1:]
    lines = b.split(eol)
    m = r.randrange(nl, len(lines))
    if k == "blank":
        return k, eol.join(lines[:m] + [r.choice([b"", b"  "])] + lines[m:])
    if k == "line-":
        return k, eol.join(lines[:m] + lines[m + 1:])
    t = lines[m].split()
    if not t:
        return "cut", b[:at]
    j = r.randrange(len(t))
    if k == "token~":
        # not a number any more
        x = t[j]
        t[j] = r.choice([b"*" * len(x), b"*" * len(x), b"#" * len(x), b"?", b"-", b"--", b"N/A", b"null", b"missing", x + b"e", x + b"E-", x[:1] + b" e5", x + b"." + x, x + b"\0", b"\0" * len(x),
                         b"O" + x, x.replace(b".", b",") + b",", b"'%s'" % x, b"(%s)" % x, x + b"*", b"1.#QNAN", b"0x1F", x + b"\xff", b"1/3", b"%s-%s" % (x, x.strip(b"-"))])
    elif k == "token+":
        t.insert(j, r.choice([b"0", b"7.5", b"-9999", b"***", b"NaN", b"1e5"]))
    else:
        del t[j]
    return k, eol.join(lines[:m] + [b" ".join(t)] + lines[m + 1:])


def generate(r, ctx):
    d = gen.doc(r, big=r.random() < 0.1)
    ihl = ["ignored line"] * (1 if r.random() < 0.1 else 0)
    st = refna.Style(random.Random(r.randrange(2 ** 31)), eol="\n") if r.random() < 0.6 else None
    text = refna.render(d, st, ihl)
    s = {"doc": d, "ihl": len(ihl), "text": text, "prog": base_prog(r), "style": r.choice(["plain", "with"]), "faults": [],
         "via": r.choice(["read", "read", "obj", "csv"])}
    mode = r.choice(["damage", "damage", "damage", "race", "fault", "fault"])
    s["mode"] = mode
    if mode == "race" and s["via"] == "csv":
        s["via"] = "obj"
    if s["via"] == "csv":
        s["ihl"] = 0
        s["text"] = text = refna.render(d, st)
        ihl = []
    if mode == "fault":
        s["damaged"] = None
        s["kind"] = "fault"
        o = _life(s, ctx, plan=True)
        span = o.rec(1)["hi"] if s["via"] == "obj" else o.recs[0]["hi"]
        at = r.randrange(max(1, span))
        s["faults"] = [{"op": 0, "at": at, "action": "err", "arg": r.choice(READ_ERRNOS + [13, 24, 4]), "until": 1 if s["via"] == "obj" else 0}]
        if r.random() < 0.4:
            s["faults"].append({"op": 0, "at": at + 1, "action": "err", "arg": 5, "until": s["faults"][0]["until"]})
    else:
        s["kind"], b = damage(r, text, len(ihl))
        s["damaged"] = b.decode("latin-1")
    return s


def _ops(s):
    kw = {"ihl": s["ihl"]} if s["ihl"] else {}
    dmg = s["damaged"]
    if s["mode"] == "race":
        ops = [dict({"do": "open", "as": "o", "file": "f.na"}, **kw), {"do": "put", "file": "f.na", "text": dmg, "b": 1},
               {"do": "call", "obj": "o", "meth": "readData"}, {"do": "call", "obj": "o", "meth": "getNADict", "ret": True}]
    elif s["via"] == "csv":
        ops = [{"do": "fn", "name": "convertNAToCSV", "args": ["f.na"], "kw": {"csv_file": "o.csv"}}]
    elif s["via"] == "read":
        ops = [dict({"do": "read", "file": "f.na", "style": s["style"]}, **kw)]
    else:
        ops = [dict({"do": "open", "as": "o", "file": "f.na"}, **kw), {"do": "call", "obj": "o", "meth": "readData"},
               {"do": "call", "obj": "o", "meth": "getNADict", "ret": True}]
    n = len(ops)
    ops.append({"do": "put", "file": "f.na", "text": s["text"]})
    ops.append(dict({"do": "read", "file": "f.na", "style": s["style"]}, **kw))
    if ops[0]["do"] == "open" and s["mode"] != "damage":
        ops += [{"do": "call", "obj": "o", "meth": "readData"}, {"do": "call", "obj": "o", "meth": "getNADict", "ret": True}]
    return ops, n


def _life(s, ctx, plan=False):
    first = s["text"].encode() if s["damaged"] is None or s["mode"] == "race" else s["damaged"].encode("latin-1")
    ctx.fresh({"f.na": first})
    ops, n = _ops(s)
    o = ctx.life(dict(s["prog"], ops=ops, faults=s["faults"]), plan)
    return o


def run(s, ctx):
    o = _life(s, ctx)
    ops, n = _ops(s)
    h = hang_of(o)
    if h:
        return [("hang", "reading a %s file did not finish: %s" % (s["kind"], h))]
    if o.status != "exit":
        return [("died", "process ended with %s" % o.status)]
    v = []
    recs = [o.rec(i) for i in range(len(ops))]
    got = None
    failed = next((q for q in recs[:n] if not q.get("ok")), None)
    csv = s["via"] == "csv"
    if not failed:
        if csv:
            ctx.probe("converted damaged or unreliable input")
            try:
                got = refna.parse(ctx.text("o.csv"), delim=",")
            except (refna.Malformed, OSError) as e:
                got = {"unusable CSV": str(e)}
        else:
            got = canon_read(recs[n - 1]["ret"])
    d = s["doc"]
    if s["mode"] == "fault":
        if o.fired:
            ctx.probe("read fault fired")
            ctx.nontrivial = True
        if got is None:
            if not o.fired:
                v.append(("refused", "a legal file was refused without a fault: %s" % excs(failed)))
        else:
            e = "; ".join(refna.diff(refna.canon(d, "%.10g" if csv else None), got))
            if e:
                v.append(("fault-data", "a read whose I/O failed (%s) returned other data: %s" % (o.fired, e)))
    else:
        dmg = s["damaged"].encode("latin-1")
        if dmg.rstrip() != s["text"].encode().rstrip():
            ctx.nontrivial = True
        where = "cut in header" if s["kind"].startswith("cut") and len(dmg) < _head(s) else "cut in data" if s["kind"].startswith("cut") else \
            "zeroed" if s["kind"].startswith("nul") else "garbled data"
        ctx.probe("cut between open and readData" if s["mode"] == "race" else where)
        if got is None:
            ctx.probe("damage refused")
        else:
            dt = dmg.decode("utf-8", "surrogateescape")
            bad = None
            try:
                if s["mode"] == "race":
                    # header came from the original, data from the damaged file
                    hl = _head(s)
                    want, bad = refna.parse_prefix(s["text"].encode()[:hl].decode() + dmg[hl:].decode("utf-8", "surrogateescape"), s["ihl"])
                else:
                    want, bad = refna.parse_prefix(dt, s["ihl"])
            except refna.Malformed as e:
                v.append(("header", "a file with a damaged header (%s: %s) was read as if complete" % (s["kind"], e)))
            else:
                if csv:
                    want = _ten(want)
                e = refna.diff(want, got)
                if e:
                    v.append(("invented", "%s (%s), %s%s: returned other data than the intact part holds: %s" %
                              (brief_doc(d), s["mode"], s["kind"], " [%s]" % bad if bad else "", "; ".join(e))))
                else:
                    ctx.probe("intact part returned")
    # recovery
    q = recs[n + 1]
    if not q.get("ok"):
        v.append(("recovery", "after a %s the intact file is refused: %s" % (s["kind"], excs(q))))
    else:
        e = read_matches(q["ret"], d, None)
        if e:
            v.append(("recovery", "after a %s the intact file reads differently: %s" % (s["kind"], e)))
    if len(ops) > n + 2 and recs[0].get("ok"):
        ctx.probe("retried on the same object")
        if not recs[-2].get("ok"):
            v.append(("retry", "after a %s the same object cannot read the intact file: %s" % (s["kind"], excs(recs[-2]))))
        else:
            e = read_matches(recs[-1]["ret"], d, None)
            if e:
                v.append(("retry", "after a %s the same object reads the intact file differently: %s" % (s["kind"], e)))
    return v


def _ten(c):
    f = lambda v: float("%.10g" % v) if isinstance(v, float) else v
    return {k: refna.deep(f, v) if k in ("X", "V", "A", "AX") else v for k, v in c.items()}


def _head(s):
    lines = re.findall(r"[^\r\n]*(?:\r\n|\r|\n|$)", s["text"])
    nl = int(lines[s["ihl"]].split()[0]) + s["ihl"]
    return len("".join(lines[:nl]).encode())


def shrink(s):
    p = s["prog"]
    for k, z in (("noise", None), ("blk", 0), ("clock", None)):
        if p.get(k):
            yield dict(s, prog=dict(p, **{k: z}))
    if len(s["faults"]) > 1:
        yield dict(s, faults=s["faults"][:1])
    if s["damaged"] is not None and s["kind"].startswith("cut"):
        for d in gen.simpler(s["doc"]):
            t = refna.render(d, None, ["ignored line"] * s["ihl"])
            n = len(t.encode())
            for at in sorted({n - 1, n - 2, n - 4, n // 2, n * 3 // 4, len(s["damaged"])} & set(range(n))):
                yield dict(s, doc=d, text=t, damaged=t.encode()[:at].decode("latin-1"))
    elif s["damaged"] is None:
        for d in gen.simpler(s["doc"]):
            yield dict(s, doc=d, text=refna.render(d, None, ["ignored line"] * s["ihl"]))


def describe(s, ctx):
    out = {"doc": brief_doc(s["doc"]), "mode": s["mode"], "damage": s["kind"], "via": s["via"], "faults": s["faults"], "noise": s["prog"].get("noise")}
    if s["damaged"] is not None and len(s["damaged"]) < 3000:
        out["damaged_tail"] = s["damaged"][-300:]
    return out
