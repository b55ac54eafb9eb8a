"""C02: reading returns exactly what the file says, however its bytes arrive."""
import random

from model import gen, refna
from props.common import *
from props import common

ID = "C02"
LEVEL = "exploration"
QUICK = 5000
THOROUGH = 60000
RULE = ("One run = one process life reading one to four generated files (nine FFIs, random legal layout, line endings, ignored leading lines) through several file "
        "objects whose open/readData/getNADict/accessor/close calls are interleaved by the seed, with seeded short and interrupted reads, buffer sizes, and writers of "
        "other files in between; every returned dictionary is compared with the generating document. Non-trivial: at least one dictionary was compared while another "
        "object was open, or with short/interrupted reads, or after a repeated readData.")
MUST = ["two objects open", "data read twice", "ignored lines", "short reads", "read while another file is being written"]


def ihl_lines(r):
    return [gen.text(r, 1, 4).replace("{", "").replace("}", "") or "x" for _ in range(r.choice([1, 2, 3]))]


def generate(r, ctx):
    docs, files, seqs, info = {}, {}, [], {}
    for i in range(r.choice([1, 1, 2, 2, 3])):
        d = gen.doc(r, big=r.random() < 0.1)
        f = r.choice(["f%d.na", "f%d", "sub/f%d.na", "f %d.txt"]) % i
        ihl = ihl_lines(r) if r.random() < 0.2 else []
        docs["d%d" % i] = d
        st = refna.Style(random.Random(r.randrange(2 ** 31)) if r.random() < 0.85 else None)
        files[f] = refna.render(d, st, ihl)
        info[f] = {"doc": "d%d" % i, "ihl": ihl}
        for j in range(r.choice([1, 1, 2])):
            if r.random() < 0.15:
                op = {"do": "read", "file": f, "style": r.choice(["plain", "with"])}
                if ihl:
                    op["ihl"] = len(ihl)
                seqs.append([op])
                continue
            o = "o%d%d" % (i, j)
            op = {"do": "open", "as": o, "file": f}
            if ihl:
                op["ihl"] = len(ihl)
            q = [op]
            if r.random() < 0.3:
                q.append({"do": "meta", "obj": o})
            for _ in range(r.choice([1, 1, 2, 3])):
                q.append({"do": "call", "obj": o, "meth": "readData"})
                if r.random() < 0.6:
                    q.append({"do": "call", "obj": o, "meth": "getNADict", "ret": True})
            if r.random() < 0.3:
                q.append({"do": "call", "obj": o, "meth": "close"})
            q.append({"do": "call", "obj": o, "meth": "getNADict", "ret": True})
            if r.random() < 0.3:
                q.append({"do": "meta", "obj": o})
            if r.random() < 0.2:
                q.append({"do": "drop", "obj": o})
            seqs.append(q)
    if r.random() < 0.25:
        d = gen.doc(r)
        docs["w"] = d
        seqs.append([{"do": "open", "as": "w", "file": "w.na", "mode": "w", "doc": "w"},
                     {"do": "call", "obj": "w", "meth": "write", "kw": write_kw(r)}, {"do": "call", "obj": "w", "meth": "close"}])
    ops = []
    seqs = [list(q) for q in seqs]
    while seqs:
        q = r.choice(seqs)
        ops.append(q.pop(0))
        if not q:
            seqs.remove(q)
    return {"docs": docs, "files": files, "info": info, "ops": ops, "prog": base_prog(r)}


def check_meta(m, d, text, ihl):
    c = refna.canon(d)
    top = int(text.replace("\r\n", "\n").replace("\r", "\n").split("\n")[len(ihl)].split()[0]) + len(ihl)
    want = {"ffi": c["FFI"], "n": top, "org": c["ORG"], "orig": c["ONAME"], "src": c["SNAME"], "mis": c["MNAME"], "vol": [c["IVOL"], c["NVOL"]],
            "dates": [c["DATE"], c["RDATE"]], "nc": c["NCOM"], "sc": c["SCOM"]}
    out = refna.diff(want, {k: m[k] for k in want})
    miss, scal = c["VMISS"], c["VSCAL"]
    if not refna.same([[v[2], v[3]] for v in m["vars"]], [[a, b] for a, b in zip(miss, scal)]):
        out.append("variables' missing value and scale: %r" % m["vars"])
    if c["NAUXV"]:
        sc = c["ASCAL"] + [None] * c["NAUXC"]
        if not refna.same([[v[2], v[3]] for v in m["avars"]], [[a, b] for a, b in zip(c["AMISS"], sc)]):
            out.append("auxiliary variables' missing value and scale: %r" % m["avars"])
    for got, names in ((m["vars"], c["VNAME"]), (m["ivars"], c["XNAME"]), (m["avars"], c["ANAME"])):
        if len(got) != len(names):
            out.append("%d items listed, %d in file" % (len(got), len(names)))
            continue
        for g, nm in zip(got, names):
            if "(" not in nm and (g[0] != nm or g[1] is not None):
                out.append("name %r listed as %r" % (nm, g[:2]))
    return "; ".join(out[:4])


def run(s, ctx):
    ctx.fresh(s["files"])
    o = ctx.life(dict(s["prog"], docs={"w": s["docs"].get("w")}, ops=s["ops"]))
    if hang_of(o):
        return [("hang", "an operation did not finish: %s" % hang_of(o))]
    if o.status != "exit":
        return [("died", "process ended with %s" % o.status)]
    v, obj, nread = [], {}, {}
    noisy = bool(o.fired.get("short") or o.fired.get("eintr"))
    if o.fired.get("short"):
        ctx.probe("short reads")
    for i, op in enumerate(s["ops"]):
        rec = o.rec(i)
        name = op.get("obj") or op.get("as")
        if op["do"] == "open":
            obj[name] = op
            nread[name] = 0
        elif op["do"] == "drop" or op.get("meth") == "close":
            pass
        if not rec.get("ok"):
            if name == "w":
                continue      # writing is not this property's concern
            v.append(("refused", "%s on a legal file (%s) failed: %s" % (brief_op(op), _doc(s, obj, op), excs(rec))))
            continue
        if name == "w":
            continue
        f = op.get("file") or obj[name]["file"]
        inf = s["info"][f]
        d = s["docs"][inf["doc"]]
        if op.get("meth") == "readData":
            nread[name] += 1
        ret = None
        if op["do"] == "read":
            ret = rec["ret"]
        elif op.get("meth") == "getNADict" and nread[name]:
            ret = rec["ret"]
            if nread[name] > 1:
                ctx.probe("data read twice")
                ctx.nontrivial = True
        elif op["do"] == "meta":
            e = check_meta(rec["ret"], d, s["files"][f], inf["ihl"])
            ctx.probe("accessors")
            if e:
                v.append(("accessors", "%s (%s): %s" % (f, brief_doc(d), e)))
        if ret is not None:
            if inf["ihl"]:
                ctx.probe("ignored lines")
                if ret.get("ignored_header_lines") != [x.strip() for x in inf["ihl"]]:
                    v.append(("ignored", "ignored lines %r returned as %r" % (inf["ihl"], ret.get("ignored_header_lines"))))
            e = read_matches(ret, d, None)
            if e:
                v.append(("content", "step %d: %s (%s) read as something else: %s" % (i, f, brief_doc(d), e)))
            opened = [k for k, x in obj.items() if k != name and k != "w"]
            if opened:
                ctx.probe("two objects open")
            if "w" in obj:
                ctx.probe("read while another file is being written")
            if opened or noisy:
                ctx.nontrivial = True
    return v


def _doc(s, obj, op):
    f = op.get("file") or obj.get(op.get("obj"), {}).get("file")
    return brief_doc(s["docs"][s["info"][f]["doc"]]) if f in s["info"] else "?"


def shrink(s):
    names = list(dict.fromkeys(op.get("obj") or op.get("as") or "file:" + op["file"] for op in s["ops"]))
    for k in names:
        ops = [op for op in s["ops"] if (op.get("obj") or op.get("as") or "file:" + op.get("file", "")) != k]
        if ops:
            yield dict(s, ops=ops)
    for i, op in enumerate(s["ops"]):
        if op["do"] != "open":
            yield dict(s, ops=s["ops"][:i] + s["ops"][i + 1:])
    p = s["prog"]
    for k, z in (("noise", None), ("blk", 0), ("clock", None)):
        if p.get(k):
            yield dict(s, prog=dict(p, **{k: z}))
    used = {op["file"] for op in s["ops"] if "file" in op}
    if any(f not in used for f in s["files"]):
        yield dict(s, files={f: t for f, t in s["files"].items() if f in used})
    for f in s["files"]:
        inf = s["info"].get(f)
        if not inf:
            continue
        plain = refna.render(s["docs"][inf["doc"]], None, inf["ihl"])
        if plain != s["files"][f]:
            yield dict(s, files=dict(s["files"], **{f: plain}))
    for t in shrink_docs(s):
        for f in s["files"]:
            inf = s["info"][f]
            if t["docs"].get(inf["doc"]) is not s["docs"].get(inf["doc"]):
                t = dict(t, files=dict(t["files"], **{f: refna.render(t["docs"][inf["doc"]], None, inf["ihl"])}))
        yield t


def describe(s, ctx):
    return {"ops": [brief_op(o) for o in s["ops"]], "docs": {k: brief_doc(d) for k, d in s["docs"].items()},
            "noise": s["prog"].get("noise"), "blk": s["prog"].get("blk"), "files": {f: t[:400] for f, t in s["files"].items()} if sum(map(len, s["files"].values())) < 3000 else "..."}
