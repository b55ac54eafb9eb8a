"""Reference model of the NASA Ames formats nappy handles, written from the format
definition (Gaines and Hipskind 1998) and independent of nappy's code: a strict parser
and a renderer that uses the liberties the format allows.
"""
import math
import re

FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)


class Malformed(Exception):
    """The text is not a complete, well-formed NASA Ames file."""


_brace = re.compile(r"^(.+)\{[^{}]*\}\s*$", re.S)


def _strip_brace(s):
    m = _brace.match(s)
    return m.group(1) if m else s


class Lines:
    def __init__(self, text, annotated=None, delim=None):
        self.delim = (delim or "").strip()
        text = text.replace("\r\n", "\n").replace("\r", "\n")
        self.l = text.split("\n")
        if self.l and self.l[-1] == "":
            self.l.pop()
        if annotated is not None:
            out = []
            for x in self.l:
                i = x.find(annotated)
                if i < 0:
                    raise Malformed("no annotation column: %r" % x[:60])
                out.append(x[i + len(annotated):])
            self.l = out
        self.i = 0

    def line(self):
        if self.i >= len(self.l):
            raise Malformed("end of file")
        self.i += 1
        return self.l[self.i - 1]

    def text(self, braces=True):
        s = self.line()
        return (_strip_brace(s) if braces else s).strip()

    def value(self):
        """A character value of the data section; a delimiter may end the line."""
        s = self.text()
        if self.delim and s.endswith(self.delim):
            s = s[:-len(self.delim)].rstrip()
        return s

    def toks(self):
        return [t for t in re.split(r"[\s,;]+", _strip_brace(self.line())) if t]

    def exact(self, n, conv):
        t = self.toks()
        if len(t) != n:
            raise Malformed("%d items where %d belong: %r" % (len(t), n, t[:8]))
        return self.conv(t, conv)

    def group(self, n, conv):
        t = []
        while len(t) < n:
            x = self.toks()
            if not x:
                raise Malformed("empty line")
            t += x
        if len(t) != n:
            raise Malformed("%d items where %d belong" % (len(t), n))
        return self.conv(t, conv)

    @staticmethod
    def conv(t, conv):
        try:
            return [conv(x) for x in t]
        except ValueError as e:
            raise Malformed(str(e))

    def more(self):
        while self.l and self.l[-1].strip() == "":
            if len(self.l) <= self.i:
                break
            self.l.pop()
        return self.i < len(self.l)


def parse_header(L, ihl=0):
    d = {}
    for _ in range(ihl):
        L.line()
    base = L.i
    d["NLHEAD"], d["FFI"] = L.exact(2, int)
    ffi = d["FFI"]
    if ffi not in FFIS:
        raise Malformed("FFI %s" % ffi)
    d["NIV"] = niv = ffi // 1000
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        d[k] = L.text()
    d["IVOL"], d["NVOL"] = L.exact(2, int)
    x = L.exact(6, int)
    d["DATE"], d["RDATE"] = x[:3], x[3:]
    if ffi in (2160, 2310):
        d["DX"] = L.exact(1, float)
    else:
        d["DX"] = L.exact(niv, float)[::-1]
    if ffi == 1020:
        d["NVPM"] = L.exact(1, int)[0]
        if d["NVPM"] < 1:
            raise Malformed("NVPM")
    if ffi == 2160:
        d["LENX"] = L.exact(1, float)[0]
    if ffi in (2010, 3010, 4010):
        nx = L.exact(niv - 1, int)
        nxdef = L.exact(niv - 1, int)
        if min(nx) < 1 or min(nxdef) < 1 or any(a > b for a, b in zip(nxdef, nx)):
            raise Malformed("NX/NXDEF")
        ax = [L.group(n, float) for n in nxdef]
        d["NX"], d["NXDEF"] = nx[::-1], nxdef[::-1]
        d["AX"] = ax[::-1]
    d["XNAME"] = [L.text() for _ in range(niv)][::-1]
    d["NV"] = nv = L.exact(1, int)[0]
    if nv < 1:
        raise Malformed("NV")
    d["VSCAL"] = L.group(nv, float)
    d["VMISS"] = L.group(nv, float)
    d["VNAME"] = [L.text() for _ in range(nv)]
    d["NAUXV"] = d["NAUXC"] = 0
    d["ASCAL"], d["AMISS"], d["ANAME"], d["LENA"] = [], [], [], []
    if ffi != 1001:
        na = d["NAUXV"] = L.exact(1, int)[0]
        nc = 0
        if ffi == 2160:
            nc = d["NAUXC"] = L.exact(1, int)[0]
        need = {2110: 1, 2160: 1, 2310: 3}.get(ffi, 0)
        if na < 0 or nc < 0 or na - nc < need:
            raise Malformed("NAUXV")
        if na:
            n = na - nc
            d["ASCAL"] = L.group(n, float)
            d["AMISS"] = L.group(n, float)
            if nc:
                d["LENA"] = L.group(nc, int)
                d["AMISS"] = d["AMISS"] + [L.text() for _ in range(nc)]
            d["ANAME"] = [L.text() for _ in range(na)]
    for k, n in (("SCOM", "NSCOML"), ("NCOM", "NNCOML")):
        c = L.exact(1, int)[0]
        if c < 0:
            raise Malformed(n)
        d[n] = c
        d[k] = [L.text(False) for _ in range(c)]
    if L.i - base != d["NLHEAD"]:
        raise Malformed("NLHEAD %d, header has %d lines" % (d["NLHEAD"], L.i - base))
    return d


def nest(flat, shape):
    if len(shape) == 1:
        return list(flat)
    step = len(flat) // shape[0]
    return [nest(flat[i * step:(i + 1) * step], shape[1:]) for i in range(shape[0])]


def flatten(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flatten(x)
        return out
    return [v]


def parse_data(L, d):
    ffi, nv, na = d["FFI"], d["NV"], d.get("NAUXV", 0)
    nc = d.get("NAUXC", 0)
    X, V, A, NX = [], [[] for _ in range(nv)], [[] for _ in range(na)], []
    d["X"], d["V"], d["A"], d["RNX"] = X, V, A, NX
    L.done = 0
    while L.more():
        L.done = len(X)
        if L.l[L.i].strip() == "":
            raise Malformed("empty line in data section")
        if ffi == 1001:
            t = L.group(1 + nv, float)
            X.append(t[0])
            for n in range(nv):
                V[n].append(t[1 + n])
            continue
        if ffi == 2160:
            X.append([L.value(), []])
            a = L.group(na - nc, float) + [L.value() for _ in range(nc)]
        else:
            t = L.group(1 + na, float)
            a = t[1:]
            X.append(t[0] if ffi not in (2110, 2310) else [t[0], []])
        for k in range(na):
            A[k].append(a[k])
        if ffi == 1010:
            for n, v in enumerate(L.group(nv, float)):
                V[n].append(v)
        elif ffi == 1020:
            p = d["NVPM"]
            t = L.group(nv * p, float)
            for n in range(nv):
                V[n] += t[n * p:(n + 1) * p]
        elif ffi in (2010, 3010, 4010):
            size = math.prod(d["NX"])
            for n in range(nv):
                V[n].append(nest(L.group(size, float), d["NX"]))
        else:
            if a[0] != int(a[0]) or a[0] < 0:
                raise Malformed("NX")
            nx = int(a[0])
            NX.append(nx)
            for n in range(nv):
                V[n].append([])
            if ffi == 2310:
                X[-1][1] = [a[1]]
                t = L.group(nv * nx, float) if nx else []
                for n in range(nv):
                    V[n][-1] = t[n * nx:(n + 1) * nx]
            else:
                for _ in range(nx):
                    t = L.group(1 + nv, float)
                    X[-1][1].append(t[0])
                    for n in range(nv):
                        V[n][-1].append(t[1 + n])
    L.done = len(X)
    return d


def parse_prefix(text, ihl=0):
    """(canonical document of the complete records before any damage, what is wrong or
    None). Raises Malformed if the header itself is damaged."""
    L = Lines(text)
    d = parse_header(L, ihl)
    bad = None
    try:
        parse_data(L, d)
    except Malformed as e:
        bad = str(e)
    n = L.done
    p = d.get("NVPM", 1) if d["FFI"] == 1020 else 1
    d["X"], d["V"], d["A"], d["RNX"] = d["X"][:n], [v[:n * p] for v in d["V"]], [a[:n] for a in d["A"]], d["RNX"][:n]
    return canon_parsed(d), bad


def parse(text, annotated=None, ihl=0, delim=None):
    L = Lines(text, annotated, delim)
    return canon_parsed(parse_data(L, parse_header(L, ihl)))


def parse_nohead(text, schema, annotated=None, delim=None):
    """Data section only; `schema` is a canonical document giving the header."""
    L = Lines(text, annotated, delim)
    d = {k: schema[k] for k in ("FFI", "NV", "NAUXV", "NAUXC", "NVPM", "NX") if k in schema}
    parse_data(L, d)
    return {k: v for k, v in canon_parsed(dict(d, **{"RNX": d["RNX"]}), data_only=True).items()}


HEAD_KEYS = ("FFI", "ONAME", "ORG", "SNAME", "MNAME", "IVOL", "NVOL", "DATE", "RDATE", "DX", "NVPM", "LENX", "NX", "NXDEF",
             "AX", "XNAME", "NV", "VSCAL", "VMISS", "VNAME", "NAUXV", "NAUXC", "ASCAL", "AMISS", "ANAME", "LENA",
             "NSCOML", "SCOM", "NNCOML", "NCOM")
DATA_KEYS = ("X", "V", "A", "RNX")


def canon_parsed(d, data_only=False):
    keys = DATA_KEYS if data_only else HEAD_KEYS + DATA_KEYS
    return {k: d[k] for k in keys if k in d}


def _num(fmt):
    if fmt is None:
        return lambda v: float(v)
    return lambda v: float(fmt % v)


def deep(f, v):
    if isinstance(v, (list, tuple)):
        return [deep(f, x) for x in v]
    return f(v)


def unquote(s):
    s = str(s)
    if s[:1] in ("'", '"'):
        s = s[1:]
    if s[-1:] in ("'", '"'):
        s = s[:-1]
    return s.strip()


def canon(d, fmt=None):
    """Canonical form of a nappy-style dictionary. With `fmt`, what a file written from
    it with that float format holds."""
    f, g = _num(fmt), _num(None)
    h = (lambda v: float("%s" % v)) if fmt is not None else g
    ffi = d["FFI"]
    c = {"FFI": ffi}
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        c[k] = unquote(d[k])
    for k in ("IVOL", "NVOL", "NV"):
        c[k] = int(d[k])
    c["DATE"], c["RDATE"] = [int(x) for x in d["DATE"]], [int(x) for x in d["RDATE"]]
    dx = d["DX"][:1] if ffi == 2310 else d["DX"]
    c["DX"] = [h(x) for x in dx]
    if ffi == 1020:
        c["NVPM"] = int(d["NVPM"])
    if ffi == 2160:
        c["LENX"] = h(d["LENX"])
    c["XNAME"] = [x.strip() for x in d["XNAME"]]
    c["VSCAL"], c["VMISS"] = [h(x) for x in d["VSCAL"]], [h(x) for x in d["VMISS"]]
    c["VNAME"] = [x.strip() for x in d["VNAME"]]
    na = c["NAUXV"] = int(d.get("NAUXV") or 0) if ffi != 1001 else 0
    nc = c["NAUXC"] = int(d.get("NAUXC") or 0) if ffi == 2160 else 0
    n = na - nc
    c["ASCAL"] = [h(x) for x in (d.get("ASCAL") or [])[:n]] if na else []
    c["AMISS"] = ([h(x) for x in d["AMISS"][:n]] + [str(x).strip() for x in d["AMISS"][n:]]) if na else []
    c["ANAME"] = [x.strip() for x in d["ANAME"]] if na else []
    c["LENA"] = [int(x) for x in d["LENA"][n:]] if nc else []
    for k, m in (("SCOM", "NSCOML"), ("NCOM", "NNCOML")):
        c[m] = int(d[m])
        c[k] = [x.strip() for x in d[k]]
    if ffi in (2010, 3010, 4010):
        c["NX"], c["NXDEF"] = [int(x) for x in d["NX"]], [int(x) for x in d["NXDEF"]]
        c["AX"] = [[f(x) for x in d["X"][i + 1][:c["NXDEF"][i]]] for i in range(len(c["NX"]))]
        c["X"] = [f(x) for x in d["X"][0]]
    elif ffi in (2110, 2310):
        c["X"] = [[f(x[0]), [f(y) for y in x[1]]] for x in d["X"]]
    elif ffi == 2160:
        c["X"] = [[x[0].strip(), [f(y) for y in x[1]]] for x in d["X"]]
    else:
        c["X"] = [f(x) for x in d["X"]]
    c["V"] = deep(f, d["V"])
    c["A"] = [[f(x) for x in a] for a in d["A"][:n]] + [[str(x).strip() for x in a] for a in d["A"][n:]] if na else []
    c["RNX"] = [int(x) for x in d["NX"]] if ffi in (2110, 2160, 2310) else []
    return c


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is bool or type(b) is bool:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def diff(a, b, path="", out=None):
    """Where two canonical values differ (first few places)."""
    out = [] if out is None else out
    if len(out) > 4 or same(a, b):
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                out.append("%s.%s only in %s" % (path, k, "expected" if k in a else "actual"))
            else:
                diff(a[k], b[k], path + "." + str(k), out)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append("%s: %d items expected, %d found" % (path, len(a), len(b)))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                diff(x, y, "%s[%d]" % (path, i), out)
    else:
        out.append("%s: %.80r expected, %.80r found" % (path, a, b))
    return out


# ------------------------------------------------------------------ renderer
class Style:
    """How a (legal) file happens to be laid out. `rng` None: plainly."""

    def __init__(self, rng=None, eol=None):
        self.r = rng
        if rng is None:
            self.sep, self.fold, self.brace, self.eol, self.tail, self.blank, self.num = " ", 0, 0, "\n", 0, 0, 0
        else:
            self.sep = rng.choice([" ", "  ", "    ", "\t", "mix"])
            self.fold = rng.choice([0, 0, 0.1, 0.4])
            self.brace = rng.choice([0, 0, 0.3])
            self.eol = eol or rng.choice(["\n"] * 9 + ["\r\n"] * 3 + ["\r"])
            self.tail = rng.choice([0, 0, 0.2])
            self.blank = rng.choice([0, 0, 0, 1, 3])
            self.num = rng.choice([0, 0, 1])

    def n(self, v):
        if isinstance(v, int):
            return "%d" % v
        if not self.num or self.r.random() < 0.4:
            return repr(v)
        k = self.r.randrange(5)
        s = repr(v)
        if k == 0:
            s = "%.17e" % v
        elif k == 1:
            s = "%.17E" % v
        elif k == 2 and v == int(v) and abs(v) < 1e15:
            s = "%d" % v if v or math.copysign(1, v) > 0 else s
        elif k == 3 and v == int(v) and abs(v) < 1e15 and (v or math.copysign(1, v) > 0):
            s = "%d." % v
        elif k == 4 and v >= 0:
            s = s if s[0] in "+-" else "+" + s
        return s

    def join(self, toks):
        if self.sep != "mix":
            return self.sep.join(toks)
        out = toks[0] if toks else ""
        for t in toks[1:]:
            out += self.r.choice([" ", "  ", "\t", " \t "]) + t
        return out

    def lead(self, s):
        if self.r is not None and self.tail and s:
            if self.r.random() < self.tail:
                s = " " + s
            if self.r.random() < self.tail:
                s += "  "
        return s


def render(d, style=None, ihl_lines=()):
    """Text of a legal file holding document `d` (nappy conventions)."""
    st = style or Style()
    c = canon(d)
    ffi, nv, na, nc = c["FFI"], c["NV"], c["NAUXV"], c["NAUXC"]
    H = []

    def put(s, name=None, raw=False):
        if not raw:
            s = st.lead(s)
            if name and st.brace and st.r.random() < st.brace:
                s = s + "    {%s}" % name
        H.append(s)

    def nums(v, name=None, fold=False):
        for ln in lines_of(v, fold):
            put(ln, name)

    def lines_of(v, fold):
        t = [st.n(x) for x in v]
        out, cur = [], []
        for i, x in enumerate(t):
            cur.append(x)
            if fold and st.fold and i + 1 < len(t) and st.r.random() < st.fold:
                out.append(st.join(cur))
                cur = []
        out.append(st.join(cur))
        return out

    put("", raw=True)
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        put(c[k], k)
    nums([c["IVOL"], c["NVOL"]], "IVOL NVOL")
    nums(c["DATE"] + c["RDATE"], "DATE RDATE")
    nums(c["DX"] if ffi in (2160, 2310) else c["DX"][::-1], "DX")
    if ffi == 1020:
        nums([c["NVPM"]], "NVPM")
    if ffi == 2160:
        nums([int(c["LENX"])], "LENX")
    if "AX" in c:
        nums(c["NX"][::-1], "NX")
        nums(c["NXDEF"][::-1], "NXDEF")
        for a in c["AX"][::-1]:
            nums(a, "X", True)
    for x in c["XNAME"][::-1]:
        put(x, "XNAME")
    nums([nv], "NV")
    nums(c["VSCAL"], "VSCAL", True)
    nums(c["VMISS"], "VMISS", True)
    for x in c["VNAME"]:
        put(x, "VNAME")
    if ffi != 1001:
        nums([na], "NAUXV")
        if ffi == 2160:
            nums([nc], "NAUXC")
        if na:
            nums(c["ASCAL"], "ASCAL", True)
            nums(c["AMISS"][:na - nc], "AMISS", True)
            if nc:
                nums(c["LENA"], "LENA", True)
                for x in c["AMISS"][na - nc:]:
                    put(x, "AMISS")
            for x in c["ANAME"]:
                put(x, "ANAME")
    nums([c["NSCOML"]], "NSCOML")
    for x in c["SCOM"]:
        put(st.lead(x), raw=True)
    nums([c["NNCOML"]], "NNCOML")
    for x in c["NCOM"]:
        put(st.lead(x), raw=True)
    H[0] = st.join(["%d" % len(H), "%d" % ffi])
    if st.brace and st.r.random() < st.brace:
        H[0] += "    {NLHEAD  FFI}"
    D = []

    def rec(v):
        D.extend(st.lead(x) for x in lines_of(v, True))

    for m in range(len(c["X"])):
        a = [x[m] for x in c["A"]]
        x = c["X"][m]
        if ffi == 1001:
            rec([x] + [c["V"][n][m] for n in range(nv)])
            continue
        if ffi == 2160:
            D.append(st.lead(x[0]))
            rec([_int_first(a[0])] + a[1:na - nc])
            D.extend(st.lead(y) for y in a[na - nc:])
        elif ffi in (2110, 2310):
            rec([x[0], _int_first(a[0])] + a[1:])
        else:
            rec([x] + a)
        if ffi == 1010:
            rec([c["V"][n][m] for n in range(nv)])
        elif ffi == 1020:
            p = c["NVPM"]
            t = []
            for n in range(nv):
                t += c["V"][n][m * p:(m + 1) * p]
            if st.fold and st.r.random() < 0.5:
                rec(t)
            else:
                for n in range(nv):
                    rec(t[n * p:(n + 1) * p])
        elif "AX" in c:
            for n in range(nv):
                v = c["V"][n][m]
                rec(flatten(v))
        elif ffi == 2310:
            if c["RNX"][m]:
                if st.r is not None and st.r.random() < 0.5:
                    for n in range(nv):
                        rec(c["V"][n][m])
                else:
                    rec(flatten([c["V"][n][m] for n in range(nv)]))
        else:
            for p in range(c["RNX"][m]):
                rec([x[1][p]] + [c["V"][n][m][p] for n in range(nv)])
    L = list(ihl_lines) + H + D + [""] * st.blank
    return st.eol.join(L) + st.eol


def _int_first(v):
    return int(v) if v == int(v) else v
