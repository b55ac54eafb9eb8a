"""One simulated process life = one forked child that imports nappy afresh.

The worker that forks has the third-party libraries loaded but not nappy, so a child
starts from a pristine nappy (module state included) in milliseconds. The child runs a
program of operations (a JSON value) against the real code in a private scratch
directory, with files, clock, stdin, time zone, temporary names and faults owned by the
simulator, and reports each operation's outcome over a pipe as soon as it returns: an
outcome that reached the pipe before a crash is an acknowledgement.
"""
import builtins
import copy
import errno
import gc
import hashlib
import importlib._bootstrap_external as _be
import io
import math
import os
import pickle
import random
import re
import resource
import select
import signal
import struct
import sys
import time as _time
import traceback

from sim import shim
from sim.monitor import LineBudget, Monitor

REPO = os.environ.get("NAPPY_REPO", "/repo")
PKG = os.path.join(REPO, "nappy") + os.sep
CONFIG = os.path.join(REPO, "nappy", "config")
CONFIG2 = os.path.join(REPO, "nappy", "utils", "../config")      # as the code spells it
CPU_LIMIT = 30
SLOW = os.environ.get("SIM_SLOW")      # a file to note slow lives in
WALL_LIMIT = 150
LINE_BUDGET = 4_000_000


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ code cache
_codes = {}
_orig_get_code = _be.SourceFileLoader.get_code


def _get_code(self, fullname):
    path = self.get_filename(fullname)
    if path.startswith(PKG):
        c = _codes.get(path)
        if c is None:
            with open(path, "rb") as f:
                c = _codes[path] = compile(f.read(), path, "exec", dont_inherit=True)
        return c
    return _orig_get_code(self, fullname)


def prepare():
    """Run once in the worker: third-party imports, nappy sources compiled from disk."""
    if not shim.PRESENT:
        raise HarnessError("libc seam not loaded")
    import numpy, xarray, netCDF4, cftime, cf_xarray  # noqa
    import configparser, logging, getopt, re, io, copy  # noqa
    import xarray.backends.netCDF4_  # noqa
    import locale, tempfile, csv, shutil, json, fnmatch, string  # noqa
    # Warm third-party lazy state (plugin discovery, pint/cf lookups) outside any run
    ds = xarray.Dataset({"v": ("time", numpy.arange(2.0))}, coords={"time": [0., 1.]})
    ds["time"].attrs.update(units="days since 2000-01-01", standard_name="time")
    "time" in ds["time"].cf
    xarray.backends.plugins.list_engines()
    xarray.decode_cf(ds, decode_times=xarray.coders.CFDatetimeCoder(use_cftime=True))
    _be.SourceFileLoader.get_code = _get_code
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for root, _, files in os.walk(PKG):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                with open(p, "rb") as h:
                    try:
                        _codes[p] = compile(h.read(), p, "exec", dont_inherit=True)
                    except SyntaxError:
                        pass
    if any(m == "nappy" or m.startswith("nappy.") for m in sys.modules):
        raise HarnessError("nappy already imported in the worker")
    gc.collect()
    gc.freeze()


# ------------------------------------------------------------------ plain values
def plain(v, depth=0):
    """A JSON-able image of a value, keeping what a user can observe of it."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if type(v) in (int, float):
        return v
    if depth > 12:
        return "..."
    if isinstance(v, dict):
        return {str(k): plain(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x, depth + 1) for x in v), key=repr)
    import numpy as np
    if isinstance(v, np.generic):
        return plain(v.item(), depth + 1)
    if isinstance(v, np.ndarray):
        return plain(v.tolist(), depth + 1)
    t = type(v).__name__
    if t == "DataArray":
        return plain_da(v, depth)
    if t == "Dataset":
        return {"vars": {str(k): plain_da(v[k], depth) for k in v.variables},
                "attrs": plain(dict(v.attrs), depth + 1)}
    if hasattr(v, "isoformat"):
        return v.isoformat()
    if isinstance(v, bytes):
        return v.decode("latin-1")
    return "<%s>" % t


def plain_da(v, depth=0):
    return {"name": plain(v.name), "dims": list(v.dims), "data": plain(v.values.tolist(), depth + 1),
            "dtype": v.dtype.kind,
            "attrs": plain(dict(v.attrs), depth + 1), "enc": plain({k: x for k, x in v.encoding.items()
                                                                    if k in ("units", "calendar", "_FillValue", "missing_value")}, depth + 1),
            "coords": {str(k): plain(v.coords[k].values.tolist(), depth + 1) for k in v.coords},
            "cunits": {str(k): plain(v.coords[k].attrs.get("units")) for k in v.coords}}


def typed(v, depth=0):
    """An image of a value that also tells apart types (for noticing alterations)."""
    if isinstance(v, dict):
        return (type(v).__name__, [(k, typed(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [typed(x, depth + 1) for x in v])
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, repr(v))
    t = type(v).__name__
    if t == "DataArray":
        return (t, [("name", typed(v.name)), ("dims", typed(list(v.dims))), ("data", (str(v.dtype), repr(v.values.tolist()))),
                    ("attrs", typed(dict(v.attrs))), ("encoding", typed({k: x for k, x in v.encoding.items() if k != "source"})),
                    ("coords", [(str(k), [("values", repr(c.values.tolist())), ("attrs", typed(dict(c.attrs))), ("enc", typed(dict(c.encoding)))])
                                for k, c in v.coords.items()])])
    if t == "Dataset":
        return (t, [(str(k), typed(v[k])) for k in v.variables] + [("attrs", typed(dict(v.attrs)))])
    if hasattr(v, "tolist"):
        return (t, str(getattr(v, "dtype", "")) + repr(v.tolist()))
    return (t, "")


def tdiff(a, b, path):
    """Where two typed images first differ, or None."""
    if a == b or repr(a) == repr(b):
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                d = tdiff(x, y, "%s/%s" % (path, x[0]) if isinstance(x, (list, tuple)) and x and isinstance(x[0], str) and len(x) == 2 else path)
                if d:
                    return d
        elif all(isinstance(x, (list, tuple)) and len(x) == 2 for x in list(a) + list(b)):
            ka, kb = [str(x[0]) for x in a], [str(x[0]) for x in b]
            return "%s: %d items became %d (%s)" % (path, len(a), len(b), [k for k in kb if k not in ka] or [k for k in ka if k not in kb])
    return "%s: %s became %s" % (path, repr(a)[:150], repr(b)[:150])


# ------------------------------------------------------------------ scripted stdin
class ScriptedInput(io.TextIOBase):
    def __init__(self, lines):
        self.lines = list(lines)
        self.asked = 0

    def readline(self, *a):
        self.asked += 1
        if self.asked > 64:
            raise LineBudget("stdin asked more than 64 times")
        if self.lines and isinstance(self.lines[0], dict):
            x = self.lines.pop(0)["raise"]
            raise OSError(errno.EIO, "simulated error on stdin") if x == "EIO" else KeyboardInterrupt()
        return (self.lines.pop(0) + "\n") if self.lines else ""

    def readable(self):
        return True


# ------------------------------------------------------------------ the interpreter of operations
class Interp:
    def __init__(self, prog, send):
        self.prog = prog
        self.send = send
        self.objs = {}
        self.docs = prog.get("docs", {})      # live objects: the caller's own
        self.dss = {}
        self.mon = None
        self.argmut = []
        self.prev = {}

    # argument references
    def val(self, v):
        if isinstance(v, dict):
            if "$doc" in v:
                return self.docs[v["$doc"]]
            if "$ds" in v:
                return self.ds(v["$ds"])
            if "$obj" in v:
                return self.objs[v["$obj"]]
            if "$vars" in v:
                d = self.ds(v["$vars"])
                if "vars:" + v["$vars"] not in self.objs:
                    from model import ncgen
                    self.objs["vars:" + v["$vars"]] = ncgen.objects(self.prog["datasets"][v["$vars"]], d)
                return self.objs["vars:" + v["$vars"]]
            if "$tuples" in v:
                return [tuple(x) for x in v["$tuples"]]
            return {k: self.val(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.val(x) for x in v]
        return v

    def ds(self, name):
        if name not in self.dss:
            from model import ncgen
            self.dss[name] = ncgen.build(self.prog["datasets"][name])
        return self.dss[name]

    def do(self, op):
        k = op["do"]
        return getattr(self, "op_" + k)(op)

    # --- primitive operations on the real code
    def nappy(self):
        import nappy
        return nappy

    def resolve(self, dotted):
        mod, _, name = dotted.rpartition(".")
        import importlib
        return getattr(importlib.import_module(mod), name)

    def op_import(self, op):
        import importlib
        for m in op.get("mods", ["nappy"]):
            importlib.import_module(m)

    def op_open(self, op):
        kw = {"mode": op.get("mode", "r")}
        if "doc" in op:
            kw["na_dict"] = self.docs[op["doc"]]
        if op.get("ihl"):
            kw["ignore_header_lines"] = op["ihl"]
        self.objs[op["as"]] = self.nappy().openNAFile(op["file"], **kw)

    def invoke(self, f, args, kw):
        """Call the real code, noticing whether it altered the argument lists it was given."""
        if not self.prog.get("watch"):
            return f(*args, **kw)
        before = typed([args, kw])
        try:
            return f(*args, **kw)
        finally:
            d = tdiff(before, typed([args, kw]), "arguments")
            if d:
                self.argmut.append(d)

    def op_watch(self, op):
        """What changed in the caller's own objects since the last look, and the state of the disk."""
        cur = {}
        for k in self.prog.get("datasets", {}):
            cur["dataset " + k] = typed(self.ds(k))
            if k in op.get("vars", []):
                self.val({"$vars": k})
        for k, d in self.docs.items():
            cur["document " + k] = typed(d)
        for k, d in self.objs.items():
            if k.startswith("vars:"):
                cur["variables " + k[5:]] = typed(d)
        out = list(self.argmut)
        del self.argmut[:]
        for k, v in cur.items():
            if k in self.prev:
                old = self.prev[k]
                if k.startswith("document ") and not any(x[0] == "FFI" for x in old[1]):
                    v = (v[0], [x for x in v[1] if x[0] != "FFI"])
                d = tdiff(old, v, k)
                if d:
                    out.append(d)
            self.prev[k] = v
        shim.active(False)
        tree = {}
        try:
            for root, _, fs in os.walk(self.prog["dir"]):
                for f in sorted(fs):
                    with open(os.path.join(root, f), "rb") as h:
                        b = h.read()
                    tree[os.path.relpath(os.path.join(root, f), self.prog["dir"])] = b.decode("utf-8", "replace") if op.get("text") else hashlib.sha1(b).hexdigest()
        finally:
            shim.active(True)
        return {"changed": out, "tree": tree}

    def op_call(self, op):
        r = self.invoke(getattr(self.objs[op["obj"]], op["meth"]), self.val(op.get("args", [])), self.val(op.get("kw", {})))
        if op.get("as"):
            self.objs[op["as"]] = r
        if op.get("asdoc"):
            self.docs[op["asdoc"]] = r
        return plain(r) if op.get("ret") else None

    def op_with(self, op):
        """A with block around several calls, left normally or by an exception of the caller."""
        n = self.nappy()
        kw = {"mode": op.get("mode", "r")}
        if "doc" in op:
            kw["na_dict"] = self.docs[op["doc"]]
        r = None
        if op.get("obj"):
            cm = self.objs[op["obj"]]
        else:
            cm = n.openNAFile(op["file"], **kw)
        with cm as f:
            del cm
            for c in op["body"]:
                r = getattr(f, c["meth"])(**c.get("kw", {}))
            if op.get("raise"):
                raise RuntimeError("the caller's own error")
        return plain(r) if op.get("ret") else None

    def op_drop(self, op):
        self.objs.pop(op["obj"], None)

    def op_fn(self, op):
        f = self.resolve(op["name"]) if "." in op["name"] else getattr(self.nappy(), op["name"])
        r = self.invoke(f, self.val(op.get("args", [])), self.val(op.get("kw", {})))
        if op.get("as"):
            self.objs[op["as"]] = r
        return plain(r) if op.get("ret", True) else None

    def op_new(self, op):
        self.objs[op["as"]] = self.resolve(op["cls"])(*self.val(op.get("args", [])), **self.val(op.get("kw", {})))

    def op_attr(self, op):
        return plain(getattr(self.objs[op["obj"]], op["attr"]))

    def op_script(self, op):
        f = self.resolve("nappy.script.%s.%s" % (op["name"], op["name"]))
        if not op.get("out"):
            return plain(self.invoke(f, [list(op["argv"])], {}))
        at = sys.stdout.tell()
        r = plain(self.invoke(f, [list(op["argv"])], {}))
        return [r, sys.stdout.getvalue()[at:]]

    def op_write(self, op):
        """The documented way to write a file: open, write, close."""
        n = self.nappy()
        doc = self.docs[op["doc"]]
        kw = op.get("kw", {})
        if op.get("style") == "with":
            with n.openNAFile(op["file"], "w", doc) as f:
                f.write(**kw)
        else:
            f = n.openNAFile(op["file"], "w", doc)
            f.write(**kw)
            f.close()

    def op_read(self, op):
        """The documented way to read a file: open, readData, getNADict, close."""
        n = self.nappy()
        kw = {"ignore_header_lines": op["ihl"]} if op.get("ihl") else {}
        pat = op.get("pattern")
        if pat and pat[0] == "call":
            kw["var_and_units_callback"] = lambda item: (item[::-1], "units of the caller")
        m = None
        if op.get("style") == "with":
            with n.openNAFile(op["file"], **kw) as f:
                if pat and pat[0] == "set":
                    f.var_and_units_pattern = re.compile(pat[1])
                f.readData()
                d = f.getNADict()
                if op.get("meta"):
                    m = [f.getVariables(), f.getIndependentVariables(), f.getAuxVariables(), f.ignored_header_lines]
        else:
            f = n.openNAFile(op["file"], **kw)
            if pat and pat[0] == "set":
                f.var_and_units_pattern = re.compile(pat[1])
            f.readData()
            d = f.getNADict()
            if op.get("meta"):
                m = [f.getVariables(), f.getIndependentVariables(), f.getAuxVariables(), f.ignored_header_lines]
            f.close()
        if op.get("as"):
            self.docs[op["as"]] = d
        if m is not None:
            return [plain(d), plain(m)]
        return plain(d) if op.get("ret", True) else None

    def op_xrpipe(self, op):
        """NASA Ames to xarray objects and back, in memory."""
        n = self.nappy()
        v, a, g = n.readXarrayObjectsFromNA(op["file"], **op.get("rkw", {}))
        f = n.convertXarrayObjectsToCSV if op.get("csv") else n.convertXarrayObjectsToNA
        return plain(f(v + a, g, op["out"], **op.get("kw", {})))

    def op_rewrite(self, op):
        """Read a file and write what was read."""
        n = self.nappy()
        with n.openNAFile(op["file"]) as f:
            f.readData()
            d = f.getNADict()
        with n.openNAFile(op["out"], "w", d) as f:
            f.write(**op.get("kw", {}))
        return [op["out"]]

    def op_meta(self, op):
        f = self.objs[op["obj"]]
        return plain({"ffi": f.getFFI(), "n": f.getNumHeaderLines(), "org": f.getOrg(), "orig": f.getOriginator(),
                      "src": f.getSource(), "mis": f.getMission(), "vol": f.getVolumes(), "dates": f.getFileDates(),
                      "nc": f.getNormalComments(), "sc": f.getSpecialComments(), "vars": f.getVariables(),
                      "ivars": f.getIndependentVariables(), "avars": f.getAuxVariables()})

    # --- harness-side observations (no nappy code)
    def op_snap(self, op):
        if "doc" in op:
            return plain(self.docs[op["doc"]])
        if "vars" in op:
            return [plain(v) for v in self.val({"$vars": op["vars"]})]
        return plain(self.ds(op["ds"]))

    def op_env(self, op):
        for k, v in op["set"].items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        _time.tzset()

    def op_chdir(self, op):
        os.chdir(op["to"])

    def op_gc(self, op):
        gc.collect()

    def op_state(self, op):
        """Observable process-wide state nappy must not leave changed."""
        import locale
        n = self.nappy()
        return plain({"cwd": os.getcwd().replace(self.prog["dir"], "."), "delim": n.default_delimiter, "fmt": n.default_float_format,
                      "loc": locale.setlocale(locale.LC_ALL), "rec": sys.getrecursionlimit(),
                      "umask": _umask(), "env": {k: v for k, v in sorted(os.environ.items()) if k.startswith("NAPPY") or k == "TZ"},
                      "out": sys.stdout is self.stdout, "err": sys.stderr is self.stderr,
                      "printopt": _printopts()})

    def op_fds(self, op):
        return shim.openfds()

    def op_exit(self, op):
        os._exit(op.get("code", 0))

    def op_put(self, op):
        """Replace a file's content from outside (another program)."""
        shim.active(False)
        try:
            with open(op["file"], "wb") as f:
                f.write(op["text"].encode("latin-1" if op.get("b") else "utf-8"))
        finally:
            shim.active(True)

    def op_disk(self, op):
        """Another program removes and renames files."""
        shim.active(False)
        try:
            for f in sorted(os.listdir(".")):
                if any(f.startswith(p) for p in op.get("clear", [])) and f not in op.get("but", []):
                    os.unlink(f)
            for a, b in op.get("copy", []):
                with open(a, "rb") as h:
                    d = h.read()
                with open(b + "~new", "wb") as h:
                    h.write(d)
                os.replace(b + "~new", b)
        finally:
            shim.active(True)

    # --- running
    def run_ops(self, ops, faults, base=0, tag=None):
        for i, op in enumerate(ops):
            self.run_op(base + i, op, [f for f in faults if f.get("op") == base + i],
                        [f for f in faults if f.get("until", f.get("op")) == base + i], tag)

    def run_op(self, i, op, start, end, tag=None):
        mon = self.mon
        lo = shim.nev()
        mon.n = 0
        mon.budget = LINE_BUDGET
        mon.locs = {} if self.prog.get("locs") else None
        for f in start:
            if "line" in f:
                mon.arm(f["line"], getattr(builtins, f["exc"]))
            elif "capacity" in f:
                shim.capacity(f["capacity"])
            else:
                shim.plan(lo + f["at"], f["action"], f.get("arg", 0), f.get("kind", 0))
        if "stdin" in op:
            self.sin.lines = list(op["stdin"])
        asked = self.sin.asked
        rec = {"i": i, "do": op["do"], "lo": lo, "clk": [shim.clock_reads(), 0]}
        if tag is not None:
            rec["t"] = tag
        try:
            rec["ret"] = self.do(op)
            rec["ok"] = True
        except LineBudget as e:
            rec["ok"] = False
            rec["hang"] = True
            rec["exc"] = ["LineBudget", str(e)]
        except BaseException as e:
            rec["ok"] = False
            rec["exc"] = [type(e).__name__, str(e)[:400]]
            if "SIM_TB" in os.environ:
                sys.__stderr__.write(traceback.format_exc())
            rec["os"] = isinstance(e, OSError)
            del e
        mon.disarm()
        rec["hi"] = shim.nev()
        rec["clk"][1] = shim.clock_reads()
        rec["asked"] = self.sin.asked - asked
        rec["lines"] = mon.n
        if mon.locs is not None:
            rec["locs"] = sorted(mon.locs.values())
            mon.locs = None
        if self.gc_ops:
            gc.collect()
        rec["fds"] = shim.openfds()
        if end:
            shim.clear_plan()
        self.send(rec)


def _umask():
    m = os.umask(0)
    os.umask(m)
    return m


def _printopts():
    import numpy as np
    o = np.get_printoptions()
    return {k: str(o[k]) for k in ("precision", "threshold")}


# ------------------------------------------------------------------ child
def _child(prog, wfd):
    def send(rec):
        b = pickle.dumps(rec, protocol=5)
        b = struct.pack("<I", len(b)) + b
        while b:
            b = b[os.write(wfd, b):]

    os.chdir(prog["dir"])
    dn = os.open("/dev/null", os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(dn, fd)
    cpu = prog.get("cpu", CPU_LIMIT)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    for k in [k for k in os.environ if k.startswith("NAPPY_")]:
        del os.environ[k]
    for k, v in prog.get("env", {}).items():
        os.environ[k] = v
    os.environ["TZ"] = prog.get("tz", "UTC")
    _time.tzset()
    os.umask(0o022)
    random.seed(prog.get("seed", 0))
    import tempfile
    tempfile._name_sequence = None
    tempfile._get_candidate_names = lambda s=_Names(prog.get("seed", 0)): s
    sin = ScriptedInput(prog.get("stdin") or [])
    sys.stdin = sin
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    sys.unraisablehook = lambda *a: None
    # when the garbage collector runs is the simulator's choice too
    gc.disable()
    it = Interp(prog, send)
    it.stdout, it.stderr, it.sin = sys.stdout, sys.stderr, sin
    mon = it.mon = Monitor(PKG)
    g = random.Random("gc %r" % prog.get("seed", 0))
    it.gc_ops = g.random() < 0.6 and not prog.get("threads")
    if not prog.get("threads") and g.random() < 0.5:
        mon.gc_every = g.choice([7, 40, 150, 600])
    shim.reset()
    shim.prefix(prog["dir"] + "/")
    if prog.get("config_faults"):
        shim.prefix(CONFIG)
        shim.prefix(CONFIG2)
    if prog.get("blk"):
        shim.blksize(prog["blk"])
    if prog.get("noise"):
        shim.noise(*prog["noise"])
    c = prog.get("clock") or [1_000_000_000 * 1_600_000_000, 1_000_000]
    shim.clock(c[0], c[1])
    for at, d in prog.get("jumps", []):
        shim.jump(at, d)
    if prog.get("threads"):
        from sim import sched
        sched.install()
    shim.active(True)
    mon.start()
    try:
        if prog.get("threads"):
            sched.run(it, prog["threads"])
        else:
            it.run_ops(prog["ops"], prog.get("faults", []))
    finally:
        mon.stop()
    final = {"final": True, "nev": shim.nev(), "fds": shim.openfds(), "asked": sin.asked,
             "clock_reads": shim.clock_reads(), "clock": shim.clock_range(), "jumps": shim.jumps_fired(),
             "nshort": shim.nshort(), "neintr": shim.neintr(), "enospc": shim.enospc_hits(), "line_faults": mon.fired}
    if prog.get("threads"):
        final["sched"] = it.sched_stats
    send(final)
    if prog.get("end") == "normal":
        # an ordinary interpreter exit: objects still open are finalised
        it.objs.clear()
        it.docs.clear()
        gc.collect()
        send({"gone": True, "fds": shim.openfds()})
    shim.active(False)


class _Names:
    def __init__(self, seed):
        self.r = random.Random(seed * 7 + 1)

    def __iter__(self):
        return self

    def __next__(self):
        return "t%08x" % self.r.getrandbits(32)


class Outcome:
    """What the parent saw of one life."""

    def __init__(self):
        self.recs = []          # completed operations = acknowledgements
        self.final = None
        self.gone = None
        self.status = None      # "exit", "crash", "signal:N", "hang"
        self.events = []
        self.names = []
        self.fired = {}
        self.fds_after = 0
        self.sim_ns = 0

    def rec(self, i, tag=None):
        for r in self.recs:
            if r["i"] == i and r.get("t") == tag:
                return r
        return None


def run_life(prog, keep_events=True):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            _child(prog, w)
            code = 0
        except BaseException:
            try:
                shim.active(False)
                b = pickle.dumps({"harness": traceback.format_exc()})
                os.write(w, struct.pack("<I", len(b)) + b)
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    out = Outcome()
    buf = bytearray()
    deadline = _time.monotonic() + max(WALL_LIMIT, 6 * prog.get("cpu", CPU_LIMIT))
    wall = False
    while True:
        left = deadline - _time.monotonic()
        if left <= 0:
            wall = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    _, st, use = os.wait4(pid, 0)
    if SLOW and use.ru_utime + use.ru_stime > 4:
        with open(SLOW, "a") as fh:
            fh.write("%.1f %s\n" % (use.ru_utime + use.ru_stime, [op.get("do") for op in prog.get("ops", [])][:6]))
    off = 0
    harness = None
    while off + 4 <= len(buf):
        n = struct.unpack_from("<I", buf, off)[0]
        if off + 4 + n > len(buf):
            break
        rec = pickle.loads(bytes(buf[off + 4:off + 4 + n]))
        off += 4 + n
        if "harness" in rec:
            harness = rec["harness"]
        elif rec.get("final"):
            out.final = rec
        elif rec.get("gone"):
            out.gone = rec
        else:
            out.recs.append(rec)
    if harness:
        raise HarnessError(harness)
    if wall:
        out.status = "hang"
    elif os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        out.status = "hang" if s in (signal.SIGXCPU, signal.SIGKILL) else "signal:%d" % s
        if s == signal.SIGKILL:
            raise HarnessError("child killed (memory?)")
    else:
        code = os.WEXITSTATUS(st)
        out.status = {0: "exit", 97: "crash"}.get(code, "code:%d" % code)
        if code == 98:
            raise HarnessError("child failed without a report")
    shim.active(False)
    out.names = [n.replace(prog["dir"] + "/", "").replace(CONFIG, "<config>").replace(CONFIG2, "<config>") for n in shim.files()]
    out.events = shim.events() if keep_events else []
    for e in out.events:
        if e[4]:
            k = shim.ANAMES.get(e[4], str(e[4]))
            if k in ("err", "sticky") and e[3] < 0:
                k += ":" + errno.errorcode.get(-e[3], str(-e[3]))
            out.fired[k] = out.fired.get(k, 0) + 1
    if out.final:
        for k, n in (("short", out.final["nshort"]), ("eintr", out.final["neintr"]), ("disk-full", out.final["enospc"]),
                     ("clock-jump", out.final["jumps"]), ("interrupt-at-line", out.final["line_faults"])):
            if n:
                out.fired[k] = out.fired.get(k, 0) + n
    lo, hi = shim.clock_range()
    out.sim_ns = max(0, hi - lo)
    return out
