"""One simulated run: scratch directory, process lives, bookkeeping, minimisation."""
import collections
import hashlib
import json
import os
import random
import shutil
import tempfile
import time
import traceback

from sim import life


class Ctx:
    def __init__(self, tier="quick"):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.base = tempfile.mkdtemp(prefix="nasim-", dir=base)
        self.dir = os.path.join(self.base, "d")
        with open(os.path.join(self.base, "pid"), "w") as f:
            f.write(str(os.getpid()))
        self.tier = tier
        self._nc = {}
        self.begin()
        self.planning = False

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    # --- per run
    def begin(self):
        self.h = hashlib.sha1()
        self.th = hashlib.sha1()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.lives = 0
        self.plan_lives = 0
        self.sim_ns = 0
        self.events = 0
        self.nontrivial = False
        self.log = []

    def fresh(self, files=None):
        """Empty the scratch directory (a new disk) and put the given files on it."""
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.mkdir(self.dir)
        for k, v in (files or {}).items():
            p = os.path.join(self.dir, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if k.endswith("/"):
                continue
            if isinstance(v, dict):
                v = self._netcdf(v)
            with open(p, "wb") as f:
                f.write(v if isinstance(v, bytes) else v.encode("utf-8"))

    def _netcdf(self, spec):
        """The bytes of the NetCDF file a dataset specification describes."""
        k = repr(spec)
        if k not in self._nc:
            from model import ncgen
            if len(self._nc) > 20:
                self._nc.clear()
            t = os.path.join(self.base, "t.nc")
            ncgen.write(spec, t)
            with open(t, "rb") as f:
                self._nc[k] = f.read()
            os.unlink(t)
        return self._nc[k]

    def life(self, prog, plan=False, twin=None):
        """`twin`: run in an interpreter with this hash seed and locale instead of this one."""
        prog = dict(prog, dir=self.dir)
        if twin is None:
            o = life.run_life(prog)
        else:
            from sim import twin as t
            o = t.get(*twin).run_life(prog)
        o.dir = self.dir
        self.lives += 1
        if plan or self.planning:
            self.plan_lives += 1
            return o
        self.sim_ns += o.sim_ns
        self.events += len(o.events)
        for k, v in o.fired.items():
            self.faults[k] += v
        sig = [(e[0], o.names[e[1]] if 0 <= e[1] < len(o.names) else "?", e[2], e[3], e[4]) for e in o.events]
        recs = [{k: v for k, v in r.items()} for r in o.recs]
        txt = repr((o.status, sig, recs, o.final)).replace(self.dir, "<D>")
        self.h.update(txt.encode("utf-8", "replace"))
        self.th.update(repr((o.status, [(e[0], e[1], e[4]) for e in sig], [(r["do"], r.get("ok"), (r.get("exc") or [0])[0]) for r in recs],
                             (o.final or {}).get("sched", {}).get("trace") if o.final else None,
                             [r.get("lines") for r in recs if not r.get("ok")])).encode())
        return o

    def path(self, f):
        return os.path.join(self.dir, f)

    def exists(self, f):
        return os.path.exists(self.path(f))

    def read(self, f):
        with open(self.path(f), "rb") as h:
            return h.read()

    def text(self, f):
        return self.read(f).decode("utf-8", "surrogateescape")

    def tree(self):
        out = {}
        for root, ds, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.dir)
                if os.path.isfile(p):
                    with open(p, "rb") as h:
                        out[rel] = h.read()
        return out

    def note(self, data):
        self.h.update(repr(data).replace(self.dir, "<D>").encode("utf-8", "replace"))

    def probe(self, name, n=1):
        self.probes[name] += n


def rng_for(prop, seed, i):
    return random.Random("%s/%d/%d" % (prop, seed, i))


def one(mod, s, ctx):
    """Execute a scenario; returns [(class, message)]."""
    ctx.begin()
    try:
        v = mod.run(s, ctx) or []
    except (KeyError, TypeError, ValueError, IndexError, AttributeError) as e:
        # the code returned something the oracle cannot even interpret
        tb = traceback.extract_tb(e.__traceback__)[-1]
        v = [("unusable", "what was returned or written cannot be interpreted: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))]
    ctx.note(v)
    return v


def as_json(s):
    return json.loads(json.dumps(s))


def minimise(mod, s, cls, ctx, budget_s=60, tries=200):
    """Greedy shrinking while some violation of the same class persists."""
    t0 = time.monotonic()
    n = 0
    best = s
    progress = True
    while progress and n < tries and time.monotonic() - t0 < budget_s:
        progress = False
        for c in mod.shrink(best):
            if n >= tries or time.monotonic() - t0 > budget_s:
                break
            n += 1
            try:
                c = as_json(c)
                vs = one(mod, c, ctx)
            except life.HarnessError:
                continue
            except Exception:
                continue
            if any(x[0] == cls for x in vs):
                best = c
                progress = True
                break
    return best, n


def drop_each(lst):
    """Lists with one element (or half) removed."""
    if len(lst) > 3:
        yield lst[len(lst) // 2:]
        yield lst[:len(lst) // 2]
    for i in range(len(lst)):
        yield lst[:i] + lst[i + 1:]
