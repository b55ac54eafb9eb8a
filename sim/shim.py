"""ctypes face of simio.c. The library is already in the process (LD_PRELOAD)."""
import ctypes
import errno
import os

KINDS = {1: "open-r", 2: "open-w", 3: "read", 4: "write", 5: "close", 6: "sync",
         7: "trunc", 8: "rename", 9: "unlink", 10: "mkdir"}
KNUM = {v: k for k, v in KINDS.items()}
ACTIONS = {"err": 1, "short": 2, "eintr": 3, "crash": 4, "sticky": 5, "tornerr": 6}
ANAMES = {v: k for k, v in ACTIONS.items()}

_L = ctypes.CDLL(None)
try:
    PRESENT = bool(_L.simio_present())
except AttributeError:
    PRESENT = False

if PRESENT:
    i64 = ctypes.c_int64
    for n in ("nev", "clock_now", "clock_reads", "clock_min", "clock_max"):
        getattr(_L, "simio_" + n).restype = i64
    _L.simio_file.restype = ctypes.c_char_p
    _L.simio_plan.argtypes = [i64, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    _L.simio_capacity.argtypes = [i64]
    _L.simio_clock.argtypes = [i64, i64]
    _L.simio_jump.argtypes = [i64, i64]
    _L.simio_noise.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
    _L.simio_event.argtypes = [i64, ctypes.POINTER(i64)]
    _L.simio_max_events.argtypes = [i64]

reset = lambda: _L.simio_reset()
prefix = lambda p: _L.simio_prefix(p.encode())
unprefix = lambda: _L.simio_unprefix()
active = lambda on: _L.simio_active(1 if on else 0)
clear_plan = lambda: _L.simio_clear_plan()
nev = lambda: _L.simio_nev()
capacity = lambda c: _L.simio_capacity(c)
enospc_hits = lambda: _L.simio_enospc_hits()
blksize = lambda n: _L.simio_blksize(n)
noise = lambda seed, short, eintr: _L.simio_noise(seed, short, eintr)
openfds = lambda: _L.simio_openfds()
force_close = lambda: _L.simio_force_close()
nshort = lambda: _L.simio_nshort()
neintr = lambda: _L.simio_neintr()
clock = lambda now, tick: _L.simio_clock(now, tick)
clock_off = lambda: _L.simio_clock_off()
jump = lambda at, d: _L.simio_jump(at, d)
clock_now = lambda: _L.simio_clock_now()
clock_reads = lambda: _L.simio_clock_reads()
clock_range = lambda: (_L.simio_clock_min(), _L.simio_clock_max())
jumps_fired = lambda: _L.simio_jumps_fired()


def plan(at, action, arg=0, kind=0):
    _L.simio_plan(at, ACTIONS[action], arg, kind)


def files():
    return [_L.simio_file(i).decode("utf-8", "replace") for i in range(_L.simio_nfiles())]


def events(lo=0, hi=None):
    hi = nev() if hi is None else hi
    o = (ctypes.c_int64 * 5)()
    out = []
    for i in range(lo, min(hi, 200000)):
        _L.simio_event(i, o)
        out.append(tuple(o))
    return out


def describe(ev, names=None):
    k, f, req, res, fault = ev
    nm = names[f] if names and 0 <= f < len(names) else str(f)
    s = "%s %s req=%d -> %s" % (KINDS.get(k, k), nm, req,
                                errno.errorcode.get(-res, res) if res < 0 else res)
    if fault:
        s += " [fault %s]" % ANAMES.get(fault, fault)
    return s
