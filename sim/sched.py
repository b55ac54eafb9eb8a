"""Seeded cooperative scheduler for several threads inside one simulated life.

Every task is a real thread, but exactly one runs at a time: the others are parked on a
private lock. The running one hands over only at a line (or instruction) of nappy code
named in the schedule, when it blocks on a lock nappy created, or when it ends. The
schedule is part of the scenario, so one scenario is one exact interleaving.
"""
import _thread
import sys
import threading

from sim.monitor import LineBudget

_alloc = _thread.allocate_lock
CUR = None          # the scheduler of this life


class SimLock:
    """Stands in for threading.Lock / RLock created after installation (that is, by nappy)."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking or timeout == 0:
                return False
            if CUR is None or not CUR.block():
                if timeout > 0:
                    return False
                raise LineBudget("deadlock: every task waits for a lock")

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError("release of a lock that is not held")
        self.count -= 1
        if not self.count:
            self.owner = None
            if CUR is not None:
                CUR.progress()

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        st = (self.owner, self.count)
        self.owner, self.count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.owner, self.count = st


def install():
    """Before nappy is imported: locks it creates are the simulator's."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


def unsafe():
    """The running task is inside an import or a finaliser: it may hold an interpreter lock."""
    f = sys._getframe(3)
    while f is not None:
        c = f.f_code
        if c.co_name == "__del__" or c.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


class Task:
    def __init__(self, i, ops):
        self.i, self.ops = i, ops
        self.lock = _alloc()
        self.lock.acquire()
        self.n = 0
        self.done = False


class Sched:
    def __init__(self, it, spec):
        self.it = it
        self.tasks = [Task(i, ops) for i, ops in enumerate(spec["ops"])]
        self.sw = {(a, n): to for a, n, to in spec.get("switches", [])}
        self.kill = {(a, n): e for a, n, e in spec.get("kills", [])}
        self.order = spec.get("first", 0)
        self.cur = None
        self.trace = []
        self.switches = 0
        self.killed = []
        self.spins = 0
        self.end = _alloc()
        self.end.acquire()
        self.locs = [{} for _ in self.tasks] if it.prog.get("locs") else None

    # --- called in the running thread
    def hook(self, code, where):
        t = self.cur
        if t is None:
            return
        n = t.n
        t.n = n + 1
        k = (t.i, n)
        if self.locs is not None:
            self.locs[t.i].setdefault((code, where), n)
        if k in self.kill:
            self.killed.append([t.i, n])
            import builtins
            raise getattr(builtins, self.kill[k])("injected")
        if k in self.sw:
            if unsafe():
                return
            alive = [x for x in self.tasks if not x.done and x is not t]
            if alive:
                u = alive[self.sw[k] % len(alive)]
                self.trace.append((t.i, n, u.i, code.co_name, where))
                self.switch(t, u)

    def switch(self, t, u):
        self.switches += 1
        self.cur = u
        u.lock.release()
        t.lock.acquire()

    def block(self):
        """The running task cannot get a lock: let another one run. False if none can."""
        t = self.cur
        alive = [x for x in self.tasks if not x.done and x is not t] if t else []
        self.spins += 1
        if not alive or self.spins > 4 * len(self.tasks):
            return False
        later = [x for x in alive if x.i > t.i]
        u = (later or alive)[0]
        self.trace.append((t.i, t.n, u.i, "lock", 0))
        self.switch(t, u)
        return True

    def progress(self):
        self.spins = 0

    def body(self, t):
        t.lock.acquire()
        try:
            for j, op in enumerate(t.ops):
                self.it.run_op(j, op, [], [], tag=t.i)
                self.spins = 0
        finally:
            t.done = True
            alive = [x for x in self.tasks if not x.done]
            if alive:
                u = alive[0]
                self.cur = u
                u.lock.release()
            else:
                self.cur = None
                self.end.release()

    def run(self):
        global CUR
        CUR = self
        for t in self.tasks:
            _thread.start_new_thread(self.body, (t,))
        self.it.mon.hook = self.hook
        u = self.tasks[self.order % len(self.tasks)]
        self.cur = u
        u.lock.release()
        self.end.acquire()
        self.it.mon.hook = None
        CUR = None


def run(it, spec):
    it.run_ops(spec.get("before", []), [], tag="b")
    s = Sched(it, spec)
    if spec.get("fine"):
        it.mon.fine()
    s.run()
    it.sched_stats = {"switches": s.switches, "trace": s.trace, "steps": [t.n for t in s.tasks], "killed": s.killed}
    if s.locs is not None:
        it.sched_stats["locs"] = [sorted(x.values()) for x in s.locs]
    it.run_ops(spec.get("after", []), [], tag="a")
