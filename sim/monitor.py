"""Seam for asynchronous faults inside nappy's own code.

sys.monitoring LINE events on code objects under <repo>/nappy: a line counter that
gives every instant of an operation a number, so that an exception (KeyboardInterrupt,
MemoryError) can be raised at exactly the n-th executed line, a bound on executed
lines (termination), and a hook where the thread scheduler may switch.
"""
import gc
import sys

TOOL = 4
M = sys.monitoring


class LineBudget(BaseException):
    """The operation executed more nappy lines than the budget allows."""


class Monitor:
    def __init__(self, prefix):
        self.prefix = prefix
        self.n = 0
        self.fire_at = -1
        self.fire_exc = None
        self.fired = 0
        self.budget = 0
        self.hook = None          # scheduler: may switch threads
        self.locs = None          # planning: first line event at each place
        self.gc_every = 0         # the garbage collector runs at every so many lines
        self.gc_count = 0
        self.on = False

    def start(self):
        if self.on:
            return
        M.use_tool_id(TOOL, "simio")
        M.register_callback(TOOL, M.events.LINE, self._line)
        M.set_events(TOOL, M.events.LINE)
        self.on = True

    def fine(self):
        """Let the scheduler switch before every bytecode instruction too."""
        M.register_callback(TOOL, M.events.INSTRUCTION, self._instruction)
        M.set_events(TOOL, M.events.LINE | M.events.INSTRUCTION)

    def _instruction(self, code, offset):
        if not code.co_filename.startswith(self.prefix):
            return M.DISABLE
        if self.hook is not None:
            self.hook(code, offset)

    def stop(self):
        if self.on:
            M.set_events(TOOL, 0)
            M.free_tool_id(TOOL)
            self.on = False

    def collect(self):
        self.gc_count += 1
        gc.collect(2 if self.gc_count % 50 == 0 else 1 if self.gc_count % 5 == 0 else 0)

    def arm(self, at, exc):
        self.fire_at, self.fire_exc = at, exc

    def disarm(self):
        self.fire_at, self.fire_exc = -1, None

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return M.DISABLE
        n = self.n
        self.n = n + 1
        if self.gc_every and n % self.gc_every == 0:
            self.collect()
        if self.locs is not None and (code, line) not in self.locs:
            self.locs[(code, line)] = n
        if n == self.fire_at:
            self.fired += 1
            self.fire_at = -1
            raise self.fire_exc("injected")
        if self.budget and n > self.budget:
            self.budget = 0
            raise LineBudget("line budget exhausted")
        if self.hook is not None:
            self.hook(code, line)
