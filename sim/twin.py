"""A second interpreter with its own hash seed and locale, in which lives can be run."""
import atexit
import os
import pickle
import struct
import subprocess
import sys

_twins = {}


class Twin:
    def __init__(self, hashseed, locale):
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), LC_ALL=locale, LANG=locale)
        self.p = subprocess.Popen([sys.executable, "-m", "sim.twin"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def run_life(self, prog):
        from sim import life
        try:
            _put(self.p.stdin, prog)
            ok, r = _get(self.p.stdout)
        except (OSError, EOFError) as e:
            self.p.kill()
            raise life.HarnessError("twin interpreter died: %s %s" % (e, self.p.stderr.read()[-500:]))
        if not ok:
            raise life.HarnessError(r)
        o = life.Outcome()
        o.__dict__.update(r)
        return o


def _put(f, x):
    b = pickle.dumps(x)
    f.write(struct.pack("<I", len(b)) + b)
    f.flush()


def _get(f):
    h = f.read(4)
    if len(h) < 4:
        raise EOFError("no answer")
    return pickle.loads(f.read(struct.unpack("<I", h)[0]))


def get(hashseed, locale):
    k = (hashseed, locale)
    if k not in _twins:
        if not _twins:
            atexit.register(close)
        _twins[k] = Twin(*k)
    return _twins[k]


def close():
    for t in _twins.values():
        try:
            t.p.stdin.close()
            t.p.wait(5)
        except Exception:
            t.p.kill()
    _twins.clear()


def main():
    import traceback
    from sim import life
    fin, fout = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    n = os.open(os.devnull, os.O_RDWR)
    for k in (0, 1):
        os.dup2(n, k)
    life.prepare()
    while True:
        try:
            prog = _get(fin)
        except EOFError:
            return
        try:
            r = (True, life.run_life(prog).__dict__)
        except BaseException:
            r = (False, traceback.format_exc())
        _put(fout, r)


if __name__ == "__main__":
    main()
