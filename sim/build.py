"""Build the LD_PRELOAD seam (simio.so) on demand, keyed by its source."""
import hashlib
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SRC = os.path.join(HERE, "simio.c")


def ensure():
    src = open(SRC, "rb").read()
    tag = hashlib.sha1(src).hexdigest()[:12]
    out = os.path.join(ROOT, "build", "simio-%s.so" % tag)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    subprocess.check_call(["gcc", "-O2", "-Wall", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
                           "-shared", "-fPIC", "-o", tmp, SRC, "-ldl"])
    os.replace(tmp, out)
    return out
