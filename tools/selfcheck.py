#!/usr/bin/env python3
"""The Java overrides compute what the TLA+ definitions say: both give the
committed values of SelfCheck.tla's terms.  'selfcheck.py write' rewrites
SelfCheck.expected from the pure TLA+ definitions."""
import os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build, tlc

EXPECTED = os.path.join(tlc.SPEC, "SelfCheck.expected")


def items(overrides):
    rc, out = tlc.run("SelfCheck", "SelfCheck.cfg", overrides=overrides, workers=1, timeout=1500)
    if rc != 0:
        raise tlc.TLCError(tlc.tail(out))
    return tlc.items(out)


def main():
    t = time.time()
    pure = items(False)
    if "write" in sys.argv:
        open(EXPECTED, "w").write("\n".join(pure) + "\n")
    want = open(EXPECTED).read().splitlines()
    fast = items(True)
    print("%d terms; pure TLA+ as committed: %s; overrides as committed: %s; %.0f s" % (
        len(want), pure == want, fast == want, time.time() - t))
    return 0 if pure == want == fast else 2


if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
    finally:
        shutil.rmtree(build.work(), ignore_errors=True)
    sys.exit(rc)
