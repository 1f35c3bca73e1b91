"""Programs in, recorded and validated traces out."""
import json, os, random, subprocess, sys, time
from . import build, tlc


def b2l(v):
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, tuple):
        return [b2l(x) for x in v]
    if isinstance(v, list):
        return [b2l(x) for x in v]
    if isinstance(v, dict):
        return {k: b2l(x) for k, x in v.items()}
    return v


class Rng(random.Random):
    def bytes(self, n):
        return self.getrandbits(8 * n).to_bytes(n, "little") if n else b""

    def pick(self, *a):
        return self.choice(a)


class Programs:
    """The traces of one check.  Stateless calls are gathered in groups."""

    def __init__(self, group=6):
        self.traces, self.open, self.group = [], [], group

    def add(self, op, **args):
        ev = dict(op=op, **args)
        self.open.append(ev)
        if len(self.open) >= self.group:
            self.flush()

    def flush(self):
        if self.open:
            self.traces.append({"ev": self.open})
            self.open = []

    def trace(self, evs):
        self.traces.append({"ev": evs})

    def done(self):
        """Besides, half of the empty arguments become nil, and of the equal ones one object;
        and the calls of a trace share their objects."""
        self.flush()
        for n, t in enumerate(self.traces):
            for i, e in enumerate(t["ev"]):
                if n % 3:                           # objects that live as long as the trace
                    e = t["ev"][i] = dict(e, live=True)
                if (n + i) % 2:
                    t["ev"][i] = dict(e, same=True, **{k + "nil": True for k in e if isinstance(e[k], (bytes, bytearray)) and not e[k]})
        return self.traces


TIMEOUT = 124


def execute(driver, traces, name, serial=False, env=None, timeout=300):
    """Runs the programs; returns (recorded traces, stderr, return code)."""
    mode = [serial] if isinstance(serial, str) else ["serial"] if serial else []
    w = build.work()
    pin, pout = os.path.join(w, name + ".in"), os.path.join(w, name + ".out")
    with open(pin, "w") as f:
        for t in traces:
            f.write(json.dumps(b2l(t), separators=(",", ":")) + "\n")
    try:
        r = subprocess.run([driver, pin, pout] + mode, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", env=dict(os.environ, **(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired:
        return [], "no answer in %d s" % timeout, TIMEOUT
    rec = []
    if os.path.exists(pout):
        if r.returncode == 0:
            rec = [json.loads(l) for l in open(pout)]
        os.remove(pout)
    os.remove(pin)
    return rec, r.stderr, r.returncode


def validate(rec, name):
    """(rejected [(trace index, event index)], stats); both 0-based."""
    p = os.path.join(build.work(), name + ".ndjson")
    with open(p, "w") as f:
        for t in rec:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    rej, st = tlc.validate(p)
    os.remove(p)
    want = sum(len(t["ev"]) + 1 for t in rec)
    if not rej and st["distinct"] != want:
        raise tlc.TLCError("%d states for %d expected" % (st["distinct"], want))
    return [(a - 1, b - 1) for a, b in rej], st
