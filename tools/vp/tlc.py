"""Runs TLC: trace validation and design models."""
import json, os, re, subprocess, time
from . import build

SPEC = os.path.join(build.VERIF, "spec")
CP = build.TLA + "/tla2tools.jar:" + build.TLA + "/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run(module, cfg, env=None, workers=8, overrides=True, mem="6g", timeout=840, extra=()):
    """(exit code, output)"""
    meta = os.path.join(build.work(), "tlc-%s-%d" % (module, time.monotonic_ns()))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m"]
    cp = CP
    if overrides:
        cmd.append("-Dtlc2.overrides.TLCOverrides=vp.TLCOverrides:tlc2.overrides.TLCOverrides")
        cp = build.java_classes() + ":" + CP
    cmd += ["-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", cfg, *extra, module + ".tla"]
    r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    subprocess.run(["rm", "-rf", meta])
    return r.returncode, r.stdout


def stats(out):
    m = None
    for m in re.finditer(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M):
        pass  # the last one; the others report progress
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return {"generated": int(m.group(1).replace(",", "")) if m else 0,
            "distinct": int(m.group(2).replace(",", "")) if m else 0,
            "depth": int(d.group(1)) if d else 0}


def items(out):
    return [l for l in out.splitlines() if re.match(r'"?ITEM \d', l)]


def programs(out):
    """The complete behaviours a model printed, in a fixed order."""
    ps = {json.loads(l)[5:] for l in out.splitlines() if l.startswith('"PROG ')}
    return [json.loads(p) for p in sorted(ps)]


def tail(out, n=40):
    return "\n".join(out.splitlines()[-n:])


def validate(path):
    """TLC's verdict on a file of recorded traces: (rejected [(trace, event)], stats)."""
    rc, out = run("Trace", "Trace.cfg", env={"VP_TRACES": path})
    st = stats(out)
    rej = sorted({(int(a), int(b)) for a, b in re.findall(r"REJECT (\d+) (\d+)", out)})
    if rc != 0 or "No error has been found" not in out:
        raise TLCError("trace validation failed to run:\n" + tail(out))
    return rej, st


def model(module, cfg=None, **kw):
    """Model-checks a design model; returns its statistics, raises on any error."""
    rc, out = run(module, (cfg or module) + ".cfg", **kw)
    st = stats(out)
    st["ok"] = rc == 0 and "No error has been found" in out
    st["output"] = out
    return st
