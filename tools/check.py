#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's working tree
   check.py replay FILE         run a recorded violation again
Environment: VERIF_TIER (quick, thorough), VERIF_SEED."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build, core, findings, plan, tlc

CHUNK = 24000


class Violation(Exception):
    pass


def show(v):
    """A value of an event, for people."""
    if isinstance(v, list) and v and all(isinstance(x, int) and 0 <= x < 256 for x in v):
        return bytes(v).hex()
    if isinstance(v, list):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    return v


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.replays = os.path.join(build.VERIF, ".work", "replay")
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events=0,
                        trace_states=0, model_states=0, models={}, model_programs=0, model_programs_replayed=0, calls={}, alone_runs=0, mass_calls=0)
        self.violations, self.known, self.ran = [], {}, {}

    def note_event(self, e):
        for c in e.get("calls", []) + (e.get("outs", []) if e["op"] == "par" else []):
            k = e["op"] + "." + (c["f"] if e["op"] == "conc" else c["op"])
            self.cov["calls"][k] = self.cov["calls"].get(k, 0) + c.get("runs", 1)
        k = e["op"] + ("." + str(e["f"]) if isinstance(e.get("f"), str) else "") + ":" + str(e.get("st"))
        self.cov["calls"][k] = self.cov["calls"].get(k, 0) + 1

    def violation(self, what, trace, detail):
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, what=what, detail=detail, trace=core.b2l(trace)), f, indent=1)
        self.violations.append((what, p))

    def run_part(self, part, driver):
        R = core.Rng("%d/%s/%s/%s" % (self.seed, self.prop, part.name, self.tier))
        if part.model:
            progs = tlc.programs(self.run_model(part.model.at(self.thorough))["output"])
            self.cov["model_programs"] += len(progs)
            traces = part.make(R, self.thorough, progs)
            self.cov["model_programs_replayed"] += sum(t.pop("progs", 1) for t in traces)
        else:
            traces = part.make(R, self.thorough)
        mode = part.mode
        drv = driver
        env = None
        if mode.startswith("race"):
            drv = build.driver(True)[0]
            env = {"GORACE": "exitcode=0 halt_on_error=0"}
        rec, err, rc = core.execute(drv, traces, part.name, serial={"serial": "serial", "racealone": "alone"}.get(mode, False), env=env,
                                    timeout=600 if self.thorough else 300)
        if rc == 3:
            raise RuntimeError("the driver refused its program: " + err[-2000:])
        if rc != 0 or len(rec) != len(traces):
            what = "calls did not return" if rc == core.TIMEOUT else "the process died (exit %d)" % rc
            self.violation(what, traces[:50], err[-4000:])
            return
        if mode in ("hist", "conc", "race"):
            from vp import gen_hist
            gen_hist.prune(rec)
            self.cov["alone_runs"] += gen_hist.refs(driver, rec, part.name + "-alone")
        if mode.startswith("race"):
            rec.append({"ev": [dict(op="races", st="ok", n=err.count("WARNING: DATA RACE"), report=err[:6000])]})
        for t in rec:
            for e in t["ev"]:
                self.note_event(e)
                self.cov["events"] += 1
                self.cov["mass_calls"] += e["n"] if e["op"] == "mass" else 0
        if not self.cov["samples"]:
            for t in rec[:1] + rec[len(rec) // 2:len(rec) // 2 + 1]:
                self.cov["samples"].append([show(e) for e in t["ev"][:2]])
        i = 0
        while i < len(rec):
            j, n = i, 0
            while j < len(rec) and n < CHUNK:
                n += len(rec[j]["ev"]) + 1
                j += 1
            rej, st = core.validate(rec[i:j], part.name)
            self.cov["trace_states"] += st["distinct"]
            self.cov["states"] += st["distinct"]
            self.cov["transitions"] += st["generated"] - (j - i)
            bad = set()
            for a, b in rej:
                e = rec[i + a]["ev"][b]
                f = findings.match(self.prop, e)
                if f:
                    self.known[f["id"]] = f
                    continue
                bad.add(a)
                if len(self.violations) < 20:
                    self.violation("the specification does not allow event %d (%s)" % (b + 1, e["op"]),
                                   rec[i + a], show(e))
            self.cov["traces_validated_against_impl"] += (j - i) - len({a for a, _ in rej})
            i = j

    def run_model(self, m):
        if m.name in self.ran:
            return self.ran[m.name]
        t = time.time()
        st = self.ran[m.name] = m.run()
        self.cov["models"][m.name] = dict(states=st["distinct"], transitions=st["generated"], depth=st["depth"],
                                          seconds=round(time.time() - t, 1))
        if not st["ok"]:
            raise tlc.TLCError("model %s: %s" % (m.name, tlc.tail(st["output"], 60)))
        self.cov["model_states"] += st["distinct"]
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        return st

    def run_models(self):
        for m in plan.models(self.prop, self.thorough):
            self.run_model(m)

    def main(self):
        driver, dropped = build.driver()
        if dropped:
            self.cov["probes_left_out"] = dropped
        self.run_models()
        for part in plan.parts(self.prop):
            if self.violations and time.time() - self.t0 > 300:
                break                               # the verdict stands
            self.run_part(part, driver)
        return 1 if self.violations else 0

    def evidence(self):
        d = os.path.join(build.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                           assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - self.t0, 2),
                           violations=len(self.violations)), f, indent=1)


def singles(e):
    if e["op"] != "mass":
        return [e]
    if e["f"] == "walk":
        return [{**e, "n": k + 1} for k in range(e["n"])]
    return [{**e, "from": e["from"] + k, "n": 1} for k in range(e["n"])]


def replay(path):
    d = json.load(open(path))
    traces = d["trace"] if isinstance(d["trace"], list) else [d["trace"]]
    traces = [t for t in traces if t["ev"][0]["op"] != "races"]
    driver, _ = build.driver()
    if any(e["op"] == "mass" for t in traces for e in t["ev"]):     # mass calls one by one, too
        traces += [dict(t, ev=[x for e in t["ev"] for x in singles(e)]) for t in traces]
    rec, err, rc = core.execute(driver, traces, "replay", timeout=300)
    if rc != 0:
        print("the driver ended with %d\n%s" % (rc, err[-3000:]))
        return 1
    rej, _ = core.validate(rec, "replay")
    for a, b in rej:
        print("not allowed: ", json.dumps(show(rec[a]["ev"][b])))
    print("%d events not allowed" % len(rej))
    return 1 if rej else 0


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    c = Check(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    rc = c.main()
    c.evidence()
    for f in c.known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    for what, p in c.violations[:5]:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  " + what)
    print("%s: %d events in %d traces validated, %d calls by digest, %d model states, %.1f s" % (
        prop, c.cov["events"], c.cov["traces_validated_against_impl"], c.cov["mass_calls"], c.cov["model_states"], time.time() - c.t0))
    return rc


if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
    except Exception:
        traceback.print_exc(file=sys.stdout)
    finally:
        shutil.rmtree(build.work(), ignore_errors=True)
    sys.exit(rc)
