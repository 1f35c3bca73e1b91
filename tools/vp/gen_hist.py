"""Histories for P15 and P16.

A history's calls work on named memory and named shared objects.  The outcome
each call has when it is made alone is obtained by making the same call - the
same argument bytes, objects made by the same events - in a process of its own
(refs())."""
import copy, json
from . import ed, gen_cipher
from .core import Programs, b2l, execute

ARGS = {  # buffers, objects of a call
    "sign": (("m",), ("o",)), "verify": (("m", "r", "s"), ("o",)), "canon": (("r", "s"), ("o",)),
    "mkcanon": (("r", "s"), ("o",)), "derive": ((), ("o",)), "newpair": ((), ("o",)), "enc": (("m",), ("o",)),
    "encrt": (("m",), ("o",)), "dec": (("c",), ("o",)), "shared": (("salt",), ("o", "k", "p")), "hash": (("m",), ()),
    "sigbytes": (("r", "s"), ()), "sigstr": (("r", "s"), ()), "sigints": (("r", "s"), ()), "keystr": ((), ("o",)),
    "keyhex": ((), ("o",)), "keyint": ((), ("o",)), "gdecenc": (("b",), ()), "genc": ((), ("o",)),
    "geq": ((), ("o", "q")), "gcurve": ((), ("o",)), "fdecenc": (("b",), ()), "affx": (("b",), ()),
    "mredq": (("b",), ()), "mtogroup": (("b",), ()), "madd": ((), ("o", "q")), "mtorep": ((), ("o",)),
    "select": ((), ()), "secret": ((), ("o",)),
    "gen": ((), ()), "mneg": ((), ("o",)), "mdbl": ((), ("o",)), "mnum": (("b",), ()),
}
OBJ = ("hpair", "hsigner", "hcipher", "helem")


def _needs(objs, name):
    """The constructor events of an object, in order."""
    ev = objs[name]
    out = []
    for k in ("pair", "sender", "recipient"):
        if k in ev:
            out += _needs(objs, ev[k])
    return out + [ev]


def _alone(objs, mem, call):
    """The trace that makes this call alone, with canonical names."""
    c = {k: v for k, v in call.items() if k in ("f", "alg", "pos", "d", "to", "rnd") or k in ARGS[call["f"]][0] + ARGS[call["f"]][1]}
    c["op"] = "hcall"
    evs, made, names = [], set(), {}
    bufs, os_ = ARGS[call["f"]]

    def rename(n):
        return names.setdefault(n, "n%d" % len(names))
    for o in os_:
        for e in _needs(objs, c[o]):
            if e["h"] in made:
                continue
            made.add(e["h"])
            e = dict(e)
            for k in ("h", "pair", "sender", "recipient"):
                if k in e:
                    e[k] = rename(e[k])
            evs.append(e)
        c[o] = rename(c[o])
    for b in bufs:
        n = c[b]
        if n not in made:
            made.add(n)
            evs.append(dict(op="hbuf", h=rename(n), data=list(mem[n]), extra=0))
        c[b] = rename(n)
    return {"ev": evs + [c]}


def refs(driver, rec, name):
    """Adds to every call of the recorded histories the outcome it has alone."""
    want, uses = {}, []
    for tr in rec:
        objs, mem = {}, {}

        def ask(call):
            t = _alone(objs, mem, call)
            key = json.dumps(t, sort_keys=True)
            want.setdefault(key, t)
            uses.append((call, key))
        for e in tr["ev"]:
            if e["op"] in OBJ:
                objs[e["h"]] = {k: e[k] for k in ("op", "h", "k", "pair", "via", "sender", "recipient", "p", "pub", "seed") if k in e}
            elif e["op"] == "hbuf":
                mem[e["h"]] = list(e["data"])
            elif e["op"] == "hwrite":
                b = mem[e["h"]]
                for i, x in enumerate(e["data"]):
                    if e["at"] + i < len(b):
                        b[e["at"] + i] = x
            elif e["op"] == "hcall":
                ask(e)
                for h, b in zip(e.get("out", []), e.get("res", [])):
                    mem[h] = list(b)
            elif e["op"] == "conc":
                for c in e["calls"]:
                    ask(c)
    keys = list(want)
    res, err, rc = execute(driver, [want[k] for k in keys], name, "alone", timeout=600)
    if rc:
        raise RuntimeError(err)
    got = {k: r["ev"][-1]["got"] for k, r in zip(keys, res)}
    for call, key in uses:
        call["ref"] = got[key]
    return len(keys)


def related(R, b):
    """Bytes that have most in common with b."""
    b = bytearray(b)
    x = R.randrange(6)
    if x == 0 and b:
        b[-1] ^= 0x80
    elif x == 1 and b:
        b[R.randrange(len(b))] ^= 1 << R.randrange(8)
    elif x == 2 and len(b) > 1:
        b[0] ^= 1
    elif x == 3 and b:
        b[R.randrange(len(b))] = R.randrange(256)
    elif x == 4 and len(b) != 32:
        b = b + R.bytes(R.pick(1, 1, 16)) if R.random() < 0.5 else b[:-1]
    return bytes(b)


class Hist:
    def __init__(self, R, pool, cipher_via="cell", encf="enc"):
        self.R, self.ev, self.n = R, [], 0
        self.bufs, self.len, self.content = [], {}, {}
        self.encf = encf
        self.sigs, self.cts = [], []
        self.pairs, self.signers, self.ciphers, self.elems, self.keys, self.pubs = [], [], [], [], {}, {}
        k0, k1 = R.bytes(32), R.pick(R.bytes(32), R.choice(pool.all)[0])
        for k in (k0, k1, R.pick(related(R, k0), R.choice(pool.all)[0])):
            p = self.obj("hpair", k=k)
            self.pairs.append(p)
            self.keys[p], self.pubs[p] = k, ed.pub(k)
        # a public key next to the first one, mostly the negated one
        a = R.pick(ed.le(int.from_bytes(self.pubs[self.pairs[0]], "little") ^ 1 << 255), related(R, self.pubs[self.pairs[0]]))
        near = self.obj("hpair", pub=a)
        self.pubs[near] = a
        for p in self.pairs[:2] + [near]:
            self.signers.append((self.obj("hsigner", pair=p, via=R.pick("dsa", "signer", "signereng", "engine", "wrap")), p))
        pr = [(self.pairs[0], self.pairs[0]), (self.pairs[0], self.pairs[1]), (self.pairs[1], self.pairs[0]), (self.pairs[0], self.pairs[2]), (self.pairs[1], near)]
        for s, r in R.sample(pr, 3):
            self.ciphers.append((self.obj("hcipher", sender=s, recipient=r, via=cipher_via, seed=R.randrange(1000)), s, r))
        for _ in range(3):
            a = ed.mul(R.getrandbits(60), ed.B)
            self.elems.append(self.obj("helem", p=elem(R, R.pick("P2", "P3", "P3", "P1xP1"), a)))
        for n in (R.randrange(0, 40), 32, 64, 32, R.pick(0, 1, 15, 16, 31, 33)):
            self.buf(R.bytes(n))
        for b in self.bufs[:3]:
            self.buf(related(R, self.content[b]))
        self.buf(R.choice(pool.all)[1])
        self.buf(ed.enc(R.choice(ed.TORSION)))
        self.buf(ed.le(R.pick(0, 1, ed.L, ed.L - 1, ed.L + 5, 2**255)))
        if R.random() < 0.1:
            self.buf(R.bytes(R.randrange(500, 3000)))
        for c, s, r in R.sample(self.ciphers, 2):    # a ciphertext for the recipient, and one next to it
            if r in self.keys:
                ct = gen_cipher.raw_encrypt(self.keys[r], self.pubs[s], R.bytes(48), gen_cipher.pad(R.bytes(R.randrange(40))))
                for b in (ct, related(R, ct)):
                    self.cts.append((self.buf(b), s, r))

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def obj(self, op, **a):
        h = self.name("o")
        self.ev.append(dict(op=op, h=h, **a))
        return h

    def buf(self, data):
        h = self.name("b")
        self.ev.append(dict(op="hbuf", h=h, data=list(data), extra=self.R.pick(0, 8, 40)))
        self.bufs.append(h)
        self.len[h] = len(data)
        self.content[h] = bytes(data)
        return h

    def of_len(self, *ns):
        return self.R.choice([b for b in self.bufs if self.len.get(b) in ns])

    def result(self, n=None):
        h = self.name("r")
        self.bufs.append(h)
        if n is not None:
            self.len[h] = n
        return h

    def call(self, store=True, f=None):
        """One random call; its result memory joins the history."""
        R = self.R
        f = f or R.choices(["sign", "verify", "canon", "mkcanon", "derive", "newpair", self.encf, "dec", "shared", "hash", "sigbytes",
                       "sigstr", "sigints", "keystr", "keyhex", "keyint", "gdecenc", "genc", "geq", "gcurve", "fdecenc",
                       "affx", "mredq", "mtogroup", "madd", "mtorep", "select", "secret", "gen", "mneg", "mdbl", "mnum"],
                      [7, 6, 2, 3, 2, 1, 6, 6, 3, 6, 2, 1, 2, 1, 1, 1, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1])[0]
        c, out = dict(f=f), []

        def sig():
            if self.sigs and R.random() < 0.7:
                c["r"], c["s"] = R.choice(self.sigs)[:2]
            else:
                c["r"], c["s"] = self.of_len(32), self.of_len(32, 32, 64 if f == "mkcanon" else 32)
        if f in ("sign", "verify", "canon", "mkcanon"):
            c["o"], p = R.choice(self.signers)
            if f in ("sign", "verify"):
                c["m"] = R.choice(self.bufs)
            if f != "sign":
                sig()
            if f == "verify" and self.sigs and R.random() < 0.7:     # most likely a valid one
                c["r"], c["s"], c["m"], c["o"] = R.choice(self.sigs)
            if f == "sign" and store:
                out = [self.result(32), self.result(32)]
                self.sigs.append((out[0], out[1], c["m"], c["o"]))
            if f == "mkcanon" and store:
                out = [self.result(32)]
        elif f in ("derive", "newpair", "keystr", "keyhex", "keyint", "secret"):
            c["o"] = R.choice(self.pairs)
            out = {"keyhex": [32, 32], "keystr": []}.get(f, [32])
            out = [self.result(n) for n in out] if store else []
        elif f in ("enc", "encrt"):
            c["o"], s, r = R.choice(self.ciphers)
            c["m"] = R.choice(self.bufs)
            if f == "enc":
                c["rnd"] = list(R.bytes(48))
                if store:
                    out = [self.result()]
                    self.cts.append((out[0], s, r))
        elif f == "dec":
            c["o"], s, r = R.choice(self.ciphers)
            good = [x for x in self.cts if x[1:] == (r, s) or x[1:] == (s, r)]
            c["c"] = R.choice(good)[0] if good and R.random() < 0.85 else R.choice(self.bufs)
            out = [self.result()] if store else []
        elif f == "shared":
            c["o"] = R.choice(self.ciphers)[0]
            c["k"], c["p"], c["salt"] = R.choice(self.pairs), R.choice(list(self.pubs)), self.of_len(32)
            out = [self.result(32)] if store else []
        elif f == "hash":
            c["m"], c["alg"] = R.choice(self.bufs), R.pick("sha256", "sha3_256", "sha3_512", "sha3_512x", "keccak_256", "ripemd160")
            out = [self.result({"sha3_512": 64, "sha3_512x": 64, "ripemd160": 20}.get(c["alg"], 32))] if store else []
        elif f in ("sigbytes", "sigstr", "sigints"):
            sig()
            out = {"sigbytes": [64], "sigints": [32, 32]}.get(f, []) if store else []
            out = [self.result(n) for n in out]
        elif f == "gen":
            c["rnd"] = list(R.bytes(32))
            out = [self.result(32), self.result(32)] if store else []
        elif f in ("gdecenc", "fdecenc", "affx", "mtogroup", "mredq", "mnum"):
            c["b"] = self.of_len(32, 64) if f == "mredq" else self.of_len(32)
            out = [self.result(32)] if store and f in ("fdecenc", "mredq") else []
            if store and f == "mnum":
                out = [self.result(32) for _ in range(3)]
        elif f in ("mneg", "mdbl"):
            kinds = ("P3",) if f == "mneg" else ("P2", "P3")
            es = [e["h"] for e in self.ev if e["op"] == "helem" and e["p"]["cs"] in kinds]
            if not es:
                es = [self.obj("helem", p=elem(R, "P3", ed.mul(R.getrandbits(60), ed.B)))]
                self.elems += es
            c["o"] = R.choice(es)
            out = [self.result(32)] if store else []
        elif f in ("genc", "gcurve", "mtorep"):
            c["o"] = R.choice(self.elems)
            if f == "mtorep":
                c["to"] = R.pick("AFFINE", "P2", "P3", "P1xP1", "CACHED", "PRECOMPUTED")
            out = [self.result(32)] if store and f == "genc" else []
        elif f in ("geq", "madd"):
            c["o"], c["q"] = R.choice(self.elems), R.choice(self.elems)
            if f == "madd":
                es = [e["h"] for e in self.ev if e["op"] == "helem" and e["p"]["cs"] in ("P2", "P3")]
                if not es:
                    es = [self.obj("helem", p=elem(R, "P3", ed.mul(R.getrandbits(60), ed.B)))]
                    self.elems += es
                c["o"], c["q"] = R.choice(es), R.choice(es)
                out = [self.result(32)] if store else []
        elif f == "select":
            c["pos"], c["d"] = R.randrange(32), R.randrange(-8, 9)
        if store:
            c["out"] = out
        return c

    def write(self, h=None):
        R = self.R
        h = h or R.choice(self.bufs)
        n = self.len.get(h, 16)
        x = R.random()
        if x < 0.3:
            at, d = 0, R.bytes(n)
        elif x < 0.7:
            at, d = R.pick(0, max(n - 1, 0), R.randrange(max(n, 1))), R.bytes(min(n, 1))
        else:
            at, d = 0, bytes(n)
        self.ev.append(dict(op="hwrite", h=h, at=at, data=list(d)))

    def again(self, c):
        """The same call once more."""
        c = copy.deepcopy(c)
        c["out"] = [self.result(self.len.get(o)) for o in c["out"]]
        self.ev.append(dict(op="hcall", **c))

    def touched(self, c):
        """Changes an argument of the call, makes it again, and perhaps once more with the old bytes."""
        b = [c[k] for k in ARGS[c["f"]][0]]
        if not b:
            return self.again(c)
        h = self.R.choice(b)
        self.write(h)
        self.again(c)
        if h in self.content and self.R.random() < 0.7:
            self.ev.append(dict(op="hwrite", h=h, at=0, data=list(self.content[h])))
            self.again(c)


def elem(R, cs, a):
    from .gen_arith import elem as e
    return e(R, cs, a)


def history(R, pool, n):
    h = Hist(R, pool)
    last = None
    while sum(e["op"] in ("hcall", "hwrite") for e in h.ev) < n:
        x = R.random()
        if x < 0.15:
            h.write()
        elif x < 0.17:
            h.ev.append(dict(op="hgc"))
        elif x < 0.25 and last:
            h.again(last)
        elif x < 0.37 and last:
            h.touched(last)
        else:
            c = h.call()
            last = c if R.random() < 0.6 else last
            h.ev.append(dict(op="hcall", **c))
    h.ev.append(dict(op="htables"))
    h.ev.append(dict(op="hgc", drop=True))
    return h.ev


def p15_model(R, thorough, progs):
    """The behaviours of MCHistory, several one after another on the same objects."""
    P = Programs()
    pool = gen_cipher.Pairs(R, 6)
    progs = R.sample(progs, min(len(progs), 12000 if thorough else 1500))
    for i in range(0, len(progs), 8):
        h = Hist(R, pool)
        for p in progs[i:i + 8]:
            first = None
            for s in p["steps"]:
                if s[0] == "warg":
                    h.write(first[ARGS[first["f"]][0][s[2] - 1]])
                elif s[0] == "wres":
                    h.write(first["out"][s[2] - 1])
                elif s[0] == "gc":
                    h.ev.append(dict(op="hgc"))
                elif s[0] == "again":
                    h.again(first)
                else:
                    c = h.call(f=s[1])
                    if s[0] == "uses":
                        c[ARGS[s[1]][0][0]] = first["out"][s[2] - 1]
                    elif s[0] == "shares":
                        c[ARGS[s[1]][0][0]] = first[ARGS[first["f"]][0][s[2] - 1]]
                    h.ev.append(dict(op="hcall", **c))
                    first = first or c
        h.ev.append(dict(op="htables"))
        h.ev.append(dict(op="hgc", drop=True))
        P.traces.append({"ev": h.ev, "progs": len(progs[i:i + 8])})
    return P.done()


def prune(rec):
    """Drops the calls that needed the result of a call that had none."""
    for tr in rec:
        for e in tr["ev"]:
            if e["op"] == "conc":
                e["calls"] = [c for c in e["calls"] if all(o["st"] != "skip" for o in c["outs"])]
        tr["ev"] = [e for e in tr["ev"] if e.get("st") != "skip"]
    return rec


def p15(R, thorough):
    P = Programs()
    pool = gen_cipher.Pairs(R, 6)
    for _ in range(2500 if thorough else 300):
        P.trace(history(R, pool, R.pick(12, 25, 40)))
    return P.done()


KINDS = sorted(set(ARGS) - {"enc"})


def p16(R, thorough, threads=8):
    """Calls on shared objects: of one kind, of two kinds, of all kinds."""
    P = Programs()
    pool = gen_cipher.Pairs(R, 6)
    plans = [[f] for f in KINDS] + [["dec"], ["encrt"], ["sign"], ["verify"], ["encrt", "dec"], ["sign", "verify"], ["dec", "shared"],
                                    ["verify", "dec"], ["sign", "encrt"], ["hash", "sign"]]
    pairs = [[f, g] for f in KINDS for g in KINDS if f < g]
    plans += pairs if thorough else R.sample(pairs, 12)
    plans += [None] * (60 if thorough else 10)
    for fs in plans:
        h = Hist(R, pool, cipher_via=R.pick("new", "wrapper", "script"), encf="encrt")
        for _ in range(6):
            h.ev.append(dict(op="hcall", **h.call()))
        calls = []
        for _ in range(3000):
            c = h.call(store=False)
            if fs is None or c["f"] in fs and sum(x["f"] == c["f"] for x in calls) < 6:
                calls.append(c)
            if len(calls) == (14 if fs is None else 6 * len(fs)):
                break
        h.ev.append(dict(op="conc", threads=threads, reps=3 if thorough else 2, seed=R.randrange(1000), calls=calls))
        h.ev.append(dict(op="hcall", **h.call()))
        P.trace(h.ev)
    return P.done()


NOPAR = {"reader", "genkey", "enc", "mrand", "encround", "gconst"}


def stateless(R):
    """Calls of the other checks that stand for themselves, by kind."""
    from . import gen_arith, gen_cap, gen_sig, gen_text
    kinds = {}
    for g in (gen_sig.p01, gen_sig.p02, gen_sig.p03, gen_sig.p04, gen_sig.p05, gen_sig.p17, gen_text.p13, gen_text.p14, gen_arith.p06,
              gen_arith.p07, gen_arith.p08, gen_arith.p09, gen_arith.p19, gen_cipher.p10, gen_cipher.p11, gen_cap.p18):
        for t in g(R, False):
            for e in t["ev"]:
                n = max(e.get("mn", 0), len(e.get("m", b"")), len(e.get("c", b"")))
                if e["op"] not in NOPAR and n < 150000:
                    size = "" if n < 3000 else "/long"
                    kinds.setdefault(e["op"] + "/" + str(e.get("f") if isinstance(e.get("f"), str) else "") + size, []).append(e)
    return kinds


def p16_par(R, thorough):
    """The stateless calls of the other checks, by several goroutines that start together in a new process."""
    P = Programs()
    kinds = stateless(R)
    names = sorted(kinds)
    plans = [[n] * 6 for n in names] + [R.sample(names, 8) for _ in range(80 if thorough else 14)]
    for p in plans:
        P.trace([dict(op="par", threads=6, reps=2, seed=R.randrange(1000), evs=[R.choice(kinds[n]) for n in p])])
    return P.done()
