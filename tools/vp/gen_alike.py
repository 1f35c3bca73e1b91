"""Calls whose arguments differ in few places, in the order of MCMemo.tla: they tell a function
from one that remembers earlier results under a part of its arguments."""
from . import aes, ed
from .core import Programs
from .gen_arith import elem, fe
from .gen_cipher import pad, raw_encrypt
from .gen_sig import VIAS

ALGS = ("sha256", "sha3_256", "sha3_512", "keccak_256", "ripemd160")


def flip(name, lo, hi):
    """Changes one bit of the argument in that stretch (fractions of its length)."""
    def aspect(R, base):
        b = base[name]
        i = R.randrange(int(len(b) * lo), max(int(len(b) * lo) + 1, int(len(b) * hi)))
        x = 1 << R.randrange(8)

        def change(a):
            v = bytearray(a[name])
            v[i] ^= x
            a[name] = bytes(v)
        return change
    return aspect


def head(name):
    return flip(name, 0, 0.1)


def mid(name):
    return flip(name, 0.3, 0.7)


def tail(name):
    return flip(name, 0.9, 1)


def bit(name, i, j):
    """One of the bits i..j-1."""
    def aspect(R, base):
        k = R.randrange(i, j)

        def change(a):
            v = bytearray(a[name])
            v[k // 8] ^= 1 << k % 8
            a[name] = bytes(v)
        return change
    return aspect


def longer(name, what=b"\x00"):
    def aspect(R, base):
        def change(a):
            a[name] = a[name] + what
        return change
    return aspect


def other(name, *values):
    def aspect(R, base):
        v = R.choice(values)
        v = v(R, base) if callable(v) else v

        def change(a):
            a[name] = v
        return change
    return aspect


def negated(name):
    """-A for the encoded point A."""
    return other(name, lambda R, a: ed.enc(ed.neg(ed.dec(a[name]))))


def moved(name):
    """A plus a point of small order."""
    return other(name, lambda R, a: ed.enc(ed.add(ed.dec(a[name]), R.choice(ed.TORSION[1:]))))


class Alike:
    def __init__(self, R, progs):
        self.R, self.P = R, Programs()
        self.walks = {p["n"]: p["walk"] for p in progs}

    def calls(self, op, base, *aspects, keep=None, done=lambda a: a):
        R = self.R
        cs = [f(R, base) for f in aspects]
        ev = []
        for w in self.walks[len(cs)]:
            a = dict(base)
            for on, c in zip(w, cs):
                if on:
                    c(a)
            ev.append(dict(op=op, **done(a)))
        self.P.trace(ev)

    def done(self):
        return self.P.done()


def part(f):
    def make(R, thorough, progs):
        A = Alike(R, progs)
        for _ in range(12 if thorough else 2):
            f(A, R)
        return A.done()
    make.__name__ = "alike_" + f.__name__
    return make


def msg(R):
    return R.bytes(R.pick(4, 16, 33, 64, 100, 200))


def a_point(R):
    return ed.enc(ed.mul(R.getrandbits(252), ed.B))


@part
def p01(A, R):
    for via in VIAS:
        A.calls("signverify", dict(k=R.bytes(32), via=via, m=msg(R)), head("k"), tail("k"), head("m"), tail("m"))
        A.calls("signverify", dict(k=R.bytes(32), via=via, m=msg(R)), mid("k"), mid("m"), longer("m"), longer("k"))


@part
def p02(A, R):
    for via in VIAS:
        A.calls("sign", dict(k=R.bytes(32), via=via, m=msg(R), times=1), head("k"), tail("k"), head("m"), tail("m"))
        A.calls("sign", dict(k=R.bytes(32), via=via, m=msg(R), times=1), mid("k"), mid("m"), longer("m"), longer("k"))
        k = R.bytes(32)
        A.calls("sign", dict(k=k, A=ed.pub(k), via=via, m=msg(R), times=1), mid("k"), mid("m"), head("A"), tail("A"))


@part
def p03(A, R):
    for via in VIAS:
        for aspects in ((negated("A"), tail("m"), bit("r", 255, 256), bit("s", 0, 128), head("m")),
                        (moved("A"), head("m"), head("r"), bit("s", 128, 250)),
                        (other("A", lambda R, a: ed.pub(R.bytes(32))), mid("m"), longer("m"), tail("r"))):
            k, m = R.bytes(32), msg(R)
            r, s = ed.sign(k, m)
            A.calls("verify", dict(A=ed.pub(k), m=m, r=r, s=s, via=via), *aspects)
    # signatures that are valid, for messages and keys that are alike
    for _ in range(4):
        def signed(a):
            r, s = ed.sign(a["k"], a["m"])
            return dict(A=ed.pub(a["k"]), m=a["m"], r=r, s=s, via=R.choice(VIAS))
        A.calls("verify", dict(k=R.bytes(32), m=msg(R)), mid("k"), head("m"), tail("m"), longer("m"), done=signed)
        # one signature under keys and messages that are alike, valid in two places
        k, m = R.bytes(32), msg(R)
        Aenc = ed.pub(k)
        s1, s2 = ed.sign(k, m), ed.sign(k, m + b"\x00")
        A.calls("verify", dict(A=Aenc, m=m, r=s1[0], s=s1[1], via=R.choice(VIAS)), longer("m"), other("r", s2[0]), other("s", s2[1]),
                negated("A"))


@part
def p04(A, R):
    for via in VIAS:
        s = ed.le(R.randrange(ed.L))
        A.calls("canon", dict(r=R.bytes(32), s=s, via=via), bit("s", 0, 100), bit("s", 253, 256),
                other("r", R.bytes(32)), mid("s"))
        A.calls("mkcanon", dict(r=R.bytes(32), s=R.bytes(32)), head("s"), mid("s"), tail("s"), head("r"), tail("r"))
        k, m = R.bytes(32), msg(R)
        r, s = ed.sign(k, m)
        plus = ed.le(int.from_bytes(s, "little") + ed.L)
        A.calls("verify", dict(A=ed.pub(k), m=m, r=r, s=s, via=via), other("s", plus), tail("m"), head("r"))


@part
def p05(A, R):
    for via in ("gen", "engine", "pairnil", "paireng", "pairdef"):
        for kvia in ("bytes", "hex", "int"):
            A.calls("derive", dict(k=R.bytes(31) + b"\x55", kvia=kvia, via=via), head("k"), mid("k"), flip("k", 0.1, 0.3), bit("k", 250, 254))
    A.calls("secret", dict(k=R.bytes(32), kvia="bytes"), head("k"), mid("k"), tail("k"))
    A.calls("derive", dict(k=R.bytes(32), via="pairnil"), longer("k"), longer("k", b"\x01"), tail("k"))


@part
def p06(A, R):
    for _ in range(6):
        b = a_point(R)
        A.calls("gdec", dict(b=b), bit("b", 255, 256), bit("b", 0, 8), bit("b", 64, 192), bit("b", 240, 255))
    for y in (0, 1, 2, 3, 18):
        A.calls("gdec", dict(b=ed.le(y)), other("b", ed.le(y + ed.P)), bit("b", 255, 256))
    for _ in range(4):
        A.calls("fdec", dict(b=R.bytes(32)), head("b"), mid("b"), bit("b", 255, 256), bit("b", 248, 255))

    def el(a):
        p = ed.dec(a["A"])
        if a["n"]:
            p = ed.neg(p)
        return dict(p=elem(R, a["cs"], p, a["z"]))
    for _ in range(4):
        A.calls("genc", dict(A=a_point(R), n=0, cs="P2", z=R.randrange(1, ed.P)), other("n", 1), other("z", R.randrange(1, ed.P)),
                other("cs", "P3", "P1xP1"), moved("A"), done=el)
        A.calls("ground", dict(A=a_point(R), n=0, cs="P2", z=R.randrange(1, ed.P)), other("n", 1), other("z", R.randrange(1, ed.P)),
                other("cs", "P3", "P1xP1"), done=el)


def limb(name):
    def aspect(R, base):
        i, d = R.randrange(10), R.pick(1, -1, 1 << R.randrange(24))

        def change(a):
            f = list(a[name])
            f[i] += d if abs(f[i] + d) <= 1 << (25 - i % 2) else -d
            a[name] = f
        return change
    return aspect


@part
def p07(A, R):
    for op in ("multiply", "add", "subtract"):
        for _ in range(3):
            A.calls("fprog", dict(a=fe(R), b=fe(R)), limb("a"), limb("b"), other("a", fe(R)), other("b", fe(R)),
                    done=lambda a: {"in": [a["a"], a["b"]], "code": [[op, 1, 2], [op, 2, 1]]})
    for op in ("square", "squareAndDouble", "negate", "invert"):
        A.calls("fprog", dict(a=fe(R)), limb("a"), limb("a"), limb("a"), done=lambda a: {"in": [a["a"]], "code": [[op, 1, 1]]})
    A.calls("fprog", dict(a=fe(R), b=fe(R)), limb("a"), limb("b"), other("b", fe(R)),
            done=lambda a: {"in": [a["a"], a["b"]], "code": [["sqrt", 1, 2], ["sqrt", 2, 1]]})


def pt(name, cs="P3"):
    return lambda R, a: elem(R, cs, ed.dec(a[name]))


@part
def p08(A, R):
    def mul(a):
        return dict(p=elem(R, "P3", ed.dec(a["A"])), a=a["a"])

    def dsm(a):
        p = dict(cs="BASE") if "A" not in a else elem(R, "P3", ed.dec(a["A"]))
        return dict(p=p, q=elem(R, "P3", ed.dec(a["Q"])), a=a["a"], b=a["b"])
    for _ in range(3):
        A.calls("gsmul", dict(A=a_point(R), a=ed.le(R.getrandbits(252))), negated("A"), head("a"), bit("a", 200, 250), bit("a", 80, 120), done=mul)
        A.calls("gsmul", dict(A=a_point(R), a=ed.le(R.getrandbits(252))), moved("A"), mid("a"), done=mul)
        A.calls("gdsm", dict(Q=a_point(R), a=ed.le(R.getrandbits(252)), b=ed.le(R.getrandbits(252))), negated("Q"), head("a"), bit("a", 200, 250),
                head("b"), bit("b", 200, 250), done=dsm)
        A.calls("gdsm", dict(A=a_point(R), Q=a_point(R), a=ed.le(R.getrandbits(252)), b=ed.le(R.getrandbits(252))), negated("A"), moved("Q"),
                mid("a"), mid("b"), done=dsm)

    def op(f, cs):
        return lambda a: dict(f=f, p=elem(R, "P3", ed.dec(a["A"])), q=elem(R, cs, ed.dec(a["Q"])))
    for f, cs in (("add", "CACHED"), ("subtract", "CACHED"), ("precomputedAdd", "PRECOMPUTED"), ("precomputedSubtract", "PRECOMPUTED")):
        A.calls("gop", dict(A=a_point(R), Q=a_point(R)), negated("A"), negated("Q"), done=op(f, cs))
        q = a_point(R)
        A.calls("gop", dict(A=q, Q=q), negated("A"), moved("Q"), done=op(f, cs))
    x = a_point(R)
    A.calls("geq", dict(A=x, Q=x), negated("A"), moved("Q"),
            done=lambda a: dict(p=elem(R, "P3", ed.dec(a["A"])), q=elem(R, "P2", ed.dec(a["Q"]))))


@part
def p09(A, R):
    for _ in range(3):
        A.calls("modq", dict(a=R.bytes(64)), head("a"), flip("a", 0.2, 0.5), flip("a", 0.5, 0.8), tail("a"))
        A.calls("muladd", dict(a=R.bytes(32), b=R.bytes(32), c=R.bytes(32)), head("a"), tail("a"), head("b"), tail("b"), tail("c"))
        A.calls("muladd", dict(a=R.bytes(32), b=R.bytes(32), c=R.bytes(32)), mid("a"), mid("b"), mid("c"), head("c"))


@part
def p10(A, R):
    for _ in range(3):
        A.calls("shared", dict(k=R.bytes(32), A=a_point(R), salt=R.bytes(32)), negated("A"), tail("k"), head("salt"), tail("salt"))
        A.calls("shared", dict(k=R.bytes(32), A=a_point(R), salt=R.bytes(32)), moved("A"), head("k"), mid("salt"))

    def pair(a):
        return dict(sk=a["sk"], sA=ed.pub(a["sk"]), rk=a["rk"], rA=ed.pub(a["rk"]), rnd=a["rnd"], m=a["m"])
    for _ in range(2):
        b = dict(sk=R.bytes(32), rk=R.bytes(32), rnd=R.bytes(48), m=msg(R))
        A.calls("encdec", b, head("sk"), tail("rk"), flip("rnd", 0, 0.6), tail("rnd"), done=pair)
        A.calls("encdec", b, tail("sk"), head("m"), tail("m"), longer("m"), done=pair)


@part
def p11(A, R):
    for via in ("new", "wrapper", "wrappereng", "engine", "nilreader"):
        for aspects in ((negated("sA"), flip("c", 0, 0.2), tail("c"), tail("rk")), (moved("sA"), flip("c", 0.6, 0.7), head("rk"), longer("c"))):
            sk, rk = R.bytes(32), R.bytes(32)
            sA = ed.pub(sk)
            c = raw_encrypt(rk, sA, R.bytes(48), pad(msg(R)))
            A.calls("dec", dict(c=c, sA=sA, rk=rk, rA=ed.pub(rk), via=via), *aspects)
        sk, rk, m = R.bytes(32), R.bytes(32), msg(R)      # valid in two places
        sA = ed.pub(sk)
        c = raw_encrypt(rk, sA, R.bytes(48), pad(m))
        d = raw_encrypt(rk, sA, c[:32] + R.bytes(16), pad(m + b"\x00"))
        A.calls("dec", dict(c=c, sA=sA, rk=rk, rA=ed.pub(rk), via=via), other("c", d), negated("sA"), mid("rk"))


def inhex(name):
    return lambda a: dict(a, **{name: a[name].hex().encode()})


@part
def p13(A, R):
    for op in ("priv", "pub"):
        for via in ("bytes", "hex", "int") if op == "priv" else ("bytes", "hex"):
            A.calls(op, dict(via=via, x=R.bytes(31) + b"\x77"), head("x"), mid("x"), bit("x", 248, 251), flip("x", 0.1, 0.3),
                    done=inhex("x") if via == "hex" else lambda a: a)
        for _ in range(3):
            A.calls(op, dict(via="hex", x=R.bytes(32).hex().encode()), other("x", lambda R, a: a["x"].upper()), longer("x", b"0"),
                    tail("x"), head("x"))


@part
def p14(A, R):
    for _ in range(3):
        A.calls("sig", dict(via="bytes", x=R.bytes(64)), head("x"), flip("x", 0.3, 0.5), flip("x", 0.5, 0.7), tail("x"), longer("x"))
        for via in ("parts", "int"):
            A.calls("sig", dict(via=via, r=R.bytes(32), s=R.bytes(32)), head("r"), tail("r"), head("s"), tail("s"), longer("r", b"\x01"))
        A.calls("sig", dict(via="int", r=R.bytes(32), s=R.bytes(32)), other("rneg", True), other("sneg", True), mid("r"), mid("s"))


@part
def p17(A, R):
    for alg in ALGS:
        for n in (4, 40, 200, 1000):
            A.calls("hash", dict(alg=alg, m=R.bytes(n)), head("m"), mid("m"), tail("m"), longer("m"), longer("m", b"\x80"))
    x = R.bytes(40)

    def cut(a):
        return dict(alg="sha3_512", m=a["m"], cuts=[len(a["m"]) // 2] if a["cut"] else [])
    for n in (8, 72, 150):
        A.calls("hash", dict(m=R.bytes(n), cut=0), other("cut", 1), head("m"), tail("m"), longer("m"), done=cut)


@part
def p19(A, R):
    for _ in range(2):
        A.calls("maffx", dict(y=a_point(R)[:31] + b"\x00", neg=False), other("neg", True), head("y"), mid("y"), flip("y", 0.8, 0.95))
        A.calls("mtogroup", dict(b=a_point(R)), bit("b", 255, 256), head("b"), mid("b"), bit("b", 240, 255))

        def mul(a):
            return dict(p=elem(R, "P3", ed.dec(a["A"])), f=ed.limbs(int.from_bytes(a["a"], "little")))
        A.calls("msmul", dict(A=a_point(R), a=ed.le(R.getrandbits(252))), negated("A"), head("a"), bit("a", 200, 250), done=mul)

        def mul2(a):
            return dict(p=elem(R, "P3", ed.dec(a["A"])), f=ed.limbs(int.from_bytes(a["a"], "little")),
                        q=elem(R, "P3", ed.dec(a["Q"])), g=ed.limbs(int.from_bytes(a["b"], "little")))
        A.calls("mdsmul", dict(A=a_point(R), Q=a_point(R), a=ed.le(R.getrandbits(252)), b=ed.le(R.getrandbits(252))), negated("A"), moved("Q"),
                mid("a"), mid("b"), done=mul2)

        def pair(a):
            return dict(p=elem(R, a["cs"], ed.dec(a["A"])), q=elem(R, a["ct"], ed.dec(a["Q"])))
        A.calls("madd", dict(A=a_point(R), Q=a_point(R), cs="P3", ct="P3"), negated("A"), negated("Q"), other("cs", "P2"), other("ct", "P2"), done=pair)
        q = a_point(R)
        A.calls("madd", dict(A=q, Q=q, cs="P3", ct="P3"), negated("A"), moved("Q"), other("cs", "P2"), other("ct", "P2"), done=pair)
        A.calls("mdbl", dict(A=q, Q=q, cs="P3", ct="P3"), negated("A"), moved("A"), other("cs", "P2"), done=lambda a: dict(p=pair(a)["p"]))
        A.calls("mneg", dict(A=q), negated("A"), moved("A"), done=lambda a: dict(p=elem(R, "P3", ed.dec(a["A"]))))
    A.calls("mredq", dict(a=R.bytes(64)), head("a"), mid("a"), tail("a"))
    A.calls("mmuladd", dict(a=R.bytes(32), b=R.bytes(32), c=R.bytes(32)), mid("a"), mid("b"), mid("c"))
    A.calls("mtofe", dict(n=R.bytes(31) + b"\x11"), head("n"), mid("n"), bit("n", 248, 252))
