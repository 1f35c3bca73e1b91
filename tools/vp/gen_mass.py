"""Mass calls (spec/Streams.tla): events of many calls each, compared by digest."""
from . import ed

SIG = ("dsa", "signer", "signereng", "engine", "wrap")


def stream(R, n, per, f, edge=None, **kw):
    """n calls of f in events of per calls; every other event with edge values."""
    out = []
    for i in range(-(-n // per)):
        ev = dict(op="mass", f=f, seed=R.bytes(16), n=per, edge=bool(i % 2) if edge is None else edge)
        ev["from"] = R.randrange(1 << 15)
        for k, v in kw.items():
            ev[k] = v(R) if callable(v) else v
        out.append({"ev": [ev]})
    return out


def via(R):
    return R.choice(SIG)


def key(R):
    return R.bytes(32)


def a_point(R):
    return ed.enc(ed.mul(R.getrandbits(252), ed.B))


def fields(R, n):
    t = []
    for o in ("multiply", "square", "squareAndDouble", "add", "subtract", "negate"):
        t += stream(R, n // 2, 100, "field", o=o) + stream(R, n // 2, 2000, "field", o=o)
    return t + stream(R, n // 8, 20, "field", o="invert")


def encs(R, n, per):
    t = stream(R, n, per, "enc", k=key, rk=key)
    for x in t:
        e = x["ev"][0]
        if R.random() < 0.25:
            e["rk"] = e["k"]
        e["kA"], e["A"] = ed.pub(e["k"]), ed.pub(e["rk"])
    return t


def decs(R, n, per):
    t = stream(R, n, per, "dec", k=key, A=a_point)
    for x in t:
        e = x["ev"][0]
        e["kA"] = ed.pub(e["k"])
        if R.random() < 0.25:
            e["A"] = e["kA"]
    return t


MORE = 10   # how much more a thorough run does


def p01(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 50000 * k, 50, "signverify", via=via)


def p02(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 40000 * k, 50, "sign", via=via) + stream(R, 16000 * k, 1000, "signkey", via=via, k=key)


def p03(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 36000 * k, 50, "verify", via=via, k=key) + stream(R, 5000 * k, 1250, "verify", via=via, k=key)


def p04(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 200000 * k, 200, "canon", via=via) + stream(R, 100000 * k, 2000, "canon", via=via)


def p05(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 40000 * k, 50, "derive", via="pair") + stream(R, 30000 * k, 50, "derive", via="gen") + \
        stream(R, 10000 * k, 1250, "derive", via=lambda R: R.pick("gen", "pair")) + \
        stream(R, 8000 * k, 1000, "gen")


def p06(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 100000 * k, 100, "gdec") + stream(R, 60000 * k, 1500, "gdec") + stream(R, 200000 * k, 200, "fbytes")


def p07(R, thorough):
    k = MORE if thorough else 1
    return fields(R, 120000 * k)


def p08(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 20000 * k, 50, "gsmul", q=a_point) + stream(R, 30000 * k, 50, "gsmul", q=ed.enc(ed.B), base=True) + \
        stream(R, 24000 * k, 50, "gdsm", q=a_point) + stream(R, 60000 * k, 100, "walk", q=a_point, q2=a_point) + \
        stream(R, 20000 * k, 1250, "walk", q=a_point, q2=a_point) + stream(R, 5000 * k, 1250, "gsmul", q=ed.enc(ed.B), base=True)


def p09(R, thorough):
    k = MORE if thorough else 1
    return sum((stream(R, n * k, per, f) for f in ("modq", "muladd") for n, per in ((200000, 200), (200000, 2000))), [])


def p10(R, thorough):
    k = MORE if thorough else 1
    return encs(R, 3000 * k, 50) + encs(R, 1400 * k, 350) + stream(R, 4000 * k, 50, "shared", A=a_point) + stream(R, 2000 * k, 250, "shared", A=a_point)


def p11(R, thorough):
    k = MORE if thorough else 1
    return decs(R, 14000 * k, 50) + decs(R, 2600 * k, 1300)


def p12(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 40000 * k, 1000, "gen") + stream(R, 4000 * k, 1000, "fresh", k=key, A=a_point)


def p13(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 40000 * k, 100, "keytext") + stream(R, 40000 * k, 100, "keyint") + stream(R, 40000 * k, 1000, "keyint") + stream(R, 20000 * k, 1000, "keytext")


def p14(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 60000 * k, 100, "sigint") + stream(R, 40000 * k, 1000, "sigint")


def p15(R, thorough):
    """Results of many calls, all looked at after the last one."""
    k = MORE if thorough else 1
    t = stream(R, 8000 * k, 2000, "canon", via=via) + stream(R, 4000 * k, 1000, "signkey", via=via, k=key) + \
        stream(R, 4000 * k, 1000, "derive", via=lambda R: R.pick("gen", "pair")) + stream(R, 3000 * k, 1000, "gen") + \
        encs(R, 1000 * k, 250) + decs(R, 2600 * k, 1300) + stream(R, 1000 * k, 500, "shared", A=a_point) + \
        stream(R, 4000 * k, 2000, "keyint") + stream(R, 4000 * k, 2000, "keytext") + stream(R, 4000 * k, 2000, "sigint") + \
        stream(R, 2000 * k, 1000, "mathutils", q=a_point) + stream(R, 6000 * k, 2000, "gdec") + stream(R, 2500 * k, 1250, "walk", q=a_point, q2=a_point)
    for alg in ("sha256", "sha3_256", "sha3_512", "keccak_256", "ripemd160"):
        t += stream(R, 3000 * k, 1500, "hash", alg=alg, max=300)
    return t


def p17(R, thorough):
    k = MORE if thorough else 1
    t = []
    for alg in ("sha256", "sha3_256", "sha3_512", "keccak_256", "ripemd160"):
        t += stream(R, 30000 * k, 100, "hash", alg=alg, max=600) + stream(R, 30000 * k, 1500, "hash", alg=alg, max=600) + stream(R, 1000 * k, 50, "hash", alg=alg, max=9000)
    return t


def p19(R, thorough):
    k = MORE if thorough else 1
    return stream(R, 22000 * k, 50, "mathutils", q=a_point) + stream(R, 8000 * k, 1000, "mathutils", q=a_point)
