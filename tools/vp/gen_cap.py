"""Programs for P18."""
from . import ed
from .core import Programs
from .gen_cipher import Pairs, odd_keys, pad, raw_encrypt
from .gen_sig import VIAS, message

NOTPOINT = ed.le(2) if ed.recover_x(2, 0) is None else ed.le(7)


def p18(R, thorough):
    P = Programs(6)
    pool = Pairs(R, 30 if thorough else 10)
    k = 8 if thorough else 1
    for eng in ("nil", "def", "ed", "stub"):
        for comp in (False, True):
            for hk in (False, True):
                for n in [None] + list(range(0, 70)):
                    if n is not None and n > 40 and n % 3:
                        continue
                    a = dict(eng=eng, comp=comp)
                    if hk:
                        a["k"] = R.pick(R.bytes(32), R.bytes(32), R.bytes(R.randrange(40)))
                    if n is not None:
                        a["A"] = R.bytes(n)
                    P.add("newpair", **a)
    for _ in range(150 * k):                         # pairs that belong together, pairs that do not
        (k1, a1), (_, a2) = pool.one(), pool.one()
        P.add("newpair", eng=R.pick("nil", "def", "ed"), comp=False, k=k1, A=R.pick(a1, a2, bytes(32), NOTPOINT))
    for n in range(0, 130):
        P.add("compressed", n=n)
    for f in ("sign", "verify", "canon", "mkcanon", "gen", "enc", "dec"):
        for fail in (False, True):
            for val in (False, True):
                for direct in (False, True):
                    if direct and f in ("gen", "enc", "dec"):
                        continue
                    for n in (0, 1, 33):
                        P.add("stub", f=f, fail=fail, val=val, direct=direct, mark=R.randrange(1, 200), m=R.bytes(n))
    for via in VIAS:
        for _ in range(4):
            P.add("signnokey", via=via, A=R.pick(pool.one()[1], R.bytes(32)), m=message(R, 60))
    # every route to the same operation
    for _ in range(40 * k):
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        m = message(R, 80)
        r, s = ed.sign(sk, m)
        P.add("dispatch", f="sign", k=sk, A=R.pick(sA, sA, rA), m=m)
        P.add("dispatch", f="sign", A=sA, m=m)
        bad = bytearray(s)
        bad[R.randrange(32)] ^= 1 << R.randrange(8)
        big = ed.le(int.from_bytes(s, "little") + ed.L)
        for rr, ss in ((r, s), (r, bytes(bad)), (r, big), (s, r), (r[:31], s), (r, s[:R.randrange(32)]), (bytes(32), bytes(32))):
            for f in ("verify", "canon", "mkcanon"):
                P.add("dispatch", f=f, A=sA, m=m, r=rr, s=ss)
        P.add("dispatch", f="verify", k=sk, A=sA, m=m, r=r, s=s)
        P.add("dispatch", f="verify", k=sk, A=rA, m=m, r=r, s=s)
        P.add("dispatch", f="mkcanon", A=sA, m=m, r=r, s=R.bytes(R.pick(64, 40, 33, 10)))
        P.add("dispatch", f="derive", k=R.pick(sk, R.bytes(R.randrange(50))))
        P.add("dispatch", f="gen", rnd=R.bytes(R.pick(32, 32, 32, 40, 31, 0)))
        rnd = R.bytes(48)
        P.add("dispatch", f="enc", sk=sk, sA=sA, rk=rk, rA=rA, m=m, rnd=rnd)
        P.add("dispatch", f="enc", sk=sk, sA=sA, rA=rA, m=m, rnd=R.bytes(R.pick(48, 48, 47, 32, 31, 0)))
        P.add("dispatch", f="enc", sA=sA, rk=rk, rA=rA, m=m, rnd=rnd)
        P.add("dispatch", f="enc", sA=sA, rA=rA, m=m, rnd=rnd)
        P.add("dispatch", f="enc", sk=sk, sA=sA, rA=R.pick(R.choice(odd_keys(R)), NOTPOINT), m=m, rnd=rnd)
        c = raw_encrypt(rk, sA, R.bytes(48), pad(m))
        P.add("dispatch", f="dec", sk=sk, sA=sA, rk=rk, rA=rA, c=c)
        P.add("dispatch", f="dec", sA=sA, rk=rk, rA=rA, c=c)
        P.add("dispatch", f="dec", sA=sA, rA=rA, c=c)
        P.add("dispatch", f="dec", sk=sk, sA=sA, rA=rA, c=c)
        P.add("dispatch", f="dec", sA=R.pick(NOTPOINT, rA), rk=rk, rA=rA, c=c)
        P.add("dispatch", f="dec", sA=sA, rk=rk, rA=rA, c=c[:R.randrange(len(c))])
        # without the private key, directly
        P.add("dec", sA=sA, rA=rA, c=c, via=R.pick("new", "wrapper", "wrappereng", "engine", "nilreader"))
    return P.done()


def p18_model(R, thorough, progs):
    """The behaviours of MCDispatch."""
    P = Programs(6)
    pool = Pairs(R, 30 if thorough else 10)
    for p in R.sample(progs, min(len(progs), 12000 if thorough else 2500)):
        keys = [None, pool.one(), pool.one()]
        ev, pairs, wraps = [], [], []
        for s in p["steps"]:
            op = s["op"]
            if op == "pair":
                pairs.append("pair%d" % (len(pairs) + 1))
                e = dict(op="wgen" if s["how"] == "gen" else "wpair", h=pairs[-1], eng=s["eng"])
                if s["k"]:
                    e["k"] = keys[s["k"]][0]
                if s["a"]:
                    e["A"] = R.bytes(R.pick(0, 31, 33)) if s["a"] == 9 else keys[s["a"]][1]
            elif op in ("signer", "cipher"):
                wraps.append("obj%d" % (len(wraps) + 1))
                e = dict(op="w" + op, h=wraps[-1], p=pairs[s["p"] - 1], eng=s["eng"])
                if op == "cipher":
                    e["q"] = pairs[s["q"] - 1]
            else:
                m = R.bytes(R.pick(0, 1, 15, 16, 40))
                e = dict(op="wuse", h=wraps[s["w"] - 1], f=op, m=m)
                if op == "verify":
                    e["r"], e["s"] = ed.sign(keys[R.pick(1, 1, 2)][0], m)
                elif op == "dec":
                    e["m"] = raw_encrypt(keys[R.pick(1, 2)][0], keys[R.pick(1, 2)][1], R.bytes(48), pad(m))
            ev.append(e)
        P.trace(ev)
    return P.done()
