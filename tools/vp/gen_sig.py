"""Programs for P01-P05 and P17."""
from . import ed
from .core import Programs

VIAS = ("dsa", "signer", "signereng", "engine", "wrap")
KVIAS = ("bytes", "hex", "HEX", "int", "gen")


def special_keys():
    yield bytes(32)
    yield b"\xff" * 32
    for i in (1, 2, 16, 31):
        yield bytes(i) + b"\x9c" * (32 - i)       # leading zeroes
        yield b"\x9c" * (32 - i) + bytes(i)       # trailing zeroes
    for i in (0, 7, 128, 255):
        yield ed.le(1 << i)
    yield b"\x80" + b"\x00" * 31
    yield b"\x00" + b"\xff" * 31
    yield bytes(range(32))


def key(R):
    x = R.random()
    if x < 0.1:
        n = R.randrange(1, 5)
        return bytes(n) + R.bytes(32 - n)
    return R.bytes(32)


def message(R, big=300):
    x = R.random()
    if x < 0.05:
        return bytes([R.randrange(256)]) * R.randrange(big)
    return R.bytes(R.randrange(R.pick(4, 40, 100, big)))


BIG = (511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537)
HUGE = (100003, 131071, 131072, 131073, 262143, 262145, 500009, 1 << 20, (1 << 20) + 1)


def life(R, n):
    """The calls one signer gets in its life."""
    k, via = key(R), R.pick(*VIAS)
    A, ev = ed.pub(k), []
    ms = [message(R, 100) for _ in range(3)]
    sigs = [(m,) + ed.sign(k, m, A) for m in ms]
    for _ in range(n):
        x = R.randrange(8)
        m, r, s = R.choice(sigs)
        if x < 3:
            ev.append(dict(op="sign", m=R.choice(ms)))
        elif x < 6:
            y = R.randrange(6)
            if y == 0:
                m = R.choice(ms)
            elif y == 1:
                s = ed.le((int.from_bytes(s, "little") + R.pick(1, ed.L, -1)) % 2**256)
            elif y == 2:
                f = bytearray(r)
                f[R.pick(31, 31, R.randrange(32))] ^= 1 << R.pick(7, R.randrange(8))
                r = bytes(f)
            elif y == 3:
                r = R.choice(sigs)[1]
            ev.append(dict(op="verify", m=m, r=r, s=s))
        elif x == 6:
            ev.append(dict(op="canon", r=r, s=R.pick(s, ed.le((int.from_bytes(s, "little") + ed.L) % 2**256), R.bytes(32), bytes(32))))
        else:
            ev.append(dict(op="mkcanon", r=r, s=R.pick(s, R.bytes(32), ed.le((int.from_bytes(s, "little") + ed.L) % 2**256))))
    both = R.random() < 0.7                         # a pair, or for verification the public key only
    return [dict(e, k=k, A=A, via=via, live=True) if both or e["op"] == "sign" else dict(e, A=A, via=via, live=True) for e in ev]


def p01(R, thorough):
    P = Programs()
    for _ in range(1000 if thorough else 150):
        P.trace(life(R, R.randrange(2, 14)))
    for k in special_keys():
        for kvia in KVIAS:
            P.add("signverify", k=k, kvia=kvia, via=R.pick(*VIAS), m=message(R))
    for n in range(0, 320):
        P.add("signverify", k=key(R), kvia=R.pick(*KVIAS), via=R.pick(*VIAS), m=R.bytes(n))
    for n in BIG + HUGE + ((3 << 20, (1 << 24) + 1) if thorough else ()):
        P.add("signverify", k=key(R), kvia=R.pick(*KVIAS), via=R.pick(*VIAS), mp=R.bytes(61), mn=n)
    for n in (0, 1, 16, 31, 33, 64, 100):
        P.add("signverify", k=R.bytes(n), kvia="bytes", via=R.pick(*VIAS), m=message(R))
    for _ in range(60000 if thorough else 6000):
        P.add("signverify", k=key(R), kvia=R.pick(*KVIAS), via=R.pick(*VIAS), m=message(R))
    return P.done()


def p02(R, thorough):
    P = Programs(4)
    for _ in range(600 if thorough else 100):
        P.trace(life(R, R.randrange(2, 14)))
    for k in special_keys():
        P.add("sign", k=k, kvia=R.pick(*KVIAS), via=R.pick(*VIAS), m=message(R), times=2)
    for n in range(0, 320):
        P.add("sign", k=key(R), kvia=R.pick(*KVIAS), via=R.pick(*VIAS), m=R.bytes(n), times=1 + n % 2)
    for n in BIG + HUGE + ((1 << 22,) if thorough else ()):
        P.add("sign", k=key(R), via=R.pick(*VIAS), mp=R.bytes(61), mn=n)
    for n in (0, 1, 16, 31, 33, 63, 64, 65, 100):   # the formula hashes whatever the key holds
        P.add("sign", k=R.bytes(n), kvia="bytes", via=R.pick(*VIAS), m=message(R))
    for _ in range(40):                              # a stated public key goes into the hash as it is
        P.add("sign", k=key(R), A=R.pick(R.bytes(32), ed.pub(key(R)), bytes(32)), via=R.pick(*VIAS), m=message(R))
    for _ in range(300 if thorough else 40):         # one signer, many messages, repeats
        ms = [message(R, 120) for _ in range(6)]
        ms += [ms[0], ms[3], ms[3], ms[0] + b"\x00", ms[1][:-1], ms[2]]
        R.shuffle(ms)
        P.add("signmany", k=key(R), via=R.pick(*VIAS), ms=ms)
    for _ in range(12000 if thorough else 2500):
        P.add("sign", k=key(R), kvia=R.pick(*KVIAS), via=R.pick(*VIAS), m=message(R))
    return P.done()


# ---- P03 ----

def valid(R, m=None):
    k = key(R)
    m = message(R, 100) if m is None else m
    A = ed.pub(k)
    r, s = ed.sign(k, m, A)
    return k, A, m, r, s


def noncanonical(y, sign):
    """Encoding of y + p (y < 19) with that sign bit."""
    return ed.le((y + ed.P) | (sign << 255))


def torsion_encodings():
    out = []
    for t in ed.TORSION:
        out.append(ed.enc(t))
    for t in ((0, 1), (0, ed.P - 1)):
        out.append(ed.le(t[1] | 1 << 255))            # "negative zero"
    for y in (0, 1):
        for s in (0, 1):
            out.append(noncanonical(y, s))
    return out


def small_order_sig(R, Aenc, tries=64):
    """A valid signature under a public key of small order."""
    A = ed.dec(Aenc)
    for _ in range(tries):
        s = R.randrange(1, ed.L)
        m = R.bytes(8)
        SB = ed.mul(s, ed.B)
        j = R.randrange(8)
        Renc = ed.enc(ed.add(SB, ed.neg(ed.mul(j, A))))
        if ed.add(SB, ed.neg(ed.mul(ed.hint(Renc, Aenc, m), A))) == ed.dec(Renc):
            return Renc, ed.le(s), m
    return None


def mixed_order_sig(R, tries=64):
    """A valid signature under a key a*B + T with T of small order."""
    a = R.randrange(1, ed.L)
    T = R.choice(ed.TORSION[1:])
    Aenc = ed.enc(ed.add(ed.mul(a, ed.B), T))
    for _ in range(tries):
        m = R.bytes(8)
        r = R.randrange(1, ed.L)
        U = R.choice(ed.TORSION)
        Renc = ed.enc(ed.add(ed.mul(r, ed.B), U))
        h = ed.hint(Renc, Aenc, m)
        if ed.add(U, ed.mul(h % 8, T)) == ed.O:
            return Aenc, Renc, ed.le((r + h * a) % ed.L), m
    return None


def chosen(R, a, r, m, U=ed.O, T=ed.O):
    """A signature made with the scalars a and r themselves (and small-order parts)."""
    A = ed.enc(ed.add(ed.mul(a % ed.L, ed.B), T))
    Renc = ed.enc(ed.add(ed.mul(r % ed.L, ed.B), U))
    return A, Renc, ed.le((r + ed.hint(Renc, A, m) * a) % ed.L), m


def p03(R, thorough):
    P = Programs(4)
    v = lambda A, m, r, s: P.add("verify", A=A, m=m, r=r, s=s, via=R.pick(*VIAS))
    # scalars nobody else would choose: R equal to A, to -A, to B, to no point but the neutral one ...
    few = (0, 1, 2, 3, 8, -1, -2, (ed.L + 1) // 2, 2**252, R.randrange(ed.L))
    for a in few:
        for r in few + (a, -a, 2 * a, a + 1, a - 1, R.randrange(ed.L)):
            A, Renc, s, m = chosen(R, a, r, message(R, 60))
            v(A, m, Renc, s)
            if r % 3 == 0:
                v(A, m, Renc, ed.le((int.from_bytes(s, "little") + R.pick(1, -1, ed.L)) % 2**256))
    # keys that are neutral, so that S is free: R = SB
    for s in [1, 2, 3, 8, 15, 16, 17, ed.L - 1, ed.L - 2, 2**252 - 1, 2**252, (ed.L - 1) // 2] + [1 << i for i in range(4, 252, 9)] + \
            [(1 << i) - 1 for i in range(5, 252, 11)] + [R.getrandbits(R.randrange(1, 252)) | 1 for _ in range(20)]:
        Renc = ed.enc(ed.mul(s, ed.B))
        for A in (ed.le(1), ed.le(1 | 1 << 255)):
            v(A, message(R, 40), Renc, ed.le(s))
        v(ed.le(1), message(R, 40), Renc, ed.le(s - 1))
        A = R.choice(torsion_encodings())
        v(A, message(R, 40), Renc, ed.le(s))
    # one verifier that refuses many times, or accepts many times, in a row
    for n in (30, 70, 150):
        for good in (False, True):
            k, A, m, r, s = valid(R)
            row = [dict(m=m, r=r, s=s)] if good else [dict(m=m + b"x", r=r, s=s), dict(m=m, r=r, s=ed.le((int.from_bytes(s, "little") + 1) % 2**256)),
                                                      dict(m=m, r=s, s=r), dict(m=m, r=r, s=bytes(32)), dict(m=m, r=r[:31], s=s)]
            ev = [R.choice(row) for _ in range(n)] + [dict(m=m, r=r, s=s), dict(m=m, r=r, s=bytes(31) + s[:1]), dict(m=m, r=r, s=s)]
            via = R.pick(*VIAS)
            P.trace([dict(e, op="verify", A=A, via=via, live=True) for e in ev])
    for _ in range(1000 if thorough else 150):
        P.trace(life(R, R.randrange(2, 14)))
    # long messages, genuine and not
    for n in BIG + HUGE + ((1 << 22,) if thorough else ()):
        k, mp = key(R), R.bytes(61)
        A = ed.pub(k)
        r, s = ed.sign(k, (mp * (n // 61 + 1))[:n], A)
        for a in (dict(mn=n), dict(mn=n - 1), dict(mn=n + 1), dict(mn=n, mp=mp[:-1] + bytes([mp[-1] ^ 1])))[:4 if n < 200000 or thorough else 2]:
            P.add("verify", A=A, r=r, s=s, via=R.pick(*VIAS), **{"mp": mp, **a})
    for n in (1000, 4097, 70001):                    # another last, first or middle byte
        k, A, m, r, s = valid(R, R.bytes(n))
        v(A, m, r, s)
        for i in (0, n // 2, n - 1):
            w = bytearray(m)
            w[i] ^= 1 << R.randrange(8)
            v(A, bytes(w), r, s)
    for _ in range(2000 if thorough else 250):
        k, A, m, r, s = valid(R)
        v(A, m, r, s)
    for n in range(0, 200, 1 if thorough else 3):
        k, A, m, r, s = valid(R, R.bytes(n))
        v(A, m, r, s)
    # every bit of every part
    for _ in range(6 if thorough else 1):
        k, A, m, r, s = valid(R, R.bytes(R.pick(1, 5, 9)))
        flip = lambda b, i: bytes(x ^ ((1 << (i % 8)) if j == i // 8 else 0) for j, x in enumerate(b))
        for i in range(256):
            v(flip(A, i), m, r, s)
            v(A, m, flip(r, i), s)
            v(A, m, r, flip(s, i))
        for i in range(8 * len(m)):
            v(A, flip(m, i), r, s)
    for _ in range(60 if thorough else 12):
        k, A, m, r, s = valid(R)
        k2, A2, m2, r2, s2 = valid(R)
        # swapped, replayed, truncated, extended
        for c in ((A2, m, r, s), (A, m2, r, s), (A, m, r2, s), (A, m, r, s2), (A, m, s, r), (A, m, r2, s2),
                  (A, m, r, r), (A, m, s, s), (r, m, A, s), (A[::-1], m, r, s), (A, m, r[::-1], s), (A, m, r, s[::-1])):
            v(*c)
        for n in (0, 1, 16, 31):
            v(A[:n], m, r, s), v(A, m, r[:n], s), v(A, m, r, s[:n])
        for x in (b"\x00", b"\x01", bytes(32), R.bytes(32)):
            v(A + x, m, r, s), v(A, m, r + x, s), v(A, m, r, s + x)
            v(x + A, m, r, s), v(A, m, x + r, s), v(A, m, r, x + s)
            v(A, m + x, r, s), v(A, x + m, r, s)
        v(A, m, r + s, b""), v(A, m, b"", r + s), v(A, m, r[:31], r[31:] + s), v(A, m, r + s[:1], s[1:])
        if m:
            v(A, m[:-1], r, s), v(A, m[1:], r, s)
        # every multiple of the group order that fits, zero, values next to the bounds
        S = int.from_bytes(s, "little")
        for j in range(1, 16):
            v(A, m, r, ed.le(S + j * ed.L))
        for n in (0, 1, ed.L - 1, ed.L, ed.L + 1, 2 * ed.L, 2**255 - 19, 2**256 - 1, 2**252, 2**253):
            v(A, m, r, ed.le(n))
        v(A, m, r, ed.le((ed.L - S) % ed.L))
        # (R, S) negated as a whole, R with the other sign, R given as R + p
        v(ed.le(int.from_bytes(A, "little") ^ 1 << 255), m, r, s)
        v(A, m, ed.enc(ed.neg(ed.dec(r))), ed.le((ed.L - S) % ed.L))
        # R off by a point of small order (the cofactored equation would hold)
        for t in ed.TORSION[1:]:
            kk = ed.secret(k)
            rr = R.randrange(1, ed.L)
            Renc = ed.enc(ed.add(ed.mul(rr, ed.B), t))
            v(A, m, Renc, ed.le((rr + ed.hint(Renc, A, m) * kk) % ed.L))
            # signature made for A + t
            At = ed.enc(ed.add(ed.dec(A), t))
            v(At, m, r, s)
            Rr = ed.enc(ed.mul(rr, ed.B))
            v(At, m, Rr, ed.le((rr + ed.hint(Rr, At, m) * kk) % ed.L))
    # public keys and R of small order, in every encoding
    for Aenc in torsion_encodings():
        for _ in range(12 if thorough else 4):
            x = small_order_sig(R, Aenc)
            if x:
                Renc, s, m = x
                v(Aenc, m, Renc, s)
                v(Aenc, m + b"!", Renc, s)
                v(Aenc, m, Renc, ed.le(int.from_bytes(s, "little") + ed.L))
    for _ in range(80 if thorough else 24):
        x = mixed_order_sig(R)
        if x:
            A, r, s, m = x
            v(A, m, r, s)
            v(A, m + b"?", r, s)
    # R the neutral element and points of small order, canonical or not
    for Renc in torsion_encodings():
        for _ in range(6 if thorough else 2):
            k, A, m, _r, _s = valid(R)
            h = ed.hint(Renc, A, m)
            v(A, m, Renc, ed.le(h * ed.secret(k) % ed.L))
            v(A, m, Renc, bytes(32))
        for Aenc in torsion_encodings():
            v(Aenc, R.bytes(3), Renc, ed.le(R.pick(0, 1, 8, ed.L)))
    # public keys and R that are arbitrary strings; y outside the field
    for _ in range(600 if thorough else 120):
        k, A, m, r, s = valid(R)
        v(R.bytes(32), m, r, s)
        v(A, m, R.bytes(32), s)
        v(R.bytes(32), m, R.bytes(32), s)
    for y in range(19):
        for sg in (0, 1):
            k, A, m, r, s = valid(R)
            v(noncanonical(y, sg), m, r, s)
            v(A, m, noncanonical(y, sg), s)
    v(b"\xff" * 32, b"x", b"\xff" * 32, b"\x01" + bytes(31))
    v(bytes(32), b"x", bytes(32), bytes(32))
    v(b"", b"", b"", b"")
    # one verifier, many signatures
    for _ in range(100 if thorough else 20):
        k, A, m, r, s = valid(R)
        cs = [dict(m=m, r=r, s=s)]
        for _ in range(3):
            m2 = message(R, 80)
            r2, s2 = ed.sign(k, m2, A)
            cs += [dict(m=m2, r=r2, s=s2), dict(m=m, r=r2, s=s2), dict(m=m2, r=r, s=s2), dict(m=m2, r=r2, s=s)]
        cs += [cs[0], dict(m=m, r=r, s=s[:31]), cs[0]]
        R.shuffle(cs)
        P.add("verifymany", A=A, cs=cs, via=R.pick(*VIAS))
    return P.done()


def p04(R, thorough):
    P = Programs(6)
    L = ed.L
    for _ in range(600 if thorough else 100):
        P.trace(life(R, R.randrange(2, 14)))
    canon = lambda s: P.add("canon", r=R.bytes(R.pick(32, 32, 32, 0, 31)), s=s, via=R.pick(*VIAS))
    mk = lambda s: P.add("mkcanon", r=R.bytes(32), s=s, via=R.pick(*VIAS))
    nums = {0, 1, 2, 255, 256, 2**252 - 1, 2**252, 2**252 + 1, 2**255 - 19, 2**255, 2**256 - 1}
    for k in range(0, 17):
        for d in (-2, -1, 0, 1, 2):
            nums.add(k * L + d)
    lb = L.to_bytes(32, "little")
    for i in range(32):                    # differs from L in one byte only, both ways
        for x in {0, 255, lb[i] ^ 1, (lb[i] + 1) % 256, (lb[i] - 1) % 256, lb[i] ^ 0x80}:
            nums.add(int.from_bytes(lb[:i] + bytes([x]) + lb[i + 1:], "little"))
        nums.add(int.from_bytes(bytes(i) + lb[i:], "little"))
        nums.add(int.from_bytes(b"\xff" * i + lb[i:], "little"))
        nums.add(int.from_bytes(lb[:i] + bytes(32 - i), "little"))
        nums.add(1 << (8 * i)), nums.add(0x10 << (8 * i))
    for n in sorted(nums):
        if 0 <= n < 2**256:
            s = ed.le(n)
            canon(s), mk(s)
            if n == 0 or s.rstrip(b"\x00") != s:
                canon(s.rstrip(b"\x00")), mk(s.rstrip(b"\x00"))   # shorter
            canon(s + bytes(1)), canon(s + bytes(32)), mk(s + bytes(1)), mk(s + bytes(32))
            canon(s + b"\x01"), canon(bytes(1) + s), mk(s + b"\x01"), mk(s + bytes(31) + b"\x80")
    for n in range(0, 70):
        canon(R.bytes(n)), canon(bytes(n)), canon(b"\xff" * n)
        if n <= 64:
            mk(R.bytes(n)), mk(bytes(n)), mk(b"\xff" * n)
    for _ in range(20000 if thorough else 1500):
        mk(R.bytes(R.randrange(0, 65)))
        mk(wide_scalar(R))
        s = ed.le(R.pick(L, 2**252, 2**256) - 1 - R.getrandbits(R.randrange(1, 252)))
        canon(s), mk(s)
    for _ in range(6000 if thorough else 1500):
        P.add("signcanon", k=key(R), via=R.pick(*VIAS), m=message(R))
    # a second S for the same message, key and R is never accepted; its
    # canonical form is the signature
    for _ in range(120 if thorough else 20):
        k, A, m, r, s = valid(R)
        S = int.from_bytes(s, "little")
        P.add("verify", A=A, m=m, r=r, s=s, via=R.pick(*VIAS))
        for j in range(1, 16):
            s2 = ed.le(S + j * L)
            P.add("verify", A=A, m=m, r=r, s=s2, via=R.pick(*VIAS))
            P.add("mkcanon", r=r, s=s2, via=R.pick(*VIAS))
            P.add("canon", r=r, s=s2, via=R.pick(*VIAS))
        j = R.randrange(2**258)
        P.add("mkcanon", r=r, s=ed.le((S + j * L) % 2**512, 64), via=R.pick(*VIAS))
        P.add("verify", A=A, m=m, r=r, s=s + bytes(R.pick(1, 32)), via=R.pick(*VIAS))
    return P.done()


def wide_scalar(R):
    """A 64-byte scalar that exercises carries: windows of 21 bits at extremes."""
    x = R.random()
    if x < 0.35:
        v = R.randrange(2**512 // ed.L + 1) * ed.L + R.randrange(-3, 4)
        return ed.le(max(0, min(v, 2**512 - 1)), 64)
    n = 0
    for i in range(25):
        n |= R.pick(0, 2**21 - 1, 2**20, 2**20 - 1, 1, R.getrandbits(21)) << (21 * i)
    return ed.le(n % 2**512, 64)


def p05(R, thorough):
    P = Programs(6)
    vias = ("gen", "engine", "pairnil", "paireng", "pairdef")
    for k in special_keys():
        for via in vias:
            P.add("derive", k=k, kvia=R.pick("bytes", "hex", "HEX", "int"), via=via)
        P.add("secret", k=k)
    for n in (0, 1, 16, 31, 33, 63, 64, 65, 100):
        P.add("derive", k=R.bytes(n), kvia="bytes", via=R.pick(*vias))
        P.add("secret", k=R.bytes(n))
    for _ in range(20000 if thorough else 4000):
        P.add("derive", k=key(R), kvia=R.pick("bytes", "hex", "HEX", "int"), via=R.pick(*vias))
    for _ in range(4000 if thorough else 800):
        P.add("secret", k=key(R))
    # equal keys, again and again, through one process
    k = key(R)
    for _ in range(20):
        P.add("derive", k=k, via=R.pick(*vias))
    P.flush()
    for k in special_keys():                         # as entropy, twice
        P.trace([dict(op="reader", data=k + k + R.bytes(32), cuts=[32, 32, 32], end="eof")] + [dict(op="genkey", via="new", chk=True)] * 3)
    for i in range(2000 if thorough else 400):
        data = (b"".join(key(R) for _ in range(3)))
        cuts = []
        while sum(cuts) < len(data):
            cuts.append(R.randrange(0, 40))
        P.trace([dict(op="reader", data=data, cuts=cuts if i % 2 else [], end=R.pick("eof", "err"))] +
                [dict(op="genkey", via="new", chk=True)] * 3)
    return P.done()


def p05_serial(R, thorough):
    out = []
    for via in ("nilreader", "engine", "byengine", "random"):
        for _ in range(20 if thorough else 6):
            out.append({"ev": [dict(op="reader", data=R.pick(R.bytes(64), R.bytes(64), bytes(64), b"\xff" * 64, R.bytes(32) * 2), cuts=[], end="eof")
                               | {"global": True}] + [dict(op="genkey", via=via, chk=True)] * 2})
    return out


def p17(R, thorough):
    P = Programs(8)
    algs = ("sha256", "sha3_256", "sha3_512", "keccak_256", "ripemd160")
    top = 1100 if thorough else 600
    for a in algs:
        for n in range(0, top):
            P.add("hash", alg=a, m=R.bytes(n))
        for n in range(0, 300, 1 if thorough else 7):
            P.add("hash", alg=a, m=bytes([R.pick(0, 0xff, 0x80, 0x01, 0x06)]) * n)
        for n in BIG + HUGE:
            P.add("hash", alg=a, mp=R.bytes(53), mn=n)
        for _ in range(2000 if thorough else 150):
            P.add("hash", alg=a, m=R.bytes(R.randrange(3000)))
    # splits
    P.add("hash", alg="sha3_512")
    for n in list(range(0, 20)) + [70, 71, 72, 73, 74, 143, 144, 145, 200]:
        m = R.bytes(n)
        for c in range(n + 1) if n < 80 or thorough else [0, 1, 71, 72, 73, n - 1, n]:
            P.add("hash", alg="sha3_512", m=m, cuts=[c])
        P.add("hash", alg="sha3_512", m=m, cuts=[1] * n)
        P.add("hash", alg="sha3_512", m=m, cuts=[0] * 5)
    for _ in range(4000 if thorough else 600):
        n = R.randrange(0, R.pick(10, 100, 500, 2000))
        m = R.bytes(n)
        cuts, left = [], n
        for _ in range(R.randrange(0, 9)):
            c = R.pick(0, min(left, 72), R.randint(0, left), R.randint(0, min(left, 80)))
            cuts.append(c)
            left -= c
        P.add("hash", alg="sha3_512", m=m, cuts=cuts)
    for n in (65536, 200000):
        P.add("hash", alg="sha3_512", mp=R.bytes(53), mn=n, cuts=[0, n // 3, 1, n // 2])
    for n in (1, 2, 8, 32, 64, 71, 72, 73, 144, 200):   # repeated parts, as one slice and as several
        for c in (2, 3, 4, 9):
            for same in (True, False):
                P.add("hash", alg="sha3_512", m=R.bytes(n) * c, cuts=[n] * (c - 1), same=same)
                a, b = R.bytes(n), R.bytes(n)
                P.add("hash", alg="sha3_512", m=a + b + a + a + b, cuts=[n] * 4, same=same)
    return P.done()


def p17_model(R, thorough, progs):
    """The splits of MCSponge; each concatenation also whole."""
    P = Programs(8)
    for p in progs:
        m = R.bytes(sum(p["parts"]))
        if p["parts"]:
            P.add("hash", alg="sha3_512", m=m, cuts=p["parts"][:-1])
        else:
            P.add("hash", alg="sha3_512")
    return P.done()
