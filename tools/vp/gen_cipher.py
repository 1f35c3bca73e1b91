"""Programs for P10-P12."""
import hashlib
from . import aes, ed
from .core import Programs
from .gen_sig import key, message, special_keys


def shared(k, A, salt):
    p = ed.mul(ed.secret(k), ed.dec(A))
    return hashlib.sha3_256(bytes(a ^ b for a, b in zip(ed.enc(p), salt))).digest()


def raw_encrypt(k, A, rnd, padded):
    return rnd + aes.cbc(shared(k, A, rnd[:32]), rnd[32:], padded)


def pad(m):
    n = 16 - len(m) % 16
    return m + bytes([n]) * n


def patterns(R, key, head, n):
    """Ciphertexts after head in which blocks are equal to each other, to the IV or to halves of the salt."""
    salt, iv = head[:32], head[32:]
    rk = aes.expand(key)
    xor = lambda a, b: bytes(x ^ y for x, y in zip(a, b))
    for k in range(n):
        x, y = R.bytes(16), R.bytes(16)
        few = [x, x, y, iv, salt[:16], salt[16:], bytes(16), xor(x, iv)]
        c = [R.choice(few[:R.pick(2, 3, 8)]) for _ in range(R.randrange(1, 7))]
        prev = c[-1]
        if k % 3:                                   # a last block of its own
            p = R.randrange(1, 17)
            c.append(aes.block(rk, xor(prev, R.bytes(16 - p) + bytes([p]) * p)))
        else:                                       # the last three blocks are equal
            for _ in range(2000):
                x = R.bytes(16)
                if xor(aes.unblock(rk, x), x)[-1] == 1:
                    break
            c += [x] * R.pick(2, 3)
        yield b"".join(c)


class Pairs:
    """A pool of key pairs (deriving a key is the slow part)."""

    def __init__(self, R, n):
        self.R = R
        self.all = [(k, ed.pub(k)) for k in list(special_keys()) + [key(R) for _ in range(n)]]

    def one(self):
        return self.R.choice(self.all)


def odd_keys(R):
    """Public keys that are points but not multiples of the base point."""
    out = [ed.enc(t) for t in ed.TORSION]
    for _ in range(12):
        out.append(ed.enc(ed.add(ed.mul(R.getrandbits(252), ed.B), R.choice(ed.TORSION))))
    y = ed.P + 1                                     # encodings that are not reduced
    out += [ed.le(y), ed.le(ed.P), ed.le(1 | 1 << 255), ed.le((ed.P - 1) | 1 << 255)]
    return out


def no_keys(R):
    """32-byte strings that are no points, and other lengths."""
    out = []
    y = 2
    while len(out) < 8:
        if ed.recover_x(y, 0) is None:
            out.append(ed.le(y | R.randrange(2) << 255))
        y += R.randrange(1, 2**200)
    return out + [R.bytes(31), R.bytes(33)]


def p10(R, thorough):
    P = Programs(4)
    pool = Pairs(R, 60 if thorough else 20)
    k = 6 if thorough else 1

    def args():
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        a = dict(sk=sk, rk=rk, rA=rA, sA=sA, rnd=R.bytes(48))
        return a

    for n in list(range(0, 130)) + [143, 144, 145, 159, 160, 161, 255, 256, 257, 511, 512, 513]:
        P.add("encdec", **args(), m=R.bytes(n))
        if n < 70:                                  # messages that look like padding
            P.add("encdec", **args(), m=bytes([R.pick(16, 1, n % 17, 0)]) * n)
            t = R.randrange(1, 17)
            P.add("encdec", **args(), m=(R.bytes(n) + bytes([t]) * t)[-n:] if n else b"")
    for rnd in (bytes(48), b"\xff" * 48, bytes(32) + R.bytes(16), R.bytes(32) + bytes(16)):
        for n in (0, 15, 16, 17, 40):
            P.add("encdec", **dict(args(), rnd=rnd), m=R.bytes(n))
    for i in range(60):                             # to oneself
        sk, sA = pool.one()
        P.add("encdec", sk=sk, rk=sk, rA=sA, sA=sA, rnd=R.bytes(48), m=R.pick(R.bytes(i), message(R)))
        P.add("sharedsym", sk=sk, sA=sA, rk=sk, rA=sA, salt=R.bytes(32))
    for _ in range(80 * k):                         # calls of one cipher
        a, b = pool.one(), pool.one()
        (sk, sA), (rk, rA) = R.pick((a, b), (a, a))
        n = R.randrange(2, 8)
        rnd = entropy(R, 48 * n)
        P.trace([dict(op="reader", data=rnd, cuts=[48 * n], end="eof")] +
                [dict(op=op, sk=sk, sA=sA, rk=rk, rA=rA, live=True, **more) for op, more in
                 (R.pick(("enc", dict(chk=True, m=message(R, 80))), ("dec", dict(c=raw_encrypt(
                     rk, sA, R.pick(rnd[:48], R.bytes(48)), pad(message(R, 60)))))) for _ in range(n))])
    for _ in range(400 * k):
        P.add("encdec", **args(), m=message(R, 200))
    big = [1000, 4095, 4096, 4097, 8191, 8193, 9999, 16383, 16385, 32767, 32769, 65520, 65535, 65536, 65537, 100003, 131073, 262145]
    for n in big + ([1 << 20, (1 << 20) + 7, 3000001] if thorough else []):
        P.add("encdec", **args(), mp=R.bytes(37), mn=n)
    for n in (65535, 65536, 65537, 1 << 20, (1 << 22) + 5):
        P.add("encround", **args(), mp=R.bytes(37), mn=n)
    for _ in range(2000 * k):
        P.add("encround", **args(), mp=R.bytes(R.randrange(1, 50)), mn=R.randrange(R.pick(2, 20, 200, 3000)))
    for _ in range(300 * k):
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        salt = R.pick(R.bytes(32), R.bytes(32), bytes(32), b"\xff" * 32)
        P.add("shared", k=sk, A=rA, salt=salt)
    for a in odd_keys(R):
        P.add("shared", k=pool.one()[0], A=a, salt=R.bytes(32))
    # peers that are easily taken for each other, by one private key, one after the other
    for _ in range(8 * k):
        sk, (_, rA) = pool.one()[0], pool.one()
        A = ed.dec(rA)
        alike = [rA, ed.enc(ed.neg(A)), ed.enc(ed.add(A, ed.TORSION[R.randrange(1, 8)])), rA]
        salt = R.bytes(32)
        P.trace([dict(op="shared", k=sk, A=a, salt=salt) for a in alike])
    for _ in range(30 * k):                         # ciphertexts with blocks that occur more than once
        a = args()
        a["rnd"] = head = R.pick(a["rnd"], R.bytes(16) * 3)
        key = shared(a["rk"], a["sA"], head[:32])
        for c in patterns(R, key, head, 2):
            P.add("encdec", **a, m=aes.uncbc(key, head[32:], c)[:R.pick(-1, -1, -16)])
    # salts that cancel bytes of the shared point
    for _ in range(20):
        sk, (_, rA) = pool.one()[0], pool.one()
        s = ed.enc(ed.mul(ed.secret(sk), ed.dec(rA)))
        P.add("shared", k=sk, A=rA, salt=R.pick(s, s[:16] + R.bytes(16), bytes(255 - x for x in s)))
    for _ in range(600 * k):
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        P.add("sharedsym", sk=sk, sA=sA, rk=rk, rA=rA, salt=R.bytes(32))
    return P.done()


def long_cipher(R, rk, sA, n, last):
    """A ciphertext of n blocks before those of last (decrypted); what precedes them is random."""
    head = R.bytes(48 + 16 * n)
    return head + aes.cbc(shared(rk, sA, head[:32]), head[-16:], last)


def p11(R, thorough):
    P = Programs(6)
    pool = Pairs(R, 40 if thorough else 12)
    k = 6 if thorough else 1

    def dec(c, sA=None, rk=None, **more):
        a = dict(c=c, rA=more.pop("rA", R.bytes(32)), **more)
        if sA is not None:
            a["sA"] = sA
        if rk is not None:
            a["rk"] = rk
        P.add("dec", **a)

    def pair():
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        return sk, sA, rk, rA

    def valid(m, rnd=None):
        sk, sA, rk, rA = pair()
        return raw_encrypt(rk, sA, rnd or R.bytes(48), pad(m)), sA, rk, rA

    # every length, valid prefix or not
    for n in range(0, 400 if thorough else 200):
        sk, sA, rk, rA = pair()
        dec(R.bytes(n), sA, rk, rA=rA)
        c, sA, rk, rA = valid(R.bytes(n))
        dec(c[:n], sA, rk, rA=rA)
    for n in (0, 1, 15, 16, 17, 33):
        c, sA, rk, rA = valid(R.bytes(n))
        for cut in range(len(c) + 1):
            dec(c[:cut], sA, rk, rA=rA)
        for more in range(1, 34):
            dec(c + R.bytes(more), sA, rk, rA=rA)
        for i in range(0, 8 * len(c), 1 if thorough else 5):
            f = bytearray(c)
            f[i // 8] ^= 1 << (i % 8)
            dec(bytes(f), sA, rk, rA=rA)
    # every value of the last byte, with right and wrong bytes before it
    for blocks in (1, 2, 3):
        for v in range(256):
            n = 16 * blocks
            body = bytearray(R.bytes(n))
            for i in range(min(v, n) if v else 1):
                body[n - 1 - i] = v
            sk, sA, rk, rA = pair()
            dec(raw_encrypt(rk, sA, R.bytes(48), bytes(body)), sA, rk, rA=rA)
    for v in range(1, 17):
        for wrong in range(v):                      # one byte of the padding wrong
            body = bytearray(R.bytes(R.pick(16, 32)))
            for i in range(v):
                body[-1 - i] = v
            body[-1 - wrong] ^= 1 << R.randrange(8)
            sk, sA, rk, rA = pair()
            dec(raw_encrypt(rk, sA, R.bytes(48), bytes(body)), sA, rk, rA=rA)
        body = bytearray(b"\xaa" * 32)              # padding correct, previous byte the same
        for i in range(min(v + 3, 32)):
            body[-1 - i] = v
        sk, sA, rk, rA = pair()
        dec(raw_encrypt(rk, sA, R.bytes(48), bytes(body)), sA, rk, rA=rA)
    # padding longer than a block: 17..255 equal bytes, enough blocks
    for v in (17, 24, 31, 32, 33, 48, 64, 128, 255):
        sk, sA, rk, rA = pair()
        dec(raw_encrypt(rk, sA, R.bytes(48), bytes([v]) * 256), sA, rk, rA=rA)
    for _ in range(40 * k):                         # blocks that occur more than once
        sk, sA, rk, rA = pair()
        head = R.pick(R.bytes(48), R.bytes(16) * 3)
        for c in patterns(R, shared(rk, sA, head[:32]), head, 3):
            dec(head + c, sA, rk, rA=rA)
    # keys
    c, sA, rk, rA = valid(R.bytes(20))
    for a in odd_keys(R):
        salt = R.bytes(48)
        m = R.bytes(R.randrange(40))
        dec(raw_encrypt(rk, a, salt, pad(m)), a, rk, rA=rA)
    for a in no_keys(R):
        dec(c, a, rk, rA=rA)
    dec(c, sA, None, rA=rA)
    for n in (0, 47, 48, 63, 64, 65, 80):
        dec(R.bytes(n), sA, None, rA=rA)
        dec(R.bytes(n), no_keys(R)[0], rk, rA=rA)
    for n in range(40):                             # to oneself
        rk, rA = pool.one()
        c = raw_encrypt(rk, rA, R.bytes(48), pad(R.bytes(n)))
        dec(R.pick(c, c, c[:-1]), rA, rk, rA=rA, sk=rk)
    for other in pool.all[:10]:                     # wrong keys
        dec(c, other[1], rk, rA=rA)
        dec(c, sA, other[0], rA=rA)
    for via in ("wrapper", "wrappereng", "engine", "nilreader"):
        for n in (0, 5, 16, 31):
            c, sA, rk, rA = valid(R.bytes(n))
            dec(c, sA, rk, rA=rA, via=via)
            dec(c[:-1], sA, rk, rA=rA, via=via)
            dec(c[:-16], sA, rk, rA=rA, via=via)
    for _ in range(700 * k):
        c, sA, rk, rA = valid(message(R, 100))
        x = R.random()
        if x < 0.25:
            c = c[:R.randrange(len(c) + 1)]
        elif x < 0.4:
            c += R.bytes(R.pick(1, 16, 7, 32))
        elif x < 0.7:
            f = bytearray(c)
            f[R.randrange(len(f))] ^= R.randrange(1, 256)
            c = bytes(f)
        elif x < 0.8:                               # blocks dropped or swapped
            b = [c[i:i + 16] for i in range(48, len(c), 16)]
            R.shuffle(b)
            c = c[:48] + b"".join(b[:R.randrange(1, len(b) + 1)])
        dec(c, sA, rk, rA=rA)
    for _ in range(200 * k):
        sk, sA, rk, rA = pair()
        body = bytearray(R.bytes(16 * R.randrange(1, 5)))
        body[-1] = R.randrange(18)
        if R.random() < 0.6 and body[-1]:
            for i in range(min(body[-1], len(body))):
                body[-1 - i] = body[-1]
        dec(raw_encrypt(rk, sA, R.bytes(48), bytes(body)), sA, rk, rA=rA)
    # one decrypter that refuses many times, or accepts many times, in a row
    P.flush()
    for n in (30, 70, 150):
        for good in (False, True):
            via = R.pick("new", "wrapper", "wrappereng", "engine")
            (sk, sA), (rk, rA) = pool.one(), pool.one()
            oks = [raw_encrypt(rk, sA, R.bytes(48), pad(R.bytes(R.randrange(40)))) for _ in range(6)]
            bads = [c[:-1] for c in oks] + [raw_encrypt(rk, sA, R.bytes(48), R.bytes(R.pick(16, 32)) + bytes(15) + R.pick(b"\x00", b"\x11", b"\x02"))
                                            for _ in range(6)] + [oks[0][:48], oks[1][:20], b""]
            P.trace([dict(op="dec", c=c, sA=sA, rk=rk, rA=rA, via=via, live=True)
                     for c in [R.choice(oks if good else bads) for _ in range(n)] + [oks[0], bads[0], oks[1]]])
    # long ones
    P.flush()
    for n in [60, 255, 256, 257, 511, 1023, 1024, 1025, 2047] + [4095, 4096, 4097] + ([8192, 16384, 65536] if thorough else [8193]):
        sk, sA, rk, rA = pair()
        bodies = [pad(R.bytes(14)), pad(R.bytes(3)), bytes([R.randrange(17, 256)]) * 16, R.bytes(15) + b"\x00", pad(b"")]
        for t in (2, 7, 16):
            for at in (t, 2):
                b = bytearray(pad(R.bytes(16 - t) if t < 16 else b""))
                b[-at] ^= 1 << R.randrange(8)
                bodies.append(bytes(b))
        for b in bodies if n < 1000 or thorough else R.sample(bodies[5:], 3) + R.sample(bodies[:5], 2):
            dec(long_cipher(R, rk, sA, n, b), sA, rk, rA=rA)
        c = long_cipher(R, rk, sA, n, pad(b"x"))
        dec(c[:-1], sA, rk, rA=rA)
        dec(c + R.bytes(R.randrange(1, 16)), sA, rk, rA=rA)
    return P.done()


ENDS = ("eof", "err", "eof+data", "err+data")


def schedule(R, n):
    """Portions the reader delivers n bytes in; zero-byte reads included."""
    style, cuts, left = R.randrange(6), [], n
    while left > 0:
        if style == 0:
            c = left
        elif style == 1:
            c = 1
        elif style == 2:
            c = R.pick(0, 0, 1, 2, 16, 32, 48)
        elif style == 3:
            c = R.pick(31, 33, 32, 16, 15, 17)
        else:
            c = R.randrange(0, 50)
        cuts.append(min(c, left))
        left -= min(c, left)
    if R.random() < 0.3:
        cuts.append(0)
    return cuts


def entropy_calls(R, pool, n, vias):
    out = []
    few = [(pool.one(), pool.one()) for _ in range(2)]
    for _ in range(n):
        if R.random() < 0.45:
            out.append(dict(op="genkey", via=vias[0] if len(vias) == 1 else R.choice(vias[:4])))
        else:
            (sk, sA), (rk, rA) = R.choice(few)
            out.append(dict(op="enc", via=vias[-1] if len(vias) == 1 else R.choice(vias[4:]), sk=sk, sA=sA, rA=rA,
                            m=R.bytes(R.randrange(0, 40))))
    return out


LOCAL = ("new",)
GLOBAL = ("nilreader", "engine", "byengine", "random", "nilreader", "wrapper", "wrappereng", "engine")


SOURCES = ("byte", "bytes", "buffer", "strings", "bufio", "file")


def entropy(R, n):
    """Bytes of a source: mostly random, sometimes what a random source hardly gives."""
    x = R.randrange(16)
    if x == 0:
        return bytes(n)
    if x == 1:
        return b"\xff" * n
    if x in (2, 3, 4):
        return (R.bytes(R.pick(1, 16, 32, 48)) * (n + 1))[:n]
    if x == 5:
        return bytes(i % 256 for i in range(n))
    if x == 6:
        return (bytes(R.pick(16, 32, 48)) + R.bytes(n))[:n]
    if x == 7:
        return (R.bytes(R.pick(16, 32, 48)) + bytes(n))[:n]
    if x == 8:
        return b"".join(R.pick(bytes(16), R.bytes(16)) for _ in range(n // 16 + 1))[:n]
    return R.bytes(n)


def source(R, n, cuts, end, kind=None):
    """The entropy source of a trace."""
    e = dict(op="reader", data=entropy(R, n), cuts=cuts, end=end)
    if kind:
        e["kind"] = kind
        if kind in ("bytes", "buffer", "strings", "file"):
            e["end"] = "eof"
    return e


def need(e):
    return 32 if e["op"] == "genkey" else 48


def one_entropy(R, pool, vias, extra, n):
    calls = entropy_calls(R, pool, n, vias)
    total = sum(need(e) for e in calls)
    n = max(0, total + extra)
    kind = R.choice(SOURCES) if R.random() < 0.4 else None
    once = {}
    if R.random() < 0.4:                            # it fails, and goes on
        kind = R.pick(None, "byte", "bufio")
        once["once"] = sorted(R.randrange(n + 1) for _ in range(R.pick(1, 1, 2, 5)))
    return [dict(source(R, n, schedule(R, n), R.choice(ENDS), kind), **once, **({"global": True} if vias is GLOBAL else {}))] + calls


def inner(R, pool, n, pairs=None):
    """Calls a source of entropy itself makes when it is read."""
    out = []
    for _ in range(n):
        (sk, sA), (rk, rA) = pairs if pairs and R.random() < 0.5 else (pool.one(), pool.one())
        m = R.bytes(R.randrange(40))
        out.append(R.pick(
            dict(op="hash", alg=R.pick("sha3_512", "sha3_256", "sha256", "keccak_256", "ripemd160"), m=m),
            dict(op="derive", k=R.bytes(32), via="gen"), dict(op="sign", k=sk, A=sA, m=m),
            dict(op="encdec", sk=sk, sA=sA, rk=rk, rA=rA, rnd=R.bytes(48), m=m),
            dict(op="dec", c=raw_encrypt(rk, sA, R.bytes(48), pad(m)), sA=sA, rk=rk, rA=rA),
            dict(op="mass", f="gen", n=2, **{"from": 0}, seed=R.bytes(8)),
            dict(op="mass", f="fresh", n=2, **{"from": 0}, seed=R.bytes(8), k=sk, A=rA)))
    return out


def nested(R, thorough):
    """Sources that use the library while they are read, in the same goroutine or waiting for another one;
    and sources that panic."""
    P = Programs()
    pool = Pairs(R, 8)
    for i in range(600 if thorough else 120):
        few = pool.one(), pool.one()
        (sk, sA), (rk, rA) = few
        cuts = [32, 16] if i % 3 else [R.randrange(1, 20) for _ in range(6)]
        e = dict(op="enc", sk=sk, sA=sA, rA=rA, m=R.bytes(R.randrange(20)), live=True, chk=True)
        g = dict(op="genkey", live=True, chk=True)
        calls = R.pick([e, e], [g, g], [e, g], [g, e, g])
        P.trace([dict(op="reader", data=R.bytes(sum(need(c) for c in calls) + 9), cuts=cuts, end="eof", apart=i % 2 == 0,
                      calls=inner(R, pool, R.randrange(1, 7), few))] + calls)
    for i in range(400 if thorough else 100):
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        e = dict(op="enc", sk=sk, sA=sA, rA=rA, m=R.bytes(R.randrange(20)), live=True)
        calls = [R.pick(e, dict(op="genkey", live=True)) for _ in range(4)]
        n = sum(need(c) for c in calls) + 9
        P.trace([dict(op="reader", data=R.bytes(n), cuts=schedule(R, n), end="eof", panics=True,
                      once=sorted([R.randrange(n // 2) for _ in range(R.pick(1, 1, 2, 3))]))] + calls + [dict(op="derive", k=sk, via="gen")])
    return P.done()


def p12(R, thorough):
    P = Programs()
    pool = Pairs(R, 10)
    # the source ends after every number of bytes, in each way, for each call
    for via in (LOCAL,):
        for n in range(0, 34):
            for end in ENDS:
                for cuts in ([n], [1] * n, [n // 2, 0, n - n // 2], [0, 0, n]):
                    P.trace([source(R, n, cuts, end), dict(op="genkey"), dict(op="genkey")])
            for kind in SOURCES:
                P.trace([source(R, n, schedule(R, n), R.choice(ENDS), kind), dict(op="genkey"), dict(op="genkey")])
        for n in range(0, 50):
            for end in ENDS:
                for cuts in ([n], [1] * n, [min(n, 32), n - min(n, 32)], [0, n // 2, 0, 0, n - n // 2]):
                    (sk, sA), (rk, rA) = pool.one(), pool.one()
                    P.trace([source(R, n, cuts, end),
                             dict(op="enc", sk=sk, sA=sA, rA=rA, m=R.bytes(R.randrange(20))),
                             dict(op="enc", sk=sk, sA=sA, rA=rA, m=b"")])
            for kind in SOURCES:
                (sk, sA), (rk, rA) = pool.one(), pool.one()
                P.trace([source(R, n, schedule(R, n), R.choice(ENDS), kind),
                         dict(op="enc", sk=sk, sA=sA, rA=rA, m=R.bytes(R.randrange(20))),
                         dict(op="enc", sk=sk, sA=sA, rA=rA, m=b"")])
        # a source that fails once, anywhere, and goes on
        for at in range(97):
            (sk, sA), (rk, rA) = pool.one(), pool.one()
            e = dict(op="enc", sk=sk, sA=sA, rA=rA, m=R.bytes(R.randrange(20)))
            for calls in ([dict(op="genkey")] * 3, [e] * 3, [dict(op="genkey"), e, dict(op="genkey")]):
                n = 32 + sum(need(c) for c in calls)
                P.trace([dict(source(R, n, schedule(R, n), R.choice(ENDS), R.pick(None, None, "byte", "bufio")),
                              once=[at] * R.pick(1, 1, 2))] + calls)
        # the same bytes again and again, and special ones
        for what in (bytes(32), b"\xff" * 32, ed.le(1), ed.le(ed.L), ed.pub(bytes(32)), R.bytes(1) * 32, R.bytes(16) * 2):
            P.trace([dict(op="reader", data=what * 3 + R.bytes(32), cuts=[32, 64, 32], end="eof")] + [dict(op="genkey", chk=True)] * 4)
        for what in (bytes(48), b"\xff" * 48, bytes(32) + R.bytes(16), R.bytes(32) + bytes(16), R.bytes(16) * 3):
            for sk, sA, rA in ((pool.all[0][0], pool.all[0][1], pool.all[1][1]), (R.bytes(32),) + (pool.all[2][1],) * 2):
                P.trace([dict(op="reader", data=what * 3 + R.bytes(48), cuts=[48, 96, 48], end="eof")] +
                        [dict(op="enc", sk=sk, sA=sA, rA=rA, m=R.pick(b"", b"same", bytes(16)))] * 4)
    for _ in range(4000 if thorough else 500):
        P.trace(one_entropy(R, pool, LOCAL, R.pick(0, 0, 5, -1, -17, -40, 100), R.randrange(1, 9)))
    # a source that fails many times
    for n in (20, 60, 120):
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        e = dict(op="enc", sk=sk, sA=sA, rA=rA, m=b"abc", live=True)
        for c in (e, dict(op="genkey", live=True)):
            at = R.randrange(40)
            P.trace([dict(op="reader", data=R.bytes(300), cuts=[], end="err", once=[at] * n)] + [c] * (n + 3))
    # many zero-byte reads
    for n in (5, 50, 90, 101, 300):
        P.trace([dict(op="reader", data=R.bytes(80), cuts=[0] * n + [10] + [0] * n + [70], end="eof"),
                 dict(op="genkey")] + [dict(op="enc", sk=pool.all[0][0], sA=pool.all[0][1], rA=pool.all[1][1], m=b"x")])
    # unusable keys
    for a in no_keys(R):
        P.trace([dict(op="reader", data=R.bytes(200), cuts=[200], end="eof"),
                 dict(op="enc", sk=R.bytes(32), sA=R.bytes(32), rA=a, m=b"hello"),
                 dict(op="genkey")])
    return P.done()


def p12_serial(R, thorough):
    """The process-wide source."""
    P = Programs()
    pool = Pairs(R, 6)
    for n in list(range(0, 33, 1)):
        P.trace([dict(op="reader", data=R.bytes(n), cuts=[n], end=R.choice(ENDS), **{"global": True}),
                 dict(op="genkey", via=GLOBAL[n % 4]), dict(op="genkey", via=R.choice(GLOBAL[:4]))])
    for n in range(0, 49):
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        P.trace([dict(op="reader", data=R.bytes(n), cuts=schedule(R, n), end=R.choice(ENDS), **{"global": True}),
                 dict(op="enc", via=GLOBAL[4 + n % 4], sk=sk, sA=sA, rA=rA, m=b"abc")])
    for _ in range(1500 if thorough else 250):
        P.trace(one_entropy(R, pool, GLOBAL, R.pick(0, 0, 5, -1, -17, 100), R.randrange(1, 7)))
    return P.done()


def p12_model(R, thorough, progs):
    """The behaviours of MCEntropy: portions, failure, calls; and which calls succeed."""
    P = Programs()
    pool = Pairs(R, 6)
    for p in R.sample(progs, min(len(progs), 60000 if thorough else 3000)):
        end = p["end"] if p["end"] != "no" else R.choice(ENDS)
        if p["end"] != "no" and sum(p["cuts"]) and p["cuts"][-1]:
            end += R.pick("", "+data")
        ev = [dict(source(R, sum(p["cuts"]), p["cuts"], end, R.pick(None, None, "byte", "bufio")), once=p["once"])]
        (sk, sA), (rk, rA) = pool.one(), pool.one()
        for c, ok in zip(p["calls"], p["ok"]):
            if c == "gen":
                ev.append(dict(op="genkey", succeeds=ok))
            else:
                ev.append(dict(op="enc", sk=sk, sA=sA, rA=rA, m=R.bytes(R.pick(0, 3, 16)), succeeds=ok))
        P.trace(ev)
    return P.done()


def turns_of(R, pool, p, **more):
    (sk, sA), (rk, rA) = pool.one(), pool.one()
    return [dict(op="turns", plan=p["plan"], sk=sk, sA=sA, rk=rk, rA=rA, data=R.bytes(p["limit"]), **more)]


def p12_turns(R, thorough, progs):
    """The behaviours of MCInterleave: threads that take turns at one source."""
    P = Programs()
    pool = Pairs(R, 6)
    for p in R.sample(progs, min(len(progs), 20000 if thorough else 700)):
        P.trace(turns_of(R, pool, p, turns=p["turns"]))
    return P.done()


def p12_turns_global(R, thorough, progs):
    P = Programs()
    pool = Pairs(R, 6)
    for p in R.sample(progs, min(len(progs), 4000 if thorough else 300)):
        P.trace(turns_of(R, pool, p, turns=p["turns"], **{"global": True}))
    return P.done()


def free_turns(R, thorough):
    """The same without an order: as it comes."""
    P = Programs()
    pool = Pairs(R, 6)
    for i in range(300 if thorough else 40):
        plan = [[R.pick("gen", "enc", "enc") for _ in range(R.pick(1, 3, 8))] for _ in range(R.pick(2, 4, 8))]
        n = sum(32 if k == "gen" else 48 for ks in plan for k in ks)
        P.trace(turns_of(R, pool, dict(plan=plan, limit=n - (R.pick(0, 0, 1, 20, n // 2)))))
    return P.done()


def p11_model(R, thorough, progs):
    """The decision table of MCCipher."""
    P = Programs(6)
    pool = Pairs(R, 8)
    odd = odd_keys(R)
    small, mixed, none = [ed.enc(t) for t in ed.TORSION], odd[len(ed.TORSION):], no_keys(R)
    for p in progs:
        for via in ("new", "wrapper", "wrappereng", "engine", "nilreader") if thorough else (R.pick("new", "new", "wrapper", "wrappereng", "engine", "nilreader"),):
            rk, rA = pool.one()
            A = {"good": pool.one()[1], "mixed": R.choice(mixed), "small": R.choice(small), "notpoint": R.choice(none[:8]),
                 "short": R.bytes(R.randrange(32)), "long": R.bytes(R.pick(33, 64)), "none": None}[p["sA"]]
            c = R.bytes(p["n"])
            if p["pad"] != "any" and p["sA"] in ("good", "mixed", "small"):
                b = bytearray(R.bytes(p["n"] - 48))
                v = {"p1": 1, "p5": 5, "p15": 15, "p16": 16, "zero": 0, "p17": 17, "big": 200}.get(p["pad"], 5)
                for i in range(min(v, len(b)) or 1):
                    b[-1 - i] = v
                if p["pad"] == "firstwrong":
                    b[-5] ^= 1 << R.randrange(8)
                elif p["pad"] == "middlewrong":
                    b[-R.pick(2, 3, 4)] ^= 1 << R.randrange(8)
                elif p["pad"] == "aroundwrong":
                    b[-6] = R.pick(4, 6, 0, 5)
                c = raw_encrypt(rk, A, R.bytes(48), bytes(b))
            a = dict(c=c, rA=rA, via=via, foretold=p["ok"])
            if A is not None:
                a["sA"] = A
            if p["rk"]:
                a["rk"] = rk
            P.add("dec", **a)
    return P.done()
