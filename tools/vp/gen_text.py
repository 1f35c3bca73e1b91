"""Programs for P13 and P14."""
from .core import Programs

HEX = "0123456789abcdefABCDEF"


def txt(s):
    return s if isinstance(s, bytes) else s.encode("utf-8")


def key_texts(R, thorough):
    """Texts: every length near the right one, every case, bad characters everywhere."""
    for n in list(range(0, 10)) + list(range(58, 72)) + [96, 126, 127, 128, 129, 130, 256]:
        for _ in range(3):
            yield "".join(R.choice(HEX) for _ in range(n))
        yield "0" * n
        yield "f" * n
        yield "F" * n
    for _ in range(2000 if thorough else 400):
        yield "".join(R.choice(HEX) for _ in range(R.pick(64, 64, 63)))
    good = R.bytes(32).hex()
    for i in range(64):                                     # one bad digit
        for c in R.sample("gGzZ@`/: -+.xX\x00\t\n_\u00e9\u0661\uff11\u0410", 4) + ["g", "G"]:
            yield good[:i] + c + good[i + 1:]
        yield good[:i] + good[i + 1:]                       # one digit missing
        yield good[:i] + R.choice(HEX) + good[i:]           # one digit too many
        yield good[:i] + " " + good[i:]
        yield good[:i] + "-" + good[i + 1:]
    for c in range(256):                                    # every byte as a digit, first and last
        for t in (bytes([c]) + good[1:].encode(), good[:-1].encode() + bytes([c]), good[:30].encode() + bytes([c]) + good[31:].encode()):
            yield t
        yield bytes([c]) + good[:62].encode()
    for t in (good + "\n", "\n" + good, good + " ", " " + good, "0x" + good, "0x" + good[2:], "0X" + good[2:], "-" + good,
              "+" + good, "+" + good[1:], good + "0", "0" + good, "00" + good, good + "00", good[2:] + "00", good + good,
              "00" * 31 + "01", "0" * 63 + "1", "1" + "0" * 63, "0" * 62 + "1", "1" + "0" * 62, "", "0", "00"):
        yield t


def values(R, thorough):
    for i in range(0, 33):
        yield bytes(i) + R.bytes(32 - i)                    # leading zeroes
        yield R.bytes(32 - i) + bytes(i)
        yield bytes(i) + b"\x01" + bytes(31 - i) if i < 32 else bytes(32)
        yield bytes(i) + b"\xff" * (32 - i)
    for i in range(256):
        yield (1 << i).to_bytes(32, "big")
    for _ in range(3000 if thorough else 500):
        n = R.randrange(0, 4)
        yield bytes(n) + R.bytes(32 - n)


def p13(R, thorough):
    P = Programs(8)
    for t in key_texts(R, thorough):
        P.add("priv", via="hex", x=txt(t))
        P.add("pub", via="hex", x=txt(t))
    for v in values(R, thorough):
        P.add("priv", via="bytes", x=v)
        P.add("priv", via="int", x=v[::-1])                 # integers are given little-endian
        P.add("priv", via="hex", x=txt(v.hex()))
        P.add("priv", via="hex", x=txt(v.hex().upper()))
        P.add("pub", via="bytes", x=v)
        P.add("pub", via="hex", x=txt(v.hex()))
        P.add("pub", via="hex", x=txt(v.hex().upper()))
        mixed = "".join(R.pick(c, c.upper()) for c in v.hex())
        P.add("priv", via="hex", x=txt(mixed))
        P.add("pub", via="hex", x=txt(mixed))
        if v[0] < 16:
            P.add("priv", via="hex", x=txt(v.hex()[1:]))
            P.add("pub", via="hex", x=txt(v.hex()[1:]))
    return P.done()


def p14(R, thorough):
    P = Programs(8)
    lens = list(range(0, 70)) + [96, 127, 128, 129, 160]
    for n in lens:
        P.add("sig", via="bytes", x=R.bytes(n))
        P.add("sig", via="bytes", x=bytes(n))
    for a in list(range(0, 36)) + [63, 64, 65, 96]:
        for b in {0, 1, 31, 32, 33, 64, max(0, 64 - a), a}:
            P.add("sig", via="parts", r=R.bytes(a), s=R.bytes(b))
    vs = list(values(R, thorough))
    for v in vs:
        w = R.choice(vs)
        P.add("sig", via="parts", r=v, s=w)
        P.add("sig", via="parts", r=w, s=v)
        P.add("sig", via="bytes", x=v + w)
        P.add("sig", via="int", r=v[::-1], s=w[::-1])
        P.add("sig", via="int", r=v, s=w)
    edge = [0, 1, 2, 255, 256, 2**128, 2**248 - 1, 2**248, 2**255 - 19, 2**255 - 1, 2**255, 2**256 - 1]
    over = [2**256, 2**256 + 1, 2**257 - 1, 2**263, 2**264, 2**512 - 1, 2**512, 2**511]
    le = lambda n: n.to_bytes(max(1, (n.bit_length() + 7) // 8), "little") if n else b""
    for a in edge:
        for b in edge:
            P.add("sig", via="int", r=le(a), s=le(b))
        for b in over:
            P.add("sig", via="int", r=le(a), s=le(b))
            P.add("sig", via="int", r=le(b), s=le(a))
        for b in edge:
            P.add("sig", via="int", r=le(a), s=le(b), rneg=True)
            P.add("sig", via="int", r=le(a), s=le(b), sneg=True)
            P.add("sig", via="int", r=le(a), s=le(b), rneg=True, sneg=True)
        P.add("sig", via="int", r=le(a), s=le(1), rnil=True)
        P.add("sig", via="int", r=le(a), s=le(1), snil=True)
    for _ in range(5000 if thorough else 400):
        P.add("sig", via="int", r=R.bytes(R.randrange(0, 35)), s=R.bytes(R.randrange(0, 35)))
    return P.done()


def p13_model(R, thorough, progs):
    """The shapes of texts of MCText."""
    P = Programs(8)
    for p in progs:
        digits = {"lower": "0123456789abcdef", "upper": "0123456789ABCDEF", "mixed": HEX, "zeros": "0"}[p["style"]]
        t = bytearray("".join(R.choice(digits) for _ in range(p["n"])).encode())
        if p["place"] != "none":
            n = p["n"]
            t[{"first": 0, "second": min(1, n - 1), "middle": n // 2, "last": n - 1}[p["place"]]] = p["char"]
        for k in ("priv", "pub"):
            P.add(k, via="hex", x=bytes(t), foretold=p["ok"])
    return P.done()
