"""Programs for P06-P09 and P19."""
from . import ed
from .core import Programs
from .gen_sig import wide_scalar, key

P25 = ed.P
A_EVEN, A_ODD = int(1.1 * 2**25), int(1.1 * 2**24)        # documented bounds of add, subtract, negate
M_EVEN, M_ODD = int(1.65 * 2**26), int(1.65 * 2**25)      # of multiply, square, ...
S_EVEN, S_ODD = int(1.1 * 2**26), int(1.1 * 2**25)        # of encode


def bounded(R, even, odd, style=None):
    """A limb vector within the bounds; corners are likely."""
    style = style or R.randrange(8)
    out = []
    for i in range(10):
        b = even if i % 2 == 0 else odd
        if style == 0:
            v = R.pick(b, -b)
        elif style == 1:
            v = R.pick(b, -b, 0, 1, -1, b - 1, 1 - b)
        elif style == 2:
            v = b
        elif style == 3:
            v = -b
        elif style == 4:
            v = R.pick(0, 0, 0, 0, b, -b, 1, -1)
        elif style == 5:
            v = R.pick(1, -1) * min(b, R.pick(2**24, 2**25, 2**24 - 1, 2**25 - 1, 2**26 - 1, 2**26, 2**23))
        else:
            v = R.randint(-b, b)
        out.append(v)
    return out


NEAR = [0, 1, 2, 3, 17, 18, 19, 20, 37, 38, 2**25 - 1, 2**25, 2**26 - 1, 2**26, 2**51, 2**230, 2**254, 2**254 - 1]
NEAR = sorted({x % P25 for n in NEAR for x in (n, -n, P25 // 2 + n)})


def value(R):
    x = R.random()
    if x < 0.3:
        return R.choice(NEAR)
    if x < 0.4:
        return (1 << R.randrange(256)) % P25
    if x < 0.5:
        return ((1 << R.randrange(1, 256)) - R.randrange(1, 40)) % P25
    return R.getrandbits(255) % P25


def fe(R):
    """Limbs within the bounds of every operation."""
    x = R.random()
    if x < 0.5:
        return bounded(R, A_EVEN, A_ODD)
    f = ed.limbs(value(R))
    if x < 0.6:   # the same value in other limbs
        for i in range(9):
            c = R.pick(0, 0, 1, -1)
            b = 26 if i % 2 == 0 else 25
            if abs(f[i] + c * 2**b) <= (A_EVEN if i % 2 == 0 else A_ODD):
                f[i] += c * 2**b
                f[i + 1] -= c
    return f


def p07(R, thorough):
    P = Programs(8)
    un = ("negate", "square", "squareAndDouble", "invert", "encdec")
    bi = ("add", "subtract", "multiply")
    k = 10 if thorough else 1
    corners = [bounded(R, A_EVEN, A_ODD, s) for s in (0, 0, 0, 1, 1, 2, 3, 4, 4, 5)] + \
              [ed.limbs(v) for v in NEAR] + [[-19] + [0] * 8 + [2**25], [19] + [0] * 8 + [-2**25], [0] * 10]
    for a in corners:
        for op in un:
            P.add("fprog", **{"in": [a], "code": [[op, 1, 1]]})
        b = R.choice(corners)
        for op in bi + ("sqrt",):
            P.add("fprog", **{"in": [a, b], "code": [[op, 1, 2]]})
    for _ in range(1500 * k):
        a, b = fe(R), fe(R)
        P.add("fprog", **{"in": [a, b], "code": [["add", 1, 2], ["subtract", 1, 2], ["multiply", 1, 2], ["negate", 1, 1]]})
    for _ in range(2500 * k):   # up to the bounds of multiplication
        a, b = bounded(R, M_EVEN, M_ODD), bounded(R, M_EVEN, M_ODD)
        P.add("fprog", **{"in": [a, b], "code": [["multiply", 1, 2], ["square", 1, 1], ["squareAndDouble", 2, 2]]})
    for _ in range(300 * k):
        a = R.pick(fe(R), bounded(R, M_EVEN, M_ODD))
        P.add("fprog", **{"in": [a], "code": [["invert", 1, 1], ["multiply", 1, 2], ["invert", 2, 2]]})
    for _ in range(400 * k):    # square roots of squares, of i times squares, of non-squares, of 0
        x, v = value(R), value(R)
        u = R.pick(x * x % P25 * v, (P25 - x * x) * v, R.getrandbits(255), 0, x * x * ed.I % P25 * v) % P25
        P.add("fprog", **{"in": [ed.limbs(u), ed.limbs(v)], "code": [["sqrt", 1, 2]]})
        P.add("fprog", **{"in": [fe(R), fe(R)], "code": [["sqrt", 1, 2]]})
    # compositions, with the classes of operands the group formulas use
    for _ in range(1200 * k):
        regs = [(fe(R), "C") for _ in range(3)]
        code, cls = [], ["C"] * 3
        for _ in range(R.randrange(4, 14)):
            pickc = lambda ok: R.choice([i for i, c in enumerate(cls) if c in ok]) + 1
            op = R.pick("multiply", "multiply", "square", "squareAndDouble", "add", "subtract", "negate", "tri", "encdec")
            if op == "multiply":
                code.append([op, pickc("CST"), pickc("CST")]); cls.append("C")
            elif op in ("square", "squareAndDouble"):
                i = pickc("CST"); code.append([op, i, i]); cls.append("C")
            elif op in ("add", "subtract"):
                code.append([op, pickc("C"), pickc("C")]); cls.append("S")
            elif op == "negate":
                i = pickc("C"); code.append([op, i, i]); cls.append("C")
            elif op == "encdec":
                i = pickc("CS"); code.append([op, i, i]); cls.append("C")
            elif "S" in cls and "C" in cls[3:]:
                carried = [i for i, c in enumerate(cls) if c == "C" and i >= 3]
                code.append(["subtract", R.choice(carried) + 1, pickc("S"), "wide"]); cls.append("T")
        if code:
            P.add("fprog", **{"in": [r[0] for r in regs], "code": code})
    for _ in range(2000 * k):
        P.add("fenc", f=R.pick(bounded(R, S_EVEN, S_ODD), fe(R)))
    for v in NEAR:
        P.add("fenc", f=ed.limbs(v))
    for d in range(-40, 40):      # around p and 0, not reduced
        P.add("fenc", f=[d] + [0] * 8 + [2**25])
        P.add("fenc", f=[d] + [0] * 9)
        P.add("fenc", f=[d] + [0] * 8 + [-2**25])
    strs = [ed.le(n) for d in range(0, 45) for n in (d, P25 - 20 + d, 2**255 - 1 - d, 2**255 + d, 2**256 - 1 - d, 2**255 + P25 - 20 + d)
            if n < 2**256]
    strs += [ed.le(1 << i) for i in range(256)] + [ed.le((1 << i) - 1) for i in range(1, 257)]
    strs += [bytes(i) + b"\xff" * (32 - i) for i in range(33)] + [bytes([0x80] * 32), bytes([0x7f] * 32), b"\xaa" * 32, b"\x55" * 32]
    strs += [R.bytes(32) for _ in range(800 * k)]
    for s in strs:
        P.add("fdec", b=s)
    for _ in range(600 * k):
        f = fe(R)
        v = ed.limbval(f)
        g = R.pick(ed.limbs(v), fe(R), ed.limbs((v + R.pick(1, -1, 19, 2**255 % P25)) % P25), ed.limbs(P25 - v),
                   ed.limbs(v ^ (1 << R.randrange(255))))
        P.add("feq", f=f, g=g)
    for n in list(range(0, 70)) + [96, 128]:
        P.add("enclen", n=n)
    return P.done()


def p07_model(R, thorough, progs):
    """The compositions of MCBounds, with limbs at the bounds."""
    P = Programs(8)
    B = {"narrow": (A_EVEN, A_ODD), "pre": (M_EVEN, M_ODD), "unit": (2**25, 2**24)}
    for p in R.sample(progs, min(len(progs), 40000 if thorough else 1500)):
        for _ in range(1 if thorough else 3):
            code, wide = [], [p["start"][0] == "pre", p["start"][1] == "pre"]
            for op, i, j in p["code"]:
                w = op in ("negate", "add", "subtract") and p["start"] != ["unit", "unit"]
                big = w and (wide[i - 1] or wide[j - 1] or any(c[0] in ("add", "subtract", "negate") for c in code))
                wide.append(big)
                code.append([op, i, j] + (["wide"] if big else []))
            P.add("fprog", **{"in": [bounded(R, *B[s]) for s in p["start"]], "code": code + [["multiply", len(code) + 2, len(code) + 2]]})
    return P.done()


# ---- points ----

def some_points(R, n):
    pts = list(ed.TORSION) + [ed.B, ed.neg(ed.B), ed.add(ed.B, ed.B)]
    for _ in range(n):
        p = ed.mul(R.randrange(ed.L), ed.B)
        pts.append(p)
        pts.append(ed.add(p, R.choice(ed.TORSION)))
    # points with special y
    for y in list(range(2, 40)) + [P25 - d for d in range(2, 30)] + [2**254, 2**252, 2**200]:
        x = ed.recover_x(y, R.randrange(2))
        if x is not None:
            pts.append((x, y))
    return pts


def point(R, pts):
    return R.choice(pts)


def relimb(R, f, even, odd):
    """The same value in other limbs within the bounds."""
    f = list(f)
    for i in range(10):
        w, (b, b2) = (26, (even, odd)) if i % 2 == 0 else (25, (odd, even))
        c = R.pick(0, 1, -1, 1, -1)
        j, d = (i + 1, 1) if i < 9 else (0, 19)      # 2^255 = 19
        if abs(f[i] + (c << w)) <= b and abs(f[j] - c * d) <= b2:
            f[i] += c << w
            f[j] -= c * d
    return f


def special_z(R):
    """Z with few limbs that are not zero, or next to 0 or p."""
    x = R.randrange(4)
    if x == 0:
        n = R.randrange(1, 40)
    elif x == 1:
        n = P25 - R.randrange(1, 40)
    else:
        n = ed.limbval([R.pick(1, 0, -1, 2)] + [R.pick(0, 0, 0, 1, -1, 1 << R.randrange(24)) for _ in range(9)])
    return n % P25 or 1


def elem(R, cs, pt, z=None, wide=False):
    """An element of that coordinate system standing for pt, with a random Z
    (wide: limbs anywhere in the bounds of encode)."""
    x, y = pt
    Z = z or R.pick(1, R.randrange(1, P25), R.randrange(1, P25), special_z(R), special_z(R))

    def Fl(n):
        f = ed.limbs(n)
        return relimb(R, f, S_EVEN, S_ODD) if wide and R.random() < 0.7 else f
    if cs in ("P2", "P3"):
        e = dict(cs=cs, X=Fl(x * Z), Y=Fl(y * Z), Z=Fl(Z))
        if cs == "P3":
            e["T"] = Fl(x * y % P25 * Z)
        return e
    if cs == "AFFINE":
        return dict(cs=cs, X=Fl(x), Y=Fl(y), Z=Fl(1))
    if cs == "P1xP1":
        U = R.pick(1, R.randrange(1, P25), Z)
        return dict(cs=cs, X=Fl(x * Z), Y=Fl(y * U), Z=Fl(Z), T=Fl(U))
    if cs == "CACHED":
        return dict(cs=cs, X=Fl((y + x) * Z), Y=Fl((y - x) * Z), Z=Fl(Z), T=Fl(2 * ed.D * x * y % P25 * Z))
    return dict(cs="PRECOMPUTED", X=Fl(y + x), Y=Fl(y - x), Z=Fl(2 * ed.D * x * y))


def p06(R, thorough):
    P = Programs(8)
    k = 10 if thorough else 1
    pts = some_points(R, 60)
    for p in pts:
        for cs in ("P2", "P3", "P1xP1"):
            P.add("genc", p=elem(R, cs, p))
            P.add("ground", p=elem(R, cs, p))
    for _ in range(500 * k):
        P.add("genc", p=elem(R, R.pick("P2", "P3", "P1xP1"), R.choice(pts), special_z(R), wide=True))
        P.add("ground", p=elem(R, R.pick("P2", "P3", "P1xP1"), R.choice(pts), wide=True))
    for c in ("BASE", "ZERO_P2", "ZERO_P3"):
        P.add("genc", p=dict(cs=c))
        P.add("ground", p=dict(cs=c))
    for _ in range(400 * k):
        p = ed.mul(R.randrange(ed.L), ed.B)
        P.add("ground", p=elem(R, R.pick("P2", "P3", "P1xP1"), p))
        P.add("gdec", b=ed.enc(p))
        P.add("gdec", b=ed.le(int.from_bytes(ed.enc(p), "little") ^ 1 << 255))
    for y in list(range(0, 80)) + list(range(P25 - 60, 2**255)):
        for s in (0, 1):
            P.add("gdec", b=ed.le(y | s << 255))
    for i in range(256):
        P.add("gdec", b=ed.le(1 << i))
        P.add("gdec", b=ed.le(2**256 - 1 - (1 << i)))
        P.add("gdec", b=ed.le((1 << i) - 1))
    for t in ed.TORSION:
        n = int.from_bytes(ed.enc(t), "little")
        for i in range(256):
            P.add("gdec", b=ed.le(n ^ 1 << i))
    for _ in range(2500 * k):
        P.add("gdec", b=R.bytes(32))
    for n in (0, 1, 31, 33, 63, 65):
        for _ in range(3):
            P.add("gdec", b=R.bytes(n))
        P.add("gdec", b=bytes(n))
    return P.done()


SCALARS = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 255, 256, 2**128, 2**252, 2**253 - 1, 2**254, 2**255 - 1, 2**255 - 8, 2**254 + 8,
           ed.L - 1, ed.L, ed.L + 1, 2 * ed.L, 4 * ed.L - 1, 8 * ed.L if 8 * ed.L < 2**255 else 7 * ed.L]


def scalar(R, top=255):
    x = R.random()
    if x < 0.15:
        n = R.choice(SCALARS)
    elif x < 0.5:        # digits at the extremes of the radix-16 and sliding-window recodings
        d = R.pick((0, 8), (7, 8), (8, 9), (15, 0), (0, 15, 8, 7), (1, 15), tuple(range(16)))
        n = sum(R.choice(d) << (4 * i) for i in range(64))
    elif x < 0.6:
        n = (1 << R.randrange(256)) - (1 << R.randrange(256))
    elif x < 0.7:
        n = (1 << R.randrange(256)) | (1 << R.randrange(256))
    else:
        n = R.getrandbits(256)
    return abs(n) % (1 << top)


def p08(R, thorough):
    P = Programs(6)
    k = 8 if thorough else 1
    pts = some_points(R, 30)
    small = ed.TORSION + [ed.B, ed.neg(ed.B)]
    pairs = [(a, b) for a in small for b in small]
    for p in R.sample(pts, 40):
        pairs += [(p, p), (p, ed.neg(p)), (p, ed.O), (ed.O, p), (p, ed.add(p, R.choice(ed.TORSION))), (p, R.choice(pts)),
                  (p, ed.add(p, p)), (p, ed.neg(ed.add(p, p)))]
    for _ in range(300 * k):
        pairs.append((R.choice(pts), R.choice(pts)))
    for a, b in pairs:
        A = elem(R, "P3", a)
        P.add("gop", f="add", p=A, q=elem(R, "CACHED", b))
        P.add("gop", f="subtract", p=A, q=elem(R, "CACHED", b))
        P.add("gop", f="precomputedAdd", p=A, q=elem(R, "PRECOMPUTED", b))
        P.add("gop", f="precomputedSubtract", p=A, q=elem(R, "PRECOMPUTED", b))
    for a in small + R.sample(pts, 60 if thorough else 40):
        for cs in ("P2", "P3"):
            P.add("gop", f="dbl", p=elem(R, cs, a))
        P.add("gop", f="negate", p=elem(R, "P3", a))
        P.add("gop", f="toCached", p=elem(R, "P3", a))
        P.add("gop", f="toP2", p=elem(R, "P3", a))
        P.add("gop", f="toP2", p=elem(R, "P1xP1", a))
        P.add("gop", f="toP3", p=elem(R, "P1xP1", a))
        P.add("gop", f="conv", p=elem(R, "P3", a), to="P2")
        P.add("gop", f="conv", p=elem(R, "P1xP1", a), to=R.pick("P2", "P3", "P1xP1"))
        for cs in ("P2", "P3", "CACHED", "PRECOMPUTED"):
            P.add("gop", f="conv", p=elem(R, cs, a), to=cs)
        for cs in ("P2", "P3", "P1xP1"):
            P.add("gcurve", p=elem(R, cs, a))
    for c in ("BASE", "ZERO_P2", "ZERO_P3", "ZERO_PRECOMPUTED"):
        P.add("gconst", p=dict(cs=c))
        if c != "ZERO_PRECOMPUTED":
            P.add("gcurve", p=dict(cs=c))
    for _ in range(200 * k):            # no points, mostly near points
        x, y = R.pick(R.choice(pts), (R.getrandbits(255) % P25, R.getrandbits(255) % P25))
        q = R.pick((x, y), ((x + 1) % P25, y), (y, x), (x, (y + 1) % P25), (x * ed.I % P25, y), (x, y * 2 % P25), (0, 0), (1, 1))
        P.add("gcurve", p=elem(R, R.pick("P2", "P3", "P1xP1"), q, wide=R.random() < 0.5))
    # equality: same point in other coordinates, other points, across systems
    for _ in range(500 * k):
        a = R.choice(pts)
        b = R.pick(a, a, ed.neg(a), ed.add(a, R.choice(ed.TORSION)), R.choice(pts), ((P25 - a[0]) % P25, (P25 - a[1]) % P25))
        z = R.pick(None, None, R.randrange(1, P25), special_z(R))     # equal Z in both
        w = R.random() < 0.4
        P.add("geq", p=elem(R, R.pick("P2", "P3", "P1xP1"), a, z, w), q=elem(R, R.pick("P2", "P3", "P1xP1"), b, z, w))
    for _ in range(60 * k):
        e = elem(R, R.pick("P2", "P3", "P1xP1"), R.choice(pts), R.pick(None, special_z(R)), R.random() < 0.5)
        P.add("geq", p=e, q=e)
        x = elem(R, "P3", R.choice(pts))
        P.add("gdsm", p=x, q=x, a=ed.le(scalar(R)), b=ed.le(scalar(R)))
    for cs in ("P2", "P3"):
        for a in small:
            for b in small:
                P.add("geq", p=elem(R, cs, a), q=elem(R, R.pick("P2", "P3", "P1xP1"), b))
    for _ in range(120 * k):
        P.add("gchain", p=elem(R, "P3", R.choice(pts)), q=elem(R, "P3", R.choice(pts)),
              code=[R.pick("dbl", "add", "sub") for _ in range(R.randrange(3, 12))])
    # table selection
    P.flush()
    for pos in range(32):
        for lo in (-8, -2, 3):
            P.trace([dict(op="gselect", p=dict(cs="BASE"), sel=[[pos, b] for b in range(lo, lo + 6 - (lo == 3))] )])
    some = [R.choice(pts) for _ in range(6 * k)] + [R.choice(ed.TORSION), ed.neg(ed.B)]
    for p in some:
        sel = [[pos, b] for pos in range(32) for b in range(-8, 9)]
        R.shuffle(sel)
        for i in range(0, len(sel) if thorough else 120, 12):
            P.trace([dict(op="gselect", p=elem(R, "P3", p, 1 if i % 2 else None), sel=sel[i:i + 12])])
    P.trace([dict(op="gselect", p=dict(cs="BASE"), pre=True, sel=[[R.randrange(32), R.randrange(-8, 9)] for _ in range(12)])
             for _ in range(8)])
    # scalar multiplication
    for n in SCALARS:
        P.add("gsmul", p=dict(cs="BASE"), a=ed.le(n % 2**255))
        P.add("gsmul", p=elem(R, "P3", R.choice(pts)), a=ed.le(n % 2**255))
        P.add("gdsm", p=dict(cs="BASE"), q=elem(R, "P3", R.choice(pts)), a=ed.le(n % 2**255), b=ed.le(scalar(R)))
        P.add("gdsm", p=dict(cs="BASE"), q=elem(R, "P3", R.choice(pts)), a=ed.le(scalar(R)), b=ed.le(n % 2**255))
    for d in range(1, 16):
        n = sum(d << (4 * i) for i in range(64)) % 2**255
        P.add("gsmul", p=dict(cs="BASE"), a=ed.le(n))
        P.add("gdsm", p=dict(cs="BASE"), q=elem(R, "P3", R.choice(pts)), a=ed.le(n), b=ed.le(n))
    for i in range(0, 255, 1 if thorough else 5):
        P.add("gsmul", p=elem(R, "P3", R.choice(pts)), a=ed.le(1 << i))
        P.add("gdsm", p=dict(cs="BASE"), q=elem(R, "P3", R.choice(pts)), a=ed.le(1 << i), b=ed.le(1 << R.randrange(255)))
    for _ in range(700 * k):
        P.add("gsmul", p=R.pick(dict(cs="BASE"), elem(R, "P3", R.choice(pts))), a=ed.le(scalar(R)))
        P.add("gdsm", p=R.pick(dict(cs="BASE"), dict(cs="BASE"), elem(R, "P3", R.choice(pts))), q=elem(R, "P3", R.choice(pts)),
              a=ed.le(scalar(R)), b=ed.le(scalar(R)))
    return P.done()


# ---- scalars ----

def scalar32(R):
    x = R.random()
    if x < 0.2:
        return ed.le(R.pick(0, 1, ed.L - 1, ed.L, ed.L + 1, 2 * ed.L, 15 * ed.L, 2**252, 2**255 - 19, 2**256 - 1, 2**255, 2**252 - 1))
    if x < 0.4:
        n = sum(R.pick(0, 2**21 - 1, 2**20, 2**20 - 1, 2**20 + 1, R.getrandbits(21)) << (21 * i) for i in range(13))
        return ed.le(n % 2**256)
    if x < 0.5:
        return ed.le((R.randrange(16) * ed.L + R.randrange(-4, 5)) % 2**256)
    if x < 0.6:
        return ed.le(((1 << R.randrange(257)) - (1 << R.randrange(257))) % 2**256)
    return R.bytes(32)


def p09(R, thorough):
    P = Programs(10)
    k = 12 if thorough else 1
    nums = {0, 1, 2**512 - 1, 2**511, 2**256, 2**256 - 1, 2**252, 2**253 - 1, 2**505, 2**504 - 1}
    q = 2**512 // ed.L
    for kk in list(range(0, 20)) + [1 << i for i in range(0, 260, 7)] + [(1 << i) - 1 for i in range(1, 260, 7)] + [q, q - 1, q // 2, q // 16]:
        for d in (-1, 0, 1):
            nums.add(kk * ed.L + d)
    for i in range(512):
        nums.add(1 << i)
    for i in range(0, 25):
        nums.add((2**21 - 1) << (21 * i)), nums.add(2**512 - 1 - ((2**21 - 1) << (21 * i))), nums.add(1 << (21 * i)), nums.add(2**20 << (21 * i))
    nums = [n for n in nums if 0 <= n < 2**512]
    for n in sorted(nums):
        P.add("modq", a=ed.le(n, 64))
    for _ in range(3500 * k):
        P.add("modq", a=R.pick(R.bytes(64), wide_scalar(R)))
    z = bytes(32)
    edge = [z, ed.le(1), ed.le(2), ed.le(8), ed.le(ed.L - 1), ed.le(ed.L), ed.le(ed.L + 1), ed.le(2**252), ed.le(2**255 - 1), b"\xff" * 32]
    for a in edge:
        for b in edge:
            for c in edge:
                P.add("muladd", a=a, b=b, c=c)
    for i in range(256):
        P.add("muladd", a=ed.le(1 << i), b=ed.le(1), c=z)
        P.add("muladd", a=ed.le(1), b=ed.le(1 << i), c=z)
        P.add("muladd", a=ed.le(1 << i), b=ed.le(1 << (255 - i)), c=ed.le(1 << i))
        P.add("muladd", a=z, b=R.bytes(32), c=ed.le(1 << i))
    for _ in range(3500 * k):
        P.add("muladd", a=scalar32(R), b=scalar32(R), c=scalar32(R))
        # a*b + c next to a multiple of the order
        a, b = R.getrandbits(256), R.getrandbits(256)
        c = (-(a * b) + R.randrange(-2, 3)) % ed.L + R.randrange(15) * ed.L
        P.add("muladd", a=ed.le(a), b=ed.le(b), c=ed.le(c % 2**256))
    for _ in range(300 * k):
        s, t = scalar32(R), scalar32(R)
        P.add("muladd", **dict(zip("abc", R.pick((s, s, t), (s, t, s), (t, s, s), (s, s, s)))))
    for _ in range(600 * k):   # the same through the public interface
        P.add("mkcanon", r=R.bytes(32), s=R.pick(wide_scalar(R), scalar32(R), R.bytes(64)))
    return P.done()


# ---- MathUtils ----

def p19(R, thorough):
    P = Programs(6)
    k = 8 if thorough else 1
    pts = some_points(R, 25)
    CS = ("AFFINE", "P2", "P3", "P1xP1", "CACHED", "PRECOMPUTED")
    G = ("P2", "P3", "P1xP1")
    small = ed.TORSION + [ed.B]
    for a in small + R.sample(pts, 30):
        for c in CS:
            for d in CS:
                P.add("mtorep", p=elem(R, c, a), to=d)
    for _ in range(150 * k):
        P.add("mtorep", p=elem(R, R.choice(CS), R.choice(pts)), to=R.choice(CS))
    pairs = [(a, b) for a in small for b in small]
    for _ in range(250 * k):
        p = R.choice(pts)
        pairs.append((p, R.pick(p, ed.neg(p), ed.O, R.choice(pts), ed.add(p, p))))
    for a, b in pairs:
        P.add("madd", p=elem(R, R.pick("P2", "P3"), a), q=elem(R, R.pick("P2", "P3"), b))
    for _ in range(120 * k):             # an element and itself
        e = elem(R, R.pick("P2", "P3"), R.choice(pts), R.pick(None, special_z(R)))
        P.add("madd", p=e, q=e)
    for _ in range(12 * k):
        e, n = elem(R, "P3", R.choice(pts)), R.getrandbits(R.pick(8, 252))
        P.add("mdsmul", p=e, f=ed.limbs(n), q=e, g=ed.limbs(R.pick(n, R.getrandbits(20))))
        s = scalar32(R)
        P.add("mmuladd", a=s, b=R.pick(s, scalar32(R)), c=s)
    for a in small + R.sample(pts, 40):
        for c in ("P2", "P3"):
            P.add("mdbl", p=elem(R, c, a))
        P.add("mneg", p=elem(R, "P3", a))
    for _ in range(25 * k):
        n = R.pick(R.randrange(2**255 - 19), R.choice([0, 1, 2, 3, 8, ed.L, ed.L - 1, ed.L + 1, P25 - 1, 2**254]), R.getrandbits(20))
        P.add("msmul", p=elem(R, "P3", R.choice(pts)), f=ed.limbs(n))
        m = R.pick(R.getrandbits(255) % P25, R.getrandbits(9), ed.L)
        P.add("mdsmul", p=elem(R, "P3", R.choice(pts)), f=ed.limbs(n), q=elem(R, "P3", R.choice(pts)), g=ed.limbs(m))
    strs = [ed.le(y | s << 255) for y in list(range(0, 30)) + list(range(P25 - 30, 2**255)) for s in (0, 1)]
    strs += [ed.enc(t) for t in pts] + [R.bytes(32) for _ in range(600 * k)] + [ed.le(1 << i) for i in range(256)]
    for s in strs:
        P.add("mtogroup", b=s)
        n = int.from_bytes(s, "little")
        P.add("maffx", y=ed.le(n % 2**255), neg=n >> 255 == 1)
    for _ in range(600 * k):
        P.add("mredq", a=R.pick(R.bytes(64), wide_scalar(R), scalar32(R), R.bytes(32)))
        P.add("mmuladd", a=scalar32(R), b=scalar32(R), c=scalar32(R))
        n = R.pick(R.getrandbits(256), value(R), P25 + R.randrange(19), 2**255 + R.getrandbits(20), R.getrandbits(R.randrange(256)))
        P.add("mtofe", n=n.to_bytes(32, "little").rstrip(b"\x00"))
        P.add("mbytes", b=R.bytes(R.randrange(0, 70)))
        P.add("mbytes", b=R.pick(R.bytes(32), R.bytes(64), R.bytes(31) + b"\x00", bytes(R.randrange(32)) + R.bytes(5), R.bytes(5) + bytes(27)))
        P.add("mlimbs", f=R.pick(fe(R), bounded(R, S_EVEN, S_ODD)))
    P.add("mconst")
    for kind, n in (("ef32", 30), ("ef64", 30), ("ge", 16), ("ege", 16), ("int64", 40)):
        P.add("mrand", kind=kind, n=n)
    for n in (8, 16, 32, 33, 64, 100):
        P.add("mrand", kind="bytes", len=n, n=20)
    P.flush()
    for kind in ("ef32", "ef64", "ge", "ege", "int64"):
        P.add("mrand", kind=kind, n=90)
    for n in (8, 31, 32, 33, 48, 64, 100):
        P.add("mrand", kind="bytes", len=n, n=90)
    P.trace([dict(op="mrand", kind="fe", n=12)])
    return P.done()
