"""Curve arithmetic for *choosing inputs* only; what the library has to return
is decided by the TLA+ specification, never by this file."""
import hashlib

P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = (-121665 * pow(121666, P - 2, P)) % P
I = pow(2, (P - 1) // 4, P)
BY = 4 * pow(5, P - 2, P) % P


def inv(a):
    return pow(a, P - 2, P)


def recover_x(y, sign):
    """x with that parity, or None."""
    u, v = (y * y - 1) % P, (D * y * y + 1) % P
    w = u * inv(v) % P
    x = pow(w, (P + 3) // 8, P)
    if (x * x - w) % P:
        x = x * I % P
    if (x * x - w) % P:
        return None
    return x if x % 2 == sign else (P - x) % P


B = (recover_x(BY, 0), BY)
O = (0, 1)


def add(p, q):
    # extended coordinates would be faster; inputs are few
    x1, y1 = p
    x2, y2 = q
    k = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * inv(1 + k) % P, (y1 * y2 + x1 * x2) * inv(1 - k) % P)


def _eadd(p, q):
    A = (p[1] - p[0]) * (q[1] - q[0]) % P
    Bb = (p[1] + p[0]) * (q[1] + q[0]) % P
    C = 2 * D * p[3] * q[3] % P
    Dd = 2 * p[2] * q[2] % P
    E, F, G, H = Bb - A, Dd - C, Dd + C, Bb + A
    return (E * F % P, G * H % P, F * G % P, E * H % P)


def neg(p):
    return ((P - p[0]) % P, p[1])


def mul(n, p):
    r = (0, 1, 1, 0)
    q = (p[0], p[1], 1, p[0] * p[1] % P)
    while n:
        if n & 1:
            r = _eadd(r, q)
        q = _eadd(q, q)
        n >>= 1
    z = inv(r[2])
    return (r[0] * z % P, r[1] * z % P)


def enc(p):
    return (p[1] | ((p[0] & 1) << 255)).to_bytes(32, "little")


def dec(b):
    n = int.from_bytes(b, "little")
    y = n % 2**255 % P
    x = recover_x(y, n >> 255)
    return None if x is None else (x, y)


def oncurve(p):
    x, y = p
    return (-x * x + y * y - 1 - D * x * x * y * y) % P == 0


# the eight points of order dividing 8
def _torsion():
    y = 2
    while True:
        x = recover_x(y, 0)
        if x is not None:
            t = mul(L, (x, y))
            if mul(4, t) != O:
                return [mul(i, t) for i in range(8)]
        y += 1


TORSION = _torsion()


def h512(*parts):
    return hashlib.sha3_512(b"".join(parts)).digest()


def clamp(s):
    s = bytearray(s)
    s[0] &= 248
    s[31] &= 127
    s[31] |= 64
    return bytes(s)


def secret(k):
    return int.from_bytes(clamp(h512(k)[:32]), "little")


def pub(k):
    return enc(mul(secret(k), B))


def hint(*parts):
    return int.from_bytes(h512(*parts), "little") % L


def sign(k, m, A=None):
    A = A or pub(k)
    r = int.from_bytes(h512(h512(k)[32:], m), "little") % L
    R = enc(mul(r, B))
    return R, ((hint(R, A, m) * secret(k) + r) % L).to_bytes(32, "little")


def le(n, size=32):
    return n.to_bytes(size, "little")


W = (0, 26, 51, 77, 102, 128, 153, 179, 204, 230)


def limbs(n):
    """The ten reduced signed limbs of n (as Decode makes them)."""
    n %= P
    out = []
    for i in range(10):
        bits = 26 if i % 2 == 0 else 25
        v = n & ((1 << bits) - 1)
        n >>= bits
        if v >= 1 << (bits - 1):
            v -= 1 << bits
            n += 1
        out.append(v)
    out[0] += 19 * n
    return out


def limbval(f):
    return sum(x << w for x, w in zip(f, W)) % P
