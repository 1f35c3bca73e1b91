"""AES-256-CBC for *choosing inputs* only (crafted paddings)."""


def _sbox():
    s = [0] * 256
    p = q = 1
    while True:
        p = p ^ (p << 1) ^ (0x1B if p & 0x80 else 0)
        p &= 0xFF
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q
        for i in (1, 2, 3, 4):
            x ^= ((q << i) | (q >> (8 - i))) & 0xFF
        s[p] = x ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


S = _sbox()


def _x2(a):
    return ((a << 1) ^ (0x1B if a & 0x80 else 0)) & 0xFF


def expand(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [S[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = _x2(rc)
        elif i % 8 == 4:
            t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]


def block(rk, b):
    s = [a ^ k for a, k in zip(b, rk[0])]
    for r in range(1, 15):
        s = [S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 14:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ _x2(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ k for a, k in zip(s, rk[r])]
    return bytes(s)


INV = [S.index(i) for i in range(256)]


def unblock(rk, b):
    s = [a ^ k for a, k in zip(b, rk[14])]
    for r in range(13, -1, -1):
        s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
        s = [INV[x] ^ k for x, k in zip(s, rk[r])]
        if r:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                u, v = _x2(_x2(a[0] ^ a[2])), _x2(_x2(a[1] ^ a[3]))
                a = [a[0] ^ u, a[1] ^ v, a[2] ^ u, a[3] ^ v]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ _x2(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
    return bytes(s)


def uncbc(key, iv, data):
    rk, out = expand(key), b""
    for i in range(0, len(data), 16):
        out += bytes(a ^ b for a, b in zip(unblock(rk, data[i:i + 16]), iv))
        iv = data[i:i + 16]
    return out


def cbc(key, iv, data):
    """data a whole number of blocks, not padded."""
    rk, out = expand(key), b""
    for i in range(0, len(data), 16):
        iv = block(rk, bytes(a ^ b for a, b in zip(data[i:i + 16], iv)))
        out += iv
    return out


assert cbc(bytes(range(32)), bytes(16), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == \
    "8ea2b7ca516745bfeafc49904b496089"
assert uncbc(bytes(range(32)), bytes(16), cbc(bytes(range(32)), bytes(16), bytes(range(48)))) == bytes(range(48))
