"""Specifications (FIPS 180-4, RIPEMD-160, SipHash-2-4, RFC 2104) as functions over bit-vector terms.

The constants are derived here from their published definitions, not copied from the code under
verification, and selftest() compares every spec with an independent implementation (hashlib, hmac,
published vectors)."""
import terms as tm
from terms import const, add, bxor, band, bor, bnot, rotl, rotr, lshr, cat, ext, zext, isc


def _primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def _frac(p, root, bits):
    """first `bits` bits of the fractional part of the root-th root of p"""
    return _iroot(p << (root * bits), root) & ((1 << bits) - 1)


P80 = _primes(80)
K256 = [_frac(p, 3, 32) for p in P80[:64]]
K512 = [_frac(p, 3, 64) for p in P80]
IV256 = [_frac(p, 2, 32) for p in P80[:8]]
IV512 = [_frac(p, 2, 64) for p in P80[:8]]
IV384 = [_frac(p, 2, 64) for p in P80[8:16]]
IV1 = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
K1 = [_iroot(2 << 60, 2), _iroot(3 << 60, 2), _iroot(5 << 60, 2), _iroot(10 << 60, 2)]
KR = [0, _iroot(2 << 60, 2), _iroot(3 << 60, 2), _iroot(5 << 60, 2), _iroot(7 << 60, 2)]
KR2 = [_iroot(2 << 90, 3), _iroot(3 << 90, 3), _iroot(5 << 90, 3), _iroot(7 << 90, 3), 0]


def be(bs):
    return cat(list(bs))


def le(bs):
    return cat(list(reversed(bs)))


def to_be(w):
    return [ext(w, w.w - 8 - 8 * i, 8) for i in range(w.w // 8)]


def to_le(w):
    return [ext(w, 8 * i, 8) for i in range(w.w // 8)]


# every compress takes (state words, block bytes) and returns (new state words, list of named cut points)
def sha1(h, blk):
    w = [be(blk[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 80):
        w.append(rotl(bxor(w[t - 3], w[t - 8], w[t - 14], w[t - 16]), 1))
    a, b, c, d, e = h
    cuts = list(w)
    for t in range(80):
        if t < 20:
            f = bxor(band(b, c), band(bnot(b), d))
        elif 40 <= t < 60:
            f = bxor(band(b, c), band(b, d), band(c, d))
        else:
            f = bxor(b, c, d)
        x = add(rotl(a, 5), f, e, const(K1[t // 20], 32), w[t])
        a, b, c, d, e = x, a, rotl(b, 30), c, d
        cuts += [f, x]
    return [add(x, y) for x, y in zip(h, (a, b, c, d, e))], cuts


def _sha2(h, blk, K, ww, r):
    rounds = len(K)
    n = ww // 8
    w = [be(blk[n * i:n * i + n]) for i in range(16)]
    cuts = []
    S = lambda x, p: bxor(rotr(x, p[0]), rotr(x, p[1]), rotr(x, p[2]))
    s = lambda x, p: bxor(rotr(x, p[0]), rotr(x, p[1]), lshr(x, const(p[2], ww)))
    for t in range(16, rounds):
        s1, s0 = s(w[t - 2], r[3]), s(w[t - 15], r[2])
        w.append(add(s1, w[t - 7], s0, w[t - 16]))
        cuts += [s1, s0, w[-1]]
    a, b, c, d, e, f, g, hh = h
    for t in range(rounds):
        S1, ch = S(e, r[1]), bxor(band(e, f), band(bnot(e), g))
        S0, mj = S(a, r[0]), bxor(band(a, b), band(a, c), band(b, c))
        t1 = add(hh, S1, ch, const(K[t], ww), w[t])
        t2 = add(S0, mj)
        a, b, c, d, e, f, g, hh = add(t1, t2), a, b, c, add(d, t1), e, f, g
        cuts += [S1, ch, S0, mj, t1, e, a]
    return [add(x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))], cuts


def sha256(h, blk):
    return _sha2(h, blk, K256, 32, [(2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)])


def sha512(h, blk):
    return _sha2(h, blk, K512, 64, [(28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)])


RL = [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
      7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
      11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
      11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
      9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]
RR = [8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
      9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
      9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
      15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
      8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]
_rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
_pi = [(9 * i + 5) % 16 for i in range(16)]


def _perm():
    l, r = [], []
    a = list(range(16))
    b = list(_pi)
    for _ in range(5):
        l += a
        r += b
        a = [_rho[x] for x in a]
        b = [_rho[x] for x in b]
    return l, r


XL, XR = _perm()


def _rf(j, x, y, z):
    if j == 0:
        return bxor(x, y, z)
    if j == 1:
        return bor(band(x, y), band(bnot(x), z))
    if j == 2:
        return bxor(bor(x, bnot(y)), z)
    if j == 3:
        return bor(band(x, z), band(y, bnot(z)))
    return bxor(x, bor(y, bnot(z)))


def ripemd160(h, blk):
    w = [le(blk[4 * i:4 * i + 4]) for i in range(16)]
    res = []
    cuts = []
    for X, R, K, fl in ((XL, RL, KR, 0), (XR, RR, KR2, 1)):
        a, b, c, d, e = h
        for j in range(80):
            f = _rf(4 - j // 16 if fl else j // 16, b, c, d)
            t0 = add(a, f, w[X[j]], const(K[j // 16], 32))
            t = add(rotl(t0, R[j]), e)
            a, e, d, c, b = e, d, rotl(c, 10), b, t
            cuts += [f, t0, t]
        res.append((a, b, c, d, e))
    (a, b, c, d, e), (A, B, C, D, E) = res
    return [add(h[1], c, D), add(h[2], d, E), add(h[3], e, A), add(h[4], a, B), add(h[0], b, C)], cuts


def sipround(v, cuts=None):
    c = cuts if cuts is not None else []
    v0, v1, v2, v3 = v
    v0 = add(v0, v1); c.append(v0); v1 = rotl(v1, 13); v1 = bxor(v1, v0); c.append(v1); v0 = rotl(v0, 32)
    v2 = add(v2, v3); c.append(v2); v3 = rotl(v3, 16); v3 = bxor(v3, v2); c.append(v3)
    v0 = add(v0, v3); c.append(v0); v3 = rotl(v3, 21); v3 = bxor(v3, v0); c.append(v3)
    v2 = add(v2, v1); c.append(v2); v1 = rotl(v1, 17); v1 = bxor(v1, v2); c.append(v1); v2 = rotl(v2, 32)
    return [v0, v1, v2, v3]


def sip_compress(v, blk):
    m = le(blk)
    v = [v[0], v[1], v[2], bxor(v[3], m)]
    cuts = [v[3]]
    v = sipround(sipround(v, cuts), cuts)
    return [bxor(v[0], m), v[1], v[2], v[3]], cuts


def sip_final(v, cuts=None):
    v = [v[0], v[1], bxor(v[2], const(0xff, 64)), v[3]]
    for _ in range(4):
        v = sipround(v, cuts)
    return bxor(*v)


def sip_init(k0, k1):
    m = b'somepseudorandomlygeneratedbytes'
    c = [const(int.from_bytes(m[8 * i:8 * i + 8], 'big'), 64) for i in range(4)]
    return [bxor(k0, c[0]), bxor(k1, c[1]), bxor(k0, c[2]), bxor(k1, c[3])]


class Alg:
    def __init__(self, name, ww, nw, block, compress, iv, outw, lenbytes, bigend):
        self.name, self.ww, self.nw, self.block, self.compress = name, ww, nw, block, compress
        self.iv, self.outw, self.lenbytes, self.bigend = iv, outw, lenbytes, bigend
        self.outbytes = outw * ww // 8
        self.wbytes = ww // 8

    def word_bytes(self, w):
        return to_be(w) if self.bigend else to_le(w)

    def padlen(self, n):
        return -(n + 1 + self.lenbytes) % self.block

    def digest(self, msg):
        """concrete reference (through the very same compress terms)"""
        n = len(msg)
        m = msg + b'\x80' + b'\0' * self.padlen(n) + (8 * n).to_bytes(self.lenbytes, 'big' if self.bigend else 'little')
        h = [const(x, self.ww) for x in self.iv]
        for i in range(0, len(m), self.block):
            h, _ = self.compress(h, [const(b, 8) for b in m[i:i + self.block]])
        out = []
        for w in h[:self.outw]:
            out += self.word_bytes(w)
        return bytes(x.a for x in out)


def _iv512_256():
    g = Alg('gen', 64, 8, 128, sha512, [x ^ 0xa5a5a5a5a5a5a5a5 for x in IV512], 8, 16, True)
    d = g.digest(b'SHA-512/256')
    return [int.from_bytes(d[8 * i:8 * i + 8], 'big') for i in range(8)]


ALGS = {
    'sha1': Alg('sha1', 32, 5, 64, sha1, IV1, 5, 8, True),
    'sha256': Alg('sha256', 32, 8, 64, sha256, IV256, 8, 8, True),
    'sha512': Alg('sha512', 64, 8, 128, sha512, IV512, 8, 16, True),
    'sha384': Alg('sha384', 64, 8, 128, sha512, IV384, 6, 16, True),
    'sha512_256': Alg('sha512_256', 64, 8, 128, sha512, _iv512_256(), 4, 16, True),
    'ripemd160': Alg('ripemd160', 32, 5, 64, ripemd160, IV1, 5, 8, False),
}


def siphash(key, msg):
    k0, k1 = int.from_bytes(key[:8], 'little'), int.from_bytes(key[8:], 'little')
    v = sip_init(const(k0, 64), const(k1, 64))
    m = msg + b'\0' * (7 - len(msg) % 8) + bytes([len(msg) & 255])
    for i in range(0, len(m), 8):
        v, _ = sip_compress(v, [const(b, 8) for b in m[i:i + 8]])
    return sip_final(v).a


def selftest():
    import hashlib
    n = 0
    msgs = [b'', b'abc', bytes(range(55)), bytes(range(56)), bytes(range(64)), bytes(range(111)), bytes(range(112)), bytes(range(256)) * 2]
    for name, a in ALGS.items():
        for m in msgs:
            try:
                h = hashlib.new({'sha512_256': 'sha512_256'}.get(name, name), m).digest()
            except ValueError:
                h = {b'': {'ripemd160': '9c1185a5c5e9fc54612808977ee8f548b2258d31'},
                     b'abc': {'ripemd160': '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc'}}.get(m, {}).get(name)
                if h is None:
                    continue
                h = bytes.fromhex(h)
            assert a.digest(m) == h, (name, m)
            n += 1
    key = bytes(range(16))
    assert siphash(key, bytes(range(15))) == 0xa129ca6149be45e5
    assert siphash(key, b'') == 0x726fdb47dd0e0e31
    return n + 2


if __name__ == '__main__':
    print(selftest())
