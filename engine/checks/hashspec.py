"""FIPS 180-4 SHA-512 and RFC 7693 BLAKE2b compression functions, written over terms (or plain integers)."""
from ..mv import terms as T

M64 = 1 << 64

def add(*xs):
    return T.mod(T.sumt(list(xs)), M64)

def rotr(x, n):
    return T.add(T.div(x, 1 << n), T.scale(T.mod(x, 1 << n), 1 << 64 - n))

def shr(x, n):
    return T.div(x, 1 << n)

def xor(a, *bs):
    for b in bs:
        a = T.b_xor(a, b)
    return a

def inv(x):
    return T.sub(M64 - 1, x)

def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out

def iroot(x, k):
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m - 1
    return lo

# FIPS 180-4: fractional parts of the roots of the first primes
K512 = [iroot(p << 192, 3) % M64 for p in primes(80)]
IV512 = [iroot(p << 128, 2) % M64 for p in primes(8)]

def sha_words(b):
    """big-endian words of 128 bytes"""
    return [T.sumt([T.scale(b[8 * i + j], 1 << 8 * (7 - j)) for j in range(8)]) for i in range(16)]

def sha_compress(h, block):
    w = sha_words(block)
    for t in range(16, 80):
        s0 = xor(rotr(w[t - 15], 1), rotr(w[t - 15], 8), shr(w[t - 15], 7))
        s1 = xor(rotr(w[t - 2], 19), rotr(w[t - 2], 61), shr(w[t - 2], 6))
        w.append(add(s1, w[t - 7], s0, w[t - 16]))
    a, b, c, d, e, f, g, k = h
    for t in range(80):
        S1 = xor(rotr(e, 14), rotr(e, 18), rotr(e, 41))
        ch = xor(T.b_and(e, f), T.b_and(inv(e), g))
        t1 = add(k, S1, ch, K512[t], w[t])
        S0 = xor(rotr(a, 28), rotr(a, 34), rotr(a, 39))
        mj = xor(T.b_and(a, b), T.b_and(a, c), T.b_and(b, c))
        t2 = add(S0, mj)
        k, g, f, e, d, c, b, a = g, f, e, add(d, t1), c, b, a, add(t1, t2)
    return [add(x, y) for x, y in zip(h, (a, b, c, d, e, f, g, k))]

# RFC 7693
SIGMA = [
    (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15), (14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3),
    (11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4), (7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8),
    (9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13), (2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9),
    (12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11), (13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10),
    (6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5), (10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0)]

def b2_words(b):
    return [T.sumt([T.scale(b[8 * i + j], 1 << 8 * j) for j in range(8)]) for i in range(16)]

def b2_compress(h, block, t, f):
    """t: (low, high) word of the offset counter; f: the two finalization words"""
    m = b2_words(block)
    v = list(h) + list(IV512)
    v[12], v[13], v[14], v[15] = xor(v[12], t[0]), xor(v[13], t[1]), xor(v[14], f[0]), xor(v[15], f[1])
    def G(a, b, c, d, x, y):
        v[a] = add(v[a], v[b], x)
        v[d] = rotr(xor(v[d], v[a]), 32)
        v[c] = add(v[c], v[d])
        v[b] = rotr(xor(v[b], v[c]), 24)
        v[a] = add(v[a], v[b], y)
        v[d] = rotr(xor(v[d], v[a]), 16)
        v[c] = add(v[c], v[d])
        v[b] = rotr(xor(v[b], v[c]), 63)
    for i in range(12):
        s = SIGMA[i % 10]
        for j, (a, b, c, d) in enumerate(((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))):
            G(a, b, c, d, m[s[2 * j]], m[s[2 * j + 1]])
    return [xor(h[i], v[i], v[i + 8]) for i in range(8)]

def selftest():
    import hashlib
    b = b'abc' + b'\x80' + bytes(123) + bytes([24])
    h = sha_compress(IV512, b)
    assert b''.join(x.to_bytes(8, 'big') for x in h) == hashlib.sha512(b'abc').digest()
    h = list(IV512)
    h[0] ^= 0x01010040
    h = b2_compress(h, b'abc' + bytes(125), (3, 0), (M64 - 1, 0))
    assert b''.join(x.to_bytes(8, 'little') for x in h) == hashlib.blake2b(b'abc').digest()

selftest()
