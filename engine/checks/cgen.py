"""Concrete field, point and scalar values at the corners, and Ed25519 keys and signatures, against the reference (C03, C04, C05)."""
from . import ref as R
from . import vgen
from .base import Search
from .real import hx, unhx

p, L = R.p, R.L
M51 = (1 << 51) - 1

def limbs(v):
    return [(v >> (51 * i)) & M51 for i in range(5)]

def val(ls):
    return sum(x << (51 * i) for i, x in enumerate(ls))

def csv(ls):
    return ','.join(map(str, ls))

def fes(rng, n, top=1 << 51):
    """limb vectors up to a bound"""
    out = []
    for v in (0, 1, 2, 18, 19, 20, p - 1, p, p + 1, p + 18, p - 19, 2 * p - 1, (1 << 255) - 1, R.SQRTM1, R.d, 2 * R.d % p, R.By, p >> 1, (p + 1) >> 1, (p - 5) // 8):
        if v >> 255:
            ls = limbs(v)
            ls[4] = v >> 204
            out.append(ls)
        else:
            out.append(limbs(v))
    edge = [0, 1, 2, M51, M51 - 1, M51 - 18, M51 - 19, 1 << 50, top, top - 1, top >> 1, top - 19]
    for x in edge:
        out.append([x] * 5)
    for i in range(5):
        for x in (1, M51, top):
            ls = [0] * 5
            ls[i] = x
            out.append(ls)
            ls = [M51] * 5
            ls[i] = x
            out.append(ls)
    for _ in range(n):
        c = rng.randrange(4)
        if c == 0:
            out.append([rng.choice(edge) for _ in range(5)])
        elif c == 1:
            out.append([rng.randrange(top + 1) for _ in range(5)])
        elif c == 2:
            out.append([rng.choice([rng.choice(edge), rng.randrange(top + 1), top - rng.randrange(40), rng.randrange(40)]) for _ in range(5)])
        else:
            out.append(limbs((p + rng.randrange(-40, 20)) % (1 << 255)))
    return [[min(x, top) for x in ls] for ls in out]

def fe_cases(rng, deep):
    n = 60 * deep
    out = []
    t, lo, hi = 1 << 51, 1 << 52, 3 << 51
    for f in fes(rng, n, hi):
        out.append(('fe_carry ' + csv(f), ('v', val(f) % p)))
        out.append(('fe_to_bytes ' + csv(f), ('b', val(f) % p)))
    for f in fes(rng, n, t):
        out.append(('fe_to_bytes ' + csv(f), ('b', val(f) % p)))
    for f in fes(rng, 10 * deep, t):
        out.append(('fe_invert ' + csv(f), ('v', pow(val(f), p - 2, p))))
    # encodings of small multiples of p, as sums of limbs that are not normalised
    for k in range(-25, 26):
        for q in (0, 1):
            v = q * p + k
            if v < 0:
                continue
            for _ in range(3):
                ls = limbs(v)
                ls[4] = v >> 204
                for i in range(4):
                    if rng.random() < .5 and ls[i + 1] > 0:
                        ls[i + 1] -= 1
                        ls[i] += 1 << 51
                out.append(('fe_to_bytes ' + csv(ls), ('b', v % p)))
    for a, b, op in ((lo, lo, 'add'), (lo, t, 'sub'), (hi, hi, 'mul'), (t, t, 'mul'), (hi, t, 'mul')):
        A, B = fes(rng, n, a), fes(rng, n, b)
        for _ in range(250 * deep):
            f, g = rng.choice(A), rng.choice(B)
            if op == 'sub':
                v = val(f) - val(g)
            elif op == 'add':
                v = val(f) + val(g)
            else:
                v = val(f) * val(g)
            out.append(('fe_%s %s %s' % (op, csv(f), csv(g)), ('v', v % p)))
    for b in [bytes(32), b'\xff' * 32] + [rng.randbytes(32) for _ in range(n)] + \
            [(v % (1 << 256)).to_bytes(32, 'little') for v in list(range(p - 30, p + 19)) + [p + (1 << 255), (1 << 255), (1 << 255) - 1]] + \
            [(1 << k).to_bytes(32, 'little') for k in range(256)]:
        out.append(('fe_from_bytes ' + hx(b), ('v', (int.from_bytes(b, 'little') & ((1 << 255) - 1)) % p)))
    return out

def wide(rng, bits, deep):
    """scalars that exercise rare carries: near multiples of L, of powers of two, long runs of ones and zeros"""
    m = 1 << bits
    out = [0, 1, L - 1, L, L + 1, 2 * L - 1, 2 * L, m - 1, m - 2, m >> 1, (1 << 252), (1 << 252) - 1, (1 << 253) - 1, 15 * L, 16 * L - 1]
    for k in range(0, bits, 21):
        for d in (-1, 0, 1):
            out += [(1 << k) + d, m - (1 << k) + d]
    k = bits - 252
    for _ in range(60 * deep):
        q = rng.choice([rng.randrange(1 << rng.randrange(1, max(2, k + 1))), (m // L) - rng.randrange(5), rng.randrange(20)])
        out.append(q * L + rng.choice([-1, 0, 1, rng.randrange(-1000, 1000), rng.randrange(L), -(1 << rng.randrange(252)), 1 << rng.randrange(252)]))
        v = 0
        while v.bit_length() < bits:
            n = rng.choice([1, 2, 5, 20, 21, 22, 42, 63, 84, 130])
            v = v << n | rng.choice([0, (1 << n) - 1, rng.getrandbits(n)])
        out.append(v)
        out.append(rng.getrandbits(bits))
        # limbs of 21 bits at their extremes
        out.append(sum(rng.choice([0, 1, (1 << 21) - 1, (1 << 21) - 2, 1 << 20, (1 << 20) - 1]) << (21 * i) for i in range(bits // 21 + 1)))
    return [v % m for v in out]

def le(v, n=32):
    return v.to_bytes(n, 'little')

def sc_cases(rng, deep):
    out = []
    for v in wide(rng, 512, 3 * deep):
        out.append(('sc_reduce ' + hx(le(v, 64)), ('lo', v % L)))
    W = wide(rng, 256, 3 * deep)
    for k, a in enumerate(W):
        b, c = rng.choice(W), rng.choice(W)
        # a, b, c with a b + c near a multiple of L as well
        if k % 3 == 0:
            a, b = a % L, b % (1 << 255)
            c = (-a * b + rng.choice([-1, 0, 1, 2])) % L
        out.append(('sc_muladd %s %s %s' % (hx(le(a)), hx(le(b)), hx(le(c))), ('b', (a * b + c) % L)))
    return out

def fsqrt(a):
    r = pow(a, (p + 3) // 8, p)
    for x in (r, r * R.SQRTM1 % p):
        if x * x % p == a % p:
            return x
    return None

SMALL = None

def torsion():
    """the eight points of small order"""
    global SMALL
    if SMALL is None:
        P = None
        y = 2
        while True:
            P = R.decode(le(y))
            if P is not None:
                T = R.mul(L, P)
                if R.affine(R.mul(4, T)) != (0, 1):
                    break
            y += 1
        SMALL = [R.mul(i, T) for i in range(8)]
    return SMALL

def encodings(rng, deep):
    """32-byte strings: points of small order, non-canonical ones, off the curve, and ordinary ones"""
    out = []
    for T in torsion():
        x, y = R.affine(T)
        for v in (y, y + p):
            if v < 1 << 255:
                out += [le(v), le(v | 1 << 255)]
    for y in list(range(0, 20)) + list(range(p - 20, p + 19)):
        out += [le(y), le(y | 1 << 255)]
    out += [b'\xff' * 32, bytes(32), bytes(31) + b'\x80']
    for _ in range(25 * deep):
        out.append(rng.randbytes(32))
        P = R.mul(rng.choice([rng.getrandbits(252), rng.randrange(1, 200), L - rng.randrange(1, 50)]), R.B)
        if rng.random() < .5:
            P = R.add(P, rng.choice(torsion()))
        out.append(R.encode(P))
        out.append(vgen.flip(R.encode(P), rng, 31))
    # strings for which the failed test of the square root, (+-i - 1) u or (+-i + 1) u, is a sparse value
    for j in range(32):
        for w in (1, 2, 16, 64, 97, 127):
            e = w << (8 * j)
            for c in (1, -1):
                for o in (1, -1):
                    y2 = (1 + e * pow(c * R.SQRTM1 + o, p - 2, p)) % p
                    y = fsqrt(y2)
                    if y is not None:
                        out.append(le(y))
                        break
    for i in range(32):
        for v in (0, 1, 127, 128, 255):
            r = bytearray(rng.randbytes(32))
            r[i] = v
            out.append(bytes(r))
    return out

def scalars(rng, n, top):
    """window patterns and extreme values below top"""
    out = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, top - 1, top - 2, top >> 1]
    out += [(1 << k) - 1 for k in (4, 5, 6, 7, 63, 64, 65, 128, 252)] + [1 << k for k in (5, 63, 64, 127, 251, 252)]
    out += [int('10' * 126, 2), int('1100' * 63, 2), int('11111' + '10000' * 49, 2), int('111110' * 42, 2), int('10001' * 50, 2), int('101111' * 42, 2), int('110111' * 42, 2), int('1' * 30 + '0' * 222, 2)]
    for _ in range(n):
        v = 0
        while v.bit_length() < 253:
            k = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 20, 60])
            v = v << k | rng.choice([0, 1, (1 << k) - 1, rng.getrandbits(k), 31 & ((1 << k) - 1), 17 & ((1 << k) - 1)])
        out.append(v)
        out.append(rng.getrandbits(253))
        out.append(top - rng.getrandbits(rng.randrange(1, 252)))
    return [v % top for v in out]

def hinted(hints, rng):
    """strings near those on which a proof of the decoder failed"""
    out = []
    for h in hints:
        e = (h.get('model') or {}).get('encoding')
        if e:
            e = unhx(e)
            out.append(e)
            for k in range(200):
                r = bytearray(rng.randbytes(32))
                if k & 1:
                    # keep almost all of it
                    r = bytearray(e)
                    r[rng.randrange(32)] ^= rng.randrange(1, 256)
                else:
                    for i in range(32):
                        if rng.random() < .3:
                            r[i] = e[i]
                out.append(bytes(r))
    return out

def point_cases(rng, deep, hints=()):
    out = []
    for v in scalars(rng, 10 * deep, 1 << 256) + [(1 << 256) - 1]:
        out.append(('base ' + hx(le(v)), ('b', int.from_bytes(R.encode(R.mul(v % L, R.B)), 'little'))))
    E = encodings(rng, deep) + hinted(hints, rng)
    good = []
    for e in E:
        P = R.decode(e)
        out.append(('decode ' + hx(e), ('b', int.from_bytes(R.encode(R.neg(P)), 'little')) if P else ('err',)))
        if P:
            good.append((e, P))
        out.append(('is_identity ' + hx(e), ('tok', str(int((int.from_bytes(e, 'little') & ((1 << 255) - 1)) % p == 1)))))
    A, B = scalars(rng, 15 * deep, L), scalars(rng, 15 * deep, L)
    for k in range(80 * deep):
        e, P = rng.choice(good)
        a = A[k % len(A)]
        b = rng.choice(B)
        if k % 7 == 0:
            b = rng.choice([0, a, L - a if a else 0])
        want = R.encode(R.add(R.mul(a, R.neg(P)), R.mul(b, R.B)))
        out.append(('double %s %s %s' % (hx(le(a)), hx(e), hx(le(b))), ('b', int.from_bytes(want, 'little'))))
    return out

def judge(c, x, tok, so):
    """value modulo p, bytes, or a token"""
    if tok[0] == 'unavailable':
        return None
    if x[0] == 'err':
        return None if tok[0] == 'err' else 'the bytes do not encode a point'
    if tok[0] != 'ok':
        return 'no answer: %s' % ' '.join(tok)[:200]
    if x[0] == 'v':
        return None if val(map(int, tok[1].split(','))) % p == x[1] else 'wrong value modulo 2^255-19, expected %d' % x[1]
    if x[0] == 'b':
        return None if unhx(tok[1]) == le(x[1]) else 'expected %s' % le(x[1]).hex()
    if x[0] == 'lo':
        return None if unhx(tok[1])[:32] == le(x[1]) else 'expected %s' % le(x[1]).hex()
    return None if tok[1] == x[1] else 'expected %s' % x[1]

# ------------------------------------------------------------------ signatures
def forge(rng, a, msg, T=None, r=None):
    """a signature with the secret scalar a (key a B + T), valid when its equation is"""
    A = R.mul(a % L, R.B)
    if T:
        A = R.add(A, T)
    pk = R.encode(A)
    r = rng.randrange(L) if r is None else r
    Rb = R.encode(R.mul(r, R.B))
    k = R.hint(R.sha512(Rb + pk + msg)) % L
    return pk, Rb, (r + k * a) % L

def verify_triples(rng, deep):
    """(message, key, signature, how)"""
    out = []
    def add(m, pk, s, how):
        out.append((m, pk, s, how))
    lens = [0, 1, 31, 32, 46, 47, 48, 63, 64, 65, 111, 112, 127, 128, 175, 176, 200, 1000]
    longer = [4095, 4096, 4097, 5000, 8191, 8192, 8193, 10007, 16384, 32768, 65535, 65536, 65537, 100001] if deep > 1 else [5000, rng.randrange(1001, 70000)]
    for k in range(24 * deep + len(longer)):
        m = rng.randbytes(lens[k % len(lens)] if k < 40 else rng.randrange(300))
        if k >= 24 * deep:
            m = rng.randbytes(longer[k - 24 * deep])
        a = rng.choice([rng.randrange(1, L), rng.randrange(1, L), 1, 2, 8, L - 1, (1 << 251), rng.randrange(1, 1 << 20)])
        r = rng.choice([None, None, None, 0, 1, L - 1, 8])
        pk, Rb, S = forge(rng, a, m, r=r)
        sig = Rb + le(S)
        add(m, pk, sig, 'valid')
        if S + L < 1 << 256:
            for j in (1, rng.randrange(1, 15)):
                if S + j * L < 1 << 256:
                    add(m, pk, Rb + le(S + j * L), 'S + %d L' % j)
        add(m, pk, sig[:32] + le((L - S) % L), 'minus S')
        add(m, pk, sig[:32] + le(S ^ (1 << rng.randrange(252))), 'bit of S')
        add(m, pk, sig[:32] + le((S + 1) % L), 'S + 1')
        add(m, pk, vgen.flip(sig[:32], rng) + sig[32:], 'bit of R')
        add(m, pk, vgen.flip(sig[:32], rng, 31)[:32] + sig[32:], 'bit of R')
        add(m, pk, sig[:31] + bytes([sig[31] ^ 0x80]) + sig[32:], 'sign of R')
        add(m, vgen.flip(pk, rng), sig, 'bit of the key')
        add(m, pk[:31] + bytes([pk[31] ^ 0x80]), sig, 'sign of the key')
        add(vgen.flip(m, rng) if m else b'x', pk, sig, 'bit of the message')
        add(m + b'\0', pk, sig, 'longer message')
        add(m[:-1], pk, sig, 'shorter message')
        add(m, pk, sig + b'\0', 'long signature')
        add(m, pk, sig[:-1], 'short signature')
        add(m, pk, sig[:32], 'half a signature')
        add(m, pk, b'', 'no signature')
    # keys and points R whose bytes stand out as a whole (their sum, their parity, a byte, a run)
    def xor(e):
        x = 0
        for b in e:
            x ^= b
        return x
    marks = [lambda e: sum(e) % 256 == 0, lambda e: xor(e) == 0, lambda e: e[0] == 0, lambda e: e[31] & 127 == 0, lambda e: e[31] & 127 == 127, lambda e: e[0] == 1,
             lambda e: 0 in e[1:31], lambda e: e[0] == 255, lambda e: e[0] == e[31], lambda e: int.from_bytes(e, 'little') % 255 == 0]
    a = rng.randrange(1, L >> 1)
    P = R.mul(a, R.B)
    left = list(marks) if deep > 1 else marks[:4]
    while left:
        e = R.encode(P)
        for f in [f for f in left if f(e)]:
            left.remove(f)
            m = rng.randbytes(9)
            pk, Rb, S = forge(rng, a, m)
            add(m, pk, Rb + le(S), 'mined key')
            pk, Rb, S = forge(rng, rng.randrange(1, L), m, r=a)
            add(m, pk, Rb + le(S), 'mined R')
            add(m, pk, vgen.flip(Rb, rng) + le(S), 'mined R, flipped')
        a, P = a + 1, R.add(P, R.B)
    # keys with a part of small order: the equation without cofactor decides
    for k in range(16 * deep):
        m = rng.randbytes(rng.randrange(80))
        T = torsion()[k % 8]
        pk, Rb, S = forge(rng, rng.randrange(1, L), m, T)
        add(m, pk, Rb + le(S), 'key with a part of order 8')
        # R fitted to the equation, so that the signature is valid
        A = R.decode(pk)
        for _ in range(12):
            s = rng.randrange(L)
            c = R.encode(R.add(R.mul(s, R.B), rng.choice(torsion())))
            if R.verify(m, pk, c + le(s)):
                add(m, pk, c + le(s), 'fitted R')
    # small-order keys: [k]A takes few values, so valid signatures exist for those that are accepted
    ident = []
    for e in dict.fromkeys(encodings(rng, 1)):
        m = rng.randbytes(rng.randrange(60))
        A = R.decode(e)
        add(m, e, R.encode(R.ZERO) + bytes(32), 'S = 0')
        small = A is not None and R.affine(R.mul(8, A)) == (0, 1)
        s = rng.randrange(L)
        P = R.mul(s, R.B)
        add(m, e, R.encode(P) + le(s), 'R = [S]B')
        if small:
            for T in torsion():
                add(m, e, R.encode(R.add(P, T)) + le(s), 'small-order key')
                for _ in range(2):
                    m = rng.randbytes(8)
                    add(m, e, R.encode(T) + bytes(32), 'small-order key, S = 0')
    # an R that is not the canonical encoding of the right point
    for _ in range(60 * deep):
        # [S]B - [k]A = identity: R must be 01 00.., not its other encodings
        for enc in (1 | 1 << 255, p + 1, (p + 1) | 1 << 255, 1):
            a = rng.randrange(1, L)
            pk = R.encode(R.mul(a, R.B))
            m = rng.randbytes(5)
            Rb = le(enc)
            k = R.hint(R.sha512(Rb + pk + m)) % L
            add(m, pk, Rb + le(k * a % L), 'encoding %d of the identity as R' % enc)
        if _ >= 3:
            break
    # S at and above the group order
    for s in [L - 1, L, L + 1, 2 * L, (1 << 252), (1 << 253) - 1, (1 << 253), (1 << 255), (1 << 256) - 1, L + (1 << 128), L ^ 1, L - (1 << 64)] + [L + (1 << (8 * i)) for i in range(31)] + [L - (1 << (8 * i)) for i in range(31)]:
        if 0 <= s < 1 << 256:
            # R = [S]B - [k]A with a key of small order, fitted by trial
            e = le(p - 1)
            for T in (R.ZERO, R.decode(e)):
                m = rng.randbytes(6)
                P = R.add(R.mul(s % L, R.B), T)
                add(m, e, R.encode(P) + le(s), 'S = %d' % s)
    return out

def verify_cases(rng, deep, internals):
    out = []
    for m, pk, sig, how in verify_triples(rng, deep):
        want = R.verify(m, pk, sig)
        if internals:
            out.append(('ed_verify %s %s %s' % (hx(m), hx(pk), hx(sig)), ('tok', str(int(want)), how)))
        elif len(sig) == 64:
            # a legacy signature without a global one
            kn = b'\1' * 8
            out.append(('verify %s n:%s %s - l' % (hx(b'Ed' + kn + pk), hx(b'Ed' + kn + sig), hx(m)), ('pub', want, how)))
    return out

def vjudge(c, x, tok, so):
    if x[0] == 'pub':
        return None if tok[0] == ('ok' if x[1] else 'err') else 'expected %s (%s)' % ('acceptance' if x[1] else 'rejection', x[2])
    if tok[0] == 'unavailable':
        return None
    return None if tok == ['ok', x[1]] else 'expected %s (%s)' % ('acceptance' if x[1] == '1' else 'rejection', x[2])

def public_verify(rng, deep):
    """legacy signatures through the public API"""
    return verify_cases(rng, 1, False)

def seeds(rng, n):
    return [bytes(32), b'\xff' * 32, bytes(range(32))] + [bytes(31) + b'\x01', b'\x01' + bytes(31)] + [rng.randbytes(32) for _ in range(n)]

def key_cases(rng, deep):
    out = []
    for s in seeds(rng, 60 * deep):
        sk, pk = R.keypair(s)
        out.append(('ed_keypair ' + hx(s), ('kp', sk, pk)))
    lens = list(range(0, 4)) + [15, 16, 31, 32, 47, 48, 63, 64, 79, 80, 111, 112, 113, 127, 128, 129, 175, 176, 255, 256, 1000, 5000] + ([4095, 4096, 4097, 8191, 8192, 8193, 10007, 16384, 32768, 65535, 65536, 65537, 100001] if deep > 1 else [])
    for k in range(90 * deep):
        s = rng.choice(seeds(rng, 6))
        sk, pk = R.keypair(s)
        m = rng.randbytes(lens[k % len(lens)])
        z = rng.choice([None, rng.randbytes(64), bytes(64), b'\xff' * 64, rng.randbytes(32), b''])
        if k % 9 == 0:
            # the public half as stored is what is hashed
            sk = sk[:32] + rng.randbytes(32)
        out.append(('ed_sign %s %s %s' % (hx(m), hx(sk), hx(z)), ('sig', R.sign(m, sk, z))))
    return out

def kjudge(c, x, tok, so):
    if tok[0] == 'unavailable':
        return None
    if tok[0] != 'ok':
        return 'no answer: %s' % ' '.join(tok)[:200]
    if x[0] == 'kp':
        if unhx(tok[1]) != x[1]:
            return 'expected the secret key %s' % x[1].hex()
        return None if unhx(tok[2]) == x[2] else 'expected the public key %s' % x[2].hex()
    return None if unhx(tok[1]) == x[1] else 'expected %s' % x[1].hex()

def search_verify(real, rng, deep, hints=()):
    s = Search(real)
    v = s.run(verify_cases(rng, deep, True), vjudge) if real.internals else None
    v = v or s.run(verify_cases(rng, deep if not real.internals else 1, False), vjudge)
    if not v and real.internals:
        v = s.run(point_cases(rng, 1, hints), judge)
        v = v or s.run(sc_cases(rng, 1), judge)
    return v, s.n, s.samples

def public_keys(rng, deep):
    """key pairs and signatures of the crate with known randomness, opened by the reference"""
    from . import sgen
    return sgen.sign_cases(rng, deep)

def search_sign(real, rng, deep):
    from . import sgen, kgen
    s = Search(real)
    v = s.run(key_cases(rng, deep), kjudge) if real.internals else None
    if not v and real.internals:
        v = s.run(sc_cases(rng, 1), judge)
        v = v or s.run([c for c in point_cases(rng, 1) if c[0].startswith('base')], judge)
    if not v:
        v, n, sm = kgen.search_pair(real, rng, 1)
        s.n += n
    if not v:
        v, n, sm = sgen.search_sign(real, rng, 1)
        s.n += n
    return v, s.n, s.samples

def search_arith(real, rng, deep, hints=()):
    s = Search(real)
    v = None
    if real.internals:
        v = s.run(fe_cases(rng, deep), judge) or s.run(sc_cases(rng, deep), judge) or s.run(point_cases(rng, deep, hints), judge)
    if not v:
        v = s.run(verify_cases(rng, 1, False), vjudge)
    return v, s.n, s.samples
