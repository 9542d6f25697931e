"""Independent references: RFC 8032 arithmetic on Python integers, hashlib, libsodium's scrypt parameter rule,
and the minisign file formats."""
import base64
import functools
import hashlib

p = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
d = (-121665 * pow(121666, p - 2, p)) % p
SQRTM1 = pow(2, (p - 1) // 4, p)

def recover_x(y, sign):
    """x of a point with this y mod p and the given sign bit (x = 0 is accepted with either sign), or None"""
    y %= p
    x2 = (y * y - 1) * pow(d * y * y + 1, p - 2, p) % p
    x = pow(x2, (p + 3) // 8, p)
    if (x * x - x2) % p:
        x = x * SQRTM1 % p
    if (x * x - x2) % p:
        return None
    if x & 1 != sign:
        x = -x % p
    return x

def ext(x, y):
    return (x, y, 1, x * y % p)

def add(P, Q):
    a = (P[1] - P[0]) * (Q[1] - Q[0]) % p
    b = (P[1] + P[0]) * (Q[1] + Q[0]) % p
    c = 2 * P[3] * Q[3] * d % p
    e = 2 * P[2] * Q[2] % p
    E, F, G, H = b - a, e - c, e + c, b + a
    return (E * F % p, G * H % p, F * G % p, E * H % p)

ZERO = (0, 1, 1, 0)

def mul(n, P):
    Q = ZERO
    while n:
        if n & 1:
            Q = add(Q, P)
        P = add(P, P)
        n >>= 1
    return Q

class Table:
    """multiples of one point, by 4-bit digits"""
    def __init__(self, P):
        self.t = []
        for _ in range(64):
            row = [ZERO]
            for _ in range(15):
                row.append(add(row[-1], P))
            self.t.append(row)
            P = add(row[-1], P)
    def mul(self, n):
        Q = ZERO
        for row in self.t:
            if n & 15:
                Q = add(Q, row[n & 15])
            n >>= 4
        return Q

tables, seen = {}, {}

def mulcached(n, P, key):
    """mul, with a table from the third use of a point on"""
    if key in tables:
        return tables[key].mul(n)
    seen[key] = seen.get(key, 0) + 1
    if seen[key] < 3 or len(tables) > 200:
        return mul(n, P)
    tables[key] = Table(P)
    return tables[key].mul(n)

def mulB(n):
    return mulcached(n, B, 'B')

def neg(P):
    return (-P[0] % p, P[1], P[2], -P[3] % p)

By = 4 * pow(5, p - 2, p) % p
B = ext(recover_x(By, 0), By)

def affine(P):
    z = pow(P[2], p - 2, p)
    return P[0] * z % p, P[1] * z % p

def encode(P):
    x, y = affine(P)
    return (y | (x & 1) << 255).to_bytes(32, 'little')

@functools.lru_cache(maxsize=1000)
def decode(b):
    """the curve point a 32-byte string encodes (y taken modulo p, either sign for x = 0), or None"""
    n = int.from_bytes(b, 'little')
    y = (n & ((1 << 255) - 1)) % p
    x = recover_x(y, n >> 255)
    return None if x is None else ext(x, y)

def sha512(b):
    return hashlib.sha512(b).digest()

def hint(b):
    return int.from_bytes(b, 'little')

def clamp(b):
    n = hint(b[:32])
    return n & ~7 & ~(1 << 255) | (1 << 254)

def keypair(seed):
    a = clamp(sha512(seed))
    pk = encode(mulB(a))
    return seed + pk, pk

def sign(msg, sk, z):
    h = sha512(sk[:32])
    a = clamp(h)
    az = a.to_bytes(32, 'little') + h[32:]
    r = hint(sha512((z + az if z is not None else az[32:]) + msg)) % L
    R = encode(mulB(r))
    k = hint(sha512(R + sk[32:64] + msg)) % L
    return R + ((r + k * a) % L).to_bytes(32, 'little')

def verify(msg, pk, sig):
    if len(sig) != 64 or len(pk) != 32:
        return False
    S = hint(sig[32:])
    if S >= L or not any(pk):
        return False
    A = decode(pk)
    if A is None:
        return False
    if affine(A) == (0, 1):
        return False
    k = hint(sha512(sig[:32] + pk + msg)) % L
    return encode(add(mulB(S), mulcached(k, neg(A), pk))) == sig[:32]

def blake2b(b, n=64):
    return hashlib.blake2b(b, digest_size=n).digest()

# ------------------------------------------------------------------ key derivation
MEM_MAX = 1 << 30

def pickparams(memlimit, opslimit):
    """libsodium's pickparams (crypto_pwhash_scryptsalsa208sha256): (log2 N, r, p)"""
    opslimit = max(opslimit, 32768)
    r = 8
    if opslimit < memlimit // 32:
        pp = 1
        maxn = opslimit // (r * 4)
        n = 1
        while n < 63:
            if (1 << n) > maxn // 2:
                break
            n += 1
    else:
        maxn = memlimit // (r * 128)
        n = 1
        while n < 63:
            if (1 << n) > maxn // 2:
                break
            n += 1
        maxrp = min((opslimit // 4) // (1 << n), 0x3fffffff)
        pp = maxrp // r
    return n, r, pp

def scrypt(pw, salt, n, r, pp, ln):
    return hashlib.scrypt(pw, salt=salt, n=1 << n, r=r, p=pp, maxmem=2**31 - 1, dklen=ln)

# ------------------------------------------------------------------ formats
def sk_fields(b):
    """(sig_alg, kdf_alg, chk_alg, salt, ops, mem, keynum, sk, chk)"""
    out = []
    o = 0
    for n in (2, 2, 2, 32, 8, 8, 8, 64, 32):
        out.append(b[o:o + n])
        o += n
    return out

SKLEN = 158

def checksum(f):
    return blake2b(f[0] + f[6] + f[7], 32)

def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))

def crypt(f, pw):
    n, r, pp = pickparams(hint(f[5]), hint(f[4]))
    s = scrypt(pw, f[3], n, r, pp, 104)
    return f[:6] + [xor(f[6], s[:8]), xor(f[7], s[8:72]), xor(f[8], s[72:])]

def lines(s):
    """str::lines"""
    if not s:
        return []
    ls = s.split('\n')
    if ls[-1] == '':
        ls.pop()
        nl = True
    else:
        nl = False
    out = []
    for i, l in enumerate(ls):
        if (i < len(ls) - 1 or nl) and l.endswith('\r'):
            l = l[:-1]
        out.append(l)
    return out

B64C = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')

def b64dec(s):
    """strict base64 (canonical padding), or None"""
    try:
        b = base64.b64decode(s, validate=True)
    except Exception:
        return None
    return b if base64.b64encode(b) == bytes(s) else None

def b64enc(b):
    return base64.b64encode(b)

WS = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'

def trim(s):
    return s.strip(WS)

UC = 'untrusted comment: '
TC = 'trusted comment: '

def parse_sig(s):
    """(prehashed, keynum, untrusted, trusted, 74 bytes, global) or None"""
    ls = lines(s)
    if len(ls) < 4:
        return None
    u, sg, t, g = ls[:4]
    if not u.startswith(UC) or not t.startswith(TC):
        return None
    b = b64dec(trim(sg).encode())
    gb = b64dec(trim(g).encode())
    if b is None or gb is None or len(b) < 74:
        return None
    if b[:2] not in (b'ED', b'Ed'):
        return None
    return b[:2] == b'ED', b[2:10], u[len(UC):], t[len(TC):], b[:74], gb

def make_sig(bones, u, t, g):
    return UC + u + '\n' + b64enc(bones).decode() + '\n' + TC + t + '\n' + b64enc(g).decode() + '\n'

def full_verify(pk, box, data, legacy):
    """pk: 42 bytes; box: (prehashed, keynum, bones, trusted or None, global or None)"""
    pre, kn, bones, t, g = box
    if kn != pk[2:10]:
        return False
    if not pre and not legacy:
        return False
    m = blake2b(data) if pre else data
    if not verify(m, pk[10:42], bones[10:74]):
        return False
    if t is None and g is None:
        return True
    if t is None or g is None:
        return False
    return verify(bones[10:74] + t, pk[10:42], g)
