"""Hash inputs of every length around the block boundaries, in many chunkings, against hashlib (C06, C07)."""
import hashlib
from .base import Search
from .real import hx, unhx
from . import vgen, ref as R

def chunks(rng, n, block, k):
    """ways of cutting n bytes"""
    out = [[]]
    for b in (1, block - 1, block, block + 1, 2 * block - 1, 2 * block, 2 * block + 1):
        if b < n:
            out.append([b])
    out.append([0, n])
    if n <= 3 * block:
        out.append([1] * n)
    for _ in range(k):
        c, left = [], n
        while left > 0 and len(c) < 40:
            m = rng.choice([0, 1, 2, block - 1, block, block + 1, 2 * block, rng.randrange(1, 3 * block), rng.randrange(1, 20)])
            c.append(m)
            left -= m
        out.append(c)
    return out

def lens(rng, block, pads, deep):
    s = set(range(0, 2 * block + 3)) if deep > 1 else set(range(0, 10))
    for q in range(0, 5 + deep):
        for d in list(pads) + [-2, -1, 0, 1, 2]:
            s.add(q * block + d)
    s |= {rng.randrange(0, 20 * block) for _ in range(20 * deep)} | {4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000}
    return sorted(x for x in s if x >= 0)

def data(rng, n):
    c = rng.randrange(6)
    return bytes(n) if c == 0 else b'\xff' * n if c == 1 else rng.randbytes(n)

def judge(c, x, tok, so):
    if tok != ['ok', x, x]:
        return 'expected %s from the incremental and the one-shot function' % x
    return None

def sha_cases(rng, deep):
    out = []
    for n in lens(rng, 128, (110, 111, 112, 113, 119, 120, 121), deep):
        d = data(rng, n)
        w = hashlib.sha512(d).hexdigest()
        for c in chunks(rng, n, 128, 2 + deep if n < 5000 else 1)[: 40 if n < 5000 else 4]:
            out.append(('sha512 %s %s' % (hx(d), ','.join(map(str, c)) or '0'), w))
    return out

def blake_cases(rng, deep):
    out = []
    for n in lens(rng, 128, (), deep):
        d = data(rng, n)
        for size in (32, 64) if n > 5 else (32, 64, 1, 16, 20, 31, 33, 48, 63):
            w = hashlib.blake2b(d, digest_size=size).hexdigest()
            for c in chunks(rng, n, 128, 2 + deep if n < 5000 else 1)[: 40 if n < 5000 else 4]:
                out.append(('blake2b %d %s %s' % (size, hx(d), ','.join(map(str, c)) or '0'), w))
    return out

def prehashed(rng, deep):
    """what a signature binds, through the public API: signatures over data of every length, read in pieces"""
    w = vgen.World(rng)
    out = []
    for n in lens(rng, 128, (), 1)[:: 1 if deep > 1 else 2]:
        d = data(rng, n)
        b = w.box(d, True)
        for c in chunks(rng, n, 128, 1)[:6]:
            out.append(('verify %s b:%s %s %s l' % (hx(w.pk()), hx(vgen.text(b)), hx(d), ','.join(map(str, c)) or '-'), 'ok'))
        if n:
            k = rng.randrange(n)
            e = d[:k] + bytes([d[k] ^ (1 << rng.randrange(8))]) + d[k + 1:]
            out.append(('verify %s b:%s %s - l' % (hx(w.pk()), hx(vgen.text(b)), hx(e)), 'err'))
            out.append(('verify %s b:%s %s - l' % (hx(w.pk()), hx(vgen.text(b)), hx(d + b'\0')), 'err'))
            out.append(('verify %s b:%s %s - l' % (hx(w.pk()), hx(vgen.text(b)), hx(d[:-1])), 'err'))
    return out

def judge_v(c, x, tok, so):
    return None if tok[0] == x else 'expected %s' % x

def legacy(rng, deep):
    """signatures made by the reference: SHA-512 over key, nonce and message"""
    w = vgen.World(rng)
    out = []
    for n in lens(rng, 128, (110, 111, 112, 46, 47, 48, 49, 63, 64, 65), 1):
        if n > 5000:
            continue
        d = data(rng, n)
        b = w.box(d, False, t='c' * rng.randrange(130))
        out.append(('verify %s b:%s %s - l' % (hx(w.pk()), hx(vgen.text(b)), hx(d)), 'ok'))
    return out

def long_cases(rng, pre, sizes):
    """messages too long for 32-bit counters: a few bytes followed by zeros"""
    w = vgen.World(rng)
    out = []
    for n in sizes:
        head = rng.randbytes(5)
        if pre:
            h = hashlib.blake2b(head)
            zeros(h, n - len(head))
            m = h.digest()
        else:
            m = head + bytes(n - len(head))
        b = w.box(m, False)         # signed as it is: a pre-hashed box is signed over the digest
        if pre:
            b['alg'] = b'ED'
        out.append(('verify %s b:%s %sz%d - l' % (hx(w.pk()), hx(vgen.text(b)), head.hex(), n - len(head)), 'ok'))
    return out

def zeros(h, left):
    z = bytes(1 << 20)
    while left:
        k = min(left, len(z))
        h.update(z[:k] if k < len(z) else z)
        left -= k
    return h.hexdigest()

def judge_long(c, x, tok, so):
    # out of memory or time decides nothing
    return None if tok[0] in (x, 'crash') else 'expected %s' % x

def search_sha(real, rng, deep):
    s = Search(real)
    v = s.run(sha_cases(rng, deep), judge) if real.internals else None
    v = v or s.run(legacy(rng, deep), judge_v)
    if deep > 1:
        v = v or s.run(long_cases(rng, False, [(1 << 29) + 77]), judge_long)
        if real.internals and not v:
            n = (1 << 32) + 1000
            v = s.run([('sha512_zeros %d' % n, zeros(hashlib.sha512(), n))], lambda c, x, tok, so: None if tok in (['ok', x], ['crash', 'timeout']) else 'expected %s' % x)
    return v, s.n, s.samples

def search_blake(real, rng, deep):
    s = Search(real)
    v = s.run(blake_cases(rng, deep), judge) if real.internals else None
    v = v or s.run(prehashed(rng, deep), judge_v)
    if deep > 1:
        v = v or s.run(long_cases(rng, True, [(1 << 32) + 300]), judge_long)
    return v, s.n, s.samples
