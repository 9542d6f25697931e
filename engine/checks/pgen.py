"""Concrete untrusted input of every kind; only a value or an error is accepted as an answer (C12)."""
import base64
from . import ref as R
from . import sgen, kgen, vgen
from .base import Search
from .real import hx, unhx

P = 2 ** 255 - 19

def judge(c, x, tok, so):
    if tok[0] not in ('ok', 'err'):
        return 'neither a value nor an error: %s' % ' '.join(tok)[:300]
    return None

def points(rng, n):
    """32-byte strings: ordinary, small order, non-canonical, not on the curve, extremes"""
    le = lambda v: (v % (1 << 256)).to_bytes(32, 'little')
    out = [le(v | s << 255) for v in (0, 1, 2, 18, 19, P - 2, P - 1, P, P + 1, P + 2, P + 18, (1 << 255) - 1, R.L, 8, 1 << 254) for s in (0, 1)]
    out += [bytes.fromhex(h) for h in ('26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05', 'c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a')]
    out += [rng.randbytes(32) for _ in range(n)]
    return out

def hostile(rng, deep):
    """verify with keys and signatures that nobody made honestly"""
    out = []
    ps = points(rng, 6 * deep)
    ss = [0, 1, 8, R.L - 1, R.L, R.L + 1, 2 * R.L, 16 * R.L - 1 if 16 * R.L < 1 << 256 else 15 * R.L, (1 << 252) - 1, 1 << 252, (1 << 253), (1 << 255) - 1, (1 << 256) - 1]
    kn = b'\1' * 8
    for k, p in enumerate(ps):
        for j in range(4 + deep):
            r, s = ps[rng.randrange(len(ps))], rng.choice(ss) if j else ss[k % len(ss)]
            sig = r + s.to_bytes(32, 'little')
            d = rng.randbytes(rng.choice([0, 1, 47, 48, 63, 64, 127, 128, 200]))
            alg = rng.choice([b'ED', b'Ed'])
            pk = rng.choice([b'Ed', b'ED', b'\0\0']) + kn + p
            g = rng.choice([sig, b'', sig[:rng.randrange(64)], sig + b'\0', rng.randbytes(rng.randrange(200)), bytes(63), bytes(65), b'\xff' * 64])
            t = R.make_sig(alg + kn + sig, 'u', rng.choice(['', 't']), g)
            for form in 'bn':
                out.append(('verify %s %s %s - l' % (hx(pk), ('b:' + hx(t)) if form == 'b' else 'n:' + hx(alg + kn + sig), hx(d)), None))
    # a valid main signature in front of a global signature of any length
    w = vgen.World(rng)
    for n in list(range(0, 8)) + [31, 32, 33, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 1000]:
        for pre in (True, False):
            for t in ('', 'comment'):
                b = w.box(b'data', pre, t=t)
                b['g'] = (b['g'] * 20)[:n]
                out.append(('verify %s b:%s %s - l' % (hx(w.pk()), hx(vgen.text(b)), hx(b'data')), None))
    for d in ('!0', '!1', '!63', '!seek'):
        for fl in ('l', 'lo', 'lqo'):
            b = w.box(b'x' * 64, True)
            out.append(('verify %s b:%s %s 7%s %s' % (hx(w.pk()), hx(vgen.text(b)), hx(b'x' * 64), d, fl), None))
    return out

def strings(rng, deep):
    """strings for every text parser: cut and damaged forms of valid texts, characters of every width at every place"""
    seed = []
    pkb = b'Ed' + rng.randbytes(40)
    seed.append('untrusted comment: minisign public key: 0123456789ABCDEF\n' + base64.b64encode(pkb).decode() + '\n')
    seed.append(kgen.sk_text(b''.join(kgen.sk_plain(rng))))
    seed.append(R.make_sig(b'ED' + rng.randbytes(72), 'signature', 'timestamp:1', rng.randbytes(64)))
    seed.append(base64.b64encode(pkb).decode())
    out = ['', '\n', '\r\n', '\n\n', 'x', ' ', '\u00e9', '\U0001f600', '\n\u00e9', '\u00e9\n\u00e9\n\u00e9\n\u00e9', '\0', '=' * 60, '=\n=\n=\n=\n', '\ufeff']
    for i in range(0, 140):
        out.append('A' * i)
    for s in seed:
        s = s if isinstance(s, str) else s.decode()
        for k in list(range(0, min(len(s), 60))) + [rng.randrange(len(s)) for _ in range(20 * deep)]:
            out.append(s[:k])
            out.append(s[k:])
            for ch in ('\u00e9', '\u4e2d', '\U0001f600', '\n', '\r', '\0', ' ', '='):
                if rng.randrange(3) == 0:
                    out.append(s[:k] + ch + s[k:])
                    out.append(s[:k] + ch + s[k + 1:])
        ls = s.split('\n')
        for i in range(len(ls)):
            for n in list(range(0, 24)):
                l = list(ls)
                l[i] = l[i][:n]
                out.append('\n'.join(l))
                l[i] = '\u00e9' * n
                out.append('\n'.join(l))
                l[i] = 'x' + '\u4e2d' * n
                out.append('\n'.join(l))
    # long comments, long lines, many lines
    sig, pkt, skt = seed[2], seed[0], seed[1] if isinstance(seed[1], str) else seed[1].decode()
    sig = sig if isinstance(sig, str) else sig.decode()
    for n in (255, 256, 257, 1000, 1023, 1024, 1025, 4000, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 70000):
        for unit in ('a', '\u00e9', ' ', '\u4e2d'):
            for s in (sig, pkt, skt):
                ls = s.split('\n')
                for i in range(len(ls)):
                    l = list(ls)
                    l[i] += unit * n
                    out.append('\n'.join(l))
                    if ': ' in ls[i]:
                        l[i] = ls[i][:ls[i].index(': ') + 2] + unit * n
                        out.append('\n'.join(l))
        out += ['\n' * n, 'A' * n, pkt + '\n' * n, sig + 'x\n' * n]
        # decoded contents of every length
    for n in range(0, 200):
        raw = (rng.choice([b'Ed', b'ED']) + rng.choice([b'Sc', b'\0\0', b'B2']) + b'B2' + rng.randbytes(200))[:n]
        e = base64.b64encode(raw).decode()
        out.append(e)
        out.append('untrusted comment: c\n%s\n' % e)
        out.append('untrusted comment: c\n%s\ntrusted comment: t\n%s\n' % (e, base64.b64encode(rng.randbytes(64)).decode()))
    return [x.encode() for x in dict.fromkeys(out)]

def cheap(raw):
    """does opening this text with a password stay below the cost of the largest allowed derivation?"""
    try:
        l = raw.decode().split('\n')
        b = base64.b64decode(l[1].strip(), validate=True)
    except Exception:
        return True
    if len(b) < 158:
        return True
    ops, mem = int.from_bytes(b[38:46], 'little'), int.from_bytes(b[46:54], 'little')
    n, r, p = R.pickparams(mem, ops)
    return mem > 1 << 30 or n > 20 or p * r * 128 > 1 << 30 or (1 << n) * p <= 1 << 15

def cases(rng, deep):
    out = []
    for x in strings(rng, deep):
        h = hx(x)
        out += [(c + ' ' + h, None) for c in ('pk_from_base64', 'pk_from_box', 'pk_from_box2', 'pk_file', 'sk_from_unenc_box', 'sb_file')]
        out += [('sb b:' + h, None), ('sb_string b:' + h, None), ('sb s:' + h, None)]
        if cheap(x):
            out.append(('sk_from_box %s %s' % (h, hx(b'pw')), None))
            if rng.randrange(4) == 0:
                out.append(('sk_file %s %s' % (h, hx(b'')), None))
    for n in list(range(0, 170)) + [255, 256, 1000]:
        x = rng.choice([b'Ed', b'ED', b'\0\0']) + rng.randbytes(n)
        h = hx(x[:n])
        out += [(c + ' ' + h, None) for c in ('pk_from_bytes', 'sk_from_bytes', 'bones')]
        out.append(('sb n:' + h, None))
    out.append(('sb_missing', None))
    return out

def search(real, rng, deep):
    s = Search(real)
    w = vgen.World(rng)
    for gen in (lambda: cases(rng, deep), lambda: hostile(rng, deep), lambda: sgen.sig_cases(rng, deep), lambda: kgen.pk_cases(rng, deep),
                lambda: kgen.open_cases(rng, 1), lambda: vgen.verify_cases(w, rng, 1, real.internals)):
        cs = [(c, x) for c, x in gen() if not c.startswith('sb_from ')]
        v = s.run(cs, judge)
        if v:
            return v, s.n, s.samples
    return None, s.n, s.samples
