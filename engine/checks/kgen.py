"""Concrete key files; judged by the reference."""
import base64
from . import ref as R, vgen
from .base import Search
from .real import hx, unhx

b64 = lambda x: base64.b64encode(x).decode()
AL = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'

def noncanon(s):
    """same text with non-zero unused bits in the last group"""
    p = s.rstrip('=')
    if len(p) == len(s):
        return s
    return p[:-1] + AL[AL.index(p[-1]) | 1] + '=' * (len(s) - len(p))

def damage(s, rng):
    """variants of a base64 line"""
    out = ['', '=', '====', s.rstrip('='), s + '=', s + '==', s + 'A', s + 'AAAA', s[:-1], s[1:], s[:-4], s[4:], s[:10] + ' ' + s[10:], s[:10] + '\t' + s[10:],
           s[:10] + '\r' + s[10:], s[:4] + '!' + s[5:], s[:4] + '-' + s[5:], s[:4] + '_' + s[5:], s[:4] + '=' + s[5:], s[:7] + '\u00e9' + s[8:], s[:8] + '\x00' + s[9:],
           noncanon(s), s[:-1] + '=', s[:-2] + '==', s[:-3] + '===', 'A' * len(s), '=' * len(s), ' ' * len(s), s + s, s.swapcase(), s[::-1]]
    return out

BLANKS = ['', ' ', '\t', '  ', '\r', '\u00a0', '\u3000', '\x0b', '\x0c', '\u200b', '\ufeff', '\x00', '\x1c', '\n', '\r\n']

def pkbytes(rng):
    out = [bytes(42), b'\xff' * 42, b'Ed' + bytes(40), bytes(range(42)), bytes(range(214, 256))]
    for kn in (b'\0' * 8, b'\0' * 7 + b'\x01', b'\x01' + b'\0' * 7, b'\xab\xcd\xef\x01\x23\x45\x67\x89', b'\x0a' * 8, b'\xa0' * 8, b'\x00\xff' * 4, b'\xf0' * 8, b'\x80' + b'\0' * 7, b'\0' * 7 + b'\x80'):
        out.append(b'Ed' + kn + rng.randbytes(32))
    for alg in (b'ED', b'ed', b'\0\0', b'Sc', b'\xff\xfe'):
        out.append(alg + rng.randbytes(40))
    return out + [rng.randbytes(42) for _ in range(30)]

def pk_text(b):
    return 'untrusted comment: minisign public key: %016X\n%s\n' % (int.from_bytes(b[2:10], 'little'), b64(b))

def pk_cases(rng, deep):
    """(command, expected 42 bytes | None | 'any' | ('text', ...))"""
    out = []
    keys = pkbytes(rng) + [rng.randbytes(42) for _ in range(60 * deep)]
    ok = lambda b: ('key', b)
    bad = ('bad', None)
    for b in keys:
        out.append(('pk_write ' + hx(b), ('write', b)))
        out.append(('pk_from_bytes ' + hx(b), ok(b)))
        out.append(('pk_from_base64 ' + hx(b64(b)), ok(b)))
        t = pk_text(b)
        for op in ('pk_from_box', 'pk_from_box2', 'pk_file'):
            out.append((op + ' ' + hx(t), ok(b)))
    for n in list(range(0, 60)) + [84, 100, 1000]:
        x = rng.randbytes(n)
        out.append(('pk_from_bytes ' + hx(x), ok(x[:42]) if n >= 42 else bad))
        want = ok(x) if n == 42 else bad
        out.append(('pk_from_base64 ' + hx(b64(x)), want))
        for op in ('pk_from_box', 'pk_from_box2', 'pk_file'):
            out.append((op + ' ' + hx('untrusted comment: x\n' + b64(x) + '\n'), want))
    for b in keys[:6] + keys[-4 * deep:]:
        s = b64(b)
        for v in damage(s, rng):
            r = R.b64dec(v.encode()) if v.isascii() else None
            want = ok(r) if r is not None and len(r) == 42 else bad
            out.append(('pk_from_base64 ' + hx(v), want))
            for op in ('pk_from_box', 'pk_from_box2', 'pk_file'):
                out.append((op + ' ' + hx('untrusted comment: x\n' + v + '\n'), want))
        for w in BLANKS:
            for v in (w + s, s + w, w + s + w):
                # blanks around the base64 text: refused or the very same key
                out.append(('pk_from_base64 ' + hx(v), ('maybe', b)))
                if '\n' not in w:
                    out.append(('pk_from_box ' + hx('c\n' + v + '\n'), ('maybe', b)))
    b = keys[-1]
    s = b64(b)
    for c in ['', 'untrusted comment: ', 'anything at all', 'untrusted comment: ' + 'x' * 3000, '\u4e2d', s, '\t', '\x00']:
        for sep in ('\n', '\r\n'):
            for end in ('', '\n', '\nmore\n', '\r\n', '\n' + s + '\n', '\n\n'):
                for op in ('pk_from_box', 'pk_from_box2', 'pk_file'):
                    out.append((op + ' ' + hx(c + sep + s + end), ok(b)))
    for t in ('', '\n', 'untrusted comment: x', 'untrusted comment: x\n', s, s + '\n', '\n\n' + s, 'x\n\n' + s + '\n', '\n\n\n', 'a\rb', s + '\r' + s):
        for op in ('pk_from_box', 'pk_from_box2', 'pk_file'):
            out.append((op + ' ' + hx(t), bad))
    for raw in (b'\xff\n' + s.encode(), b'x\n' + s.encode() + b'\n\xc3'):
        out.append(('pk_file ' + hx(raw), bad))
    for _ in range(200 * deep):
        x = bytearray(pk_text(rng.choice(keys)).encode())
        for _ in range(rng.randrange(1, 3)):
            i = rng.randrange(len(x))
            op = rng.randrange(3)
            if op == 0:
                x[i] = rng.choice(b'\n\r =+/-_AZ09\x00')
            elif op == 1:
                del x[i]
            else:
                x.insert(i, rng.choice(b'\n\r =A'))
        ls = R.lines(x.decode())
        want = bad
        if len(ls) >= 2:
            r = R.b64dec(ls[1].encode())
            if r is not None and len(r) == 42:
                want = ok(r)
            else:
                r = R.b64dec(R.trim(ls[1]).encode())
                if r is not None and len(r) == 42:
                    want = ('maybe', r)
        out.append(('pk_from_box ' + hx(bytes(x)), want))
    return out

def pk_judge(c, ctx, tok, so):
    kind, b = ctx
    if tok[0] not in ('ok', 'err'):
        return 'neither a key nor an error: %s' % ' '.join(tok)[:200]
    if kind == 'bad':
        return None if tok[0] == 'err' else 'accepted, but it is no encoding of a public key'
    if kind == 'maybe' and tok[0] == 'err':
        return None
    if tok[0] == 'err':
        return 'valid encoding refused'
    if kind in ('key', 'maybe'):
        w = ['ok', hx(b), hx(b[2:10])]
    else:
        t = hx(pk_text(b))
        w = ['ok', hx(b), hx(b64(b)), t, t, t]
    return None if tok == w else 'expected %s' % ' '.join(w)

def eq_cases(rng, op, n, lo, hi, deep):
    """pairs of keys: equal exactly if the bytes from lo to hi are"""
    out = []
    def add(a, b):
        w = a[lo:hi] == b[lo:hi]
        out.append(('%s %s %s' % (op, hx(a), hx(b)), ['ok', str(int(w)), str(int(not w))]))
    base = [rng.randbytes(n) for _ in range(3 * deep)] + [bytes(n), b'\xff' * n]
    for a in base:
        add(a, a)
        for i in list(range(n)):
            add(a, a[:i] + bytes([a[i] ^ rng.choice([1, 128, 255, rng.randrange(1, 256)])]) + a[i + 1:])
        for k in range(40 * deep):
            # several bytes changed by the same amount
            b = bytearray(a)
            m = rng.choice([1, 2, 128, 255, rng.randrange(1, 256)])
            for i in rng.sample(range(lo, hi), rng.choice([2, 3, 4, 8, 16])):
                b[i] = b[i] ^ m if k & 1 else (b[i] + rng.choice([m, -m])) & 255
            add(a, bytes(b))
        b = bytearray(a)
        i, j = rng.sample(range(lo, hi), 2)
        b[i], b[j] = b[j], b[i]
        add(a, bytes(b))
        add(a, a[:lo] + a[lo:hi][::-1] + a[hi:])
        add(a, rng.randbytes(lo) + a[lo:hi] + rng.randbytes(n - hi))
    for c in vgen.IDS + base[:2]:
        a = rng.randbytes(lo) + (c * hi)[:hi - lo] + rng.randbytes(n - hi)
        for t in vgen.twins(a[lo:hi], rng):
            add(a, a[:lo] + t + a[hi:])
            if deep > 1:
                add(a[:lo] + t + a[hi:], a)
    for _ in range(20):
        add(rng.randbytes(n), rng.randbytes(n))
    return out

def eq_judge(c, x, tok, so):
    return None if tok == x else 'expected %s' % ' '.join(x)

def search_pk(real, rng, deep):
    s = Search(real)
    v = s.run(pk_cases(rng, deep), pk_judge) or s.run(eq_cases(rng, 'pk_eq', 42, 10, 42, deep), eq_judge)
    return v, s.n, s.samples

# ---------------------------------------------------------------------------------------------
# secret keys

OFFS = (0, 2, 4, 6, 38, 46, 54, 62, 126, 158)

def sk_split(b):
    return [b[OFFS[i]:OFFS[i + 1]] for i in range(9)]

def sk_text(b, comment='rsign encrypted secret key'):
    return 'untrusted comment: %s\n%s\n' % (comment, b64(b))

def sk_plain(rng, kdf=b'\0\0', mem=0, ops=0, alg=b'Ed', chk=b'B2', real=True, salt=None):
    """fields of a key with a correct checksum"""
    seed = rng.randbytes(32)
    sk = R.keypair(seed)[0] if real else seed + rng.randbytes(32)
    f = [alg, kdf, chk, salt if salt is not None else rng.randbytes(32) if kdf == b'Sc' else bytes(32), ops.to_bytes(8, 'little'), mem.to_bytes(8, 'little'),
         rng.randbytes(8), sk, b'']
    f[8] = R.checksum(f)
    return f

KDFCACHE = {}

def open_ref(b, pw):
    """the key inside 158 (or more) bytes; pw None: the unencrypted route.  None: must be refused"""
    if b is None or len(b) < 158:
        return None
    f = sk_split(b[:158])
    if pw is None:
        if f[1] != b'\0\0':
            return None
    else:
        if f[1] != b'Sc':
            return None
        mem, ops = int.from_bytes(f[5], 'little'), int.from_bytes(f[4], 'little')
        n, r, p = R.pickparams(mem, ops)
        if mem > 1 << 30 or n > 20 or p < 1 or p * r * 128 > 1 << 30:
            return None
        if (1 << n) * p > 1 << 17:
            return 'costly'
        k = (pw, f[3], n, p)
        if k not in KDFCACHE:
            KDFCACHE[k] = R.scrypt(pw, f[3], n, r, p, 104)
        s = KDFCACHE[k]
        f = f[:6] + [R.xor(f[6], s[:8]), R.xor(f[7], s[8:72]), R.xor(f[8], s[72:])]
    return b''.join(f) if R.checksum(f) == f[8] else None

def open_text(t, pw):
    """('ok', key) must open to it, ('maybe', key), ('err',)"""
    ls = R.lines(t)
    if len(ls) < 2:
        return ('err',)
    for kind, l in (('ok', ls[1]), ('maybe', R.trim(ls[1]))):
        d = R.b64dec(l.encode()) if l.isascii() else None
        if d is None:
            continue
        r = open_ref(d, pw)
        if r == 'costly':
            return None
        if r is None:
            return ('err',)
        return (kind if len(d) == 158 else 'maybe', r)
    return ('err',)

ROUTES = ('sk_from_box', 'sk_file', 'prompt', 'fprompt', 'sk_from_unenc_box')

def open_cmds(t, pw, routes=ROUTES):
    """commands opening text t by every route, with what the reference expects"""
    out = []
    for r in routes:
        x = open_text(t, None if r == 'sk_from_unenc_box' else pw)
        if x is None:
            continue
        if r in ('prompt', 'fprompt'):
            if len(pw) > 1024 or b'\n' in pw or b'\0' in pw:
                continue
            c = '%s %s - %s' % ('sk_file' if r == 'fprompt' else 'sk_from_box', hx(t), hx(pw))
        elif r == 'sk_from_unenc_box':
            c = r + ' ' + hx(t)
        else:
            c = '%s %s %s' % (r, hx(t), hx(pw))
        out.append((c, x))
    return out

def open_judge(c, x, tok, so):
    if tok[0] not in ('ok', 'err'):
        return 'neither a key nor an error: %s' % ' '.join(tok)[:200]
    if x[0] == 'err':
        return None if tok[0] == 'err' else 'opened, but it must be refused'
    if tok[0] == 'err':
        return None if x[0] == 'maybe' else 'valid key refused'
    return None if tok[1] == hx(x[1]) and tok[2] == hx(x[1][54:62]) else 'expected the key %s' % hx(x[1])

def open_cases(rng, deep):
    out = []
    MEM, OPS = 16384 + 7, 32768
    plain = sk_plain(rng)
    f = sk_plain(rng, b'Sc', MEM, OPS)
    pw = b'correct horse'
    enc = b''.join(R.crypt(f, pw))
    un = b''.join(plain)
    # the right routes and the wrong ones
    for b in (enc, un):
        for c in ('x', '', 'y' * 400):
            out += open_cmds(sk_text(b, c), pw)
        for l in ('', '\n', '\r\n', '\nmore\n', '\n\n\n'):
            out += open_cmds('c\n' + b64(b) + l, pw)
            out += open_cmds('c\r\n' + b64(b) + l, pw, ROUTES[::3])
    # wrong passwords
    for w in (b'', pw + b'\0', pw[:-1], pw + b' ', pw.upper(), b' ' + pw, pw + pw, bytes(pw[:1]), b'x' * 65, b'x' * 1024):
        out += open_cmds(sk_text(enc), w, ROUTES[:3])
    for w in (b'', b'\xc3\xa9', b'a' * 64, b'a' * 65, b'a' * 200, b'p\nq', b'\0'):
        e = b''.join(R.crypt(f, w))
        out += open_cmds(sk_text(e), w)
        out += open_cmds(sk_text(e), pw, ROUTES[:1])
    # keys stored under a wrong checksum: every byte, bit and field of it
    for i in range(158):
        for b in (enc, un):
            x = bytearray(b)
            x[i] ^= 1 << rng.randrange(8)
            out += open_cmds(sk_text(bytes(x)), pw, (ROUTES[0], ROUTES[3]))
    for i in range(126, 158):
        for bit in range(8):
            x = bytearray(un)
            x[i] ^= 1 << bit
            out += open_cmds(sk_text(bytes(x)), pw, ROUTES[3:])
    for base, route in ((un, ROUTES[3:]), (enc, ROUTES[:1])):
        for _ in range(40 * deep):
            # several bytes damaged at once, including patterns that cancel out
            x = bytearray(base)
            k = rng.choice((2, 2, 3, 4, 8))
            v = rng.randrange(1, 256)
            for i in rng.sample(range(126, 158), k) if rng.random() < .6 else rng.sample(range(54, 158), k):
                x[i] ^= v if rng.random() < .7 else rng.randrange(1, 256)
            out += open_cmds(sk_text(bytes(x)), pw, route)
        x = bytearray(base)
        x[126:158] = bytes(x[126:158][::-1])
        out += open_cmds(sk_text(bytes(x)), pw, route)
        for c in (bytes(32), b'\xff' * 32):
            out += open_cmds(sk_text(base[:126] + c), pw, route)
        if base is un:
            for c in vgen.twins(base[126:158], rng):
                out += open_cmds(sk_text(base[:126] + c), pw, route)
            # identifiers and secrets that look like the ones summed
            for c in vgen.twins(base[54:62], rng):
                out += open_cmds(sk_text(base[:54] + c + base[62:]), pw, route)
            for c in rng.sample(vgen.twins(base[62:126], rng), 60 * deep):
                out += open_cmds(sk_text(base[:62] + c + base[126:]), pw, route)
    # checksums with something special in them
    for want in [lambda c: 0 in c[1:16], lambda c: c[0] == 0, lambda c: c[31] == 0, lambda c: c[:8].find(0) > 0 and c[8:].find(0) > 0, lambda c: min(c) > 15, lambda c: sum(x > 127 for x in c) > 20]:
        for _ in range(5000):
            g = sk_plain(rng, real=False)
            if want(g[8]):
                break
        b = b''.join(g)
        for c in rng.sample(vgen.twins(b[126:158], rng), 60):
            out += open_cmds(sk_text(b[:126] + c), pw, ROUTES[3:])
    # checksum of other things: shorter parts, other hash lengths, other fields
    import hashlib
    for kdf in (b'\0\0', b'Sc'):
        g = sk_plain(rng, kdf, MEM, OPS)
        alts = [hashlib.blake2b(g[7], digest_size=32), hashlib.blake2b(g[0] + g[6] + g[7][:32], digest_size=32), hashlib.blake2b(g[6] + g[7], digest_size=32),
                hashlib.blake2b(g[0] + g[7], digest_size=32), hashlib.blake2b(g[2] + g[6] + g[7], digest_size=32), hashlib.blake2b(b'', digest_size=32),
                hashlib.blake2b(g[0] + g[1] + g[2] + g[6] + g[7], digest_size=32), hashlib.blake2b(b''.join(g[:8]), digest_size=32)]
        vals = [h.digest() for h in alts] + [hashlib.blake2b(g[0] + g[6] + g[7]).digest()[:32], hashlib.blake2b(g[0] + g[6] + g[7]).digest()[32:],
                                             hashlib.sha256(g[0] + g[6] + g[7]).digest(), g[7][32:], g[7][:32]]
        for c in vals + [g[8][:-1] + bytes([g[8][-1] ^ 128]), bytes([g[8][0] ^ 1]) + g[8][1:], g[8][::-1]]:
            h = g[:8] + [c]
            out += open_cmds(sk_text(b''.join(h if kdf == b'\0\0' else R.crypt(h, pw))), pw)
        # checksum not encrypted, key not encrypted, nothing encrypted
        if kdf == b'Sc':
            e = R.crypt(g, pw)
            for h in (e[:8] + g[8:], e[:7] + g[7:], g, g[:6] + [e[6]] + g[7:], e[:6] + [g[6]] + e[7:]):
                out += open_cmds(sk_text(b''.join(h)), pw)
    # algorithms
    for alg in (b'Ed', b'ED', b'ed', b'\0\0', b'E\0', b'\xff\xff'):
        for chk in (b'B2', b'b2', b'\0\0', b'XX'):
            g = sk_plain(rng, alg=alg, chk=chk)
            want = open_cmds(sk_text(b''.join(g)), pw)
            # a key under an unknown algorithm may be refused
            out += want if (alg, chk) == (b'Ed', b'B2') else [(c, ('maybe',) + x[1:] if x[0] == 'ok' else x) for c, x in want]
    for kdf in (b'Sc', b'\0\0', b'sc', b'SC', b'S\0', b'\0c', b'\0\x01', b'\x01\0', b'cS', b'\xff\xff', b'Sd', b'Tc', b'Ed', b'B2', b'  '):
        g = sk_plain(rng, kdf, MEM, OPS)
        out += open_cmds(sk_text(b''.join(g)), pw)
        out += open_cmds(sk_text(b''.join(R.crypt(g, pw))), pw)
        out += open_cmds(sk_text(b''.join(g)), b'')
        out += open_cmds(sk_text(b''.join(R.crypt(g, b''))), b'')
    # truncation and excess
    for b in (enc, un):
        for n in list(range(0, 158)) + [159, 160, 161, 190, 316, 1000]:
            x = b[:n] if n < 158 else b + rng.randbytes(n - 158)
            out += open_cmds(sk_text(x), pw, (ROUTES[0], ROUTES[3]))
        s = b64(b)
        for v in damage(s, rng):
            out += open_cmds('untrusted comment: x\n' + v + '\n', pw)
        for w in BLANKS:
            for v in (w + s, s + w, w + s + w):
                out += open_cmds('c\n' + v + '\n', pw, (ROUTES[0], ROUTES[3]))
        for t in ('', '\n', 'c', 'c\n', s, s + '\n', '\n\n' + s, 'c\n\n' + s + '\n', 'a\rb', s + '\r' + s, s + s, 'c\n' + s[:100] + '\n' + s[100:]):
            out += open_cmds(t, pw)
    # limits
    for mem, ops in [(0, 0), (1 << 30, 0), ((1 << 30) + 1, 32768), (1 << 40, 1 << 20), ((1 << 64) - 1, (1 << 64) - 1), (1 << 14, 1 << 63), (1 << 32, 32768),
                     ((1 << 32) + 16384, 32768), (16384, (1 << 32) + 32768), (16384, 1 << 32), (1 << 63, 32768), (255, 32768), (1024, 32768), (2048, 32768),
                     (MEM, 0), (MEM, 32767), (MEM, 32769), (MEM, 65536), (1 << 20, 32768), (1 << 20, 65536), (40000, 1 << 17)]:
        g = sk_plain(rng, b'Sc', mem, ops)
        n, r, p = R.pickparams(mem, ops)
        b = b''.join(R.crypt(g, pw)) if mem <= 1 << 30 and 1 <= p and (1 << n) * p <= 1 << 17 else b''.join(g)
        out += open_cmds(sk_text(b), pw, ROUTES[:2])
    # not text
    out.append(('sk_file %s %s' % (hx(b'\xff\n' + b64(enc).encode()), hx(pw)), ('err',)))
    return out

def kdf_sequence(rng, deep):
    """keys whose derivations share all but one thing, opened after one another"""
    pw = b'pass word'
    salt = rng.randbytes(32)
    a = (pw, salt, 16384, 32768)
    vs = [(pw + b'x', ) + a[1:], (pw[:-1], ) + a[1:], (pw[::-1],) + a[1:], (b'',) + a[1:]]
    for i in (0, 3, 4, 7, 8, 15, 16, 23, 24, 30, 31):
        vs.append((pw, vgen.flip(salt, rng, i), 16384, 32768))
    vs += [(pw, t, 16384, 32768) for t in (salt[::-1], salt[16:] + salt[:16], salt[1:] + salt[:1], salt[:16] + rng.randbytes(16), rng.randbytes(16) + salt[16:])]
    vs += [(pw, salt, m, o) for m, o in ((16384, 65536), (1 << 15, 32768), (1 << 16, 1 << 16), (1 << 16, 1 << 17))]
    if deep > 1:
        vs += [(pw, t, 16384, 32768) for t in rng.sample(vgen.twins(salt, rng), 40)]
    out = []
    def opens(k):
        p, s, m, o = k
        f = sk_plain(rng, b'Sc', m, o, salt=s)
        t = sk_text(b''.join(R.crypt(f, p)))
        out.extend(open_cmds(t, p, ROUTES[:1]))
        if k != a:
            # encrypted under what the first one derives
            g = f[:3] + [a[1], (a[3]).to_bytes(8, 'little'), (a[2]).to_bytes(8, 'little')] + f[6:]
            g = R.crypt(g, a[0])
            out.extend(open_cmds(sk_text(b''.join(f[:6] + g[6:])), p, ROUTES[:1]))
    for k in vs:
        opens(a)
        opens(k)
        opens(a)
    return out

def search_open(real, rng, deep):
    s = Search(real)
    return s.run(open_cases(rng, deep), open_judge), s.n, s.samples

def comments(rng):
    return [None, '', 'x', 'untrusted comment: ', 'secret', ' lead', 'trail ', '\u4e2d\u6587', 'a' * 300, 'x' * 5000, 'tab\there', '\r', 'cr\r', '{}', '{comment}', '%s', '\\n', '"q"'] + [t for c in vgen.CHARS if c != '\r' for t in ('left' + c, c + 'right')]

def sk_cases(rng, deep):
    out = []
    for n in list(range(0, 170)) + [200, 316, 1000]:
        x = rng.randbytes(n)
        out.append(('sk_from_bytes ' + hx(x), ('ok', x[:158]) if n >= 158 else ('err',)))
    keys = [rng.randbytes(158) for _ in range(40 * deep)] + [bytes(158), b'\xff' * 158, bytes(range(158)), bytes(range(98, 256))]
    for i in range(158):
        x = bytearray(158)
        x[i] = rng.randrange(1, 256)
        keys.append(bytes(x))
    for b in keys:
        out.append(('sk_from_bytes ' + hx(b), ('ok', b)))
        c = rng.choice(comments(rng))
        out.append(('sk_to_box %s %s' % (hx(b), hx(c)), ('box', b, c)))
    for c in comments(rng):
        out.append(('sk_to_box %s %s' % (hx(keys[0]), hx(c)), ('box', keys[0], c)))
    pws = [b'', b'a', b'password', b' ', b'\xc3\xa9\xe4\xb8\xad', b'x' * 63, b'x' * 64, b'x' * 65, b'y' * 200, b'z' * 1024, b'q' * 1025, b'w' * 4000, b' lead', b'trail ', b'a\nb', b'\0', b'a\0b', b'\0b', b'a\0', b'tab\t', b'\r', b'a\r\nb', b'a\r\n', b'\n', b'\xef\xbb\xbfpw', b'A\xcc\x8a', b'\xc2\xa0', b'%s', b'\\n', b'\x7f\x08']
    for k in range(10 * deep):
        un = sk_plain(rng)
        f = sk_plain(rng, b'Sc', rng.choice((16384, 20000, 1 << 16)), rng.choice((32768, 40000, 65536)))
        for c in rng.sample(comments(rng)[1:], 3):
            if c is None:
                continue
            out += open_cmds(sk_text(b''.join(un), c), b'pw')
            pw = rng.choice(pws)
            out += open_cmds(sk_text(b''.join(R.crypt(f, pw)), c), pw)
    for pw in pws:
        f = sk_plain(rng, b'Sc', 16384, 32768)
        out += open_cmds(sk_text(b''.join(R.crypt(f, pw))), pw)
    # extreme contents
    for g in (sk_plain(rng), sk_plain(rng, b'Sc', 16384, 32768)):
        for kn in (bytes(8), b'\xff' * 8):
            for sk in (g[7], bytes(64), b'\xff' * 64):
                for salt in (bytes(32), b'\xff' * 32, g[3]):
                    h = g[:3] + [salt] + g[4:6] + [kn, sk, b'']
                    h[8] = R.checksum(h)
                    out += open_cmds(sk_text(b''.join(R.crypt(h, b'pw') if h[1] == b'Sc' else h)), b'pw')
    # unusual algorithm fields
    for sa, ca in ((b'Ed', b'\0\0'), (b'ED', b'B2'), (b'Ed', b'b2'), (bytes(2), bytes(2)), (rng.randbytes(2), rng.randbytes(2)), (b'Ed', b'B3')):
        for g in (sk_plain(rng), sk_plain(rng, b'Sc', 16384, 32768)):
            h = [sa, g[1], ca] + g[3:8] + [b'']
            h[8] = R.checksum(h)
            out += open_cmds(sk_text(b''.join(R.crypt(h, b'pw') if h[1] == b'Sc' else h)), b'pw')
    return out

def sk_judge(c, x, tok, so):
    if x[0] != 'box':
        return open_judge(c, x, tok, so)
    t = hx(sk_text(x[1], x[2]) if x[2] is not None else sk_text(x[1]))
    return None if tok == ['ok', t, t] else 'expected the box %s' % t

def gen_split(tok):
    return unhx(tok[1]), unhx(tok[2])

def gen_problem(pk, sk, pw):
    """what is wrong with a generated pair (pw None: unencrypted)"""
    if len(pk) != 42 or len(sk) != 158:
        return 'wrong lengths'
    f = sk_split(sk)
    if pw is None:
        if f[1] != b'\0\0':
            return 'not marked unencrypted'
    else:
        if f[1] != b'Sc':
            return 'not marked encrypted'
        n, r, p = R.pickparams(int.from_bytes(f[5], 'little'), int.from_bytes(f[4], 'little'))
        if p < 1 or (1 << n) * p > 1 << 17:
            return None
        f = R.crypt(f, pw)
    if R.checksum(f) != f[8]:
        return 'the checksum does not match'
    if R.keypair(f[7][:32])[0] != f[7]:
        return 'the secret does not hold the seed followed by its public key'
    if pk[10:] != f[7][32:]:
        return 'the public key is not the one stored in the secret key'
    if pk[2:10] != f[6]:
        return 'different identifiers'
    if pk[:2] != f[0] or f[0] != b'Ed':
        return 'different algorithms'
    return None

# two different entries for one password
MISTYPED = [(b'one', b'two'), (b'one', b'One'), (b'one', b'ONE'), (b'one', b'one '), (b'one', b' one'), (b'one', b'one1'), (b'one', b'on'), (b'one', b''),
            (b'one', b'onf'), (b'one', b'pne'), (b'one', b'eno'), (b'', b' '), (b'a b', b'ab'), (b'\xc3\xa9', b'e\xcc\x81'), (b'\xc3\xa9', b'\xc3\x89'),
            (b'x' * 64, b'x' * 64 + b'y'), (b'x' * 64, b'x' * 63 + b'y'), (b'x' * 255 + b'a', b'x' * 255 + b'b'), (b'x' * 256, b'x' * 257), (b'z' * 1023, b'z' * 1024),
            (b'one', b'one\t'), (b'one', b'one\r'), (b'one', b'one\0'), (b'12', b'012')]

def mistyped_judge(c, x, tok, so):
    if tok[0] not in ('ok', 'err'):
        return 'neither a pair nor an error: %s' % ' '.join(tok)[:200]
    return None if tok[0] == 'err' else 'a key pair is generated although the two passwords typed differ'

def open_generated(real, rng, deep):
    """generate, store, open again with the same password (two rounds of commands)"""
    s = Search(real)
    pws = [b'', b'a', b'password', b'\xc3\xa9\xe4\xb8\xad', b'x' * 64, b'x' * 65, b'z' * 1024, b' ', b'a\nb', b'a\0b', b'\0', b'q' * 1025] + [rng.randbytes(6).hex().encode() for _ in range(2 * deep)]
    cmds = []
    for pw in pws:
        cmds.append('gen_enc - ' + hx(pw))
        if b'\n' not in pw and len(pw) <= 1024:
            cmds.append('gen_enc - - %s,%s' % (hx(pw), hx(pw)))
    cmds += ['gen_unenc -'] * 4
    pairs = MISTYPED + [(w, w[:i] + bytes([w[i] ^ 1 << rng.randrange(7)]) + w[i + 1:]) for w in (rng.randbytes(9).hex().encode() for _ in range(6)) for i in (0, 5, 8, 17)]
    pairs = [p for p in pairs if b'\n' not in p[0] + p[1]]
    v = s.run([('gen_enc - - %s,%s' % (hx(x), hx(y)), None) for p in pairs for x, y in (p, p[::-1])], mistyped_judge)
    if v:
        return v, s.n, s.samples
    def pwof(c):
        a = c.split(' ')
        return None if a[0] == 'gen_unenc' else unhx(a[2]) if a[2] != '-' else unhx(a[3].split(',')[0])
    got = []
    def judge(c, x, tok, so):
        if tok[0] != 'ok':
            return 'no key pair: %s' % ' '.join(tok)[:200]
        w = gen_problem(*gen_split(tok), pwof(c))
        got.append((c, tok))
        return w
    v = s.run([(c, None) for c in cmds], judge)
    if v:
        return v, s.n, s.samples
    cases = []
    for c, tok in got:
        pk, sk = gen_split(tok)
        pw = pwof(c)
        cases += open_cmds(sk_text(sk), pw if pw is not None else b'pw')
        if pw is not None and len(pw) < 100:
            cases += open_cmds(sk_text(sk), pw + b'.', ROUTES[:1])
    v = s.run(cases, open_judge)
    return v, s.n, s.samples

def search_sk(real, rng, deep):
    s = Search(real)
    v = s.run(sk_cases(rng, deep), sk_judge) or s.run(kdf_sequence(rng, deep), open_judge) or s.run(eq_cases(rng, 'sk_eq', 158, 62, 126, deep), eq_judge)
    if v:
        return v, s.n, s.samples
    v, n, sa = open_generated(real, rng, deep)
    return v, s.n + n, s.samples + sa

def pair_cases(rng, deep):
    """(command, (kind, password, comment, fails))"""
    out = []
    pws = [b'', b'a', b'\xc3\xa9', b'x' * 65, b'z' * 1024] + [rng.randbytes(5).hex().encode() for _ in range(deep)]
    for pw in pws:
        out.append(('gen_enc - ' + hx(pw), ('gen', pw, None)))
        out.append(('gen_enc - - %s,%s' % (hx(pw), hx(pw)), ('gen', pw, None)))
        for c in rng.sample(comments(rng), 2) + [None]:
            out.append(('write_enc - %s %s -,-' % (hx(pw), hx(c)), ('wenc', pw, c)))
    out.append(('write_enc - - - -,- %s,%s' % (hx(b'typed'), hx(b'typed')), ('wenc', b'typed', None)))
    out.append(('gen_enc - - %s,%s' % (hx(b'one'), hx(b'two')), ('none', None, None)))
    out.append(('gen_enc - - %s,!' % hx(b'one'), ('none', None, None)))
    for k in range(12 * deep):
        out.append(('gen_unenc -', ('gen', None, None)))
        out.append(('write_unenc - -,-', ('wun', None, None)))
    # short writes, failures
    for l in ('c1,-', '-,c1', 'c7,c50', 'c100,c200'):
        out.append(('write_enc - %s %s %s' % (hx(b'pw'), hx('cc'), l), ('wenc', b'pw', 'cc')))
        out.append(('write_unenc - %s' % l, ('wun', None, None)))
    for l in ('0,-', '-,0', '10,-', '-,10', 'f,-', '-,f', '41,-', '-,157'):
        out.append(('write_unenc - %s' % l, ('none', None, None)))
        out.append(('write_enc - %s - %s' % (hx(b'pw'), l), ('none', None, None)))
    # failures of every kind, writers that accept nothing, one interruption
    for k in 'ewtpdncfa':
        for l in ('f:%s,-', '-,f:%s', '0:%s,-', '-,0:%s', '20:%s,-', '-,60:%s'):
            out.append(('write_unenc - %s' % l % k, ('none', None, None)))
        out.append(('write_enc - %s - %s' % (hx(b'pw'), rng.choice(['f:%s,-', '-,f:%s', '-,20:%s', '20:%s,-']) % k), ('none', None, None)))
    for l in ('z0,-', '-,z0', 'z20,-', '-,z40', '-,z157', 'z41,-'):
        out.append(('write_unenc - %s' % l, ('none', None, None)))
    for l in ('i0,-', '-,i0', 'i20,i60', '-,i157'):
        out.append(('write_unenc - %s' % l, ('wun', None, None)))
    # seeds that are special
    for seed in (bytes(32), b'\xff' * 32, bytes(range(32)), b'\x01' + bytes(31), bytes(31) + b'\x80'):
        for kn in (bytes(8), b'\xff' * 8):
            out.append(('gen_unenc %s,%s' % (hx(seed), hx(kn)), ('gen', None, None)))
    out.append(('gen_unenc !', ('none', None, None)))
    # special seeds and identifiers in the protected form
    for k, o in enumerate((bytes(32), b'\xff' * 32, rng.randbytes(7) + bytes(25), bytes(1) + rng.randbytes(31), b'\x80' * 32)):
        e = [rng.randbytes(32) for _ in range(3)]
        for i in range(3):
            r = ','.join(hx(o if j == i else q) for j, q in enumerate(e))
            out.append(('gen_enc %s %s' % (r, hx(b'pw')), ('gen', b'pw', None)) if (i + k) % 2 else ('write_enc %s %s - -,-' % (r, hx(b'pw')), ('wenc', b'pw', None)))
    return out

def pair_judge(c, x, tok, so):
    kind, pw, com = x
    if tok[0] not in ('ok', 'err'):
        return 'neither a pair nor an error: %s' % ' '.join(tok)[:200]
    if kind == 'none':
        return None if tok[0] == 'err' else 'a pair is reported although storing or generating it failed'
    if tok[0] == 'err':
        return 'no key pair'
    pk, sk = gen_split(tok)
    w = gen_problem(pk, sk, pw)
    if w:
        return w
    if kind == 'wun' and (unhx(tok[3]) != pk or unhx(tok[4]) != sk):
        return 'other bytes were stored than the keys returned'
    if kind == 'wenc':
        if unhx(tok[3]) != pk_text(pk).encode():
            return 'the stored public key is not the returned one'
        if unhx(tok[4]) != (sk_text(sk, com) if com is not None else sk_text(sk)).encode():
            return 'the stored secret key is not the returned one'
    return None

def spread(outs, name):
    """bits that never change and pairs of bytes that always agree, over outputs that should be random"""
    n = len(outs[0])
    a, o = bytearray(b'\xff' * n), bytearray(n)
    for x in outs:
        for i in range(n):
            a[i] &= x[i]
            o[i] |= x[i]
    for i in range(n):
        if a[i] or o[i] != 255:
            return 'byte %d of the %s has bits that are the same in %d generated keys' % (i, name, len(outs))
    seen = {}
    for i in range(n):
        k = bytes(x[i] for x in outs)
        if k in seen:
            return 'bytes %d and %d of the %s agree in %d generated keys' % (seen[k], i, name, len(outs))
        seen[k] = i
    return None

def pieces(x, e):
    """x is made of pieces of at least four bytes, each within what one call to the source delivered"""
    ok = [True] + [False] * len(x)
    for j in range(4, len(x) + 1):
        ok[j] = any(ok[i] and any(x[i:j] in y for y in e) for i in range(j - 3))
    return ok[len(x)]

def search_random(real, rng, deep):
    """generated keys under scripted random sources"""
    s = Search(real)
    # a source that fails: an error, or else nothing that the source did not deliver
    cases = []
    for g in ('gen_unenc %s', 'write_unenc %s -,-', 'gen_enc %s ' + hx(b'pw'), 'write_enc %s ' + hx(b'pw') + ' - -,-'):
        for k in range(4):
            e = [rng.randbytes(256) for _ in range(k)]
            cases.append((g % ','.join([hx(x) for x in e] + ['!']), e))
    def judge(c, e, tok, so):
        if tok[0] == 'err':
            return None
        if tok[0] != 'ok':
            return 'neither a pair nor an error'
        pk, sk = gen_split(tok)
        f = sk_split(sk)
        if f[1] == b'Sc':
            f = R.crypt(f, b'pw')
            if not pieces(f[3], e):
                return 'the salt was not delivered by the random source, which had failed'
        for n, x in (('identifier', f[6]), ('seed', f[7][:32])):
            if not pieces(x, e):
                return 'the %s was not delivered by the random source, which had failed' % n
        return None
    v = s.run(cases, judge)
    for g, n in (('gen_unenc %s', 64), ('write_unenc %s -,-', 64), ('gen_enc %s ' + hx(b'pw'), 40 + 8 * deep), ('write_enc %s ' + hx(b'pw') + ' - -,-', 40 + 8 * deep)):
        if v:
            break
        got = []
        def keep(c, e, tok, so):
            if tok[0] != 'ok':
                return 'no key pair: %s' % ' '.join(tok)[:200]
            pk, sk = gen_split(tok)
            f = sk_split(sk)
            enc = f[1] == b'Sc'
            if enc:
                if (f[4], f[5]) != ((1 << 20).to_bytes(8, 'little'), (1 << 25).to_bytes(8, 'little')):
                    return 'the limits stored are not the defaults'
                f = R.crypt(f, b'pw')
            x = pk[2:10] + f[7][:32] + (f[3] if enc else b'')
            got.append((c, x))
            for q in (x[:8], x[8:40]) + ((x[40:],) if enc else ()):
                if not pieces(q, e):
                    return 'identifier, seed or salt is not what the random source delivered'
            return None
        cases = []
        for _ in range(n):
            e = [rng.randbytes(256) for _ in range(12)]
            cases.append((g % ','.join(hx(x) for x in e), e))
        v = s.run(cases, keep)
        w = not v and spread([x for _, x in got], 'identifier, seed and salt')
        if w:
            v = dict(command=got[0][0], answer='over %d keys' % len(got), stdout='', why=w)
        if v:
            break
        # a source that delivers unlikely bytes
        odd = [bytes(256), b'\xff' * 256, b'\x01' * 256, bytes(7) + b'\1' * 249, b'\1' + bytes(255), bytes(8) + rng.randbytes(248), rng.randbytes(31) + bytes(225),
               rng.randbytes(7) + bytes(249), bytes(31) + rng.randbytes(225), b'\x80' * 256, b'\r\n' * 128]
        cases = []
        for k in range(4):
            for o in odd if 'enc %s' not in g.replace('unenc', '') else odd[:1 + deep]:
                e = [rng.randbytes(256) for _ in range(12)]
                e[k] = o
                cases.append((g % ','.join(hx(x) for x in e), e))
                if k:
                    cases.append((g % ','.join(hx(x) for x in e[:1] * 12), e))
        v = s.run(cases[:40] if 'unenc' not in g and 'write_enc' in g else cases, keep)
    return v, s.n, s.samples

def search_pair(real, rng, deep):
    s = Search(real)
    got = []
    def judge(c, x, tok, so):
        w = pair_judge(c, x, tok, so)
        if w is None and tok[0] == 'ok' and x[0] != 'none':
            got.append((tok, x))
        return w
    v = s.run(pair_cases(rng, deep), judge)
    if v:
        return v, s.n, s.samples
    cases = []
    for tok, (kind, pw, com) in got:
        pk, sk = gen_split(tok)
        f = sk_split(sk)
        b = b''.join(f if pw is None else R.crypt(f, pw))
        cases.append(('pk_from_sk ' + hx(b), pk))
    for _ in range(30 * deep):
        b = rng.randbytes(158)
        cases.append(('pk_from_sk ' + hx(b), b[:2] + b[54:62] + b[94:126]))
    v = s.run(cases, lambda c, x, tok, so: None if tok == ['ok', hx(x), hx(x[2:10])] else 'expected the public key %s' % hx(x))
    return v, s.n, s.samples
