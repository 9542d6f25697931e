"""Concrete boxes, keys and data for verify; judged by the reference."""
import functools, os
from . import ref as R
from .base import Search
from .real import hx

@functools.lru_cache(maxsize=4000)
def edv_(m, pk, s):
    return len(s) == 64 and R.verify(m, pk, s)

def edv(m, pk, s):
    return (edv_.__wrapped__ if len(m) > 1 << 16 else edv_)(m, pk, s)

class World:
    """key pairs and signatures made by the reference"""
    def __init__(self, rng):
        self.rng = rng
        self.keys = []
        for i in range(3):
            seed = rng.randbytes(32)
            sk, pk = R.keypair(seed)
            self.keys.append((rng.randbytes(8), sk, pk))

    def pk(self, i=0, alg=b'Ed'):
        kn, sk, pk = self.keys[i]
        return alg + kn + pk

    def sig(self, m, i=0):
        return R.sign(m, self.keys[i][1], self.rng.randbytes(64))

    def box(self, data, pre=True, i=0, t='timestamp:1', u='signature from minisign', legacy_over_digest=None):
        """dict describing a valid box"""
        m = R.blake2b(data) if pre else data
        s = self.sig(m, i)
        return dict(alg=b'ED' if pre else b'Ed', kn=self.keys[i][0], sig=s, u=u, t=t, g=self.sig(s + t.encode(), i), i=i)

    def regl(self, b, m=None, i=None):
        """recompute the global signature over the box as it is now"""
        b['g'] = self.sig(b['sig'] + b['t'].encode() if m is None else m, b['i'] if i is None else i)
        return b

def text(b):
    return R.make_sig(b['alg'] + b['kn'] + b['sig'], b['u'], b['t'], b['g'])

def expected(pk, b, data, legacy, tg=True, tsig=None):
    """verdict for a box given as a dict; tg False: bones"""
    pre = b['alg'] == b'ED'
    if b['kn'] != pk[2:10] or (not pre and not legacy):
        return False
    if not edv(R.blake2b(data) if pre else data, pk[10:], b['sig']):
        return False
    if not tg:
        return True
    return edv(b['sig'] + b['t'].encode() if tsig is None else tsig, pk[10:], b['g'])

CHUNKS = ['-', '1', '3,1,200', '64', '127,1,129', '128', '4096', '65536', '65535,2', '1,0', '100000']
FLAGS = [q + o + l for q in ('', 'q') for o in ('', 'o') for l in ('', 'l')]

def flip(b, rng, k=None):
    b = bytearray(b)
    k = rng.randrange(len(b)) if k is None else k
    b[k] ^= 1 << rng.randrange(8)
    return bytes(b)

def datas(rng, deep):
    ls = [0, 1, 2, 31, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 131072, 200001]
    out = [rng.randbytes(n) for n in ls]
    out += [b'\0' * 128, b'\xff' * 256, b'test', b'a\nb\n']
    for _ in range(10 * deep):
        out.append(rng.randbytes(rng.randrange(0, 700)))
    return out

# characters that text handling treats specially
CHARS = ['\0', '\t', '\x0b', '\x0c', '\r', ' ', '\x1a', '\x1b', '\x7f', '\x85', '\xa0', '\u2028', '\u3000', '\ufeff', '\ufffd', '\u0301', '\U0001f600',
         '"', '%', '{}', '\\', ':', '#', ';', '=', ',', '/', '\u00df', 'A']

def comments(deep):
    cs = CHARS + ([chr(i) for i in range(256) if i != 10 and chr(i) not in CHARS] + list('\u1680\u2000\u2003\u2007\u200a\u200b\u200d\u200e\u2029\u202e\u202f\u205f\u2060\ud7ff\ue000\ufffe\uffff\U0010ffff') if deep > 1 else [])
    return [t for c in cs for t in (('left' + c + 'right', 'left' + c, c + 'right')[:1] if c == '\r' else ('left' + c + 'right', 'left' + c, c + 'right', c))]

def contents(rng, deep):
    """data whose first or last bytes are special"""
    out = []
    for e in (b'\n', b'\r\n', b'\r', b'\0', b'\x1a', b' ', b'\n\n', b'\xff', b'\x80', b'\xef\xbb\xbf', b'-', b'\t', b'\x04', b'\x0c'):
        for n in (0, 1, 30, 65536 - len(e), 65536) if deep > 1 else (0, 30):
            out += [rng.randbytes(n) + e, e + rng.randbytes(n)]
        out.append(rng.randbytes(9) + e + rng.randbytes(9))
    if deep > 1:
        for i in range(256):
            out += [bytes([i]) + b'abc', b'abc' + bytes([i]), b'ab' + bytes([i]) + b'c']
    return out

def twins(a, rng):
    """byte strings that sloppy comparisons take for a"""
    n = len(a)
    h = n // 2
    out = [a[::-1], a[1:] + a[:1], a[-1:] + a[:-1], a[h:] + a[:h], a[:h] + a[:n - h], a[n - h:] + a[n - h:], a[:h][::-1] + a[h:], bytes(n), b'\xff' * n,
           a.swapcase(), a.upper(), a.lower(), bytes(x ^ 32 for x in a), bytes(x & 127 for x in a), bytes(x | 128 for x in a), bytes(x ^ 128 for x in a), bytes(x ^ 255 for x in a),
           bytes(sorted(a)), a[:1] * n, bytes(-x & 255 for x in a), bytes((x << 4 | x >> 4) & 255 for x in a)]
    for i in range(n):
        for j in (i + 1, i + h, n - 1 - i):
            j %= n
            if j == i:
                continue
            b = bytearray(a); b[i], b[j] = b[j], b[i]; out.append(bytes(b))
            v = rng.randrange(1, 256)
            b = bytearray(a); b[i] = (b[i] + v) & 255; b[j] = (b[j] - v) & 255; out.append(bytes(b))
            b = bytearray(a); b[i] ^= v; b[j] ^= v; out.append(bytes(b))
            if a[i] and a[j] < 255:
                b = bytearray(a); b[i] -= 1; b[j] += 1; out.append(bytes(b))
        for v in (1, 2, 16, 32, 64, 128, 255):
            out.append(a[:i] + bytes([a[i] ^ v]) + a[i + 1:])
        out.append(a[:i] + b'\0' + a[i + 1:])
    # equal up to the first zero, blank or line feed, or as lossy text
    for c in b'\0\n ':
        k = a.find(bytes([c]))
        if k >= 0:
            out += [a[:k + 1] + rng.randbytes(n - k - 1), rng.randbytes(k) + a[k:]]
    bad = [i for i in range(n) if a[i] > 127]
    if bad:
        b = bytearray(a)
        for i in bad:
            b[i] = rng.choice([x for x in range(128, 194) if x != b[i]])
        out.append(bytes(b))
        b = bytearray(a); b[bad[-1]] = 0xff if b[bad[-1]] != 0xff else 0xfe; out.append(bytes(b))
    # equal when written without leading zeros: the same digits cut elsewhere
    ds = ['%x' % x for x in a]
    for i in range(n - 1):
        for p, q in ((ds[i], ds[i + 1]),):
            t = p + q
            for k in (1, 2):
                if len(t) - k in (1, 2) and t[:k] != p:
                    b = bytearray(a); b[i], b[i + 1] = int(t[:k], 16), int(t[k:], 16); out.append(bytes(b))
    ds = ['%d' % x for x in a]
    for i in range(n - 1):
        t = ds[i] + ds[i + 1]
        for k in (1, 2, 3):
            if 1 <= len(t) - k <= 3 and t[:k] != ds[i] and int(t[:k]) < 256 and int(t[k:]) < 256 and str(int(t[:k])) == t[:k] and str(int(t[k:])) == t[k:]:
                b = bytearray(a); b[i], b[i + 1] = int(t[:k]), int(t[k:]); out.append(bytes(b))
    seen, r = {a}, []
    for x in out:
        if len(x) == n and x not in seen:
            seen.add(x)
            r.append(x)
    return r

IDS = [b'\x01\x12\x03\x45\x00\x10\x0a\xbc', b'\x12' * 8, b'KeyIdent', b'key\0ident'[:8], b'\xff\xfe\xfd\xfc\x80\x81\xc0\xc1', b'\0' * 7 + b'\1', b'\1' + b'\0' * 7, b'\x0b\x0c 1234\n', b'abcdabcd', b'\x80' * 8]

COMMENTS = ['', 'timestamp:0', 'timestamp:1', 'timestamp:1700000000', 'timestamp:1700000000\tfile:x.tar.gz\thashed', 'timestamp:1\tfile:\tprehashed', 'timestamp:', 'timestamp:-1', 'timestamp:x',
            'file:x', 'trusted comment: x', 'trusted comment: timestamp:1', 'untrusted comment: x', 'signature from minisign', 'signature from minisign secret key', 'signature from rsign secret key',
            'comment', 'hashed', 'prehashed', '0', 'none', 'null', 'x' * 1024, 'y' * 4096, ' ', '  x', 'x  ', '\t', 'Ed', 'ED', 'B2', '\u4e2d\u6587', '-', '*', 'test', 'minisign', 'trusted', 'ok', 'v1', '#', '!', 'AAAA', '=']

def verify_cases(w, rng, deep, internals):
    """(command, (expected verdict, data, flags))"""
    out = []
    def case(pk, b, data, flags, chunks='-', form='b', fail='', tsig=None, none=''):
        bb = b['alg'] + b['kn'] + b['sig']
        legacy = 'l' in flags
        if form == 'b':
            arg = 'b:' + hx(text(b))
            ok = expected(pk, b, data, legacy)
        elif form == 'n':
            arg = 'n:' + hx(bb)
            ok = expected(pk, b, data, legacy, tg=False)
        elif form == 's':
            arg = 's:' + hx(text(b))
            ok = expected(pk, b, data, legacy, tg=False)
        else:
            m = b['sig'] + b['t'].encode() if tsig is None else tsig
            arg = 'p:%s:%s:%s' % (hx(text(b)), '-' if 't' in none else hx(m), '-' if 'g' in none else hx(b['g']))
            if none == '':
                ok = expected(pk, b, data, legacy, tsig=m)
            elif none == 'tg':
                ok = expected(pk, b, data, legacy, tg=False)
            else:
                ok = False
        out.append(('verify %s %s %s %s%s %s' % (hx(pk), arg, hx(data), chunks, fail, flags or '-'), (ok, data, flags, fail)))
    pk = w.pk()
    ds = datas(rng, deep)
    # valid ones, all routes, chunkings and flags
    for k, d in enumerate(ds):
        pre = k % 3 != 2
        b = w.box(d, pre=pre, t=rng.choice(['', 'timestamp:1', 'x' * 300, '  spaces ', 'e\u0301\u4e2d', '\ttab']), u=rng.choice(['', 'u', ' lead']))
        for form in 'bns':
            case(pk, b, d, rng.choice(FLAGS), rng.choice(CHUNKS), form)
        if k < 10:
            for f in FLAGS:
                case(pk, b, d, f, rng.choice(CHUNKS), rng.choice('bns'))
    # read and seek failures
    for f in ('!0', '!5', '!100', '!seek') + tuple('!%d:%s' % (n, k) for n in (0, 64, 120) for k in 'eiwtpdncfa'):
        for pre in (True, False):
            d = rng.randbytes(120)
            b = w.box(d, pre)
            case(pk, b, d, 'ol', rng.choice(CHUNKS), 'b', f)
            case(pk, b, d, 'l', rng.choice(CHUNKS), 'b', f)
            case(pk, b, d + b'x', 'ol', rng.choice(CHUNKS), 'b', f)
            if f != '!seek':
                # a signature over the prefix that can be read must not be accepted for the whole
                n = int(f[1:].split(':')[0])
                case(pk, w.box(d[:n], pre), d, 'ol', rng.choice(CHUNKS), 'b', f)
    # special characters in the trusted comment, and changes next to them
    for k, t in enumerate(comments(deep)):
        b = w.box(b'data', k % 4 != 3, t=t)
        fl = 'l' + rng.choice(['', 'q', 'o', 'qo'])
        case(pk, b, b'data', fl)
        alts = {t + 'x', t + t[-1:], t[:-1], t[1:], 'x' + t, t[:-1] + 'x', 'x' + t[1:], t.replace('left', 'lift'), t.replace('right', 'light'), t.strip(), t.strip('\0'), t.lower(), t.upper(), t.split('\0')[0]}
        for t2 in sorted(alts - {t}) if deep > 1 else rng.sample(sorted(alts - {t}), min(3, len(alts - {t}))) + [t + 'x']:
            if not t2.endswith('\r'):
                case(pk, dict(b, t=t2), b'data', fl)
    # comments that look like others, under global signatures that are not theirs
    for k, t in enumerate(COMMENTS):
        b = w.box(b'data', k % 3 != 2, t=t)
        case(pk, b, b'data', 'l')
        gs = [flip(b['g'], rng), w.sig(b['sig']), w.sig(b['sig'] + b'other'), b['sig'], bytes(64), w.sig(b['sig'] + t.encode(), 1), flip(b['g'], rng, 0), flip(b['g'], rng, 63)]
        if t:
            gs += [w.sig(t.encode()), w.sig(b['sig'] + t.encode()[:-1]), w.sig(b['sig'] + t.encode()[1:]), w.sig(b['sig'] + t.split('\t')[0].encode() + b'\t')]
        for g in gs:
            if g != b['g']:
                case(pk, dict(b, g=g), b'data', 'l' + rng.choice(['', 'q', 'o', 'qo']))
        o = w.box(b'data', k % 3 != 2, t=rng.choice([x for x in COMMENTS if x != t]))
        case(pk, dict(b, t=o['t']), b'data', 'l')
    # long comments of characters of several bytes, shown to the user
    for n in (20, 40, 64, 80, 100, 128, 200, 255, 256, 400, 500, 512, 1000, 1024, 4096, 8192, 70000) if deep > 1 else (20, 64, 100, 200, 256, 500, 1024, 4096, 8192):
        for lead in ('', 'a', 'ab', 'abc'):
            t = lead + rng.choice(['\u4e2d', '\u00e9', '\U0001f600']) * n
            b = w.box(b'data', n % 5 != 0, t=t, u=t if n & 3 else 'u')
            case(pk, b, b'data', 'l' + rng.choice(['', 'o']), '-', 'b')
            case(pk, dict(b, t=t + 'x'), b'data', 'l', '-', 'b')
    for kn in IDS + [rng.randbytes(8) for _ in range(2 * deep)]:
        b = w.box(b'id', rng.random() < .7)
        b['kn'] = kn
        p = pk[:2] + kn + pk[10:]
        case(p, b, b'id', 'l', '-', rng.choice('bns'))
        tw = twins(kn, rng)
        for k2 in tw if deep > 1 else rng.sample(tw, min(40, len(tw))):
            case(p[:2] + k2 + p[10:], b, b'id', 'l', '-', rng.choice('bns'))
            if deep > 1:
                case(p, dict(b, kn=k2), b'id', 'l', '-', rng.choice('bns'))
    # boxes in memory: the trusted comment signed is the text as it is
    if internals:
        for k, c in enumerate(CHARS + ['\r\n', '\n', ' \n', '\n\n', 'x\r']):
            for t in ('left' + c, c + 'right', c, 'a' + c + 'b'):
                b = w.box(b'mem', True, t='x')
                m = b['sig'] + t.encode()
                case(pk, dict(b, g=w.sig(m)), b'mem', 'l', '-', 'p', tsig=m)
                for t2 in {t.strip(), t.rstrip(), t.lstrip(), t.rstrip('\r'), t.strip('\0'), t.rstrip('\n'), t.rstrip('\r\n'), t + '\n', t + '\0'} - {t}:
                    case(pk, dict(b, g=w.sig(b['sig'] + t2.encode())), b'mem', 'l', '-', 'p', tsig=m)
    for k, d in enumerate(contents(rng, deep)):
        for pre in (True, False):
            b = w.box(d, pre)
            case(pk, b, d, 'lo' if k % 2 else 'lqo', rng.choice(CHUNKS), 'bns'[k % 3])
            for d2 in (d.strip(), d + b'\0', d + d[-1:], d[:-1]):
                if d2 != d:
                    case(pk, b, d2, 'l', '-', 'bns'[k % 3])
    # one thing wrong
    for rnd in range(3 * deep):
        d = rng.choice(ds[:18])
        for pre in (True, False):
            t = rng.choice(['', 'timestamp:1', 'comment'])
            mk = lambda: w.box(d, pre, t=t)
            for k in range(8):
                b = mk() if rnd == 0 and pre and k == 0 else dict(base) if k else mk()
                base = dict(b)
                b['kn'] = flip(b['kn'], rng, k)
                case(pk, b, d, rng.choice(FLAGS), '-', rng.choice('bns'))
            b = mk(); case(w.pk(1), b, d, 'l')
            p2 = pk[:2] + pk[2:10] + w.pk(1)[10:]
            case(p2, b, d, 'ql', '-', rng.choice('bns'))
            for flags in FLAGS:
                b2 = dict(b, alg=b'Ed' if pre else b'ED')
                case(pk, b2, d, flags, '-', rng.choice('bns'))
            # message variations
            for d2 in (d + b'\0', d[:-1], flip(d, rng) if d else b'1', b'', d + d, flip(d, rng, len(d) - 1) if d else b'2', flip(d, rng, 0) if d else b'3'):
                case(pk, b, d2, rng.choice(FLAGS), rng.choice(CHUNKS), rng.choice('bns'))
            # signature over the other form of the message
            b2 = w.box(d, pre); b2['sig'] = w.sig(d if pre else R.blake2b(d)); w.regl(b2)
            for flags in ('', 'l', 'qol'):
                case(pk, b2, d, flags, '-', rng.choice('bns'))
            # main signature
            for k in (0, 31, 32, 63, rng.randrange(64)):
                b2 = dict(b); b2['sig'] = flip(b['sig'], rng, k)
                case(pk, b2, d, rng.choice(FLAGS) + 'l', '-', 'n')
                w.regl(b2)
                case(pk, b2, d, rng.choice(FLAGS) + 'l')
            S = int.from_bytes(b['sig'][32:], 'little') + R.L
            if S < 1 << 256:
                b2 = dict(b); b2['sig'] = b['sig'][:32] + S.to_bytes(32, 'little'); w.regl(b2)
                case(pk, b2, d, rng.choice(FLAGS) + 'l')
                case(pk, b2, d, 'l', '-', 'n')
            b2 = dict(b); b2['sig'] = bytes(64); w.regl(b2); case(pk, b2, d, 'l')
            b2 = dict(b); b2['sig'] = w.sig(R.blake2b(d) if pre else d, 1); w.regl(b2); case(pk, b2, d, 'l')
            # comment and global signature
            for t2 in (t + ' ', t + 'x', ' ' + t, t[:-1], 'other', t.upper() + '!'):
                if t2 != t:
                    case(pk, dict(b, t=t2), d, rng.choice(FLAGS) + 'l')
            for k in (0, 31, 32, 63, rng.randrange(64)):
                case(pk, dict(b, g=flip(b['g'], rng, k)), d, rng.choice(FLAGS) + 'l')
            for g in (b'', b['g'][:63], b['g'] + b'\0', b['g'][:32], b['sig'], bytes(64), bytes(65), b['g'] * 2):
                case(pk, dict(b, g=g), d, rng.choice(FLAGS) + 'l')
            S = int.from_bytes(b['g'][32:], 'little') + R.L
            if S < 1 << 256:
                case(pk, dict(b, g=b['g'][:32] + S.to_bytes(32, 'little')), d, 'l')
            for m, i in ((b['sig'], 0), (t.encode(), 0), (b['sig'] + t.encode(), 1), (t.encode() + b['sig'], 0), (b['sig'][:63] + t.encode(), 0),
                         (R.blake2b(b['sig'] + t.encode()), 0), (b['alg'] + b['kn'] + b['sig'] + t.encode(), 0), (b['sig'] + t.encode() + b'\n', 0)):
                if m == b['sig'] + t.encode() and i == 0:
                    continue
                b2 = dict(b); w.regl(b2, m, i)
                case(pk, b2, d, rng.choice(FLAGS) + 'l')
            # global signature lifted from another box of the same key
            o = w.box(d + b'o', pre, t=t)
            case(pk, dict(b, g=o['g']), d, 'l')
            case(pk, dict(b, g=o['g'], t=o['t'], sig=o['sig']), d, 'l')
            if internals:
                for none in ('', 't', 'g', 'tg'):
                    for f in FLAGS:
                        case(pk, b, d, f, '-', 'p', none=none)
                case(pk, dict(b, sig=flip(b['sig'], rng)), d, 'l', '-', 'p', none='tg')
    return out

def huge_cases(w, rng, lens):
    """long data (zeros behind a few bytes), and signatures over what precedes a likely limit"""
    pk = w.pk()
    for n in lens:
        head = rng.randbytes(8)
        cut = {n - 1, n - 2, n // 2} | {1 << k for k in range(16, 40) if (1 << k) < n}
        for pre in (True, False):
            if not pre and n > 1 << 26:
                continue
            d = head + bytes(n - 8)
            b = w.box(d, pre)
            yield ('verify %s b:%s %sz%d %s lq' % (hx(pk), hx(text(b)), hx(head), n - 8, '-' if n > 1 << 24 else rng.choice(['-', '65536', '1000000'])), (True, b'', 'lq', ''))
            for m in sorted(cut, reverse=True)[:6]:
                b = w.box(d[:m], pre)
                yield ('verify %s b:%s %sz%d - lq' % (hx(pk), hx(text(b)), hx(head), n - 8), (False, b'', 'lq', ''))
            del d

def hint_lens(hints, most):
    """lengths of data suggested by refuted obligations"""
    out = set()
    for h in hints:
        for k, v in (h.get('model') or {}).items():
            if k.startswith('len(data') and isinstance(v, int) and 1 << 16 < v <= most:
                out.add(v)
    return sorted(out)[:4]

def judge(prop):
    def j(c, x, tok, so):
        ok, data, flags, fail = x
        got = tok[0]
        if got in ('panic', 'crash'):
            return 'verify does not return: %s' % ' '.join(tok)
        readfail = fail not in ('', '!seek') and int(fail[1:].split(':')[0]) <= len(data)
        if ok and fail.endswith(':i') and readfail:
            want = got == 'ok'          # a single interruption may be retried
            readfail = not want
        seekfail = fail == '!seek' and 'o' in flags
        want = ok and not readfail and not seekfail
        if prop == 'C15':
            if so and not (want and 'o' in flags):
                return 'standard output has %d bytes although %s' % (len(so), 'output was not requested' if want else 'verification must fail')
            if got == 'ok' and 'o' in flags and so != data:
                return 'standard output has %d bytes, not the %d bytes of data' % (len(so), len(data))
            return None
        if prop == 'C12':
            return None
        if got != ('ok' if want else 'err'):
            return 'verdict %s, expected %s' % (got, 'ok' if want else 'err')
        return None
    return j

def search_verify(real, rng, deep, prop, hints=()):
    se = Search(real)
    w = World(rng)
    v = se.run(verify_cases(w, rng, deep, real.internals), judge(prop))
    if v is None and prop == 'C01':
        lens = [(1 << 20) + 5] if deep == 1 else [(1 << 20) + 5, (1 << 24) + 5, (1 << 26) + 5] + hint_lens(hints, 1 << 28)
        for n in lens:
            v = v or se.run(huge_cases(w, rng, [n]), judge(prop))
    if v is None and prop == 'C15' and os.path.exists('/dev/full'):
        # standard output that takes nothing
        for k, d in enumerate([b'x', b'data\n', b'line\nrest', rng.randbytes(1000), b'a' * 1024, rng.randbytes(5000), rng.randbytes(70000)]):
            b = w.box(d, k % 3 != 2)
            c = 'verify %s %s %s - %s' % (hx(w.pk()), ('b:' + hx(text(b))) if k % 2 else 'n:' + hx(b['alg'] + b['kn'] + b['sig']), hx(d), ('ol', 'qol')[k % 2])
            t = real.alone(c, '/dev/full')
            se.n += 1
            if t[0] != 'err':
                return dict(command=c, answer=' '.join(t), stdout='(standard output is /dev/full)', why='success is reported although the data could not be written to standard output'), se.n, se.samples
    return v, se.n, se.samples

def search_prehash(real, rng, deep, hints=()):
    """pre-hashing a reader: read failures of every kind at several places, and deliveries in pieces"""
    se = Search(real)
    w = World(rng)
    cs = []
    for c, x in verify_cases(w, rng, deep, False):
        ok, data, flags, fail = x
        if fail and fail != '!seek' and 'l' in flags and (' b:' in c):
            cs.append((c, x))
            # what was left of an earlier reader must not count
            d = rng.randbytes(rng.randrange(200))
            b = w.box(d, rng.random() < .8)
            cs.append(('verify %s b:%s %s %s lq' % (hx(w.pk()), hx(text(b)), hx(d), rng.choice(CHUNKS)), (True, d, 'lq', '')))
    for d in contents(rng, deep) + [bytes(n) for n in (1, 63, 64, 128, 1000, 65536)]:
        b = w.box(d, True)
        for ch in (rng.sample(CHUNKS, 3) if len(d) < 1000 else rng.sample(CHUNKS, 1)):
            cs.append(('verify %s b:%s %s %s lq' % (hx(w.pk()), hx(text(b)), hx(d), ch), (True, d, 'lq', '')))
    v = se.run(cs, judge('C06'))
    for n in [(1 << 20) + 5, (1 << 24) + 5] + hint_lens(hints, 1 << 29) if deep > 1 else []:
        v = v or se.run(huge_cases(w, rng, [n]), judge('C06'))
    return v, se.n, se.samples
