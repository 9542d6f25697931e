"""Concrete signature texts and bones; judged by the reference parser."""
import base64
from . import ref as R, vgen
from .base import Search
from .real import hx, unhx

def texts(rng, deep):
    """strings around the signature format (as bytes: some are not UTF-8)"""
    b = lambda alg=b'ED', n=74: (alg + rng.randbytes(max(0, n - 2)))[:n]
    e = lambda x: base64.b64encode(x).decode()
    good = ['untrusted comment: signature', e(b()), 'trusted comment: timestamp:1\tfile:x', e(rng.randbytes(64))]
    out = []
    def add(ls, end='\n', sep='\n'):
        out.append(sep.join(ls) + end)
    for alg in (b'ED', b'Ed', b'eD', b'ed', b'EE', b'ee', b'D\0', b'dE', b'DE', b'B2', b'Sc', b'\0\0', b'E\xc4', b'Ec', b'EC', b'EX', b'AD'):
        add([good[0], e(b(alg)), good[2], good[3]])
    for n in (0, 1, 2, 9, 10, 11, 41, 42, 64, 72, 73, 74, 75, 76, 77, 100, 158, 1000):
        add([good[0], e(b(b'ED', n)), good[2], good[3]])
        add([good[0], e(b(b'Ed', n)), good[2], good[3]])
        add(good[:3] + [e(rng.randbytes(n))])
    comments = ['', ' ', 'x', '  two', 'trailing  ', '\ttab', 'a' * 128, 'a' * 1023, 'a' * 1024, 'a' * 1025, 'b' * 5000, 'a' * 8173, 'a' * 8191, 'a' * 8192, 'a' * 8193, 'a' * 10001, 'a' * 65537, 'a' * 200000, '\u4e2d' * 3000,
                'e\u0301', '\u00e9', '\u4e2d\u6587', '\U0001f600', '\x00', 'a\x00b', '\x85', '\u2028', '\x0b', '\x0c', '"quoted"', '\\n', 'untrusted comment: x', 'trusted comment: x',
                'untrusted comment: ', ':', 'a\rb', '\r', 'x\r', '\ufeff', 'timestamp:1234567890\tfile:a\tprehashed', '%s{}', '\x7f', '\u00a0', ' \u00a0', '\u00a0 ']
    for c in comments + vgen.comments(deep):
        add(['untrusted comment: ' + c] + good[1:])
        add(good[:2] + ['trusted comment: ' + c, good[3]])
        add(['untrusted comment: ' + c, good[1], 'trusted comment: ' + c, good[3]])
    prefixes = ['', 'untrusted comment', 'untrusted comment:', 'untrusted comment:x', 'Untrusted comment: x', ' untrusted comment: x', 'untrusted  comment: x', 'trusted comment: x',
                'untrusted comment :x', 'xuntrusted comment: ', 'untrusted comment\u00e9: ', 'untrusted commen\u00e9t: x', 'untrusted comment:\u00e9', 'UNTRUSTED COMMENT: X', '\ufeffuntrusted comment: x', 'comment: x',
                'Trusted comment: x', ' trusted comment: x', 'trusted comment', 'trusted comment:', 'trusted comment:x', 'trusted comment:\u00e9', 'trusted commen\u00e9: x', 'comment: trusted', 'untrusted comment: \u00e9', 'trusted comment: \u00e9',
                'TRUSTED COMMENT: X', 'trusted\u00a0comment: x', 'trusted comment:\tx', 'untrusted comment:\tx', '#', '\u00e9' * 20, '\U0001f600' * 5, 'x' * 17, 'x' * 18, 'x' * 19, 'x' * 20]
    for c in prefixes:
        add([c] + good[1:])
        add(good[:2] + [c, good[3]])
    for k in range(4):
        add(good[:k])
        add(good[:k], end='')
        add(good[:k] + good[k + 1:])
        add(good[:k] + [''] + good[k:])
        add(good[:k] + [''] + good[k + 1:])
        add(good[:k] + [' '] + good[k + 1:])
        for w in ('', ' ', '\t', '  \t', '\r', ' \r', '\u00a0', '\u3000', '\x0b', '\x0c', '\x1c', '\u200b', 'x', '=', '\x00', '\ufeff'):
            for side in (0, 1):
                l = list(good)
                l[k] = w + l[k] if side else l[k] + w
                add(l)
                add(l, end='')
        # swapped lines
        for j in range(k):
            l = list(good)
            l[k], l[j] = l[j], l[k]
            add(l)
    for end in ('', '\n', '\n\n', '\r\n', '\nmore', '\nmore\nand more\n', '\n' + '\n'.join(good), '\r'):
        add(good, end)
        add(good, end, '\r\n')
        add(good, end, '\r')
        add(good, end, '\n\n')
    out.append('')
    out.append('\n')
    out.append('\n\n\n\n')
    out.append('\r\n' * 5)
    out += ['untrusted comment: ' + '\n', '\n'.join(['untrusted comment: ', '', 'trusted comment: ', ''])]
    # base64 variations
    for k in (1, 3):
        s = good[k]
        for v in (s.rstrip('='), s + '=', s + '==', s + 'A', s[:-1], s[1:], s.replace(s[0], '-'), s.replace(s[5], '_'), s[:10] + '\n' + s[10:], s[:10] + ' ' + s[10:],
                  s[:4] + '!' + s[5:], s[:8] + '====' + s[8:], s.swapcase(), s + s, s[:40], s.replace(s[3], '\u00e9'), s + '\u0000', '=' + s, '====', '=', 'A', 'AA', 'AA==', 'AB==', 'AAA=', 'AAB=', s[:12] + '\r' + s[12:]):
            l = list(good)
            l[k] = v
            add(l)
        # non-canonical trailing bits
        raw = b(b'ED', 76) if k == 1 else rng.randbytes(64)
        t = e(raw[:73]) if k == 1 else e(raw)
        al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
        p = t.rstrip('=')
        l = list(good)
        l[k] = p[:-1] + al[al.index(p[-1]) | 1] + '=' * (len(t) - len(p))
        add(l)
    res = [x.encode('utf-8') for x in out]
    # not UTF-8
    g = ('\n'.join(good) + '\n').encode()
    res += [g.replace(b'signature', b'\xff'), g + b'\xc3', g.replace(b'file', b'\xc3\x28')]
    n = 150 * deep
    for _ in range(n):
        x = bytearray(rng.choice(res))
        for _ in range(rng.randrange(1, 4)):
            if not x:
                break
            i = rng.randrange(len(x))
            op = rng.randrange(4)
            if op == 0:
                x[i] = rng.choice(b'\n\r \t=:AEDdtu\x00\x7f')
            elif op == 1:
                del x[i]
            elif op == 2:
                x.insert(i, rng.choice(b'\n\r \t=:A'))
            else:
                x[i] = rng.randrange(128)
        res.append(bytes(x))
    for _ in range(60 * deep):
        # well-formed with random content
        u = ''.join(rng.choice('abc \t\u00e9\u4e2d:=') for _ in range(rng.randrange(40)))
        t = ''.join(rng.choice('abc \t\u00e9\u4e2d:=') for _ in range(rng.randrange(40)))
        res.append(R.make_sig(rng.choice([b'ED', b'Ed']) + rng.randbytes(72 + rng.choice([0, 0, 0, 1, 20])), u, t, rng.randbytes(rng.choice([64, 64, 0, 1, 63, 65]))).encode())
    return res

def answer(spec):
    pre, kn, u, t, bones, g = spec
    return ['ok', '1' if pre else '0', hx(kn), hx(u.encode()), hx(t.encode()), hx(bones)]

def sig_cases(rng, deep, forms=('b', 'file', 's', 'string', 'from')):
    out = []
    for raw in texts(rng, deep):
        try:
            spec = R.parse_sig(raw.decode())
            utf = True
        except UnicodeDecodeError:
            spec, utf = None, False
        if 'file' in forms:
            out.append(('sb_file ' + hx(raw), ('parse', spec)))
        if not utf:
            continue
        if 'b' in forms:
            out.append(('sb b:' + hx(raw), ('parse', spec)))
        if 's' in forms:
            out.append(('sb s:' + hx(raw), ('bones', spec)))
        if 'string' in forms:
            out.append(('sb_string b:' + hx(raw), ('string', spec)))
        if 'from' in forms and spec is not None:
            out.append(('sb_from ' + hx(raw), ('parse', spec)))
    for alg in (b'ED', b'Ed', b'eD', b'XX', b'\0\0', b'Dd', b'EE'):
        for n in list(range(0, 12)) + [63, 64, 72, 73, 74, 75, 80, 150, 1000]:
            x = (alg + rng.randbytes(max(0, n - 2)))[:n]
            ok = n >= 74 and alg in (b'ED', b'Ed')
            out.append(('bones ' + hx(x), ('rawbones', x if ok else None)))
            out.append(('sb n:' + hx(x), ('nbones', x if ok else None)))
    # algorithms near the known ones
    near = {b'ed', b'de', b'DE', b'dE', b'E\0', b'\0d', b'\0D', b'd\0', b'B2', b'Sc'}
    for a in b'ED', b'Ed':
        for k in range(2):
            for v in range(256) if deep > 1 else [a[k] ^ 1 << i for i in range(8)]:
                near.add(a[:k] + bytes([v]) + a[k + 1:])
    for a in sorted(near):
        x = a + rng.randbytes(72)
        ok = a in (b'ED', b'Ed')
        t = R.make_sig(x, 'u', 't', rng.randbytes(64))
        if 'b' in forms:
            out.append(('sb b:' + hx(t), ('parse', R.parse_sig(t))))
        if 's' in forms:
            out.append(('sb s:' + hx(t), ('bones', R.parse_sig(t))))
        out.append(('bones ' + hx(x), ('rawbones', x if ok else None)))
        out.append(('sb n:' + hx(x), ('nbones', x if ok else None)))
    return out

def judge(c, ctx, tok, so):
    kind, spec = ctx
    if tok[0] in ('panic', 'crash') or tok[0] not in ('ok', 'err'):
        return 'panic: %s' % ' '.join(tok)[:200]
    if spec is None:
        return None if tok[0] == 'err' else 'accepted, but it is not a well-formed signature'
    if tok[0] == 'err':
        if kind == 'string':
            return 'well-formed signature refused'
        return 'well-formed signature refused'
    if kind == 'parse':
        if tok != answer(spec):
            return 'expected %s' % ' '.join(answer(spec))[:400]
    elif kind == 'bones':
        w = ['ok', '1' if spec[0] else '0', hx(spec[1]), hx(b''), 'err', hx(spec[4])]
        if tok != w:
            return 'box -> bones -> box: expected %s' % ' '.join(w)[:400]
    elif kind == 'nbones':
        w = ['ok', '1' if spec[:2] == b'ED' else '0', hx(spec[2:10]), hx(b''), 'err', hx(spec[:74])]
        if tok != w:
            return 'bones -> box: expected %s' % ' '.join(w)[:400]
    elif kind == 'rawbones':
        w = ['ok', '1' if spec[:2] == b'ED' else '0', hx(spec[:74])]
        if tok != w:
            return 'expected %s' % ' '.join(w)[:400]
    elif kind == 'string':
        pre, kn, u, t, bones, g = spec
        w = hx(R.make_sig(bones, u, t, g).encode())
        if tok != ['ok', w, w, w]:
            return 'written as something else than its own text form'
    return None

def search_parse(real, rng, deep):
    s = Search(real)
    v = s.run(sig_cases(rng, deep), judge)
    return v, s.n, s.samples

# ---------------------------------------------------------------------------------------------
COMMENTS = ['', ' ', 'x', '  two  ', 'trailing ', '\ttab\t', 'a' * 127, 'a' * 1024, 'b' * 1025, 'c' * 8173, 'd' * 20000, 'e' * 65537, '\u00e9', '\u4e2d\u6587', '\U0001f600', '\x00', 'a\x00b', '\x0b', '\x85', '\u2028', '\u00a0',
            'untrusted comment: x', 'trusted comment: x', '{}', '%s', '\\n', 'timestamp:0', 'a\rb', '\rx', '\ufeff', '=', 'timestamp:1\tfile:x\tprehashed']
# note: no line feeds, and no carriage return at the end of the comment

def sign_keys(rng, n):
    out = []
    for i in range(n):
        seed = [bytes(32), b'\xff' * 32, bytes(range(32))][i] if i < 3 and n > 3 else rng.randbytes(32)
        kn = [bytes(8), b'\xff' * 8][i] if i < 2 and n > 3 else rng.randbytes(8)
        sk, pk = R.keypair(seed)
        f = [b'Ed', rng.choice([b'\0\0', b'Sc']), b'B2', rng.randbytes(32), rng.randbytes(8), rng.randbytes(8), kn, sk, b'']
        f[8] = R.checksum(f)
        out.append((b''.join(f), b'Ed' + kn + pk))
    return out

def sign_cases(rng, deep):
    out = []
    keys = sign_keys(rng, 6 + 2 * deep)
    lens = [0, 1, 2, 63, 64, 65, 111, 112, 127, 128, 129, 130, 255, 256, 257, 383, 384, 385, 511, 512, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000,
            65535, 65536, 65537, 65664, 65665, 100000, 131072, 131073, 200001]
    chunks = ['-', '1', '7', '64', '127', '128', '129', '128,1', '1,128', '0', '3,5,200', '4096', '65536', '65535,2', '100,28', '127,1,127']
    datas = [rng.randbytes(n) for n in lens] + [bytes(128), bytes(1000), b'\n' * 5, b'\xff' * 300]
    for i, d in enumerate(datas):
        for ch in rng.sample(chunks, 2 if len(d) > 30000 else 3):
            if len(d) > 10000 and ch == '1':
                ch = '-'
            sk, pk = rng.choice(keys)
            t, u = rng.choice(COMMENTS + [None]), rng.choice(COMMENTS + [None])
            out.append(('signverify %s %s %s %s %s %s -' % (hx(pk), hx(sk), hx(d), ch, hx(t), hx(u)), (pk, d, t, u)))
    for c in COMMENTS:
        sk, pk = rng.choice(keys)
        d = rng.randbytes(rng.randrange(200))
        for t, u in ((c, 'u'), ('t', c), (c, c), (c, None), (None, c)):
            out.append(('signverify %s %s %s - %s %s -' % (hx(pk), hx(sk), hx(d), hx(t), hx(u)), (pk, d, t, u)))
    for c in vgen.comments(deep):
        sk, pk = rng.choice(keys)
        t, u = rng.choice(((c, 'u'), ('t', c), (c, c)))
        out.append(('signverify %s %s %s - %s %s -' % (hx(pk), hx(sk), hx(b'data'), hx(t), hx(u)), (pk, b'data', t, u)))
    for sk, pk in keys:
        for _ in range(6 * deep):
            d = rng.randbytes(rng.randrange(600))
            out.append(('signverify %s %s %s - %s %s -' % (hx(pk), hx(sk), hx(d), hx(rng.choice(COMMENTS[:20])), hx('u')), (pk, d, None, 'u')))
            if rng.random() < .5:
                c, x = out.pop()
                a = c.split(' ')
                out.append((c, (pk, d, unhx(a[5]).decode(), 'u')))
            else:
                c, x = out.pop()
                a = c.split(' ')
                a[5] = '-'
                out.append((' '.join(a), x))
    # noise: scripted
    for z in (bytes(64), b'\xff' * 64, rng.randbytes(64)):
        sk, pk = rng.choice(keys)
        out.append(('signverify %s %s %s - %s %s %s,%s' % (hx(pk), hx(sk), hx(b'data'), hx('t'), hx('u'), hx(z), hx(z)), (pk, b'data', 't', 'u')))
    return out

def box_problem(b, pk, d, t, u):
    """b: tokens of sbd after ok"""
    pre, kn, ub, tb, bones = b
    if pre != '1' or unhx(bones)[:2] != b'ED':
        return 'not marked pre-hashed'
    if unhx(kn) != pk[2:10] or unhx(bones)[2:10] != pk[2:10]:
        return 'not the identifier of the secret key'
    if u is not None and unhx(ub) != u.encode():
        return 'not the untrusted comment given'
    if tb == 'err' or t is not None and unhx(tb) != t.encode():
        return 'not the trusted comment given'
    if not R.verify(R.blake2b(d), pk[10:], unhx(bones)[10:]):
        return 'the signature is not valid for the data'
    return None

def sv_judge(c, x, tok, so):
    pk, d, t, u = x
    s = ' '.join(tok).split(' | ')
    if tok[0] != 'ok' or len(s) != 3:
        return 'no signature: %s' % ' '.join(tok)[:200]
    for v, w in zip(s[0].split(' ')[1:], ('in memory', 'as bones', 'as text')):
        if v != '1':
            return 'the new signature is not accepted %s' % w
    if s[1] != s[2]:
        return 'another box after storing as text'
    return box_problem(s[1].split(' ')[1:], pk, d, t, u)

def sign_text_judge(c, x, tok, so):
    """answers of `sign`: box and text"""
    if x[0] == 'may' and tok[0] == 'err':
        return None
    if x[0] == 'err':
        return None if tok[0] == 'err' else 'a signature is returned although %s' % x[1]
    _, pk, d, t, u = x
    if tok[0] != 'ok':
        return 'no signature: %s' % ' '.join(tok)[:200]
    w = box_problem(tok[1:6], pk, d, t, u)
    if w:
        return w
    spec = R.parse_sig(unhx(tok[6]).decode())
    if spec is None:
        return 'the text form is malformed'
    pre, kn, uu, tt, bones, g = spec
    if bones != unhx(tok[5]) or u is not None and uu != u or t is not None and tt != t:
        return 'the text form is another signature'
    if not R.full_verify(pk, (pre, kn, bones, tt.encode(), g), d, False):
        return 'the reference does not accept the text form'
    return None

def search_sign(real, rng, deep):
    s = Search(real)
    v = s.run(sign_cases(rng, deep), sv_judge)
    if v:
        return v, s.n, s.samples
    cases = []
    keys = sign_keys(rng, 8)
    for i, (sk, pk) in enumerate(keys):
        for k in range(4 * deep):
            d = rng.randbytes(rng.choice([0, 1, 64, 128, 129, 500, 70000]))
            t, u = rng.choice(COMMENTS + [None]), rng.choice(COMMENTS + [None])
            for p in (None, pk):
                cases.append(('sign %s %s %s - %s %s -' % (hx(p), hx(sk), hx(d), hx(t), hx(u)), ('ok', pk, d, t, u)))
            other = keys[(i + 1) % len(keys)][1]
            mixed = pk[:10] + other[10:]
            flip = bytearray(pk)
            flip[rng.randrange(10, 42)] ^= 1 << rng.randrange(8)
            # the right key under another identifier or algorithm
            for p in (pk[:2] + rng.randbytes(8) + pk[10:], vgen.flip(pk[:10], rng) + pk[10:], b'ED' + pk[2:], pk[:2] + other[2:10] + pk[10:]):
                cases.append(('sign %s %s %s - %s %s -' % (hx(p), hx(sk), hx(d), hx(t), hx(u)), ('may', pk, d, t, u)))
            for p in (other, mixed, bytes(flip), pk[:10] + bytes(32), pk[:10] + b'\x01' + bytes(31), pk[:41] + bytes([pk[41] ^ 128])):
                cases.append(('sign %s %s %s - %s %s -' % (hx(p), hx(sk), hx(d), hx(t), hx(u)), ('err', 'the public key does not validate it')))
            # secret key whose stored public half is not its own: signatures do not validate under anything given
            bad = sk[:94] + other[10:] + sk[126:]
            cases.append(('sign %s %s %s - %s %s -' % (hx(pk), hx(bad), hx(d), hx(t), hx(u)), ('err', 'the public key does not validate it')))
            cases.append(('sign %s %s %s - %s %s -' % (hx(other), hx(bad), hx(d), hx(t), hx(u)), ('err', 'the public key does not validate it')))
        cases.append(('sign - %s %s 50!100 %s %s -' % (hx(sk), hx(rng.randbytes(300)), hx('t'), hx('u')), ('err', 'the data could not be read')))
        for k in 'ewtpdncfa':
            n = rng.choice((0, 1, 64, 150))
            cases.append(('sign - %s %s %s!%d:%s %s %s -' % (hx(sk), hx(rng.randbytes(150)), rng.choice(['-', '7', '128']), n, k, hx('t'), hx('u')), ('err', 'the data could not be read')))
        cases.append(('sign - %s %s -!0 %s %s -' % (hx(sk), hx(b''), hx('t'), hx('u')), ('err', 'the data could not be read')))
        cases.append(('sign - %s %s - %s %s !' % (hx(sk), hx(b'abc'), hx('t'), hx('u')), ('err', 'there is no randomness')))
    # what was left of a reader or random source that failed must not count
    more = []
    for c, x in cases:
        more.append((c, x))
        if x[0] == 'err' and 'public key' not in x[1]:
            sk, pk = rng.choice(keys)
            d = rng.randbytes(rng.randrange(200))
            more.append(('sign - %s %s %s %s %s -' % (hx(sk), hx(d), rng.choice(['-', '7', '128']), hx('t'), hx('u')), ('ok', pk, d, 't', 'u')))
    v = s.run(more, sign_text_judge)
    return v, s.n, s.samples
