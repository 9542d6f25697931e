"""C11: key derivation cost is bounded and matches the reference parameters."""
from .base import *
from .kit import *
from . import kgen, kit, ref as R
from .real import hx

PARAMS = 'minisign::helpers::raw_scrypt_params'
ENCRYPT = 'minisign::SecretKey::encrypt'
GIB = 1 << 30

def spec(mem, ops):
    """pickparams of the reference, as terms: condition that log2 N = n, and p for that n"""
    o = T.ite(T.le(ops, 32768), 32768, ops)
    fast = T.lt(o, T.div(mem, 32))
    maxn = T.ite(fast, T.div(o, 32), T.div(mem, 1024))
    half = T.div(maxn, 2)
    def isn(n):
        c = []
        if n < 63:
            c.append(T.gt(1 << n, half))
        if n > 1:
            c.append(T.le(1 << (n - 1), half))
        return T.band_(*c) if c else True
    def p(n):
        q = T.div(T.div(o, 4), 1 << n)
        return T.ite(fast, 1, T.div(T.ite(T.le(q, 0x3fffffff), q, 0x3fffffff), 8))
    return isn, p

def parts(v):
    """(log_n, r, p) of a scrypt::Params value"""
    f = [x for x in v]
    return f[0], f[1], f[2]

def t_params(pr):
    """any limits when log2 N is limited to 20; where the caller allows more, up to 1 GiB that makes no difference"""
    params_for(pr, U64, 20)
    for k, n in enumerate(sorted(asked(pr), key=repr)):
        params_for(pr, GIB, n)

def asked(pr):
    """other limits on log2 N with which the caller asks"""
    ex = pr.ex
    pr.get(PARAMS)
    ex.contracts[PARAMS] = params_contract
    try:
        st = State(ex)
        outs = pr.call(ENCRYPT, [build(pr.p, 'minisign::SecretKey', arr_mk('sk.')), kit.string(ex, st, 'pw')], st)
    except (Unsupported, Missing):
        return set()
    finally:
        del ex.contracts[PARAMS]
    return {c[2] for s, v in outs for c in s.g.get('params', ()) if isinstance(c[2], int) and c[2] > 20}

def params_for(pr, most, nmax):
    ex = pr.ex
    mem, ops = T.var('memlimit' if most == U64 else 'memlimit1', 0, most), T.var('opslimit', 0, U64)
    outs = pr.call(PARAMS, [mem, ops, nmax])
    isn, p = spec(mem, ops)
    nok = 0
    for st, v in outs:
        if is_ok(v):
            nok += 1
            names = [n for n, _ in fieldnames(pr.p, 'scrypt::params::Params')]
            d = dict(zip(names, v.f[0]))
            n, r, pp = d['log_n'], d['r'], d['p']
            if not isinstance(n, int):
                n = st.conc(n)
            pr.prove(st, T.eq(r, 8), 'r = 8')
            pr.prove(st, n <= 20, 'N <= 2^20')
            pr.prove(st, isn(n), 'log2 N = %d is the reference value' % n)
            pr.prove(st, T.eq(pp, p(n)), 'p is the reference value (log2 N = %d)' % n)
            pr.prove(st, T.band_(T.le(T.scale(pp, 1024), GIB), T.ge(pp, 1)), '128 r p <= 1 GiB, p >= 1')
        elif is_err(v):
            for n in range(1, 21):
                good = T.band_(isn(n), T.ge(p(n), 1), T.le(T.scale(p(n), 1024), GIB))
                pr.prove(st, T.bnot(good), 'fails only beyond the limits (log2 N = %d)' % n)
        else:
            raise Unsupported('result %r' % (v,))
    pr.rec('some parameters are accepted (vacuity)', 'proved' if nok else 'unknown', 'execution')
    pr.flush()

def params_contract(ex, st, f, a):
    """use of the contract of raw_scrypt_params: an error, or (log_n, 8, p, 32) with r p <= 2^23, determined by the limits"""
    st.g['params'] = st.g.get('params', ()) + (tuple(a),)
    def mk(s, ok):
        if not ok:
            s.g['params_err'] = True
            return s, Err(Abs('kdferr', ()))
        s.g['params_val'] = params_value(ex, a[0], a[1])
        return s, Ok(s.g['params_val'])
    return B.fork_bool(st, params_ok(a[0], a[1]), mk)

def params_ok(mem, ops):
    """are the limits accepted?"""
    if isinstance(mem, int) and isinstance(ops, int):
        return expect(mem, ops) != 'err'
    return T.buf_('params_ok', (mem, ops))

def params_value(ex, mem, ops):
    """scrypt::Params for these limits"""
    if isinstance(mem, int) and isinstance(ops, int):
        n, r, p = R.pickparams(mem, ops)
    else:
        n, p = T.uf('log_n', (mem, ops), 1, 20), T.uf('p', (mem, ops), 1, GIB // 1024)
    d = dict(log_n=n, r=8, p=p, len=32)
    return tuple(d[k] for k, _ in fieldnames(ex.p, 'scrypt::params::Params'))

from ..mv.builtins import Ok, Err

def t_encrypt(pr):
    ex = pr.ex
    ex.contracts[PARAMS] = params_contract
    pr.get(PARAMS)
    st = State(ex)
    sk = build(pr.p, 'minisign::SecretKey', arr_mk('sk.'))
    pw = kit.string(ex, st, 'pw')
    n = ex.srclen('pw', 0, None)
    F = lambda v, p: field(pr.p, 'minisign::SecretKey', v, p)
    mem, ops = le(F(sk, 'kdf_memlimit_le')), le(F(sk, 'kdf_opslimit_le'))
    outs = pr.call(ENCRYPT, [sk, pw], st)
    oks = 0
    for s, v in outs:
        if is_ok(v):
            oks += 1
            pr.prove(s, T.le(mem, GIB), 'memory limit at most 1 GiB when a key is derived')
            ca = s.g.get('params', ())
            pr.prove(s, len(ca) == 1 and T.band_(T.eq(ca[0][0], mem), T.eq(ca[0][1], ops), T.ge(ca[0][2], 20)),
                     'parameters chosen from the limits stored in the key')
            sc = s.g.get('scrypt', ())
            pr.prove(s, len(sc) == 1 and T.band_(req(ex, s, Rope(sc[0][0]), rope('pw', n)), req(ex, s, Rope(sc[0][1]), Rope((('c', F(sk, 'kdf_salt')),))),
                     same(sc[0][2], s.g.get('params_val'))), 'scrypt(password, salt) with exactly those parameters')
            if len(sc) != 1:
                continue
            nm = 'scrypt(%s)' % B.scrypt_name(ex, Rope(sc[0][0]), Rope(sc[0][1]), sc[0][2])
            k = F(v.f[0], 'keynum_sk.keynum') + F(v.f[0], 'keynum_sk.sk') + F(v.f[0], 'keynum_sk.chk')
            k0 = F(sk, 'keynum_sk.keynum') + F(sk, 'keynum_sk.sk') + F(sk, 'keynum_sk.chk')
            pr.prove(s, eqarr(k, tuple(T.b_xor(a, sbyte(nm, i)) for i, a in enumerate(k0))), 'identifier, key and checksum are xored with the stream')
            for x in ('sig_alg', 'kdf_alg', 'chk_alg', 'kdf_salt', 'kdf_opslimit_le', 'kdf_memlimit_le'):
                pr.prove(s, eqarr(F(v.f[0], x), F(sk, x)), '%s unchanged' % x)
        elif is_err(v):
            pr.prove(s, T.bor_(T.gt(mem, GIB), bool(s.g.get('params_err'))), 'fails only when the limits are too high')
    pr.rec('encryption can succeed (vacuity)', 'proved' if oks else 'unknown', 'execution')
    pr.flush()

# ---------------------------------------------------------------------------------------------
def expect(mem, ops):
    n, r, p = R.pickparams(mem, ops)
    if n > 20 or p < 1 or p * r * 128 > GIB:
        return 'err'
    return 'ok %d %d %d' % (n, r, p)

def limits(rng, k):
    out = []
    ops = [0, 1, 32767, 32768, 32769, 1 << 20, (1 << 20) - 1, U64, 1 << 63, 33554432, 1 << 33, (1 << 33) + 5]
    mem = [0, 1, 1023, 1024, 8191, 16384, 33554432, 1 << 20, GIB, GIB - 1, GIB + 1, U64, 1 << 40, 1 << 63]
    for n in range(10, 34):
        for d in (-1, 0, 1):
            ops += [(1 << n) + d, 32 * (1 << n) + d, 3 << n]
            mem += [(1 << n) + d, 3 << n]
    for _ in range(k):
        m = rng.choice(mem) if rng.random() < .5 else rng.getrandbits(rng.randint(1, 64))
        r = rng.random()
        if r < .35:
            o = rng.choice(ops)
        elif r < .6:
            o = max(0, m // 32 + rng.randint(-2, 2))
        elif r < .8:
            # around multiples of 4 2^n 8 (steps of p)
            o = max(0, (1 << rng.randint(10, 34)) * rng.randint(1, 70) * 32 + rng.randint(-1, 1)) & U64
        else:
            o = rng.getrandbits(rng.randint(1, 64))
        out.append((m, o))
    return out

def mkkey(rng, mem, ops, pw, comment='x', kdf=b'Sc', alg=b'Ed', chk=b'B2', salt=None):
    """an encrypted secret key box and the fields inside, made by the reference"""
    seed = rng.randbytes(32)
    pk = R.keypair(seed)
    pk = pk[1] if isinstance(pk, tuple) else pk
    f = [alg, kdf, chk, salt or rng.randbytes(32), ops.to_bytes(8, 'little'), mem.to_bytes(8, 'little'), rng.randbytes(8), seed + pk[-32:], b'']
    f[8] = R.checksum(f)
    e = R.crypt(f, pw)
    return ('untrusted comment: %s\n' % comment + R.b64enc(b''.join(e)).decode() + '\n'), f

class C11(Check):
    id = 'C11'
    assumptions = ['scrypt::scrypt (crate scrypt 0.12) computes RFC 7914 scrypt and its memory use is governed by N, r, p',
                   'usize is 64 bits wide']
    trusted = ['contract of scrypt::scrypt: output is a function of password, salt and parameters only']
    budget = 300

    def tasks(self, prog, tier):
        return [(PARAMS, t_params), (ENCRYPT, t_encrypt)]

    def search(self, real, rng, hints, deep):
        se = Search(real)
        if real.internals:
            pairs = []
            for h in hints:
                m = h.get('model') or {}
                pairs.append((int(m.get('memlimit', 0)), int(m.get('opslimit', 0))))
            pairs += limits(rng, 3000 * deep)
            cases = [('scrypt_params %d %d 20' % (m, o), expect(m, o)) for m, o in pairs]
            v = se.run(cases, lambda c, x, tok, so: None if ' '.join(tok).split(' ')[0] == x == 'err' or ' '.join(tok) == x
                       else 'expected %s' % x)
            if v:
                return v, se.n, se.samples
        # through the public interface: crafted key files
        cases = []
        small = [(16384, 32768), (32768, 65536), (1 << 20, 32768), (1 << 24, 1 << 17), (33554432, 1 << 20), (1 << 18, 1 << 19), (1 << 16, 1 << 19)]
        for i in range(6 * deep + 2):
            mem, ops = small[i % len(small)] if i < len(small) else (rng.randint(10000, 1 << 20), rng.randint(0, 1 << 19))
            pw = rng.choice([b'', b'a', rng.randbytes(8).hex().encode(), b'x' * 70])
            n, r, p = R.pickparams(mem, ops)
            if p < 1:
                continue
            box, f = mkkey(rng, mem, ops, pw)
            cases.append(('sk_from_box %s %s' % (hx(box), hx(pw)), 'ok ' + hx(b''.join(f))))
            bad = bytes(pw) + b'!'
            cases.append(('sk_from_box %s %s' % (hx(box), hx(bad)), 'err'))
        # exactly at the memory bound, and just beyond it with parameters that would be cheap
        for mem, ops in [(GIB, 32768), (GIB - 1, 0), (GIB, 65536), (GIB - 1024, 40000)]:
            box, f = mkkey(rng, mem, ops, b'pw')
            cases.append(('sk_from_box %s %s' % (hx(box), hx(b'pw')), 'ok ' + hx(b''.join(f))))
        # long passwords, special bytes in passwords, special salts
        for pw in (b'x' * 1023 + b'y', b'x' * 1024 + b'y', b'x' * 4096 + b'y', b'a\0b', b'\0', b' pw ', b'pw\n', b'pw\r\n', '\u00e9\u4e2d'.encode(), 'e\u0301'.encode(), b'PW', b'p' * 64, b'p' * 65):
            box, f = mkkey(rng, 16384, 32768, pw)
            cases.append(('sk_from_box %s %s' % (hx(box), hx(pw)), 'ok ' + hx(b''.join(f))))
            for bad in {pw[:-1], pw + b'\0', pw + b' ', pw[1:], pw.strip(), pw.lower(), pw.split(b'\0')[0], pw[:1024], pw[:1023]} - {pw}:
                try:
                    bad.decode()
                except UnicodeDecodeError:
                    continue
                if len(bad) < 64 and len(pw) < 64 and bad.rstrip(b'\0') == pw.rstrip(b'\0'):
                    continue        # HMAC pads its key with zeros
                cases.append(('sk_from_box %s %s' % (hx(box), hx(bad)), 'err'))
        for salt in (bytes(32), b'\xff' * 32, rng.randbytes(31) + b'\0', b'\0' + rng.randbytes(31), rng.randbytes(16) + bytes(16), bytes(16) + rng.randbytes(16)):
            box, f = mkkey(rng, 16384, 32768, b'pw', salt=salt)
            cases.append(('sk_from_box %s %s' % (hx(box), hx(b'pw')), 'ok ' + hx(b''.join(f))))
        for mem, ops in [(GIB + 1, 32768), (GIB + 1024, 65536), (1 << 31, 32768), ((1 << 32) + 16384, 32768), (1 << 40, 40000), (U64, 0)]:
            box, f = mkkey(rng, mem, ops, b'pw')
            cases.append(('sk_from_box %s %s' % (hx(box), hx(b'pw')), 'err'))
        for mem, ops in [(GIB + 1024, 1 << 20), (1 << 40, 1 << 20), (1 << 31, 1 << 25), (U64, U64), (1 << 14, 1 << 63), (1 << 16, 1 << 50),
                         (1 << 10, 32768), (0, 0), ((1 << 32) + 16384, 32768), (33554432, (1 << 40)), (GIB, 1 << 45)]:
            f = [b'Ed', b'Sc', b'B2', rng.randbytes(32), ops.to_bytes(8, 'little'), mem.to_bytes(8, 'little'), rng.randbytes(8),
                 rng.randbytes(64), rng.randbytes(32)]
            n, r, p = R.pickparams(mem, ops)
            if mem > GIB or expect(mem, ops) == 'err':
                box = 'untrusted comment: x\n' + R.b64enc(b''.join(f)).decode()
                cases.append(('sk_from_box %s %s' % (hx(box), hx(b'pw')), 'err'))
        # keys encrypted under other limits than those they store: opened only by code that misreads the stored ones
        for mem, ops in ((16384, 32768), (1 << 16, 40000), (1 << 17, 1 << 16)):
            for j in range(1, 8):
                for m2, o2 in ((mem, ops + (1 << 8 * j)), (mem + (1 << 8 * j), ops), (mem, ops ^ 0x80 << 8 * j), (mem ^ 0x80 << 8 * j, ops), (mem, ops ^ 1 << 8 * j)):
                    a, b = R.pickparams(mem, ops), R.pickparams(m2, o2)
                    if a == b or b[2] >= 1 and expect(m2, o2) != 'err' and m2 <= GIB and (1 << b[0]) * b[2] > 1 << 17:
                        continue
                    box, f = mkkey(rng, mem, ops, b'pw')
                    e = R.crypt(f, b'pw')
                    e[4], e[5] = o2.to_bytes(8, 'little'), m2.to_bytes(8, 'little')
                    cases.append(('sk_from_box %s %s' % (hx('untrusted comment: x\n' + R.b64enc(b''.join(e)).decode()), hx(b'pw')), 'err'))
        if deep > 1:
            # every accepted pair agrees with the reference end to end, at moderate cost
            for _ in range(20 * deep):
                m, o = rng.choice(limits(rng, 40))
                if m > GIB or expect(m, o) == 'err':
                    continue
                n, r, p = R.pickparams(m, o)
                if (1 << n) * p > 1 << 15:
                    continue
                box, f = mkkey(rng, m, o, b'pw')
                cases.append(('sk_from_box %s %s' % (hx(box), hx(b'pw')), 'ok ' + hx(b''.join(f))))
        def judge(c, x, tok, so):
            if x == 'err':
                return None if tok[0] == 'err' else 'expected an error'
            return None if ' '.join(tok).startswith(x) else 'expected %s' % x
        v = se.run(cases, judge) or se.run(kgen.kdf_sequence(rng, deep), kgen.open_judge)
        if v:
            return v, se.n, se.samples
        # limits within the bounds whose derivation takes long: a quick answer is a refusal, or other parameters
        long = [(1 << 20, (1 << 33) + (1 << 31)), (1 << 16, 3 << 32), (1 << 25, 1 << 36), (GIB, 1 << 40)]
        if deep > 1:
            long += [(GIB, 1 << 44), (GIB - 1, (1 << 39) + (1 << 31)), (1 << 22, 0xff << 30), (1 << 24, 0x80 << 30), (1 << 28, 0x818181 << 16)]
            for h in hints:
                m = h.get('model') or {}
                long.append((int(m.get('memlimit', 0)), int(m.get('opslimit', 0))))
        cmds = []
        for mem, ops in long:
            n, r, p = R.pickparams(mem, ops)
            if mem <= GIB and expect(mem, ops) != 'err' and (p << n) * r * 4 >= 1 << 33:
                f = [b'Ed', b'Sc', b'B2', rng.randbytes(32), ops.to_bytes(8, 'little'), mem.to_bytes(8, 'little'), rng.randbytes(8), rng.randbytes(64), rng.randbytes(32)]
                cmds.append('sk_from_box %s %s' % (hx('untrusted comment: x\n' + R.b64enc(b''.join(f)).decode()), hx(b'pw')))
        for c, t in zip(cmds, real.soon(cmds, 1.5)):
            se.n += 1
            if t is not None:
                return dict(command=c, answer=' '.join(t)[:2000], stdout='', why='answered at once, although deriving the key under these limits takes long'), se.n, se.samples
        return v, se.n, se.samples

CHECK = C11
