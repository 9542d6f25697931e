"""Contracts of ed25519::verify, keypair and signature over the contracts of the hash, scalar and group layers.
Group elements are ghost integer combinations of generators: the base point 'B' and the negated decoded points."""
from .base import *
from .kit import *
from . import kit, glue, sc
from .pt import P2, P3, P2_BYTES, P3_BYTES, DECODE
from .fe import M
from . import ref as R

ED = glue.ED
SH = 'minisign::crypto::sha512::Hash'
DOUBLE, BASE = P2 + '::double_scalarmult_vartime', M + 'ge_scalarmult_base'
L = R.L

def bkey(ex, st, bs):
    return B.key(canon(ex, st, rope_of(tuple(bs))))

# ------------------------------------------------------------------ SHA-512 (proved in C07)
def sha(ex, st, r):
    return barr(glue.cname(ex, 'sha512_', (B.key(canon(ex, st, r)),)), 64)

def _h(ex, st, p):
    v = ex.load(st, p.obj, p.path) if isinstance(p, Ptr) else p
    if not (isinstance(v, Abs) and v.kind == 'sha512'):
        raise Unsupported('hasher in an unexpected representation')
    return v

def inp(ex, st, a):
    if isinstance(a, Ptr) and a.meta is not None:
        return ex.slice_rope(st, a)
    if isinstance(a, Ptr):
        return rope_of(ex.load(st, a.obj, a.path))
    return rope_of(a)

def h_sha_new(ex, st, f, a):
    return Abs('sha512', (Rope(()),))

def h_sha_update(ex, st, f, a):
    v = _h(ex, st, a[0])
    ex.store(st, a[0].obj, a[0].path, Abs('sha512', (v.data[0].concat(inp(ex, st, a[1])),)))
    return ()

def h_sha_finalize(ex, st, f, a):
    return sha(ex, st, _h(ex, st, a[0]).data[0])

def h_sha_hash(ex, st, f, a):
    return sha(ex, st, inp(ex, st, a[0]))

# ------------------------------------------------------------------ scalars (proved in C05)
def below(st, bs):
    st.assume(T.lt(kit.le(bs), L))

def modl(ex, st, bs):
    """canonical residue modulo L of the integer the bytes stand for"""
    r = barr(glue.cname(ex, 'modL', (bkey(ex, st, bs),)), 32)
    below(st, r)
    return r

def muladd(ex, st, a, b, c):
    ks = sorted((bkey(ex, st, x) for x in (a, b)), key=repr)
    r = barr(glue.cname(ex, 'muladd', (ks[0], ks[1], bkey(ex, st, c))), 32)
    below(st, r)
    return r

def h_reduce(ex, st, f, a):
    r = ex.slice_rope(st, a[0])
    ex.oblige(st, T.eq(r.length(), 64), 'precondition of sc_reduce: 64 bytes')
    bs = explicit(r, st, 64)
    junk = tuple(ex.fresh('tail%d' % i, 0, 255) for i in range(32))
    ex.write_seq(st, a[0], Rope((('c', modl(ex, st, bs) + junk),)), B.u8id(ex))
    return ()

def h_muladd(ex, st, f, a):
    ops = []
    for p, n in zip(a, ('output', 'first factor', 'second factor', 'summand')):
        r = ex.slice_rope(st, p)
        ex.oblige(st, T.eq(r.length(), 32), 'precondition of sc_muladd: 32 bytes (%s)' % n)
        ops.append(explicit(r, st, 32))
    ex.write_seq(st, a[0], Rope((('c', muladd(ex, st, *ops[1:])),)), B.u8id(ex))
    return ()

def h_check(ex, st, f, a):
    r = ex.slice_rope(st, a[0])
    ex.oblige(st, T.eq(r.length(), 32), 'precondition of check_s_lt_l: 32 bytes')
    return T.ge(kit.le(explicit(r, st, 32)), L)

def identity(bs):
    low = tuple(bs[:31]) + (T.mod(bs[31], 128),)
    return T.bor_(kit.eqarr(low, (1).to_bytes(32, 'little')), kit.eqarr(low, (R.p + 1).to_bytes(32, 'little')))

def h_isid(ex, st, f, a):
    r = ex.slice_rope(st, a[0])
    ex.oblige(st, T.eq(r.length(), 32), 'precondition of is_identity: 32 bytes')
    return identity(explicit(r, st, 32))

# ------------------------------------------------------------------ group elements
def combo(d):
    return tuple(sorted((g, c) for g, c in d.items() if not (isinstance(c, int) and c == 0)))

def point(ty, d):
    return Abs('point', (ty.split('::')[-1], combo(d)))

def enc(ex, c):
    """canonical encoding of a group element"""
    n = ex.keynames.get(('encname', c))
    if n is None:
        n = ex.keynames[('encname', c)] = 'enc%d_' % len(ex.keynames)
        B.src(ex, n, origin=('enc', tuple(g for g, _ in c), tuple(k for _, k in c)))
    return barr(n, 32)

def oncurve(ex, st, bs):
    """do the bytes decode to a point?  and the generator that stands for its negative"""
    k = bkey(ex, st, bs)
    return T.buf_('oncurve', (k,)), '-' + glue.cname(ex, 'pt', (k,))

def h_decode(ex, st, f, a):
    r = ex.slice_rope(st, a[0])
    ex.oblige(st, T.eq(r.length(), 32), 'precondition of from_bytes_negate_vartime: 32 bytes')
    ok, g = oncurve(ex, st, explicit(r, st, 32))
    out = []
    for c, v in ((ok, En(1, (point(P3, {g: 1}),))), (T.bnot(ok), En(0, ()))):
        s = st.copy()
        if s.assume(c):
            out.append((s, v))
    return out

def scalar(ex, st, p, name, what, small=True):
    r = ex.slice_rope(st, p)
    ex.oblige(st, T.ge(r.length(), 32), 'precondition of %s: scalar of 32 bytes' % name)
    bs = tuple(kit.canonbyte(ex, b) for b in explicit(rslice(r, 0, 32, st), st, 32))
    v = kit.le(bs)
    if small:
        ex.oblige(st, T.lt(v, 1 << 253), 'precondition of %s: %s below 2^253' % (name, what))
    return v

def h_double(ex, st, f, a):
    x = scalar(ex, st, a[0], 'double_scalarmult_vartime', 'first scalar')
    y = scalar(ex, st, a[2], 'double_scalarmult_vartime', 'second scalar')
    if not (isinstance(a[1], Abs) and a[1].kind == 'point'):
        raise Unsupported('point in an unexpected representation')
    d = {g: T.mul(x, c) for g, c in a[1].data[1]}
    d['B'] = T.add(d.get('B', 0), y)
    return point(P2, d)

def h_base(ex, st, f, a):
    return point(P3, {'B': scalar(ex, st, a[0], 'ge_scalarmult_base', 'scalar', False)})

def h_bytes(ex, st, f, a):
    v = ex.load(st, a[0].obj, a[0].path)
    if not (isinstance(v, Abs) and v.kind == 'point'):
        raise Unsupported('point in an unexpected representation')
    return enc(ex, v.data[1])

def install(pr, but=()):
    ex = pr.ex
    for n, h in ((sc.REDUCE, h_reduce), (sc.MULADD, h_muladd), (sc.CHECK_S, h_check), (sc.IS_ID, h_isid), (DECODE, h_decode),
                 (DOUBLE, h_double), (BASE, h_base), (P2_BYTES, h_bytes), (P3_BYTES, h_bytes), (SH + '::new', h_sha_new), (SH + '::finalize', h_sha_finalize)):
        if n not in but:
            ex.contracts[n] = h
    for n in pr.p.byname:
        for k, h in (('update', h_sha_update), ('hash', h_sha_hash)):
            if n == SH + '::' + k or n.startswith(SH + '::' + k + '::<'):
                ex.contracts[n] = h

# ------------------------------------------------------------------ specifications
def clamp(ex, az):
    """RFC 8032 5.1.5: clear the three low bits and the highest bit, set the second highest"""
    return tuple(kit.canonbyte(ex, b) for b in (T.b_and(az[0], 248),) + tuple(az[1:31]) + (T.b_or(T.b_and(az[31], 63), 64),) + tuple(az[32:]))

def cat(*parts):
    r = Rope(())
    for p in parts:
        r = r.concat(rope_of(p))
    return r

def t_verify(pr):
    ex, st = pr.ex, State(pr.ex)
    install(pr)
    N, n = ex.srclen('msg', 0, None), ex.srclen('sig', 0, None)
    m, sg = rope('msg', N), rope('sig', n)
    pk, sig = barr('pk', 32), barr('sig', 64)
    outs = pr.call(ED + 'verify', [kit.byteslice(ex, st, r) for r in (m, rope('pk', 32), sg)], st)
    seen = set()
    def chk(s, v):
        ok, g = oncurve(ex, s, pk)
        h = modl(ex, s, sha(ex, s, cat(sig[:32], pk, m)))
        e = enc(ex, combo({g: kit.le(h), 'B': kit.le(sig[32:])}))
        want = T.band_(T.eq(n, 64), T.lt(kit.le(sig[32:]), L), T.bnot(identity(pk)), ok, T.bnot(kit.eqarr(pk, (0,) * 32)), kit.eqarr(e, sig[:32]))
        goal = T.iff(v, want) if not isinstance(v, bool) else want if v else T.bnot(want)
        pr.prove(s, goal, 'accepts exactly the valid signatures')
        seen.add(v if isinstance(v, bool) else 'computed')
    pr.each(outs, chk)
    pr.rec('both verdicts occur (vacuity)', 'proved' if len(seen) > 1 or 'computed' in seen else 'unknown', 'execution')
    pr.flush()

def t_keypair(pr):
    ex, st = pr.ex, State(pr.ex)
    install(pr)
    seed = barr('seed', 32)
    outs = pr.call(ED + 'keypair', [kit.byteslice(ex, st, rope('seed', 32))], st)
    def chk(s, v):
        az = clamp(ex, sha(ex, s, rope('seed', 32)))
        pk = enc(ex, combo({'B': kit.le(az[:32])}))
        sk, p = arr(v[0], s, 64), arr(v[1], s, 32)
        pr.prove(s, kit.eqarr(p, pk), 'public key: encoding of the clamped secret scalar times B')
        pr.prove(s, kit.eqarr(sk, seed + pk), 'secret key: seed and public key')
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_sign(noise):
    def t(pr):
        ex, st = pr.ex, State(pr.ex)
        install(pr)
        N, nz = ex.srclen('msg', 0, None), ex.srclen('noise', 0, None)
        m, z = rope('msg', N), rope('noise', nz)
        sk = barr('sk', 64)
        zp = En(1, (kit.byteslice(ex, st, z),)) if noise else En(0, ())
        outs = pr.call(ED + 'signature', [kit.byteslice(ex, st, m), kit.byteslice(ex, st, rope('sk', 64)), zp], st)
        def chk(s, v):
            az = clamp(ex, sha(ex, s, rope('sk', 32)))
            r = modl(ex, s, sha(ex, s, cat(z, az, m) if noise else cat(az[32:], m)))
            e = enc(ex, combo({'B': kit.le(r)}))
            h = modl(ex, s, sha(ex, s, cat(e, sk[32:], m)))
            S = muladd(ex, s, h, az[:32], r)
            got = arr(v, s, 64)
            pr.prove(s, kit.eqarr(got[:32], e), 'R is the encoding of [r]B, r from %s and the message' % ('the noise, the hash of the seed' if noise else 'the second half of the hash of the seed'))
            pr.prove(s, kit.eqarr(got[32:], S), 'S = r + SHA-512(R, key, message) a mod L')
        pr.each(outs, chk)
        pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        pr.flush()
    return t

def t_lemma(pr):
    """a signature of these contracts satisfies the conditions of verify under the key's own public key"""
    r, h, a, q = [pr.ex.fresh(n, 0, None) for n in ('r', 'h', 'a', 'q')]
    S = T.sub(T.add(r, T.mul(h, a)), T.scale(q, L))          # the canonical residue
    d = T.sub(T.sub(S, T.mul(h, a)), r)
    ok, _ = T.congruent(d, 0, L)
    pr.rec('S - h a = r modulo the order of B, so [S]B - [h]A = [r]B for A = [a]B', 'proved' if ok else 'unknown', 'polynomials')
    ms = [m for m in range(0, 9) if 2 ** 254 <= m * L < 2 ** 255 and m * L % 8 == 0]
    pr.rec('a clamped scalar is not a multiple of L, so A is not the identity', 'proved' if not ms else 'refuted', 'evaluation', ms)
    o = R.mul(R.L, R.B)
    pr.rec('B has order L', 'proved' if R.affine(o) == (0, 1) and R.affine(R.B) != (0, 1) else 'refuted', 'evaluation')
    z = R.decode(bytes(32))
    low = R.affine(R.mul(4, z)) == (0, 1) if z else True
    pr.rec('the all-zero encoding is a point of order 4, so not a multiple of B', 'proved' if low else 'refuted', 'evaluation')

def verify_tasks(prog):
    return [(ED + 'verify', t_verify)]

def sign_tasks(prog):
    return [(ED + 'keypair', t_keypair), (ED + 'signature, with noise', t_sign(True)), (ED + 'signature, without noise', t_sign(False)),
            ('signing and verification agree', t_lemma)]
