"""Contracts of the field arithmetic modulo 2^255-19 (radix 2^51)."""
from .base import *
from . import kit
from . import ref as R

M = 'minisign::crypto::curve25519::'
FE = M + 'Fe'
FROM, TO, CARRY, MSET, SQ, SQ2, INV, NZ, NEG, IS_NEG, POW = [FE + '::' + x for x in (
    'from_bytes', 'to_bytes', 'carry', 'maybe_set', 'square', 'square_and_double', 'invert', 'is_nonzero', 'neg', 'is_negative', 'pow25523')]
ADD, SUB, MUL = ['<%s as std::ops::%s>::%s' % (FE, a, b) for a, b in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'))]
P = R.p

# classes of limb vectors
TIGHT = ((1 << 51),) * 5                                        # after carry, square, mul, sub, from_bytes
NEGB = ((1 << 52) - 38,) + ((1 << 52) - 2,) * 4                 # limbs of 2p: what may be subtracted; after neg
LOOSE = ((1 << 54),) * 5                                        # what mul, square, carry accept

def val(l):
    return T.sumt([T.scale(x, 1 << (51 * i)) for i, x in enumerate(l)])

# ------------------------------------------------------------------ ghost values: polynomials over the field
class Poly:
    __slots__ = ('d',)
    def __init__(self, d):
        self.d = d
    @staticmethod
    def const(c):
        c %= P
        return Poly({(): c} if c else {})
    @staticmethod
    def var(n):
        return Poly({((n, 1),): 1})
    def __add__(a, b):
        b = lift(b)
        d = dict(a.d)
        for m, c in b.d.items():
            v = (d.get(m, 0) + c) % P
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)
    def __neg__(a):
        return Poly({m: P - c for m, c in a.d.items()})
    def __sub__(a, b):
        return a + -lift(b)
    def __mul__(a, b):
        b = lift(b)
        d = {}
        for m, c in a.d.items():
            for n, e in b.d.items():
                if m and n:
                    x = dict(m)
                    for v, k in n:
                        x[v] = x.get(v, 0) + k
                    k = tuple(sorted(x.items()))
                else:
                    k = m or n
                v = (d.get(k, 0) + c * e) % P
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
        return Poly(d)
    def __eq__(a, b):
        return isinstance(b, Poly) and a.d == b.d
    def __hash__(a):
        return hash(frozenset(a.d.items()))
    def __pow__(a, n):
        if len(a.d) == 1:
            (m, c), = a.d.items()
            return Poly({tuple((v, k * n) for v, k in m): pow(c, n, P)})
        r = Poly.const(1)
        for _ in range(n):
            r = r * a
        return r
    def __repr__(a):
        return ' + '.join('%s*%s' % (c if c < P // 2 else c - P, '*'.join('%s^%d' % x if x[1] > 1 else x[0] for x in m) or '1') for m, c in list(a.d.items())[:8]) or '0'

def lift(x):
    return x if isinstance(x, Poly) else Poly.const(x)

class Ghosts:
    def __init__(self):
        self.v = {}
        self.n = 0
        self.pred = {}

def G(ex):
    return ex.keynames.setdefault('fe', Ghosts())

def limbs5(v):
    if isinstance(v, Rope):
        v = explicit(v, None, 5)
    if isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], (tuple, Rope)):
        return limbs5(v[0])
    if not (isinstance(v, tuple) and len(v) == 5):
        raise Unsupported('field element %r' % (v,))
    return v

def ghost(ex, v):
    v = limbs5(v)
    if all(isinstance(x, int) for x in v):
        return Poly.const(val(v))
    g = G(ex).v.get(v)
    if g is None:
        raise Unsupported('field element without a known value')
    return g

def concrete(v):
    return all(isinstance(x, int) for x in limbs5(v))

def new(ex, poly, bounds):
    """a field element with the given ghost value and limb bounds"""
    g = G(ex)
    g.n += 1
    v = tuple(ex.fresh('f%d.%d' % (g.n, i), 0, b) for i, b in enumerate(bounds))
    g.v[v] = poly
    return v

def sym(ex, name, bounds):
    return new(ex, Poly.var(name), bounds)

def need(ex, st, v, bounds, what):
    for x, b in zip(limbs5(v), bounds):
        ex.oblige(st, T.le(x, b), 'limb bounds: ' + what)

def deref(ex, st, p):
    return limbs5(ex.load(st, p.obj, p.path))

def his(v):
    return [x if isinstance(x, int) else T.hi(x) for x in limbs5(v)]

# handlers: what callers may assume ---------------------------------------------------
def h_mul(ex, st, f, a):
    if concrete(a[0]) and concrete(a[1]):
        return NotImplemented
    need(ex, st, a[0], LOOSE, 'first factor')
    need(ex, st, a[1], LOOSE, 'second factor')
    return new(ex, ghost(ex, a[0]) * ghost(ex, a[1]), TIGHT)

def h_square(ex, st, f, a):
    v = deref(ex, st, a[0])
    if concrete(v):
        return NotImplemented
    need(ex, st, v, LOOSE, 'argument of square')
    return new(ex, ghost(ex, v) * ghost(ex, v), TIGHT)

def h_square2(ex, st, f, a):
    v = deref(ex, st, a[0])
    if concrete(v):
        return NotImplemented
    need(ex, st, v, LOOSE, 'argument of square_and_double')
    return new(ex, ghost(ex, v) * ghost(ex, v) * 2, [2 * b for b in TIGHT])

def h_add(ex, st, f, a):
    if concrete(a[0]) and concrete(a[1]):
        return NotImplemented
    need(ex, st, a[0], LOOSE, 'first summand')
    need(ex, st, a[1], LOOSE, 'second summand')
    return new(ex, ghost(ex, a[0]) + ghost(ex, a[1]), [x + y for x, y in zip(his(a[0]), his(a[1]))])

def h_sub(ex, st, f, a):
    if concrete(a[0]) and concrete(a[1]):
        return NotImplemented
    need(ex, st, a[0], LOOSE, 'minuend')
    need(ex, st, a[1], NEGB, 'subtrahend')
    return new(ex, ghost(ex, a[0]) - ghost(ex, a[1]), TIGHT)

def h_carry(ex, st, f, a):
    v = deref(ex, st, a[0])
    if concrete(v):
        return NotImplemented
    need(ex, st, v, LOOSE, 'argument of carry')
    return new(ex, ghost(ex, v), TIGHT)

def h_neg(ex, st, f, a):
    v = deref(ex, st, a[0])
    if concrete(v):
        return NotImplemented
    need(ex, st, v, NEGB, 'argument of neg')
    return new(ex, -ghost(ex, v), NEGB)

def h_invert(ex, st, f, a):
    v = deref(ex, st, a[0])
    if concrete(v):
        return NotImplemented
    need(ex, st, v, LOOSE, 'argument of invert')
    return new(ex, power(ex, ghost(ex, v), P - 2), TIGHT)

def power(ex, g, n):
    if len(g.d) <= 1:
        return g ** n
    # opaque power of a sum
    k = G(ex)
    return Poly.var(k.pred.setdefault(('pow', g, n), 'pow%d' % len(k.pred)))

def h_pow(ex, st, f, a):
    v = deref(ex, st, a[0])
    need(ex, st, v, LOOSE, 'argument of pow25523')
    return new(ex, power(ex, ghost(ex, v), (P - 5) // 8), TIGHT)

def pred(ex, kind, g):
    """boolean depending on the value of a field element"""
    if len(g.d) == 0 or set(g.d) == {()}:
        c = g.d.get((), 0)
        return c != 0 if kind == 'nonzero' else c % 2 == 1
    k = G(ex)
    key = (kind, g)
    if key not in k.pred:
        k.pred[key] = T.bvar('%s%d' % (kind, len(k.pred)))
    return k.pred[key]

def h_nz(ex, st, f, a):
    v = deref(ex, st, a[0])
    need(ex, st, v, LOOSE, 'argument of is_nonzero')
    return pred(ex, 'nonzero', ghost(ex, v))

def h_isneg(ex, st, f, a):
    v = deref(ex, st, a[0])
    need(ex, st, v, LOOSE, 'argument of is_negative')
    return pred(ex, 'odd', ghost(ex, v))

def bytes_of(ex, g):
    """the canonical encoding of a value: 32 bytes, below 2^255"""
    k = G(ex)
    key = ('bytes', g)
    if key not in k.pred:
        if len(g.d) == 0 or set(g.d) == {()}:
            k.pred[key] = tuple(g.d.get((), 0).to_bytes(32, 'little'))
        else:
            n = len(k.pred)
            k.pred[key] = tuple(T.var('enc%d.%d' % (n, i), 0, 127 if i == 31 else 255) for i in range(32))
    return k.pred[key]

def h_to(ex, st, f, a):
    v = deref(ex, st, a[0])
    need(ex, st, v, LOOSE, 'argument of to_bytes')
    return bytes_of(ex, ghost(ex, v))

def h_from(ex, st, f, a):
    r = ex.slice_rope(st, a[0])
    ex.oblige(st, T.eq(r.length(), 32), 'Fe::from_bytes: 32 bytes')
    bs = explicit(r, st, 32)
    if all(isinstance(b, int) for b in bs):
        return NotImplemented
    k = G(ex)
    n = k.pred.setdefault(('dec', bs), 'y%d' % len(k.pred))
    return new(ex, Poly.var(n), TIGHT)

HANDLERS = {MUL: h_mul, SQ: h_square, SQ2: h_square2, ADD: h_add, SUB: h_sub, CARRY: h_carry, NEG: h_neg, INV: h_invert, POW: h_pow,
            NZ: h_nz, IS_NEG: h_isneg, TO: h_to, FROM: h_from}

def install(ex, but=()):
    for n, h in HANDLERS.items():
        if n not in but:
            ex.contracts[n] = h

# proofs ------------------------------------------------------------------------------
def byref(n):
    return n not in (ADD, SUB, MUL)

def arith(name, pre, spec, post):
    """limbs within the bounds give no overflow, the exact value modulo p, and limbs within the bounds promised"""
    def t(pr):
        ex, st = pr.ex, State(pr.ex)
        xs = [tuple(ex.fresh('%s%d' % ('xy'[i], j), 0, b) for j, b in enumerate(bs)) for i, bs in enumerate(pre)]
        args = [kit.ref(ex, st, x, FE) if byref(name) else x for x in xs]
        outs = pr.call(name, args, st)
        def chk(s, v):
            v = limbs5(v)
            try:
                ok, rest = T.congruent(val(v), spec(*[val(x) for x in xs]), P)
            except Unsupported:
                ok, rest = None, 'not a polynomial'
            if ok:
                pr.rec('value modulo 2^255-19', 'proved', 'polynomials')
            else:
                value_check(pr, s, v, spec(*[val(x) for x in xs]), xs)
            b = post([list(map(T.hi, x)) for x in xs]) if callable(post) else post
            for x, h in zip(v, b):
                pr.prove(s, T.band_(T.le(0, x), T.le(x, h)), 'limb bounds of the result')
        pr.each(outs, chk)
        pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        pr.flush()
    return t

class Rnd(dict):
    def __missing__(self, k):
        return lambda x: random.randrange(x.lo, x.hi + 1)

def value_check(pr, s, v, want, xs):
    """not equal as polynomials: look for limbs that show it, otherwise leave it open"""
    rng = random.Random(1)
    vs = [x for l in xs for x in l]
    for k in range(400):
        env = {x: rng.choice([0, 1, x.hi, x.hi - 1, (1 << 51) - 1, (1 << 51) - 19, 1 << 50, rng.randrange(x.hi + 1)]) for x in vs}
        try:
            if not all(T.evaluate(c, env) if not isinstance(c, bool) else c for c in s.pc):
                continue
            a, b = T.evaluate(val(v), env) if not isinstance(val(v), int) else val(v), T.evaluate(want, env)
        except Exception:
            break
        if (a - b) % P:
            return pr.rec('value modulo 2^255-19', 'refuted', 'evaluation', 'wrong value', {T.show(x, 2): y for x, y in env.items()})
    return pr.rec('value modulo 2^255-19', 'unknown', '', 'not equal as polynomials')

def t_invert(pr, name=INV, n=P - 2):
    ex, st = pr.ex, State(pr.ex)
    install(ex, but=(name,))
    z = sym(ex, 'z', LOOSE)
    outs = pr.call(name, [kit.ref(ex, st, z, FE)], st)
    def chk(s, v):
        g = ghost(ex, v)
        pr.rec('the power z^%s' % ('(p-2)' if n == P - 2 else '((p-5)/8)'), 'proved' if g == Poly.var('z') ** n else 'refuted', 'polynomials', g)
        for x, h in zip(limbs5(v), TIGHT):
            pr.prove(s, T.le(x, h), 'limb bounds of the result')
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_pow(pr):
    t_invert(pr, POW, (P - 5) // 8)

# fiat helpers: carry and borrow chains
ADDC, SUBB, CMOV = [M + 'fiat_25519_' + x for x in ('addcarryx_u51', 'subborrowx_u51', 'cmovznz_u64')]
M51 = (1 << 51) - 1

def put(ex, st, p, v):
    ex.store(st, p.obj, p.path, v)

def h_addc(ex, st, f, a):
    o, c, ci, x, y = a
    if all(isinstance(z, int) for z in (ci, x, y)):
        return NotImplemented
    ex.oblige(st, T.band_(T.le(ci, 1), T.le(x, M51), T.le(y, M51)), 'carry chain: 51-bit summands')
    r, d = ex.fresh('sum', 0, M51), ex.fresh('carry', 0, 1)
    st.assume(T.eq(T.sub(r, T.sumt([x, y, ci])), T.scale(d, -(1 << 51))))
    put(ex, st, o, r)
    put(ex, st, c, d)
    return ()

def h_subb(ex, st, f, a):
    o, c, ci, x, y = a
    if all(isinstance(z, int) for z in (ci, x, y)):
        return NotImplemented
    ex.oblige(st, T.band_(T.le(ci, 1), T.le(x, M51 + 1), T.le(y, M51), T.lt(T.sub(T.sub(x, y), ci), 1 << 51)), 'borrow chain: 51-bit operands')
    r, d = ex.fresh('diff', 0, M51), ex.fresh('borrow', 0, 1)
    st.assume(T.eq(T.sub(r, T.sub(T.sub(x, y), ci)), T.scale(d, 1 << 51)))
    put(ex, st, o, r)
    put(ex, st, c, d)
    return ()

def h_cmov(ex, st, f, a):
    o, c, x, y = a
    if isinstance(c, int):
        return NotImplemented
    ex.oblige(st, T.le(c, 1), 'conditional move: condition 0 or 1')
    out = []
    for k, v in ((0, x), (1, y)):
        s = st.copy()
        if solver.feasible(s.pc, T.eq(c, k)) and s.assume(T.eq(c, k)):
            put(ex, s, o, v)
            out.append((s, ()))
    return out

def t_addc(pr):
    for ci in (0, 1):
        ex, st = pr.ex, State(pr.ex)
        x, y = ex.fresh('x', 0, M51), ex.fresh('y', 0, M51)
        o, c = kit.ref(ex, st, 0, 'u64'), kit.ref(ex, st, 0, 'u8')
        outs = pr.call(ADDC, [o, c, ci, x, y], st)
        for s, _ in outs:
            r, d = ex.load(s, o.obj, o.path), ex.load(s, c.obj, c.path)
            pr.prove(s, T.band_(T.eq(T.add(r, T.scale(d, 1 << 51)), T.sumt([x, y, ci])), T.le(0, r), T.le(r, M51), T.le(0, d), T.le(d, 1)), 'sum and carry')
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_subb(pr):
    for ci in (0, 1):
        ex, st = pr.ex, State(pr.ex)
        x, y = ex.fresh('x', 0, M51 + 1), ex.fresh('y', 0, M51)
        o, c = kit.ref(ex, st, 0, 'u64'), kit.ref(ex, st, 0, 'u8')
        # the one difference that does not fit does not occur: x = 2^51, y = 0, no borrow
        st.assume(T.lt(T.sub(T.sub(x, y), ci), 1 << 51))
        outs = pr.call(SUBB, [o, c, ci, x, y], st)
        for s, _ in outs:
            r, d = ex.load(s, o.obj, o.path), ex.load(s, c.obj, c.path)
            pr.prove(s, T.band_(T.eq(T.sub(r, T.scale(d, 1 << 51)), T.sub(T.sub(x, y), ci)), T.le(0, r), T.le(r, M51), T.le(0, d), T.le(d, 1)), 'difference and borrow')
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_cmov(pr):
    for k in (0, 1):
        ex, st = pr.ex, State(pr.ex)
        x, y = ex.fresh('x', 0, kit.U64), ex.fresh('y', 0, kit.U64)
        o = kit.ref(ex, st, 0, 'u64')
        outs = pr.call(CMOV, [o, k, x, y], st)
        for s, _ in outs:
            pr.prove(s, T.eq(ex.load(s, o.obj, o.path), (x, y)[k]), 'selects by the condition')
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_to(pr):
    ex, st = pr.ex, State(pr.ex)
    install(ex, but=(TO,))
    for n, h in ((ADDC, h_addc), (SUBB, h_subb), (CMOV, h_cmov)):
        if pr.has(n):
            ex.contracts[n] = h
    box = []
    def carry(ex, st, f, a):
        v = deref(ex, st, a[0])
        need(ex, st, v, LOOSE, 'argument of carry')
        # the contract of carry: the same value modulo p, tight limbs
        l = tuple(ex.fresh('t%d' % i, 0, b) for i, b in enumerate(TIGHT))
        box.append(l)
        return l
    ex.contracts[CARRY] = carry
    z = tuple(ex.fresh('z%d' % i, 0, b) for i, b in enumerate(LOOSE))
    outs = pr.call(TO, [kit.ref(ex, st, z, FE)], st)
    if len(box) > 1:
        raise Unsupported('to_bytes carries more than once')
    V = val(box[0] if box else z)
    def chk(s, v):
        bs = kit.arr(v, s, 32)
        r = kit.le(bs)
        lin = T.poly(T.sub(r, V))
        L = T.sumt([T.scale(m[0], c) if m else c for m, c in lin.items()]) if all(len(m) <= 1 for m in lin) else T.sub(r, V)
        # the encoding differs from V by 0 or p (times an integer), and is canonical
        goal = T.band_(T.bor_(*[T.eq(L, -k * P) for k in range(2 if box else 18)]), T.le(0, T.add(V, L)), T.lt(T.add(V, L), P))
        s.assume(T.le(0, T.add(V, L)))        # bytes are not negative
        s.assume(T.lt(T.add(V, L), 1 << 256))
        pr.prove(s, goal, 'canonical little-endian bytes of the value modulo p')
        pr.prove(s, T.le(bs[31], 127), 'top bit clear')
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_from(pr):
    ex, st = pr.ex, State(pr.ex)
    bs = kit.barr('s', 32)
    outs = pr.call(FROM, [kit.byteslice(ex, st, Rope((('s', 's', 0, 32),)))], st)
    want = T.sub(kit.le(bs), T.scale(T.div(bs[31], 128), 1 << 255))
    def chk(s, v):
        v = limbs5(v)
        d = T.poly(T.sub(val(v), want))
        pr.rec('little-endian value of the low 255 bits', 'proved' if not d else 'refuted', 'polynomials', d)
        for x, h in zip(v, TIGHT):
            pr.prove(s, T.band_(T.le(0, x), T.le(x, h)), 'limb bounds of the result')
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_mset(pr):
    for k in (0, 1):
        ex, st = pr.ex, State(pr.ex)
        x, y = [tuple(ex.fresh('%s%d' % (n, i), 0, kit.U64) for i in range(5)) for n in 'xy']
        a, b = kit.ref(ex, st, x, FE), kit.ref(ex, st, y, FE)
        outs = pr.call(MSET, [a, b, k], st)
        for s, _ in outs:
            pr.prove(s, kit.eqarr(deref(ex, s, a), (x, y)[k]), 'keeps or takes the other element by the bit')
            pr.prove(s, kit.eqarr(deref(ex, s, b), y), 'leaves the other element alone')
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_preds(pr, name=NZ):
    ex, st = pr.ex, State(pr.ex)
    install(ex, but=(name,))
    z = sym(ex, 'z', LOOSE)
    bs = bytes_of(ex, Poly.var('z'))
    outs = pr.call(name, [kit.ref(ex, st, z, FE)], st)
    want = T.bnot(kit.eqarr(bs, (0,) * 32)) if name == NZ else T.eq(T.mod(bs[0], 2), 1)
    def chk(s, v):
        pr.prove(s, T.iff(v, want) if not isinstance(v, bool) else want if v else T.bnot(want),
                 'true exactly when the value is %s' % ('not zero' if name == NZ else 'odd'))
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_isneg(pr):
    t_preds(pr, IS_NEG)

def t_consts(pr):
    """the loop constants and class inclusions the contracts rest on"""
    c = lambda ok, n: pr.rec(n, 'proved' if ok else 'refuted', 'evaluation')
    c(val(NEGB) == 2 * P, 'the subtraction constant is 2p')
    c(all(a <= b for a, b in zip(TIGHT, NEGB)), 'tight limbs may be subtracted')
    c(pow(2, (P - 1) // 2, P) == P - 1 and pow(R.SQRTM1, 2, P) == P - 1, '-1 is a square modulo p')
    c(pow(R.d, (P - 1) // 2, P) == P - 1, 'd is not a square modulo p, so the addition law is complete')

def tasks(prog):
    ts = [(MUL, arith(MUL, (LOOSE, LOOSE), T.mul, TIGHT)), (SQ, arith(SQ, (LOOSE,), lambda x: T.mul(x, x), TIGHT)),
          (SQ2, arith(SQ2, (LOOSE,), lambda x: T.scale(T.mul(x, x), 2), [2 * b for b in TIGHT])),
          (ADD, arith(ADD, (LOOSE, LOOSE), T.add, lambda h: [a + b for a, b in zip(*h)])),
          (SUB, arith(SUB, (LOOSE, NEGB), T.sub, TIGHT)), (CARRY, arith(CARRY, (LOOSE,), lambda x: x, TIGHT)),
          (NEG, arith(NEG, (NEGB,), T.neg, NEGB)), (INV, t_invert), (POW, t_pow), (TO, t_to), (FROM, t_from), (MSET, t_mset),
          (NZ, t_preds), (IS_NEG, t_isneg), ('field constants', t_consts)]
    ts += [(n, t) for n, t in ((ADDC, t_addc), (SUBB, t_subb), (CMOV, t_cmov)) if prog.byname.get(n)]
    return ts
