"""Contracts of the point operations on edwards25519 in terms of field values."""
from .fe import *
from . import fe

P1, P2, P3, PC, CA = [M + x for x in ('GeP1P1', 'GeP2', 'GeP3', 'GePrecomp', 'GeCached')]
TO_P2, TO_P3 = P1 + '::to_p2', P1 + '::to_p3'
P2_ZERO, P2_BYTES, P2_DBL = P2 + '::zero', P2 + '::to_bytes', P2 + '::dbl'
P3_P2, P3_CACHED, P3_ZERO, P3_DBL, P3_BYTES, P3_MSET, DECODE = [P3 + '::' + x for x in
    ('to_p2', 'to_cached', 'zero', 'dbl', 'to_bytes', 'maybe_set', 'from_bytes_negate_vartime')]
OPS = {(op, k): '<%s as std::ops::%s<%s>>::%s' % (P3, op, k, op.lower()) for op in ('Add', 'Sub') for k in (CA, PC)}

# limb bounds of coordinates wherever a point is handed on
BOUND = {P1: LOOSE, P2: NEGB, P3: NEGB, CA: ((1 << 53),) * 5, PC: TIGHT}
D = Poly.const(R.d)

def coords(p, ty, v):
    return {n: kit.field(p, ty, v, n) for n in names(p, ty)}

def names(p, ty):
    return [n for n, t in kit.fieldnames(p, ty)]

EXPECT = {P1: 'xyzt', P2: 'xyz', P3: 'xyzt', PC: ('y_plus_x', 'y_minus_x', 'xy2d'), CA: ('y_plus_x', 'y_minus_x', 'z', 't2d')}

def mk(pr, ty, vals):
    """a point with these field values and limbs up to the class bounds"""
    p = pr.p
    if sorted(names(p, ty)) != sorted(EXPECT[ty]):
        raise Missing('coordinates of ' + ty)
    def leaf(path, t):
        return new(pr.ex, vals[path], BOUND[ty]) if path else None
    return kit.build(p, ty, leaf)

def gh(pr, ty, v):
    return {n: ghost(pr.ex, x) for n, x in coords(pr.p, ty, v).items()}

V = Poly.var

class Spec:
    """obligations on a result point, as polynomial identities"""
    def __init__(self, pr, s):
        self.pr, self.s = pr, s
    def zero(self, g, what):
        bad = g.d and nonzero_somewhere(g)
        self.pr.rec(what, 'proved' if not g.d else 'refuted' if bad else 'unknown', 'polynomials', g, bad or None)
    def unit(self, g, den, vs, what):
        """g is a nonzero constant times a product of nonzero quantities"""
        ok = False
        import itertools
        for ks in itertools.product(range(4), repeat=len(vs)):
            m = den
            for v, k in zip(vs, ks):
                for _ in range(k):
                    m = m * v
            if m.d and g.d and set(m.d) == set(g.d):
                a = next(iter(m.d))
                c = g.d[a] * pow(m.d[a], P - 2, P)
                if g == m * c:
                    ok = True
                    break
        self.pr.rec(what, 'proved' if ok else 'unknown', 'polynomials', g)
    def bounds(self, ty, v):
        for n, x in coords(self.pr.p, ty, v).items():
            for a, b in zip(limbs5(x), BOUND[ty]):
                self.pr.prove(self.s, T.band_(T.le(0, a), T.le(a, b)), 'limb bounds of %s' % n)

def nonzero_somewhere(g):
    """values (points of the curve for the affine coordinates) at which the polynomial does not vanish"""
    rng = random.Random(3)
    for _ in range(20):
        env = {}
        for k in (1, 2):
            x, y = R.affine(R.mul(rng.randrange(1, R.L), R.B))
            env['x%d' % k], env['y%d' % k] = x, y
        s = 0
        for m, c in g.d.items():
            for v, k in m:
                if v not in env:
                    env[v] = rng.randrange(1, P)
                c = c * pow(env[v], k, P) % P
            s += c
        if s % P:
            return {k: v for k, v in env.items() if any(k == v for m in g.d for v, _ in m)}
    return None

def run(pr, name, spec, mkargs, by_ref=True):
    ex, st = pr.ex, State(pr.ex)
    install(ex, but=(name,))
    install_points(ex, pr, but=(name,))
    args = []
    for ty, v in mkargs:
        args.append(kit.ref(ex, st, v, ty) if by_ref else v)
    outs = pr.call(name, args, st)
    pr.each(outs, lambda s, v: spec(Spec(pr, s), v))
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def install_points(ex, pr, but):
    """the field-level contracts are enough: point functions called by point functions are executed"""

XYZT = dict(x=V('X'), y=V('Y'), z=V('Z'), t=V('T'))
X, Y, Z, T_ = V('X'), V('Y'), V('Z'), V('T')
ONE = Poly.const(1)

def t_p1p1(name, ty):
    """(X:Z, Y:T) with Z, T nonzero denotes x = X/Z, y = Y/T"""
    def t(pr):
        def spec(S, v):
            g = gh(pr, ty, v)
            S.unit(g['z'], ONE, [Z, T_], 'denominator is a product of the nonzero ones')
            S.zero(g['x'] * Z - X * g['z'], 'x coordinate')
            S.zero(g['y'] * T_ - Y * g['z'], 'y coordinate')
            if ty == P3:
                S.zero(g['x'] * g['y'] - g['t'] * g['z'], 'T Z = X Y')
            S.bounds(ty, v)
        run(pr, name, spec, [(P1, mk(pr, P1, XYZT))])
    return t

def ext(k):
    """an extended point: T Z = X Y, expressed with affine x and y"""
    x, y, z = V('x%d' % k), V('y%d' % k), V('z%d' % k)
    return dict(x=x * z, y=y * z, z=z, t=x * y * z), x, y, z

def law(S, g, x1, y1, x2, y2, zs, what=''):
    """g denotes (x1,y1) + (x2,y2) by the (complete) addition law for a = -1"""
    dxy = D * x1 * x2 * y1 * y2
    d1, d2 = ONE + dxy, ONE - dxy
    S.zero(g['x'] * d1 - (x1 * y2 + y1 * x2) * g['z'], 'x coordinate of the sum')
    S.zero(g['y'] * d2 - (y1 * y2 + x1 * x2) * g['t'], 'y coordinate of the sum')
    S.unit(g['z'], d1, zs, 'first denominator is that of the addition law')
    S.unit(g['t'], d2, zs, 'second denominator is that of the addition law')

def t_add(name, op, ty):
    def t(pr):
        a, x1, y1, z1 = ext(1)
        b, x2, y2, z2 = ext(2)
        if ty == CA:
            q = dict(y_plus_x=b['y'] + b['x'], y_minus_x=b['y'] - b['x'], z=b['z'], t2d=b['t'] * D * 2)
            zs = [z1, z2]
        else:
            q = dict(y_plus_x=y2 + x2, y_minus_x=y2 - x2, xy2d=x2 * y2 * D * 2)
            zs = [z1]
        def spec(S, v):
            law(S, gh(pr, P1, v), x1, y1, x2 if op == 'Add' else -x2, y2, zs)
            S.bounds(P1, v)
        run(pr, name, spec, [(P3, mk(pr, P3, a)), (ty, mk(pr, ty, q))], by_ref=False)
    return t

def t_cached(pr):
    a, x, y, z = ext(1)
    def spec(S, v):
        g = gh(pr, CA, v)
        S.unit(g['z'], ONE, [z], 'denominator')
        S.zero(g['y_plus_x'] - (y + x) * g['z'], 'Y + X')
        S.zero(g['y_minus_x'] - (y - x) * g['z'], 'Y - X')
        S.zero(g['t2d'] - x * y * D * 2 * g['z'], '2 d T')
        S.bounds(CA, v)
    run(pr, P3_CACHED, spec, [(P3, mk(pr, P3, a))])

def t_p3p2(pr):
    a, x, y, z = ext(1)
    def spec(S, v):
        g = gh(pr, P2, v)
        S.unit(g['z'], ONE, [z], 'denominator')
        S.zero(g['x'] - x * g['z'], 'x coordinate')
        S.zero(g['y'] - y * g['z'], 'y coordinate')
        S.bounds(P2, v)
    run(pr, P3_P2, spec, [(P3, mk(pr, P3, a))])

def t_dbl(name, ty):
    """doubling uses the curve equation y^2 - x^2 = 1 + d x^2 y^2: the denominators of the addition law are y^2 - x^2 and 2 - y^2 + x^2"""
    def t(pr):
        a, x, y, z = ext(1)
        def spec(S, v):
            g = gh(pr, P1, v)
            d1, d2 = y * y - x * x, Poly.const(2) - y * y + x * x
            S.zero(g['x'] * d1 - x * y * 2 * g['z'], 'x coordinate of the double')
            S.zero(g['y'] * d2 - (y * y + x * x) * g['t'], 'y coordinate of the double')
            S.unit(g['z'], d1, [z], 'first denominator is that of the addition law')
            S.unit(g['t'], d2, [z], 'second denominator is that of the addition law')
            S.bounds(P1, v)
        run(pr, name, spec, [(ty, mk(pr, ty, {n: a[n] for n in EXPECT[ty]}))])
    return t

def t_zero(name, ty):
    def t(pr):
        def spec(S, v):
            g = gh(pr, ty, v)
            S.zero(g['x'], 'x = 0')
            S.zero(g['y'] - g['z'], 'y = 1')
            S.unit(g['z'], ONE, [], 'denominator')
            if ty == P3:
                S.zero(g['t'], 'T = 0')
            S.bounds(ty, v)
        run(pr, name, spec, [])
    return t

def t_bytes(name, ty):
    """the encoding: canonical bytes of y = Y/Z with the parity of x = X/Z in the top bit"""
    def t(pr):
        z = V('Z')
        i = z ** (P - 2)
        vals = dict(x=X, y=Y, z=Z, t=T_)
        bs = bytes_of(pr.ex, Y * i)
        odd = pred(pr.ex, 'odd', X * i)
        def spec(S, v):
            got = kit.arr(v, S.s, 32)
            pr.prove(S.s, kit.eqarr(got[:31], bs[:31]), 'canonical bytes of Y/Z')
            pr.prove(S.s, T.eq(got[31], T.add(bs[31], T.ite(odd, 128, 0))), 'last byte: that of Y/Z, with the parity of X/Z on top')
        run(pr, name, spec, [(ty, mk(pr, ty, {n: vals[n] for n in EXPECT[ty]}))])
    return t

def t_mset(pr):
    for k in (0, 1):
        ex, st = pr.ex, State(pr.ex)
        a, b = [mk(pr, P3, {n: V(n + str(j)) for n in 'xyzt'}) for j in (0, 1)]
        p, q = kit.ref(ex, st, a, P3), kit.ref(ex, st, b, P3)
        outs = pr.call(P3_MSET, [p, q, k], st)
        for s, _ in outs:
            for n in 'xyzt':
                got, want = [kit.field(pr.p, P3, v, n) for v in (ex.load(s, p.obj, p.path), (a, b)[k])]
                pr.prove(s, kit.eqarr(limbs5(got), limbs5(want)), 'keeps or takes the other point by the bit: ' + n)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_decode(pr):
    """Some(-A) exactly when the bytes encode a curve point A"""
    ex, st = pr.ex, State(pr.ex)
    install(ex)
    bs = kit.barr('s', 32)
    # w = (u v^7)^((p-5)/8) stays opaque, so that the identities are small
    pw = []
    def h_pw(ex, st, f, a):
        v = deref(ex, st, a[0])
        need(ex, st, v, LOOSE, 'argument of pow25523')
        pw.append(ghost(ex, v))
        return new(ex, V('w'), TIGHT)
    ex.contracts[POW] = h_pw
    st.mem  # the argument is a slice of 32 bytes
    outs = pr.call(DECODE, [kit.byteslice(ex, st, Rope((('s', 's', 0, 32),)))], st)
    y = V(G(ex).pred.get(('dec', bs), '?'))
    u, v = y * y - ONE, y * y * D + ONE
    v3 = v * v * v
    root = V('w') * v3 * u
    i = Poly.const(R.SQRTM1)
    ok_args = all(g == u * v3 * v3 * v for g in pw) and len(pw) > 0
    pr.rec('the square root candidate is u v^3 (u v^7)^((p-5)/8)', 'proved' if ok_args else 'unknown', 'polynomials', pw[:1])
    c1, c2 = v * root * root - u, v * root * root + u
    sign = T.ge(bs[31], 128)
    k = G(ex)
    seen = [0, 0]
    def known(s, kind, g):
        """truth of a predicate on a field value on this path; nonzero is insensitive to a constant factor"""
        for (kd, q), b in k.pred.items() if False else [(x, y) for x, y in k.pred.items() if isinstance(x, tuple) and len(x) == 2 and x[0] == kind]:
            m = q == g or kind == 'nonzero' and proportional(q, g)
            if m:
                if s.known(b):
                    return True
                if s.known(T.bnot(b)):
                    return False
        return None
    def model(s):
        # a string of the kind decoded on this path: a candidate input for the concrete runs
        a, m = solver.prove(s.pc, False)
        return {'encoding': bytes((m or {}).get(b, 77) for b in bs).hex()} if a == 'refuted' else None
    def spec(s, r):
        S = Spec(pr, s)
        if r.v == 0:
            # None: v root^2 is neither u nor -u, so u/v is not a square (Euler's criterion)
            seen[0] += 1
            a, b = known(s, 'nonzero', c1), known(s, 'nonzero', c2)
            pr.rec('rejected only without a square root', 'proved' if a and b else 'refuted' if a is False or b is False else 'unknown', 'polynomials', 'v root^2 = u: %s, = -u: %s' % (a, b), None if a and b else model(s))
            return
        seen[1] += 1
        pt = r.f[0]
        g = gh(pr, P3, pt)
        S.zero(g['z'] - ONE, 'Z = 1')
        S.zero(g['y'] - y, 'Y is the decoded value')
        S.zero(g['t'] - g['x'] * y, 'T = X Y')
        e = v * g['x'] * g['x'] - u
        # x^2 v = u on this path
        good = not e.d or known(s, 'nonzero', e) is False
        pr.rec('accepted only with a point of the curve: v x^2 = u', 'proved' if good else 'unknown', 'polynomials', e, None if good else model(s))
        # x is the root whose parity differs from the sign bit, or 0
        q = known(s, 'odd', g['x'])
        n = known(s, 'odd', -g['x'])
        sg = True if s.known(sign) else False if s.known(T.bnot(sign)) else None
        par = q if q is not None else (not n) if n is not None else None
        if sg is None or par is None:
            b = [y for x, y in k.pred.items() if isinstance(x, tuple) and x == ('odd', g['x'])] or [T.bnot(y) for x, y in k.pred.items() if isinstance(x, tuple) and x == ('odd', -g['x'])]
            if b:
                pr.prove(s, T.bnot(T.iff(b[0], sign)), 'negated: the parity of x is not the sign bit (or x = 0)')
            else:
                pr.rec('negated: the parity of x is not the sign bit (or x = 0)', 'unknown')
        else:
            pr.rec('negated: the parity of x is not the sign bit (or x = 0)', 'proved' if par != sg else 'refuted', 'case split')
        S.bounds(P3, pt)
    pr.each(outs, spec)
    pr.rec('both outcomes occur (vacuity)', 'proved' if seen[0] and seen[1] else 'unknown', 'execution')
    pr.flush()

def proportional(a, b):
    if set(a.d) != set(b.d) or not a.d:
        return False
    m = next(iter(a.d))
    return a == b * (a.d[m] * pow(b.d[m], P - 2, P))

def t_table(pr):
    """BI holds the odd multiples B, 3B, ..., 15B"""
    ex = pr.ex
    l = [a for a in table(ex)]
    for k, (a, b, c) in enumerate(l):
        x, y = R.affine(R.mul(2 * k + 1, R.B))
        ok = [(v - w) % P == 0 for v, w in ((val(a), y + x), (val(b), y - x), (val(c), 2 * R.d * x * y))]
        pr.rec('entry %d is %d B' % (k, 2 * k + 1), 'proved' if all(ok) else 'refuted', 'evaluation', ok)
        pr.rec('entry %d: limb bounds' % k, 'proved' if all(0 <= v <= 1 << 51 for l in (a, b, c) for v in l) else 'refuted', 'evaluation')

def tasks(prog):
    ts = [(TO_P2, t_p1p1(TO_P2, P2)), (TO_P3, t_p1p1(TO_P3, P3)), (P3_CACHED, t_cached), (P3_P2, t_p3p2),
          (P2_DBL, t_dbl(P2_DBL, P2)), (P3_DBL, t_dbl(P3_DBL, P3)), (P2_ZERO, t_zero(P2_ZERO, P2)), (P3_ZERO, t_zero(P3_ZERO, P3)),
          (P2_BYTES, t_bytes(P2_BYTES, P2)), (P3_BYTES, t_bytes(P3_BYTES, P3)), (P3_MSET, t_mset), (DECODE, t_decode)]
    ts += [(n, t_add(n, op, k)) for (op, k), n in OPS.items()]
    return ts
