"""Contracts of the arithmetic modulo the group order L."""
from .base import *
from . import kit
from . import ref as R

M = 'minisign::crypto::curve25519::'
REDUCE, MULADD, IS_ID = M + 'sc_reduce', M + 'sc_muladd', M + 'is_identity'
CHECK_S = 'minisign::crypto::ed25519::check_s_lt_l'
L = R.L

def bounds(p):
    """interval of a polynomial by the intervals of its atoms"""
    l = h = 0
    for m, c in p.items():
        a = b = 1
        for x in m:
            if x.lo is None or x.hi is None:
                return None
            v = [a * x.lo, a * x.hi, b * x.lo, b * x.hi]
            a, b = min(v), max(v)
        l += min(c * a, c * b)
        h += max(c * a, c * b)
    return l, h

def canonical(pr, s, bs, want, what):
    """the 32 bytes bs are the canonical residue of the integer `want` modulo L.
    R = value of the bytes, v = R + 2^256 k for an integer k; v = want (mod L) and 0 <= v < L, hence k = 0"""
    r = T.poly(kit.le(bs))
    pr.rec(what + ': 32 bytes', 'proved' if all(isinstance(b, int) or (T.lo(b) >= 0 and T.hi(b) <= 255) for b in bs) else 'unknown', 'intervals')
    v = {m: c for m, c in r.items() if not m or c % (1 << 256)}
    d = T.expand_rem(T.poly(T.sub(0, want)))
    e = T.expand_rem(v)
    for m, c in e.items():
        d[m] = d.get(m, 0) + c
    bad = {m: c for m, c in d.items() if c % L}
    ok = not bad
    pr.rec(what + ': congruent modulo L', 'proved' if ok else 'unknown', 'polynomials', {c % L: [T.show(a, 2) for a in m] for m, c in list(bad.items())[:4]})
    # unfold remainders step by step until the interval shows the range
    p, k = v, 0
    while True:
        b = bounds(p)
        if b is not None and 0 <= b[0] and b[1] < L:
            pr.rec(what + ': below L', 'proved', 'intervals')
            return ok
        p = T.expand_rem(p, 1)
        k += 1
        if p is None or k > 60:
            pr.rec(what + ': below L', 'unknown', '', 'interval never inside [0, L)')
            return False

def falsify(pr, s, bs, want, leaves, what):
    """evaluate at corner values: a definite counterexample when the result is wrong"""
    rng = random.Random(7)
    bad = [r for r in pr.recs if r['status'] == 'unknown' and r['name'].startswith(what)]
    if not bad:
        return
    for _ in range(300):
        env = {x: rng.choice([0, 255, 255, rng.randrange(256)]) for x in leaves}
        try:
            got = sum((b if isinstance(b, int) else T.evaluate(b, env)) << (8 * i) for i, b in enumerate(bs))
            if not all(c if isinstance(c, bool) else T.evaluate(c, env) for c in s.pc):
                continue
            w = T.evaluate(want, env) % L
        except Exception:
            return
        if got != w:
            for r in bad:
                r['status'] = 'refuted'
                r['model'] = {T.show(k, 3): v for k, v in env.items()}
            return

def sbytes(n, k):
    return Rope((('s', n, 0, k),))

def t_reduce(pr):
    ex, st = pr.ex, State(pr.ex)
    p = kit.byteslice(ex, st, sbytes('s', 64))
    x = kit.barr('s', 64)
    outs = pr.call(REDUCE, [p], st)
    def chk(s, _):
        bs = explicit(ex.slice_rope(s, p), s, 64)
        canonical(pr, s, bs[:32], kit.le(x), 'sc_reduce')
        falsify(pr, s, bs[:32], kit.le(x), x, 'sc_reduce')
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_muladd(pr):
    ex, st = pr.ex, State(pr.ex)
    o = kit.byteslice(ex, st, sbytes('out', 32))
    ps = [kit.byteslice(ex, st, sbytes(n, 32)) for n in 'abc']
    a, b, c = [kit.barr(n, 32) for n in 'abc']
    want = T.add(T.mul(kit.le(a), kit.le(b)), kit.le(c))
    outs = pr.call(MULADD, [o] + ps, st)
    def chk(s, _):
        bs = explicit(ex.slice_rope(s, o), s, 32)
        canonical(pr, s, bs, want, 'sc_muladd')
        falsify(pr, s, bs, want, a + b + c, 'sc_muladd')
        for q, x in zip(ps, (a, b, c)):
            pr.prove(s, kit.eqarr(explicit(ex.slice_rope(s, q), s, 32), x), 'operands unchanged')
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_check(pr):
    """true exactly when the 32 bytes are NOT below L (the caller rejects then)"""
    ex, st = pr.ex, State(pr.ex)
    x = kit.barr('s', 32)
    outs = pr.call(CHECK_S, [kit.byteslice(ex, st, sbytes('s', 32))], st)
    lb = L.to_bytes(32, 'little')
    want = True
    for i in range(32):
        want = T.bor_(T.gt(x[i], lb[i]), T.band_(T.eq(x[i], lb[i]), want))
    def chk(s, v):
        g = T.iff(v, want) if not isinstance(v, bool) else want if v else T.bnot(want)
        pr.prove(s, g, 'true exactly for values at or above the group order')
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def t_identity(pr):
    """true exactly when the low 255 bits are 1 modulo p"""
    ex, st = pr.ex, State(pr.ex)
    x = kit.barr('s', 32)
    outs = pr.call(IS_ID, [kit.byteslice(ex, st, sbytes('s', 32))], st)
    one, p1 = (1).to_bytes(32, 'little'), (R.p + 1).to_bytes(32, 'little')
    low = x[:31] + (T.mod(x[31], 128),)
    want = T.bor_(kit.eqarr(low, one), kit.eqarr(low, p1))
    pr.rec('values below 2^255 that are 1 modulo p: 1 and p + 1', 'proved' if 2 * R.p + 1 >= 1 << 255 else 'refuted', 'evaluation')
    def chk(s, v):
        g = T.iff(v, want) if not isinstance(v, bool) else want if v else T.bnot(want)
        pr.prove(s, g, 'true exactly for the encodings of y = 1')
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def tasks(prog):
    return [(REDUCE, t_reduce), (MULADD, t_muladd), (CHECK_S, t_check), (IS_ID, t_identity)]
