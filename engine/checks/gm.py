"""Contracts of the scalar multiplications over the contracts of the point operations (pt.py).
A point is a ghost integer combination of generators: {'B': k, 'A': m} stands for [k]B + [m]A.
Constants are recognised by value."""
from .edl import *
from . import fe, pt
from .fe import P, limbs5, val
from .pt import P1, P2, P3, PC, CA, OPS, TO_P2, TO_P3, P2_ZERO, P2_DBL, P3_P2, P3_CACHED, P3_ZERO, P3_DBL, P3_MSET
from .loops import linear, advance

SLIDE = P2 + '::slide'
NAME = {t: t.split('::')[-1] for t in (P1, P2, P3, PC, CA)}

# ------------------------------------------------------------------ constants
_mult = {}
def mult(x, y):
    """k with (x, y) = [k]B for small k"""
    if not _mult:
        q = None
        for k in range(0, 65):
            a = R.affine(R.mul(k, R.B)) if k else (0, 1)
            _mult[a] = k
            _mult[((-a[0]) % P, a[1])] = -k
    return _mult.get((x % P, y % P))

def concrete(ex, ty, v):
    """the combination a constant point stands for"""
    c = pt.coords(ex.p, ty, v)
    try:
        n = {k: val(limbs5(x)) for k, x in c.items()}
    except Unsupported:
        raise Unsupported('point in an unexpected representation')
    if not all(isinstance(x, int) for x in n.values()):
        raise Unsupported('point in an unexpected representation')
    if any(a > b for k in c for a, b in zip(limbs5(c[k]), pt.BOUND[ty])):
        raise Unsupported('limbs of a constant point')
    i2 = pow(2, P - 2, P)
    inv = lambda z: pow(z, P - 2, P)
    if ty == PC:
        x, y = (n['y_plus_x'] - n['y_minus_x']) * i2 % P, (n['y_plus_x'] + n['y_minus_x']) * i2 % P
        ok = (n['xy2d'] - 2 * R.d * x * y) % P == 0
    elif ty == CA:
        z = inv(n['z'])
        x, y = (n['y_plus_x'] - n['y_minus_x']) * i2 * z % P, (n['y_plus_x'] + n['y_minus_x']) * i2 * z % P
        ok = (n['t2d'] - 2 * R.d * x * y * n['z']) % P == 0 and n['z'] % P != 0
    elif ty == P1:
        x, y = n['x'] * inv(n['z']) % P, n['y'] * inv(n['t']) % P
        ok = n['z'] % P != 0 and n['t'] % P != 0
    else:
        x, y = n['x'] * inv(n['z']) % P, n['y'] * inv(n['z']) % P
        ok = n['z'] % P != 0 and (ty == P2 or (n['x'] * n['y'] - n['t'] * n['z']) % P == 0)
    k = mult(x, y) if ok else None
    if k is None:
        return {'constant(%d,%d,%s)' % (x, y, ok): 1}
    return {'B': k} if k else {}

def comb(ex, ty, v):
    if isinstance(v, Abs) and v.kind == 'point':
        if v.data[0] != NAME[ty]:
            raise Unsupported('point of another representation')
        return dict(v.data[1])
    return concrete(ex, ty, v)

def at(ex, st, p):
    return ex.load(st, p.obj, p.path)

def plus(a, b, k=1):
    d = dict(a)
    for g, c in b.items():
        d[g] = T.add(d.get(g, 0), T.scale(c, k))
    return d

# ------------------------------------------------------------------ handlers
def conv(src, dst, k=1, byref=True):
    def h(ex, st, f, a):
        c = comb(ex, src, at(ex, st, a[0]) if byref else a[0])
        return point(dst, {g: T.scale(x, k) for g, x in c.items()})
    return h

def addsub(op, ty):
    def h(ex, st, f, a):
        return point(P1, plus(comb(ex, P3, a[0]), comb(ex, ty, a[1]), 1 if op == 'Add' else -1))
    return h

def h_mset(ex, st, f, a):
    p, q, b = a
    x, y = comb(ex, P3, at(ex, st, p)), comb(ex, P3, at(ex, st, q))
    ex.oblige(st, T.band_(T.ge(b, 0), T.le(b, 1)), 'precondition of maybe_set: 0 or 1')
    d = dict(x)
    for g in set(x) | set(y):
        d[g] = T.add(x.get(g, 0), T.mul(b, T.sub(y.get(g, 0), x.get(g, 0))))
    ex.store(st, p.obj, p.path, point(P3, d))
    return ()

GROUP = {TO_P2: conv(P1, P2), TO_P3: conv(P1, P3), P3_P2: conv(P3, P2), P3_CACHED: conv(P3, CA), P2_DBL: conv(P2, P1, 2), P3_DBL: conv(P3, P1, 2),
         P2_ZERO: lambda ex, st, f, a: point(P2, {}), P3_ZERO: lambda ex, st, f, a: point(P3, {}), P3_MSET: h_mset}
GROUP.update({n: addsub(op, k) for (op, k), n in OPS.items()})

def install_group(ex):
    ex.contracts.update(GROUP)

def show_comb(d):
    return ' + '.join('[%s]%s' % (T.show(c, 3), g) for g, c in sorted(d.items())) or 'identity'

# ------------------------------------------------------------------ base point multiplication
def t_base(pr):
    """[s]B for every 32-byte scalar; more bytes are not looked at"""
    ex, st = pr.ex, State(pr.ex)
    install_group(ex)
    bs = kit.barr('s', 32)
    m = ex.srclen('rest', 0, None)
    outs = pr.call(BASE, [kit.byteslice(ex, st, Rope((('s', 's', 0, 32), ('s', 'rest', 0, m))))], st)
    def chk(s, v):
        d = comb(ex, P3, v)
        k = d.pop('B', 0)
        # combinations of other generators never cancel; B has order L
        ok, _ = T.congruent(k, kit.le(bs), L)
        stt = 'proved' if ok and not d else 'unknown'
        model = None
        if stt != 'proved':
            rng = random.Random(5)
            for _ in range(60):
                env = {b: rng.choice([0, 255, rng.randrange(256)]) for b in bs}
                g = k if isinstance(k, int) else T.evaluate(k, env)
                if d or (g - T.evaluate(kit.le(bs), env)) % L:
                    stt, model = 'refuted', {T.show(x, 2): y for x, y in env.items()}
                    break
        pr.rec('the result is [s]B', stt, 'polynomials', show_comb(dict(d, B=k))[:500], model)
    pr.each(outs, chk)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

# ------------------------------------------------------------------ loop rules
DIG = Abs('digit', ())

def mentions(v, x):
    if isinstance(v, Term):
        seen, todo = set(), [v]
        while todo:
            t = todo.pop()
            if t is x:
                return True
            if t.id in seen:
                continue
            seen.add(t.id)
            todo.extend(T.children(t))
        return False
    if isinstance(v, tuple):
        return any(mentions(y, x) for y in v)
    if isinstance(v, Rope):
        return mentions(v.segs, x)
    if isinstance(v, En):
        return mentions(v.f, x)
    if isinstance(v, Abs):
        return mentions(v.data, x)
    if isinstance(v, Ptr):
        return mentions(v.path, x) or mentions(v.meta, x)
    return False

def swap(v, x, y):
    """replace leaves equal to x by y; (value, number of replacements)"""
    if isinstance(v, (Term, int)) and not isinstance(v, bool):
        return (y, 1) if same(v, x) else (v, 0)
    if isinstance(v, tuple):
        l = [swap(z, x, y) for z in v]
        return tuple(a for a, _ in l), sum(b for _, b in l)
    return v, 0

def locals_of(st, fr):
    return [o for o in st.mem if isinstance(o, tuple) and len(o) == 2 and o[0] == fr.id]

def innermost(f, h):
    """does the natural loop of header h contain no other header?"""
    seen, todo = {h}, list(f.headers[h])
    while todo:
        b = todo.pop()
        if b not in seen:
            seen.add(b)
            todo.extend(f.preds.get(b, ()))
    return not any(x in f.headers for x in seen - {h})

def running(ex, st, f, fr, bb):
    """explore from this state; the rule decides at every loop header what happens; (returned states)"""
    work, outs = [(st, bb, {})], []
    while work:
        s, b, v = work.pop()
        ex.exec_path(s, f, fr, b, v, work, outs)
    return outs

def is_seq(v, n, st):
    return isinstance(v, (Rope, tuple)) and isinstance(rope_of(v).length(), int) and rope_of(v).length() == n if not isinstance(v, tuple) else len(v) == n and all(isinstance(x, (int, Term)) for x in v)

class Loop:
    """start of a loop seen once with concrete counter; general states by the linear pattern of a trial iteration"""
    def __init__(self, ex, st, f, fr, bb, skip, trial):
        """trial: state to run one iteration from; skip: objects with an invariant of their own"""
        self.base, self.skip, self.lin, self.fr = st, skip, {}, fr
        ends = []
        s = trial.copy()
        s.g['gm'] = ('collect', bb, ends, None)
        n0 = len(ex.obl)
        running(ex, s, f, fr, bb)
        del ex.obl[n0:]
        if len(ends) != 1 or ends[0][1] != bb:
            raise Unsupported('loop body of an unexpected shape')
        e = ends[0][0]
        for o, a in st.mem.items():
            if o in skip:
                continue
            b = e.mem.get(o, UNINIT)
            if same(a, b):
                continue
            d = linear(a, b)
            if d is not None:
                self.lin[o] = (a, d)
            elif o in locals_of(st, fr):
                self.lin[o] = None
            else:
                raise Unsupported('loop changes an object in an unknown way')
    def general(self, k):
        """the state after k iterations, apart from the objects skipped"""
        g = self.base.copy()
        for o, r in self.lin.items():
            g.mem[o] = UNINIT if r is None else advance(r[0], r[1], k, [])
        return g
    def check(self, s, k):
        for o, a in self.base.mem.items():
            if o in self.skip:
                continue
            r = self.lin.get(o, 0)
            if r is None:
                continue
            want = a if r == 0 else advance(r[0], r[1], k, [])
            from .loops import equal
            if not (same(s.mem.get(o, UNINIT), want) or equal(s, s.mem.get(o, UNINIT), want)):
                raise Unsupported('loop invariant is not inductive: %r is %r, expected %r' % (o, s.mem.get(o), want))

def collect(st, bb):
    """bookkeeping at a loop header: None = go on, [] = arrived"""
    m = st.g.get('gm')
    if m is not None and m[0] == 'collect':
        st.g['gm'] = ('in',) + m[1:]
        return None
    if m is not None and m[0] == 'in':
        m[2].append((st, bb))
        return []
    return None

class Slide:
    """invariant of the recoding loop: below position i there are digits; from i on there are bits whose value, with the digits', is that of
    the scalar; the value of the bits from i on is at most 2^(253-i)"""
    def __init__(self, pr, bits):
        self.pr, self.bits = pr, bits
        self.head = None
        self.seen = set()
        self.npaths = 0

    def __call__(self, ex, st, f, fr, bb):
        m = st.g.get('gm')
        if m is None:
            return self.arrive(ex, st, f, fr, bb)
        if m[0] == 'done':
            return None
        if bb != self.head and m[0] == 'in' and m[3] is not None and innermost(f, bb):
            i = m[3]
            r = self.tail_contract(ex, st, f, fr, bb, i)
            if r is not None:
                return r
            return None
        if m[0] == 'in' and bb != self.head and m[1] == self.head:
            return None                                 # inner loops of a trial run
        return collect(st, bb)

    def rec(self, name, ok, detail='', model=None):
        self.pr.rec(name, ok, 'execution of all windows', detail, model)

    def arrive(self, ex, st, f, fr, bb):
        obj = [o for o in locals_of(st, fr) if is_seq(st.mem[o], 256, st) and same(explicit(rope_of(st.mem[o]), st, 256), self.bits)]
        if not obj or bb in self.seen:
            self.seen.add(bb)                             # the loop that extracts the bits
            return None
        if len(obj) != 1:
            raise Unsupported('several digit arrays')
        self.head, self.r = bb, obj[0]
        if not all(T.lo(b) == 0 and T.hi(b) <= 1 if isinstance(b, Term) else b in (0, 1) for b in self.bits) or self.bits[253:] != (0, 0, 0):
            raise Unsupported('bits of the scalar')
        t = st.copy()
        t.mem[self.r] = Rope((('c', (0,) * 256),))
        self.loop = Loop(ex, st, f, fr, bb, {self.r}, t)
        i = ex.fresh('pos', 1, 245)
        for pos in (0, i):
            for w in range(128):
                self.window(ex, f, fr, pos, w)
            if pos is i:
                self.window(ex, f, fr, pos, None)
        out = []
        for w in list(range(128)) + [None]:
            s = self.loop.general(246)
            s.mem[self.r] = Rope((('z', DIG, 246), ('c', tuple(w >> k & 1 for k in range(7)) + (0, 0, 0) if w is not None else (0,) * 7 + (1, 0, 0))))
            s.g['gm'] = ('done',)
            s.g['left'] = w if w is not None else 128
            out.append((s, bb))
        ex.used['loop invariant of %s' % f.name] = 1
        return out

    def window(self, ex, f, fr, pos, w):
        s = self.loop.general(pos)
        first = isinstance(pos, int)
        pre = (('z', DIG, pos),) if not first else ()
        if w is None:
            s.mem[self.r] = Rope(pre + (('z', 0, T.sub(253, pos)), ('c', (1, 0, 0))))
        else:
            s.mem[self.r] = Rope(pre + (('c', tuple(w >> k & 1 for k in range(7))), ('s', 'tail0', T.add(pos, 7), T.sub(246, pos)), ('c', (0, 0, 0))))
        start = s.mem[self.r]
        ends = []
        s.g['gm'] = ('collect', self.head, ends, pos)
        s.g['carry'] = 0
        outs = running(ex, s, f, fr, self.head)
        if outs or not ends:
            raise Unsupported('the recoding loop ends early')
        what = 'position %s, bits %s' % ('0' if first else 'i', bin(w) if w is not None else 'zero below 2^253')
        for e, b in ends:
            self.npaths += 1
            if b != self.head:
                raise Unsupported('unexpected loop')
            self.loop.check(e, T.add(pos, 1))
            r = rope_of(e.mem[self.r])
            if w is None:
                if not same(norm(r.segs), norm(start.segs)):
                    d = explicit(rslice(r, pos, 1, e), e, 1)[0]
                    self.rec('recoding leaves a zero bit alone', 'refuted', what + ': digit %r' % d)
                continue
            if not first and norm(rslice(r, 0, pos, e).segs) != norm(pre):
                raise Unsupported('digits below the position change')
            d = explicit(rslice(r, pos, 1, e), e, 1)[0]
            ws = explicit(rslice(r, T.add(pos, 1), 6, e), e, 6)
            rest = norm(rslice(r, T.add(pos, 7), T.sub(249, pos), e).segs)
            if not isinstance(d, int) or not all(isinstance(x, int) for x in ws):
                raise Unsupported('digits are not determined by the window')
            if not all(x in (0, 1) for x in ws):
                raise Unsupported('the bits above are no longer bits: %s' % (ws,))
            c = e.g['carry']
            # rest: the tail untouched, incremented, or carried into bit 253
            over = e.g.get('over')
            exp = norm((('z', 0, T.sub(246, pos)), ('c', (1, 0, 0))) if over else (('s', 'tail%d' % c, T.add(pos, 7), T.sub(246, pos)), ('c', (0, 0, 0))))
            if not same(rest, exp):
                raise Unsupported('the bits beyond the window change in an unknown way: %s instead of %s' % (Rope(rest), Rope(exp)))
            if over and any(ws):
                raise Unsupported('bits besides the carried one')
            k = w - d - sum(x << (j + 1) for j, x in enumerate(ws)) - 128 * c
            if k:
                self.rec('recoding keeps the value', 'refuted', what + ': off by %d' % k, {'window': w, 'digit': d, 'carry': c})
            elif not (d == 0 or d % 2 and -15 <= d <= 15):
                self.rec('digits are 0 or odd in -15..15', 'unknown', what + ': digit %d' % d)

    def tail_contract(self, ex, st, f, fr, bb, i):
        """a loop that carries one into the bits from i+7 on: it adds 1 to their value, or, when they are all ones, clears them and sets bit 253"""
        k0 = T.add(i, 7)
        objs = [o for o in locals_of(st, fr) if o != self.r and swap(st.mem[o], k0, 0)[1]]
        if not objs:
            return None
        # the counter: what moves from i+7 to i+8 in one step
        s = st.copy()
        s.mem[self.r] = Rope(norm((('z', DIG, k0), ('c', (1,)), ('z', Abs('bit', ()), T.sub(255, k0)))))
        ends = []
        s.g['gm'] = ('collect', bb, ends, None)
        try:
            outs = self.probe(ex, s, f, fr, bb)
        except Unsupported:
            return None                                   # the counter has not come to i+7 yet
        if outs or len(ends) != 1 or ends[0][1] != bb:
            raise Unsupported('carry loop of an unexpected shape')
        objs = [o for o in objs if same(ends[0][0].mem.get(o), swap(st.mem[o], k0, T.add(k0, 1))[0])]
        if not objs:
            return None
        r = rope_of(st.mem[self.r])
        n = T.sub(246, i)
        c = st.g['carry']
        rest = norm(rslice(r, k0, T.sub(249, i), st).segs)
        if not same(rest, norm((('s', 'tail%d' % c, k0, n), ('c', (0, 0, 0))))):
            raise Unsupported('carry into an unexpected state')
        kk = ex.fresh('k', 7, 253)
        exits = []
        for bit in (0, 1):
            s = st.copy()
            s.assume(T.ge(kk, k0))
            for o in objs:
                s.mem[o] = swap(s.mem[o], k0, kk)[0]
            mk = lambda b: Rope(norm((('z', DIG, kk), ('c', (b,)), ('z', Abs('bit', ()), T.sub(255, kk)))))
            s.mem[self.r] = mk(bit)
            ends = []
            s.g['gm'] = ('collect', bb, ends, None)
            outs = self.probe(ex, s, f, fr, bb)
            early = [e for e, b2 in ends if b2 != bb and (bit or same(norm(rope_of(e.mem[self.r]).segs), norm(mk(bit).segs)))]
            if any(solver.feasible(e.pc, T.le(kk, 200)) for e in early):
                self.pr.rec('a carry goes on through all one bits', 'refuted', 'execution', 'at position i = %s the carry loop may end before the carry is absorbed: %s' % (T.show(i, 2), [T.show(c, 3) for c in early[0].pc]))
                raise Unsupported('carry loop ends early')
            if outs or len(ends) != 1:
                raise Unsupported('carry loop of an unexpected shape')
            e, b2 = ends[0]
            if not same(norm(rope_of(e.mem[self.r]).segs), norm(mk(1 - bit).segs)):
                raise Unsupported('carry loop: bit %d' % bit)
            if bit:
                if b2 != bb:
                    raise Unsupported('carry loop ends at a one bit')
                for o in objs:
                    if not same(e.mem.get(o), swap(st.mem[o], k0, T.add(kk, 1))[0]):
                        # dead copies of the counter
                        if not mentions(e.mem.get(o), kk):
                            raise Unsupported('counter of the carry loop')
                for o, a in st.mem.items():
                    if o != self.r and o not in objs and not same(e.mem.get(o, UNINIT), a) and a is not UNINIT:
                        if o not in locals_of(st, fr) or not mentions(e.mem.get(o), kk):
                            raise Unsupported('carry loop changes %r' % (o,))
            else:
                if b2 == bb:
                    raise Unsupported('carry loop goes on at a zero bit')
                exits.append((e, b2))
        e, b2 = exits[0]
        out = []
        pre = rslice(r, 0, k0, st).segs
        for over in (False, True):
            s = e.copy()
            s.pc = st.pc
            for o in locals_of(s, fr):
                if mentions(s.mem[o], kk):
                    s.mem[o] = UNINIT
            s.mem[self.r] = Rope(norm(pre + ((('z', 0, n), ('c', (1, 0, 0))) if over else (('s', 'tail%d' % (c + 1), k0, n), ('c', (0, 0, 0))))))
            s.g = dict(st.g)
            s.g['carry'] = c + 1
            if over:
                s.g['over'] = True
            out.append((s, b2))
        return out

    def probe(self, ex, s, f, fr, bb):
        work, outs = [(s, bb, {})], []
        old = ex.loops.get(f.name)
        ex.loops[f.name] = lambda ex, st, f, fr, bb: collect(st, bb)
        try:
            while work:
                s2, b, v = work.pop()
                ex.exec_path(s2, f, fr, b, v, work, outs)
        finally:
            ex.loops[f.name] = old
        return outs

def t_slide(pr):
    """for scalars below 2^253: digits that are 0 or odd in -15..15, with the value of the scalar"""
    ex, st = pr.ex, State(pr.ex)
    bs = tuple(ex.fresh('a%d' % i, 0, 31 if i == 31 else 255) for i in range(32))
    m = ex.srclen('rest', 0, None)
    bits = tuple(T.b_and(1, T.div(bs[j >> 3], 1 << (j & 7))) for j in range(256))
    d = T.poly(T.sub(T.sumt([T.scale(b, 1 << j) for j, b in enumerate(bits)]), kit.le(bs)))
    pr.rec('the bits have the value of the scalar', 'proved' if not d else 'unknown', 'polynomials')
    rule = Slide(pr, bits)
    ex.loops[SLIDE] = rule
    outs = pr.call(SLIDE, [kit.byteslice(ex, st, Rope((('c', bs), ('s', 'rest', 0, m))))], st)
    if rule.head is None:
        raise Unsupported('no recoding loop was recognised')
    nbad = len([r for r in pr.recs if r['status'] != 'proved'])
    pr.rec('recoding keeps the value, at every position and for every window (%d paths)' % rule.npaths, 'proved' if not nbad else 'unknown', 'execution of all windows')
    left = set()
    for s, v in outs:
        r = rope_of(v)
        if norm(rslice(r, 0, 246, s).segs) != (('z', DIG, 246),):
            raise Unsupported('digits change after they are set')
        e = explicit(rslice(r, 246, 10, s), s, 10)
        w = s.g['left']
        left.add(w)
        if not all(isinstance(x, int) for x in e):
            raise Unsupported('digits are not determined')
        k = sum(x << j for j, x in enumerate(e))
        if k != w:
            pr.rec('the last positions keep the value', 'refuted', 'execution', 'bits %s give %s' % (bin(w), e), {'window': w})
        elif not all(x == 0 or x % 2 and -15 <= x <= 15 for x in e):
            pr.rec('the last digits are 0 or odd in -15..15', 'unknown', 'execution', e)
    pr.rec('the last ten positions, from every state (%d)' % len(left), 'proved' if len(left) == 129 else 'unknown', 'execution')
    pr.flush()

# ------------------------------------------------------------------ [a]A + [b]B
DIGITS = (0,) + tuple(range(-15, 16, 2))

def h_slide(ex, st, f, a):
    r = ex.slice_rope(st, a[0])
    ex.oblige(st, T.ge(r.length(), 32), 'precondition of slide: 32 bytes')
    bs = explicit(rslice(r, 0, 32, st), st, 32)
    ex.oblige(st, T.lt(kit.le(bs), 1 << 253), 'precondition of slide: below 2^253')
    return Rope((('z', Abs('digits', bs), 256),))

class Horner:
    """first loop: skips positions where both digits are 0.  Second loop: r = [sum over j > i of a_j 2^(j-i-1)]A + the same for b and B"""
    def __init__(self, pr, a, b):
        self.pr, self.a, self.b = pr, a, b
        self.h1 = self.h2 = None
        self.n = 0

    def __call__(self, ex, st, f, fr, bb):
        m = st.g.get('gm')
        if m is None:
            return self.arrive(ex, st, f, fr, bb)
        return collect(st, bb)

    def digits(self, s, i, da, db):
        for o, bs, d in ((self.oa, self.a, da), (self.ob, self.b, db)):
            A = Abs('digits', bs)
            s.mem[o] = Rope(norm((('z', A, i), ('c', (d,)), ('z', A, T.sub(255, i)))))

    def arrays(self, st, fr, bs):
        return [o for o in locals_of(st, fr) if isinstance(st.mem[o], Rope) and same(st.mem[o].segs, (('z', Abs('digits', bs), 256),))]

    def ends(self, ex, s, f, fr, bb):
        ends = []
        s.g['gm'] = ('collect', bb, ends, None)
        outs = running(ex, s, f, fr, bb)
        return ends, outs

    def arrive(self, ex, st, f, fr, bb):
        oa, ob = self.arrays(st, fr, self.a), self.arrays(st, fr, self.b)
        if len(oa) != 1 or len(ob) != 1:
            return None
        self.oa, self.ob = oa[0], ob[0]
        rs = [o for o in locals_of(st, fr) if isinstance(st.mem[o], Abs) and st.mem[o].kind == 'point' and st.mem[o].data == (NAME[P2], ())]
        if not rs:
            # a loop before the accumulator exists
            return None
        if len(rs) != 1:
            raise Unsupported('accumulator')
        self.h1, self.r = bb, rs[0]
        skip = {self.oa, self.ob}
        t = st.copy()
        self.digits(t, 255, 0, 0)
        # the trial must come back to the head with every digit 0
        l1 = Loop(ex, st, f, fr, bb, skip, t)
        i = ex.fresh('i', 0, 255)
        k = T.sub(255, i)
        E = {}
        for pos, kk in ((255, 0), (i, k)):
            for da in DIGITS:
                for db in DIGITS:
                    s = l1.general(kk)
                    self.digits(s, pos, da, db)
                    arr = (s.mem[self.oa], s.mem[self.ob])
                    ends, outs = self.ends(ex, s, f, fr, bb)
                    self.n += len(ends) + len(outs)
                    for e, b in ends:
                        if not (same(e.mem[self.oa], arr[0]) and same(e.mem[self.ob], arr[1])):
                            raise Unsupported('digits change')
                        if b == bb:
                            if da or db:
                                # the first digit is never negative when the scalars are not (the contract of slide does not say so)
                                self.wrong('a position with digits %d, %d is skipped' % (da, db), open_=da <= 0 and db <= 0)
                            l1.check(e, T.add(kk, 1))
                        else:
                            if self.h2 not in (None, b):
                                raise Unsupported('loops of an unexpected shape')
                            self.h2 = b
                            if comb(ex, P2, e.mem[self.r]):
                                raise Unsupported('accumulator')
                            E.setdefault(0 if pos == 255 else 1, []).append(e)
                    for s2, v in outs:
                        if da or db:
                            self.wrong('returns with digits %d, %d left' % (da, db))
                        if not s2.known(T.eq(i, 0)) or comb(ex, P2, v):
                            self.wrong('returns %s at the first positions without digits' % show_comb(comb(ex, P2, v)))
        if self.h2 is None:
            raise Unsupported('one loop only')
        # second loop
        skip = skip | {self.r}
        e0 = E[0][0]
        e0 = e0.copy()
        e0.g.pop('gm', None)
        e0.pc = st.pc
        t = e0.copy()
        self.digits(t, 255, 1, 1)
        # temporaries that differ between the ways to get there are dead
        for o in locals_of(e0, fr):
            if o not in skip and any(not same(x.mem.get(o, UNINIT), e0.mem[o]) for x in E[0]):
                e0.mem[o] = UNINIT
                t.mem[o] = UNINIT
        l2 = Loop(ex, e0, f, fr, self.h2, skip, t)
        for o in locals_of(e0, fr):
            if o not in skip and not l2.lin.get(o) and any(not same(x.mem.get(o, UNINIT), e0.mem[o]) for x in E.get(1, ())):
                l2.lin[o] = None
        l2.base.mem = {o: v for o, v in l2.base.mem.items() if v is not UNINIT}
        for x in E.get(1, ()):
            l2.check(x, k)
        ca, cb = ex.fresh('ca', None, None), ex.fresh('cb', None, None)
        for da in DIGITS:
            for db in DIGITS:
                s = l2.general(k)
                self.digits(s, i, da, db)
                arr = (s.mem[self.oa], s.mem[self.ob])
                s.mem[self.r] = point(P2, {'A': ca, 'B': cb})
                want = {'A': T.add(T.scale(ca, 2), da), 'B': T.add(T.scale(cb, 2), db)}
                ends, outs = self.ends(ex, s, f, fr, self.h2)
                self.n += len(ends) + len(outs)
                for e, b in ends:
                    if b != self.h2 or not (same(e.mem[self.oa], arr[0]) and same(e.mem[self.ob], arr[1])):
                        raise Unsupported('loops of an unexpected shape')
                    l2.check(e, T.add(k, 1))
                    self.agree(ex, e.mem[self.r], want, da, db)
                for s2, v in outs:
                    if not s2.known(T.eq(i, 0)):
                        self.wrong('returns before the last position')
                    self.agree(ex, v, want, da, db)
        ex.used['loop invariant of %s' % f.name] = 1
        out = st.copy()
        out.g['gm'] = ('done',)
        # by the contract of slide the sums over all positions are the scalars
        return [('ret', out, point(P2, {'A': T.var('sumA', None, None), 'B': T.var('sumB', None, None)}))]

    def agree(self, ex, v, want, da, db):
        d = comb(ex, P2, v)
        if any(T.poly(T.sub(d.get(g, 0), want.get(g, 0))) for g in set(d) | set(want)):
            self.wrong('digits %d, %d: the accumulator becomes %s' % (da, db, show_comb(d)), {'digit of the first scalar': da, 'digit of the second': db})

    def wrong(self, what, model=None, open_=False):
        self.pr.rec('each step doubles and adds the digits', 'unknown' if open_ else 'refuted', 'execution', what, model)

def t_double(pr):
    """[a]A + [b]B for scalars below 2^253"""
    ex, st = pr.ex, State(pr.ex)
    install_group(ex)
    ex.contracts[SLIDE] = h_slide
    a, b = [tuple(ex.fresh('%s%d' % (n, i), 0, 31 if i == 31 else 255) for i in range(32)) for n in 'ab']
    rule = Horner(pr, a, b)
    ex.loops[DOUBLE] = rule
    args = []
    for n, bs in (('resta', a), ('restb', b)):
        args.append(kit.byteslice(ex, st, Rope((('c', bs), ('s', n, 0, ex.srclen(n, 0, None))))))
    outs = pr.call(DOUBLE, [args[0], point(P3, {'A': 1}), args[1]], st)
    if rule.h2 is None:
        raise Unsupported('no loop over the digits was recognised')
    bad = [r for r in pr.recs if r['status'] != 'proved']
    pr.rec('each step doubles and adds the digits (%d paths)' % rule.n, 'proved' if not bad else 'unknown', 'execution of all digits')
    for s, v in outs:
        d = comb(ex, P2, v)
        pr.rec('the result is [a]A + [b]B', 'proved' if d == {'A': T.var('sumA', None, None), 'B': T.var('sumB', None, None)} else 'unknown', 'loop rule', show_comb(d))
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.flush()

def tasks(prog):
    return [(BASE, t_base), (SLIDE, t_slide), (DOUBLE, t_double)]
