"""Contracts of the BLAKE2b implementation."""
from .fmts import *
from . import kit, loops
from . import hashspec as HS

BL = 'minisign::crypto::blake2b::Blake2b'
COMPRESS, NEW, UPDATE, FINALIZE, ONCE = [BL + '::' + x for x in ('compress', 'new', 'update', 'finalize', 'blake2b')]
CLONE = '<%s as std::clone::Clone>::clone' % BL
MAXLEN = 1 << 60
FIELDS = ('h', 't', 'f', 'buf', 'buflen')

def base_words(o):
    """initial chaining value for digests of o bytes without key, RFC 7693 (2.5, 3.3)"""
    return (T.b_xor(HS.IV512[0], T.add(0x01010000, o)),) + tuple(HS.IV512[1:])

class Fold:
    """opaque chaining values: (initial words, bytes absorbed as whole blocks, is the last block included)"""
    def __init__(self):
        self.l = []
    def words(self, base, key, final, total):
        if not key and not final:
            return base
        for b, k, f, n, w in self.l:
            if f == final and same(b, base) and same(k, key) and (not final or same(n, total)):
                return w
        w = tuple(T.var('%s%d.%d' % ('digest' if final else 'chain', len(self.l), i), 0, HS.M64 - 1) for i in range(8))
        self.l.append((base, key, final, total, w))
        return w
    def find(self, w):
        w = tuple(w)
        for b, k, f, n, x in self.l:
            if same(w, x):
                return b, k, f, n
        # any other words are a chaining value nothing has been absorbed into
        return w, (), False, 0

def folds(ex):
    return ex.keynames.setdefault('b2fold', Fold())

def F(p, v, n):
    return field(p, BL, v, n)

def setf(p, v, **kw):
    names = [n for n, t in kit.fieldnames(p, BL)]
    l = list(v)
    for k, x in kw.items():
        if k not in names:
            raise Missing('field %s of %s' % (k, BL))
        l[names.index(k)] = x
    return tuple(l)

def check_fields(p):
    names = dict(kit.fieldnames(p, BL))
    for n in FIELDS:
        if n not in names:
            raise Missing('field %s of %s' % (n, BL))

def h_compress(ex, st, f, a):
    """ghost contract: absorbs buf[0..128], as the last block (f set, t = number of message bytes) or another one (t = bytes so far with this block)"""
    if len(a) != 1 or not isinstance(a[0], Ptr):
        raise Unsupported('signature of ' + COMPRESS)
    p = a[0]
    v = ex.load(st, p.obj, p.path)
    h = explicit(rope_of(F(ex.p, v, 'h')), st, 8)
    t = explicit(rope_of(F(ex.p, v, 't')), st, 2)
    fl = explicit(rope_of(F(ex.p, v, 'f')), st, 2)
    base, key, final, _ = folds(ex).find(h)
    blk = rslice(rope_of(F(ex.p, v, 'buf')), 0, 128, st)
    n = Rope(key).length()
    if final:
        raise Unsupported('compression after the last block')
    if same(fl, (0, 0)):
        ex.oblige(st, T.band_(T.eq(t[0], T.add(n, 128)), T.eq(t[1], 0)), 'BLAKE2b: the counter is the number of bytes up to this block')
        w = folds(ex).words(base, B.key(canon(ex, st, Rope(key).concat(blk))), False, None)
    elif same(fl, (HS.M64 - 1, 0)):
        tail = T.sub(t[0], n)
        ex.oblige(st, T.band_(T.le(0, tail), T.le(tail, 128), T.eq(t[1], 0)), 'BLAKE2b: the last counter is the number of message bytes')
        if not st.assume(T.band_(T.le(0, tail), T.le(tail, 128))):
            raise Unsupported('counter at the last block')
        w = folds(ex).words(base, B.key(canon(ex, st, Rope(key).concat(blk))), True, t[0])
    else:
        raise Unsupported('finalization flags %r' % (fl,))
    ex.store(st, p.obj, p.path, setf(ex.p, v, h=w))
    return ()

def digest_is(pr, s, out, base, M, o, what):
    """out is the BLAKE2b digest of the rope M with o bytes"""
    ex = pr.ex
    out = arr(out, s, o)
    lebytes = lambda x: tuple(T.mod(T.div(x[4][i // 8], 1 << 8 * (i % 8)), 256) for i in range(o))
    w = [x for x in folds(ex).l if x[2] and same(lebytes(x), out)]
    if not w:
        fs = [x for x in folds(ex).l if x[2]]
        return pr.rec(what + ': little-endian words of the final chaining value', 'refuted' if fs and all(kit.differ(out, lebytes(x)) for x in fs) else 'unknown', 'evaluation', T.show(out[0], 4))
    b, k, f, n, _ = w[-1]
    L = M.length()
    if not same(b, base):
        return pr.rec(what + ': initial chaining value', 'refuted', 'canonical terms', T.show(b[0], 4))
    pr.prove(s, T.eq(n, L), what + ': the last counter is the message length')
    z = T.sub(Rope(k).length(), L)
    pr.prove(s, T.band_(T.le(0, z), T.le(z, 128), T.bor_(T.lt(z, 128), T.eq(L, 0))), what + ': the last block is the last one with message bytes')
    return kit.prove_match(pr, s, Rope(k), simp(s, M.concat(Rope((('z', 0, z),)))), what + ': the blocks absorbed are the message, zero-padded')

# ------------------------------------------------------------------------------ representation invariant
class Rep:
    """a hasher for digests of o bytes that has absorbed the first N bytes of the opaque string src"""
    def __init__(self, pr, o):
        self.pr, self.ex, self.p, self.o = pr, pr.ex, pr.p, o
        check_fields(self.p)
        # every other field is as `new` leaves it
        noctr = pr.ex.contracts.get(NEW)
        outs = pr.call(NEW, [o], State(self.ex))
        if len(outs) != 1:
            raise Unsupported('several outcomes of ' + NEW)
        self.tpl = outs[0][1]
        pr.ex.obl = []
        self.base = base_words(o)

    def generic(self, st, src, whole, header=False):
        """(value, number of bytes absorbed); whole: at least one block has been compressed; None: nothing has been absorbed"""
        ex = self.ex
        if whole is None:
            return self.tpl, 0
        if whole:
            k = ex.fresh('blocks', 1, MAXLEN >> 8)
            bl = ex.fresh('fill', 128 if header else 129, 256)
        else:
            k, bl = 0, ex.fresh('fill', 1, 256)
        K = T.scale(k, 128)
        N = T.add(K, bl)
        w = folds(ex).words(self.base, B.key(rope(src, K)) if whole else (), False, None)
        buf = Rope(norm((('s', src, K, bl), ('s', 'junk%d' % ex.newid(), bl, T.sub(256, bl)))))
        return setf(self.p, self.tpl, h=w, t=(K, 0), f=(0, 0), buf=buf, buflen=bl), N

    def invariant(self, s, v, src, header=None, pre='invariant'):
        """v has absorbed src[0..N]: proves the representation invariant, returns N"""
        pr, ex, p = self.pr, self.ex, self.p
        b, k, f, _ = folds(ex).find(explicit(rope_of(F(p, v, 'h')), s, 8))
        if f or not same(b, self.base):
            pr.rec(pre + ': chaining value of whole blocks', 'refuted', '', '')
            return None
        K = Rope(k).length()
        bl = F(p, v, 'buflen')
        t = explicit(rope_of(F(p, v, 't')), s, 2)
        N = T.add(K, bl)
        pr.prove(s, T.band_(T.eq(t[0], K), T.eq(t[1], 0)), pre + ': counter is the number of bytes compressed')
        pr.prove(s, T.band_(T.le(0, bl), T.le(bl, 256)), pre + ': the buffer has room')
        pr.prove(s, T.bor_(T.eq(K, 0), T.le(128 if header else 129, bl)), pre + ': the last block is still in the buffer')
        rest = [n for n, _ in kit.fieldnames(p, BL) if n not in FIELDS + ('f',)]
        ok = all(same(F(p, v, n), F(p, self.tpl, n)) or same(B_norm(F(p, v, n)), B_norm(F(p, self.tpl, n))) for n in rest)
        pr.rec(pre + ': nothing else changes', 'proved' if ok and same(explicit(rope_of(F(p, v, 'f')), s, 2), (0, 0)) else 'refuted', 'canonical terms', '')
        kit.prove_match(pr, s, Rope(k), rope(src, K), pre + ': the whole blocks, in order')
        kit.prove_match(pr, s, rslice(rope_of(F(p, v, 'buf')), 0, bl, s), Rope((('s', src, K, bl),)), pre + ': the buffer holds the rest')
        s2 = s.copy()
        if s2.assume(T.eq(N, 0)):
            kit.prove_match(pr, s2, rope_of(F(p, v, 'buf')), rope_of(F(p, self.tpl, 'buf')), pre + ': an empty hasher is as `new` leaves it')
        return N

def B_norm(v):
    return norm(rope_of(v).segs) if isinstance(v, (Rope, tuple)) and v != () and not (isinstance(v, tuple) and any(isinstance(x, (tuple, Rope)) for x in v)) else v

class Absorb:
    """loop rule of `update`: at the header the hasher has absorbed a prefix of the input and the slice that is left is the rest of it"""
    def __init__(self, rep, sp, src, N):
        self.rep, self.sp, self.src, self.N = rep, sp, src, N

    def __call__(self, ex, st, f, fr, bb):
        key = ('absorb', fr.id, bb)
        m = st.g.get(key)
        if m is not None:
            if m[0] == 'go':
                st.g[key] = ('in', m[1])
                return None
            if m[0] == 'in':
                m[1].append(st)
                return []
            if m[0] == 'enter':
                st.g[key] = ('inv', m[1])
                return None
            self.back(ex, st, m[1])
            return []
        ends, s = [], st.copy()
        s.g[key] = ('go', ends)
        n0 = len(ex.obl)
        work, outs = [(s, bb, {})], []
        try:
            while work:
                s2, b2, v2 = work.pop()
                ex.exec_path(s2, f, fr, b2, v2, work, outs)
        finally:
            del ex.obl[n0:]
        if not ends:
            return None
        sp, src, N = self.sp, self.src, self.N
        p0 = self.prefix(ex, st)
        outs = []
        for whole in (None, False, True):
            g = st.copy()
            v, p = self.rep.generic(g, src, whole, True)
            if not g.assume(T.band_(T.le(p0, p), T.le(p, N), T.bor_(T.lt(p, N), T.le(129 if whole else 0, F(ex.p, v, 'buflen'))))):
                continue
            rules = {}
            for o in list(st.mem):
                if o == sp.obj:
                    continue
                a = st.mem[o]
                bs = [(e.mem.get(o, UNINIT), e) for e in ends]
                if all(same(a, b) for b, _ in bs):
                    continue
                if isinstance(a, Ptr) and self.suffix(ex, st, a, p0):
                    g.mem[o] = self.moved(a, p0, p)
                    rules[o] = ('suffix', a)
                elif isinstance(a, (int, Term)) and not isinstance(a, bool) and all(same(T.sub(b, a), T.sub(self.prefix(ex, e), p0)) for b, e in bs):
                    g.mem[o] = T.add(a, T.sub(p, p0))
                    rules[o] = ('int', a)
                elif isinstance(o, tuple) and o[0] == fr.id:
                    g.mem[o] = UNINIT
                    rules[o] = ('any',)
                else:
                    raise Unsupported('loop changes an object in an unknown way: %r' % (o,))
            ex.store(g, sp.obj, sp.path, v)
            g.g[key] = ('enter', dict(base=st, rules=rules, p0=p0, p=p, m=T.add(p, self.blocks(ex, g))))
            outs.append((g, bb))
        ex.used['loop invariant of %s' % f.name] = 1
        return outs

    def blocks(self, ex, st):
        v = ex.load(st, self.sp.obj, self.sp.path)
        return Rope(folds(ex).find(explicit(rope_of(F(ex.p, v, 'h')), st, 8))[1]).length()

    def prefix(self, ex, st):
        v = ex.load(st, self.sp.obj, self.sp.path)
        b, k, f, _ = folds(ex).find(explicit(rope_of(F(ex.p, v, 'h')), st, 8))
        return T.add(Rope(k).length(), F(ex.p, v, 'buflen'))

    def suffix(self, ex, st, a, p):
        s = st.copy()
        if not s.assume(T.lt(p, self.N)):
            return same(a.meta, T.sub(self.N, p))
        try:
            r = ex.slice_rope(s, a)
        except (Unsupported, Fork):
            return False
        return len(r.segs) == 1 and r.segs[0][0] == 's' and r.segs[0][1] == self.src and same(r.segs[0][2], p) and same(r.length(), T.sub(self.N, p))

    def moved(self, a, p0, p):
        d = T.sub(p, p0)
        path = a.path
        if path and isinstance(path[-1], (int, Term)) and not isinstance(path[-1], bool):
            path = path[:-1] + (T.add(path[-1], d),)
        else:
            raise Unsupported('slice cursor')
        return Ptr(a.obj, path, T.sub(a.meta, d))

    def back(self, ex, st, inv):
        pr = self.rep.pr
        v = ex.load(st, self.sp.obj, self.sp.path)
        p = self.rep.invariant(st, v, self.src, True, 'loop invariant')
        if p is None:
            return
        pr.prove(st, T.lt(inv['m'], T.add(p, self.blocks(ex, st))), 'the loop makes progress')
        pr.prove(st, T.bor_(T.lt(p, self.N), T.le(129, F(ex.p, v, 'buflen'))), 'loop invariant: the last block is compressed only if more follows')
        for o, a in inv['base'].mem.items():
            if o == self.sp.obj:
                continue
            b = st.mem.get(o, UNINIT)
            r = inv['rules'].get(o)
            ok = True
            if r is None:
                ok = same(a, b)
            elif r[0] == 'int':
                ok = loops.equal(st, b, T.add(a, T.sub(p, inv['p0'])))
            elif r[0] == 'suffix':
                x = self.moved(a, inv['p0'], p)
                ok = loops.equal(st, b, x)
            pr.rec('loop invariant: the rest of the input is what has not been absorbed', 'proved' if ok else 'unknown', 'canonical terms', '' if ok else '%r: %r' % (o, b))

# ------------------------------------------------------------------------------ obligations
def t_compress(pr):
    """the compression function F of RFC 7693, 3.2"""
    ex, p = pr.ex, pr.p
    check_fields(p)
    f = pr.get(COMPRESS)
    if f.body['argc'] != 1 if 'argc' in f.body else False:
        raise Missing('signature of ' + COMPRESS)
    st = State(ex)
    g = {n: tuple(T.var('%s%d' % (n, i), 0, HS.M64 - 1) for i in range(k)) for n, k in (('h', 8), ('t', 2), ('f', 2))}
    def mk(path, ty):
        if path in g:
            return g[path]
        if path == 'buf':
            return rope('buf', ty.k[2])
        if ty.kind == 'array':
            return rope('other ' + path, ty.k[2])
        if ty.kind == 'adt':
            return None
        if ty.kind == 'bool':
            return T.bvar(path)
        b, sg = p.intinfo(ty.id)
        return T.var(path, 0, (1 << b) - 1)
    v0 = build(p, BL, mk)
    sp = kit.ref(ex, st, v0, BL)
    outs = pr.call(COMPRESS, [sp], st)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    from . import sha
    for s, _ in outs:
        v = ex.load(s, sp.obj, sp.path)
        sha.compare(pr, s, explicit(rope_of(F(p, v, 'h')), s, 8), HS.b2_compress(g['h'], barr('buf', 128), g['t'], g['f']), 'chaining value: F(h, block, t, f)')
        for n, _ in kit.fieldnames(p, BL):
            if n != 'h':
                ok = same(B_norm(F(p, v, n)), B_norm(F(p, v0, n)))
                pr.rec('frame: %s' % n, 'proved' if ok else 'unknown', 'canonical terms')
    pr.flush()

SIZES = range(1, 65)

def t_new(pr):
    """initial chaining value for digests of every size; nothing absorbed"""
    pr.generic = True
    pr.get(NEW)
    for o in SIZES:
        rep = Rep(pr, o)
        for s, v in pr.call(NEW, [o], State(pr.ex)):
            rep.invariant(s, v, 'T')
            pr.rec('digests of the size asked for', 'proved' if same(F(pr.p, v, 'digest_length'), o) else 'refuted', '', '')
    pr.flush()

def contracts(pr):
    pr.get(COMPRESS)
    pr.ex.contracts[COMPRESS] = h_compress
    pr.ex.loops[FINALIZE] = loops.fill_rule()

def t_update(pr):
    ex = pr.ex
    pr.generic = True
    contracts(pr)
    o = 64
    rep = Rep(pr, o)
    n = 0
    for whole in (None, False, True):
        st = State(ex)
        N = ex.srclen('T', 0, MAXLEN)
        v, p0 = rep.generic(st, 'T', whole)
        if not st.assume(T.le(p0, N)):
            continue
        sp = kit.ref(ex, st, v, BL)
        inp = kit.byteslice(ex, st, Rope((('s', 'T', p0, T.sub(N, p0)),)))
        rule = Absorb(rep, sp, 'T', N)
        ex.loops[UPDATE] = rule
        def post(s, _):
            x = rep.invariant(s, ex.load(s, sp.obj, sp.path), 'T')
            if x is not None:
                pr.prove(s, T.eq(x, N), 'all of the input is absorbed')
        outs = pr.call(UPDATE, [sp, inp], st)
        n += len(outs)
        pr.each(outs, post)
    pr.rec('returns (vacuity)', 'proved' if n else 'unknown', 'execution')
    pr.flush()

def t_finalize(sizes):
    def t(pr):
        ex = pr.ex
        pr.generic = True
        contracts(pr)
        n = 0
        for o in sizes:
            rep = Rep(pr, o)
            for whole in (None, False, True):
                st = State(ex)
                v, N = rep.generic(st, 'T', whole)
                sp = kit.ref(ex, st, v, BL)
                def fin(st):
                    out = kit.byteslice(ex, st, rope('before%d' % ex.newid(), o))
                    return [(s, ex.slice_rope(s, out)) for s, _ in pr.call(FINALIZE, [sp, out], st)]
                M = rope('T', N)
                for s, d in fin(st):
                    n += 1
                    digest_is(pr, s, d, rep.base, simp(s, M), o, 'finalize')
                    for s2, d2 in fin(s):
                        kit.prove_match(pr, s2, d2, d, 'finalize again: the same digest')
        pr.rec('returns (vacuity)', 'proved' if n else 'unknown', 'execution')
        pr.flush()
    return t

def t_clone(pr):
    ex = pr.ex
    pr.generic = True
    pr.get(CLONE)
    rep = Rep(pr, 64)
    for whole in (None, False, True):
        st = State(ex)
        v, N = rep.generic(st, 'T', whole)
        sp = kit.ref(ex, st, v, BL)
        for s, c in pr.call(CLONE, [sp], st):
            pr.rec('the copy is in the same state', 'proved' if same(c, v) else 'unknown', 'canonical terms')
            pr.rec('the original is unchanged', 'proved' if same(ex.load(s, sp.obj, sp.path), v) else 'unknown', 'canonical terms')
    pr.flush()

def t_once(pr):
    """the one-shot function, any input"""
    ex = pr.ex
    pr.generic = True
    contracts(pr)
    for o in (32, 64):
        rep = Rep(pr, o)
        st = State(ex)
        N = ex.srclen('T', 0, MAXLEN)
        out = kit.byteslice(ex, st, rope('before', o))
        def rule(ex2, s, f, fr, bb, cache={}):
            k = ('rule', o, fr.id)
            if k not in cache:
                sp = ex2.load(s, (fr.id, 1), ())
                cache[k] = Absorb(rep, sp, 'T', N)
            return cache[k](ex2, s, f, fr, bb)
        ex.loops[UPDATE] = rule
        outs = pr.call(ONCE, [out, kit.byteslice(ex, st, rope('T', N))], st)
        pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        for s, _ in outs:
            digest_is(pr, s, ex.slice_rope(s, out), rep.base, simp(s, rope('T', N)), o, 'one-shot')
    pr.flush()

def t_probe(pr):
    """ordinary histories of short inputs, without the loop rule"""
    ex = pr.ex
    contracts(pr)
    o = 64
    rep = Rep(pr, o)
    for hist in ((), (0,), (1,), (127, 1), (128,), (129,), (1, 255), (256,), (257,), (128, 128, 128), (300, 100), (513,), (512, 128)):
        states = [(s, kit.ref(ex, s, v, BL)) for s, v in pr.call(NEW, [o], State(ex))]
        n = 0
        for c in hist:
            states = [(s2, sp) for s, sp in states for s2, _ in pr.call(UPDATE, [sp, kit.byteslice(ex, s, Rope((('s', 'T', n, c),)) if c else Rope(()))], s)]
            n += c
        for s, sp in states:
            x = rep.invariant(s, ex.load(s, sp.obj, sp.path), 'T', pre='probe')
            if x is not None:
                pr.prove(s, T.eq(x, n), 'probe: all of the input is absorbed')
    pr.ex.obl = []
