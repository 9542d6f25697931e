"""Contracts of the SHA-512 implementation."""
from .fmts import *
from . import kit, loops
from . import hashspec as HS

MOD = 'minisign::crypto::sha512::'
HASH, STATE = MOD + 'Hash', MOD + 'State'
BLOCKS = STATE + '::blocks'
MAXLEN = 1 << 60

def words_of(ex, key):
    """the eight opaque words of the state after the blocks of rope `key` (a multiple of 128 bytes)"""
    if not key:
        return tuple(HS.IV512)
    t = ex.keynames.setdefault('shafold', {})
    for k, w in t.items():
        if same(k, key):
            return w
    w = tuple(T.var('fold%d.%d' % (len(t), i), 0, HS.M64 - 1) for i in range(8))
    t[key] = w
    return w

def key_of(ex, words):
    if same(tuple(words), tuple(HS.IV512)):
        return ()
    for k, w in ex.keynames.get('shafold', {}).items():
        if same(tuple(words), w):
            return k
    raise Unsupported('hash state that is not the state after some blocks')

def fold(ex, st, words, r):
    """state after absorbing the whole blocks r from `words`"""
    k = Rope(key_of(ex, words)).concat(r)
    return words_of(ex, B.key(canon(ex, st, k)))

def h_blocks(ex, st, f, a):
    p, inp = a
    r = ex.slice_rope(st, inp)
    n = r.length()
    rest = T.mod(n, 128)
    full = T.sub(n, rest)
    v = ex.load(st, p.obj, p.path)
    w0 = field(ex.p, STATE, v, statefield(ex.p))
    w = fold(ex, st, explicit(rope_of(w0), st, 8), rslice(r, 0, full, st))
    ex.store(st, p.obj, p.path, mkstate(ex.p, w))
    return rest

def statefield(prog):
    fs = [n for n, t in kit.fieldnames(prog, STATE) if prog.types[prog.strip(t)].kind == 'array']
    if len(fs) != 1:
        raise Missing('words of ' + STATE)
    return fs[0]

def mkstate(prog, w):
    return build(prog, STATE, lambda p, t: tuple(w) if t.kind == 'array' else None)

def pad(N):
    """FIPS 180-4 padding after N bytes (N below 2^61): 0x80, zeros, 128-bit length in bits"""
    z = T.mod(T.sub(111, N), 128)
    bits = T.scale(N, 8)
    return Rope((('c', (0x80,)), ('z', 0, z), ('c', (0,) * 8 + tuple(T.mod(T.div(bits, 1 << 56 - 8 * i), 256) for i in range(8)))))

def bebytes(w):
    return tuple(T.mod(T.div(x, 1 << 56 - 8 * i), 256) for x in w for i in range(8))

def compare(pr, st, got, want, name):
    """got and want: words as terms"""
    ok = all(a is b or same(a, b) for a, b in zip(got, want))
    if ok:
        return pr.rec(name, 'proved', 'canonical terms')
    from ..mv import sweep
    r, x = sweep.equivalent(list(got), list(want))
    pr.rec(name, r, 'sweeping', 'not the same function of state and block', x)

# ------------------------------------------------------------------------------ obligations
def t_blocks(pr):
    """State::blocks folds the compression function over the whole blocks and returns the length of the rest"""
    ex, p = pr.ex, pr.p
    pr.get(BLOCKS)
    # one block
    st = State(ex)
    w = tuple(T.var('s%d' % i, 0, HS.M64 - 1) for i in range(8))
    sp = kit.ref(ex, st, mkstate(p, w), STATE)
    outs = pr.call(BLOCKS, [sp, kit.byteslice(ex, st, rope('blk', 128))], st)
    pr.rec('returns for one block (vacuity)', 'proved' if outs else 'unknown', 'execution')
    spec = HS.sha_compress(w, barr('blk', 128))
    for s, v in outs:
        compare(pr, s, arr(field(p, STATE, ex.load(s, sp.obj, sp.path), statefield(p)), s, 8), spec, 'one block: the FIPS 180-4 compression function')
        pr.prove(s, T.eq(v, 0), 'one block: nothing is left over')
    pr.flush()

def t_blocks_any(pr):
    ex, p = pr.ex, pr.p
    pr.get(BLOCKS)
    st = State(ex)
    w = tuple(T.var('s%d' % i, 0, HS.M64 - 1) for i in range(8))
    n = ex.srclen('input', 0, MAXLEN)
    sp = kit.ref(ex, st, mkstate(p, w), STATE)
    def step(ex, st, k, h):
        o = T.scale(k, 128)
        return HS.sha_compress(h, [sbyte('input', T.add(o, i)) for i in range(128)])
    folds = {}
    def fold(k):
        return folds.setdefault(k, tuple(T.var('g%d(%s)' % (i, len(folds)), 0, HS.M64 - 1) for i in range(8)))
    rule = loops.CountedFold(w, step, fold)
    name = pr.get(BLOCKS).name
    ex.loops[name] = rule
    outs = pr.call(BLOCKS, [sp, kit.byteslice(ex, st, rope('input', n))], st)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    q = T.div(n, 128)
    for s, v in outs:
        got = arr(field(p, STATE, ex.load(s, sp.obj, sp.path), statefield(p)), s, 8)
        pr.prove(s, T.eq(v, T.mod(n, 128)), 'returns the length of the incomplete block')
        ks = [k for k, g in folds.items() if same(got, g)]
        if same(got, w):
            pr.prove(s, T.lt(n, 128), 'the state is unchanged only if there is no whole block')
        elif len(ks) == 1:
            pr.prove(s, T.eq(ks[0], q), 'every whole block is absorbed, once and in order')
        elif same(got, tuple(step(ex, s, 0, w))):
            pr.prove(s, T.eq(q, 1), 'one block')
        else:
            pr.rec('the state is a fold over the blocks', 'unknown', '', 'state not recognized')
    pr.flush()

def generic(pr, st):
    """a hasher that has absorbed the opaque string M of any length: representation invariant of Hash"""
    ex, p = pr.ex, pr.p
    q = ex.fresh('blocks', 0, MAXLEN >> 8)
    r = ex.fresh('fill', 0, 127)
    N = T.add(T.scale(q, 128), r)
    K = rope('M', T.scale(q, 128))
    w = fold(ex, st, HS.IV512, K)
    buf = Rope(norm((('s', 'M', T.scale(q, 128), r), ('s', 'junk', r, T.sub(128, r)))))
    def mk(path, t):
        if path == 'r':
            return r
        if path == 'len':
            return N
        if path == 'w':
            return buf
        if t.kind == 'array':
            return w
        return None
    names = dict(kit.fieldnames(p, HASH))
    for n in ('state', 'w', 'r', 'len'):
        if n not in names:
            raise Missing('field %s of %s' % (n, HASH))
    if len(names) != 4:
        raise Missing('fields of ' + HASH)
    return build(p, HASH, mk), rope('M', N), N

def invariant(pr, s, v, total, pre='invariant'):
    """v represents the absorbed rope `total`"""
    ex, p = pr.ex, pr.p
    L = total.length()
    F = lambda f: field(p, HASH, v, f)
    r = F('r')
    pr.prove(s, T.eq(F('len'), L), pre + ': len is the number of bytes absorbed')
    pr.prove(s, T.eq(r, T.mod(L, 128)), pre + ': r is that number mod 128')
    w = F('state')
    while isinstance(w, tuple) and len(w) == 1:
        w = w[0]
    key = Rope(key_of(ex, explicit(rope_of(w), s, 8)))
    kit.prove_match(pr, s, key, rslice(total, 0, T.sub(L, r), s), pre + ': the state is the fold of the whole blocks')
    kit.prove_match(pr, s, rslice(rope_of(F('w')), 0, r, s), rslice(total, T.sub(L, r), r, s), pre + ': the buffer holds the incomplete block')

def absorbed(pr, fn):
    return [n for n in pr.p.byname if n.startswith(HASH + '::' + fn + '::<') or n == HASH + '::' + fn]

def t_new(pr):
    ex = pr.ex
    pr.generic = True
    st = State(ex)
    outs = pr.call(HASH + '::new', [], st)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.each(outs, lambda s, v: invariant(pr, s, v, Rope(())))
    pr.flush()

def t_update(pr):
    ex = pr.ex
    pr.generic = True
    pr.get(BLOCKS)
    ex.contracts[BLOCKS] = h_blocks
    fs = absorbed(pr, 'update')
    if not fs:
        raise Missing(HASH + '::update')
    for fn in fs:
        if not fn.endswith('<&[u8]>'):
            raise Unsupported('instance ' + fn)
        st = State(ex)
        h, M, N = generic(pr, st)
        n = ex.srclen('input', 0, MAXLEN >> 1)
        sp = kit.ref(ex, st, h, HASH)
        outs = pr.call(fn, [sp, kit.byteslice(ex, st, rope('input', n))], st)
        pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        pr.each(outs, lambda s, v: invariant(pr, s, ex.load(s, sp.obj, sp.path), simp(s, M.concat(rope('input', n)))))
    pr.flush()

def digest_is(pr, s, out, M, what):
    """out is the SHA-512 digest of the rope M"""
    ex = pr.ex
    want = M.concat(pad(M.length()))
    out = arr(out, s, 64)
    for k, w in reversed(list(ex.keynames.get('shafold', {}).items())):
        if same(out, bebytes(w)):
            return kit.prove_match(pr, s, Rope(k), want, what + ': the blocks absorbed are the message and the FIPS 180-4 padding')
    ws = list(ex.keynames.get('shafold', {}).values())
    pr.rec(what + ': big-endian words of the final state', 'refuted' if ws and all(kit.differ(out, bebytes(w)) for w in ws) else 'unknown', 'evaluation', T.show(out[0], 4))

def t_finalize(pr):
    ex = pr.ex
    pr.generic = True
    pr.get(BLOCKS)
    ex.contracts[BLOCKS] = h_blocks
    st = State(ex)
    h, M, N = generic(pr, st)
    arg = h
    f = pr.get(HASH + '::finalize')
    ty = f.body['locals'][1]
    if pr.p.types[pr.p.strip(ty)].kind in ('ref', 'ptr'):
        arg = kit.ref(ex, st, h, HASH)
    outs = pr.call(HASH + '::finalize', [arg], st)
    pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.each(outs, lambda s, v: digest_is(pr, s, v, simp(s, M), 'finalize'))
    pr.flush()

def t_hash(pr):
    ex = pr.ex
    pr.get(BLOCKS)
    ex.contracts[BLOCKS] = h_blocks
    fs = absorbed(pr, 'hash')
    if not fs:
        raise Missing(HASH + '::hash')
    for fn in fs:
        if not fn.endswith('<&[u8]>'):
            raise Unsupported('instance ' + fn)
        st = State(ex)
        n = ex.srclen('input', 0, MAXLEN)
        outs = pr.call(fn, [kit.byteslice(ex, st, rope('input', n))], st)
        pr.rec('returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        pr.each(outs, lambda s, v: digest_is(pr, s, v, simp(s, rope('input', n)), 'hash'))
    pr.flush()

def t_stream(chunks):
    """new, update with any strings, finalize: end to end, independent of the representation"""
    def t(pr):
        ex = pr.ex
        pr.get(BLOCKS)
        ex.contracts[BLOCKS] = h_blocks
        fs = absorbed(pr, 'update')
        if len(fs) != 1:
            raise Unsupported('instances of ' + HASH + '::update')
        M = Rope(())
        states = []
        for s, v in pr.call(HASH + '::new', [], State(ex)):
            states.append((s, kit.ref(ex, s, v, HASH)))
        for c in range(chunks):
            n = ex.srclen('in%d' % c, 0, MAXLEN >> 2)
            M = M.concat(rope('in%d' % c, n))
            nxt = []
            for s, sp in states:
                for s2, _ in pr.call(fs[0], [sp, kit.byteslice(ex, s, rope('in%d' % c, n))], s):
                    nxt.append((s2, sp))
            states = nxt
        f = pr.get(HASH + '::finalize')
        byref = pr.p.types[pr.p.strip(f.body['locals'][1])].kind in ('ref', 'ptr')
        n = 0
        for s, sp in states:
            outs = pr.call(HASH + '::finalize', [sp if byref else ex.load(s, sp.obj, sp.path)], s)
            n += len(outs)
            pr.each(outs, lambda s, v: digest_is(pr, s, v, simp(s, M), '%d updates' % chunks))
        pr.rec('returns (vacuity)', 'proved' if n else 'unknown', 'execution')
        pr.flush()
    return t

def t_probe(pr):
    """ordinary histories of short inputs"""
    ex = pr.ex
    pr.get(BLOCKS)
    ex.contracts[BLOCKS] = h_blocks
    fs = absorbed(pr, 'update')
    if len(fs) != 1:
        raise Unsupported('instances of ' + HASH + '::update')
    for hist in ((), (0,), (1,), (127, 1), (128,), (129,), (1, 127), (256,), (64, 64, 64), (128, 128, 1), (300, 100), (3, 400)):
        states = [(s, kit.ref(ex, s, v, HASH)) for s, v in pr.call(HASH + '::new', [], State(ex))]
        n = 0
        for c in hist:
            states = [(s2, sp) for s, sp in states for s2, _ in pr.call(fs[0], [sp, kit.byteslice(ex, s, Rope((('s', 'T', n, c),)) if c else Rope(()))], s)]
            n += c
        for s, sp in states:
            pr.each([(s, None)], lambda s, _: invariant(pr, s, ex.load(s, sp.obj, sp.path), rope('T', n), 'probe'))
    ex.obl = []
