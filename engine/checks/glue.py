"""Contracts of the cryptographic primitives as used by the layers above them (each is proved against its
body by the checks C03-C07), and the invariant rule for loops that consume a reader."""
from ..mv import terms as T
from ..mv import solver
from ..mv import builtins as B
from ..mv.terms import T as Term
from ..mv.values import *
from ..mv.exec import State
from .kit import *
from . import kit

ED = 'minisign::crypto::ed25519::'
B2 = 'minisign::crypto::blake2b::Blake2b::'
B2T = 'minisign::crypto::blake2b::Blake2b'

def cname(ex, kind, parts):
    """name of the opaque string kind(parts)"""
    k = (kind,) + tuple(B.repr_key(p) if isinstance(p, tuple) else p for p in parts)
    n = ex.keynames.get(k)
    if n is None:
        n = ex.keynames[k] = '%s%d' % (kind, len(ex.keynames) + 1)
        B.src(ex, n, origin=(kind,) + tuple(parts))
    return n

# ------------------------------------------------------------------ hashing
def blake_name(ex, st, n, r):
    return cname(ex, 'blake2b_%s_' % n, (B.key(canon(ex, st, r)),))

def h_b2_new(ex, st, f, a):
    n = a[0]
    ex.oblige(st, T.band_(T.ge(n, 1), T.le(n, 64)), 'precondition of Blake2b::new: output length 1..=64')
    return Abs('blake2b', (n, Rope(())))

def _b2(ex, st, p):
    v = ex.load(st, p.obj, p.path)
    if not (isinstance(v, Abs) and v.kind == 'blake2b'):
        raise Unsupported('hasher in an unexpected representation')
    return v

def h_b2_update(ex, st, f, a):
    v = _b2(ex, st, a[0])
    r = ex.slice_rope(st, a[1])
    ex.store(st, a[0].obj, a[0].path, Abs('blake2b', (v.data[0], v.data[1].concat(r))))
    return ()

def h_b2_finalize(ex, st, f, a):
    v = _b2(ex, st, a[0])
    out = a[1]
    ex.oblige(st, T.eq(out.meta, v.data[0]), 'precondition of Blake2b::finalize: output buffer of the configured length')
    nm = blake_name(ex, st, v.data[0], v.data[1])
    n = v.data[0]
    ex.write_seq(st, out, Rope((('c', barr(nm, n)),)), B.u8id(ex))
    st.g['digests'] = st.g.get('digests', ()) + (nm,)
    return ()

def h_b2_once(ex, st, f, a):
    out, inp = a
    r = ex.slice_rope(st, inp)
    n = out.meta
    if not isinstance(n, int):
        n = st.conc(n)
    nm = blake_name(ex, st, n, r)
    ex.write_seq(st, out, Rope((('c', barr(nm, n)),)), B.u8id(ex))
    st.g['digests'] = st.g.get('digests', ()) + (nm,)
    return ()

def h_clone(ex, st, f, a):
    return ex.load(st, a[0].obj, a[0].path)

# ------------------------------------------------------------------ Ed25519
def edverify(ex, st, m, pk, sig):
    """truth value of the contract of ed25519::verify on these byte strings"""
    m, pk, sig = canon(ex, st, m), canon(ex, st, pk), canon(ex, st, sig)
    n = sig.length()
    ok = T.eq(n, 64)
    if isinstance(ok, Term) and st.known(ok):
        ok = True
    if ok is False:
        return False
    km, kp, ks = B.key(m), B.key(pk), B.key(sig)
    # every signature made with a secret key verifies under the public half stored in it (C03 + C04)
    if len(ks) == 1 and ks[0][0] == 's' and same(ks[0][2], 0) and same(ks[0][3], 64):
        o = B.attr(ex, ks[0][1], 'origin')
        if o and o[0] == 'edsig':
            skk = Rope(o[2])
            half = B.key(Rope((('c', explicit(skk, st, 64)[32:]),)))
            if same(o[1], km) and same(half, kp) and consistent(ex, st, skk):
                return ok
    calls = ex.keynames.setdefault('edcalls', [])
    for c in calls:
        if all(same_rope(ex, st, Rope(x), y) for x, y in zip(c, (m, pk, sig))):
            return T.band_(ok, T.buf_('edverify', c))
    calls.append((km, kp, ks))
    return T.band_(ok, T.buf_('edverify', (km, kp, ks)))

def consistent(ex, st, sk):
    """is the 64-byte secret key the output of keypair for its seed?"""
    e = explicit(sk, st, 64)
    half = B.key(Rope((('c', e[32:]),)))
    if len(half) == 1 and half[0][0] == 's':
        o = B.attr(ex, half[0][1], 'origin')
        return bool(o and o[0] == 'edpk' and same(o[1], B.key(Rope((('c', e[:32]),)))))
    return False

def h_ed_verify(ex, st, f, a):
    m, pk, sig = [ex.slice_rope(st, x) for x in a]
    ex.oblige(st, T.eq(pk.length(), 32), 'precondition of ed25519::verify: public key of 32 bytes')
    st.g['edverify'] = st.g.get('edverify', 0) + 1
    return edverify(ex, st, m, pk, sig)

def h_ed_keypair(ex, st, f, a):
    seed = ex.slice_rope(st, a[0])
    ex.oblige(st, T.eq(seed.length(), 32), 'precondition of ed25519::keypair: seed of 32 bytes')
    pk = barr(pk_name(ex, st, seed), 32)
    return (explicit(seed, st, 32) + pk, pk)

def pk_name(ex, st, seed):
    return cname(ex, 'edpk', (B.key(canon(ex, st, seed)),))

def h_ed_sign(ex, st, f, a):
    m, sk = ex.slice_rope(st, a[0]), ex.slice_rope(st, a[1])
    ex.oblige(st, T.eq(sk.length(), 64), 'precondition of ed25519::signature: secret key of 64 bytes')
    z = a[2]
    if not isinstance(z, En):
        raise Unsupported('noise argument')
    kz = B.key(canon(ex, st, ex.slice_rope(st, z.f[0]))) if z.v == 1 else None
    nm = cname(ex, 'edsig', (B.key(canon(ex, st, m)), B.key(canon(ex, st, sk)), kz if kz is not None else 'none'))
    st.g['signed'] = st.g.get('signed', ()) + (nm,)
    return barr(nm, 64)

def install(pr, ed=True, b2=True, loops=True):
    ex = pr.ex
    if b2:
        for n, h in (('new', h_b2_new), ('update', h_b2_update), ('finalize', h_b2_finalize), ('blake2b', h_b2_once)):
            ex.contracts[B2 + n] = h
        ex.contracts['<%s as std::clone::Clone>::clone' % B2T] = h_clone
    if ed:
        for n, h in (('verify', h_ed_verify), ('keypair', h_ed_keypair), ('signature', h_ed_sign)):
            ex.contracts[ED + n] = h
    if loops:
        install_loops(ex)

def install_loops(ex):
    old = ex.loop_contract
    notreader = set()
    def lc(f, bb):
        h = old(f, bb)
        if h is not None:
            return h
        if f.name.startswith('minisign::') and (f.name, bb) not in notreader:
            return lambda ex, st, f, fr, bb: reader_loop(ex, st, f, fr, bb, notreader)
        return None
    ex.loop_contract = lc

# ------------------------------------------------------------------ loops over a reader
class Gen:
    """a generalised state: what is known to hold whenever control reaches the loop header"""

def _flat(v):
    return v

def _poskeys(st):
    return [k for k in st.g if isinstance(k, tuple) and k[0] == 'pos']

def reader_loop(ex, st, f, fr, bb, notreader):
    k = ('loop', fr.id, bb)
    m = st.g.get(k)
    if m is not None and m[0] == 'go':
        st.g[k] = ('in', m[1])
        return None
    if m is not None and m[0] == 'in':
        m[1].append(st)
        return []
    if m is not None and m[0] == 'enter':
        st.g[k] = ('inv', m[1])
        return None
    if m is not None and m[0] == 'inv':
        check_inductive(ex, st, m[1])
        ex.used['loop invariant of %s' % f.name] = ex.used.get('loop invariant of %s' % f.name, 0) + 1
        return []
    # first arrival: one trial iteration shows what the loop changes
    ends = []
    s = st.copy()
    s.g[k] = ('go', ends)
    n0 = len(ex.obl)
    work, outs = [(s, bb, {})], []
    p0 = {x: st.g.get(x, 0) for x in _poskeys(st)}
    try:
        while work:
            s2, b2, v2 = work.pop()
            ex.exec_path(s2, f, fr, b2, v2, work, outs)
    finally:
        del ex.obl[n0:]
    moved = set()
    for e in ends:
        for x in _poskeys(e):
            if not same(e.g[x], st.g.get(x, 0)):
                moved.add(x)
    if not moved:
        if not ends:
            return None
        notreader.add((f.name, bb))
        return None
    if len(moved) > 1:
        raise Unsupported('loop over two readers')
    pk = moved.pop()
    rid = pk[1]
    name = 'data%s' % rid
    N = ex.srclen(name, 0, None)
    pos0 = st.g.get(pk, 0)
    for e in ends:
        e.g.setdefault(pk, pos0)
    g = st.copy()
    p = ex.fresh('lpos', 0, 1 << 62)
    # the data read last may be absorbed one iteration later (loops that read before the test): the accumulators
    # stand at the position q0 <= pos0 on first arrival, and at acc(e) after the trial iteration
    l0 = lag(st, ends, pk, name, pos0, k)
    q0 = T.sub(pos0, l0)
    g.assume(T.band_(T.le(q0, p), T.le(p, N)))
    n = 0
    if not same(l0, 0):
        n = ex.fresh('llast', 0, 1 << 62)
        c = T.bor_(T.ge(l0, 1), T.eq(pos0, N))
        if not st.known(c):
            raise Unsupported('loop over a reader: nothing read before it')
        g.assume(T.band_(T.le(T.add(p, n), N), T.bor_(T.ge(n, 1), T.eq(p, N))))
    g.g[pk] = T.add(p, n)
    inv = dict(pk=pk, pos0=pos0, q0=q0, l0=l0, p=p, n=n, N=N, name=name, fr=fr, f=f, bb=bb, mem={}, g={}, base=st)
    acc = (lambda e: e.g[pk]) if same(l0, 0) else (lambda e: pos0)
    inv['acc'] = acc
    # ghost channels
    keys = set()
    for e in ends:
        for x in set(e.g) | set(st.g):
            if x in (k, pk) or x in ('eof', 'read_failed', 'io_failed'):
                continue
            a, b = st.g.get(x), e.g.get(x)
            if a is None and b is None or a is not None and b is not None and same(a, b):
                continue
            keys.add(x)
    for x in keys:
        if x in ('log', 'digests', 'stdout_partial'):
            if x == 'log':
                g.g[x] = tuple(dict.fromkeys(st.g.get(x, ()) + tuple(y for e in ends for y in e.g.get(x, ()))))
                inv['g'][x] = ('any',)
                continue
            raise Unsupported('effect %s in a loop' % x)
        r0 = st.g.get(x, Rope(()))
        if not isinstance(r0, Rope):
            raise Unsupported('effect %s in a loop' % (x,))
        if not all(same(B.key(e.g.get(x, Rope(()))), B.key(r0.concat(_span(name, q0, acc(e))))) for e in ends):
            raise Unsupported('loop writes something else than the data read')
        g.g[x] = r0.concat(_span(name, q0, p))
        inv['g'][x] = ('rope', r0)
    # memory
    for o in list(st.mem):
        a = st.mem[o]
        bs = [e.mem.get(o, UNINIT) for e in ends]
        if all(same(a, b) for b in bs):
            continue
        w = generalise(ex, st, g, a, [(b, e) for b, e in zip(bs, ends)], inv, p, o, ex.otype.get(o))
        g.mem[o] = w[0]
        inv['mem'][o] = w[1]
    for e in ends:
        for o in e.mem:
            if o not in st.mem and isinstance(o, tuple) and o[0] == fr.id:
                inv['mem'].setdefault(o, ('any',))
    # the general state enters the body once; the next arrival is the back edge
    g.g[k] = ('enter', inv)
    return [(g, bb)]

def allread(ex, s, rid=0):
    """the reader stands at the end of its data"""
    return T.eq(s.g.get(('pos', rid), 0), ex.srclen('data%d' % rid, 0, None))

def _span(name, a, b):
    n = T.sub(b, a)
    return Rope(norm((('s', name, a, n),)))

def lag(st, ends, pk, name, pos0, k):
    """length of the data already read but not yet absorbed when the loop is reached"""
    cand = []
    for o, a in st.mem.items():
        b = ends[0].mem.get(o, UNINIT)
        if isinstance(a, Abs) and isinstance(b, Abs) and isinstance(a.data, tuple) and isinstance(b.data, tuple) and a.data and b.data \
                and isinstance(a.data[-1], Rope) and isinstance(b.data[-1], Rope):
            cand.append((a.data[-1], b.data[-1]))
    for x, b in ends[0].g.items():
        a = st.g.get(x, Rope(()))
        if x != k and isinstance(b, Rope) and isinstance(a, Rope):
            cand.append((a, b))
    for a, b in cand:
        d = T.sub(b.length(), a.length())
        if same(d, 0) or same(B.key(b), B.key(a.concat(_span(name, pos0, ends[0].g[pk])))):
            continue
        if same(B.key(b), B.key(a.concat(_span(name, T.sub(pos0, d), pos0)))):
            return d
    return 0

def prefix_is(st, r, name, off, n):
    """the first n bytes are those of the data from off on"""
    if st.known(T.eq(n, 0)):
        return True
    try:
        return same(B.key(rslice(r, 0, n, st)), B.key(_span(name, off, T.add(off, n))))
    except (Unsupported, Fork):
        return False

def generalise(ex, st, g, a, ends, inv, p, o, ty):
    """(value in the general state, rule to check at the back edge)"""
    pk, q0, name, n, l0, acc = inv['pk'], inv['q0'], inv['name'], inv['n'], inv['l0'], inv['acc']
    if isinstance(a, Abs) and all(isinstance(b, Abs) and b.kind == a.kind for b, _ in ends) and isinstance(a.data, tuple) \
            and a.data and isinstance(a.data[-1], Rope):
        if all(same(b.data[:-1], a.data[:-1]) and same(B.key(b.data[-1]), B.key(a.data[-1].concat(_span(name, q0, acc(e))))) for b, e in ends):
            return Abs(a.kind, a.data[:-1] + (a.data[-1].concat(_span(name, q0, p)),)), ('abs', a)
        raise Unsupported('the loop does not hash exactly the data read')
    if isinstance(a, (int, Term)) and not isinstance(a, bool) and all(isinstance(b, (int, Term)) for b, _ in ends):
        if all(same(T.sub(b, a), T.sub(acc(e), q0)) for b, e in ends):
            return T.add(a, T.sub(p, q0)), ('int', a)
        if not same(l0, 0) and same(a, l0) and all(same(b, T.sub(e.g[pk], acc(e))) for b, e in ends):
            return n, ('last',)
        ii = ex.p.intinfo(ty) if isinstance(ty, int) else None
        if ii is None:
            raise Unsupported('loop variable')
        bits, sg = ii
        v = ex.fresh('havoc', -(1 << bits - 1) if sg else 0, (1 << bits - (1 if sg else 0)) - 1)
        return v, ('any',)
    if isinstance(a, (Rope, tuple)) and isinstance(ty, tuple) and ty[0] == 'seq' and ty[1] == B.u8id(ex):
        ra = rope_of(a)
        m = ra.length()
        if not same(l0, 0) and prefix_is(st, ra, name, q0, l0) and all(prefix_is(e, rope_of(b), name, acc(e), T.sub(e.g[pk], acc(e))) for b, e in ends):
            g.assume(T.le(n, m))
            return Rope((('s', name, p, n), ('s', 'havoc%d' % ex.newid(), 0, T.sub(m, n)))), ('lastbuf', m)
        if all(isinstance(b, (Rope, tuple)) and e.known(T.eq(rope_of(b).length(), m)) for b, e in ends):
            nm = 'havoc%d' % ex.newid()
            return Rope((('s', nm, 0, m),)), ('len', m)
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple) and a[0] and isinstance(a[0][0], Ptr) and all(isinstance(b, tuple) for b, _ in ends):
        # Vec<u8>
        try:
            r0 = B.vec_rope(ex, st, a)
            if all(same(B.key(B.vec_rope(ex, e, b)), B.key(r0.concat(_span(name, q0, acc(e))))) for b, e in ends):
                return B.new_vec(ex, g, r0.concat(_span(name, q0, p))), ('vec', r0)
        except Unsupported:
            pass
    if isinstance(o, tuple) and o[0] == inv['fr'].id:
        return UNINIT, ('any',)
    raise Unsupported('loop changes an object in an unknown way: %r (%r) %r -> %r' % (o, ty, a, [b for b, _ in ends]))

def check_inductive(ex, st, inv):
    pk, q0, name, base = inv['pk'], inv['q0'], inv['name'], inv['base']
    lagging = not same(inv['l0'], 0)
    p = T.add(inv['p'], inv['n']) if lagging else st.g[pk]
    n = T.sub(st.g[pk], p)
    bad = lambda why: Unsupported('loop invariant is not inductive: ' + why)
    if lagging and not st.known(T.bor_(T.ge(n, 1), T.eq(p, inv['N']))):
        raise bad('end of the data')
    for x, rule in inv['g'].items():
        if rule[0] == 'rope' and not same(B.key(st.g.get(x, Rope(()))), B.key(rule[1].concat(_span(name, q0, p)))):
            raise bad('%s' % (x,))
    for x in st.g:
        if x in inv['g'] or x == pk or x in ('eof', 'read_failed', 'io_failed') or isinstance(x, tuple) and x[0] == 'loop':
            continue
        if x not in base.g or not same(base.g[x], st.g[x]):
            raise bad('effect %s' % (x,))
    for o, a in base.mem.items():
        b = st.mem.get(o, UNINIT)
        rule = inv['mem'].get(o)
        if rule is None:
            if not same(a, b):
                raise bad('object %r' % (o,))
        elif rule[0] == 'abs':
            if not (isinstance(b, Abs) and same(b.data[:-1], rule[1].data[:-1]) and
                    same(B.key(b.data[-1]), B.key(rule[1].data[-1].concat(_span(name, q0, p))))):
                raise bad('hasher')
        elif rule[0] == 'int':
            if not same(b, T.add(rule[1], T.sub(p, q0))):
                raise bad('counter')
        elif rule[0] == 'last':
            if not same(b, n):
                raise bad('count of the last read')
        elif rule[0] == 'lastbuf':
            if not (st.known(T.eq(rope_of(b).length(), rule[1])) and prefix_is(st, rope_of(b), name, p, n)):
                raise bad('buffer')
        elif rule[0] == 'len':
            if not st.known(T.eq(rope_of(b).length(), rule[1])):
                raise bad('buffer length')
        elif rule[0] == 'vec':
            if not same(B.key(B.vec_rope(ex, st, b)), B.key(rule[1].concat(_span(name, q0, p)))):
                raise bad('vector')
