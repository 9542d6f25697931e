"""Contracts of the functions whose bodies are outside the verified text: compiler intrinsics, the parts of
std/alloc that have no MIR in the dump, and the crates minisign depends on.  All of them are assumptions
(listed in the evidence); everything else is executed from its MIR."""
from . import terms as T
from .terms import T as Term
from .values import *
from . import solver

def Ok(v):
    return En(0, (v,))
def Err(v):
    return En(1, (v,))
NONE = En(0, ())
def Some(v):
    return En(1, (v,))

# ------------------------------------------------------------------ helpers
def key(r):
    """hashable content key of a rope"""
    return norm(rope_of(r).segs)

def u8id(ex):
    return ex.p.tyname['u8'].id

def fork_bool(st, c, mk):
    """two outcomes for an undetermined condition: mk(state, bool) -> (state, value)"""
    if isinstance(c, bool):
        return [mk(st, c)]
    r = solver.env_of(st.pc).decide(c)
    if r is not None:
        return [mk(st, r)]
    out = []
    for side in (True, False):
        cc = c if side else T.bnot(c)
        if solver.feasible(st.pc, cc):
            s = st.copy()
            s.assume(cc)
            out.append(mk(s, side))
    return out

def vec_parts(ex, st, ptr):
    """(obj, path) of a Vec<T> value behind a pointer, and the value"""
    v = ex.load(st, ptr.obj, ptr.path)
    return v

def vec_rope(ex, st, v):
    """contents of a Vec value ((ptr, cap, alloc), len)"""
    (p, cap, _), n = v
    return ex.read_seq(st, p, n)

def new_vec(ex, st, rope, ety=None):
    o = ex.new(st, rope, ('seq', ety if ety is not None else u8id(ex)))
    return ((Ptr(o, (0,), None), CAP, ()), rope.length())

CAP = (1 << 63) - 1

def vec_append(ex, st, ptr, rope):
    v = ex.load(st, ptr.obj, ptr.path)
    (p, cap, a), n = v
    old = ex.read_seq(st, p, n)
    nv = new_vec(ex, st, old.concat(rope))
    ex.store(st, ptr.obj, ptr.path, nv)

def src(ex, name, **kw):
    ex.src.setdefault(name, {}).update(kw)

def attr(ex, name, a):
    return ex.src.get(name, {}).get(a)

def str_rope(ex, st, p):
    return ex.slice_rope(st, p)

def is_ascii_at(ex, st, r, k):
    b = rget(r, k, st)
    l, h = st.interval(b)
    return h is not None and h < 128 and l is not None and l >= 0

def seg_attr_all(ex, r, a, concrete):
    for s in r.segs:
        if s[0] == 's':
            if not attr(ex, s[1], a):
                return False
        elif s[0] == 'c':
            if not all(isinstance(x, int) and concrete(x) for x in s[1]):
                # explicit bytes of opaque sources
                for x in s[1]:
                    if isinstance(x, int):
                        if not concrete(x):
                            return False
                    elif isinstance(x, Term) and x.op == 'uf' and x.args[0][0] == '@' and attr(ex, x.args[0][1:], a):
                        pass
                    elif a in ('utf8', 'nonl', 'nocr', 'nows') and isinstance(x, Term) and _hexchar(x):
                        pass
                    else:
                        return False
        else:
            if not (isinstance(s[1], int) and concrete(s[1])):
                return False
    return True

def _hexchar(x):
    return x.lo is not None and x.lo >= 48 and x.hi is not None and x.hi < 128

WS = (9, 10, 11, 12, 13, 32)

# ------------------------------------------------------------------ intrinsics
def i_ptr_offset_from(ex, st, f, a):
    x, y = a
    if same(x.obj, y.obj) and len(x.path) == len(y.path) and same(x.path[:-1], y.path[:-1]):
        if not x.path:
            return 0
        p, q = x.path[-1], y.path[-1]
        if isinstance(p, (int, Term)) and isinstance(q, (int, Term)):
            return T.sub(p, q)
    if isinstance(x.obj, tuple) and isinstance(y.obj, tuple) and x.obj and y.obj and x.obj[0] == y.obj[0] == 'dangling':
        d = x.obj[1] - y.obj[1]
        if d == 0:
            px = x.path[-1] if x.path else 0
            py = y.path[-1] if y.path else 0
            return T.sub(px, py)
    # array pointer vs its first element
    s, l = sorted((x.path, y.path), key=len)
    if same(x.obj, y.obj) and same(l[:len(s)], s) and all(isinstance(z, int) for z in l[len(s):]):
        k = sum(l[len(s):])
        return k if l is x.path else -k
    raise Unsupported('ptr_offset_from %r %r' % (x, y))

def i_arith_offset(ex, st, f, a):
    p, n = a
    return ex.offset(st, p, n, f.targs[0])

def whole(ex, st, k):
    """the text of which this rope is all, if any"""
    if len(k) != 1 or k[0][0] != 's' or len(k[0]) != 4 or k[0][2] != 0 or k[0][1] not in ex.srclens:
        return None
    n = ex.srclens[k[0][1]]
    return k[0][1] if same(n, k[0][3]) or st.known(T.eq(n, k[0][3])) else None

def canon(ex, st, r):
    """the same text under the least name it has on this path"""
    w = whole(ex, st, key(r))
    if not w:
        return r
    for c in st.pc:
        if isinstance(c, Term) and c.op == 'buf' and c.args[0] == 'ropes_equal':
            x, y = (whole(ex, st, k) for k in c.args[1])
            if x and y and w in (x, y):
                return Rope((('s', min(x, y), 0, ex.srclens[min(x, y)]),))
    return r

def rope_eq(ex, st, a, b):
    """condition: two ropes of equal length have equal contents"""
    if same(key(a), key(b)):
        return True
    la, lb = a.length(), b.length()
    def conc(r):
        return all(s[0] == 'c' or isinstance(seglen(s), int) and seglen(s) <= 256 for s in r.segs)
    if conc(a) or conc(b):
        n = la if isinstance(la, int) else lb if isinstance(lb, int) else None
        if n is not None and n <= 4096:
            try:
                xa, xb = explicit(a, st), explicit(b, st)
                return T.band_(*[T.eq(x, y) for x, y in zip(xa, xb)]) if xa else True
            except Unsupported:
                pass
    # strip a common prefix / suffix
    ka, kb = key(a), key(b)
    if ka and kb and same(ka[0], kb[0]):
        return rope_eq(ex, st, Rope(ka[1:]), Rope(kb[1:]))
    if ka and kb and same(ka[-1], kb[-1]):
        return rope_eq(ex, st, Rope(ka[:-1]), Rope(kb[:-1]))
    wa, wb = whole(ex, st, ka), whole(ex, st, kb)
    if wa and wb and isinstance(ka[0][3], Term) and isinstance(kb[0][3], Term):
        # two whole texts of equal length (where this condition is used): name both lengths by the same term
        n = ex.srclens[min(wa, wb)]
        ka, kb = (ka[0][:3] + (n,),), (kb[0][:3] + (n,),)
    x, y = sorted((ka, kb), key=repr)
    return T.buf_('ropes_equal', (x, y))

def i_compare_bytes(ex, st, f, a):
    x, y, n = a
    u8 = u8id(ex)
    rx, ry = ex.read_seq(st, x, n, u8), ex.read_seq(st, y, n, u8)
    c = rope_eq(ex, st, rx, ry)
    return T.ite(c, 0, T.ite(T.buf_('ropes_less', (key(rx), key(ry))), -1, 1))

def i_raw_eq(ex, st, f, a):
    x, y = a
    t = ex.p.types[f.targs[0]]
    vx = ex.load(st, *ex.adjust(x.obj, x.path, t.id))
    vy = ex.load(st, *ex.adjust(y.obj, y.path, t.id))
    return val_eq(ex, st, vx, vy)

def val_eq(ex, st, x, y):
    if same(x, y):
        return True
    if isinstance(x, Rope) or isinstance(y, Rope):
        return rope_eq(ex, st, rope_of(x), rope_of(y))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return T.band_(*[val_eq(ex, st, p, q) for p, q in zip(x, y)]) if x else True
    if isinstance(x, (int, Term)) and isinstance(y, (int, Term)):
        return T.eq(x, y)
    raise Unsupported('comparison of %r and %r' % (x, y))

def i_write_bytes(ex, st, f, a):
    p, b, n = a
    el = f.targs[0]
    ii = ex.p.intinfo(el)
    if not ii or ii[0] != 8:
        if isinstance(b, int) and b == 0 and ii:
            ex.write_seq(st, p, Rope((('z', 0, n),)), el)
            return ()
        raise Unsupported('write_bytes')
    ex.write_seq(st, p, Rope((('z', b, n),)) if not isinstance(n, int) or n > 4096 else Rope((('c', (b,) * n),)), el)
    return ()

def i_satadd(ex, st, f, a):
    bits, sg = ex.p.intinfo(f.targs[0])
    m = (1 << bits) - 1
    s = T.add(*a)
    return T.ite(T.le(s, m), s, m)

def i_rotl(ex, st, f, a):
    return rot(ex, st, f, a, True)
def i_rotr(ex, st, f, a):
    return rot(ex, st, f, a, False)
def rot(ex, st, f, a, left):
    bits, sg = ex.p.intinfo(f.targs[0])
    x, k = a
    k = st.conc(k) % bits
    if not left:
        k = (bits - k) % bits
    if k == 0:
        return x
    # (x << k) mod 2^bits + x >> (bits-k)
    return T.add(T.scale(T.mod(x, 1 << (bits - k)), 1 << k), T.div(x, 1 << (bits - k)))

def i_funnel(left):
    def h(ex, st, f, a):
        bits, sg = ex.p.intinfo(f.targs[0])
        x, y, k = a
        k = st.conc(k)
        M = 1 << bits
        if left:
            return T.add(T.mod(T.scale(x, 1 << k), M), T.div(y, 1 << (bits - k)))
        return T.add(T.mod(T.scale(x, 1 << (bits - k)), M), T.div(y, 1 << k))
    return h

def i_minmax(mn):
    def h(ex, st, f, a):
        x, y = a
        c = T.le(x, y)
        return T.ite(c, x, y) if mn else T.ite(c, y, x)
    return h

def i_ctpop(ex, st, f, a):
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    raise Unsupported('ctpop')

def i_bswap(ex, st, f, a):
    bits, sg = ex.p.intinfo(f.targs[0])
    x = T.mod(a[0], 1 << bits)
    n = bits // 8
    r = T.sumt([T.scale(T.mod(T.div(x, 1 << (8 * k)), 256), 1 << (8 * (n - 1 - k))) for k in range(n)])
    return reint_(r, bits, sg)

def reint_(v, bits, sg):
    from .exec import reint
    return reint(v, bits, sg)

def i_copy(ex, st, f, a):
    """memmove: the source is read as a value before anything is written"""
    ex.copy_mem(st, a[0], a[1], a[2], f.targs[0])
    return ()

def i_satsub(ex, st, f, a):
    bits, sg = ex.p.intinfo(f.targs[0])
    if sg:
        raise Unsupported('signed saturating_sub')
    x, y = a
    return T.ite(T.ge(x, y), T.sub(x, y), 0)

def i_select(ex, st, f, a):
    c, x, y = a
    c = T.tobool(c)
    if isinstance(c, bool):
        return x if c else y
    if isinstance(x, (int, Term)) and isinstance(y, (int, Term)):
        return T.ite(c, x, y)
    return fork_bool(st, c, lambda s, b: (s, x if b else y))

def i_exact_div(ex, st, f, a):
    x, y = a
    return T.div(x, st.conc(y))

def i_vol_load(ex, st, f, a):
    p = a[0]
    return ex.load(st, *ex.adjust(p.obj, p.path, f.targs[0]))

def i_vol_store(ex, st, f, a):
    p = a[0]
    ex.store(st, *ex.adjust(p.obj, p.path, f.targs[0]), a[1])
    return ()

# ------------------------------------------------------------------ allocation
def buf_ensure(ex, st, ptr, rope=None, ety=None):
    """make the RawVecInner behind ptr own a real buffer with practically unlimited capacity"""
    v = ex.load(st, ptr.obj, ptr.path)
    p, cap, a = v
    if isinstance(p.obj, tuple) and p.obj and p.obj[0] == 'dangling' or p.obj is None:
        o = ex.new(st, Rope(()), None if ety is None else ('seq', ety))
        ex.store(st, ptr.obj, ptr.path, (Ptr(o, (0,), None), CAP, a))
    elif not same(cap, CAP):
        ex.store(st, ptr.obj, ptr.path, (p, CAP, a))

def h_grow(ex, st, f, a):
    ety = None
    if 'RawVec::<' in f.name and f.targs:
        ety = f.targs[0]
    buf_ensure(ex, st, a[0], ety=ety)
    return ()

def h_try_reserve(ex, st, f, a):
    buf_ensure(ex, st, a[0])
    return Ok(())

def h_with_capacity_in(ex, st, f, a):
    o = ex.new(st, Rope(()), None)
    return (Ptr(o, (0,), None), CAP, ())

def h_try_allocate_in(ex, st, f, a):
    # (capacity, init, alloc, layout): init 0 = uninit, 1 = zeroed
    init = a[1]
    zero = isinstance(init, En) and init.v == 1
    r = Rope((('z', 0, a[0]),)) if zero else Rope(())
    o = ex.new(st, r, None)
    return Ok((Ptr(o, (0,), None), CAP, ()))

def h_from_elem(ex, st, f, a):
    el, n = a[0], a[1]
    # an n-element buffer
    if isinstance(n, int) and n <= 4096:
        r = Rope((('c', (el,) * n),)) if n else Rope(())
    else:
        r = Rope((('z', el, n),))
    ety = f.targs[0] if f.targs else None
    if f.name.startswith('<') and ' as ' in f.name:
        t = ex.p.tyname.get(f.name[1:f.name.index(' as ')])
        ety = t.id if t is not None else None
    return new_vec(ex, st, r, ety)

def h_to_vec(ex, st, f, a):
    r = ex.slice_rope(st, a[0])
    return new_vec(ex, st, r, elty_of_slice(ex, f))

def elty_of_slice(ex, f):
    return None

def h_append_elements(ex, st, f, a):
    vec_append(ex, st, a[0], ex.slice_rope(st, a[1]))
    return ()

def h_extend_array(ex, st, f, a):
    vec, it = a[0], a[1]
    # IntoIter { data: [MaybeUninit<u8>; N], alive: IndexRange } in some nesting
    data, rng = _intoiter(it)
    lo_, hi_ = st.conc(rng[0]), st.conc(rng[1])
    vec_append(ex, st, vec, Rope((('c', tuple(data[lo_:hi_])),)) if not isinstance(data, Rope) else rslice(data, lo_, hi_ - lo_, st))
    return ()

def _intoiter(it):
    if isinstance(it, tuple) and len(it) == 2:
        for d, r in ((it[1], it[0]), (it[0], it[1])):          # PolymorphicIter { alive, data }
            if isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, (int, Term)) for x in r) and isinstance(d, (tuple, Rope)):
                return d, r
    raise Unsupported('array iterator %r' % (it,))

def h_box_new(ex, st, f, a):
    o = ex.new(st, a[0], f.targs[0] if f.targs else None)
    return Ptr(o, (), None)

def h_box_err(ex, st, f, a):
    return Abs('boxerr', (f.name[:40],))

# ------------------------------------------------------------------ strings
def h_string_clone(ex, st, f, a):
    v = ex.load(st, a[0].obj, a[0].path)
    return new_vec(ex, st, vec_rope(ex, st, v))

def h_lines(ex, st, f, a):
    r = str_rope(ex, st, a[0])
    return Abs('lines', (key(r), 0))

def lines_of(ex, st, r):
    """next line of rope r: list of (state, line rope | None, rest rope | None)"""
    # r is a structured rope; a single opaque source gets uninterpreted lines
    segs = norm(r.segs)
    if not segs:
        return [(st, None, None)]
    cur = []
    for i, s in enumerate(segs):
        if s[0] == 'c':
            vals = s[1]
            for j, b in enumerate(vals):
                if isinstance(b, int):
                    if b == 10:
                        line = Rope(norm(tuple(cur) + (('c', vals[:j]),)))
                        rest = Rope(norm((('c', vals[j + 1:]),) + tuple(segs[i + 1:])))
                        return [(st, strip_cr(ex, st, line, True), rest)]
                elif not _byte_not(ex, st, b, 10):
                    raise Unsupported('lines over symbolic bytes')
            cur.append(s)
        elif s[0] == 's':
            if not attr(ex, s[1], 'nonl'):
                raise Unsupported('lines over opaque text %s' % s[1])
            cur.append(s)
        else:
            if not (isinstance(s[1], int) and s[1] != 10):
                raise Unsupported('lines')
            cur.append(s)
    # no newline: the last line, if not empty (a trailing \r is kept)
    line = Rope(tuple(cur))
    c = T.eq(line.length(), 0)
    return fork_bool2(st, c, lambda s, b: (s, None, None) if b else (s, line, Rope(())))

def fork_bool2(st, c, mk):
    return fork_bool(st, c, mk)

def _byte_not(ex, st, b, v):
    l, h = st.interval(b)
    if l is not None and (l > v or h < v):
        return True
    if b.op == 'uf' and b.args[0][0] == '@':
        a = {10: 'nonl', 13: 'nocr'}.get(v)
        return bool(a and attr(ex, b.args[0][1:], a))
    return False

def strip_cr(ex, st, line, nl):
    segs = norm(line.segs)
    if not segs:
        return line
    s = segs[-1]
    if s[0] == 'c':
        b = s[1][-1]
        if isinstance(b, int):
            if b == 13:
                return Rope(norm(segs[:-1] + (('c', s[1][:-1]),)))
            return line
        if _byte_not(ex, st, b, 13):
            return line
        raise Unsupported('line end')
    if s[0] == 's' and attr(ex, s[1], 'nocr'):
        if st.known(T.ge(s[3], 1)):
            return line
        # possibly empty: look at what precedes
        rest = strip_cr(ex, st, Rope(segs[:-1]), nl)
        if same(key(rest), key(Rope(segs[:-1]))):
            return line
    # unknown end: the line with or without its last byte
    name = 'nocr(%s)' % keyname(ex, line)
    src(ex, name, utf8=True, nonl=True)
    n = ex.srclen(name, 0, None)
    st.assume(T.band_(T.le(n, line.length()), T.ge(T.add(n, 1), line.length())))
    return Rope((('s', name, 0, n),))

def whole_source(r):
    """name of the opaque source if r is one whole opaque text"""
    k = norm(r.segs)
    if len(k) == 1 and k[0][0] == 's' and isinstance(k[0][2], int) and k[0][2] == 0:
        return k[0]
    return None

def h_lines_next(ex, st, f, a):
    p = a[0]
    v = ex.load(st, p.obj, p.path)
    if not (isinstance(v, Abs) and v.kind == 'lines'):
        raise Unsupported('lines iterator %r' % (v,))
    k, i = v.data
    r = Rope(k)
    w = whole_source(r)
    if w is not None and not attr(ex, w[1], 'nonl'):
        name = w[1]
        ln = 'line%d(%s)' % (i, name)
        has = T.buf_('has_line', (name, i))
        def mk(s, b):
            if not b:
                return s, NONE
            src(ex, ln, utf8=True, nonl=True, line_of=(name, i))
            n = ex.srclen(ln, 0, None)
            s.assume(T.le(n, w[3]))
            q = ex.str_ptr(s, Rope((('s', ln, 0, n),)))
            ex.store(s, p.obj, p.path, Abs('lines', (k, i + 1)))
            return s, Some(q)
        return fork_bool(st, has, mk)
    out = []
    for s, line, rest in lines_of(ex, st, r):
        if line is None:
            out.append((s, NONE))
        else:
            ex.store(s, p.obj, p.path, Abs('lines', (key(rest), i + 1)))
            out.append((s, Some(ex.str_ptr(s, line))))
    return out

def h_trim(ex, st, f, a):
    r = str_rope(ex, st, a[0])
    if isinstance(r.length(), int) and r.length() == 0:
        return a[0]
    if seg_attr_all(ex, r, 'nows', lambda x: 32 < x < 127):
        return a[0]
    segs = norm(r.segs)
    def ends_solid(s, last):
        if s[0] == 'c':
            b = s[1][-1 if last else 0]
            return isinstance(b, int) and 32 < b < 127 or isinstance(b, Term) and (st.interval(b)[0] or 0) > 32 and (st.interval(b)[1] or 999) < 127
        return s[0] == 's' and attr(ex, s[1], 'nows') and st.known(T.ge(s[3], 1))
    if segs and ends_solid(segs[0], False) and ends_solid(segs[-1], True):
        return a[0]
    name = 'trim(%s)' % keyname(ex, r)
    src(ex, name, utf8=True)
    if seg_attr_all(ex, r, 'nonl', lambda x: x != 10):
        src(ex, name, nonl=True)
    n = ex.srclen(name, 0, None)
    st.assume(T.le(n, r.length()))
    # base64 text contains no white space
    st.assume(T.bor_(T.bnot(T.buf_('is_base64', (key(r),))), T.eq(n, r.length())))
    return ex.str_ptr(st, Rope((('s', name, 0, n),)))

def keyname(ex, r):
    w = whole_source(r)
    if w is not None and same(ex.srclens.get(w[1]), w[3]):
        return w[1]
    k = repr_key(key(r))
    n = ex.keynames.get(k)
    if n is None:
        n = ex.keynames[k] = 'text%d' % (len(ex.keynames) + 1)
    return n

def repr_key(k):
    out = []
    for s in k:
        if s[0] == 'c':
            out.append(('c', tuple(x if isinstance(x, int) else ('t', x.id) for x in s[1])))
        elif s[0] == 's':
            out.append(('s', s[1], _tid(s[2]), _tid(s[3])))
        else:
            out.append(('z', _tid(s[1]), _tid(s[2])))
    return tuple(out)

def _tid(x):
    return x if isinstance(x, int) else ('t', x.id)

def h_is_prefix_of(ex, st, f, a):
    pat, hay = str_rope(ex, st, a[0]), str_rope(ex, st, a[1])
    n = pat.length()
    if not isinstance(n, int):
        raise Unsupported('symbolic pattern')
    c = T.ge(hay.length(), n)
    def mk(s, b):
        if not b:
            return s, False
        m = rope_eq(ex, s, rslice(hay, 0, n, s), pat)
        if m is not False and n and len(hay.segs) == 1 and hay.segs[0][0] == 's' and all(isinstance(x, int) and x < 128 for x in explicit(pat, s)):
            # in UTF-8 an ASCII byte is followed by the start of a character
            nb = sbyte(hay.segs[0][1], T.add(hay.segs[0][2], n))
            s.assume(T.bor_(T.bnot(m), T.le(hay.length(), n), T.lt(nb, 128), T.ge(nb, 192)))
        return s, m
    return fork_bool(st, c, mk)

def h_starts_with(ex, st, f, a):
    return h_is_prefix_of(ex, st, f, [a[1], a[0]])

def h_is_char_boundary(ex, st, f, a):
    r = str_rope(ex, st, a[0])
    k = a[1]
    n = r.length()
    c = T.le(k, n)
    def mk(s, b):
        if not b:
            return s, False
        if s.known(T.eq(k, 0)) or s.known(T.eq(k, n)):
            return s, True
        # boundary between two bytes of valid UTF-8: the previous byte is ASCII or the next one starts a character
        pb = rget(r, T.sub(k, 1), s)
        l, h = (pb, pb) if isinstance(pb, int) else s.interval(pb)
        if h is not None and h < 128:
            return s, True
        # start of an opaque UTF-8 segment
        pos = 0
        for sg in norm(r.segs):
            if same(pos, k):
                if sg[0] == 's' and isinstance(sg[2], int) and sg[2] == 0 and attr(ex, sg[1], 'utf8'):
                    return s, True
            pos = T.add(pos, seglen(sg))
        nb = rget(r, k, s)
        return s, T.bor_(T.lt(nb, 128), T.ge(nb, 192))
    return fork_bool(st, c, mk)

def h_from_utf8_string(ex, st, f, a):
    v = a[0]
    r = vec_rope(ex, st, v)
    if seg_attr_all(ex, r, 'utf8', lambda x: x < 128):
        return Ok(v)
    c = T.buf_('valid_utf8', (key(r),))
    def mk(s, b):
        if b:
            for sg in norm(r.segs):
                if sg[0] == 's' and len(norm(r.segs)) == 1 and sg[2] == 0:
                    src(ex, sg[1], utf8=True)
            return s, Ok(v)
        return s, Err(Abs('utf8err', ()))
    return fork_bool(st, c, mk)

def h_from_utf8(ex, st, f, a):
    r = ex.slice_rope(st, a[0])
    if seg_attr_all(ex, r, 'utf8', lambda x: x < 128):
        return Ok(a[0])
    return fork_bool(st, T.buf_('valid_utf8', (key(r),)), lambda s, b: (s, Ok(a[0]) if b else Err(Abs('utf8err', ()))))

def h_drain(ex, st, f, a):
    ptr, rng = a
    tn = ex.p.types[f.targs[-1]].name if f.targs else f.name
    v = ex.load(st, ptr.obj, ptr.path)
    r = vec_rope(ex, st, v)
    n = r.length()
    if 'RangeTo<' in f.name:
        lo_, hi_ = 0, rng if not isinstance(rng, tuple) else rng[0]
    elif 'RangeFrom<' in f.name:
        lo_, hi_ = (rng if not isinstance(rng, tuple) else rng[0]), n
    elif 'RangeFull' in f.name:
        lo_, hi_ = 0, n
    elif 'Range<' in f.name:
        lo_, hi_ = rng
    else:
        raise Unsupported('drain')
    # start <= end <= len, both on character boundaries
    ok = T.band_(T.le(lo_, hi_), T.le(hi_, n))
    out = []
    s = st
    ex.oblige(s, ok, 'no panic: drain range within the string', ex.curfn)
    if not s.assume(ok):
        return []
    sp = ex.str_ptr(s, r)
    for k in (lo_, hi_):
        for s3, b in h_is_char_boundary(ex, s, f, [sp, k]):
            ex.oblige(s3, b, 'no panic: drain at character boundaries', ex.curfn)
            s3.assume(b)
            s = s3
    head = rslice(r, 0, lo_, s) if not same(lo_, 0) else Rope(())
    tail = rslice(r, hi_, T.sub(n, hi_), s)
    ex.store(s, ptr.obj, ptr.path, new_vec(ex, s, head.concat(tail)))
    return [(s, Abs('drain', (key(rslice(r, lo_, T.sub(hi_, lo_), s)),)))]

def h_drain_count(ex, st, f, a):
    return ex.fresh('count', 0, (1 << 63) - 1)

# ------------------------------------------------------------------ formatting
def h_args_new(ex, st, f, a):
    return Abs('fmtargs', ('t', a[0], a[1]))

def h_args_from_str(ex, st, f, a):
    return Abs('fmtargs', ('s', a[0]))

def h_argument(kind):
    def h(ex, st, f, a):
        return Abs('fmtarg', (kind, f.targs[-1] if f.targs else None, a[0]))
    return h

def render(ex, st, v):
    """rope produced by formatting an Arguments value"""
    if not (isinstance(v, Abs) and v.kind == 'fmtargs'):
        raise Unsupported('format arguments %r' % (v,))
    if v.data[0] == 's':
        return ex.slice_rope(st, v.data[1])
    _, tp, ap = v.data
    tv = ex.load(st, tp.obj, tp.path)
    if isinstance(tv, tuple) and len(tv) and isinstance(tv[0], tuple):
        tv = tv[0]
    args = ex.load(st, ap.obj, ap.path)
    out = Rope(())
    i = 0
    ai = 0
    while True:
        n = tv[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out = out.concat(Rope((('c', tuple(tv[i:i + n])),)))
            i += n
        elif n == 0x80:
            m = tv[i] | tv[i + 1] << 8
            i += 2
            out = out.concat(Rope((('c', tuple(tv[i:i + m])),)))
            i += m
        else:
            flags, width, prec = 0x20 | (3 << 29), 0, None
            if n & 1:
                flags = int.from_bytes(bytes(tv[i:i + 4]), 'little')
                i += 4
            if n & 2:
                width = tv[i] | tv[i + 1] << 8
                i += 2
            if n & 4:
                prec = tv[i] | tv[i + 1] << 8
                i += 2
            if n & 8:
                ai = tv[i] | tv[i + 1] << 8
                i += 2
            if n & 0x30:
                raise Unsupported('dynamic width')
            out = out.concat(fmt_one(ex, st, args[ai], flags, width, prec))
            ai += 1

def fmt_one(ex, st, arg, flags, width, prec):
    kind, ty, ptr = arg.data
    tn = ex.p.types[ty].name if ty is not None else ''
    zero = bool(flags & (1 << 24))
    alt = bool(flags & (1 << 23))
    if kind == 'display':
        v, t = ptr, ty
        # peel references
        while ex.p.types[ex.p.strip(t)].kind in ('ref', 'ptr') and ex.p.types[ex.p.pointee(t)].kind not in ('str',):
            v = ex.load(st, v.obj, v.path)
            t = ex.p.pointee(t)
        tt = ex.p.types[t]
        if tt.kind == 'str':
            r = ex.slice_rope(st, v)
        elif ex.p.types[ex.p.strip(t)].kind in ('ref', 'ptr') and ex.p.types[ex.p.pointee(t)].kind == 'str':
            r = ex.slice_rope(st, ex.load(st, v.obj, v.path))
        elif 'String' in tt.name and tt.kind == 'adt':
            r = vec_rope(ex, st, ex.load(st, v.obj, v.path))
        elif ex.p.intinfo(t) and tt.kind in ('int', 'uint'):
            x = ex.load(st, v.obj, v.path)
            if isinstance(x, int):
                r = Rope((('c', tuple(str(x).encode())),))
            else:
                nm = 'dec(t%d)' % x.id
                src(ex, nm, utf8=True, nonl=True, nocr=True, nows=True, dec=x)
                r = Rope((('s', nm, 0, ex.srclen(nm, 1, 20)),))
        else:
            # some error type: arbitrary text
            nm = 'display#%d' % ex.newid()
            src(ex, nm, utf8=True)
            r = Rope((('s', nm, 0, ex.srclen(nm, 0, 1 << 20)),))
        if width or prec is not None:
            raise Unsupported('padded string')
        return r
    if kind in ('upper_hex', 'lower_hex'):
        t = ty
        v = ptr
        while ex.p.types[ex.p.strip(t)].kind in ('ref', 'ptr'):
            v = ex.load(st, v.obj, v.path)
            t = ex.p.pointee(t)
        x = ex.load(st, v.obj, v.path)
        bits, sg = ex.p.intinfo(t)
        if alt:
            raise Unsupported('alternate hex')
        if zero and width >= bits // 4:
            n = bits // 4
            x = T.mod(x, 1 << bits)
            out = [48] * (width - n)
            for k in range(n - 1, -1, -1):
                d = T.mod(T.div(x, 1 << (4 * k)), 16)
                out.append(hexdigit(d, kind == 'upper_hex'))
            return Rope((('c', tuple(out)),))
        if isinstance(x, int):
            s = ('%X' if kind == 'upper_hex' else '%x') % (x % (1 << bits))
            s = s.rjust(width, '0' if zero else ' ')
            return Rope((('c', tuple(s.encode())),))
        # by the number of digits (a padding with zeros makes short ones alike)
        x = T.mod(x, 1 << bits)
        n = max(1, min(width, bits // 4)) if zero else 1
        while n < bits // 4 and not st.decide(T.lt(x, 1 << (4 * n))):
            n += 1
        out = [48 if zero else 32] * max(0, width - n)
        for k in range(n - 1, -1, -1):
            out.append(hexdigit(T.mod(T.div(x, 1 << (4 * k)), 16), kind == 'upper_hex'))
        return Rope((('c', tuple(out)),))
    nm = 'fmt#%d' % ex.newid()
    src(ex, nm, utf8=True)
    return Rope((('s', nm, 0, ex.srclen(nm, 0, 1 << 20)),))

def hexdigit(d, upper=True):
    if isinstance(d, int):
        return ord('%X' % d if upper else '%x' % d)
    return T.ite(T.lt(d, 10), T.add(d, 48), T.add(d, 55 if upper else 87))

def h_format(ex, st, f, a):
    return new_vec(ex, st, render(ex, st, a[0]))

def h_string_write_fmt(ex, st, f, a):
    p = a[0]
    # &mut String or &mut &mut String
    v = ex.load(st, p.obj, p.path)
    if isinstance(v, Ptr):
        p = v
    vec_append(ex, st, p, render(ex, st, a[1]))
    return Ok(())

def h_to_string_any(ex, st, f, a):
    nm = 'tostring#%d' % ex.newid()
    src(ex, nm, utf8=True)
    return new_vec(ex, st, Rope((('s', nm, 0, ex.srclen(nm, 0, 1 << 20)),)))

# ------------------------------------------------------------------ io
def ioerr(ex, what):
    """an arbitrary std::io::Error: each occurrence has a kind of its own"""
    return Abs('ioerr', (what, ex.newid()))

def h_ioerr_kind(ex, st, f, a):
    e = ex.load(st, a[0].obj, a[0].path)
    vs = ex.p.types[ex.p.tyname['std::io::ErrorKind'].id].k[3]
    if not (isinstance(e, Abs) and e.kind == 'ioerr'):
        raise Unsupported('kind of %r' % (e,))
    return SymEn(T.var('errkind%d' % e.data[1], 0, len(vs) - 1))

def h_ioerr_interrupted(ex, st, f, a):
    vs = ex.p.types[ex.p.tyname['std::io::ErrorKind'].id].k[3]
    k = [v[1] for v in vs if v[0] == 'Interrupted'][0]
    return T.eq(h_ioerr_kind(ex, st, f, a).d, k)

def io_fail(ex, st, what, okf):
    """the call fails (arbitrary error) or succeeds"""
    s1 = st.copy()
    s1.g['io_failed'] = what
    r = okf(st)
    return [(s1, Err(ioerr(ex, what)))] + (r if isinstance(r, list) else [r])

def out_append(st, chan, r):
    st.g[chan] = st.g.get(chan, Rope(())).concat(r)

def h_stdout_write_all(ex, st, f, a):
    r = ex.slice_rope(st, a[1])
    def ok(s):
        out_append(s, 'stdout', r)
        s.g['log'] = s.g.get('log', ()) + ('stdout',)
        return s, Ok(())
    res = io_fail(ex, st, 'stdout', ok)
    res[0][0].g['stdout_partial'] = True
    return res

def h_stdout_write(ex, st, f, a):
    """any non-empty prefix of the buffer is taken, or an error"""
    r = ex.slice_rope(st, a[1])
    n = r.length()
    s0 = st.copy()
    s0.g['io_failed'] = 'stdout'
    out = [(s0, Err(ioerr(ex, 'write')))]
    s = st.copy()
    if s.assume(T.eq(n, 0)):
        out.append((s, Ok(0)))
    k = ex.fresh('nwritten', 1, 1 << 40)
    s = st.copy()
    if s.assume(T.le(k, n)):
        def go(s):
            out_append(s, 'stdout', rslice(r, 0, k, s))
            s.g['log'] = s.g.get('log', ()) + ('stdout',)
            return s, Ok(k)
        out.extend(local_forks(s, go))
    return out

def h_stdout_write_fmt(ex, st, f, a):
    r = render(ex, st, a[1])
    def ok(s):
        out_append(s, 'stdout', r)
        return s, Ok(())
    return io_fail(ex, st, 'stdout', ok)

def h_flush(ex, st, f, a):
    """standard output"""
    def ok(s):
        if s.g.get('stdout') is not None:
            s.g[('flushed', 'stdout')] = s.g['stdout']
        return s, Ok(())
    return io_fail(ex, st, 'flush', ok)

def h_print(ex, st, f, a):
    try:
        out_append(st, 'stdout', render(ex, st, a[0]))
    except Unsupported:
        out_append(st, 'stdout', Rope((('s', 'printed', 0, 1),)))
    return ()

def h_eprint(ex, st, f, a):
    return ()

def reader_id(ex, st, p):
    v = ex.load(st, p.obj, p.path)
    if isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return v

def rd_state(ex, st, rid):
    name = 'data%s' % rid
    n = ex.srclen(name, 0, None)
    return name, n, st.g.get(('pos', rid), 0)

def h_opaque_read(ex, st, f, a):
    r, buf, cap = a
    rid = reader_id(ex, st, r)
    name, N, pos = rd_state(ex, st, rid)
    out = []
    s = st.copy()
    s.g['read_failed'] = True
    out.append((s, Err(ioerr(ex, 'read'))))
    # end of data (or an empty buffer)
    c = T.bor_(T.eq(pos, N), T.eq(cap, 0))
    if solver.feasible(st.pc, c):
        s = st.copy()
        s.assume(c)
        s.g['eof'] = True
        out.append((s, Ok(0)))
    s = st.copy()
    k = ex.fresh('nread', 1, (1 << 62))
    if s.assume(T.band_(T.le(k, cap), T.le(T.add(pos, k), N))):
        def go(s):
            ex.write_seq(s, buf, Rope((('s', name, pos, k),)), u8id(ex))
            s.g[('pos', rid)] = T.add(pos, k)
            return s, Ok(k)
        out.extend(local_forks(s, go))
    return out

def local_forks(st, fn):
    """run fn on st, splitting here (not at the caller) when it needs a condition decided"""
    todo, out = [st], []
    while todo:
        s = todo.pop()
        try:
            out.append(fn(s.copy()))
        except Fork as fk:
            for c in (T.bnot(fk.cond), fk.cond):
                if solver.feasible(s.pc, c):
                    s2 = s.copy()
                    if s2.assume(c):
                        todo.append(s2)
        if len(out) + len(todo) > 64:
            raise Unsupported('too many cases in one call')
    return out

def h_opaque_seek(ex, st, f, a):
    rid = reader_id(ex, st, a[0])
    w = a[1]
    if isinstance(w, En) and w.v == 0:
        s = st.copy()
        s.g['read_failed'] = True
        st.g[('pos', rid)] = w.f[0]
        return [(s, Err(ioerr(ex, 'seek'))), (st, Ok(w.f[0]))]
    raise Unsupported('relative seek')

def h_read_to_end(ex, st, f, a):
    r, vec = a[0], a[1]
    v = ex.load(st, r.obj, r.path)
    if isinstance(v, Ptr):
        r = v
    rid = reader_id(ex, st, r)
    name, N, pos = rd_state(ex, st, rid)
    s = st.copy()
    s.g['read_failed'] = True
    k = ex.fresh('nread', 0, 1 << 62)       # what was read before the failure stays in the vector
    if s.assume(T.le(T.add(pos, k), N)):
        vec_append(ex, s, vec, Rope((('s', name, pos, k),)))
        s.g[('pos', rid)] = T.add(pos, k)
    n = T.sub(N, pos)
    vec_append(ex, st, vec, Rope((('s', name, pos, n),)))
    st.g[('pos', rid)] = N
    st.g['eof'] = True
    return [(s, Err(ioerr(ex, 'read'))), (st, Ok(n))]

def adt(t):
    return t.k[1] if t.kind == 'adt' else None

def resolve_reader(ex, st, p, ty):
    """(reader, pointers to the limits of the Take adapters around it) behind a pointer to a value of this type, or None"""
    t = ex.p.types[ty]
    if t.kind == 'ref':
        v = ex.load(st, p.obj, p.path)
        return resolve_reader(ex, st, v, t.k[1]) if isinstance(v, Ptr) else None
    if adt(t) == 'mvharness::OpaqueReader':
        return reader_id(ex, st, p), []
    if adt(t) == 'std::io::Take':
        fs, names = t.k[3][0][2:4]
        r = resolve_reader(ex, st, Ptr(p.obj, p.path + (names.index('inner'),), None), fs[names.index('inner')])
        return r and (r[0], r[1] + [(p.obj, p.path + (names.index('limit'),))])
    return None

def read_rest(ex, st, r, use, what):
    """everything the reader still gives (Take limits applied) goes to use(state, rope); or a failure after some of it"""
    rid, limits = r
    name, N, pos = rd_state(ex, st, rid)
    s = st.copy()
    s.g['read_failed'] = True
    k = ex.fresh('nread', 0, 1 << 62)
    out = []
    if s.assume(T.band_(T.le(T.add(pos, k), N), *[T.le(k, ex.load(st, *l)) for l in limits])):
        use(s, Rope((('s', name, pos, k),)))
        s.g[('pos', rid)] = T.add(pos, k)
    out.append((s, Err(ioerr(ex, what))))
    def go(s):
        n = T.sub(N, pos)
        for l in limits:
            m = ex.load(s, *l)
            if not s.decide(T.le(n, m)):
                n = m
        for l in limits:
            ex.store(s, l[0], l[1], T.sub(ex.load(s, *l), n))
        use(s, Rope((('s', name, pos, n),)))
        s.g[('pos', rid)] = T.add(pos, n)
        if not limits:
            s.g['eof'] = True
        return s, Ok(n)
    return out + local_forks(st, go)

def h_read_to_end_any(ex, st, f, a):
    """read_to_end through references and Take"""
    if f.body is None:
        return NotImplemented
    t = ex.p.types[f.body['locals'][1]]
    r = resolve_reader(ex, st, a[0], t.k[1]) if t.kind == 'ref' else None
    if r is None:
        return NotImplemented
    return read_rest(ex, st, r, lambda s, x: vec_append(ex, s, a[1], x), 'read')

def sink(ex, st, p, ty):
    """what a pointer to a writer of this type writes to, or None"""
    t = ex.p.types[ty]
    if t.kind == 'ref':
        v = ex.load(st, p.obj, p.path)
        return sink(ex, st, v, t.k[1]) if isinstance(v, Ptr) else None
    n = adt(t)
    if n in ('std::io::Stdout', 'std::io::StdoutLock'):
        return 'stdout'
    if n == 'mvharness::OpaqueWriter':
        return ('w', reader_id(ex, st, p))
    if n in ('std::io::BufWriter', 'std::io::LineWriter'):
        v = ex.load(st, p.obj, p.path)
        return v.data[0] if isinstance(v, Abs) and v.kind == 'bufw' else None
    return None

def h_io_copy(ex, st, f, a):
    """std::io::copy from an opaque reader"""
    if f.body is None:
        return NotImplemented
    tr, tw = (ex.p.types[x] for x in f.body['locals'][1:3])
    if tr.kind != 'ref' or tw.kind != 'ref':
        return NotImplemented
    r = resolve_reader(ex, st, a[0], tr.k[1])
    if r is None:
        return NotImplemented
    w = sink(ex, st, a[1], tw.k[1])
    if w is None:
        t = ex.p.types[tw.k[1]]
        if adt(t) == 'std::io::Sink':
            return read_rest(ex, st, r, lambda s, x: None, 'read')
        if t.name in ('std::vec::Vec<u8>', 'Vec<u8>'):
            return read_rest(ex, st, r, lambda s, x: vec_append(ex, s, a[1], x), 'read')
        return NotImplemented
    def use(s, x):
        out_append(s, w, x)
        if w == 'stdout':
            s.g['log'] = s.g.get('log', ()) + ('stdout',)
    name, N, pos = rd_state(ex, st, r[0])
    s = st.copy()
    s.g['io_failed'] = w if w == 'stdout' else 'write'
    k = ex.fresh('nread', 0, 1 << 62)
    out = []
    if s.assume(T.le(T.add(pos, k), N)):
        use(s, Rope((('s', name, pos, k),)))
        s.g[('pos', r[0])] = T.add(pos, k)
        if w == 'stdout':
            s.g['stdout_partial'] = True
        out.append((s, Err(ioerr(ex, 'copy'))))
    return out + read_rest(ex, st, r, use, 'copy')

def h_bufw_new(ex, st, f, a):
    """BufWriter / LineWriter: what is written is handed on at once (when it reaches the sink is not distinguished, a failure shows at the latest in flush)"""
    w = a[-1]
    if f.body is None:
        return NotImplemented
    ty = ex.p.types[f.body['locals'][len(a)]]
    if isinstance(w, Abs) and w.kind == 'stdout':
        return Abs('bufw', ('stdout', ty.id))
    if ty.kind == 'ref' and isinstance(w, Ptr):
        k = sink(ex, st, w, ty.k[1])
        return Abs('bufw', (k, ty.id)) if k is not None else NotImplemented
    if adt(ty) == 'mvharness::OpaqueWriter':
        return Abs('bufw', (('w', w[0] if isinstance(w, tuple) else w), ty.id))
    return NotImplemented

def bufw_sink(ex, st, f, a):
    t = ex.p.types[f.body['locals'][1]] if f.body else None
    return sink(ex, st, a[0], t.k[1]) if t is not None and t.kind == 'ref' else None

def h_bufw_write_all(ex, st, f, a):
    k = bufw_sink(ex, st, f, a)
    if k is None:
        return NotImplemented
    if k == 'stdout':
        return h_stdout_write_all(ex, st, f, a)
    r = ex.slice_rope(st, a[1])
    def ok(s):
        out_append(s, k, r)
        return s, Ok(())
    return io_fail(ex, st, 'write', ok)

def h_bufw_flush(ex, st, f, a):
    k = bufw_sink(ex, st, f, a)
    if k is None:
        return NotImplemented
    def ok(s):
        if s.g.get(k) is not None or k != 'stdout':
            s.g[('flushed', k if k == 'stdout' else k[1])] = s.g.get(k, Rope(()))
        return s, Ok(())
    return io_fail(ex, st, 'flush', ok)

def h_writer_write_all(ex, st, f, a):
    w = a[0]
    v = ex.load(st, w.obj, w.path)
    if isinstance(v, Ptr):
        w = v
        v = ex.load(st, w.obj, w.path)
    wid = v[0] if isinstance(v, tuple) else v
    r = ex.slice_rope(st, a[1])
    def ok(s):
        out_append(s, ('w', wid), r)
        return s, Ok(())
    return io_fail(ex, st, 'write', ok)

def h_opaque_write(ex, st, f, a):
    """any non-empty prefix of the buffer is taken, or an error"""
    wid = reader_id(ex, st, a[0])
    n = a[2]
    r = ex.slice_rope(st, Ptr(a[1].obj, a[1].path, n)) if not isinstance(a[1].obj, str) else None
    s0 = st.copy()
    s0.g['io_failed'] = 'write'
    out = [(s0, Err(ioerr(ex, 'write')))]
    s = st.copy()
    if s.assume(T.eq(n, 0)):
        out.append((s, Ok(0)))
    s = st.copy()
    if s.assume(T.ge(n, 1)):
        full = s.copy()
        out_append(full, ('w', wid), r)
        out.append((full, Ok(n)))
        k = ex.fresh('nwritten', 1, 1 << 40)
        if s.assume(T.lt(k, n)):
            def go(s):
                out_append(s, ('w', wid), rslice(r, 0, k, s))
                return s, Ok(k)
            out.extend(local_forks(s, go))
    return out

def h_opaque_flush(ex, st, f, a):
    wid = reader_id(ex, st, a[0])
    def ok(s):
        s.g[('flushed', wid)] = s.g.get(('w', wid), Rope(()))
        return s, Ok(())
    return io_fail(ex, st, 'flush', ok)

def h_getrandom(ex, st, f, a):
    k = st.g.get('rand', 0)
    nm = 'rand%d' % k
    p = a[0]
    s = st.copy()
    s.g['io_failed'] = 'getrandom'
    st.g['rand'] = k + 1
    r = Rope((('s', nm, 0, p.meta),)) 
    if isinstance(p.meta, int) and p.meta <= 256:
        r = Rope((('c', explicit(r, st)),)) if p.meta else Rope(())
    ex.write_seq(st, p, r, u8id(ex))
    return [(s, Err(Abs('randerr', ()))), (st, Ok(()))]

def h_prompt(ex, st, f, a):
    k = st.g.get('prompt', 0)
    nm = 'typed%d' % k
    st.g['prompt'] = k + 1
    src(ex, nm, utf8=True)
    s = st.copy()
    s.g['io_failed'] = 'prompt'
    n = ex.srclen(nm, 0, 1 << 32)
    return [(s, Err(ioerr(ex, 'prompt'))), (st, Ok(new_vec(ex, st, Rope((('s', nm, 0, n),)))))]

def h_now(ex, st, f, a):
    return Abs('now', ())
def h_duration_since(ex, st, f, a):
    return [(st, Ok(Abs('dur', ())))]
def h_as_secs(ex, st, f, a):
    return T.var('unix_time', 0, (1 << 64) - 1)

# ------------------------------------------------------------------ dependencies
def h_b64_encode(ex, st, f, a):
    p = a[0]
    if p.meta is None:                       # AsRef<[u8]> passed by reference to a slice
        p = ex.load(st, p.obj, p.path)
    r = ex.slice_rope(st, p)
    return Ok(new_vec(ex, st, b64_text(ex, st, r)))

def b64_text(ex, st, r):
    n = r.length()
    nm = 'b64(%s)' % keyname(ex, r)
    src(ex, nm, utf8=True, nonl=True, nocr=True, nows=True, b64=r)
    if isinstance(n, int):
        ln = (n + 2) // 3 * 4
    else:
        ln = T.scale(T.div(T.add(n, 2), 3), 4)
    ex.srclens[nm] = ln
    if isinstance(ln, int) and ln == 0:
        return Rope(())
    return Rope((('s', nm, 0, ln),))

def h_b64_decode(ex, st, f, a):
    p = a[0]
    r = ex.slice_rope(st, p)
    if r.segs and st.decide(T.eq(r.length(), 0)) or not r.segs:
        return Ok(new_vec(ex, st, Rope(())))
    w = whole_source(r)
    if w is not None and attr(ex, w[1], 'b64') is not None and same(ex.srclens.get(w[1]), w[3]):
        return Ok(new_vec(ex, st, attr(ex, w[1], 'b64')))
    nm = 'unb64(%s)' % keyname(ex, r)
    n = r.length()
    c = T.buf_('is_base64', (key(r),))
    def mk(s, b):
        if not b:
            return s, Err(Abs('b64err', ()))
        src(ex, nm, b64dec=r)
        m = ex.srclen(nm, 0, None)
        if isinstance(n, int):
            if n % 4:
                s.assume(False)
            s.assume(T.band_(T.le(m, n // 4 * 3), T.ge(m, n // 4 * 3 - 2)))
        else:
            s.assume(T.band_(T.le(T.scale(m, 4), T.scale(n, 3)), T.ge(T.scale(m, 4), T.sub(T.scale(n, 3), 8))))
        if isinstance(n, Term):
            s.assume(T.eq(T.mod(n, 4), 0))
        return s, Ok(new_vec(ex, s, Rope((('s', nm, 0, m),))))
    res = fork_bool(st, c, mk)
    return [(s, v) for s, v in res if False not in s.pc]

def h_scrypt(ex, st, f, a):
    pw, salt, params, out = a
    rp, rs = canon(ex, st, ex.slice_rope(st, pw)), ex.slice_rope(st, salt)
    prm = ex.load(st, params.obj, params.path)
    n = out.meta
    st.g['scrypt'] = st.g.get('scrypt', ()) + ((key(rp), key(rs), prm),)
    nm = 'scrypt(%s)' % scrypt_name(ex, rp, rs, prm)
    r = Rope((('s', nm, 0, n),))
    if isinstance(n, int) and n <= 512:
        r = Rope((('c', explicit(r, st)),))
    ex.write_seq(st, out, r, u8id(ex))
    if isinstance(n, int) and 0 < n <= (1 << 32) - 1:
        return Ok(())
    raise Unsupported('scrypt output length')

def scrypt_name(ex, rp, rs, prm):
    k = (repr_key(key(rp)), repr_key(key(rs)), repr(prm) if all(isinstance(x, int) for x in prm) else tuple(_tid(x) if isinstance(x, (int, Term)) else repr(x) for x in prm))
    n = ex.keynames.get(('scrypt', k))
    if n is None:
        n = ex.keynames[('scrypt', k)] = 'k%d' % (len(ex.keynames) + 1)
        src(ex, n, origin=('scrypt', key(rp), key(rs), tuple(prm)))
    return n

def h_read_to_string(ex, st, f, a):
    """contents of the file: the opaque text 'file', or an error"""
    s = st.copy()
    s.g['io_failed'] = 'read_to_string'
    src(ex, 'file', utf8=True)
    n = ex.srclen('file', 0, 1 << 40)
    return [(s, Err(ioerr(ex, 'file'))), (st, Ok(new_vec(ex, st, Rope((('s', 'file', 0, n),)))))]

# ------------------------------------------------------------------ installation
def install(ex):
    ex.patterns.append((lambda n: n.startswith('std::fs::read_to_string::<'), h_read_to_string))
    ex.src = {}
    ex.srclens = {}
    ex.keynames = {}
    I = lambda n, h: ex.contracts.__setitem__('intrinsic:' + n, h)
    I('ptr_offset_from_unsigned', i_ptr_offset_from)
    I('ptr_offset_from', i_ptr_offset_from)
    I('arith_offset', i_arith_offset)
    I('raw_eq', i_raw_eq)
    I('compare_bytes', i_compare_bytes)
    I('write_bytes', i_write_bytes)
    I('ctpop', i_ctpop)
    I('saturating_add', i_satadd)
    I('rotate_left', i_rotl)
    I('rotate_right', i_rotr)
    I('unchecked_funnel_shl', i_funnel(True))
    I('unchecked_funnel_shr', i_funnel(False))
    I('bswap', i_bswap)
    I('copy', i_copy)
    I('saturating_sub', i_satsub)
    I('select_unpredictable', i_select)
    I('exact_div', i_exact_div)
    I('volatile_load', i_vol_load)
    I('volatile_store', i_vol_store)
    I('black_box', lambda ex, st, f, a: a[0])
    I('likely', lambda ex, st, f, a: a[0])
    I('unlikely', lambda ex, st, f, a: a[0])
    I('is_val_statically_known', lambda ex, st, f, a: False)
    I('cold_path', lambda ex, st, f, a: ())
    I('assert_inhabited', lambda ex, st, f, a: ())
    I('integer_min', i_minmax(True)) if False else None
    C = ex.contracts
    def pat(sub, h, *more):
        subs = (sub,) + more
        ex.patterns.append((lambda n: all(x in n for x in subs), h))
    def ends(sub, h, pre=''):
        ex.patterns.append((lambda n: n.endswith(sub) and n.startswith(pre), h))
    for n in ('grow_one', 'reserve::do_reserve_and_handle', 'grow_amortized', 'try_reserve'):
        pass
    ends('::grow_one', h_grow, 'alloc::raw_vec::RawVec')
    pat('alloc::raw_vec::RawVecInner', h_grow, 'reserve::do_reserve_and_handle')
    pat('alloc::raw_vec::RawVecInner', h_try_reserve, '::grow_amortized')
    pat('alloc::raw_vec::RawVecInner', h_try_reserve, '::try_reserve')
    pat('alloc::raw_vec::RawVecInner', h_with_capacity_in, '::with_capacity_in')
    pat('alloc::raw_vec::RawVecInner', h_try_allocate_in, '::try_allocate_in')
    pat('SpecFromElem>::from_elem', h_from_elem)
    pat('ConvertVec>::to_vec', h_to_vec)
    pat('std::vec::Vec::<u8>::append_elements', h_append_elements)
    ex.patterns.append((lambda n: n.startswith('std::vec::Vec::<u8>::extend_trusted::<std::array::IntoIter<u8'), h_extend_array))
    pat('std::convert::Into<std::boxed::Box<dyn std::error::Error', h_box_err)
    C['<std::string::String as std::clone::Clone>::clone'] = h_string_clone
    C['core::str::<impl str>::lines'] = h_lines
    C["<std::str::Lines<'_> as std::iter::Iterator>::next"] = h_lines_next
    C['core::str::<impl str>::trim'] = h_trim
    pat("<&str as std::str::pattern::Pattern>::is_prefix_of", h_is_prefix_of)
    pat("core::str::<impl str>::starts_with::<&str>", h_starts_with)
    C['core::str::<impl str>::is_char_boundary'] = h_is_char_boundary
    C['std::string::String::from_utf8'] = h_from_utf8_string
    C['std::str::from_utf8'] = h_from_utf8
    pat('std::string::String::drain::<', h_drain)
    pat('std::string::Drain<', h_drain_count, 'std::iter::Iterator>::count')
    # formatting
    ex.patterns.append((lambda n: n.startswith("std::fmt::Arguments::<'_>::new::<"), h_args_new))
    C["std::fmt::Arguments::<'_>::from_str"] = h_args_from_str
    C["std::fmt::Arguments::<'_>::from_str_nonconst"] = h_args_from_str
    for k in ('display', 'upper_hex', 'lower_hex', 'debug'):
        ex.patterns.append((lambda n, k=k: n.startswith("core::fmt::rt::Argument::<'_>::new_%s::<" % k), h_argument(k)))
    C['std::fmt::format'] = h_format
    C['std::fmt::format::format_inner'] = h_format
    pat('std::string::String as std::fmt::Write', h_string_write_fmt, 'spec_write_fmt')
    C['<std::string::String as std::fmt::Write>::write_fmt'] = h_string_write_fmt
    ex.patterns.append((lambda n: 'errors::' in n and n.endswith('ToString>::to_string'), h_to_string_any))
    # io
    C['<std::io::Stdout as std::io::Write>::write_all'] = h_stdout_write_all
    C['<std::io::Stdout as std::io::Write>::write'] = h_stdout_write
    C['<std::io::Stdout as std::io::Write>::write_fmt'] = h_stdout_write_fmt
    C['<std::io::Stdout as std::io::Write>::flush'] = h_flush
    for n in ("std::io::StdoutLock<'_>", "std::io::StdoutLock<'static>"):
        C['<%s as std::io::Write>::write_all' % n] = h_stdout_write_all
        C['<%s as std::io::Write>::write' % n] = h_stdout_write
        C['<%s as std::io::Write>::write_fmt' % n] = h_stdout_write_fmt
        C['<%s as std::io::Write>::flush' % n] = h_flush
    C['std::io::Stdout::lock'] = lambda ex, st, f, a: Abs('stdout', ())
    ex.patterns.append((lambda n: n.startswith('<') and n.endswith(' as std::io::Read>::read_to_end') and 'Opaque' in n, h_read_to_end_any))
    ex.patterns.append((lambda n: n.startswith('std::io::copy::<') and 'Opaque' in n, h_io_copy))
    for b in ('BufWriter', 'LineWriter'):
        ex.patterns.append((lambda n, b=b: n.startswith('std::io::%s::<' % b) and n.endswith(('>::new', '>::with_capacity')), h_bufw_new))
        ex.patterns.append((lambda n, b=b: n.startswith('<std::io::%s<' % b) and n.endswith('as std::io::Write>::write_all'), h_bufw_write_all))
        ex.patterns.append((lambda n, b=b: n.startswith('<std::io::%s<' % b) and n.endswith('as std::io::Write>::flush'), h_bufw_flush))
    C['std::io::stdout'] = lambda ex, st, f, a: Abs('stdout', ())
    C['std::io::_print'] = h_print
    C['std::io::_eprint'] = h_eprint
    C['mvharness::__opaque_read'] = h_opaque_read
    C['mvharness::__opaque_seek'] = h_opaque_seek
    C['<mvharness::OpaqueReader as std::io::Read>::read_to_end'] = h_read_to_end
    C['<mvharness::OpaqueWriter as std::io::Write>::write_all'] = h_writer_write_all
    C['mvharness::__opaque_flush'] = h_opaque_flush
    C['mvharness::__opaque_write'] = h_opaque_write
    C['getrandom::getrandom'] = h_getrandom
    pat('rpassword::prompt_password', h_prompt)
    C['std::time::SystemTime::now'] = h_now
    C['std::time::SystemTime::duration_since'] = h_duration_since
    C['std::time::Duration::as_secs'] = h_as_secs
    C['std::io::Error::is_interrupted'] = h_ioerr_interrupted
    C['std::io::Error::kind'] = h_ioerr_kind
    # dependencies
    pat('ct_codecs::base64::Base64 as ct_codecs::Encoder>::encode_to_string', h_b64_encode)
    pat('ct_codecs::base64::Base64 as ct_codecs::Decoder>::decode_to_vec', h_b64_decode)
    C['scrypt::scrypt'] = h_scrypt
