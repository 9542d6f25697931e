"""Symbolic arguments and views of minisign's data types for the contracts."""
from ..mv import terms as T
from ..mv import builtins as B
from ..mv import solver
from ..mv.terms import T as Term
from ..mv.values import *
from ..mv.exec import State
from .base import Missing

U64 = (1 << 64) - 1

def fieldnames(prog, tyid):
    t = prog.types[prog.strip(tyid)] if not isinstance(tyid, str) else prog.tyname.get(tyid)
    if t is None:
        raise Missing('type %s' % tyid)
    if t.kind != 'adt' or t.k[2] != 'Struct':
        raise Missing('struct %s' % t.name)
    v = t.k[3][0]
    return list(zip(v[3], v[2]))

def build(prog, ty, mk, path=''):
    """a value of struct type ty; mk(path, type) gives the value of each leaf, or None to descend"""
    if isinstance(ty, str):
        t = prog.tyname.get(ty)
        if t is None:
            raise Missing('type %s' % ty)
        ty = t.id
    v = mk(path, prog.types[ty])
    if v is not None:
        return v
    tr = prog.transparent(ty)
    t = prog.types[ty]
    if t.kind == 'adt' and t.k[2] == 'Struct':
        fs = list(zip(t.k[3][0][3], t.k[3][0][2]))
        if tr is not None:
            n, f = fs[tr]
            return build(prog, f, mk, (path + '.' + n).lstrip('.'))
        return tuple(build(prog, f, mk, (path + '.' + n).lstrip('.')) if not prog.zst(f) else () for n, f in fs)
    raise Missing('unexpected field %s of type %s' % (path, t.name))

def field(prog, ty, val, path):
    """component `a.b` of a struct value"""
    if isinstance(ty, str):
        t = prog.tyname.get(ty)
        if t is None:
            raise Missing('type %s' % ty)
        ty = t.id
    for n in path.split('.'):
        t = prog.types[ty]
        if t.kind != 'adt':
            raise Missing('field %s' % path)
        names = t.k[3][0][3]
        if n not in names:
            raise Missing('field %s of %s' % (n, t.name))
        i = names.index(n)
        tr = prog.transparent(ty)
        if tr is None:
            val = val[i]
        elif tr != i:
            return ()
        ty = t.k[3][0][2][i]
    return val

def barr(src, n, off=0):
    """n symbolic bytes, elements of the opaque string src"""
    return tuple(sbyte(src, off + i) for i in range(n))

def arr_mk(prefix, given={}):
    """leaf maker: byte arrays become opaque strings named prefix+path"""
    def mk(path, t):
        if path in given:
            return given[path]
        if t.kind == 'array':
            return barr(prefix + path, t.k[2])
        return None
    return mk

def rope(src, n, off=0):
    return Rope((('s', src, off, n),))

def byteslice(ex, st, r):
    """&[u8] holding the rope r"""
    u8 = ex.p.tyname['u8'].id
    r = rope_of(r)
    o = ex.new(st, r, ('seq', u8))
    return Ptr(o, (0,), r.length())

def strarg(ex, st, name, maxlen=1 << 40, **attrs):
    """&str with arbitrary contents"""
    n = ex.srclen(name, 0, maxlen)
    B.src(ex, name, utf8=True, **attrs)
    return byteslice(ex, st, rope(name, n))

def string(ex, st, name, maxlen=1 << 40, **attrs):
    n = ex.srclen(name, 0, maxlen)
    B.src(ex, name, utf8=True, **attrs)
    return B.new_vec(ex, st, rope(name, n))

def utf8start(ex, st, name):
    """the opaque UTF-8 text begins with the first byte of a character"""
    b = sbyte(name, 0)
    st.assume(T.bor_(T.eq(ex.srclen(name, 0, None), 0), T.lt(b, 128), T.ge(b, 192)))

def vec(ex, st, r):
    return B.new_vec(ex, st, rope_of(r))

def vecrope(ex, st, v):
    """contents of a Vec<u8> / String value"""
    return B.vec_rope(ex, st, v)

def le(bs):
    """little-endian value of bytes"""
    return T.sumt([T.scale(b, 1 << (8 * i)) for i, b in enumerate(bs)])

def arr(v, st, n):
    """explicit elements of an array value"""
    if isinstance(v, Rope):
        return explicit(v, st, n)
    return tuple(v)

def eqarr(a, b):
    if len(a) != len(b):
        return False
    return T.band_(*[T.eq(x, y) for x, y in zip(a, b)]) if a else True

def ref(ex, st, val, ty):
    t = ex.p.tyname.get(ty)
    if t is None:
        raise Missing('type %s' % ty)
    return Ptr(ex.new(st, val, t.id), ())

def is_ok(v):
    return isinstance(v, En) and v.v == 0

def is_err(v):
    return isinstance(v, En) and v.v == 1

def simp(st, r):
    """drop parts of a rope that are empty on this path"""
    out = []
    for s in rope_of(r).segs:
        n = seglen(s)
        if not isinstance(n, int):
            l, h = st.interval(n)
            if h == 0 or (l == 0 and st.known(T.eq(n, 0))):
                continue
        out.append(s)
    return Rope(norm(out))

def req(ex, st, a, b):
    """condition: two ropes have the same length and contents"""
    a, b = simp(st, a), simp(st, b)
    if same_rope(ex, st, a, b):
        return True
    le = T.eq(a.length(), b.length())
    if not st.known(le):
        try:
            if solver.prove(st.pc, T.bnot(le))[0] == 'proved':
                return False
        except Exception:
            pass
        return T.band_(le, B.rope_eq(ex, st, a, b))
    return B.rope_eq(ex, st, a, b)

def differ(a, b, n=24):
    """do two tuples of byte terms certainly differ for some values of what they are computed from?"""
    import random
    rng = random.Random(5)
    ls = sorted({x for t in tuple(a) + tuple(b) if isinstance(t, Term) for x in T.leaves(t)}, key=lambda x: x.id)
    for _ in range(n):
        env = {}
        for x in ls:
            l, h = (x.lo if x.lo is not None else 0), (x.hi if x.hi is not None else 1 << 64)
            env[x] = rng.random() < 0.5 if x.b else rng.randint(l, h)
        try:
            if any(T.evaluate(x, env) != T.evaluate(y, env) for x, y in zip(a, b)):
                return True
        except Exception:
            return False
    return len(a) != len(b)

# ------------------------------------------------------------------ canonical ropes
def canonbyte(ex, t):
    """the same term for every way of computing the same function of one byte"""
    if not isinstance(t, Term) or t.op == 'uf':
        return t
    m = ex.keynames.setdefault('canonbyte', {})
    if t in m:
        return m[t]
    r = t
    v = list(T.leaves(t))
    if len(v) == 1 and v[0].op == 'uf' and v[0].args[0][:1] == '@':
        tab = tuple(T.evaluate(t, {v[0]: i}) for i in range(256))
        if all(isinstance(x, int) and not isinstance(x, bool) for x in tab):
            r = v[0] if tab == tuple(range(256)) else tab[0] if len(set(tab)) == 1 else m.setdefault((v[0], tab), t)
    m[t] = r
    return r

def canon(ex, st, r):
    """replace lengths that the path condition pins to the end of their source (or to a constant)"""
    out = []
    for s in rope_of(r).segs:
        n = seglen(s)
        if isinstance(n, int):
            out.append(('c', tuple(canonbyte(ex, b) for b in s[1])) if s[0] == 'c' else s)
            continue
        if st.known(T.eq(n, 0)):
            continue
        if s[0] == 's':
            N = ex.srclens.get(s[1])
            if N is not None:
                m = T.sub(N, s[2])
                if same(m, n) or st.known(T.eq(m, n)):
                    n = m
        l, h = st.interval(n) if isinstance(n, Term) else (n, n)
        if isinstance(n, Term) and l is not None and l == h:
            n = l
        elif isinstance(n, Term) and s[0] == 's':
            v = None
            for c in (64, 32):
                if st.known(T.eq(n, c)):
                    v = c
            if v is not None:
                n = v
        out.append(s[:-1] + (n,) if s[0] != 'c' else s)
    return Rope(norm(out))

def same_rope(ex, st, a, b):
    """certainly the same bytes on this path?"""
    if same(B.key(a), B.key(b)):
        return True
    a, b = canon(ex, st, a), canon(ex, st, b)
    if same(B.key(a), B.key(b)):
        return True
    if len(a.segs) != len(b.segs):
        return False
    for x, y in zip(a.segs, b.segs):
        if x[0] != y[0]:
            return False
        if x[0] == 's' and not (x[1] == y[1] and same(x[2], y[2]) and st.known(T.eq(x[3], y[3]))):
            return False
        if x[0] == 'z' and not (same(x[1], y[1]) and st.known(T.eq(x[2], y[2]))):
            return False
        if x[0] == 'c' and not same(x[1], y[1]):
            return False
    return True


# ------------------------------------------------------------------ matching ropes piece by piece
class Default(dict):
    def __init__(self, m):
        super().__init__(m or {})
    def __missing__(self, k):
        return lambda x: 0 if not x.b else False

def fixed(st, terms):
    """the variables of these terms that the path fixes to one value"""
    env = {}
    for t in terms:
        for x in (T.leaves(t) if isinstance(t, Term) else ()):
            if x in env or x.b:
                continue
            l, h = st.interval(x)
            if l is not None and l == h:
                env[x] = l
            elif l is not None and st.known(T.eq(x, l)):
                env[x] = l
    return env

def match(ex, st, a, b, timeout=10000):
    r, d = match_(ex, st, a, b, timeout)
    if r == 'refuted' and (T.vague(st.pc) or T.VAGUE.search(repr(a)) or T.VAGUE.search(repr(b))):
        r = 'unknown'
    return r, d

def match_(ex, st, a, b, timeout=10000):
    """('proved' | 'refuted' | 'unknown', detail): do the two ropes have the same length and contents on this path?"""
    def is_(c):
        if isinstance(c, bool):
            return c
        if st.known(c):
            return True
        return solver.prove(st.pc, c, timeout)[0] == 'proved'
    la, lb = rope_of(a).length(), rope_of(b).length()
    if not is_(T.eq(la, lb)):
        r, m = solver.prove(st.pc, T.eq(la, lb), timeout)
        return ('refuted' if r == 'refuted' else 'unknown'), 'lengths %s and %s; %s' % (T.show(la, 5), T.show(lb, 5), m)
    A, B_ = list(rope_of(a).segs)[::-1], list(rope_of(b).segs)[::-1]
    def cut(s, n):
        m = T.sub(seglen(s), n)
        if s[0] == 'c':
            if not isinstance(n, int):
                raise Unsupported('cut')
            return ('c', s[1][:n]), ('c', s[1][n:])
        if s[0] == 's':
            return ('s', s[1], s[2], n), ('s', s[1], T.add(s[2], n), m)
        return ('z', s[1], n), ('z', s[1], m)
    def pin(s):
        """constant length of the piece, when the path fixes it"""
        n = seglen(s)
        if isinstance(n, int) or s[0] == 'c':
            return s
        try:
            l, h = st.interval(n)
            if l is None or l != h:
                r, m = solver.check_sat(list(st.pc) + [T.eq(n, n) if False else T.ge(n, 0)], timeout)
                l = T.evaluate(n, Default(m)) if r == 'sat' else None
            if l is not None and is_(T.eq(n, l)):
                return s[:-1] + (l,)
        except Exception:
            pass
        return s
    steps = 0
    while A or B_:
        if A and B_ and (A[-1][0] == 'c') != (B_[-1][0] == 'c'):
            A[-1], B_[-1] = pin(A[-1]), pin(B_[-1])
        steps += 1
        if steps > 2000:
            return 'unknown', 'too many pieces'
        for X in (A, B_):
            while X and is_(T.eq(seglen(X[-1]), 0)):
                X.pop()
        if not A or not B_:
            break
        x, y = A[-1], B_[-1]
        lx, ly = seglen(x), seglen(y)
        if is_(T.eq(lx, ly)):
            n = ly if isinstance(ly, int) else lx
            A.pop(), B_.pop()
            if x[0] == 'c' and not isinstance(n, int):
                n = len(x[1])
            rx = ry = None
        elif is_(T.lt(lx, ly)):
            n = lx
            A.pop(), B_.pop()
            if y[0] == 'c' and not isinstance(n, int):
                return 'unknown', 'explicit bytes against a piece of unknown length: %r | %r' % (Rope(tuple(A[::-1])+(x,)), Rope(tuple(B_[::-1])+(y,)))
            y, ry = cut(y, n)
            B_.append(ry)
        elif is_(T.lt(ly, lx)):
            n = ly
            A.pop(), B_.pop()
            if x[0] == 'c' and not isinstance(n, int):
                return 'unknown', 'explicit bytes against a piece of unknown length: %r | %r' % (Rope(tuple(A[::-1])+(x,)), Rope(tuple(B_[::-1])+(y,)))
            x, rx = cut(x, n)
            A.append(rx)
        else:
            return 'unknown', 'order of %s and %s is open' % (T.show(lx, 5), T.show(ly, 5))
        if x[0] == 's' and y[0] == 's' and x[1] == y[1] and (same(x[2], y[2]) or is_(T.eq(x[2], y[2]))):
            continue
        if x[0] == 'z' and y[0] == 'z':
            g = T.eq(x[1], y[1])
            if not is_(g):
                return 'unknown', 'fill bytes differ'
            continue
        if not isinstance(n, int):
            return 'unknown', '%r against %r' % (x[:3], y[:3])
        for i in range(n):
            el = [s[1][i] if s[0] == 'c' else sbyte(s[1], T.add(s[2], i)) if s[0] == 's' else s[1] for s in (x, y)]
            if same(el[0], el[1]):
                continue
            if any(isinstance(e, Term) and e.op == 'uf' for e in el) and not all(isinstance(e, int) for e in el):
                pass
            r, m = solver.prove(st.pc, T.eq(el[0], el[1]), timeout)
            if r == 'unknown':
                env = fixed(st, el)
                if env and same(T.substitute(el[0], env), T.substitute(el[1], env)):
                    continue
            if r != 'proved':
                return r, 'byte %s is not byte %s; %s' % (T.show(el[0], 4), T.show(el[1], 4), m)
    return 'proved', 'piecewise'

def prove_match(pr, st, a, b, name):
    r, d = match(pr.ex, st, a, b)
    return pr.rec(name, r, 'rope matching' if r == 'proved' else '', d)

def match_tree(ex, st, a, b):
    """match for values that contain byte sequences"""
    if same(a, b):
        return 'proved', ''
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not all(isinstance(x, (int, Term)) for x in a + b):
        for x, y in zip(a, b):
            r = match_tree(ex, st, x, y)
            if r[0] != 'proved':
                return r
        return 'proved', ''
    if isinstance(a, (Rope, tuple)) and isinstance(b, (Rope, tuple)):
        return match(ex, st, a, b)
    if isinstance(a, (int, Term)) and isinstance(b, (int, Term)) and not isinstance(a, bool) and not isinstance(b, bool):
        from ..mv import solver
        return solver.prove(st.pc, T.eq(a, b))
    return 'unknown', '%r against %r' % (a, b)
