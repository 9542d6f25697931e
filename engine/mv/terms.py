"""Hash-consed terms over mathematical integers and booleans.

Machine integers are represented by the mathematical integer they denote; wrapping,
shifting and masking become mod / floor-div by constants.  Every integer node carries a
sound interval [lo, hi].  Concrete values are plain Python ints / bools (never nodes)."""
import re
from functools import lru_cache
from math import gcd

class T:
    __slots__ = ('op', 'args', 'lo', 'hi', 'id', 'b', '_poly', '_vars', '_tz')
    def __repr__(self):
        return show(self)
    def __bool__(self):
        raise TypeError('symbolic term used as a Python bool')

_tab = {}
_cnt = [0]

def _mk(op, args, lo, hi, b=False):
    k = (op, args)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op; t.args = args; t.lo = lo; t.hi = hi; t.b = b
    t._poly = None; t._vars = None; t._tz = None
    _cnt[0] += 1
    t.id = _cnt[0]
    if not b and lo is not None and lo == hi:
        # a node whose value is forced
        _tab[k] = lo
        return lo
    _tab[k] = t
    return t

_fresh = [0]
def fresh_id():
    _fresh[0] += 1
    return _fresh[0]

def var(name, lo, hi):
    return _mk('var', (name, lo, hi), lo, hi)

def bvar(name):
    return _mk('bvar', (name,), None, None, True)

def uf(name, args, lo, hi):
    return _mk('uf', (name, tuple(args), lo, hi), lo, hi)

def buf_(name, args):
    return _mk('buf', (name, tuple(args)), None, None, True)

def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)

def lo(x):
    return x if isinstance(x, int) else x.lo

def hi(x):
    return x if isinstance(x, int) else x.hi

def _parts(x):
    """linear form: (const, dict atom->coef)"""
    if isinstance(x, int):
        return int(x), {}
    if x.op == 'lin':
        return x.args[0], dict(x.args[1])
    return 0, {x: 1}

def _lin(c, d):
    items = [(a, k) for a, k in d.items() if k]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    l = h = c
    for a, k in items:
        if k > 0:
            l = None if l is None or a.lo is None else l + k * a.lo
            h = None if h is None or a.hi is None else h + k * a.hi
        else:
            l2 = None if a.hi is None else k * a.hi
            h2 = None if a.lo is None else k * a.lo
            l = None if l is None or l2 is None else l + l2
            h = None if h is None or h2 is None else h + h2
    # relational refinement: x - 2^k*div(x,2^k) patterns are kept as mod atoms, so intervals suffice
    return _mk('lin', (c, tuple(items)), l, h)

def add(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x + y
    c1, d1 = _parts(x)
    c2, d2 = _parts(y)
    if len(d2) > len(d1):
        d1, d2 = d2, d1
    d = dict(d1)
    for a, k in d2.items():
        n = d.get(a, 0) + k
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return _lin(c1 + c2, d)

def sumt(xs):
    c = 0
    d = {}
    for x in xs:
        c1, d1 = _parts(x)
        c += c1
        for a, k in d1.items():
            d[a] = d.get(a, 0) + k
    return _lin(c, d)

def scale(x, k):
    if isinstance(x, int):
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    c, d = _parts(x)
    return _lin(c * k, {a: v * k for a, v in d.items()})

def neg(x):
    return scale(x, -1)

def sub(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x - y
    r = add(x, scale(y, -1))
    if isinstance(y, T) and isinstance(x, T) and isinstance(r, T) and r.op == 'lin':
        # w + c - D*div(w, D) is mod(w, D) + c
        for a, k in (y.args[1] if y.op == 'lin' else ((y, 1),)):
            if a.op == 'div' and a.args[1] > 1:
                w, D = a.args
                c, d = _parts(r)
                if d.get(a) == -D:
                    cw, dw = _parts(w)
                    if len(d) == len(dw) + 1 and all(d.get(b) == e for b, e in dw.items()):
                        # (kept opaque: only expand_rem looks inside)
                        return add(_mk('rem', (w, D), 0, D - 1), c - cw)
    return r

def mul(x, y):
    if isinstance(x, int):
        return scale(y, int(x))
    if isinstance(y, int):
        return scale(x, int(y))
    # pull out common integer content of linear forms
    cx, x = _content(x)
    cy, y = _content(y)
    fx = x.args[0] if x.op == 'mul' else (x,)
    fy = y.args[0] if y.op == 'mul' else (y,)
    f = tuple(sorted(fx + fy, key=lambda t: t.id))
    l = h = None
    if None not in (x.lo, x.hi, y.lo, y.hi):
        c = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
        l, h = min(c), max(c)
        if x is y and l < 0:
            l = 0
    return scale(_mk('mul', (f,), l, h), cx * cy)

def _content(x):
    if x.op != 'lin':
        return 1, x
    g = x.args[0]
    for _, k in x.args[1]:
        g = gcd(g, k)
    g = abs(g)
    if g > 1:
        return g, _lin(x.args[0] // g, {a: k // g for a, k in x.args[1]})
    return 1, x

def _v2(n):
    return (n & -n).bit_length() - 1

def _split_low(c, d, D):
    """find g | D (power of two) such that the part with coefficients not divisible by g lies in [0,g).
    returns (low, high/g, g) with the largest g < D, or None"""
    if D & (D - 1):
        return None
    vs = sorted({_v2(k) for k in d.values()}, reverse=True)
    for v in vs:
        g = 1 << v
        if g >= D or g <= 1:
            continue
        ld = {a: k for a, k in d.items() if k % g}
        lc = c % g
        if not ld and not lc:
            return 0, _lin(c // g, {a: k // g for a, k in d.items()}), g
        low = _lin(lc, ld)
        if lo(low) is not None and hi(low) is not None and lo(low) >= 0 and hi(low) < g:
            high = _lin((c - lc) // g, {a: k // g for a, k in d.items() if k % g == 0})
            return low, high, g
    return None

def div(x, D):
    """floor division by a positive constant"""
    if isinstance(x, int):
        return x // D
    if D == 1:
        return x
    if x.lo is not None and x.hi is not None and x.lo // D == x.hi // D:
        return x.lo // D
    if x.op == 'div':
        return div(x.args[0], x.args[1] * D)
    if x.op == 'mod' and x.args[1] % D == 0:
        return mod(div(x.args[0], D), x.args[1] // D)
    if x.op == 'ite' and (isinstance(x.args[1], int) or isinstance(x.args[2], int)):
        return ite(x.args[0], div(x.args[1], D), div(x.args[2], D))
    if x.op == 'lin':
        c, d = _parts(x)
        q = {a: k // D for a, k in d.items() if k % D == 0}
        r = {a: k for a, k in d.items() if k % D}
        qc, rc = divmod(c, D)
        if q or qc:
            return add(_lin(qc, q), div(_lin(rc, r), D))
        s = _split_low(c, d, D)
        if s:
            return div(s[1], D // s[2])
    l = x.lo // D if x.lo is not None else None
    h = x.hi // D if x.hi is not None else None
    return _mk('div', (x, D), l, h)

def mod(x, D):
    if isinstance(x, int):
        return x % D
    if D == 1:
        return 0
    if x.lo is not None and x.hi is not None and x.lo // D == x.hi // D:
        return sub(x, D * (x.lo // D))
    if x.op == 'mod' and x.args[1] % D == 0:
        return mod(x.args[0], D)
    if x.op == 'ite' and (isinstance(x.args[1], int) or isinstance(x.args[2], int)):
        return ite(x.args[0], mod(x.args[1], D), mod(x.args[2], D))
    if x.op == 'lin':
        c, d = _parts(x)
        nd = {}
        nc = c % D
        ch = nc != c
        for a, k in d.items():
            k2 = k % D
            if k2 != k:
                ch = True
                if k2 == 0:
                    continue
                if k < 0 and -k < k2:
                    k2 = k       # keep small negative coefficients
                    ch = ch or False
            # flatten c*mod(y,m) when D | c*m
            if a.op == 'mod' and (k2 * a.args[1]) % D == 0:
                c3, d3 = _parts(scale(a.args[0], k2))
                nc = (nc + c3)
                for b, kk in d3.items():
                    nd[b] = nd.get(b, 0) + kk
                ch = True
            else:
                nd[a] = nd.get(a, 0) + k2
        nc %= D
        y = _lin(nc, nd)
        if y is not x:
            return mod(y, D)
        s = _split_low(nc, {a: k for a, k in nd.items() if k}, D)
        if s:
            return add(s[0], scale(mod(s[1], D // s[2]), s[2]))
    return _mk('mod', (x, D), 0, D - 1)

# ---------------------------------------------------------------- booleans
def bnot(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le0':      # not (x<=0)  ->  1-x <= 0
        return le0(sub(1, a.args[0]))
    return _mk('not', (a,), None, None, True)

def _bn(op, xs):
    unit = (op == 'and')
    s = []
    seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if isinstance(x, bool):
            if x != unit:
                return x
            continue
        if x.op == op:
            st.extend(x.args[::-1])
            continue
        if x in seen:
            continue
        if bnot(x) in seen:
            return not unit
        seen.add(x)
        s.append(x)
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return _mk(op, tuple(s), None, None, True)

def band_(*xs):
    return _bn('and', xs)

def bor_(*xs):
    return _bn('or', xs)

def implies(a, b):
    return bor_(bnot(a), b)

def iff(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if a is b:
        return True
    if bnot(a) is b:
        return False
    return bor_(band_(a, b), band_(bnot(a), bnot(b)))

def le0(x):
    if isinstance(x, int):
        return x <= 0
    if x.hi is not None and x.hi <= 0:
        return True
    if x.lo is not None and x.lo > 0:
        return False
    if x.op == 'ite' and (isinstance(x.args[1], int) or isinstance(x.args[2], int)):
        return bite(x.args[0], le0(x.args[1]), le0(x.args[2]))
    if x.op == 'lin':
        c, d = x.args
        g = 0
        for _, k in d:
            g = gcd(g, k)
        if len(d) == 1 and d[0][0].op == 'ite':
            a, k = d[0]
            return bite(a.args[0], le0(add(c, scale(a.args[1], k))), le0(add(c, scale(a.args[2], k))))
        if g > 1:
            # c + g*y <= 0  <=>  y <= floor(-c/g)
            x = _lin(-((-c) // g), {a: k // g for a, k in d})
            if isinstance(x, int):
                return x <= 0
    return _mk('le0', (x,), None, None, True)

def eq0(x):
    if isinstance(x, int):
        return x == 0
    if (x.lo is not None and x.lo > 0) or (x.hi is not None and x.hi < 0):
        return False
    if x.op == 'ite' and (isinstance(x.args[1], int) or isinstance(x.args[2], int)):
        return bite(x.args[0], eq0(x.args[1]), eq0(x.args[2]))
    if x.op == 'lin':
        c, d = x.args
        g = 0
        for _, k in d:
            g = gcd(g, k)
        if c % g:
            return False
        if d[0][1] < 0:
            g = -g
        if len(d) == 1 and d[0][0].op == 'ite':
            a, k = d[0]
            return bite(a.args[0], eq0(add(c, scale(a.args[1], k))), eq0(add(c, scale(a.args[2], k))))
        if g != 1:
            x = _lin(c // g, {a: k // g for a, k in d})
    return _mk('eq0', (x,), None, None, True)

def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), 1))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, T) and a.b) or (isinstance(b, T) and b.b):
        return iff(tobool(a), tobool(b))
    return eq0(sub(a, b))
def ne(a, b): return bnot(eq(a, b))

def tobool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x != 0
    if x.b:
        return x
    return bnot(eq0(x))

def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    return bor_(band_(c, a), band_(bnot(c), b))

def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, T) and a.b):
        return bite(c, tobool(a), tobool(b))
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    la, lb, ha, hb = lo(a), lo(b), hi(a), hi(b)
    l = None if la is None or lb is None else min(la, lb)
    h = None if ha is None or hb is None else max(ha, hb)
    return _mk('ite', (c, a, b), l, h)

def b2i(c):
    return ite(c, 1, 0)

# ---------------------------------------------------------------- bit operations on non-negative ints
def _mask_run(m):
    """m = ones on [k, n) ?"""
    if m == 0:
        return None
    k = _v2(m)
    n = (m >> k)
    if n & (n + 1):
        return None
    return k, k + n.bit_length()

def tz(x):
    """known number of trailing zero bits"""
    if isinstance(x, int):
        return 4096 if x == 0 else _v2(x)
    if x._tz is not None:
        return x._tz
    r = 0
    if x.op == 'lin':
        r = tz(x.args[0])
        for a, k in x.args[1]:
            r = min(r, _v2(k) + tz(a))
    elif x.op == 'mod' and x.args[1] & (x.args[1] - 1) == 0:
        r = min(tz(x.args[0]), _v2(x.args[1]))
    elif x.op == 'ite':
        r = min(tz(x.args[1]), tz(x.args[2]))
    elif x.op in ('bor', 'bxor'):
        r = min(tz(a) for a in x.args)
    x._tz = r
    return r

def _bitlen(x):
    return hi(x).bit_length()

def b_and(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x & y
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        if y == 0:
            return 0
        y &= (1 << _bitlen(x)) - 1
        if y == 0:
            return 0
        mr = _mask_run(y)
        if mr:
            k, n = mr
            r = mod(x, 1 << n)
            return sub(r, mod(r, 1 << k)) if k else r
        if x.op == 'band' and isinstance(x.args[1], int):
            return b_and(x.args[0], x.args[1] & y)
        # split a constant mask with few runs
        rs = []
        m = y
        while m:
            k = _v2(m)
            n = k
            while (m >> n) & 1:
                n += 1
            rs.append(((1 << n) - (1 << k)))
            m &= ~((1 << n) - 1)
        if len(rs) <= 3:
            return sumt([b_and(x, r) for r in rs])
        return _mk('band', (x, y), 0, min(x.hi, y))
    if x is y:
        return x
    if x.hi == 1 and x.lo == 0:
        return mul(mod(y, 2), x)
    if y.hi == 1 and y.lo == 0:
        return mul(mod(x, 2), y)
    if x.op == 'ite' and isinstance(x.args[1], int) and isinstance(x.args[2], int):
        return ite(x.args[0], b_and(x.args[1], y), b_and(x.args[2], y))
    if y.op == 'ite' and isinstance(y.args[1], int) and isinstance(y.args[2], int):
        return ite(y.args[0], b_and(y.args[1], x), b_and(y.args[2], x))
    xs = (x.args if x.op == 'band' else (x,)) + (y.args if y.op == 'band' else (y,))
    cs = [a for a in xs if isinstance(a, int)]
    ts = sorted(set(a for a in xs if not isinstance(a, int)), key=lambda t: t.id)
    for c in cs:
        ts.append(c)
    if len(ts) == 1:
        return ts[0]
    return _mk('band', tuple(ts), 0, min(hi(a) for a in ts))

def b_or(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x | y
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int) and y == 0:
        return x
    if x is y:
        return x
    # disjoint bits -> addition
    if _bitlen(y) <= tz(x) or _bitlen(x) <= tz(y):
        return add(x, y)
    if _disjoint(x, y):
        return add(x, y)
    xs = (x.args if x.op == 'bor' else (x,)) + (y.args if isinstance(y, T) and y.op == 'bor' else (y,))
    c = 0
    ts = set()
    for a in xs:
        if isinstance(a, int):
            c |= a
        else:
            ts.add(a)
    if c and c & (c + 1) == 0 and all(_bitlen(t) <= c.bit_length() for t in ts):
        return c
    ts = sorted(ts, key=lambda t: t.id)
    if c:
        ts = ts + [c]
    if len(ts) == 1:
        return ts[0]
    n = max(_bitlen(t) for t in ts)
    return _mk('bor', tuple(ts), max(lo(t) for t in ts), (1 << n) - 1)

def _segs(x):
    """bit segments [a,b) possibly non-zero, from the linear form (None if not understood)"""
    if isinstance(x, int):
        r = []
        while x:
            k = _v2(x)
            n = k
            while (x >> n) & 1:
                n += 1
            r.append((k, n))
            x &= ~((1 << n) - 1)
        return r
    if x.op != 'lin':
        return [(tz(x), _bitlen(x))] if x.lo is not None and x.lo >= 0 else None
    r = []
    c, d = x.args
    if c < 0:
        return None
    r += _segs(c)
    for a, k in d:
        if k <= 0 or k & (k - 1) or a.lo is None or a.lo < 0 or a.hi is None:
            return None
        v = _v2(k)
        r.append((v + tz(a), v + _bitlen(a)))
    r.sort()
    for i in range(len(r) - 1):
        if r[i][1] > r[i + 1][0]:
            return None
    return r

def _disjoint(x, y):
    a = _segs(x)
    b = _segs(y)
    if a is None or b is None:
        return False
    r = sorted(a + b)
    return all(r[i][1] <= r[i + 1][0] for i in range(len(r) - 1))

def b_xor(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x ^ y
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int) and y == 0:
        return x
    if x is y:
        return 0
    if isinstance(y, int) and x.op == 'lin' and _disjoint(x, y):
        return add(x, y)
    xs = (x.args if x.op == 'bxor' else (x,)) + (y.args if isinstance(y, T) and y.op == 'bxor' else (y,))
    c = 0
    cnt = {}
    for a in xs:
        if isinstance(a, int):
            c ^= a
        elif a in cnt:
            del cnt[a]
        else:
            cnt[a] = 1
    ts = sorted(cnt, key=lambda t: t.id)
    if not ts:
        return c
    n = max([_bitlen(t) for t in ts] + [c.bit_length()])
    if c and c == (1 << n) - 1 and len(ts) == 1:
        return sub(c, ts[0])
    if c:
        ts = ts + [c]
    if len(ts) == 1:
        return ts[0]
    return _mk('bxor', tuple(ts), 0, (1 << n) - 1)

# ---------------------------------------------------------------- general (non-constant) division
def idiv(x, y):
    if isinstance(y, int):
        return div(x, y)
    if lo(x) >= 0 and lo(y) > 0:
        return _mk('idiv', (x, y), lo(x) // hi(y), hi(x) // lo(y))
    return _mk('idiv', (x, y), None, None)

def imod(x, y):
    if isinstance(y, int):
        return mod(x, y)
    return sub(x, mul(y, idiv(x, y)))

# ---------------------------------------------------------------- utilities
def subterms(t, seen=None):
    """all nodes below t (including t), each once, children first"""
    out = []
    seen = set() if seen is None else seen
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if not isinstance(x, T):
            continue
        if done:
            out.append(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        st.append((x, True))
        for c in children(x):
            if isinstance(c, T) and c not in seen:
                st.append((c, False))
    return out

def children(x):
    o = x.op
    if o in ('var', 'bvar'):
        return ()
    if o == 'lin':
        return [a for a, _ in x.args[1]]
    if o == 'mul':
        return x.args[0]
    if o in ('div', 'mod', 'rem'):
        return (x.args[0],)
    if o in ('uf', 'buf'):
        return ()
    return x.args

def leaves(t):
    """variables and uninterpreted applications occurring in t"""
    if not isinstance(t, T):
        return frozenset()
    if t._vars is None:
        for x in subterms(t):
            if x._vars is None:
                if x.op in ('var', 'bvar', 'uf', 'buf'):
                    x._vars = frozenset((x,))
                else:
                    s = frozenset()
                    for c in children(x):
                        if isinstance(c, T):
                            s = s | c._vars
                    x._vars = s
    return t._vars

VAGUE = re.compile(r"(?:fmt|display|tostring)#\d")
_vague = {}

def vague(ts):
    """does a term depend on text that is only known to be some text (formatting that is not modelled)?"""
    for t in ts:
        for x in leaves(t):
            v = _vague.get(x)
            if v is None:
                v = _vague[x] = bool(VAGUE.search(repr(x.args)))
            if v:
                return True
    return False

def rebuild(x, f):
    """apply constructor of x to mapped children"""
    o = x.op
    if o == 'lin':
        return sumt([x.args[0]] + [scale(f(a), k) for a, k in x.args[1]])
    if o == 'mul':
        r = 1
        for a in x.args[0]:
            r = mul(r, f(a))
        return r
    if o == 'div':
        return div(f(x.args[0]), x.args[1])
    if o == 'mod':
        return mod(f(x.args[0]), x.args[1])
    if o == 'rem':
        y = f(x.args[0])
        return mod(y, x.args[1]) if isinstance(y, int) or y.op != 'lin' else _mk('rem', (y, x.args[1]), 0, x.args[1] - 1)
    a = [f(c) for c in x.args]
    if o == 'ite':
        return ite(*a)
    if o == 'le0':
        return le0(a[0])
    if o == 'eq0':
        return eq0(a[0])
    if o == 'not':
        return bnot(a[0])
    if o == 'and':
        return band_(*a)
    if o == 'or':
        return bor_(*a)
    if o in ('band', 'bor', 'bxor'):
        g = {'band': b_and, 'bor': b_or, 'bxor': b_xor}[o]
        r = a[0]
        for y in a[1:]:
            r = g(r, y)
        return r
    if o == 'idiv':
        return idiv(*a)
    raise ValueError(o)

def substitute(t, env):
    """env: dict leaf/node -> value"""
    if not isinstance(t, T):
        return t
    memo = {}
    for x in subterms(t):
        if x in env:
            memo[x] = env[x]
        elif x.op in ('var', 'bvar', 'uf', 'buf'):
            memo[x] = x
        else:
            if all((not isinstance(c, T)) or memo[c] is c for c in children(x)):
                memo[x] = x
            else:
                memo[x] = rebuild(x, lambda c: memo[c] if isinstance(c, T) else c)
    return memo[t]

def evaluate(t, env):
    """concrete value under env: leaf -> int/bool (missing leaves: error)"""
    if not isinstance(t, T):
        return t
    memo = {}
    for x in subterms(t):
        o = x.op
        if o in ('var', 'bvar', 'uf', 'buf'):
            memo[x] = env[x] if x in env else env[None](x)
            continue
        g = lambda c: memo[c] if isinstance(c, T) else c
        if o == 'lin':
            r = x.args[0]
            for a, k in x.args[1]:
                r += k * memo[a]
        elif o == 'mul':
            r = 1
            for a in x.args[0]:
                r *= memo[a]
        elif o == 'div':
            r = memo[x.args[0]] // x.args[1]
        elif o in ('mod', 'rem'):
            r = memo[x.args[0]] % x.args[1]
        elif o == 'ite':
            r = g(x.args[1]) if g(x.args[0]) else g(x.args[2])
        elif o == 'le0':
            r = memo[x.args[0]] <= 0
        elif o == 'eq0':
            r = memo[x.args[0]] == 0
        elif o == 'not':
            r = not memo[x.args[0]]
        elif o == 'and':
            r = all(g(a) for a in x.args)
        elif o == 'or':
            r = any(g(a) for a in x.args)
        elif o == 'band':
            r = -1
            for a in x.args:
                r &= g(a)
        elif o == 'bor':
            r = 0
            for a in x.args:
                r |= g(a)
        elif o == 'bxor':
            r = 0
            for a in x.args:
                r ^= g(a)
        elif o == 'idiv':
            d = g(x.args[1])
            r = g(x.args[0]) // d if d else 0
        else:
            raise ValueError(o)
        memo[x] = r
    return memo[t]

def show(t, depth=4):
    if not isinstance(t, T):
        return repr(t)
    if t.op in ('var', 'bvar'):
        return str(t.args[0])
    if t.op in ('uf', 'buf'):
        return '%s(%s)' % (t.args[0], ','.join(show(a, depth - 1) if isinstance(a, T) else str(a)[:40] for a in t.args[1]))
    if depth == 0:
        return '#%d' % t.id
    s = lambda a: show(a, depth - 1)
    if t.op == 'lin':
        c, d = t.args
        r = ' + '.join(('%d*%s' % (k, s(a)) if k != 1 else s(a)) for a, k in d[:8])
        if len(d) > 8:
            r += ' + ...'
        return '(%s%s)' % (r, ' + %d' % c if c else '')
    if t.op == 'mul':
        return '*'.join(s(a) for a in t.args[0])
    return '%s(%s)' % (t.op, ', '.join(s(a) if isinstance(a, T) else str(a) for a in t.args[:6]))

# ---------------------------------------------------------------- polynomial normal form
def poly(t, reduce_mod=True):
    """expand to {monomial (sorted tuple of atoms): coef}; mod(x,d) becomes x - d*div(x,d)"""
    if isinstance(t, int):
        return {(): int(t)} if t else {}
    for x in subterms(t):
        if x._poly is not None:
            continue
        if x.op == 'lin':
            r = {}
            if x.args[0]:
                r[()] = x.args[0]
            for a, k in x.args[1]:
                for m, c in a._poly.items():
                    n = r.get(m, 0) + k * c
                    if n:
                        r[m] = n
                    else:
                        r.pop(m, None)
        elif x.op == 'mul':
            r = {(): 1}
            for a in x.args[0]:
                r = pmul(r, a._poly)
        elif x.op == 'mod':
            dv = div(x.args[0], x.args[1])
            r = dict(x.args[0]._poly)
            if isinstance(dv, T) and dv.op == 'div':
                pd = {(dv,): 1}
            else:
                pd = poly(dv) if dv is not x else None
            for m, c in pd.items():
                n = r.get(m, 0) - x.args[1] * c
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        elif x.b:
            continue
        elif x.op == 'div' and x.args[0].op == 'lin' and any(a.op == 'mod' and (k * a.args[1]) % x.args[1] == 0 for a, k in x.args[0].args[1]):
            # div(u + k*mod(w,m), D) with D | k*m is div(u + k*w, D) - (k*m/D)*div(w, m)
            u, D = x.args
            c, d = _parts(u)
            r = {}
            for a, k in list(d.items()):
                if a.op == 'mod' and (k * a.args[1]) % D == 0:
                    del d[a]
                    u = add(sub(u, scale(a, k)), scale(a.args[0], k))
                    for m, q in poly(div(a.args[0], a.args[1])).items():
                        r[m] = r.get(m, 0) - q * (k * a.args[1] // D)
            for m, q in poly(div(u, D)).items():
                r[m] = r.get(m, 0) + q
            r = {m: q for m, q in r.items() if q}
        else:
            r = {(x,): 1}
        x._poly = r
    return t._poly

def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=lambda t: t.id)) if m and n else (m or n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r

def expand_rem(p, steps=None):
    """replace remainders by dividend - divisor * quotient, latest first (at most so many; None when there is none left to replace)"""
    p = dict(p)
    k = 0
    while True:
        rs = [a for m in p for a in m if a.op == 'rem']
        if not rs or k == steps:
            return p if steps is None or k else None
        k += 1
        x = max(rs, key=lambda t: t.id)
        w, D = x.args
        px = dict(poly(w))
        dv = div(w, D)
        for m, c in poly(dv).items():
            n = px.get(m, 0) - D * c
            if n:
                px[m] = n
            else:
                px.pop(m, None)
        r = {}
        for m, c in p.items():
            q = {tuple(a for a in m if a is not x): c}
            for _ in range(m.count(x)):
                q = pmul(q, px)
            for n, d in q.items():
                v = r.get(n, 0) + d
                if v:
                    r[n] = v
                else:
                    r.pop(n, None)
        p = r

def congruent(a, b, M):
    """is a == b (mod M) as polynomials in the atoms (mod atoms expanded)?"""
    p = expand_rem(poly(sub(a, b)))
    return all(c % M == 0 for c in p.values()), {m: c % M for m, c in p.items() if c % M}
