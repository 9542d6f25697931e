"""Run-time values of the symbolic executor (besides ints, bools, terms and tuples)."""
from . import terms as T
from .terms import T as Term

class Unsupported(Exception):
    """the construct is outside the verifier's reach: no verdict from this proof attempt"""

class Fork(Exception):
    """the current statement needs a case split on a boolean condition"""
    def __init__(self, cond):
        self.cond = cond

class Uninit:
    def __repr__(self):
        return 'UNINIT'
UNINIT = Uninit()

class Ptr:
    __slots__ = ('obj', 'path', 'meta')
    def __init__(self, obj, path=(), meta=None):
        self.obj = obj
        self.path = path
        self.meta = meta
    def __repr__(self):
        return 'Ptr(%r,%r,%r)' % (self.obj, self.path, self.meta)
    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and same(self.path, o.path) and same(self.meta, o.meta)
    def __hash__(self):
        return hash((self.obj, len(self.path)))

class En:
    """enum value"""
    __slots__ = ('v', 'f')
    def __init__(self, v, f=()):
        self.v = v
        self.f = f
    def __repr__(self):
        return 'En(%r,%r)' % (self.v, self.f)
    def __eq__(self, o):
        return isinstance(o, En) and self.v == o.v and same(self.f, o.f)
    def __hash__(self):
        return hash(self.v)

class SymEn:
    """enum without payload whose discriminant is symbolic"""
    __slots__ = ('d',)
    def __init__(self, d):
        self.d = d

class FnV:
    __slots__ = ('inst',)
    def __init__(self, inst):
        self.inst = inst
    def __eq__(self, o):
        return isinstance(o, FnV) and o.inst == self.inst
    def __hash__(self):
        return hash(self.inst)

class Abs:
    """abstract value standing for a whole Rust value, known only through its contract"""
    __slots__ = ('kind', 'data')
    def __init__(self, kind, data):
        self.kind = kind
        self.data = data
    def __repr__(self):
        return 'Abs(%s,%r)' % (self.kind, self.data)
    def __eq__(self, o):
        return isinstance(o, Abs) and self.kind == o.kind and same(self.data, o.data)
    def __hash__(self):
        return hash(self.kind)

def same(a, b):
    """structural identity of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Term):
        return False
    return a == b

def sbyte(src, i):
    """byte i of the opaque byte string `src`"""
    if src.startswith('b64('):      # base64 text: letters, digits, + / =
        return T.uf('@' + src, (i,), 43, 122)
    if src.startswith('dec('):      # decimal digits of an unsigned number
        return T.uf('@' + src, (i,), 48, 57)
    return T.uf('@' + src, (i,), 0, 255)

class Rope:
    """byte (or element) sequence: tuple of segments
         ('c', (v, ...))            explicit elements
         ('s', src, off, len)       elements off .. off+len of the opaque string src
         ('z', v, len)              len copies of v"""
    __slots__ = ('segs',)
    def __init__(self, segs=()):
        self.segs = segs
    def __repr__(self):
        return 'Rope(%s)' % (', '.join(self._ss(s) for s in self.segs))
    @staticmethod
    def _ss(s):
        if s[0] == 'c':
            if len(s[1]) and all(isinstance(x, int) and 32 <= x < 127 for x in s[1]):
                return repr(''.join(map(chr, s[1])))
            return 'c%d' % len(s[1])
        return '%s[%s+%s]' % (s[1], s[2], s[3]) if s[0] == 's' else 'z(%s,%s)' % (s[1], s[2])
    def __eq__(self, o):
        return isinstance(o, Rope) and same(norm(self.segs), norm(o.segs))
    def __hash__(self):
        return hash(len(self.segs))
    def length(self):
        return T.sumt([seglen(s) for s in self.segs])
    def concat(self, o):
        return Rope(norm(self.segs + o.segs))

def seglen(s):
    return len(s[1]) if s[0] == 'c' else s[3] if s[0] == 's' else s[2]

def norm(segs):
    out = []
    for s in segs:
        n = seglen(s)
        if isinstance(n, int) and n == 0:
            continue
        if out:
            p = out[-1]
            if p[0] == 'c' and s[0] == 'c':
                out[-1] = ('c', p[1] + s[1])
                continue
            if p[0] == 's' and s[0] == 's' and p[1] == s[1] and same(T.add(p[2], p[3]), s[2]):
                out[-1] = ('s', p[1], p[2], T.add(p[3], s[3]))
                continue
            if p[0] == 'z' and s[0] == 'z' and same(p[1], s[1]):
                out[-1] = ('z', p[1], T.add(p[2], s[2]))
                continue
            if p[0] == 'z' and s[0] == 'c' and same(p[1], s[1][0]):
                k = 1
                while k < n and same(p[1], s[1][k]):
                    k += 1
                out[-1] = ('z', p[1], T.add(p[2], k))
                if k == n:
                    continue
                s = ('c', s[1][k:])
            elif p[0] == 'c' and s[0] == 'z' and same(s[1], p[1][-1]):
                k = len(p[1])
                while k and same(s[1], p[1][k - 1]):
                    k -= 1
                s = ('z', s[1], T.add(n, len(p[1]) - k))
                if k:
                    out[-1] = ('c', p[1][:k])
                else:
                    out.pop()
                    if out and out[-1][0] == 'z' and same(out[-1][1], s[1]):
                        out[-1] = ('z', s[1], T.add(out[-1][2], s[2]))
                        continue
        out.append(s)
    # runs of explicit bytes of one opaque string become opaque again
    res = []
    again = False
    for s in out:
        if s[0] == 'c' and s[1] and any(isinstance(v, Term) and v.op == 'uf' and v.args[0][0] == '@' for v in s[1]):
            res.extend(_recollect(s[1]))
            again = True
        else:
            res.append(s)
    if again:
        return norm(tuple(res))
    out = res
    return tuple(out)

def _recollect(vs):
    out = []
    cur = []
    i = 0
    n = len(vs)
    while i < n:
        v = vs[i]
        if isinstance(v, Term) and v.op == 'uf' and v.args[0][0] == '@':
            src = v.args[0][1:]
            off = v.args[1][0]
            j = i + 1
            while j < n and isinstance(vs[j], Term) and vs[j].op == 'uf' and vs[j].args[0] == v.args[0] \
                    and same(vs[j].args[1][0], T.add(off, j - i)):
                j += 1
            if cur:
                out.append(('c', tuple(cur)))
                cur = []
            out.append(('s', src, off, j - i))
            i = j
        else:
            cur.append(v)
            i += 1
    if cur:
        out.append(('c', tuple(cur)))
    return out

def rope_of(v):
    if isinstance(v, Rope):
        return v
    if isinstance(v, tuple):
        return Rope((('c', v),) if v else ())
    raise Unsupported('not a sequence: %r' % (v,))

class D:
    """decisions under a path condition (raises Fork when a comparison is open)"""
    def __init__(self, st):
        self.st = st
    def holds(self, c):
        return self.st.decide(c)
    def le(self, a, b):
        return self.st.decide(T.le(a, b))
    def eq(self, a, b):
        return self.st.decide(T.eq(a, b))
    def lt(self, a, b):
        return self.st.decide(T.lt(a, b))

def rslice(r, a, n, st):
    """elements a .. a+n of a rope"""
    d = D(st)
    out = []
    pos = 0
    end = T.add(a, n)
    if isinstance(n, int) and n == 0:
        return Rope(())
    for s in r.segs:
        ln = seglen(s)
        nxt = T.add(pos, ln)
        # segment covers [pos, nxt)
        if d.le(nxt, a):
            pos = nxt
            continue
        if d.le(end, pos):
            break
        lo_ = T.sub(a, pos) if st.known(T.le(pos, a)) or not d.le(a, pos) else 0
        hi_ = T.sub(end, pos) if st.known(T.le(end, nxt)) else ln if d.le(nxt, end) else T.sub(end, pos)
        k = T.sub(hi_, lo_)
        if s[0] == 'c':
            if isinstance(lo_, int) and isinstance(hi_, int):
                out.append(('c', s[1][lo_:hi_]))
            elif all(v is s[1][0] or same(v, s[1][0]) for v in s[1]):
                out.append(('z', s[1][0], k))
            else:
                sg = norm((s,))
                if sg and sg[0][0] == 's' and len(sg) == 1:
                    out.append(('s', sg[0][1], T.add(sg[0][2], lo_), k))
                else:
                    out.append(_csub(s[1], lo_, hi_, st))
        elif s[0] == 's':
            out.append(('s', s[1], T.add(s[2], lo_), k))
        else:
            out.append(('z', s[1], k))
        pos = nxt
    else:
        if not d.le(end, pos):
            raise Unsupported('rope slice beyond end')
    return Rope(norm(tuple(out)))

def _csub(vs, lo_, hi_, st):
    lo_ = st.conc(lo_)
    hi_ = st.conc(hi_)
    return ('c', vs[lo_:hi_])

def rget(r, i, st):
    d = D(st)
    pos = 0
    for s in r.segs:
        ln = seglen(s)
        nxt = T.add(pos, ln)
        if d.lt(i, nxt):
            k = T.sub(i, pos)
            if s[0] == 's':
                return sbyte(s[1], k if isinstance(s[2], int) and s[2] == 0 else T.add(s[2], k))
            if s[0] == 'z':
                return s[1]
            return select(s[1], k, st)
        pos = nxt
    raise Unsupported('rope index beyond end')

def rsplice(r, a, n, new, st):
    """replace elements a..a+n by the rope `new` (of length n)"""
    head = rslice(r, 0, a, st)
    tot = r.length()
    end = T.add(a, n)
    tail = rslice(r, end, T.sub(tot, end), st) if not same(tot, end) else Rope(())
    return Rope(norm(head.segs + new.segs + tail.segs))

def explicit(r, st, n=None):
    """the elements of a rope of concrete length as a tuple"""
    out = []
    for s in r.segs:
        ln = st.conc(seglen(s))
        if s[0] == 'c':
            out.extend(s[1])
        elif s[0] == 's':
            out.extend(sbyte(s[1], T.add(s[2], k)) for k in range(ln))
        else:
            out.extend([s[1]] * ln)
    return tuple(out)

def select(tup, k, st):
    if isinstance(k, int):
        return tup[k]
    l, h = st.interval(k)
    l = 0 if l is None else max(0, l)
    h = len(tup) - 1 if h is None else min(h, len(tup) - 1)
    r = tup[h]
    for j in range(h - 1, l - 1, -1):
        r = vite(T.eq(k, j), tup[j], r)
    return r

def vite(c, a, b):
    """if-then-else on values"""
    if same(a, b):
        return a
    if isinstance(a, (int, Term)) and isinstance(b, (int, Term)):
        return T.ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, En) and isinstance(b, En) and a.v == b.v and len(a.f) == len(b.f):
        return En(a.v, tuple(vite(c, x, y) for x, y in zip(a.f, b.f)))
    if isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind:
        return Abs(a.kind, vite(c, a.data, b.data))
    raise Unsupported('cannot merge values')
