"""Uninterpreted results (digests, signatures, encodings, predicates on byte strings) are functions of their
arguments: equal arguments give equal results.  Names are given per syntactic argument, so before an obligation
counts as refuted these instances of congruence are added."""
from ..mv import terms as T
from ..mv import builtins as B
from ..mv.terms import T as Term
from ..mv.values import *

def segs(k):
    return isinstance(k, tuple) and all(isinstance(s, tuple) and len(s) in (2, 3, 4) and s and s[0] in ('c', 's', 'z') for s in k)

def items(k):
    out = []
    for s in k:
        n = seglen(s)
        if isinstance(n, int) and n <= 512:
            out.extend(s[1] if s[0] == 'c' else [sbyte(s[1], T.add(s[2], i)) for i in range(n)] if s[0] == 's' else [s[1]] * n)
        else:
            out.append(s)
    return out

def argeq(x, y):
    """condition under which two arguments are equal; None if that is not expressible"""
    if isinstance(x, (int, Term)) and isinstance(y, (int, Term)):
        return T.eq(x, y)
    if segs(x) and segs(y):
        a, b = items(x), items(y)
        if len(a) != len(b):
            return None
        cs = []
        for u, v in zip(a, b):
            if isinstance(u, tuple) or isinstance(v, tuple):
                if not (isinstance(u, tuple) and isinstance(v, tuple) and u[0] == v[0] and same(u[1:], v[1:])):
                    return None
            elif not same(u, v):
                cs.append(T.eq(u, v))
        return T.band_(*cs)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and not segs(x) and not segs(y):
        cs = [argeq(u, v) for u, v in zip(x, y)]
        return None if any(c is None for c in cs) else T.band_(*cs)
    return True if same(x, y) else None

def terms(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from terms(x)

def sources(a):
    """names of opaque strings in an argument"""
    if segs(a):
        for s in a:
            if s[0] == 's':
                yield s[1]
    if isinstance(a, tuple):
        for x in a:
            yield from sources(x)

def instances(ex, ts):
    """(kind, arguments, results) of the uninterpreted applications the terms depend on"""
    names, bufs, seen = {}, {}, set()
    todo = [x for t in ts if isinstance(t, Term) for x in T.leaves(t)]
    def name(n):
        if n in names:
            return
        o = B.attr(ex, n, 'origin')
        names[n] = (o, {}) if o else None
        if o:
            args(o[1:])
    def args(a):
        for t in terms(a):
            todo.extend(T.leaves(t))
        for n in sources(a):
            name(n)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'uf' and x.args[0][:1] == '@':
            n = x.args[0][1:]
            name(n)
            if names[n]:
                names[n][1][x.args[1]] = x
        elif x.op == 'buf' and any(segs(a) for a in x.args[1]):
            bufs[x] = x.args
            args(x.args[1])
    out = [(o[0], o[1:], r) for o, r in (v for v in names.values() if v)]
    out += [('?' + a[0], a[1], {(): x}) for x, a in bufs.items()]
    return out

def constraints(ex, ts):
    ins = instances(ex, ts)
    out = []
    for i, (k, a, r) in enumerate(ins):
        for k2, a2, r2 in ins[:i]:
            if k != k2 or len(a) != len(a2):
                continue
            c = argeq(tuple(a), tuple(a2)) if len(a) != 1 else argeq(a[0], a2[0])
            if c is None or c is False:
                continue
            pairs = [(r[j], r2[j]) for j in r if j in r2]
            if pairs:
                out.append(T.implies(c, T.band_(*[T.iff(x, y) if x.b else T.eq(x, y) for x, y in pairs])))
    return [c for c in out if c is not True]
