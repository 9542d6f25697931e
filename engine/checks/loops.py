"""Invariant rule for loops that advance by a constant step (cursors, counters, remaining lengths) while folding a state."""
from ..mv import terms as T
from ..mv import solver
from ..mv.terms import T as Term
from ..mv.values import *
from ..mv.exec import State

def bad(why):
    raise Unsupported('loop invariant is not inductive: ' + why)

def agree(got, want):
    """the same function of the inputs, by canonical terms or by sweeping"""
    if same(got, want):
        return True
    if len(got) != len(want) or not all(isinstance(x, (int, Term)) for x in got):
        return False
    from ..mv import sweep
    return sweep.equivalent(list(got), list(want))[0] == 'proved'

def linear(a, b):
    """difference pattern of two values (b one iteration after a); None if not of the supported form"""
    if same(a, b):
        return 0
    if isinstance(a, bool) or isinstance(b, bool):
        return None
    if isinstance(a, (int, Term)) and isinstance(b, (int, Term)):
        d = T.sub(b, a)
        return d if isinstance(d, int) else None
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1]:
        dp = linear(a.path[-1], b.path[-1]) if a.path else 0
        dm = linear(a.meta, b.meta) if a.meta is not None and b.meta is not None else 0 if a.meta is b.meta else None
        return None if dp is None or dm is None else ('p', dp, dm)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        ds = [linear(x, y) for x, y in zip(a, b)]
        return None if any(d is None for d in ds) else ('t', tuple(ds))
    return None

def advance(a, d, k, atoms):
    """the value after k iterations; atoms collects the moving integers"""
    if d == 0:
        return a
    if isinstance(d, int):
        v = T.add(a, T.scale(k, d))
        atoms.append(v)
        return v
    if d[0] == 'p':
        p = a.path[:-1] + (advance(a.path[-1], d[1], k, atoms),) if a.path else a.path
        return Ptr(a.obj, p, advance(a.meta, d[2], k, atoms) if a.meta is not None else None)
    return tuple(advance(x, y, k, atoms) for x, y in zip(a, d[1]))

def equal(st, a, b):
    """certainly the same value on this path"""
    if same(a, b):
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, (int, Term)) and isinstance(b, (int, Term)):
        g = T.eq(a, b)
        return g is True or g is not False and (st.known(g) or solver.prove(st.pc, g)[0] == 'proved')
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and len(a.path) == len(b.path) and all(equal(st, x, y) for x, y in zip(a.path, b.path)) and \
            (a.meta is b.meta or a.meta is not None and b.meta is not None and equal(st, a.meta, b.meta))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(st, x, y) for x, y in zip(a, b))
    return False

def B_key(r):
    return norm(rope_of(r).segs)

class CountedFold:
    """loop rule: step(ex, st0, k, words) gives the folded words after one more iteration, as the specification has it;
    init: the words at the first arrival; fold(k): opaque words standing for the state after k iterations"""
    def __init__(self, init, step, fold):
        self.init, self.step, self.fold = init, step, fold

    def __call__(self, ex, st, f, fr, bb):
        key = ('cf', fr.id, bb)
        m = st.g.get(key)
        if m is not None:
            if m[0] == 'go':
                st.g[key] = ('in', m[1])
                return None
            if m[0] == 'in':
                m[1].append(st)
                return []
            if m[0] == 'enter':
                st.g[key] = ('inv', m[1])
                return None
            self.check(ex, st, m[1], fr)
            return []
        ends, s = [], st.copy()
        for x in s.g:
            if isinstance(x, tuple) and x[0] == 'cf':
                s.g[x] = ('in', [])     # what lies behind this loop is not part of the trial iteration
        s.g[key] = ('go', ends)
        n0 = len(ex.obl)
        work, outs = [(s, bb, {})], []
        try:
            while work:
                s2, b2, v2 = work.pop()
                ex.exec_path(s2, f, fr, b2, v2, work, outs)
        finally:
            del ex.obl[n0:]
        if not ends:
            return None
        if len(ends) != 1 and self.step is not None:
            raise Unsupported('loop body with several paths')
        e = ends[0]
        want = gw = None
        k = ex.fresh('iter', 0, 1 << 61)
        if self.step is not None:
            want = tuple(self.step(ex, st, 0, self.init))
            gw = tuple(self.fold(k))
            if not any(self.words(a, e.mem.get(o, UNINIT), want) for o, a in st.mem.items()):
                return None             # not the loop over the blocks (or not the specified step): followed iteration by iteration
        elif not any(self.pattern(ex, ends, st.mem[o], o) for o in st.mem):
            return None
        g = st.copy()
        inv = dict(base=st, k=k, gw=gw, mem={})
        atoms = []
        for o in list(st.mem):
            a, b = st.mem[o], e.mem.get(o, UNINIT)
            if same(a, b):
                continue
            fl = self.pattern(ex, ends, a, o)
            if fl:
                g.mem[o] = self.weak(ex, g, a, fl, k)
                inv['mem'][o] = ('fill', a, fl)
                continue
            w = self.words(a, b, want)
            if w is not None:
                g.mem[o] = self.put(a, gw)
                inv['mem'][o] = ('fold',)
                continue
            d = linear(a, b)
            if d is not None:
                g.mem[o] = advance(a, d, k, atoms)
                inv['mem'][o] = ('lin', a, d)
            elif isinstance(o, tuple) and o[0] == fr.id:
                g.mem[o] = UNINIT
                inv['mem'][o] = ('any',)
            else:
                raise Unsupported('loop changes an object in an unknown way: %r' % (o,))
        for x in set(st.g) | set(e.g):
            if x != key and x in e.g and not (x in st.g and same(st.g[x], e.g[x])):
                raise Unsupported('effect %s in a loop' % (x,))
        # unsigned counters stay unsigned: checked again at the back edge
        for v in atoms:
            g.assume(T.ge(v, 0))
        inv['natoms'] = len(atoms)
        g.g[key] = ('enter', inv)
        ex.used['loop invariant of %s' % f.name] = 1
        return [(g, bb)]

    def words(self, a, b, want):
        """is a the initial words and b the words after one step (possibly wrapped in one-field tuples)?"""
        if want is None:
            return None
        while isinstance(a, tuple) and len(a) == 1 and isinstance(b, tuple) and len(b) == 1:
            a, b = a[0], b[0]
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(want) == len(b) and same(a, tuple(self.init)) and agree(b, want):
            return True
        return None

    def pattern(self, ex, ends, a, o):
        """the position all first iterations agree on"""
        ps = [self.filled(ex, e, a, e.mem.get(o, UNINIT)) for e in ends]
        if not all(ps):
            return None
        for c in ps:
            if all(c[0] == x[0] and c[2] == x[2] and e.known(T.eq(c[1], x[1])) for x, e in zip(ps, ends)):
                return c
        return None

    def filled(self, ex, e, a, b):
        """(path to the byte sequence, position, byte): b has one more byte set than a, which is left alone before it"""
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not same(a, b):
            ds = [i for i in range(len(a)) if not same(a[i], b[i])]
            if len(ds) == 1 and isinstance(a[ds[0]], (Rope, tuple)):
                r = self.filled(ex, e, a[ds[0]], b[ds[0]])
                return r and ((ds[0],) + r[0],) + r[1:]
            return None
        if not isinstance(a, Rope) or not isinstance(b, Rope) or not e.known(T.eq(a.length(), b.length())):
            return None
        off = 0
        for s in b.segs:
            n = seglen(s)
            if s[0] in 'cz' and isinstance(n, int) and n <= 64:
                for i in range(n):
                    v = s[1][i] if s[0] == 'c' else s[1]
                    p = T.add(off, i)
                    if not isinstance(v, int):
                        continue
                    try:
                        old = norm(rslice(a, p, 1, e).segs)
                        if same(B_key(rslice(a, 0, p, e)), B_key(rslice(b, 0, p, e))) and old != (('c', (v,)),) and old != (('z', v, 1),):
                            return (), p, v
                    except (Unsupported, Fork):
                        pass
            off = T.add(off, n)
        return None

    def weak(self, ex, g, a, fl, k):
        """a with k bytes set from the position on, anything after them"""
        path, pos, v = fl
        if path:
            return a[:path[0]] + (self.weak(ex, g, a[path[0]], (path[1:], pos, v), k),) + a[path[0] + 1:]
        end = T.add(pos, k)
        n = T.sub(a.length(), end)
        g.assume(T.ge(n, 0))
        return Rope(norm(rslice(a, 0, pos, g).segs + (('z', v, k), ('s', 'junk%d' % ex.newid(), end, n))))

    def check_fill(self, ex, st, b, a, fl, k):
        from . import kit
        path, pos, v = fl
        if path:
            i = path[0]
            if not (isinstance(b, tuple) and len(a) == len(b) and all(j == i or same(x, y) for j, (x, y) in enumerate(zip(a, b)))):
                bad('filled buffer')
            return self.check_fill(ex, st, b[i], a[i], (path[1:], pos, v), k)
        ex.oblige(st, T.le(T.add(pos, k), a.length()), 'filling stays inside the buffer')
        s = st.copy()
        s.assume(T.le(T.add(pos, k), a.length()))
        r, d = kit.match(ex, s, rslice(rope_of(b), 0, T.add(pos, k), s), Rope(norm(rslice(a, 0, pos, s).segs + (('z', v, k),))))
        if r != 'proved':
            bad('filled buffer: ' + str(d))

    def put(self, a, gw):
        if isinstance(a, tuple) and len(a) == 1:
            return (self.put(a[0], gw),)
        return gw

    def check(self, ex, st, inv, fr):
        k1 = T.add(inv['k'], 1)
        want = tuple(self.step(ex, inv['base'], inv['k'], inv['gw'])) if self.step is not None else None
        for o, a in inv['base'].mem.items():
            b = st.mem.get(o, UNINIT)
            rule = inv['mem'].get(o)
            if rule is None:
                if not same(a, b):
                    bad('object %r' % (o,))
            elif rule[0] == 'fold':
                while isinstance(b, tuple) and len(b) == 1:
                    b = b[0]
                if not (isinstance(b, tuple) and agree(b, want)):
                    bad('folded state')
            elif rule[0] == 'fill':
                self.check_fill(ex, st, b, rule[1], rule[2], k1)
            elif rule[0] == 'lin':
                at = []
                if not equal(st, b, advance(rule[1], rule[2], k1, at)):
                    bad('counter %r: %r, expected %r' % (o, b, advance(rule[1], rule[2], k1, at)))
                for v in at:
                    ex.oblige(st, T.ge(v, 0), 'loop counters stay non-negative')

def fill_rule():
    """loops that set one byte after the other to a constant"""
    return CountedFold(None, None, None)
