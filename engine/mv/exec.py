"""Symbolic execution of MIR for all inputs: the verification-condition generator.

Calls to functions under contract are replaced by the contract; other calls are inlined; loops under
a loop contract are cut at their header.  Every MIR assertion, panic and memory access on the way is
an obligation."""
import re
import sys
from . import terms as T
from .terms import T as Term
from .values import *
from . import solver

sys.setrecursionlimit(100000)

class State:
    __slots__ = ('mem', 'pc', 'g', 'ex')
    def __init__(self, ex):
        self.mem = {}
        self.pc = ()
        self.g = {}
        self.ex = ex
    def copy(self):
        s = State(self.ex)
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.g = dict(self.g)
        return s
    def assume(self, c):
        """add a fact; returns False if the path dies"""
        if c is True:
            return True
        if c is False:
            self.pc = self.pc + (False,)
            return False
        if c.op == 'and':
            for a in c.args:
                if not self.assume(a):
                    return False
            return True
        if c not in self.pc:
            self.pc = self.pc + (c,)
        return True
    def decide(self, c):
        if isinstance(c, bool):
            return c
        r = solver.env_of(self.pc).decide(c)
        if r is not None:
            return r
        # ask the solver whether one side is excluded
        if not solver.feasible(self.pc, c):
            return False
        if not solver.feasible(self.pc, T.bnot(c)):
            return True
        raise Fork(c)
    def known(self, c):
        """True only if c certainly holds (no fork)"""
        if isinstance(c, bool):
            return c
        r = solver.env_of(self.pc).decide(c)
        if r is not None:
            return r
        return solver.prove(self.pc, c)[0] == 'proved'
    def interval(self, x):
        return solver.env_of(self.pc).interval(x)
    def conc(self, x):
        """a concrete integer for x (case splitting over its range when needed)"""
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            return x
        if x.b:
            return self.decide(x)
        l, h = self.interval(x)
        if l is not None and l == h:
            return l
        if l is None or h is None or h - l > 4096:
            # perhaps pinned by the path condition
            v = self._pinned(x)
            if v is not None:
                return v
            raise Unsupported('value needs case split over a large range: %r' % (x,))
        v = self._pinned(x) if self.pc else None
        if v is not None:
            return v
        raise Fork(T.le(x, (l + h) // 2))
    def _pinned(self, x):
        r, m = solver.check_sat(solver.cone(self.pc, T.eq0(T.sub(x, x))) if False else list(self.pc))
        if r != 'sat':
            return None
        try:
            v = T.evaluate(x, {**m, None: lambda y: y.lo or 0})
        except Exception:
            return None
        if solver.prove(self.pc, T.eq(x, v))[0] == 'proved':
            return v
        return None

class Panic:
    def __init__(self, st, msg, where):
        self.st = st
        self.msg = msg
        self.where = where

class Frame:
    __slots__ = ('fn', 'id', 'depth', 'stack')

class Exec:
    def __init__(self, prog, trace=False):
        self.p = prog
        self.contracts = {}      # name -> handler
        self.patterns = []       # (predicate on name, handler)
        self.loops = {}          # (fn name, header ordinal or None) -> handler
        self.statics = {}        # static name -> value override
        self.nf = 0
        self.nobj = 0
        self.otype = {}
        self.dec = {}
        self.trace = trace
        self.obl = []
        self.trivial = 0            # obligations: dict(name, goal, pc, where)
        self.steps = 0
        self.maxsteps = 20_000_000
        self.used = {}           # contracts / models applied: name -> count
        self.inlined = {}
        self.panics_ok = False
        self.curfn = None
        self.maxvisit = 3000
        self._cache_c = {}
        self.lift_static = None
        self.on_panic = None
        self.deadline = None
        self._dropfx = {}
        self.src = {}            # facts about opaque byte strings
        self.srclens = {}        # their lengths
        self.keynames = {}

    def newid(self):
        self.nobj += 1
        return self.nobj

    def freshb(self, name):
        self.nobj += 1
        return T.bvar('%s#%d' % (name, self.nobj))

    def srclen(self, name, lo, hi):
        """length of the opaque byte string `name`"""
        n = self.srclens.get(name)
        if n is None:
            n = self.srclens[name] = T.var('len(%s)' % name, lo, (1 << 62) if hi is None else hi)
        return n

    # ------------------------------------------------------------ objects
    def new(self, st, v, ty=None):
        """allocate an object holding v; ty: type id of its value (None: sequence/unknown)"""
        self.nobj += 1
        o = self.nobj
        st.mem[o] = v
        self.otype[o] = ty
        return o

    def fresh(self, name, lo, hi):
        self.nobj += 1
        return T.var('%s#%d' % (name, self.nobj), lo, hi)

    def oblige(self, st, goal, name, where=None):
        if goal is True:
            self.trivial += 1
            return
        self.obl.append((name, st.pc, goal, where or self.curfn, st))

    # ------------------------------------------------------------ constants
    def const(self, tyid, data):
        key = (tyid, data['b'], str(data['p']))
        v = self._cache_c.get(key)
        if v is None:
            v = self.decode(tyid, data['b'], 0, {o: a for o, a in data['p']})
            self._cache_c[key] = v
        return v

    def decode(self, tyid, b, off, rel):
        p = self.p
        t = p.types[tyid]
        if t.size == 0:
            if t.kind in ('array',):
                return ()
            if t.kind == 'adt' and t.k[2] == 'Enum':
                return En(0, ())
            return ()
        k = t.kind
        def raw(o, n):
            h = b[2 * o:2 * (o + n)]
            if 'u' in h:
                return None
            return int.from_bytes(bytes.fromhex(h), 'little')
        tr = p.transparent(tyid)
        if tr is not None:
            if k == 'pat':
                return self.decode(t.k[1], b, off, rel)
            return self.decode(t.k[3][0][2][tr], b, off + (t.offs[tr] if t.offs and k == 'adt' and t.k[2] == 'Struct' else 0), rel)
        if k == 'bool':
            v = raw(off, 1)
            return UNINIT if v is None else bool(v)
        if k in ('uint', 'int', 'char'):
            n = t.size
            v = raw(off, n)
            if v is None:
                return UNINIT
            if k == 'int' and v >> (8 * n - 1):
                v -= 1 << (8 * n)
            return v
        if k in ('ref', 'ptr', 'fnptr'):
            v = raw(off, 8)
            if off in rel:
                al = self.p.allocs.get(rel[off])
                if k == 'fnptr':
                    if al[0] == 'f':
                        return FnV(al[1])
                    raise Unsupported('function pointer constant')
                pt = t.k[1]
                pk = p.types[pt]
                if pk.kind in ('slice', 'str'):
                    n = raw(off + 8, 8)
                    el = p.unsized_elem(pt)
                    obj = ('a', rel[off], ('sl', el))
                    if v:
                        sz = p.types[el].size
                        if v % sz:
                            raise Unsupported('misaligned constant slice')
                    return Ptr(obj, (v // (p.types[el].size or 1),), n)
                if pk.kind == 'dyn':
                    return Ptr(('a', rel[off], ('dyn',)), (), ('vt', rel.get(off + 8)))
                if al[0] == 'f':
                    return FnV(al[1])
                if v:
                    return Ptr(('a', rel[off], ('raw', pt, v)), ())
                return Ptr(('a', rel[off], ('ty', pt)), ())
            if v is None:
                return UNINIT
            if k != 'fnptr' and p.types[t.k[1]].kind in ('slice', 'str'):
                return Ptr(('dangling', v), (0,), raw(off + 8, 8))
            return Ptr(('dangling', v), ()) if v else Ptr(None, ())
        if k == 'array':
            el = t.k[1]
            n = t.k[2]
            sz = p.types[el].size
            return tuple(self.decode(el, b, off + i * sz, rel) for i in range(n))
        if k in ('tuple', 'closure') or (k == 'adt' and t.k[2] == 'Struct'):
            fs = p.fields(t)
            return tuple(self.decode(f, b, off + o, rel) for f, o in zip(fs, t.offs))
        if k == 'adt' and t.k[2] == 'Enum':
            vs = t.variants
            if vs[0] == 's':
                v = vs[1]
                fo = t.offs or []
            else:
                _, to, tsz, enc, fos = vs
                if enc[0] == 'd':
                    tag = raw(off + to, tsz)
                    v = None
                    for i, var in enumerate(t.k[3]):
                        if var[1] & ((1 << 8 * tsz) - 1) == tag:
                            v = i
                    if v is None:
                        raise Unsupported('enum tag')
                else:
                    _, unt, ns, ne, nstart = enc
                    if off + to in rel:
                        v = unt
                    else:
                        tag = raw(off + to, tsz)
                        if tag is None:
                            return UNINIT
                        rk = (tag - int(nstart)) % (1 << (8 * tsz))
                        v = ns + rk if rk <= ne - ns else unt
                fo = fos[v]
            return En(v, tuple(self.decode(f, b, off + o, rel) for f, o in zip(p.variant(t, v), fo)))
        raise Unsupported('constant of type ' + t.name)

    def alloc_value(self, obj):
        """value of a constant/static allocation object"""
        v = self.dec.get(obj)
        if v is not None:
            return v
        _, aid, how = obj
        al = self.p.allocs[aid]
        name = al[3] if al[0] == 's' and len(al) > 3 else None
        data = al[1]
        if data is None or data == 'null':
            raise Unsupported('static without value: %s' % name)
        rel = {o: a for o, a in data['p']}
        if how[0] == 'sl':
            el = how[1]
            sz = self.p.types[el].size or 1
            n = len(data['b']) // 2 // sz
            v = tuple(self.decode(el, data['b'], i * sz, rel) for i in range(n))
        elif how[0] == 'ty':
            v = self.decode(how[1], data['b'], 0, rel)
        elif how[0] == 'raw':
            v = self.decode(how[1], data['b'], how[2], rel)
        else:
            raise Unsupported('constant allocation ' + str(how))
        if name and self.lift_static:
            v = self.lift_static(name, v)
        self.dec[obj] = v
        return v

    # ------------------------------------------------------------ memory
    def obj_value(self, st, obj):
        try:
            return st.mem[obj]
        except KeyError:
            pass
        if isinstance(obj, tuple) and obj and obj[0] == 'a':
            return self.alloc_value(obj)
        raise Unsupported('dead or unknown object %r' % (obj,))

    def get(self, st, v, step):
        if isinstance(step, int):
            if isinstance(v, tuple):
                return v[step]
            if isinstance(v, Rope):
                return rget(v, step, st)
            if hasattr(v, 'sget'):
                return v.sget(step, st)
            raise Unsupported('projection %r of %r' % (step, v))
        if isinstance(step, Term):
            if isinstance(v, Rope):
                return rget(v, step, st)
            if hasattr(v, 'sget'):
                return v.sget(step, st)
            l, h = st.interval(step)
            if l is not None and l == h:
                return v[l]
            try:
                return select(v, step, st)
            except Unsupported:
                return v[st.conc(step)]
        if step[0] == 'e':
            if isinstance(v, En):
                if v.v != step[1]:
                    raise Unsupported('wrong variant access')
                return v.f[step[2]]
            raise Unsupported('variant of %r' % (v,))
        if step[0] == 'v':
            _, i, n = step
            if isinstance(v, Rope):
                return self.seqval(rslice(v, i, n, st), n)
            i = st.conc(i)
            if i + n > len(v):
                raise Unsupported('sub-array out of bounds')
            return v[i:i + n]
        raise Unsupported('step %r' % (step,))

    def seqval(self, r, n):
        """array value of concrete length n from a rope: explicit when cheap"""
        if isinstance(n, int) and all(s[0] == 'c' or (isinstance(seglen(s), int) and seglen(s) <= 512) for s in r.segs):
            out = []
            for s in r.segs:
                if s[0] == 'c':
                    out.extend(s[1])
                elif s[0] == 's':
                    out.extend(sbyte(s[1], T.add(s[2], k)) for k in range(s[3]))
                else:
                    out.extend([s[1]] * s[2])
            return tuple(out)
        return r

    def put(self, st, v, path, new):
        if not path:
            return new
        s = path[0]
        if isinstance(s, Term):
            l, h = st.interval(s)
            if l is not None and l == h:
                s = l
        if isinstance(s, int):
            if isinstance(v, Rope):
                if len(path) > 1:
                    new = self.put(st, rget(v, s, st), path[1:], new)
                return self.rput(st, v, s, new)
            if hasattr(v, 'sput'):
                return v.sput(s, new, st)
            if v is UNINIT:
                raise Unsupported('partial initialisation')
            if not isinstance(v, tuple):
                raise Unsupported('store into %r' % (v,))
            return v[:s] + (self.put(st, v[s], path[1:], new),) + v[s + 1:]
        if isinstance(s, Term):
            if hasattr(v, 'sput'):
                return v.sput(s, new, st)
            if isinstance(v, Rope):
                if len(path) > 1:
                    raise Unsupported('nested store in rope')
                return self.rput(st, v, s, new)
            k = st.conc(s)
            return v[:k] + (self.put(st, v[k], path[1:], new),) + v[k + 1:]
        if s[0] == 'e':
            if not isinstance(v, En) or v.v != s[1]:
                raise Unsupported('store into enum')
            f = v.f
            return En(v.v, f[:s[2]] + (self.put(st, f[s[2]], path[1:], new),) + f[s[2] + 1:])
        if s[0] == 'v':
            _, i, n = s
            if len(path) > 1:
                sub = self.get(st, v, s)
                new = self.put(st, sub, path[1:], new)
            if isinstance(v, Rope) or isinstance(new, Rope):
                return self.seqlike(v, rsplice(rope_of(v), i, n, rope_of(new), st))
            i = st.conc(i)
            return v[:i] + tuple(new) + v[i + n:]
        raise Unsupported('store step %r' % (s,))

    def seqlike(self, old, r):
        return r

    def rput(self, st, v, i, new):
        n = v.length()
        if same(n, i) or st.known(T.eq(n, i)):        # append (heap buffers grow on demand)
            return Rope(norm(v.segs + (('c', (new,)),)))
        return rsplice(v, i, 1, Rope((('c', (new,)),)), st)

    def load(self, st, obj, path):
        if isinstance(obj, tuple) and obj and obj[0] == 'view':
            return self.view_load(st, obj, path)
        v = self.obj_value(st, obj)
        for s in path:
            v = self.get(st, v, s)
        return v

    def store(self, st, obj, path, v):
        if isinstance(obj, tuple) and obj and obj[0] == 'a':
            raise Unsupported('store to constant')
        if isinstance(obj, tuple) and obj and obj[0] == 'view':
            return self.view_store(st, obj, path, v)
        if not path:
            st.mem[obj] = v
            return
        old = st.mem.get(obj)
        if old is None:
            raise Unsupported('store to dead object')
        st.mem[obj] = self.put(st, old, path, v)

    # ------------------------------------------------------------ typed pointers
    def path_type(self, obj, path):
        """static type at (obj, path) or None"""
        p = self.p
        if isinstance(obj, tuple) and obj and obj[0] == 'a':
            how = obj[2]
            if how[0] == 'sl':
                if not path:
                    return ('seq', how[1])
                t = how[1]
                path = path[1:]
            elif how[0] in ('ty', 'raw'):
                t = how[1]
            else:
                return None
        else:
            t = self.otype.get(obj)
            if t is None:
                return None
            if isinstance(t, tuple):       # ('seq', elem)
                if not path:
                    return t
                if not isinstance(path[0], (int, Term)):
                    if path[0][0] == 'v':
                        if len(path) == 1:
                            return ('arr', t[1], path[0][2])
                        t = t[1]
                        path = path[2:]
                    else:
                        return None
                else:
                    t = t[1]
                    path = path[1:]
        i = 0
        while i < len(path):
            s = path[i]
            ty = p.types[p.strip(t)]
            if ty.kind == 'array':
                if not isinstance(s, (int, Term)) and s[0] == 'v':
                    if i + 1 == len(path):
                        return ('arr', ty.k[1], s[2])
                    i += 1
                t = ty.k[1]
            elif ty.kind in ('tuple', 'closure') or ty.kind == 'adt' and ty.k[2] == 'Struct':
                t = p.fields(ty)[s]
            elif ty.kind == 'adt' and ty.k[2] == 'Enum':
                t = p.variant(ty, s[1])[s[2]]
            else:
                return None
            i += 1
        return t

    def eqty(self, a, b):
        p = self.p
        if isinstance(a, tuple) or isinstance(b, tuple):
            return self._arrkey(a) == self._arrkey(b) is not None
        if a == b:
            return True
        a, b = p.strip(a), p.strip(b)
        if a == b:
            return True
        ta, tb = p.types[a], p.types[b]
        ia, ib = p.intinfo(a), p.intinfo(b)
        if ia and ib:
            return ia == ib
        if ta.kind in ('ref', 'ptr') and tb.kind in ('ref', 'ptr'):
            return True
        if ta.kind == 'array' and tb.kind == 'array':
            return ta.k[2] == tb.k[2] and self.eqty(ta.k[1], tb.k[1])
        if ta.name == tb.name:
            return True
        if ta.kind == tb.kind == 'adt' and ta.k[1] == tb.k[1]:
            return True
        return False

    def _arrkey(self, a):
        if isinstance(a, tuple):
            if a[0] == 'arr':
                return (self.p.strip(a[1]), a[2])
            return None
        t = self.p.types[self.p.strip(a)]
        if t.kind == 'array':
            return (self.p.strip(t.k[1]), t.k[2])
        return None

    def adjust(self, obj, path, ty):
        """path at which a value of type `ty` lives when dereferencing (obj, path)"""
        p = self.p
        if isinstance(obj, tuple) and obj and obj[0] in ('dangling', 'view'):
            return obj, path
        cur = self.path_type(obj, path)
        if cur is None:
            return obj, path
        t = p.types[p.strip(ty)] if not isinstance(ty, tuple) else None
        if self.eqty(cur, ty):
            return obj, path
        # view of N elements starting at an element pointer
        if t.kind == 'array' and path:
            el = t.k[1]
            if isinstance(path[-1], (int, Term)) and self.eqty(cur, el) and self._in_seq(obj, path[:-1]):
                return obj, path[:-1] + (('v', path[-1], t.k[2]),)
        # array viewed as its first element
        ct = None
        if isinstance(cur, tuple):
            if cur[0] == 'arr' and self.eqty(cur[1], ty):
                return obj, path[:-1] + (path[-1][1],)
            if cur[0] == 'seq' and self.eqty(cur[1], ty):
                return obj, path + (0,)
            if cur[0] == 'seq' and t.kind == 'array' and self.eqty(cur[1], t.k[1]):
                return obj, path + (('v', 0, t.k[2]),)
        else:
            ct = p.types[p.strip(cur)]
            if ct.kind == 'array' and self.eqty(ct.k[1], ty):
                return obj, path + (0,)
            if ct.kind == 'array' and t.kind == 'array' and self.eqty(ct.k[1], t.k[1]) and t.k[2] <= ct.k[2]:
                return obj, path + (('v', 0, t.k[2]),)
        # first field of a struct / tuple
        if ct is not None and (ct.kind in ('tuple', 'closure') or ct.kind == 'adt' and ct.k[2] == 'Struct') and ct.offs:
            for n, (f, o) in enumerate(zip(p.fields(ct), ct.offs)):
                if o == 0 and not p.zst(f) and self.eqty(f, ty):
                    return obj, path + (n,)
        ic = p.intinfo(cur) if not isinstance(cur, tuple) else None
        it = p.intinfo(ty)
        if ic and it:
            return ('view', obj, path, ic, it), (0,) if ic[0] > it[0] else ()
        if t.kind == 'bool' and ic and ic[0] == 8:
            return obj, path
        if ct is not None and ct.kind == 'adt' and t.kind == 'adt' and ct.k[1] == t.k[1] and p.tail(t.id) is not None:
            return obj, path            # a struct seen through its unsized type
        raise Unsupported('pointer to %s used as %s' % (cur if isinstance(cur, tuple) else p.types[cur].name, t.name))

    def _in_seq(self, obj, path):
        c = self.path_type(obj, path)
        if c is None:
            return True
        if isinstance(c, tuple):
            return True
        return self.p.types[self.p.strip(c)].kind == 'array'

    # integer views: ('view', obj, path, (bits, sgn) of storage, (bits, sgn) of access), (byte index,)
    def view_load(self, st, vw, path):
        _, obj, opath, (cb, cs), (tb, ts) = vw
        if cb == tb:
            v = self.load(st, obj, opath)
            return reint(v, tb, ts)
        if cb > tb:
            v = self.load(st, obj, opath)
            if v is UNINIT:
                return UNINIT
            k = path[0]
            x = T.mod(T.div(T.mod(v, 1 << cb), 1 << (tb * k)), 1 << tb) if not isinstance(v, PInt) else v.parts[k]
            return reint(x, tb, ts)
        # wider access over narrow storage
        n = tb // cb
        i = opath[-1]
        r = 0
        for k in range(n):
            b = self.load(st, obj, opath[:-1] + (T.add(i, k),))
            if b is UNINIT:
                return UNINIT
            r = T.add(r, T.scale(T.mod(b, 1 << cb), 1 << (cb * k)))
        return reint(r, tb, ts)

    def view_store(self, st, vw, path, v):
        _, obj, opath, (cb, cs), (tb, ts) = vw
        if cb == tb:
            return self.store(st, obj, opath, reint(v, cb, cs))
        if cb > tb:
            old = self.load(st, obj, opath)
            n = cb // tb
            if isinstance(old, PInt):
                parts = list(old.parts)
            elif old is UNINIT:
                parts = [UNINIT] * n
            else:
                parts = [T.mod(T.div(T.mod(old, 1 << cb), 1 << (tb * k)), 1 << tb) for k in range(n)]
            parts[path[0]] = v if v is UNINIT else T.mod(v, 1 << tb)
            if any(x is UNINIT for x in parts):
                return self.store(st, obj, opath, PInt(tuple(parts)))
            r = T.sumt([T.scale(x, 1 << (tb * k)) for k, x in enumerate(parts)])
            return self.store(st, obj, opath, reint(r, cb, cs))
        n = tb // cb
        i = opath[-1]
        for k in range(n):
            self.store(st, obj, opath[:-1] + (T.add(i, k),), reint(T.mod(T.div(T.mod(v, 1 << tb), 1 << (cb * k)), 1 << cb), cb, cs))

    # ------------------------------------------------------------ slices as ropes
    def read_seq(self, st, ptr, n, elty=None):
        """rope of n elements at an element pointer"""
        if isinstance(n, int) and n == 0:
            return Rope(())
        obj, path = ptr.obj, ptr.path
        if elty is not None:
            obj, path = self.adjust(obj, path, elty)
        if isinstance(obj, tuple) and obj and obj[0] == 'view':
            k0 = path[0] if path else 0
            n = st.conc(n)
            return Rope((('c', tuple(self.view_load(st, *self.view_at(obj, path, k))for k in range(n))),))
        if isinstance(obj, tuple) and obj and obj[0] == 'dangling' or obj is None:
            if st.known(T.eq(n, 0)):
                return Rope(())
            raise Unsupported('read through dangling pointer')
        if not path or not isinstance(path[-1], (int, Term)):
            if isinstance(n, int) and n == 1:
                return Rope((('c', (self.load(st, obj, path),)),))
            raise Unsupported('not an element pointer')
        v = self.load(st, obj, path[:-1])
        if isinstance(v, tuple):
            i = path[-1]
            if isinstance(i, int) and isinstance(n, int):
                if i + n > len(v):
                    raise Unsupported('read out of bounds')
                return Rope((('c', v[i:i + n]),))
            v = Rope((('c', v),))
        if isinstance(v, Rope):
            return rslice(v, path[-1], n, st)
        if hasattr(v, 'srope'):
            return v.srope(path[-1], n, st)
        raise Unsupported('sequence read from %r' % (v,))

    def view_at(self, obj, path, k):
        """k-th narrow/wide element after a view pointer"""
        _, o, op, (cb, cs), (tb, ts) = obj
        if cb > tb:
            n = cb // tb
            j = path[0] + k
            if j < n:
                return obj, (j,)
            if op and isinstance(op[-1], int):
                return ('view', o, op[:-1] + (op[-1] + j // n,), (cb, cs), (tb, ts)), (j % n,)
            raise Unsupported('view out of bounds')
        if cb == tb:
            return ('view', o, op[:-1] + (T.add(op[-1], k),) if k else op, (cb, cs), (tb, ts)), ()
        n = tb // cb
        return ('view', o, op[:-1] + (T.add(op[-1], k * n),), (cb, cs), (tb, ts)), ()

    def write_seq(self, st, ptr, r, elty=None):
        n = r.length()
        if isinstance(n, int) and n == 0:
            return
        obj, path = ptr.obj, ptr.path
        if elty is not None:
            obj, path = self.adjust(obj, path, elty)
        if isinstance(obj, tuple) and obj and obj[0] == 'view':
            for k, x in enumerate(explicit(r, st)):
                self.view_store(st, *self.view_at(obj, path, k), x)
            return
        if not path or not isinstance(path[-1], (int, Term)):
            if n == 1:
                self.store(st, obj, path, explicit(r, st)[0])
                return
            raise Unsupported('not an element pointer')
        v = self.load(st, obj, path[:-1])
        i = path[-1]
        if isinstance(v, tuple) and isinstance(i, int) and isinstance(n, int) and n <= 4096:
            if i + n > len(v):
                raise Unsupported('write out of bounds')
            nv = v[:i] + explicit(r, st) + v[i + n:]
        elif hasattr(v, 'swrite'):
            nv = v.swrite(i, r, st)
        else:
            v = rope_of(v)
            tot = v.length()
            if same(tot, i) or st.known(T.eq(tot, i)):
                nv = Rope(norm(v.segs + r.segs))
            else:
                nv = rsplice(v, i, n, r, st)
        self.store(st, obj, path[:-1], nv)

    def slice_rope(self, st, ptr):
        return self.read_seq(st, ptr, ptr.meta)

    def str_ptr(self, st, rope):
        """fresh immutable buffer and fat pointer to it"""
        o = self.new(st, rope, ('seq', self.p.tyname['u8'].id))
        return Ptr(o, (0,), rope.length())

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        p = self.p
        n, projs = pl
        obj = (fr.id, n)
        path = ()
        ty = fr.fn.body['locals'][n]
        meta = None
        var = None
        for e in projs:
            k = e[0]
            if k == '*':
                v = self.load(st, obj, path)
                if not isinstance(v, Ptr):
                    raise Unsupported('deref of %r' % (v,))
                ty = p.pointee(ty)
                obj, path, meta = v.obj, v.path, v.meta
                if p.types[ty].kind not in ('slice', 'str', 'dyn') and not p.zst(ty):
                    obj, path = self.adjust(obj, path, ty)
                var = None
            elif k == 'f':
                t = p.types[ty]
                if var is not None:
                    path = path + (('e', var, e[1]),)
                    var = None
                elif p.zst(e[2]):
                    path = path + ('zst',)
                elif p.transparent(ty) is None:
                    path = path + (e[1],)
                if p.types[e[2]].kind == 'slice' and p.tail(ty) is not None:
                    path = path + (0,)
                ty = e[2]
            elif k == 'd':
                t = p.types[ty]
                if t.kind == 'adt' and t.k[2] == 'Enum':
                    var = e[1]
            elif k == 'i':
                idx = self.load(st, (fr.id, e[1]), ())
                path, ty = self._elem(path, ty, idx, meta)
                meta = None
            elif k == 'ci':
                off, mn, fromend = e[1], e[2], e[3]
                if fromend:
                    ln = meta if meta is not None else p.types[p.strip(ty)].k[2]
                    off = T.sub(ln, off)
                path, ty = self._elem(path, ty, off, meta)
                meta = None
            elif k == 'ss':
                fr_, to, fe = e[1], e[2], e[3]
                ln = meta if meta is not None else p.types[p.strip(ty)].k[2]
                end = T.sub(ln, to) if fe else to
                cnt = T.sub(end, fr_)
                if p.types[p.strip(ty)].kind == 'array':
                    path = path + (('v', fr_, cnt),)
                    raise Unsupported('subslice of array pattern')
                path = path[:-1] + (T.add(path[-1], fr_),)
                meta = cnt
            else:
                raise Unsupported('projection ' + k)
        return obj, path, ty, meta

    def _elem(self, path, ty, idx, meta):
        p = self.p
        t = p.types[p.strip(ty)]
        if t.kind == 'array':
            if path and isinstance(path[-1], tuple) and path[-1][0] == 'v':
                return path[:-1] + (T.add(path[-1][1], idx),), t.k[1]
            return path + (idx,), t.k[1]
        if t.kind in ('slice', 'str'):
            if not path:
                raise Unsupported('index of odd slice pointer')
            return path[:-1] + (T.add(path[-1], idx),), p.unsized_elem(p.strip(ty))
        raise Unsupported('index of ' + t.name)

    def rd(self, st, obj, path, ty):
        if self.p.zst(ty):
            t = self.p.types[ty]
            if t.kind == 'adt' and t.k[2] == 'Enum':
                return En(0, ())
            return ()
        return self.load(st, obj, path)

    def place_get(self, st, fr, pl):
        if not pl[1]:
            try:
                return st.mem[(fr.id, pl[0])]
            except KeyError:
                ty = fr.fn.body['locals'][pl[0]]
                if self.p.zst(ty):
                    return ()
                raise Unsupported('read of uninitialised local')
        obj, path, ty, meta = self.place(st, fr, pl)
        return self.rd(st, obj, path, ty)

    def place_put(self, st, fr, pl, v):
        if not pl[1]:
            o = (fr.id, pl[0])
            st.mem[o] = v
            return
        obj, path, ty, meta = self.place(st, fr, pl)
        if self.p.zst(ty):
            return
        if path and obj not in st.mem and isinstance(obj, tuple) and len(obj) == 2 and obj[0] == fr.id:
            # field-wise initialisation of an uninitialised local
            st.mem[obj] = self.skeleton(fr.fn.body['locals'][obj[1]])
        self.store(st, obj, path, v)

    def skeleton(self, ty):
        p = self.p
        t = p.types[p.strip(ty)]
        if t.kind in ('tuple', 'closure') or t.kind == 'adt' and t.k[2] == 'Struct':
            return tuple(self.skeleton(f) if not p.zst(f) else () for f in p.fields(t))
        if t.kind == 'array':
            return tuple(self.skeleton(t.k[1]) for _ in range(t.k[2]))
        return UNINIT

    def ty_of(self, st, fr, op):
        if op[0] in 'pm':
            pl = op[1]
            if not pl[1]:
                return fr.fn.body['locals'][pl[0]]
            return self.place_ty(fr, pl)
        if op[0] == 'rc':
            return self.p.tyname['bool'].id
        return op[1]

    def place_ty(self, fr, pl):
        p = self.p
        ty = fr.fn.body['locals'][pl[0]]
        for e in pl[1]:
            if e[0] == '*':
                ty = p.pointee(ty)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                t = p.types[p.strip(ty)]
                ty = t.k[1] if t.kind in ('array', 'slice') else p.tyname['u8'].id
        return ty

    def operand(self, st, fr, op):
        k = op[0]
        if k == 'p' or k == 'm':
            return self.place_get(st, fr, op[1])
        if k == 'c':
            return self.const(op[1], op[2])
        if k == 'z':
            t = self.p.types[op[1]]
            if t.kind == 'fndef':
                return ()
            if t.kind == 'adt' and t.k[2] == 'Enum':
                return En(0, ())
            return ()
        if k == 'rc':
            return op[1] != 'UbChecks' if isinstance(op[1], str) else False
        raise Unsupported('operand ' + str(op))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, nextassert=None):
        k = rv[0]
        p = self.p
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('bin', 'chk'):
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ty = self.ty_of(st, fr, rv[2])
            if k == 'chk':
                bits, sg = p.intinfo(ty)
                lo_, hi_ = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
                r = T.add(a, b) if rv[1] == 'Add' else T.sub(a, b) if rv[1] == 'Sub' else T.mul(a, b)
                l, h = st.interval(r)
                if l is not None and h is not None and l >= lo_ and h <= hi_:
                    return (r, False)
                ok = T.band_(T.le(lo_, r), T.le(r, hi_))
                return (r if nextassert else self.wrap(st, r, bits, sg), T.bnot(ok))
            return self.binop(st, rv[1], a, b, ty, self.ty_of(st, fr, rv[3]))
        if k in ('ref', 'addr', 'reb'):
            obj, path, ty, meta = self.place(st, fr, rv[1])
            return Ptr(obj, path, meta)
        if k == 'cast':
            v = self.operand(st, fr, rv[2])
            return self.cast(st, rv[1], v, self.ty_of(st, fr, rv[2]), rv[3], rv[4] if len(rv) > 4 else None)
        if k == 'agg':
            return self.aggregate(st, fr, rv)
        if k == 'disc':
            obj, path, ty, meta = self.place(st, fr, rv[1])
            v = self.load(st, obj, path) if not p.zst(ty) else En(0, ())
            return self.discr(v, ty)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            ty = self.ty_of(st, fr, rv[2])
            if rv[1] == 'PtrMetadata':
                return v.meta if v.meta is not None else ()
            if rv[1] == 'Not':
                t = p.types[p.strip(ty)]
                if t.kind == 'bool':
                    return T.bnot(T.tobool(v))
                bits, sg = p.intinfo(ty)
                return T.sub(-1, v) if sg else T.sub((1 << bits) - 1, v)
            if rv[1] == 'Neg':
                bits, sg = p.intinfo(ty)
                return self.wrap(st, T.neg(v), bits, sg)
        if k == 'rep':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if n > 4096:
                return Rope((('z', v, n),))
            return (v,) * n
        if k == 'len':
            obj, path, ty, meta = self.place(st, fr, rv[1])
            return meta if meta is not None else p.types[p.strip(ty)].k[2]
        raise Unsupported('rvalue ' + k)

    def discr(self, v, ty):
        t = self.p.types[ty]
        if isinstance(v, En):
            return t.k[3][v.v][1]
        if isinstance(v, SymEn):
            return v.d
        if t.kind == 'adt' and t.k[2] == 'Enum':
            raise Unsupported('discriminant of %r' % (v,))
        return 0

    def wrap(self, st, x, bits, sg):
        if isinstance(x, bool) or isinstance(x, Term) and x.b:
            x = T.b2i(x)
        M = 1 << bits
        if sg:
            lo_, hi_ = -(M >> 1), (M >> 1) - 1
        else:
            lo_, hi_ = 0, M - 1
        l, h = (x, x) if isinstance(x, int) else st.interval(x)
        if l is not None and h is not None and l >= lo_ and h <= hi_:
            return x
        if sg:
            return T.sub(T.mod(T.add(x, M >> 1), M), M >> 1)
        return T.mod(x, M)

    def binop(self, st, op, a, b, ty, ty2):
        p = self.p
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (Ptr, FnV)) or isinstance(b, (Ptr, FnV)):
                return self.ptrcmp(st, op, a, b)
            if isinstance(a, tuple) and a == ():
                return op in ('Eq', 'Le', 'Ge')
            if isinstance(a, Abs) or isinstance(b, Abs):
                return self.abscmp(st, op, a, b)
            return {'Eq': T.eq, 'Ne': T.ne, 'Lt': T.lt, 'Le': T.le, 'Gt': T.gt, 'Ge': T.ge}[op](a, b)
        if op == 'Offset':
            if isinstance(b, int) and b == 0:
                return a
            return self.offset(st, a, b, p.pointee(ty))
        t = p.types[p.strip(ty)]
        if t.kind == 'bool':
            a, b = T.tobool(a), T.tobool(b)
            if op == 'BitAnd':
                return T.band_(a, b)
            if op == 'BitOr':
                return T.bor_(a, b)
            if op == 'BitXor':
                return T.bnot(T.iff(a, b))
        ii = p.intinfo(ty)
        if isinstance(a, Abs) or isinstance(b, Abs):
            return self.absarith(st, op, a, b, ty)
        if a is UNINIT or b is UNINIT:
            raise Unsupported('use of uninitialised value')
        bits, sg = ii
        M = 1 << bits
        if op in ('Add', 'AddUnchecked'):
            return self.wrap(st, T.add(a, b), bits, sg)
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(st, T.sub(a, b), bits, sg)
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(st, T.mul(a, b), bits, sg)
        if op in ('Shl', 'ShlUnchecked'):
            k = st.conc(b) % bits
            return self.wrap(st, T.scale(a, 1 << k), bits, sg)
        if op in ('Shr', 'ShrUnchecked'):
            k = st.conc(b) % bits
            return T.div(a, 1 << k)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            neg_ = sg and (st.interval(a)[0] is None or st.interval(a)[0] < 0 or st.interval(b)[0] is None or st.interval(b)[0] < 0)
            if neg_:
                ua, ub = T.mod(a, M), T.mod(b, M)
            else:
                ua, ub = a, b
            r = (T.b_and if op == 'BitAnd' else T.b_or if op == 'BitOr' else T.b_xor)(ua, ub)
            return self.wrap(st, r, bits, sg) if neg_ else r
        if op in ('Div', 'Rem'):
            if isinstance(b, int) and b > 0 and (st.interval(a)[0] or -1) >= 0 or isinstance(b, int) and b > 0 and isinstance(a, int) and a >= 0 or (isinstance(b, int) and b > 0 and not sg):
                return T.div(a, b) if op == 'Div' else T.mod(a, b)
            if isinstance(a, int) and isinstance(b, int) and b:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == 'Div' else a - q * b
            if isinstance(b, int) and b > 0 and sg:
                # truncating division of a possibly negative number
                q = T.ite(T.ge(a, 0), T.div(a, b), T.neg(T.div(T.neg(a), b)))
                return q if op == 'Div' else T.sub(a, T.scale(q, b))
            if not sg:
                l, h = st.interval(b)
                if l is not None and l > 0:
                    q = T.idiv(a, b) if hasattr(T, 'idiv') else None
                    if q is not None:
                        return q if op == 'Div' else T.sub(a, T.mul(q, b))
            raise Unsupported('division')
        if op == 'Cmp':
            # core::cmp::Ordering
            return En(0 if st.decide(T.lt(a, b)) else 1 if st.decide(T.eq(a, b)) else 2, ())
        raise Unsupported('binop ' + op)

    def abscmp(self, st, op, a, b):
        if isinstance(a, Abs) and a.kind == 'addr' or isinstance(b, Abs) and b.kind == 'addr':
            if isinstance(b, Abs):
                a, b = b, a
            if isinstance(b, int) and b == 0 and op in ('Eq', 'Ne'):
                return op == 'Ne'
        if op in ('Eq', 'Ne') and isinstance(a, Abs) and isinstance(b, Abs) and a == b:
            return op == 'Eq'
        raise Unsupported('comparison of %r' % (a,))

    def absarith(self, st, op, a, b, ty):
        if op == 'BitAnd' and isinstance(a, Abs) and a.kind == 'addr':
            return 0
        raise Unsupported('arithmetic on %r' % (a,))

    def ptrcmp(self, st, op, a, b):
        def isnull(x):
            return isinstance(x, Ptr) and x.obj is None or isinstance(x, int) and x == 0
        if isnull(a) or isnull(b):
            r = isnull(a) and isnull(b)
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if same(a.path, b.path):
                r = True
            elif len(a.path) == len(b.path) and same(a.path[:-1], b.path[:-1]):
                x, y = a.path[-1], b.path[-1]
                if isinstance(x, (int, Term)) and isinstance(y, (int, Term)):
                    c = {'Eq': T.eq, 'Ne': T.ne, 'Lt': T.lt, 'Le': T.le, 'Gt': T.gt, 'Ge': T.ge}[op](x, y)
                    return c
                raise Unsupported('pointer comparison')
            else:
                # same object, paths of different depth (array vs its first element)
                s, l = sorted((a.path, b.path), key=len)
                if same(l[:len(s)], s) and all(isinstance(z, int) and z == 0 for z in l[len(s):]):
                    r = True
                else:
                    raise Unsupported('pointer comparison %r %r' % (a, b))
        elif op in ('Eq', 'Ne'):
            r = False
            if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.obj, tuple) and isinstance(b.obj, tuple) and a.obj[0] == b.obj[0] == 'a':
                raise Unsupported('comparison of constant addresses')
        else:
            raise Unsupported('ordering of unrelated pointers')
        if op == 'Eq':
            return r
        if op == 'Ne':
            return not r
        if r and op in ('Le', 'Ge'):
            return True
        if r and op in ('Lt', 'Gt'):
            return False
        raise Unsupported('pointer ordering')

    def offset(self, st, a, n, elty):
        p = self.p
        if p.zst(elty):
            return a
        if not isinstance(a, Ptr):
            raise Unsupported('offset of %r' % (a,))
        obj, path = self.adjust(a.obj, a.path, elty)
        if isinstance(obj, tuple) and obj and obj[0] == 'view':
            n = st.conc(n)
            o, q = self.view_at(obj, path, n)
            return Ptr(o, q, None)
        if path and isinstance(path[-1], (int, Term)) and self._in_seq(obj, path[:-1]):
            return Ptr(obj, path[:-1] + (T.add(path[-1], n),), a.meta)
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'v':
            return Ptr(obj, path[:-1] + (('v', T.add(path[-1][1], T.scale(n, path[-1][2])), path[-1][2]),), a.meta)
        if isinstance(obj, tuple) and obj and obj[0] == 'dangling' and st.known(T.eq(n, 0)):
            return a
        if st.known(T.eq(n, 0)):
            return a
        raise Unsupported('offset of non-element pointer %r by %r' % (a, n))

    def cast(self, st, kind, v, ty, to, inst):
        p = self.p
        if kind == 'IntToInt':
            bits, sg = p.intinfo(to)
            if isinstance(v, (En, SymEn)):
                v = self.discr(v, ty)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, Abs):
                return v
            return self.wrap(st, v, bits, sg)
        if kind in ('PtrToPtr', 'FnPtrToPtr') or kind.startswith('PointerCoercion(MutToConst') or kind.startswith('PointerCoercion(ArrayToPointer'):
            if isinstance(v, Ptr):
                a, b = p.types[p.pointee(ty)], p.types[p.pointee(to)]
                if b.kind not in ('slice', 'str', 'dyn') and not (b.kind == 'adt' and b.size is None) and v.meta is not None:
                    # fat to thin
                    return Ptr(v.obj, v.path, None)
            return v
        if kind == 'PointerCoercion(Unsize)':
            if isinstance(v, Ptr):
                a = p.types[p.strip(p.pointee(ty))]
                b = p.types[p.strip(p.pointee(to))] if p.types[p.strip(to)].kind in ('ref', 'ptr') else None
                if b is not None and b.kind == 'slice' and a.kind == 'array':
                    obj, path = v.obj, v.path
                    if isinstance(obj, tuple) and obj and obj[0] == 'dangling':
                        return Ptr(obj, (0,), a.k[2])
                    if path and isinstance(path[-1], tuple) and path[-1][0] == 'v':
                        return Ptr(obj, path[:-1] + (path[-1][1],), a.k[2])
                    return Ptr(obj, path + (0,), a.k[2])
                if b is not None and b.kind == 'adt' and p.tail(b.id) is not None:
                    at = p.types[p.strip(a.k[3][0][2][-1])]
                    if at.kind == 'array':
                        return Ptr(v.obj, v.path, at.k[2])
                return Ptr(v.obj, v.path, ('vt', p.pointee(ty)))
            return v
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'):
            t = p.types[ty]
            return FnV(inst if inst is not None else t.k[2])
        if kind == 'Transmute':
            return self.transmute(st, v, ty, to)
        if kind in ('PointerExposeProvenance', 'PointerExposeAddress'):
            return self.transmute(st, v, ty, to)
        if kind == 'PointerWithExposedProvenance':
            return self.transmute(st, v, ty, to)
        raise Unsupported('cast ' + kind)

    def transmute(self, st, v, ty, to):
        p = self.p
        if self.eqty(ty, to):
            return v
        a, b = p.types[p.strip(ty)], p.types[p.strip(to)]
        ia, ib = p.intinfo(a.id), p.intinfo(b.id)
        if ia and ib:
            return reint(v, *ib)
        if a.kind in ('ref', 'ptr', 'fnptr') and b.kind in ('ref', 'ptr', 'fnptr'):
            return v
        if a.kind in ('ref', 'ptr') and ib:
            if isinstance(v, Ptr):
                if v.obj is None:
                    return 0
                if isinstance(v.obj, tuple) and v.obj[0] == 'dangling':
                    return v.obj[1]
                return Abs('addr', (v,))
            return v
        if ia and b.kind in ('ref', 'ptr'):
            if isinstance(v, int):
                return Ptr(('dangling', v), ()) if v else Ptr(None, ())
            if isinstance(v, Abs) and v.kind == 'addr':
                return v.data[0]
        if a.kind == 'array' and ib:
            ea = p.intinfo(a.k[1])
            if ea and isinstance(v, Rope):
                v = explicit(v, st)
            if ea:
                r = T.sumt([T.scale(T.mod(x, 1 << ea[0]), 1 << (ea[0] * i)) for i, x in enumerate(v)])
                return reint(r, *ib)
        if ia and b.kind == 'array':
            eb = p.intinfo(b.k[1])
            if eb:
                u = T.mod(v, 1 << ia[0])
                return tuple(reint(T.mod(T.div(u, 1 << (eb[0] * i)), 1 << eb[0]), *eb) for i in range(b.k[2]))
        if a.kind == 'bool' and ib:
            return T.b2i(v)
        if ia and b.kind == 'bool':
            return T.tobool(v)
        if ia and b.kind == 'adt' and b.k[2] == 'Enum':
            if any(not p.zst(x) for var in b.k[3] for x in var[2]):
                return self.niche_in(st, v, b, ia)
            v = st.conc(v)
            for i, var in enumerate(b.k[3]):
                if var[1] == v:
                    return En(i, ())
        if a.kind == 'adt' and a.k[2] == 'Enum' and ib and isinstance(v, En) and not v.f and not any(not p.zst(x) for var in a.k[3] for x in var[2]):
            return a.k[3][v.v][1]
        if a.kind == 'adt' and a.k[2] == 'Enum' and ib and isinstance(v, En) and len(v.f) == 1 and a.variants[0] != 's' and a.variants[3][0] != 'd' and v.v == a.variants[3][1]:
            return reint(v.f[0], *ib)
        if a.kind == 'adt' and a.k[2] == 'Enum' and ib and isinstance(v, En) and not v.f and a.variants[0] != 's' and a.variants[3][0] != 'd' and v.v != a.variants[3][1]:
            _, unt, ns, ne, nstart = a.variants[3]
            return reint(int(nstart) + v.v - ns, *ib)
        if a.kind == 'array' and b.kind == 'array' and p.types[p.strip(a.k[1])].size == p.types[p.strip(b.k[1])].size:
            return v
        if a.kind == 'adt' and a.k[2] == 'Enum' and b.kind in ('ptr', 'ref') and isinstance(v, En):
            # Option<NonNull<T>> and friends
            return v.f[0] if v.f else Ptr(None, ())
        if b.kind == 'adt' and b.k[2] == 'Enum' and a.kind in ('ptr', 'ref') and len(b.k[3]) == 2:
            null = isinstance(v, Ptr) and v.obj is None
            none = [i for i, x in enumerate(b.k[3]) if not x[2]][0]
            return En(none, ()) if null else En(1 - none, (v,))
        if isinstance(v, tuple) and a.kind == 'adt' and b.kind == 'adt':
            fa, fb = p.fields(a), p.fields(b)
            if fa and fb and len(fa) == len(fb):
                return v
        if isinstance(v, tuple) and a.kind == 'tuple' and b.kind in ('ref', 'ptr'):
            # (data, metadata) pair to fat pointer
            if len(v) == 2 and isinstance(v[0], Ptr):
                return Ptr(v[0].obj, v[0].path, v[1])
        if a.kind in ('ref', 'ptr') and isinstance(v, Ptr):
            return v
        raise Unsupported('transmute %s -> %s' % (a.name, b.name))

    def niche_in(self, st, v, b, ia):
        """an integer read as an enum that keeps its discriminant in a niche (Option<NonZero<usize>> and the like)"""
        p = self.p
        if b.variants[0] == 's' or b.variants[3][0] == 'd' or b.size * 8 != ia[0]:
            raise Unsupported('transmute of an integer to ' + b.name)
        _, unt, ns, ne, nstart = b.variants[3]
        M = 1 << ia[0]
        u = T.mod(v, M)
        for k in range(ns, ne + 1):
            c = T.eq(u, (int(nstart) + k - ns) % M)
            if c is True or c is not False and st.known(c):
                return En(k, ())
            if c is False or st.known(T.bnot(c)):
                continue
            raise Fork(c)
        f = p.variant(b, unt)
        if len([x for x in f if not p.zst(x)]) != 1 or len(f) != 1:
            raise Unsupported('transmute of an integer to ' + b.name)
        return En(unt, (reint(v, *p.intinfo(f[0])),))

    def aggregate(self, st, fr, rv):
        p = self.p
        kind = rv[1]
        vals = [self.operand(st, fr, o) for o in rv[2]]
        if kind[0] == 'tup':
            if all(self.p.zst(self.ty_of(st, fr, o)) for o in rv[2]):
                return tuple(vals)
            return tuple(vals)
        if kind[0] == 'arr':
            return tuple(vals)
        if kind[0] == 'clo':
            return self._wrapagg(kind[1], vals)
        if kind[0] == 'rp':
            ptr, meta = vals
            if not isinstance(ptr, Ptr):
                raise Unsupported('raw pointer from %r' % (ptr,))
            if isinstance(meta, tuple) and meta == ():
                return Ptr(ptr.obj, ptr.path, None)
            pt = p.pointee(kind[1]) if p.types[p.strip(kind[1])].kind in ('ref', 'ptr') else kind[1]
            el = p.unsized_elem(pt)
            if el is not None and not (isinstance(ptr.obj, tuple) and ptr.obj and ptr.obj[0] == 'dangling'):
                obj, path = self.adjust(ptr.obj, ptr.path, el)
                return Ptr(obj, path, meta)
            if el is not None:
                return Ptr(ptr.obj, ptr.path or (0,), meta)
            return Ptr(ptr.obj, ptr.path, meta)
        if kind[0] == 'adt':
            t = p.types[kind[1]]
            if t.k[2] == 'Enum':
                return En(kind[2], tuple(vals))
            if t.k[2] == 'Union':
                if vals[0] == () and not p.zst(kind[1]):
                    return UNINIT
                return vals[0]
            return self._wrapagg(kind[1], vals)
        raise Unsupported('aggregate ' + str(kind))

    def _wrapagg(self, ty, vals):
        n = self.p.transparent(ty)
        if n is not None:
            return vals[n]
        return tuple(vals)

    # ------------------------------------------------------------ calls
    def handler_for(self, f):
        h = self.contracts.get(f.name)
        if h is not None:
            return h
        if f.intr:
            h = self.contracts.get('intrinsic:' + f.intr)
            if h is not None:
                return h
        for pred, h in self.patterns:
            if pred(f.name):
                return h
        return None

    def call(self, st, f, args, depth=0, caller=None, noctr=False):
        """list of (state, value); panicking paths are recorded, not returned"""
        if not noctr:
            h = self.handler_for(f)
            if h is not None:
                s2 = st.copy()
                r = h(self, s2, f, args)
                if r is not NotImplemented:
                    self.used[f.name] = self.used.get(f.name, 0) + 1
                    if isinstance(r, list):
                        return r
                    return [(s2, r)]
        if f.body is None:
            return self.nobody(st, f, args)
        if depth > 120:
            raise Unsupported('recursion depth')
        self.inlined[f.name] = self.inlined.get(f.name, 0) + 1
        return self.run(st, f, args, depth)

    def nobody(self, st, f, args):
        n = f.name
        if 'panic' in n or 'fail' in n or 'begin_panic' in n or n.endswith('::handle_error') or 'abort' in n:
            self.panic(st, n + self.describe(args), self.curfn)
            return []
        m = f.name
        # FnOnce::call_once for function items
        if ('FnOnce' in m or 'FnMut' in m or '::Fn ' in m or '::Fn<' in m or 'ops::Fn' in m):
            r = self.fndef_call(st, f, args)
            if r is not None:
                return r
        raise Unsupported('call of %s' % f.name)

    def fndef_call(self, st, f, args):
        for t in f.targs or ():
            ty = self.p.types[t]
            if ty.kind == 'fndef':
                g = self.p.fns[ty.k[2]]
                a = args[-1]
                tup = a if isinstance(a, tuple) else (a,)
                return self.call(st, g, list(tup))
            if ty.kind == 'fnptr' and isinstance(args[0], FnV):
                return self.call(st, self.p.fns[args[0].inst], list(args[-1]))
            if ty.kind == 'closure':
                cl = self.p.fns[ty.k[3]] if len(ty.k) > 3 and ty.k[3] is not None else None
                if cl is not None:
                    a0 = args[0]
                    if cl.body is not None:
                        pt = self.p.types[cl.body['locals'][1]]
                        if pt.kind in ('ref', 'ptr') and not (isinstance(a0, Ptr) and ty.k[2] == []):
                            if not self.p.zst(t) or True:
                                # closure passed by value to a body taking it by reference
                                if not (isinstance(a0, Ptr) and self.path_type(a0.obj, a0.path) == t):
                                    a0 = Ptr(self.new(st, a0, t), ())
                    return self.call(st, cl, [a0] + list(args[-1]))
        return None

    def describe(self, args):
        return ''

    def panic(self, st, msg, where):
        if self.on_panic:
            self.on_panic(st, msg, where)
            return
        self.oblige(st, False, 'no panic: ' + msg, where)

    def run(self, st, f, args, depth=0):
        """execute the body of f on all paths"""
        p = self.p
        p.cfg(f)
        body = f.body
        self.nf += 1
        fr = Frame()
        fr.fn = f
        fr.id = ('L', self.nf)
        fr.depth = depth
        st = st.copy()
        n = body['argc']
        if body.get('spread') is not None and body['spread']:
            sp = body['spread']
            pre = args[:sp - 1]
            rest = tuple(args[sp - 1:])
            args = list(pre) + [rest if not (len(rest) == 1 and isinstance(rest[0], tuple) and n == len(args)) else rest[0]]
        if len(args) < n and args and isinstance(args[-1], tuple) and n - len(args) + 1 == len(args[-1]):
            args = list(args[:-1]) + list(args[-1])
        for i in range(n):
            st.mem[(fr.id, i + 1)] = args[i]
        for i, t in enumerate(body['locals']):
            self.otype[(fr.id, i)] = t
        outs = []
        # worklist ordered by (loop iteration counts, rpo): depth-first per path is enough without merging
        work = [(st, 0, {})]
        while work:
            s, bb, visits = work.pop()
            self.exec_path(s, f, fr, bb, visits, work, outs)
        nl = len(body['locals'])
        for s, v in outs:
            for i in range(nl):
                s.mem.pop((fr.id, i), None)
        return outs

    def exec_path(self, st, f, fr, bb, visits, work, outs, stop=None):
        """follow one path until it returns, dies or forks"""
        body = f.body
        blocks = body['blocks']
        first = True
        while True:
            if bb in f.headers:
                if stop is not None and bb == stop and not first:
                    outs.append((st, ('header', bb)))
                    return
                if not first or True:
                    lc = self.loop_contract(f, bb)
                    if lc is not None and not (first and stop == bb):
                        try:
                            nxt = lc(self, st, f, fr, bb)
                        except Fork as fk:
                            self.split(st, fk.cond, lambda s: work.append((s, bb, dict(visits))))
                            return
                        if nxt is not None:
                            for s in nxt:
                                if s[0] == 'ret':
                                    outs.append((s[1], s[2]))
                                else:
                                    work.append((s[0], s[1], {}))
                            return
                v = visits.get(bb, 0) + 1
                if v > self.maxvisit:
                    raise Unsupported('loop bound exceeded in ' + f.name)
                visits[bb] = v
            first = False
            stmts, term = blocks[bb]
            i = 0
            r = self.exec_block(st, f, fr, bb, 0, visits, work, outs)
            if r is None:
                return
            bb = r

    def split(self, st, cond, push):
        """case split; both sides are explored"""
        for c in (T.bnot(cond), cond):
            if solver.feasible(st.pc, c):
                s = st.copy()
                if s.assume(c):
                    push(s)

    def exec_block(self, st, f, fr, bb, i0, visits, work, outs):
        stmts, term = f.body['blocks'][bb]
        for i in range(i0, len(stmts)):
            s = stmts[i]
            self.steps += 1
            try:
                self.stmt(st, f, fr, s, term if i == len(stmts) - 1 else None, stmts, i)
            except Fork as fk:
                def push(s2, i=i):
                    r = self.exec_block_safe(s2, f, fr, bb, i, visits, work, outs)
                self.split(st, fk.cond, push)
                return None
        if self.steps > self.maxsteps:
            raise Unsupported('step budget exceeded')
        return self.terminator(st, f, fr, bb, term, visits, work, outs)

    def exec_block_safe(self, st, f, fr, bb, i, visits, work, outs):
        visits = dict(visits)
        r = self.exec_block(st, f, fr, bb, i, visits, work, outs)
        if r is not None:
            work.append((st, r, visits))

    def loop_contract(self, f, bb):
        h = self.loops.get((f.name, bb))
        if h is not None:
            return h
        return self.loops.get(f.name)

    def stmt(self, st, f, fr, s, term, stmts, i):
        k = s[0]
        if k == '=':
            rv = s[2]
            na = None
            if rv[0] == 'chk':
                na = self.followed_by_assert(f, stmts, i, s[1], term)
            self.curfn = (f.name, s[3] if len(s) > 3 else None, f.loc)
            v = self.rvalue(st, fr, rv, na)
            self.place_put(st, fr, s[1], v)
            return
        if k == 'sd':
            obj, path, ty, meta = self.place(st, fr, s[1])
            self.store(st, obj, path, En(s[2], ()))
            return
        if k == 'cno':
            src = self.operand(st, fr, s[1])
            dst = self.operand(st, fr, s[2])
            n = self.operand(st, fr, s[3])
            el = self.p.pointee(self.ty_of(st, fr, s[1]))
            self.copy_mem(st, src, dst, n, el)
            return
        if k == 'dead':
            st.mem.pop((fr.id, s[1]), None)
            return
        if k == 'live':
            return
        raise Unsupported('statement ' + k)

    def copy_mem(self, st, src, dst, n, el):
        if self.p.zst(el):
            return
        r = self.read_seq(st, src, n, el)
        self.write_seq(st, dst, r, el)

    def followed_by_assert(self, f, stmts, i, pl, term):
        t = term
        if t is None:
            return False
        return t[0] == 'assert' and t[1][0] in 'pm' and t[1][1][0] == pl[0] and t[1][1][1] and t[1][1][1][-1][1] == 1 and not t[2]

    def terminator(self, st, f, fr, bb, t, visits, work, outs):
        k = t[0]
        if k == 'goto':
            return t[1]
        if k == 'ret':
            ty = f.body['locals'][0]
            v = st.mem.get((fr.id, 0))
            if v is None:
                v = En(0, ()) if self.p.types[ty].kind == 'adt' and self.p.types[ty].k[2] == 'Enum' and self.p.zst(ty) else ()
            outs.append((st, v))
            return None
        if k == 'sw':
            try:
                return self.switch(st, f, fr, bb, t, visits, work, outs)
            except Fork as fk:
                self.split(st, fk.cond, lambda s: self.exec_block_safe(s, f, fr, bb, len(f.body['blocks'][bb][0]), visits, work, outs))
                return None
        if k == 'assert':
            try:
                c = T.tobool(self.operand(st, fr, t[1]))
            except Fork as fk:
                self.split(st, fk.cond, lambda s: self.exec_block_safe(s, f, fr, bb, len(f.body['blocks'][bb][0]), visits, work, outs))
                return None
            if not t[2]:
                c = T.bnot(c)
            if c is True:
                self.trivial += 1
                return t[4]
            self.curfn = (f.name, t[5] if len(t) > 5 else None, f.loc)
            if self.on_panic:
                if solver.env_of(st.pc).decide(c) is True:
                    return t[4]
                if solver.feasible(st.pc, T.bnot(c)):
                    s2 = st.copy()
                    s2.assume(T.bnot(c))
                    self.on_panic(s2, t[3], self.curfn)
            else:
                self.oblige(st, c, 'no panic: ' + str(t[3]), self.curfn)
            if not st.assume(c):
                return None
            return t[4]
        if k == 'drop':
            if len(t) > 3 and t[3] is not None and self.has_drop_effect(t[3]):
                try:
                    obj, path, ty, meta = self.place(st, fr, t[1])
                    self.drop_value(st, obj, path, t[3])
                except Fork as fk:
                    self.split(st, fk.cond, lambda s: self.exec_block_safe(s, f, fr, bb, len(f.body['blocks'][bb][0]), visits, work, outs))
                    return None
            return t[2]
        if k == 'call':
            return self.do_call(st, f, fr, bb, t, visits, work, outs)
        if k == 'unr':
            self.oblige(st, False, 'unreachable code is not reached', (f.name, None, f.loc))
            return None
        if k == 'abort':
            self.panic(st, 'abort', (f.name, None, f.loc))
            return None
        raise Unsupported('terminator ' + k)

    def has_drop_effect(self, ty, seen=()):
        """does dropping a value of this type write memory that the program reads again?"""
        r = self._dropfx.get(ty)
        if r is None:
            t = self.p.types[ty]
            self._dropfx[ty] = False
            if t.name.startswith('std::vec::set_len_on_drop::SetLenOnDrop'):
                r = True
            else:
                fs = self.p.fields(t) if t.kind in ('tuple', 'closure') or t.kind == 'adt' and t.k[2] == 'Struct' else ()
                r = any(self.has_drop_effect(x) for x in fs or ())
            self._dropfx[ty] = r
        return r

    def drop_value(self, st, obj, path, ty):
        t = self.p.types[ty]
        if t.name.startswith('std::vec::set_len_on_drop::SetLenOnDrop'):
            v = self.load(st, obj, path)
            ptr = [x for x in v if isinstance(x, Ptr)][0]
            n = [x for x in v if not isinstance(x, Ptr)][0]
            o, q = self.adjust(ptr.obj, ptr.path, self.p.tyname['usize'].id)
            self.store(st, o, q, n)
            return
        tr = self.p.transparent(ty)
        for i, x in enumerate(self.p.fields(t)):
            if self.has_drop_effect(x):
                self.drop_value(st, obj, path if tr is not None else path + (i,), x)

    def switch(self, st, f, fr, bb, t, visits, work, outs):
        d = self.operand(st, fr, t[1])
        if isinstance(d, Term) and d.b:
            # boolean switch
            tgt = {v: b for v, b in t[2]}
            tb = tgt.get(1, t[3])
            fb = tgt.get(0, t[3])
            r = st.decide(d)       # raises Fork
            return tb if r else fb
        if isinstance(d, bool):
            d = int(d)
        if isinstance(d, int):
            for v, b in t[2]:
                if self._swmatch(v, d, st, fr, t):
                    return b
            return t[3]
        if isinstance(d, Abs):
            raise Unsupported('switch on %r' % (d,))
        for v, b in t[2]:
            if d.lo is not None and d.lo < 0:
                v = self._signed(v, fr, st, t)
            if st.decide(T.eq(d, v)):
                return b
        return t[3]

    def _signed(self, v, fr, st, t):
        ii = self.p.intinfo(self.ty_of(st, fr, t[1]))
        if ii and ii[1] and v >> (ii[0] - 1):
            return v - (1 << ii[0])
        return v

    def _swmatch(self, v, d, st, fr, t):
        if v == d:
            return True
        if d < 0:
            ii = self.p.intinfo(self.ty_of(st, fr, t[1]))
            return ii is not None and v == d + (1 << ii[0])
        return False

    def do_call(self, st, f, fr, bb, t, visits, work, outs):
        _, fid, args, dest, target, line = t[:6]
        try:
            av = [self.operand(st, fr, a) for a in args]
            if isinstance(fid, list):
                fv = self.operand(st, fr, fid[0])
                if not isinstance(fv, FnV):
                    raise Unsupported('indirect call')
                g = self.p.fns[fv.inst]
            elif isinstance(fid, str):
                raise Unsupported('unresolved call ' + fid)
            else:
                g = self.p.fns[fid]
            self.curfn = (f.name, line, f.loc)
            if self.trace:
                print('  ' * fr.depth, g.name[:100], len(st.pc))
            self._argtys = (fr, args)
            if len(av) == 2 and isinstance(av[1], tuple) and len(av[1]) == 1 and g.body is not None and g.body['argc'] == 2 and CLOSURE.search(g.name):
                av = [av[0], av[1][0]]          # the rust-call ABI passes the arguments as a tuple
            res = self.call(st, g, av, fr.depth + 1)
        except Fork as fk:
            n = len(f.body['blocks'][bb][0])
            self.split(st, fk.cond, lambda s: self.exec_block_safe(s, f, fr, bb, n, visits, work, outs))
            return None
        if target is None:
            for s, v in res:
                self.panic(s, 'diverging call ' + g.name, (f.name, line, f.loc))
            return None
        if not res:
            return None
        if len(res) == 1:
            s, v = res[0]
            if s is not st:
                st.mem, st.pc, st.g = s.mem, s.pc, s.g
            self.place_put(st, fr, dest, v)
            return target
        for s, v in res:
            self.place_put(s, fr, dest, v)
            work.append((s, target, dict(visits)))
        return None

CLOSURE = re.compile(r"\{closure#\d+\}$")

class PInt:
    """partially initialised integer (little-endian parts)"""
    __slots__ = ('parts',)
    def __init__(self, parts):
        self.parts = parts

def reint(v, bits, sg):
    """reinterpret an integer value modulo 2^bits"""
    if v is UNINIT or isinstance(v, (PInt, Abs)):
        return v
    if isinstance(v, bool) or isinstance(v, Term) and v.b:
        v = T.b2i(v)
    M = 1 << bits
    l, h = T.lo(v), T.hi(v)
    if sg:
        if l is not None and h is not None and l >= -(M >> 1) and h < M >> 1:
            return v
        return T.sub(T.mod(T.add(v, M >> 1), M), M >> 1)
    if l is not None and h is not None and l >= 0 and h < M:
        return v
    return T.mod(v, M)
