"""Discharging obligations: syntactic/interval reasoning first, then z3 (integers or bit-vectors), then cvc5."""
import time
import z3
from .terms import *
from .terms import T, _parts, _lin

STATS = {'interval': 0, 'z3': 0, 'z3_s': 0.0, 'z3_unknown': 0, 'cvc5': 0}
_cache = {}

class Env:
    """interval / equality facts read off a path condition"""
    def __init__(self, pc):
        self.iv = {}
        self.dead = False
        self.facts = set(pc)
        for p in pc:
            self.learn(p)
    def learn(self, p):
        if isinstance(p, bool):
            if not p:
                self.dead = True
            return
        if p.op == 'and':
            for q in p.args:
                self.learn(q)
            self.facts.update(p.args)
            return
        if p.op in ('le0', 'eq0'):
            c, d = _parts(p.args[0])
            if len(d) == 1:
                (a, k), = d.items()
                l, h = self.iv.get(a, (a.lo, a.hi))
                if p.op == 'eq0':
                    if c % k == 0:
                        v = -c // k
                        l, h = v, v
                    else:
                        self.dead = True
                elif k > 0:
                    v = (-c) // k
                    h = v if h is None else min(h, v)
                else:
                    v = -((-c) // -k) if False else -(-c // -k) if False else _ceil(c, -k)
                    l = v if l is None else max(l, v)
                self.iv[a] = (l, h)
                if l is not None and h is not None and l > h:
                    self.dead = True
    def interval(self, x):
        if isinstance(x, int):
            return int(x), int(x)
        r = self.iv.get(x)
        if r is not None:
            return r
        if x.op == 'lin':
            l = h = x.args[0]
            for a, k in x.args[1]:
                al, ah = self.interval(a)
                if k < 0:
                    al, ah = ah, al
                l = None if l is None or al is None else l + k * al
                h = None if h is None or ah is None else h + k * ah
            if x.lo is not None:
                l = x.lo if l is None else max(l, x.lo)
            if x.hi is not None:
                h = x.hi if h is None else min(h, x.hi)
            return l, h
        if x.op == 'div':
            l, h = self.interval(x.args[0])
            return (None if l is None else l // x.args[1]), (None if h is None else h // x.args[1])
        if x.op in ('mod', 'rem'):
            l, h = self.interval(x.args[0])
            D = x.args[1]
            if l is not None and h is not None and l // D == h // D:
                return l % D, h % D
        return x.lo, x.hi
    def decide(self, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        if c in self.facts:
            return True
        if bnot(c) in self.facts:
            return False
        if c.op == 'le0':
            l, h = self.interval(c.args[0])
            if h is not None and h <= 0:
                return True
            if l is not None and l > 0:
                return False
        elif c.op == 'eq0':
            l, h = self.interval(c.args[0])
            if l is not None and l > 0 or h is not None and h < 0:
                return False
            if l == 0 and h == 0:
                return True
        elif c.op == 'and':
            r = [self.decide(a) for a in c.args]
            if all(x is True for x in r):
                return True
            if any(x is False for x in r):
                return False
        elif c.op == 'or':
            r = [self.decide(a) for a in c.args]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
        elif c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        return None

def _ceil(c, k):      # c - k*a <= 0 -> a >= c/k
    return -((-c) // k)

_envs = {}
def env_of(pc):
    e = _envs.get(pc)
    if e is None:
        if len(_envs) > 4000:
            _envs.clear()
        e = _envs[pc] = Env(pc)
    return e

# ---------------------------------------------------------------- z3
def _needs_bv(ts):
    for t in ts:
        for x in subterms(t):
            if x.op in ('band', 'bor', 'bxor'):
                return True
    return False

class IntTr:
    def __init__(self):
        self.m = {}
        self.side = []
    def tr(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        if isinstance(t, int):
            return z3.IntVal(t)
        for x in subterms(t):
            if x in self.m:
                continue
            g = lambda c: self.m[c] if isinstance(c, T) else (z3.BoolVal(c) if isinstance(c, bool) else z3.IntVal(c))
            o = x.op
            if o in ('var', 'uf'):
                r = z3.Int('v%d' % x.id)
                if x.lo is not None:
                    self.side.append(r >= x.lo)
                if x.hi is not None:
                    self.side.append(r <= x.hi)
            elif o in ('bvar', 'buf'):
                r = z3.Bool('b%d' % x.id)
            elif o == 'lin':
                r = z3.Sum([z3.IntVal(x.args[0])] + [z3.IntVal(k) * self.m[a] for a, k in x.args[1]])
            elif o == 'mul':
                r = self.m[x.args[0][0]]
                for a in x.args[0][1:]:
                    r = r * self.m[a]
            elif o == 'div':
                # introduce q with x = q*d + r
                q = z3.Int('q%d' % x.id)
                a = self.m[x.args[0]]
                self.side += [a - q * x.args[1] >= 0, a - q * x.args[1] < x.args[1]]
                r = q
            elif o in ('mod', 'rem'):
                dv = div(x.args[0], x.args[1])
                r = self.m[x.args[0]] - x.args[1] * self.tr(dv)
                self.side += [r >= 0, r < x.args[1]]
            elif o == 'ite':
                r = z3.If(g(x.args[0]), g(x.args[1]), g(x.args[2]))
            elif o == 'le0':
                r = self.m[x.args[0]] <= 0
            elif o == 'eq0':
                r = self.m[x.args[0]] == 0
            elif o == 'not':
                r = z3.Not(self.m[x.args[0]])
            elif o == 'and':
                r = z3.And([g(a) for a in x.args])
            elif o == 'or':
                r = z3.Or([g(a) for a in x.args])
            elif o == 'idiv':
                q = z3.Int('q%d' % x.id)
                a, b = g(x.args[0]), g(x.args[1])
                self.side += [z3.Implies(b > 0, z3.And(a - q * b >= 0, a - q * b < b))]
                r = q
            else:   # bit operation in integer mode: opaque with bounds
                r = z3.Int('w%d' % x.id)
                if x.lo is not None:
                    self.side.append(r >= x.lo)
                if x.hi is not None:
                    self.side.append(r <= x.hi)
            self.m[x] = r
        return self.m[t]

class BvTr:
    def __init__(self, W):
        self.W = W
        self.m = {}
        self.side = []
        self.ok = True
    def c(self, v):
        return z3.BitVecVal(v, self.W)
    def tr(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        if isinstance(t, int):
            return self.c(t)
        for x in subterms(t):
            if x in self.m:
                continue
            g = lambda c: self.m[c] if isinstance(c, T) else (z3.BoolVal(c) if isinstance(c, bool) else self.c(c))
            o = x.op
            if o in ('var', 'uf'):
                r = z3.BitVec('v%d' % x.id, self.W)
                if x.lo is None or x.hi is None:
                    self.ok = False
                else:
                    self.side += [r >= self.c(x.lo), r <= self.c(x.hi)]
            elif o in ('bvar', 'buf'):
                r = z3.Bool('b%d' % x.id)
            elif o == 'lin':
                r = self.c(x.args[0])
                for a, k in x.args[1]:
                    if k > 0 and k & (k - 1) == 0:
                        r = r + (self.m[a] << (k.bit_length() - 1)) if k > 1 else r + self.m[a]
                    else:
                        r = r + self.c(k) * self.m[a]
            elif o == 'mul':
                r = self.m[x.args[0][0]]
                for a in x.args[0][1:]:
                    r = r * self.m[a]
            elif o in ('div', 'mod', 'rem'):
                D = x.args[1]
                a = self.m[x.args[0]]
                if D & (D - 1) == 0:
                    k = D.bit_length() - 1
                    r = (a >> k) if o == 'div' else (a & self.c(D - 1))
                else:
                    if x.args[0].lo is None or x.args[0].lo < 0:
                        self.ok = False
                    r = z3.UDiv(a, self.c(D)) if o == 'div' else z3.URem(a, self.c(D))
            elif o == 'ite':
                r = z3.If(g(x.args[0]), g(x.args[1]), g(x.args[2]))
            elif o == 'le0':
                r = self.m[x.args[0]] <= self.c(0)
            elif o == 'eq0':
                r = self.m[x.args[0]] == self.c(0)
            elif o == 'not':
                r = z3.Not(self.m[x.args[0]])
            elif o == 'and':
                r = z3.And([g(a) for a in x.args])
            elif o == 'or':
                r = z3.Or([g(a) for a in x.args])
            elif o in ('band', 'bor', 'bxor'):
                a = [g(c) for c in x.args]
                r = a[0]
                for b in a[1:]:
                    r = (r & b) if o == 'band' else (r | b) if o == 'bor' else (r ^ b)
            elif o == 'idiv':
                r = z3.UDiv(g(x.args[0]), g(x.args[1]))
                if not (x.lo is not None and x.lo >= 0):
                    self.ok = False
            else:
                raise ValueError(o)
            self.m[x] = r
        return self.m[t]

def _width(ts):
    m = 1
    for t in ts:
        for x in subterms(t):
            if x.b:
                continue
            if x.lo is None or x.hi is None:
                return None
            m = max(m, abs(x.lo).bit_length(), abs(x.hi).bit_length())
            if x.op == 'lin':
                s = abs(x.args[0])
                for a, k in x.args[1]:
                    s += abs(k) * max(abs(a.lo), abs(a.hi))
                m = max(m, s.bit_length())
    return m + 2

def cone(pc, goal):
    """conjuncts of pc that share leaves (transitively) with goal"""
    want = set(leaves(goal))
    rest = [p for p in pc if not isinstance(p, bool)]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for p in rest:
            lv = leaves(p)
            if lv & want:
                want |= lv
                out.append(p)
                ch = True
            else:
                nr.append(p)
        rest = nr
    return out

def check_sat(fs, timeout=10000, mode=None):
    """('sat', model: leaf->value) / ('unsat', None) / ('unknown', None)"""
    fs = [f for f in fs if f is not True]
    if any(f is False for f in fs):
        return 'unsat', None
    if not fs:
        return 'sat', {}
    key = (frozenset(fs), mode)
    if key in _cache:
        return _cache[key]
    t0 = time.time()
    STATS['z3'] += 1
    if mode is None:
        mode = 'bv' if _needs_bv(fs) else 'int'
    if mode == 'bv':
        W = _width(fs)
        if W is None or W > 600:
            mode = 'int'
    if mode == 'bv':
        tr = BvTr(W)
        ex = [tr.tr(f) for f in fs]
        if not tr.ok:
            return 'unknown', None
        s = z3.SolverFor('QF_BV')
    else:
        tr = IntTr()
        ex = [tr.tr(f) for f in fs]
        s = z3.Solver()
    s.set('timeout', timeout)
    s.add(ex)
    s.add(tr.side)
    r = s.check()
    model = None
    if r == z3.sat:
        m = s.model()
        model = {}
        for x, e in tr.m.items():
            if x.op in ('var', 'uf', 'bvar', 'buf'):
                v = m.eval(e, model_completion=True)
                if z3.is_bool(v):
                    model[x] = z3.is_true(v)
                elif z3.is_bv_value(v):
                    model[x] = v.as_signed_long()
                else:
                    model[x] = v.as_long()
        if mode == 'int' and _needs_bv(fs):
            # bit operations were abstracted: the model may be spurious
            try:
                good = all(evaluate(f, {**model, None: lambda x: 0}) for f in fs)
            except Exception:
                good = False
            if not good:
                r = z3.unknown
                model = None
    res = ('sat', model) if r == z3.sat else ('unsat', None) if r == z3.unsat else ('unknown', None)
    if r == z3.unknown:
        STATS['z3_unknown'] += 1
    STATS['z3_s'] += time.time() - t0
    if r != z3.unknown:
        _cache[key] = res
    return res

def prove(pc, goal, timeout=20000):
    """is goal implied by pc?  ('proved', backend) / ('refuted', model) / ('unknown', None)"""
    if goal is True:
        STATS['interval'] += 1
        return 'proved', 'syntactic'
    pc = tuple(pc)
    e = env_of(pc)
    if e.dead:
        return 'proved', 'infeasible path'
    d = e.decide(goal)
    if d is True:
        STATS['interval'] += 1
        return 'proved', 'interval'
    if isinstance(goal, T) and goal.op == 'and':
        be = set()
        for g in goal.args:
            r, x = prove(pc, g, timeout)
            if r != 'proved':
                return r, x
            be.add(x)
        return 'proved', '+'.join(sorted(be))
    if goal is False:
        r, m = check_sat(list(pc), timeout)
    else:
        ng = bnot(goal)
        r, m = check_sat(cone(pc, ng) + [ng], timeout)
        if r == 'sat' and len(pc) and len(cone(pc, ng)) < len(pc):
            # complete the model over the rest of the path condition
            r2, m2 = check_sat(list(pc) + [ng], timeout)
            if r2 == 'unsat':
                return 'proved', 'z3'
            if r2 == 'sat':
                m = m2
    if r == 'unsat':
        return 'proved', 'z3'
    if r == 'sat':
        return 'refuted', m
    return 'unknown', None

def feasible(pc, extra, timeout=3000):
    """False only if pc and extra is certainly unsatisfiable"""
    if extra is False:
        return False
    if extra is True:
        return True
    pc = tuple(pc)
    e = env_of(pc)
    if e.dead:
        return False
    d = e.decide(extra)
    if d is not None and d is False:
        return False
    if d is True:
        return True
    c = cone(pc, extra)
    if not c:
        r, _ = check_sat([extra], timeout)
        return r != 'unsat'
    r, _ = check_sat(c + [extra], timeout)
    return r != 'unsat'
