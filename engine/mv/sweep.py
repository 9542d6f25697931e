"""Equivalence of two circuits given as terms: random evaluation refutes, node-by-node merging (SAT sweeping) proves."""
import random
import time
from . import terms as T
from . import solver
from .terms import T as Term

K = 12

def _sig(roots, seed):
    """per node: values under K random environments"""
    rng = random.Random(seed)
    envs = []
    memo = {}
    nodes = []
    seen = set()
    for r in roots:
        nodes += T.subterms(r, seen)
    lv = [x for x in nodes if x.op in ('var', 'bvar', 'uf', 'buf')]
    for k in range(K):
        env = {}
        for x in lv:
            if x.b:
                env[x] = rng.random() < .5
            else:
                lo = x.lo if x.lo is not None else -(1 << 64)
                hi = x.hi if x.hi is not None else 1 << 64
                c = rng.random()
                env[x] = lo if c < .06 else hi if c < .12 else rng.randint(lo, hi)
        envs.append(env)
    for x in nodes:
        if x in envs[0]:
            memo[x] = tuple(e[x] for e in envs)
            continue
        ch = [c for c in T.children(x)]
        memo[x] = tuple(_ev1(x, lambda c: memo[c][k] if isinstance(c, Term) else c) for k in range(K))
    return nodes, memo, envs

def _ev1(x, g):
    o = x.op
    if o == 'lin':
        return x.args[0] + sum(k * g(a) for a, k in x.args[1])
    if o == 'mul':
        r = 1
        for a in x.args[0]:
            r *= g(a)
        return r
    if o == 'div':
        return g(x.args[0]) // x.args[1]
    if o in ('mod', 'rem'):
        return g(x.args[0]) % x.args[1]
    if o == 'ite':
        return g(x.args[1]) if g(x.args[0]) else g(x.args[2])
    if o == 'le0':
        return g(x.args[0]) <= 0
    if o == 'eq0':
        return g(x.args[0]) == 0
    if o == 'not':
        return not g(x.args[0])
    if o == 'and':
        return all(g(a) for a in x.args)
    if o == 'or':
        return any(g(a) for a in x.args)
    if o == 'band':
        r = -1
        for a in x.args:
            r &= g(a)
        return r
    if o == 'bor':
        r = 0
        for a in x.args:
            r |= g(a)
        return r
    if o == 'bxor':
        r = 0
        for a in x.args:
            r ^= g(a)
        return r
    if o == 'idiv':
        d = g(x.args[1])
        return g(x.args[0]) // d if d else 0
    raise ValueError(o)

_cut = [0]

def _abstract(a, b, common):
    """replace the nodes in common by fresh variables in a and b"""
    env = {}
    def f(t):
        memo = {}
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x in memo:
                continue
            if x is not t and x in common or x.op in ('var', 'bvar', 'uf', 'buf'):
                if x not in env:
                    _cut[0] += 1
                    env[x] = T.bvar('cut%d' % _cut[0]) if x.b else T.var('cut%d' % _cut[0], x.lo, x.hi)
                memo[x] = env[x]
                continue
            if done:
                memo[x] = T.rebuild(x, lambda c: memo[c] if isinstance(c, Term) else c)
                continue
            st.append((x, True))
            for c in T.children(x):
                if isinstance(c, Term) and c not in memo:
                    st.append((c, False))
        return memo[t]
    return f(a), f(b)

def _local(a, b, secs):
    """a = b for all values of the variables: proved by z3"""
    if a is b:
        return True
    if (a.b if isinstance(a, Term) else isinstance(a, bool)) != (b.b if isinstance(b, Term) else isinstance(b, bool)):
        return False
    isb = isinstance(a, (bool,)) or isinstance(a, Term) and a.b
    g = T.iff(a, b) if isb else T.eq(a, b)
    if g is True:
        return True
    if g is False:
        return False
    r, m = solver.check_sat([T.bnot(g)], int(secs * 1000), 'bv')
    return r == 'unsat'

def equivalent(got, want, secs=200, seed=1):
    """('proved'|'refuted'|'unknown', detail)"""
    end = time.time() + secs
    pairs = list(zip(got, want))
    if len(got) != len(want):
        return 'refuted', 'different number of outputs'
    ts = [t for p in pairs for t in p if isinstance(t, Term)]
    nodes, sig, envs = _sig(ts, seed)
    S = lambda t, k: sig[t][k] if isinstance(t, Term) else t
    for i, (a, b) in enumerate(pairs):
        for k in range(K):
            if S(a, k) != S(b, k):
                return 'refuted', dict(output=i, got=S(a, k), want=S(b, k), input={x.args[0] if x.op == 'var' else str(x.id): v for x, v in list(envs[k].items())[:160]})
    wn = []
    seen = set()
    for b in want:
        if isinstance(b, Term):
            wn += T.subterms(b, seen)
    bysig = {}
    for x in wn:
        bysig.setdefault((x.b, sig[x]), []).append(x)
    wset = set(wn)
    rep = {}
    for x in wn:
        rep[x] = x
    gn = []
    for a in got:
        if isinstance(a, Term):
            gn += T.subterms(a, seen)
    tried = merged = 0
    R = lambda c: rep[c] if isinstance(c, Term) else c
    for x in gn:
        if x in rep:
            continue
        if x.op in ('var', 'bvar', 'uf', 'buf'):
            rep[x] = x
            continue
        y = x if all(R(c) is c for c in T.children(x) if isinstance(c, Term)) else T.rebuild(x, R)
        rep[x] = y
        if not isinstance(y, Term) or y in wset:
            merged += 1
            continue
        for m in bysig.get((x.b, sig[x]), ()):
            if time.time() > end:
                return 'unknown', 'time limit'
            tried += 1
            done = False
            ys = set(T.subterms(y))
            ys.discard(y)
            common = {z for z in T.subterms(m) if z in ys}
            # deepest common cut first, then larger ones
            for lim in (0, 1):
                if lim == 0:
                    cut = common
                else:
                    # keep only leaves-of-depth: drop the topmost common nodes
                    tops = set()
                    for r in (y, m):
                        for c in T.children(r):
                            tops.add(c)
                    cut = common - tops
                try:
                    a, b = _abstract(y, m, cut)
                except RecursionError:
                    continue
                if _local(a, b, 5):
                    done = True
                    break
            if done:
                rep[x] = m
                merged += 1
                break
    left = [i for i, (a, b) in enumerate(pairs) if R(a) is not R(b)]
    if not left:
        return 'proved', 'merged %d nodes' % merged
    return 'unknown', 'outputs %s agree on random inputs but were not proved equal (%d nodes merged)' % (left[:8], merged)
