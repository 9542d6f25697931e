"""Common parts of the checks: proof tasks, records, evidence and verdict."""
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

from ..mv import terms as T
from ..mv import solver
from ..mv import dump
from ..mv import builtins as B
from ..mv.mir import Prog
from ..mv.exec import Exec, State
from ..mv.values import *
from . import real as realmod
from . import cong

VERIF = dump.VERIF
BUILD = dump.BUILD

class Missing(Exception):
    """the function a contract is attached to is no longer there under that name"""

class Prover:
    """proof of one function against its contract"""
    def __init__(self, prog, fn, timeout=20000):
        self.p = prog
        self.fn = fn
        self.recs = []
        self.timeout = timeout
        # obligations over any state that satisfies a representation invariant: a failure may only mean another representation;
        # it counts as one of the code only if ordinary short histories satisfy the invariant (obligations named probe...)
        self.generic = False
        self.ex = self.new_exec()

    def new_exec(self):
        ex = Exec(self.p)
        B.install(ex)
        return ex

    def get(self, name):
        l = [f for f in self.p.byname.get(name, ()) if f.body is not None]
        if len(l) != 1:
            raise Missing(name)
        return l[0]

    def has(self, name):
        return len([f for f in self.p.byname.get(name, ()) if f.body is not None]) == 1

    def rec(self, name, status, backend='', detail='', model=None):
        self.recs.append(dict(generic=self.generic, fn=self.fn, name=name, status=status, backend=backend, detail=str(detail)[:2000], model=model))
        return status

    def prove(self, pc, goal, name, where=''):
        t0 = time.time()
        if isinstance(pc, State):
            pc = pc.pc
        try:
            s, x = solver.prove(pc, goal, self.timeout)
        except Unsupported as e:
            s, x = 'unknown', str(e)
        if s == 'proved':
            return self.rec(name, s, x)
        if s == 'refuted':
            cs = cong.constraints(self.ex, list(pc) + [goal])
            if cs:
                s, x = solver.prove(tuple(pc) + tuple(cs), goal, self.timeout)
                if s == 'proved':
                    return self.rec(name, s, x + '+congruence')
        if s == 'refuted' and T.vague(list(pc) + [goal]):
            s = 'unknown'       # the code decides on text whose contents are not modelled
        det = 'at %s: %s' % (where, T.show(goal, 6) if not isinstance(goal, bool) else goal)
        if s == 'refuted':
            # keep the model only if it really falsifies the goal
            return self.rec(name, s, 'z3', det, {show(k): v for k, v in (x or {}).items()})
        return self.rec(name, 'unknown', '', det)

    def each(self, outs, fn):
        """fn(state, value) for every outcome, splitting the outcome when the specification needs a case distinction"""
        for s0, v in outs:
            todo, k = [s0], 0
            while todo:
                s = todo.pop()
                n = len(self.recs)
                try:
                    fn(s.copy(), v)
                except Fork as fk:
                    del self.recs[n:]
                    k += 1
                    if k > 200:
                        raise
                    for c in (T.bnot(fk.cond), fk.cond):
                        if solver.feasible(s.pc, c):
                            s2 = s.copy()
                            if s2.assume(c):
                                todo.append(s2)

    def flush(self, ex=None):
        """discharge the safety obligations generated on the way"""
        ex = ex or self.ex
        seen = set()
        for name, pc, goal, where, st in ex.obl:
            k = (name, where, goal, pc)
            if k in seen:
                continue
            seen.add(k)
            self.prove(pc, goal, name, where)
        ex.obl = []

    def call(self, name, args, st=None, ex=None, noctr=True):
        ex = ex or self.ex
        f = self.get(name)
        return ex.call(st or State(ex), f, list(args), noctr=noctr)

def show(k):
    try:
        return T.show(k, 4)
    except Exception:
        return repr(k)

TRUSTED = [
    'rustc (front end, MIR construction, monomorphisation) and the MIR dump driver (engine/driver)',
    'the verification-condition generator and its decision procedures (engine/mv): MIR semantics, intervals, '
    'canonical linear/polynomial terms',
    'z3 (bundled Python binding)',
]

_tasks = []
_prog = None

def _limit(sec):
    def boom(*a):
        raise TimeoutError('time limit of the proof task')
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(int(sec))

def _work(i):
    name, fn, sec = _tasks[i]
    t0 = time.time()
    pr = Prover(_prog, name)
    err = None
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    _limit(sec)
    try:
        fn(pr)
    except Missing as e:
        err = 'anchor not found: %s' % e
    except Unsupported as e:
        err = 'outside the supported subset: %s' % e
    except Fork as e:
        err = 'undetermined condition in a contract: %r' % (e.cond,)
    except TimeoutError as e:
        err = str(e)
    except RecursionError:
        err = 'recursion limit'
    except MemoryError:
        err = 'memory limit'
    except Exception as e:
        err = 'internal: ' + traceback.format_exc()[-1500:]
    signal.alarm(0)
    if err is not None:
        pr.rec('contract of %s' % name, 'unknown', '', err)
    return dict(task=name, recs=pr.recs, used=dict(pr.ex.used), inlined=list(pr.ex.inlined), wall=time.time() - t0,
                stats=dict(solver.STATS), err=err, trivial=pr.ex.trivial)

class Check:
    """one property: subclass gives id, tasks(prog, tier), search(real, rng, hints, deep)"""
    id = None
    assumptions = []
    trusted = []
    notes = ''
    budget = 400

    def tasks(self, prog, tier):
        return []

    def search(self, real, rng, hints, deep):
        """(violation dict or None, number of evaluations, samples)"""
        return None, 0, []

    # ------------------------------------------------------------------
    def main(self):
        t0 = time.time()
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        rng = random.Random('%s-%d' % (self.id, seed))
        global _prog, _tasks
        res = []
        lost = None
        viol = None
        ev, samples = 0, []
        ts = 0
        def search(hints, deep):
            nonlocal viol, ev, samples, ts
            t = time.time()
            try:
                v, n, sm = self.search(real, rng, hints, deep)
                viol, ev, samples = viol or v, ev + n, samples or sm
            except realmod.BuildError as e:
                print(e)
            except Exception:
                # a fault of the search itself decides nothing
                print('search stopped: ' + traceback.format_exc()[-1500:])
            ts += time.time() - t
        try:
            real = realmod.Real()
        except realmod.BuildError as e:
            print('the code does not build: %s' % e)
            return self.finish(t0, tier, seed, res, [], [], [], None, 0, [], 3)
        search([], 1)
        if viol:
            # the violation is established; the proof attempt only adds the obligations that fail
            self.budget = min(self.budget, 60)
        t1 = time.time()
        try:
            path = dump.dump()
            _prog = Prog(path)
        except dump.DumpError as e:
            lost = 'MIR could not be obtained: ' + str(e)
        if _prog is not None:
            _tasks = list(self.tasks(_prog, tier))
            _tasks = [t if len(t) == 3 else (t[0], t[1], self.budget) for t in _tasks]
            _tasks = [(a, b, min(c, self.budget)) for a, b, c in _tasks]
            res = self.run_tasks()
        tp = time.time() - t1
        recs = [r for x in res for r in x['recs']]
        probes = [r for r in recs if r['name'].startswith('probe')]
        if not probes or any(r['status'] != 'proved' for r in probes):
            for r in recs:
                if r['status'] == 'refuted' and (r.get('generic') or r in probes):
                    r['status'] = 'unknown'
                    r['detail'] = 'fails for a state that only satisfies the stated invariant, which this code may not maintain: %s; %s' % (r['detail'], r['model'])
        bad = [r for r in recs if r['status'] == 'refuted']
        und = [r for r in recs if r['status'] == 'unknown']
        if lost:
            und.append(dict(fn='-', name='MIR dump', status='unknown', backend='', detail=lost, model=None))
        if not recs and not lost and _tasks:
            und.append(dict(fn='-', name='no obligation generated', status='unknown', backend='', detail='', model=None))
        deep = 2 if (bad or und) else 1
        if tier == 'thorough':
            deep += 1
        if deep > 1 and not viol:
            search(bad + und, deep)
        code = 0
        rp = os.path.join(BUILD, 'replay-%s.txt' % self.id)
        if viol or bad:
            with open(rp, 'w') as f:
                if viol:
                    f.write('property %s: failing input on the real code\n' % self.id)
                    for k, v in viol.items():
                        f.write('%s: %s\n' % (k, v))
                    f.write('replay: build /verif/replay (RUSTFLAGS="--cfg minisign_vp" --features internals) and feed it the command above\n\n')
                for r in bad:
                    f.write('failed obligation: %s | %s\n  %s\n  model: %s\n' % (r['fn'], r['name'], r['detail'], r['model']))
                for r in und[:40]:
                    f.write('undecided obligation: %s | %s\n  %s\n' % (r['fn'], r['name'], r['detail']))
            for r in bad[:5]:
                print('failed obligation: %s | %s | %s' % (r['fn'], r['name'], r['detail'][:300]))
        if viol:
            print('failing input: %s' % {k: str(v)[:400] for k, v in viol.items()})
            print('VIOLATION property=%s replay=%s' % (self.id, rp))
            code = 1
        elif bad:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.id, rp))
            code = 1
        for r in und[:8]:
            print('undecided: %s | %s | %s' % (r['fn'], r['name'], r['detail'][:600]))
        return self.finish(t0, tier, seed, res, recs, und, bad, viol, ev, samples, code, tp, ts)

    def run_tasks(self):
        n = min(8, len(_tasks)) or 1
        ctx = mp.get_context('fork')
        out = []
        with ctx.Pool(n, maxtasksperchild=1) as pool:
            jobs = [(t, pool.apply_async(_work, (i,))) for i, t in enumerate(_tasks)]
            end = time.time() + self.budget + 20
            for (name, fn, sec), j in jobs:
                try:
                    out.append(j.get(max(1, end - time.time())))
                except Exception as e:
                    out.append(dict(task=name, recs=[dict(fn=name, name='contract of %s' % name, status='unknown', backend='',
                                    detail='task did not finish: %r' % (e,), model=None)], used={}, inlined=[], wall=0, stats={}, err='lost'))
            pool.terminate()
        return out

    def finish(self, t0, tier, seed, res, recs, und, bad, viol, ev, samples, code, tp=0, ts=0):
        ok = [r for r in recs if r['status'] == 'proved']
        be = {}
        for r in ok:
            for b in (r['backend'] or 'syntactic').split('+'):
                be[b] = be.get(b, 0) + 1
        used = {}
        inl = set()
        for x in res:
            for k, v in x['used'].items():
                used[k] = used.get(k, 0) + v
            inl.update(x['inlined'])
        byf = {}
        for r in recs:
            d = byf.setdefault(r['fn'], dict(obligations=0, discharged=0))
            d['obligations'] += 1
            d['discharged'] += r['status'] == 'proved'
        mine = sorted(n for n in inl if 'minisign' in n or n.startswith('<minisign'))
        st = dict(z3_queries=sum(x['stats'].get('z3', 0) for x in res), z3_s=round(sum(x['stats'].get('z3_s', 0) for x in res), 2))
        level = 'proof'
        cov = dict(obligations=len(recs) + (1 if not recs else 0) * len(und), discharged=len(ok),
                   checker_cmd='./check %s' % self.id, trusted_base=TRUSTED + list(self.trusted),
                   functions_under_contract=byf, minisign_functions_executed=mine,
                   contracts_assumed=dict(sorted(used.items())),
                   assertions_true_by_evaluation=sum(x.get('trivial', 0) for x in res),
                   backends=be, solver=st, proof_wall_s=round(tp, 2), search_wall_s=round(ts, 2),
                   undecided=[dict(fn=r['fn'], name=r['name'], reason=r['detail'][:400]) for r in und],
                   bounded_stand_in=dict(role='replay of counterexamples, and bounded stand-in for undecided obligations (never counted as proved)',
                                         evaluations=ev),
                   samples=[str(s)[:300] for s in samples[:5]])
        if self.notes:
            cov['explanation'] = self.notes
        if und and not ok:
            level = 'exploration'
            cov.update(evaluations=ev, distinct_nontrivial=ev, rule='inputs run through the real code against the reference')
        e = dict(property=self.id, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(self.assumptions),
                 wall_s=round(time.time() - t0, 2), violations=1 if (viol or bad) else 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(e, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted; %d concrete runs; %.1f s' % (
            self.id, len(recs), len(ok), len(und), len(bad), ev, time.time() - t0))
        return code

class Search:
    """differential runs against a Python reference, in batches"""
    def __init__(self, real):
        self.real = real
        self.n = 0
        self.samples = []

    def run(self, cases, judge):
        """cases: list of (command, context); judge(command, context, tokens, stdout) -> None or text"""
        cases = list(cases)
        for k in range(0, len(cases), 400):
            part = cases[k:k + 400]
            got = self.real.run([c for c, _ in part])
            for i, ((c, x), (tok, so)) in enumerate(zip(part, got)):
                self.n += 1
                try:
                    w = judge(c, x, tok, so)
                except (ValueError, IndexError, TypeError, KeyError) as e:
                    w = 'the answer does not have the form of a correct one: %r' % e
                if w:
                    v = dict(command=c, answer=' '.join(tok)[:2000], stdout=so[:200].hex(), why=w)
                    if i and tok[0] != 'crash':
                        try:
                            alone = judge(c, x, *self.real.run([c])[0])
                        except (ValueError, IndexError, TypeError, KeyError):
                            alone = None
                        if not alone:
                            v['history'] = '(correct when run alone; after these commands in the same process it is not)\n' + '\n'.join(y[0] for y in part[:i])
                    return v
            if part and len(self.samples) < 5:
                self.samples.append(part[0][0][:200])
        return None
