"""C15: verified data is copied to standard output only after verification."""
from .vfy import *
from . import vfy, vgen
from .kit import req, simp

class C15(Check):
    id = 'C15'
    assumptions = ['the data source yields the same bytes when it is read again after rewinding',
                   'contract of ed25519::verify (C03) and of BLAKE2b (C06)', 'std contracts of Stdout::write_all and flush, Read, Seek']
    trusted = ['native contracts of std/alloc and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        def mk(shape):
            def t(pr):
                ex = pr.ex
                outs, quiet, output, legacy = vfy.run(pr, *shape)
                seen = 0
                for s, v in outs:
                    out = simp(s, s.g.get('stdout', Rope(())))
                    N = ex.srclen('data0', 0, None)
                    wrote = bool(out.segs) or s.g.get('stdout_partial')
                    if wrote:
                        conds = conditions(ex, s, shape[0], legacy, *shape[1:])
                        pr.prove(s, output, 'written => output was requested')
                        for n, c in conds:
                            pr.prove(s, c, 'written => ' + n)
                        ok = len(out.segs) == 0 or (len(out.segs) == 1 and out.segs[0][0] == 's' and out.segs[0][1] == 'data0' and same(out.segs[0][2], 0))
                        if not ok:
                            raise Unsupported('shape of what is written: %r' % (out,))
                    if is_ok(v):
                        fl = simp(s, s.g.get(('flushed', 'stdout'), Rope(())))
                        if out.segs or fl.segs:
                            pr.prove(s, T.bor_(T.bnot(output), req(ex, s, fl, rope('data0', N))), 'accepted with output => what was written has been handed to the system (flushed)')
                        if s.known(output):
                            seen += 1
                            pr.prove(s, req(ex, s, out, rope('data0', N)), 'accepted with output => exactly the whole data, from its beginning')
                        else:
                            pr.prove(s, T.bor_(T.bnot(output), req(ex, s, out, rope('data0', N))), 'accepted with output => exactly the whole data, from its beginning')
                            pr.prove(s, T.bor_(output, T.eq(out.length(), 0)), 'output not requested => nothing is written')
                if shape[1] == shape[2]:
                    pr.rec('some path writes the data (vacuity)', 'proved' if seen else 'unknown', 'execution')
                pr.flush()
            return ('minisign::verify [%s]' % shapename(shape), t)
        return [mk(s) for s in SHAPES]

    def search(self, real, rng, hints, deep):
        return vgen.search_verify(real, rng, deep, self.id, hints)

CHECK = C15
