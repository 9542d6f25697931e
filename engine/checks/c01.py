"""C01: verification succeeds only for an authentic, permitted signature."""
from .vfy import *
from . import vfy, vgen

class C01(Check):
    id = 'C01'
    assumptions = ['contract of ed25519::verify (C03): a pure predicate of message, key and signature, false for signatures that are not 64 bytes',
                   'contract of BLAKE2b (C06)', 'std: Vec, String, str, Option, Result and formatting contracts; Read/Seek as specified by std']
    trusted = ['native contracts of std/alloc and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        def mk(shape):
            def t(pr):
                outs, quiet, output, legacy = vfy.run(pr, *shape)
                nok = 0
                for s, v in outs:
                    conds = conditions(pr.ex, s, shape[0], legacy, *shape[1:])
                    if is_ok(v):
                        nok += 1
                        for n, c in conds:
                            pr.prove(s, c, 'accepted => ' + n)
                        pr.prove(s, glue.allread(pr.ex, s), 'accepted => all data was read')
                    elif is_err(v):
                        if not io(s):
                            pr.prove(s, T.bnot(T.band_(*[c for _, c in conds])), 'rejected without I/O error => some condition fails (options do not matter)')
                    else:
                        raise Unsupported('result of verify: %r' % (v,))
                if shape[1] == shape[2]:
                    pr.rec('some path accepts (vacuity)', 'proved' if nok else 'unknown', 'execution')
                pr.flush()
            return ('minisign::verify [%s]' % shapename(shape), t)
        return [mk(s) for s in SHAPES]

    def search(self, real, rng, hints, deep):
        return vgen.search_verify(real, rng, deep, self.id, hints)

CHECK = C01
