"""C06: BLAKE2b digests match RFC 7693 for every input and chunking."""
from .base import *
from . import b2, hgen, vgen, vfy, c02, glue
from .skf import C
from .vfy import is_ok, is_err

def t_verify(shape):
    """verify of a pre-hashed signature: what is accepted is signed over the digest of everything the reader holds"""
    def t(pr):
        outs, quiet, output, legacy = vfy.run(pr, *shape)
        nok = 0
        for s, v in outs:
            if is_ok(v):
                nok += 1
                c = dict(vfy.conditions(pr.ex, s, shape[0], legacy, *shape[1:]))
                pr.prove(s, c['signature valid for the whole data'], 'verified over the BLAKE2b-512 digest of the whole data')
                pr.prove(s, glue.allread(pr.ex, s), 'the reader was read to its end')
        pr.rec('some path accepts (vacuity)', 'proved' if nok else 'unknown', 'execution')
        pr.flush()
    return t

def t_sign(pr):
    """sign: the signature is made over the digest of everything the reader holds"""
    ex = pr.ex
    st, sk, pk, d, pkn = c02.setup(pr, 'none')
    args, want = c02.comments(pr, st, True, True)
    outs = pr.call(c02.H + 'h_sign', [En(0, ()), sk, vfy.reader(pr, st)] + args, st)
    nok = 0
    for s, v in outs:
        if is_ok(v):
            nok += 1
            x = c02.parts(pr, s, v.f[0])
            if x is None:
                pr.prove(s, False, 'the new signature is complete')
                continue
            pr.prove(s, glue.edverify(ex, s, c02.message(ex, s), C(pkn['keynum_pk.pk']), C(x['sig'])), 'signed over the BLAKE2b-512 digest of the whole data')
            pr.prove(s, glue.allread(ex, s), 'the reader was read to its end')
    pr.rec('some signature is made (vacuity)', 'proved' if nok else 'unknown', 'execution')
    pr.flush()

class C06(Check):
    id = 'C06'
    assumptions = ['messages are shorter than 2^60 bytes (no message that fits in memory is longer)',
                   'nothing is absorbed after finalize (no caller in the crate does)']
    trusted = ['RFC 7693 as transcribed in engine/checks/hashspec.py (self-test against hashlib on every run)',
               'native contracts of core slices, std::io::Write for &mut [u8] and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        ts = [(b2.COMPRESS, b2.t_compress), (b2.NEW, b2.t_new), (b2.UPDATE, b2.t_update),
              (b2.FINALIZE + ', 32 and 64 bytes', b2.t_finalize((32, 64))), ('short histories', b2.t_probe)]
        # code no public function reaches is not in the dump
        ts += [(n, t) for n, t in ((b2.CLONE, b2.t_clone), (b2.ONCE, b2.t_once)) if prog.byname.get(n)]
        ts += [('pre-hashing in minisign::verify [%s]' % vfy.shapename(x), t_verify(x)) for x in vfy.SHAPES if x[0] and x[1] == x[2]]
        ts += [('pre-hashing in minisign::sign', t_sign)]
        if tier == 'thorough':
            ts += [(b2.FINALIZE + ', %d to %d bytes' % (k, k + 7), b2.t_finalize(range(k, k + 8))) for k in range(1, 65, 8)]
        return ts

    def search(self, real, rng, hints, deep):
        v, n, samples = hgen.search_blake(real, rng, deep)
        if v is None:
            v, n2, more = vgen.search_prehash(real, rng, deep, hints)
            n, samples = n + n2, samples + more[:2]
        return v, n, samples

CHECK = C06
