"""Contract of minisign::verify, shared by C01, C12, C15."""
from .base import *
from .kit import *
from .glue import *
from . import kit, glue

VERIFY = 'mvharness::h_verify'

def some_box(pr, st, pre, tc, gs):
    """a SignatureBox satisfying the representation invariant; tc/gs: is a trusted comment / global signature attached"""
    ex = pr.ex
    sig = barr('box.sig', 64)
    given = dict(untrusted_comment=kit.string(ex, st, 'box.untrusted'), is_prehashed=pre)
    n = ex.srclen('box.trusted', 0, 1 << 40)
    B.src(ex, 'box.trusted', utf8=True)
    g = ex.srclen('box.global', 0, 1 << 40)
    given['sig_and_trusted_comment'] = En(1, (kit.vec(ex, st, Rope((('c', sig), ('s', 'box.trusted', 0, n)))),)) if tc else En(0, ())
    given['global_sig'] = En(1, (kit.vec(ex, st, rope('box.global', g)),)) if gs else En(0, ())
    given['signature.sig'] = sig
    given['signature.sig_alg'] = (ord('E'), ord('D') if pre else ord('d'))
    given['signature.keynum'] = barr('box.keynum', 8)
    return build(pr.p, 'minisign::SignatureBox', arr_mk('box.', given))

def conditions(ex, st, pre, legacy, tc, gs):
    """the property's conditions for acceptance, as one list of (name, condition)"""
    N = ex.srclen('data0', 0, None)
    msg = rope('data0', N)
    if pre:
        msg = rope(glue.blake_name(ex, st, 64, msg), 64)
    pk = rope('pk.pk', 32)
    c = [('key identifiers agree', eqarr(barr('box.keynum', 8), barr('pk.keynum', 8))),
         ('pre-hashed, or legacy signatures allowed', T.bor_(pre, legacy)),
         ('signature valid for the whole data', glue.edverify(ex, st, msg, pk, rope('box.sig', 64))),
         ('trusted comment and global signature both or neither', tc == gs)]
    if tc and gs:
        m = Rope((('s', 'box.sig', 0, 64), ('s', 'box.trusted', 0, ex.srclen('box.trusted', 0, None))))
        g = rope('box.global', ex.srclen('box.global', 0, None))
        c.append(('global signature valid for signature and comment', glue.edverify(ex, st, m, pk, g)))
    return c

def mkpk(pr, st, prefix='pk.'):
    names = {'sig_alg': barr(prefix + 'sig_alg', 2), 'keynum_pk.keynum': barr(prefix + 'keynum', 8), 'keynum_pk.pk': barr(prefix + 'pk', 32)}
    return build(pr.p, 'minisign::PublicKey', arr_mk(prefix, names))

def reader(pr, st, rid=0):
    return kit.ref(pr.ex, st, rid, 'OpaqueReader')

def run(pr, pre, tc, gs):
    """all outcomes of verify for one shape of box, with the option flags symbolic"""
    ex = pr.ex
    glue.install(pr)
    st = State(ex)
    quiet, output, legacy = [T.bvar(x) for x in ('quiet', 'output', 'allow_legacy')]
    pk = kit.ref(ex, st, mkpk(pr, st), 'minisign::PublicKey')
    box = kit.ref(ex, st, some_box(pr, st, pre, tc, gs), 'minisign::SignatureBox')
    rd = reader(pr, st)
    p0 = ex.fresh('startpos', 0, 0)
    outs = pr.call(VERIFY, [pk, box, rd, quiet, output, legacy], st)
    return outs, quiet, output, legacy

SHAPES = [(pre, tc, gs) for pre in (True, False) for tc in (True, False) for gs in (True, False)]

def shapename(s):
    return '%s%s%s' % ('prehashed' if s[0] else 'legacy', ', trusted comment' if s[1] else '', ', global signature' if s[2] else '')

def io(s):
    return bool(s.g.get('read_failed') or s.g.get('io_failed'))
