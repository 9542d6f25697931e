"""C02: every signature the library makes verifies, directly and after storage."""
from .fmts import *
from . import fmts, glue, vfy, skf, sgen
from .vfy import mkpk, reader, io

H = 'mvharness::'
SB = 'minisign::SignatureBox'

def setup(pr, pkmode):
    """a key pair as keypair() makes it (pkmode 'match'), or a secret key and an unrelated public key ('other') or none"""
    ex = pr.ex
    glue.install(pr)
    st = State(ex)
    seed = barr('seed', 32)
    half = barr(glue.pk_name(ex, st, C(seed)), 32)
    kn = barr('sk.keynum', 8)
    d = skf.opaque()
    d['keynum_sk.sk'] = seed + half if pkmode != 'other' else barr('sk.sk', 64)
    d['keynum_sk.keynum'] = kn
    sk = kit.ref(ex, st, skf.mksk(pr, d), skf.SK)
    names = {'sig_alg': barr('pk.sig_alg', 2), 'keynum_pk.keynum': kn, 'keynum_pk.pk': half}
    if pkmode == 'other':
        names.update({'keynum_pk.keynum': barr('pk.keynum', 8), 'keynum_pk.pk': barr('pk.pk', 32)})
    pk = kit.ref(ex, st, build(pr.p, 'minisign::PublicKey', kit.arr_mk('pk.', names)), 'minisign::PublicKey')
    return st, sk, pk, d, names

C = skf.C

def comments(pr, st, t, u):
    """(arguments, what the box must report: None = any single line)"""
    ex = pr.ex
    args, want = [], []
    for given, name in ((t, 'ct'), (u, 'cu')):
        if given:
            args.append(En(1, (kit.strarg(ex, st, name),)))
            B.src(ex, name, utf8=True, nonl=True, nocr=True)
            kit.utf8start(ex, st, name)
            want.append(rope(name, ex.srclen(name, 0, 1 << 32)))
        else:
            args.append(En(0, ()))
            want.append(None)
    return args, want

def F(pr, v, f):
    return field(pr.p, SB, v, f)

def message(ex, st, pre=True):
    N = ex.srclen('data0', 0, None)
    m = rope('data0', N)
    return rope(glue.blake_name(ex, st, 64, m), 64) if pre else m

def parts(pr, s, box):
    """(algorithm, identifier, signature, trusted comment, untrusted comment, global signature)"""
    ex = pr.ex
    sig = arr(F(pr, box, 'signature.sig'), s, 64)
    st_ = F(pr, box, 'sig_and_trusted_comment')
    gl = F(pr, box, 'global_sig')
    if not (isinstance(st_, En) and st_.v == 1 and isinstance(gl, En) and gl.v == 1):
        return None
    sat = vecrope(ex, s, st_.f[0])
    return dict(alg=arr(F(pr, box, 'signature.sig_alg'), s, 2), keynum=arr(F(pr, box, 'signature.keynum'), s, 8), sig=sig, sat=sat,
                untrusted=vecrope(ex, s, F(pr, box, 'untrusted_comment')), glob=vecrope(ex, s, gl.f[0]), pre=F(pr, box, 'is_prehashed'))

def accepted(pr, s, pk, box, data, what):
    """verify(pk, box, data) reports success unless reading the data or printing fails"""
    ex = pr.ex
    s0 = s.copy()
    s0.g = {}
    b = kit.ref(ex, s0, box, SB)
    quiet, output, legacy = [T.bvar(x) for x in ('quiet', 'output', 'allow_legacy')]
    outs = pr.call(H + 'h_verify', [pk, b, reader(pr, s0, data), quiet, output, legacy], s0)
    n = [0]
    def judge(s2, v):
        if is_ok(v):
            n[0] += 1
        elif not io(s2):
            pr.prove(s2, False, 'the signature is accepted by verify (%s)' % what)
    pr.each(outs, judge)
    pr.rec('verify can accept (%s) (vacuity)' % what, 'proved' if n[0] else 'unknown', 'execution')
    return n[0]

def t_sign(pkmode, t, u, store):
    def task(pr):
        ex = pr.ex
        st, sk, pk, d, pkn = setup(pr, pkmode)
        args, want = comments(pr, st, t, u)
        a = [En(0, ()) if pkmode == 'none' else En(1, (pk,)), sk, reader(pr, st)] + args
        outs = pr.call(H + 'h_sign', a, st)
        nok, nver = [0], [0]
        def judge(s, v):
            if not is_ok(v):
                if is_err(v) and not io(s) and pkmode != 'other':
                    pr.prove(s, False, 'signing fails only when the data or randomness cannot be read')
                return
            nok[0] += 1
            x = parts(pr, s, v.f[0])
            if x is None:
                return pr.prove(s, False, 'the new signature carries a trusted comment and a global signature')
            pr.prove(s, glue.allread(ex, s), 'all data was read')
            pr.prove(s, eqarr(x['keynum'], d['keynum_sk.keynum']), 'the signature carries the identifier of the secret key')
            pr.prove(s, eqarr(x['alg'], tuple(b'ED')), 'the signature is marked pre-hashed')
            pr.prove(s, T.iff(x['pre'], True), 'the box is marked pre-hashed')
            sat = C(x['sig'])
            if want[0] is not None:
                pr.prove(s, req(ex, s, x['sat'], sat.concat(want[0])), 'the trusted comment is the one given')
            else:
                pr.prove(s, req(ex, s, bytes_rope(ex, s, x['sat'], 0, 64), sat), 'the trusted comment follows the signature')
            if want[1] is not None:
                pr.prove(s, req(ex, s, x['untrusted'], want[1]), 'the untrusted comment is the one given')
            if pkmode == 'other':
                pr.prove(s, glue.edverify(ex, s, x['sat'], rope('pk.pk', 32), x['glob']), 'signing with a public key succeeds only if that key validates the new signature')
                return
            pk32 = C(pkn['keynum_pk.pk'])
            pr.prove(s, glue.edverify(ex, s, message(ex, s), pk32, C(x['sig'])), 'the signature is valid for the whole data')
            pr.prove(s, glue.edverify(ex, s, x['sat'], pk32, x['glob']), 'the global signature is valid for signature and comment')
            nver[0] += bool(accepted(pr, s, pk, v.f[0], 0, 'box in memory'))
            if not store:
                return
            # bones
            s1 = s.copy()
            def bones(s2, b):
                raw = tuple(b'ED') + d['keynum_sk.keynum'] + x['sig']
                s3 = s2.copy()
                ref = kit.ref(ex, s3, b, 'minisign::SignatureBones')
                def written(s4, w):
                    pr.prove(s4, req(ex, s4, vecrope(ex, s4, w), C(raw)), 'bones: algorithm, identifier and signature')
                pr.each(pr.call(H + 'h_bones_to_bytes', [ref], s3), written)
                pr.each(pr.call(H + 'h_bones_into_box', [b], s2.copy()), lambda s4, bx: accepted(pr, s4, pk, bx, 0, 'bones'))
                s5 = s2.copy()
                def back(s6, r):
                    if not is_ok(r):
                        return pr.prove(s6, False, 'the stored bones are accepted')
                    pr.each(pr.call(H + 'h_bones_into_box', [r.f[0]], s6.copy()), lambda s7, bx: accepted(pr, s7, pk, bx, 0, 'stored bones'))
                pr.each(pr.call(H + 'h_bones_from_bytes', [kit.byteslice(ex, s5, C(raw))], s5), back)
            pr.each(pr.call(H + 'h_box_into_bones', [v.f[0]], s1), bones)
            # text
            s1 = s.copy()
            def text(s2, w):
                tx = vecrope(ex, s2, w)
                s3 = s2.copy()
                def parsed(s4, r):
                    if not is_ok(r):
                        return pr.prove(s4, False, 'the text form is accepted')
                    y = parts(pr, s4, r.f[0])
                    if y is None:
                        return pr.prove(s4, False, 'the comment and the global signature survive')
                    pr.prove(s4, T.band_(eqarr(y['alg'], x['alg']), eqarr(y['keynum'], x['keynum']), eqarr(y['sig'], x['sig']), T.iff(y['pre'], x['pre'])), 'text form: same signature')
                    pr.prove(s4, req(ex, s4, y['sat'], x['sat']), 'text form: same trusted comment')
                    pr.prove(s4, req(ex, s4, y['glob'], x['glob']), 'text form: same global signature')
                    pr.prove(s4, req(ex, s4, y['untrusted'], x['untrusted']), 'text form: same untrusted comment')
                    accepted(pr, s4, pk, r.f[0], 0, 'stored text')
                pr.each(pr.call(H + 'h_sb_from_string', [kit.byteslice(ex, s3, tx)], s3), parsed)
            pr.each(pr.call(H + 'h_sb_to_string', [kit.ref(ex, s1, v.f[0], SB)], s1), text)
        pr.each(outs, judge)
        pr.rec('some signature is made (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
        pr.flush()
    return task

def bytes_rope(ex, st, r, a, n):
    return C(bytes_at(r, a, n))

class C02(Check):
    id = 'C02'
    assumptions = ['contracts of Ed25519 signing, key generation and verification (C03, C04): a signature made with the secret key of a pair verifies under its public half',
                   'contract of BLAKE2b (C06)', 'ct_codecs::Base64, str::lines and formatting behave as documented']
    trusted = ['native contracts of std/alloc, ct_codecs, getrandom and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        out = []
        for t in (True, False):
            for u in (True, False):
                nm = 'minisign::sign [%s trusted, %s untrusted comment]' % ('given' if t else 'default', 'given' if u else 'default')
                out.append((nm, t_sign('none', t, u, True)))
                out.append((nm + ', matching public key', t_sign('match', t, u, False)))
        out.append(('minisign::sign, any public key', t_sign('other', True, True, False)))
        return out

    def search(self, real, rng, hints, deep):
        return sgen.search_sign(real, rng, deep)

CHECK = C02
