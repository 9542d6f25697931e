"""C09: secret keys survive serialization and password protection."""
from .skf import *
from . import skf, kgen, c08, glue

H = 'mvharness::'
DEFAULT = b'rsign encrypted secret key'

def t_from_bytes(pr):
    ex = pr.ex
    st = State(ex)
    n = ex.srclen('bytes', 0, 1 << 40)
    outs = pr.call(H + 'h_sk_from_bytes', [kit.byteslice(ex, st, rope('bytes', n))], st)
    nok = [0]
    def judge(s, v):
        if is_ok(v):
            nok[0] += 1
            pr.prove(s, T.ge(n, LEN), 'accepted => at least 158 bytes')
            pr.prove(s, same_fields(fields(pr, s, v.f[0]), split(barr('bytes', LEN))), 'the fields are the 158 bytes, in order')
        else:
            pr.prove(s, T.lt(n, LEN), 'refused => too short')
    pr.each(outs, judge)
    pr.rec('some bytes are accepted (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
    pr.flush()

def comment_of(ex, s, some):
    return rope('comment', ex.srclen('comment', 0, 1 << 32)) if some else C(DEFAULT)

def optstr(ex, st, some):
    return En(1, (kit.strarg(ex, st, 'comment'),)) if some else En(0, ())

def t_write(pr):
    """bytes, box text, and reading the bytes back"""
    ex = pr.ex
    st = State(ex)
    d = opaque()
    ref = kit.ref(ex, st, mksk(pr, d), SK)
    raw = join(d)
    outs = pr.call(H + 'h_sk_to_bytes', [ref], st.copy())
    pr.rec('to_bytes returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.each(outs, lambda s, v: pr.prove(s, req(ex, s, vecrope(ex, s, v), C(raw)), 'to_bytes: the fields in order, 158 bytes'))
    for some in (False, True):
        s0 = st.copy()
        outs = pr.call(H + 'h_sk_to_box', [ref, optstr(ex, s0, some)], s0)
        pr.rec('to_box returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        def judge(s, v):
            if not is_ok(v):
                return pr.prove(s, False, 'to_box does not fail')
            pr.prove(s, req(ex, s, vecrope(ex, s, v.f[0]), boxtext(pr, s, d, comment_of(ex, s, some))), 'to_box: comment line and base64 line')
        pr.each(outs, judge)
    for s, v in pr.call(H + 'h_sk_keynum', [ref], st.copy()):
        pr.prove(s, req(ex, s, ex.slice_rope(s, v), rope('sk.keynum_sk.keynum', 8)), 'keynum() is the identifier')
    s0 = st.copy()
    outs = pr.call(H + 'h_sk_from_bytes', [kit.byteslice(ex, s0, C(raw))], s0)
    pr.rec('from_bytes returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    pr.each(outs, lambda s, v: pr.prove(s, is_ok(v) and same_fields(fields(pr, s, v.f[0]), d), 'from_bytes(to_bytes(key)) has every field of the key'))
    pr.flush()

def nl_free(ex, some):
    """comments are single lines"""
    if some:
        B.src(ex, 'comment', utf8=True, nonl=True)

def t_reload(some, encrypted):
    """box text of a key with a matching checksum, opened again by both routes"""
    def t(pr):
        skf.setup(pr)
        one(pr, State(pr.ex), True)
        one(pr, State(pr.ex), False)
        pr.flush()
    def one(pr, st, empty):
        ex = pr.ex
        d = opaque(kdf_alg=SC if encrypted else (0, 0))
        d['keynum_sk.chk'] = checksum(ex, st, d)
        nl_free(ex, some)
        n = ex.srclen('pw', 0, None)
        st.assume(T.eq(n, 0) if empty else T.ge(n, 1))
        pw, pwr = password(pr, st, 'given')
        st.assume(limits_ok(d) if encrypted else True)
        e = crypt(ex, st, d, pwr) if encrypted else d
        text = boxtext(pr, st, e, comment_of(ex, st, some))
        nok = [0]
        def right(s, v):
            if not is_ok(v):
                return pr.prove(s, False, 'the box of a valid key opens')
            nok[0] += 1
            pr.prove(s, same_fields(fields(pr, s, v.f[0]), d), 'and gives back every field')
        def wrong(s, v):
            pr.prove(s, is_err(v), 'the other route refuses it')
        for entry, route in (('h_sk_from_box', 1), ('h_sk_box_into', 1), ('h_sk_from_unenc_box', 0), ('h_sk_box_into_unenc', 0)):
            s0 = st.copy()
            a = kit.byteslice(ex, s0, text) if 'into' in entry else kit.vec(ex, s0, text)
            args = [a] + ([pw] if route else [])
            outs = pr.call(H + entry, args, s0)
            pr.rec(entry + ' returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
            pr.each(outs, right if route == encrypted else wrong)
        pr.rec('some key is opened (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
    return t

def t_gen(kind):
    """a generated pair: its box opens with the password (or without one) to the generated key"""
    def t(pr):
        ex = pr.ex
        skf.setup(pr)
        st = State(ex)
        enc = kind != 'plain'
        args = []
        if enc:
            p, entered = password(pr, st, kind)
            args.append(p)
        outs = pr.call(H + ('h_gen_enc' if enc else 'h_gen_unenc'), args, st)
        nok, errs = [0], [0]
        def gen(s, v):
            if not is_ok(v):
                ok = s.g.get('io_failed') or s.g.get('params_err')
                if kind == 'typed' and not ok:
                    return
                return pr.prove(s, bool(ok), 'generation fails only with the random source or the terminal')
            sk = field(pr.p, 'minisign::KeyPair', v.f[0], 'sk')
            d = fields(pr, s, sk)
            pwr = entered if enc else None
            if kind == 'typed':
                r0, r1 = (rope(n, ex.srclen(n, 0, 1 << 32)) for n in ('typed0', 'typed1'))
                pr.prove(s, req(ex, s, r0, r1), 'both entries typed are the same')
            if enc:
                pr.prove(s, eqarr(d['kdf_alg'], SC), 'stored encrypted')
                plain = crypt(ex, s, d, pwr)
            else:
                pr.prove(s, eqarr(d['kdf_alg'], (0, 0)), 'stored unencrypted')
                plain = d
            # the generated key: the one that belongs to the returned public key
            pk = field(pr.p, 'minisign::KeyPair', v.f[0], 'pk')
            seed = plain['keynum_sk.sk'][:32]
            pub = barr(glue.pk_name(ex, s, C(seed)), 32)
            pr.prove(s, eqarr(plain['keynum_sk.sk'][32:], pub), 'the secret is a seed followed by its public half')
            pr.prove(s, eqarr(arr(field(pr.p, 'minisign::PublicKey', pk, 'keynum_pk.pk'), s, 32), pub), 'and belongs to the returned public key')
            pr.prove(s, eqarr(arr(field(pr.p, 'minisign::PublicKey', pk, 'keynum_pk.keynum'), s, 8), plain['keynum_sk.keynum']), 'with the same identifier')
            text = boxtext(pr, s, d, C(DEFAULT))
            ref = kit.ref(ex, s, sk, SK)
            def boxed(s2, b):
                if not is_ok(b):
                    return pr.prove(s2, False, 'to_box does not fail')
                pr.prove(s2, req(ex, s2, vecrope(ex, s2, b.f[0]), text), 'box text')
            pr.each(pr.call(H + 'h_sk_to_box', [ref, En(0, ())], s.copy()), boxed)
            s3 = s.copy()
            s3.g = {}
            def opened(s2, k):
                if not is_ok(k):
                    return pr.prove(s2, False, 'the box opens again')
                nok[0] += 1
                pr.prove(s2, same_fields(fields(pr, s2, k.f[0]), plain), 'and gives back the generated key')
            def refused(s2, k):
                pr.prove(s2, is_err(k), 'the other route refuses it')
            for entry in ('h_sk_from_box', 'h_sk_from_unenc_box'):
                s4 = s3.copy()
                a = [kit.vec(ex, s4, text)]
                if entry == 'h_sk_from_box':
                    a.append(En(1, (kit.vec(ex, s4, pwr if enc else C(b'x')),)))
                good = enc == (entry == 'h_sk_from_box')
                pr.each(pr.call(H + entry, a, s4), opened if good else refused)
        pr.each(outs, gen)
        pr.rec('some generated key is opened again (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
        pr.flush()
    return t

def t_eq(pr):
    """secret keys are equal exactly if their 64 key bytes are"""
    ex = pr.ex
    st = State(ex)
    a, b = (kit.ref(ex, st, mksk(pr, opaque(n)), SK) for n in ('p.', 'q.'))
    c08.same_result(pr, pr.call(H + 'h_sk_eq', [a, b], st), eqarr(barr('p.keynum_sk.sk', 64), barr('q.keynum_sk.sk', 64)))

class C09(Check):
    id = 'C09'
    assumptions = ['contracts of BLAKE2b (C06), Ed25519 key generation (C04) and raw_scrypt_params (C11)', 'scrypt::scrypt computes a function of password, salt and parameters',
                   'ct_codecs::Base64, str::lines and formatting behave as documented']
    trusted = ['native contracts of std/alloc, ct_codecs, scrypt, getrandom, rpassword and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        return [('minisign::SecretKey::from_bytes', t_from_bytes), ('minisign::SecretKey writers', t_write),
                ('SecretKeyBox of an encrypted key, commented', t_reload(True, True)), ('SecretKeyBox of an encrypted key', t_reload(False, True)),
                ('SecretKeyBox of an unencrypted key, commented', t_reload(True, False)), ('SecretKeyBox of an unencrypted key', t_reload(False, False)),
                ('KeyPair::generate_encrypted_keypair', t_gen('given')), ('KeyPair::generate_encrypted_keypair, prompted', t_gen('typed')),
                ('KeyPair::generate_unencrypted_keypair', t_gen('plain')), ('minisign::SecretKeyBox conversions', c08.t_boxes('sk')),
                ('<minisign::SecretKey as PartialEq>::eq', t_eq)]

    def search(self, real, rng, hints, deep):
        return kgen.search_sk(real, rng, deep)

CHECK = C09
