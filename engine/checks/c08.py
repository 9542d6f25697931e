"""C08: public keys survive every serialization and bad encodings are refused."""
from .fmts import *
from . import fmts, sgen, kgen

H = 'mvharness::'
PK = 'minisign::PublicKey'

def pkbytes(pr, s, v):
    F = lambda f: field(pr.p, PK, v, f)
    return arr(F('sig_alg'), s, 2) + arr(F('keynum_pk.keynum'), s, 8) + arr(F('keynum_pk.pk'), s, 32)

def mkpk(pr, st):
    names = {'sig_alg': barr('pk.sig_alg', 2), 'keynum_pk.keynum': barr('pk.keynum', 8), 'keynum_pk.pk': barr('pk.pk', 32)}
    return build(pr.p, PK, arr_mk('pk.', names))

RAW = barr('pk.sig_alg', 2) + barr('pk.keynum', 8) + barr('pk.pk', 32)
C = lambda x: Rope((('c', tuple(x)),)) if len(x) else Rope(())

def hexdig(d):
    return T.ite(T.lt(d, 10), T.add(d, 48), T.add(d, 55))

def hexid(kn):
    """16 upper-case hexadecimal digits of the identifier, most significant first"""
    out = []
    for b in reversed(kn):
        out += [hexdig(T.div(b, 16)), hexdig(T.mod(b, 16))]
    return C(out)

def t_from_bytes(pr):
    ex = pr.ex
    st = State(ex)
    n = ex.srclen('bytes', 0, 1 << 40)
    outs = pr.call(H + 'h_pk_from_bytes', [kit.byteslice(ex, st, rope('bytes', n))], st)
    nok = [0]
    def judge(s, v):
        if is_ok(v):
            nok[0] += 1
            pr.prove(s, T.ge(n, 42), 'accepted => at least 42 bytes')
            pr.prove(s, eqarr(pkbytes(pr, s, v.f[0]), barr('bytes', 42)), 'algorithm, identifier and key are the 42 bytes')
        else:
            pr.prove(s, T.lt(n, 42), 'refused => too short')
    pr.each(outs, judge)
    pr.rec('some bytes are accepted (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
    pr.flush()

def t_from_base64(pr):
    ex = pr.ex
    st = State(ex)
    arg = kit.strarg(ex, st, 'text')
    outs = pr.call(H + 'h_pk_from_base64', [arg], st)
    judge_text(pr, outs, lambda s: rope('text', ex.srclen('text', 0, None)), 'text', ())

def judge_text(pr, outs, body, name, lines, io=False):
    ex = pr.ex
    t = Text(ex, name)
    nok = [0]
    def judge(s, v):
        r = body(s)
        pre = [t.has(i) for i in lines]
        tr = t.trim(s, r)
        c0, d0 = t.b64n(s, r, 42)
        c1, d1 = t.b64n(s, tr, 42)
        if is_ok(v):
            nok[0] += 1
            for c in pre:
                pr.prove(s, c, 'accepted => both lines are present')
            got = pkbytes(pr, s, v.f[0])
            k0 = T.band_(c0, eqarr(got, bytes_at(d0, 0, 42)) if d0.segs else False)
            k1 = T.band_(c1, eqarr(got, bytes_at(d1, 0, 42)) if d1.segs else False)
            pr.prove(s, T.bor_(k0, k1), 'accepted => base64 (blanks aside) of exactly 42 bytes, which are the key')
        elif not (io and s.g.get('io_failed')):
            # text that is base64 of 42 bytes has no blanks to trim
            pr.prove(s, T.bnot(T.band_(*pre, c0, c1, req(ex, s, d0, d1) if False else True)), 'refused => not the base64 form of 42 bytes')
    pr.each(outs, judge)
    pr.rec('some text is accepted (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
    pr.flush()

def t_from_box(entry):
    def t(pr):
        ex = pr.ex
        st = State(ex)
        name = 'text'
        if entry == 'h_pk_from_file':
            arg, name = kit.strarg(ex, st, 'path'), 'file'
        elif entry == 'h_pk_box_into':
            arg = kit.strarg(ex, st, 'text')
        else:
            arg = kit.string(ex, st, 'text')
        outs = pr.call(H + entry, [arg], st)
        tt = Text(ex, name)
        judge_text(pr, outs, lambda s: tt.line(1), name, (0, 1), True)
    return t

def boxtext(pr, st):
    return C(b'untrusted comment: minisign public key: ').concat(hexid(barr('pk.keynum', 8))).concat(C(b'\n')).concat(B.b64_text(pr.ex, st, C(RAW))).concat(C(b'\n'))

def t_write(pr):
    ex = pr.ex
    st = State(ex)
    ref = kit.ref(ex, st, mkpk(pr, st), PK)
    def one(entry, want, res=False):
        outs = pr.call(H + entry, [ref], st.copy())
        pr.rec(entry + ' returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        def judge(s, v):
            if res:
                if not is_ok(v):
                    return pr.prove(s, False, entry + ' does not fail')
                v = v.f[0]
            pr.prove(s, req(ex, s, vecrope(ex, s, v), want(s)), entry + ' writes the specified form')
        pr.each(outs, judge)
    one('h_pk_to_bytes', lambda s: C(RAW))
    one('h_pk_to_base64', lambda s: B.b64_text(ex, s, C(RAW)))
    one('h_pk_to_box', lambda s: boxtext(pr, s), True)
    for s, v in pr.call(H + 'h_pk_keynum', [ref], st.copy()):
        pr.prove(s, req(ex, s, ex.slice_rope(s, v), rope('pk.keynum', 8)), 'keynum()')
    # and back
    def back(entry, arg):
        s0 = st.copy()
        outs = pr.call(H + entry, [arg(s0)], s0)
        pr.rec(entry + ' returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        def judge(s, v):
            if not is_ok(v):
                return pr.prove(s, False, entry + ' reads back what was written')
            pr.prove(s, eqarr(pkbytes(pr, s, v.f[0]), RAW), entry + ' reads back the same key')
        pr.each(outs, judge)
    back('h_pk_from_bytes', lambda s: kit.byteslice(ex, s, C(RAW)))
    back('h_pk_from_base64', lambda s: kit.byteslice(ex, s, B.b64_text(ex, s, C(RAW))))
    back('h_pk_from_box', lambda s: kit.vec(ex, s, boxtext(pr, s)))
    back('h_pk_box_into', lambda s: kit.byteslice(ex, s, boxtext(pr, s)))
    pr.flush()

def t_boxes(kind):
    def t(pr):
        ex = pr.ex
        st = State(ex)
        for e in ('string', 'string2', 'to_bytes'):
            s0 = st.copy()
            outs = pr.call(H + 'h_%sbox_%s' % (kind, e), [kit.string(ex, s0, 'text')], s0)
            pr.each(outs, lambda s, v: pr.prove(s, req(ex, s, vecrope(ex, s, v), rope('text', ex.srclen('text', 0, None))), 'box holds exactly its text (%s)' % e))
        pr.flush()
    return t

def t_eq(pr):
    """keys are equal exactly if their 32 key bytes are"""
    ex = pr.ex
    st = State(ex)
    mk = lambda n: build(pr.p, PK, arr_mk(n + '.', {'sig_alg': barr(n + '.a', 2), 'keynum_pk.keynum': barr(n + '.n', 8), 'keynum_pk.pk': barr(n + '.k', 32)}))
    a, b = kit.ref(ex, st, mk('p'), PK), kit.ref(ex, st, mk('q'), PK)
    same_result(pr, pr.call(H + 'h_pk_eq', [a, b], st), eqarr(barr('p.k', 32), barr('q.k', 32)))

def same_result(pr, outs, want):
    pr.rec('the comparison returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    def judge(s, v):
        c = T.ne(v, 0) if not isinstance(v, bool) else v
        pr.prove(s, T.bor_(T.bnot(c), want), 'reported equal => the key bytes are equal')
        pr.prove(s, T.bor_(c, T.bnot(want)), 'the key bytes are equal => reported equal')
    pr.each(outs, judge)
    pr.flush()

class C08(Check):
    id = 'C08'
    assumptions = ['str::lines, str::trim and formatting behave as documented', 'ct_codecs::Base64: decode_to_vec is the inverse of encode_to_string '
                   'and fails on anything that is not canonical base64', 'fs::read_to_string returns the file contents or an error']
    trusted = ['native contracts of std/alloc, ct_codecs and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        return [('minisign::PublicKey::from_bytes', t_from_bytes), ('minisign::PublicKey::from_base64', t_from_base64),
                ('minisign::PublicKey::from_box', t_from_box('h_pk_from_box')), ('minisign::PublicKeyBox::into_public_key', t_from_box('h_pk_box_into')),
                ('minisign::PublicKey::from_file', t_from_box('h_pk_from_file')), ('minisign::PublicKey writers and round trip', t_write),
                ('minisign::PublicKeyBox conversions', t_boxes('pk')), ('<minisign::PublicKey as PartialEq>::eq', t_eq)]

    def search(self, real, rng, hints, deep):
        return kgen.search_pk(real, rng, deep)

CHECK = C08
