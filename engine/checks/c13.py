"""C13: signature files are parsed faithfully."""
from .fmts import *
from . import fmts, sgen

H = 'mvharness::'

def t_from_string(entry):
    def t(pr):
        ex = pr.ex
        st = State(ex)
        if entry == 'h_sb_from_file':
            arg, name = kit.strarg(ex, st, 'path'), 'file'
        elif entry == 'h_sb_from_string2':
            arg, name = kit.string(ex, st, 'text'), 'text'
            ex.on_panic = lambda s, m, w: panics.append(s)
        else:
            arg, name = kit.strarg(ex, st, 'text'), 'text'
        panics = []
        outs = pr.call(H + entry, [arg], st)
        nok = [0]
        def judge(s, v):
            conds, box = sb_spec(ex, s, name)
            if not isinstance(v, En):
                v = En(0, (v,))
            if v.v == 0:
                nok[0] += 1
                if box is None:
                    return [pr.prove(s, c, 'accepted => ' + n) for n, c in conds]
                for n, c in conds:
                    pr.prove(s, c, 'accepted => ' + n)
                check_box(pr, s, v.f[0], box, 'box')
            elif not s.g.get('io_failed'):
                pr.prove(s, T.bnot(T.band_(*[c for _, c in conds])), 'refused => some condition fails')
        pr.each(outs + [(s, En(1, ())) for s in panics], judge)
        pr.rec('some text is accepted (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
        pr.flush()
    return t

def t_bones_from(pr):
    ex = pr.ex
    st = State(ex)
    n = ex.srclen('bytes', 0, 1 << 40)
    arg = kit.byteslice(ex, st, rope('bytes', n))
    outs = pr.call(H + 'h_bones_from_bytes', [arg], st)
    alg = barr('bytes', 2)
    pre, old = eqarr(alg, tuple(b'ED')), eqarr(alg, tuple(b'Ed'))
    F = lambda v, f: field(pr.p, 'minisign::SignatureBones', v, f)
    nok = 0
    for s, v in outs:
        if is_ok(v):
            nok += 1
            v = v.f[0]
            pr.prove(s, T.ge(n, 74), 'accepted => at least 74 bytes')
            pr.prove(s, T.bor_(pre, old), 'accepted => known algorithm')
            pr.prove(s, eqarr(arr(F(v, 'signature.sig_alg'), s, 2) + arr(F(v, 'signature.keynum'), s, 8) + arr(F(v, 'signature.sig'), s, 64), barr('bytes', 74)),
                     'the 74 bytes are kept')
            p = F(v, 'is_prehashed')
            pr.prove(s, T.iff(T.tobool(p) if isinstance(p, Term) else bool(p), pre), 'pre-hashed exactly when the algorithm says so')
        else:
            pr.prove(s, T.bnot(T.band_(T.ge(n, 74), T.bor_(pre, old))), 'refused => too short or unknown algorithm')
    pr.rec('some bytes are accepted (vacuity)', 'proved' if nok else 'unknown', 'execution')
    pr.flush()

def mkbones(pr, st, pre):
    given = {'is_prehashed': pre, 'signature.sig_alg': (ord('E'), ord('D') if pre else ord('d')), 'signature.keynum': barr('box.keynum', 8), 'signature.sig': barr('box.sig', 64)}
    return build(pr.p, 'minisign::SignatureBones', arr_mk('box.', given))

def desc(pre, full=True, ex=None):
    d = dict(untrusted=rope('box.untrusted', ex.srclen('box.untrusted', 0, 1 << 40)) if full else Rope(()), alg=(ord('E'), ord('D') if pre else ord('d')), keynum=barr('box.keynum', 8),
             sig=barr('box.sig', 64), pre=pre)
    if full:
        d['trusted'] = rope('box.trusted', ex.srclen('box.trusted', 0, 1 << 40))
        d['glob'] = rope('box.global', ex.srclen('box.global', 0, 1 << 40))
    return d

def t_bones_conv(pr):
    ex = pr.ex
    from .vfy import some_box
    for pre in (True, False):
        st = State(ex)
        b = mkbones(pr, st, pre)
        raw = Rope((('c', (ord('E'), ord('D') if pre else ord('d')) + barr('box.keynum', 8) + barr('box.sig', 64)),))
        for s, v in pr.call(H + 'h_bones_to_bytes', [kit.ref(ex, st, b, 'minisign::SignatureBones')], st):
            pr.prove(s, req(ex, s, vecrope(ex, s, v), raw), 'bones are written as the 74 bytes')
        for s, v in pr.call(H + 'h_bones_prehashed', [kit.ref(ex, st, b, 'minisign::SignatureBones')], st):
            pr.prove(s, T.iff(v, pre), 'bones report the pre-hashed flag')
        for s, v in pr.call(H + 'h_bones_into_box', [b], st):
            check_box(pr, s, v, desc(pre, False), 'box made from bones')
        for tc, gs in ((True, True), (False, False)):
            st = State(ex)
            x = some_box(pr, st, pre, tc, gs)
            for s, v in pr.call(H + 'h_box_into_bones', [x], st):
                F = lambda f: field(pr.p, 'minisign::SignatureBones', v, f)
                pr.prove(s, eqarr(arr(F('signature.sig_alg'), s, 2) + arr(F('signature.keynum'), s, 8) + arr(F('signature.sig'), s, 64), raw.segs[0][1]),
                         'bones made from a box keep the 74 bytes')
                pr.prove(s, T.iff(F('is_prehashed'), pre), 'bones made from a box keep the flag')
    pr.flush()

def t_accessors(pr):
    ex = pr.ex
    from .vfy import some_box
    for pre in (True, False):
        for full in (True, False):
            st = State(ex)
            r = kit.ref(ex, st, some_box(pr, st, pre, full, full), 'minisign::SignatureBox')
            for s, v in pr.call(H + 'h_sb_keynum', [r], st):
                pr.prove(s, req(ex, s, ex.slice_rope(s, v), rope('box.keynum', 8)), 'keynum()')
            for s, v in pr.call(H + 'h_sb_prehashed', [r], st):
                pr.prove(s, T.iff(v, pre), 'is_prehashed()')
            for s, v in pr.call(H + 'h_sb_untrusted', [r], st):
                pr.prove(s, is_ok(v) and req(ex, s, vecrope(ex, s, v.f[0]), rope('box.untrusted', ex.srclen('box.untrusted', 0, None))), 'untrusted_comment()')
            for s, v in pr.call(H + 'h_sb_trusted', [r], st):
                if full:
                    pr.prove(s, is_ok(v) and req(ex, s, vecrope(ex, s, v.f[0]), rope('box.trusted', ex.srclen('box.trusted', 0, None))), 'trusted_comment()')
                else:
                    pr.prove(s, is_err(v), 'trusted_comment() of bare signatures is an error')
    pr.flush()

def text_of(pr, st, pre):
    """the text form of the box"""
    ex = pr.ex
    raw = (ord('E'), ord('D') if pre else ord('d')) + barr('box.keynum', 8) + barr('box.sig', 64)
    b1 = B.b64_text(ex, st, Rope((('c', raw),)))
    b2 = B.b64_text(ex, st, rope('box.global', ex.srclen('box.global', 0, None)))
    c = lambda x: Rope((('c', tuple(x)),))
    nl = c(b'\n')
    r = c(UC).concat(rope('box.untrusted', ex.srclen('box.untrusted', 0, None))).concat(nl).concat(b1).concat(nl).concat(c(TC))
    return r.concat(rope('box.trusted', ex.srclen('box.trusted', 0, None))).concat(nl).concat(b2).concat(nl)

def t_write(pr):
    """to_string writes the four lines; reading them back gives the box (comments without line breaks)"""
    ex = pr.ex
    from .vfy import some_box
    for pre in (True, False):
        st = State(ex)
        box = some_box(pr, st, pre, True, True)
        for nm in ('box.untrusted', 'box.trusted'):
            B.src(ex, nm, utf8=True, nonl=True, nocr=True)
            kit.utf8start(ex, st, nm)
        r = kit.ref(ex, st, box, 'minisign::SignatureBox')
        for entry, arg in (('h_sb_to_string', r), ('h_sb_to_bytes', r), ('h_sb_into_string', box), ('h_sb_string2', box)):
            outs = pr.call(H + entry, [arg], st)
            pr.rec(entry + ' returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
            for s, v in outs:
                pr.prove(s, req(ex, s, vecrope(ex, s, v), text_of(pr, s, pre)), entry + ' writes comments, signature and global signature on four lines')
        t = kit.byteslice(ex, st, text_of(pr, st, pre))
        outs = pr.call(H + 'h_sb_from_string', [t], st)
        for s, v in outs:
            if not is_ok(v):
                pr.prove(s, False, 'the written text is accepted')
                continue
            check_box(pr, s, v.f[0], desc(pre, True, ex), 'round trip')
    pr.flush()

class C13(Check):
    id = 'C13'
    assumptions = ['str::lines, str::trim, String::from_utf8 and formatting behave as documented', 'ct_codecs::Base64: decode_to_vec is the inverse of encode_to_string '
                   'and fails on anything that is not canonical base64', 'fs::read_to_string returns the file contents or an error']
    trusted = ['native contracts of std/alloc, ct_codecs and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        return [('minisign::SignatureBox::from_string', t_from_string('h_sb_from_string')),
                ('minisign::SignatureBox::from_file', t_from_string('h_sb_from_file')),
                ('<minisign::SignatureBox as From<String>>::from', t_from_string('h_sb_from_string2')),
                ('minisign::SignatureBones::from_bytes', t_bones_from),
                ('SignatureBox <-> SignatureBones', t_bones_conv),
                ('minisign::SignatureBox accessors', t_accessors),
                ('minisign::SignatureBox::to_string', t_write)]

    def search(self, real, rng, hints, deep):
        return sgen.search_parse(real, rng, deep)

CHECK = C13
