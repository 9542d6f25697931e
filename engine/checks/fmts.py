"""Specifications of the text formats in the vocabulary of the std and base64 contracts."""
from .base import *
from .kit import *
from .glue import *
from . import kit, glue

UC = b'untrusted comment: '
TC = b'trusted comment: '

class Text:
    """the opaque text `name`, its lines and their decodings, as path conditions name them"""
    def __init__(self, ex, name):
        self.ex = ex
        self.name = name

    def has(self, i):
        # a text without characters has no lines
        return T.band_(T.ge(self.ex.srclen(self.name, 0, None), 1), T.buf_('has_line', (self.name, i)))

    def line(self, i):
        n = 'line%d(%s)' % (i, self.name)
        B.src(self.ex, n, utf8=True, nonl=True)
        return rope(n, self.ex.srclen(n, 0, None))

    def trim(self, st, r):
        s = st.copy()
        p = B.h_trim(self.ex, s, None, [kit.byteslice(self.ex, s, r)])
        return self.ex.slice_rope(s, p)

    def unb64(self, st, r):
        """(condition that r is base64, decoded bytes)"""
        if not r.segs or st.decide(T.eq(r.length(), 0)):
            return True, Rope(())
        c = T.buf_('is_base64', (B.key(r),))
        n = 'unb64(%s)' % B.keyname(self.ex, r)
        return c, rope(n, self.ex.srclen(n, 0, None))

    def b64n(self, st, r, n):
        """condition: r is the base64 form of exactly n bytes; and those bytes"""
        c, d = self.unb64(st, r)
        m = (n + 2) // 3 * 4
        return T.band_(c, T.eq(d.length(), n), T.eq(r.length(), m)), d

    def prefix(self, st, r, pat):
        """condition: r starts with pat"""
        n = len(pat)
        src_, off = r.segs[0][1], r.segs[0][2]
        return T.band_(T.ge(r.length(), n), *[T.eq(sbyte(src_, off + i), b) for i, b in enumerate(pat)])

def sub(r, a, n=None):
    s = r.segs[0]
    return Rope((('s', s[1], T.add(s[2], a), T.sub(s[3], a) if n is None else n),))

def bytes_at(r, a, n):
    s = r.segs[0]
    return tuple(sbyte(s[1], T.add(s[2], a + i)) for i in range(n))

def sb_spec(ex, st, name):
    """conditions under which a signature text is accepted, and the box it denotes"""
    t = Text(ex, name)
    l = [t.line(i) for i in range(4)]
    c1, d1 = t.unb64(st, t.trim(st, l[1]))
    c3, d3 = t.unb64(st, t.trim(st, l[3]))
    if not d1.segs:
        return [('signature has 74 bytes', False)], None
    alg = bytes_at(d1, 0, 2)
    old = eqarr(alg, tuple(b'Ed'))
    pre = eqarr(alg, tuple(b'ED'))
    conds = [('line %d present' % i, t.has(i)) for i in range(4)]
    conds += [('untrusted comment prefix', t.prefix(st, l[0], UC)), ('trusted comment prefix', t.prefix(st, l[2], TC)),
              ('signature is base64', c1), ('global signature is base64', c3), ('signature has 74 bytes', T.ge(d1.length(), 74)),
              ('known algorithm', T.bor_(old, pre))]
    box = dict(untrusted=sub(l[0], len(UC)), alg=alg, keynum=bytes_at(d1, 2, 8), sig=bytes_at(d1, 10, 64),
               trusted=sub(l[2], len(TC)), glob=d3, pre=pre)
    return conds, box

def boxf(pr, v, f):
    return field(pr.p, 'minisign::SignatureBox', v, f)

def check_box(pr, s, v, box, what):
    """the SignatureBox value v is the box described by `box`"""
    ex = pr.ex
    pr.prove(s, req(ex, s, vecrope(ex, s, boxf(pr, v, 'untrusted_comment')), box['untrusted']), what + ': untrusted comment')
    pr.prove(s, eqarr(arr(boxf(pr, v, 'signature.sig_alg'), s, 2), box['alg']), what + ': algorithm')
    pr.prove(s, eqarr(arr(boxf(pr, v, 'signature.keynum'), s, 8), box['keynum']), what + ': key identifier')
    pr.prove(s, eqarr(arr(boxf(pr, v, 'signature.sig'), s, 64), box['sig']), what + ': signature')
    p = boxf(pr, v, 'is_prehashed')
    pr.prove(s, T.iff(T.tobool(p) if isinstance(p, Term) else bool(p), box['pre']), what + ': pre-hashed flag')
    tc, gs = boxf(pr, v, 'sig_and_trusted_comment'), boxf(pr, v, 'global_sig')
    if box.get('trusted') is None:
        pr.prove(s, isinstance(tc, En) and tc.v == 0 and isinstance(gs, En) and gs.v == 0, what + ': no trusted comment and no global signature')
        return
    if not (isinstance(tc, En) and isinstance(gs, En)):
        raise Unsupported('optional parts')
    pr.prove(s, tc.v == 1 and gs.v == 1, what + ': trusted comment and global signature present')
    if tc.v == 1:
        pr.prove(s, req(ex, s, vecrope(ex, s, tc.f[0]), Rope((('c', tuple(box['sig'])),)).concat(box['trusted'])), what + ': signature followed by trusted comment')
    if gs.v == 1:
        pr.prove(s, req(ex, s, vecrope(ex, s, gs.f[0]), box['glob']), what + ': global signature')
