"""Secret keys: fields, stored forms and encryption, as specifications."""
from .fmts import *
from .c11 import PARAMS, GIB, params_contract, params_ok, params_value
from . import glue, kit

SK = 'minisign::SecretKey'
FIELDS = (('sig_alg', 2), ('kdf_alg', 2), ('chk_alg', 2), ('kdf_salt', 32), ('kdf_opslimit_le', 8), ('kdf_memlimit_le', 8),
          ('keynum_sk.keynum', 8), ('keynum_sk.sk', 64), ('keynum_sk.chk', 32))
LEN = 158
SC = tuple(b'Sc')
C = lambda x: Rope((('c', tuple(x)),)) if len(x) else Rope(())

def split(raw):
    """fields of the 158 bytes"""
    d, o = {}, 0
    for n, k in FIELDS:
        d[n] = tuple(raw[o:o + k])
        o += k
    return d

def join(d):
    return tuple(x for n, _ in FIELDS for x in d[n])

def fields(pr, s, v):
    return {n: arr(field(pr.p, SK, v, n), s, k) for n, k in FIELDS}

def mksk(pr, d):
    def mk(path, t):
        return d.get(path)
    return build(pr.p, SK, mk)

def opaque(prefix='sk.', **given):
    return {n: given.get(n.split('.')[-1], barr(prefix + n, k)) for n, k in FIELDS}

def checksum(ex, st, d):
    nm = glue.blake_name(ex, st, 32, C(d['sig_alg'] + d['keynum_sk.keynum'] + d['keynum_sk.sk']))
    return barr(nm, 32)

def stream(ex, st, d, pw):
    """the 104 bytes derived from the password under the limits stored in the key"""
    prm = params_value(ex, le(d['kdf_memlimit_le']), le(d['kdf_opslimit_le']))
    nm = 'scrypt(%s)' % B.scrypt_name(ex, B.canon(ex, st, kit.simp(st, Rope(B.key(pw)))), Rope(B.key(C(d['kdf_salt']))), prm)
    return barr(nm, 104)

def crypt(ex, st, d, pw):
    """encrypt or decrypt: identifier, key and checksum xored with the stream"""
    s = stream(ex, st, d, pw)
    r = dict(d)
    o = 0
    for n in ('keynum_sk.keynum', 'keynum_sk.sk', 'keynum_sk.chk'):
        r[n] = tuple(T.b_xor(a, b) for a, b in zip(d[n], s[o:o + len(d[n])]))
        o += len(d[n])
    return r

def limits_ok(d):
    mem, ops = le(d['kdf_memlimit_le']), le(d['kdf_opslimit_le'])
    return T.band_(T.le(mem, GIB), params_ok(mem, ops))

def same_fields(d, e):
    return T.band_(*[eqarr(d[n], e[n]) for n, _ in FIELDS])

def boxtext(pr, st, d, comment):
    return C(b'untrusted comment: ').concat(comment).concat(C(b'\n')).concat(B.b64_text(pr.ex, st, C(join(d)))).concat(C(b'\n'))

def setup(pr):
    """callees under contract: BLAKE2b (C06), raw_scrypt_params (C11), Ed25519 (C03, C04)"""
    glue.install(pr)
    pr.get(PARAMS)
    pr.ex.contracts[PARAMS] = params_contract

def password(pr, st, kind):
    """(argument, contents) of an optional password"""
    ex = pr.ex
    if kind == 'given':
        a = kit.string(ex, st, 'pw')
        return En(1, (a,)), rope('pw', ex.srclen('pw', 0, None))
    return En(0, ()), rope('typed0', ex.srclen('typed0', 0, 1 << 32))
