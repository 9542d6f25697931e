"""C12: untrusted input never panics."""
from .skf import *
from . import skf, vfy, sgen, kgen, vgen, pgen

H = 'mvharness::'

def call(pr, st, entry, args, what):
    """every path of the entry point: safety obligations (no panic, no overflow, no access out of bounds)"""
    outs = pr.call(H + entry, args, st)
    pr.rec('%s returns (vacuity)' % entry, 'proved' if outs else 'unknown', 'execution')
    return outs

def raw(ex, st):
    return kit.byteslice(ex, st, rope('bytes', ex.srclen('bytes', 0, 1 << 40)))

def path(ex, st):
    return kit.strarg(ex, st, 'path')

def text(ex, st):
    return kit.strarg(ex, st, 'text')

def owned(ex, st):
    return kit.string(ex, st, 'text')

def t_entry(entries, arg, pw=None, then=()):
    def t(pr):
        ex = pr.ex
        skf.setup(pr)
        for entry in entries:
            st = State(ex)
            args = [arg(ex, st)]
            if pw:
                args.append(password(pr, st, pw)[0])
            for s, v in call(pr, st, entry, args, ''):
                if is_ok(v) and then:
                    # whatever was parsed is used
                    ty = then[0]
                    for e in then[1:]:
                        s2 = s.copy()
                        r = kit.ref(ex, s2, v.f[0], ty)
                        pr.call(H + e, [r], s2)
        pr.flush()
    return t

def t_bones(pr):
    ex = pr.ex
    st = State(ex)
    for s, v in call(pr, st, 'h_bones_from_bytes', [raw(ex, st)], ''):
        if not is_ok(v):
            continue
        for e in ('h_bones_to_bytes', 'h_bones_prehashed'):
            s2 = s.copy()
            pr.call(H + e, [kit.ref(ex, s2, v.f[0], 'minisign::SignatureBones')], s2)
        for s3, b in pr.call(H + 'h_bones_into_box', [v.f[0]], s.copy()):
            for e in ('h_sb_keynum', 'h_sb_prehashed', 'h_sb_trusted', 'h_sb_untrusted'):
                s4 = s3.copy()
                pr.call(H + e, [kit.ref(ex, s4, b, 'minisign::SignatureBox')], s4)
            pr.call(H + 'h_box_into_bones', [b], s3.copy())
    pr.flush()

def t_verify(shape):
    def t(pr):
        outs = vfy.run(pr, *shape)[0]
        pr.rec('verify returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
        for s, v in outs:
            pr.rec('verify returns a value or an error', 'proved' if is_ok(v) or is_err(v) else 'unknown', 'execution')
        pr.flush()
    return t

class C12(Check):
    id = 'C12'
    assumptions = ['contracts of ed25519::verify (C03, no panic for a 32-byte key and a signature of any length), BLAKE2b (C06), raw_scrypt_params (C11)',
                   'std, ct_codecs::Base64, scrypt and rpassword return for every input (allocation failure aside)',
                   'converting a String with From / to_string on a box without comments are documented to panic and are not parsing results']
    trusted = ['native contracts of std/alloc, ct_codecs, scrypt, rpassword and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        pku = ('minisign::PublicKey', 'h_pk_keynum', 'h_pk_to_bytes', 'h_pk_to_base64', 'h_pk_to_box')
        sku = ('minisign::SecretKey', 'h_sk_keynum', 'h_sk_to_bytes', 'h_pk_from_sk')
        sbu = ('minisign::SignatureBox', 'h_sb_keynum', 'h_sb_prehashed', 'h_sb_trusted', 'h_sb_untrusted', 'h_sb_to_string', 'h_sb_to_bytes')
        ts = [('minisign::PublicKey::from_bytes', t_entry(['h_pk_from_bytes'], raw, None, pku)),
              ('minisign::PublicKey::from_base64', t_entry(['h_pk_from_base64'], text, None, pku)),
              ('minisign::PublicKey::from_box', t_entry(['h_pk_from_box'], owned, None, pku)),
              ('minisign::PublicKeyBox::into_public_key', t_entry(['h_pk_box_into'], text, None, pku)),
              ('minisign::PublicKey::from_file', t_entry(['h_pk_from_file'], path, None, pku)),
              ('minisign::SecretKey::from_bytes', t_entry(['h_sk_from_bytes'], raw, None, sku)),
              ('minisign::SecretKey::from_unencrypted_box', t_entry(['h_sk_from_unenc_box'], owned, None, sku)),
              ('minisign::SecretKeyBox::into_unencrypted_secret_key', t_entry(['h_sk_box_into_unenc'], text, None, sku)),
              ('minisign::SecretKey::from_box', t_entry(['h_sk_from_box'], owned, 'given', sku)),
              ('minisign::SecretKey::from_box, prompted', t_entry(['h_sk_from_box'], owned, 'typed')),
              ('minisign::SecretKeyBox::into_secret_key', t_entry(['h_sk_box_into'], text, 'given')),
              ('minisign::SecretKey::from_file', t_entry(['h_sk_from_file'], path, 'given')),
              ('minisign::SecretKey::from_file, prompted', t_entry(['h_sk_from_file'], path, 'typed')),
              ('minisign::SignatureBox::from_string', t_entry(['h_sb_from_string'], text, None, sbu)),
              ('minisign::SignatureBox::from_file', t_entry(['h_sb_from_file'], path, None, sbu)),
              ('minisign::SignatureBones', t_bones)]
        return ts + [('minisign::verify [%s]' % vfy.shapename(s), t_verify(s)) for s in vfy.SHAPES]

    def search(self, real, rng, hints, deep):
        return pgen.search(real, rng, deep)

CHECK = C12
