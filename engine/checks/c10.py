"""C10: loading a secret key never yields a key whose checksum does not match."""
from .skf import *
from . import skf, kgen

H = 'mvharness::'

def stored(ex, s, name):
    """the two readings of line 1: as it is, and without surrounding blanks"""
    t = Text(ex, name)
    r = t.line(1)
    return [t.unb64(s, r), t.unb64(s, t.trim(s, r))]

def t_open(entry, route, pwkind='given'):
    def t(pr):
        ex = pr.ex
        skf.setup(pr)
        st = State(ex)
        name = 'text'
        if entry == 'h_sk_from_file':
            a, name = kit.strarg(ex, st, 'path'), 'file'
        elif entry in ('h_sk_box_into', 'h_sk_box_into_unenc'):
            a = kit.strarg(ex, st, 'text')
        else:
            a = kit.string(ex, st, 'text')
        args, pw = [a], None
        if route == 'password':
            p, pw = password(pr, st, pwkind)
            args.append(p)
        outs = pr.call(H + entry, args, st)
        tt = Text(ex, name)
        nok = [0]
        def judge(s, v):
            if not is_ok(v):
                if v.v != 1:
                    raise Unsupported('result')
                return
            nok[0] += 1
            for i in (0, 1):
                pr.prove(s, tt.has(i), 'opened => both lines are present')
            got = fields(pr, s, v.f[0])
            ks = []
            for c, d in stored(ex, s, name):
                if not d.segs:
                    continue
                f = split(bytes_at(d, 0, LEN))
                k = [c, T.ge(d.length(), LEN)]
                if route == 'password':
                    k += [eqarr(f['kdf_alg'], SC), same_fields(got, crypt(ex, s, f, pw))]
                else:
                    k += [eqarr(f['kdf_alg'], (0, 0)), same_fields(got, f)]
                ks.append(T.band_(*k))
            pr.prove(s, T.bor_(*ks), 'opened => base64 of at least 158 bytes marked %s, and the key is %s'
                     % (('encrypted', 'these bytes decrypted with the password') if route == 'password' else ('unencrypted', 'these bytes')))
            pr.prove(s, eqarr(got['keynum_sk.chk'], checksum(ex, s, got)), 'opened => the checksum is BLAKE2b-256 of algorithm, identifier and key')
            pr.prove(s, len(s.g.get('scrypt', ())) == (1 if route == 'password' else 0), 'opened => exactly one key derivation (none for unencrypted keys)')
        pr.each(outs, judge)
        pr.rec('some key is opened (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
        pr.flush()
    return t

class C10(Check):
    id = 'C10'
    assumptions = ['contract of BLAKE2b (C06) and of raw_scrypt_params (C11)', 'scrypt::scrypt computes a function of password, salt and parameters',
                   'ct_codecs::Base64, str::lines and formatting behave as documented']
    trusted = ['native contracts of std/alloc, ct_codecs, scrypt, rpassword and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        return [('minisign::SecretKey::from_box', t_open('h_sk_from_box', 'password')),
                ('minisign::SecretKey::from_box, prompted', t_open('h_sk_from_box', 'password', 'typed')),
                ('minisign::SecretKeyBox::into_secret_key', t_open('h_sk_box_into', 'password')),
                ('minisign::SecretKeyBox::into_secret_key, prompted', t_open('h_sk_box_into', 'password', 'typed')),
                ('minisign::SecretKey::from_file', t_open('h_sk_from_file', 'password')),
                ('minisign::SecretKey::from_file, prompted', t_open('h_sk_from_file', 'password', 'typed')),
                ('minisign::SecretKey::from_unencrypted_box', t_open('h_sk_from_unenc_box', 'unencrypted')),
                ('minisign::SecretKeyBox::into_unencrypted_secret_key', t_open('h_sk_box_into_unenc', 'unencrypted'))]

    def search(self, real, rng, hints, deep):
        return kgen.search_open(real, rng, deep)

CHECK = C10
