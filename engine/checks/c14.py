"""C14: the two halves of a generated key pair belong together."""
from .skf import *
from . import skf, kgen, c08, glue

H = 'mvharness::'
KP = 'minisign::KeyPair'
PK = 'minisign::PublicKey'

def pkfields(pr, s, v):
    F = lambda n, k: arr(field(pr.p, PK, v, n), s, k)
    return {'sig_alg': F('sig_alg', 2), 'keynum': F('keynum_pk.keynum', 8), 'pk': F('keynum_pk.pk', 32)}

def pktext(pr, s, q):
    raw = C(q['sig_alg'] + q['keynum'] + q['pk'])
    return C(b'untrusted comment: minisign public key: ').concat(c08.hexid(q['keynum'])).concat(C(b'\n')).concat(B.b64_text(pr.ex, s, raw)).concat(C(b'\n'))

def t_pair(kind, write=None):
    def t(pr):
        ex = pr.ex
        skf.setup(pr)
        st = State(ex)
        enc = kind != 'plain'
        args, com = [], None
        if write is not None:
            for i in (1, 2):
                args.append(kit.ref(ex, st, i, 'OpaqueWriter'))
        if enc:
            p, pwr = password(pr, st, kind)
            if write is not None:
                args.append(En(1, (kit.strarg(ex, st, 'comment'),)) if write else En(0, ()))
                com = rope('comment', ex.srclen('comment', 0, 1 << 32)) if write else C(b'rsign encrypted secret key')
            args.append(p)
        entry = {(0, 0): 'h_gen_unenc', (1, 0): 'h_gen_enc', (0, 1): 'h_write_unencrypted', (1, 1): 'h_write_encrypted'}[(int(enc), int(write is not None))]
        outs = pr.call(H + entry, args, st)
        nok = [0]
        def judge(s, v):
            if not is_ok(v):
                return
            nok[0] += 1
            sk = field(pr.p, KP, v.f[0], 'sk')
            q = pkfields(pr, s, field(pr.p, KP, v.f[0], 'pk'))
            d = fields(pr, s, sk)
            plain = crypt(ex, s, d, pwr) if enc else d
            seed = plain['keynum_sk.sk'][:32]
            pr.prove(s, eqarr(d['kdf_alg'], SC if enc else (0, 0)), 'marked encrypted exactly when a password was used')
            pr.prove(s, eqarr(q['keynum'], plain['keynum_sk.keynum']), 'both halves carry the same identifier')
            pr.prove(s, T.band_(eqarr(q['sig_alg'], d['sig_alg']), eqarr(q['sig_alg'], tuple(b'Ed'))), 'both halves carry the same algorithm')
            pr.prove(s, eqarr(q['pk'], plain['keynum_sk.sk'][32:]), 'the public key is the one stored in the secret key')
            pr.prove(s, eqarr(q['pk'], barr(glue.pk_name(ex, s, C(seed)), 32)), 'and the one of the seed')
            pr.prove(s, eqarr(plain['keynum_sk.chk'], checksum(ex, s, plain)), 'the checksum matches')
            if enc:
                pr.prove(s, limits_ok(d), 'the derivation limits are acceptable')
            # the public key regenerated from the (opened) secret key
            s2 = s.copy()
            ref = kit.ref(ex, s2, mksk(pr, plain), SK)
            def again(s3, v3):
                if not is_ok(v3):
                    return pr.prove(s3, False, 'a public key is regenerated from the secret key')
                r = pkfields(pr, s3, v3.f[0])
                pr.prove(s3, T.band_(*[eqarr(r[k], q[k]) for k in q]), 'the regenerated public key is the same')
            pr.each(pr.call(H + 'h_pk_from_sk', [ref], s2), again)
            if write is None:
                return
            w = [s.g.get(('flushed', i), Rope(())) for i in (1, 2)]
            for i in (1, 2):
                pr.prove(s, req(ex, s, s.g.get(('w', i), Rope(())), w[i - 1]), 'everything written is flushed')
            if enc:
                pr.prove(s, req(ex, s, w[0], pktext(pr, s, q)), 'the public key box written is that of the returned public key')
                pr.prove(s, req(ex, s, w[1], boxtext(pr, s, d, com)), 'the secret key box written is that of the returned secret key')
            else:
                pr.prove(s, req(ex, s, w[0], C(q['sig_alg'] + q['keynum'] + q['pk'])), 'the bytes written are those of the returned public key')
                pr.prove(s, req(ex, s, w[1], C(join(d))), 'the bytes written are those of the returned secret key')
        pr.each(outs, judge)
        pr.rec('some pair is generated (vacuity)', 'proved' if nok[0] else 'unknown', 'execution')
        pr.flush()
    return t

def t_from_sk(pr):
    """PublicKey::from_secret_key on any secret key"""
    ex = pr.ex
    st = State(ex)
    d = opaque()
    outs = pr.call(H + 'h_pk_from_sk', [kit.ref(ex, st, mksk(pr, d), SK)], st)
    pr.rec('from_secret_key returns (vacuity)', 'proved' if outs else 'unknown', 'execution')
    def judge(s, v):
        if not is_ok(v):
            return pr.prove(s, False, 'from_secret_key does not fail')
        r = pkfields(pr, s, v.f[0])
        pr.prove(s, T.band_(eqarr(r['sig_alg'], d['sig_alg']), eqarr(r['keynum'], d['keynum_sk.keynum']), eqarr(r['pk'], d['keynum_sk.sk'][32:])),
                 'algorithm, identifier and the stored public half')
    pr.each(outs, judge)
    pr.flush()

class C14(Check):
    id = 'C14'
    assumptions = ['contracts of BLAKE2b (C06), Ed25519 key generation (C04) and raw_scrypt_params (C11)', 'scrypt::scrypt computes a function of password, salt and parameters',
                   'Write::write takes a non-empty prefix of the buffer or fails; write_all writes everything or fails']
    trusted = ['native contracts of std/alloc, ct_codecs, scrypt, getrandom, rpassword and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        K = 'minisign::KeyPair::'
        return [(K + 'generate_unencrypted_keypair', t_pair('plain')), (K + 'generate_encrypted_keypair', t_pair('given')),
                (K + 'generate_encrypted_keypair, prompted', t_pair('typed')),
                (K + 'generate_and_write_unencrypted_keypair', t_pair('plain', False)),
                (K + 'generate_and_write_encrypted_keypair', t_pair('given', False)),
                (K + 'generate_and_write_encrypted_keypair, commented', t_pair('given', True)),
                (K + 'generate_and_write_encrypted_keypair, prompted', t_pair('typed', True)),
                ('minisign::PublicKey::from_secret_key', t_from_sk)]

    def search(self, real, rng, hints, deep):
        return kgen.search_pair(real, rng, deep)

CHECK = C14
