"""C16: generated key material is fresh, whole output of the system's random source."""
from .skf import *
from . import skf, kgen, c14

H = 'mvharness::'
KP = 'minisign::KeyPair'


def t_fresh(kind, write):
    def t(pr):
        ex = pr.ex
        skf.setup(pr)
        st = State(ex)
        enc = kind != 'plain'
        args = []
        if write:
            for i in (1, 2):
                args.append(kit.ref(ex, st, i, 'OpaqueWriter'))
        if enc:
            p, pwr = password(pr, st, kind)
            if write:
                args.append(En(0, ()))
            args.append(p)
        entry = {(0, 0): 'h_gen_unenc', (1, 0): 'h_gen_enc', (0, 1): 'h_write_unencrypted', (1, 1): 'h_write_encrypted'}[(int(enc), int(write))]
        outs = pr.call(H + entry, args, st)
        source = {}
        for k in range(16):
            for i, b in enumerate(barr('rand%d' % k, 256)):
                source[b] = (k, i)
        n = [0, 0]
        def judge(s, v):
            if s.g.get('io_failed') == 'getrandom':
                n[1] += 1
                pr.prove(s, is_err(v), 'the random source fails => an error')
                if write:
                    for i in (1, 2):
                        w = s.g.get(('w', i), Rope(()))
                        pr.prove(s, T.eq(w.length(), 0), 'and nothing is written')
                return
            if not is_ok(v):
                return
            n[0] += 1
            sk = field(pr.p, KP, v.f[0], 'sk')
            d = fields(pr, s, sk)
            plain = crypt(ex, s, d, pwr) if enc else d
            parts = [('seed', plain['keynum_sk.sk'][:32]), ('identifier', plain['keynum_sk.keynum'])]
            if enc:
                parts.append(('salt', d['kdf_salt']))
            seen = {}
            for name, bs in parts:
                bad = [(i, b) for i, b in enumerate(bs) if b not in source]
                const = [i for i, b in bad if isinstance(b, int) or not mentions(b, source)]
                st_ = 'proved' if not bad else 'refuted' if const else 'unknown'
                pr.rec('every byte of the %s is one the random source delivered' % name, st_, 'syntactic', bad[:2])
                again = [(i, b) for i, b in enumerate(bs) if b in seen]
                for i, b in enumerate(bs):
                    seen.setdefault(b, (name, i))
                pr.rec('no byte of the %s is used twice' % name, 'proved' if not again else 'refuted', 'syntactic', again[:2])
            if enc:
                pr.prove(s, eqarr(d['kdf_opslimit_le'], tuple((1 << 20).to_bytes(8, 'little'))), 'the operation limit is the default, 1048576')
                pr.prove(s, eqarr(d['kdf_memlimit_le'], tuple((1 << 25).to_bytes(8, 'little'))), 'the memory limit is the default, 33554432')
        pr.each(outs, judge)
        pr.rec('some pair is generated and some failure of the source is seen (vacuity)', 'proved' if n[0] and n[1] else 'unknown', 'execution')
        pr.flush()
    return t

def mentions(b, source):
    return any(x in source for x in T.subterms(b))

class C16(Check):
    id = 'C16'
    assumptions = ['getrandom::getrandom fills the whole buffer with fresh random bytes or fails',
                   'contracts of BLAKE2b (C06), Ed25519 key generation (C04) and raw_scrypt_params (C11)', 'scrypt::scrypt computes a function of password, salt and parameters']
    trusted = ['native contracts of std/alloc, ct_codecs, scrypt, getrandom, rpassword and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        K = 'minisign::KeyPair::'
        return [(K + 'generate_unencrypted_keypair', t_fresh('plain', False)), (K + 'generate_encrypted_keypair', t_fresh('given', False)),
                (K + 'generate_encrypted_keypair, prompted', t_fresh('typed', False)),
                (K + 'generate_and_write_unencrypted_keypair', t_fresh('plain', True)),
                (K + 'generate_and_write_encrypted_keypair', t_fresh('given', True)),
                (K + 'generate_and_write_encrypted_keypair, prompted', t_fresh('typed', True))]

    def search(self, real, rng, hints, deep):
        return kgen.search_random(real, rng, deep)

CHECK = C16
