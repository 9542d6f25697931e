"""C07: SHA-512 digests match FIPS 180-4 for every input and chunking."""
from .base import *
from . import sha, hgen

class C07(Check):
    id = 'C07'
    assumptions = ['messages are shorter than 2^60 bytes (no message that fits in memory is longer)']
    trusted = ['FIPS 180-4 as transcribed in engine/checks/hashspec.py (its constants are computed; self-test against hashlib on every run)',
               'native contracts of core slices and rustc intrinsics (engine/mv/builtins.py)']

    def tasks(self, prog, tier):
        return [('minisign::crypto::sha512::State::blocks, one block', sha.t_blocks), ('minisign::crypto::sha512::State::blocks', sha.t_blocks_any),
                ('minisign::crypto::sha512::Hash::new', sha.t_new), ('minisign::crypto::sha512::Hash::update', sha.t_update),
                ('minisign::crypto::sha512::Hash::finalize', sha.t_finalize), ('minisign::crypto::sha512::Hash::hash', sha.t_hash),
                ('short histories', sha.t_probe), ('SHA-512, two updates', sha.t_stream(2))] + ([('SHA-512, three updates', sha.t_stream(3), 800)] if tier == 'thorough' else [])

    def search(self, real, rng, hints, deep):
        return hgen.search_sha(real, rng, deep)

CHECK = C07
