"""C04: key generation and signing compute the Ed25519 functions exactly."""
from .base import *
from . import fe, pt, sc, gm, edl, cgen

class C04(Check):
    id = 'C04'
    assumptions = ['sha512::Hash is used through its contract, proved in C07']
    trusted = ['RFC 8032 key generation and signing as transcribed in engine/checks/edl.py and engine/checks/ref.py']
    def tasks(self, prog, tier):
        return edl.sign_tasks(prog) + fe.tasks(prog) + pt.tasks(prog) + sc.tasks(prog) + gm.tasks(prog)

    def search(self, real, rng, hints, deep):
        return cgen.search_sign(real, rng, deep)

CHECK = C04
