"""C03: raw Ed25519 verification accepts exactly the valid signatures."""
from .base import *
from . import fe, pt, sc, gm, edl, cgen

class C03(Check):
    id = 'C03'
    assumptions = ['sha512::Hash is used through its contract, proved in C07']
    trusted = ['RFC 8032 verification as transcribed in engine/checks/edl.py and engine/checks/ref.py']
    def tasks(self, prog, tier):
        return edl.verify_tasks(prog) + fe.tasks(prog) + pt.tasks(prog) + sc.tasks(prog) + gm.tasks(prog)

    def search(self, real, rng, hints, deep):
        return cgen.search_verify(real, rng, deep, hints)

CHECK = C03
