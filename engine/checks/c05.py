"""C05: exact curve and scalar arithmetic without overflow."""
from .base import *
from . import fe, pt, sc, gm, cgen

class C05(Check):
    id = 'C05'
    assumptions = ['the twisted Edwards addition law with a = -1 (a square modulo p) and d a nonsquare is complete and associative; both facts about the constants are evaluated, the theorem (Bernstein, Birkner, Joye, Lange, Peters 2008) is assumed',
                   "Euler's criterion and the square-root step of RFC 8032 5.1.3 for p = 5 mod 8"]
    trusted = ['the curve constants p, d, sqrt(-1), L and B as transcribed in engine/checks/ref.py']
    def tasks(self, prog, tier):
        return fe.tasks(prog) + pt.tasks(prog) + sc.tasks(prog) + gm.tasks(prog)

    def search(self, real, rng, hints, deep):
        return cgen.search_arith(real, rng, deep, hints)

CHECK = C05
