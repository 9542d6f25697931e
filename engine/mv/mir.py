"""Loader for the MIR dump and helpers on types/layouts."""
import json

class Fn:
    __slots__ = ('id', 'name', 'kind', 'intr', 'targs', 'loc', 'body', 'rpo', 'headers', 'preds', 'ret')

class Ty:
    __slots__ = ('id', 'kind', 'k', 'size', 'offs', 'variants', 'name', '_tr', '_zst')

class Prog:
    def __init__(self, path):
        self.fns = {}
        self.types = {}
        self.allocs = {}
        self.byname = {}
        self.vt = {}
        for l in open(path):
            j = json.loads(l)
            if j[0] == 'F':
                f = Fn()
                f.id, f.name, f.kind, f.intr, f.targs, f.loc, f.body = j[1:8]
                f.rpo = None
                f.headers = None
                f.ret = f.body['locals'][0] if f.body else None
                self.fns[f.id] = f
                self.byname.setdefault(f.name, []).append(f)
            elif j[0] == 'T':
                t = Ty()
                t.id = j[1]
                t.k = j[2]
                t.kind = j[2][0]
                lay = j[3]
                t.size, t.offs, t.variants = (lay + [None] * 3)[:3] if lay else (None, None, None)
                t.name = j[4]
                t._tr = None
                t._zst = None
                self.types[t.id] = t
            elif j[0] == 'A':
                self.allocs[j[1]] = j[2:]
        self.tyname = {t.name: t for t in self.types.values()}

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def zst(self, i):
        t = self.types[i]
        if t._zst is None:
            if t.kind in ('slice', 'str', 'dyn'):
                t._zst = False
            else:
                t._zst = (t.size == 0)
        return t._zst

    def tail(self, i):
        """the slice type at the end of an unsized struct type, else None"""
        t = self.types[self.strip(i)]
        if t.kind == 'adt' and t.k[2] == 'Struct':
            fs = t.k[3][0][2]
            if fs:
                l = self.types[self.strip(fs[-1])]
                if l.kind == 'slice':
                    return l.id
        return None

    def fields(self, t):
        """field types of a struct/tuple/closure/union (Ty -> list of ty ids)"""
        if t.kind == 'tuple':
            return t.k[1]
        if t.kind == 'closure':
            return t.k[2]
        if t.kind == 'adt' and t.k[2] in ('Struct', 'Union'):
            return t.k[3][0][2]
        return None

    def transparent(self, i):
        """index of the single non-ZST field when values of this type are represented by it, else None"""
        t = self.types[i]
        if t._tr is None:
            t._tr = -1
            if t.kind == 'pat':
                t._tr = 0
            elif t.kind == 'adt' and t.k[2] in ('Struct', 'Union'):
                fs = t.k[3][0][2]
                nz = [n for n, f in enumerate(fs) if not self.zst(f)]
                if len(nz) == 1:
                    t._tr = nz[0]
                elif t.k[2] == 'Union' and nz:
                    t._tr = nz[0]
        return None if t._tr < 0 else t._tr

    def strip(self, i):
        """innermost type after removing transparent wrappers"""
        while True:
            t = self.types[i]
            n = self.transparent(i)
            if n is None:
                return i
            i = t.k[1] if t.kind == 'pat' else t.k[3][0][2][n]

    def pointee(self, i):
        t = self.types[self.strip(i)]
        if t.kind in ('ref', 'ptr'):
            return t.k[1]
        raise KeyError('not a pointer: ' + t.name)

    def intinfo(self, i):
        """(bits, signed) of an integer-like type, or None"""
        t = self.types[self.strip(i)]
        if t.kind == 'int':
            return t.k[1], True
        if t.kind == 'uint':
            return t.k[1], False
        if t.kind == 'char':
            return 32, False
        return None

    def variant(self, t, v):
        """field types of an enum variant"""
        return t.k[3][v][2]

    def unsized_elem(self, i):
        t = self.types[i]
        if t.kind == 'slice':
            return t.k[1]
        if t.kind == 'str':
            return self.tyname['u8'].id
        return None

    # ------------------------------------------------------------ CFG
    def cfg(self, f):
        if f.rpo is not None:
            return
        bl = f.body['blocks']
        succ = [self.succs(t) for _, t in bl]
        order = []
        seen = set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        onst = {0}
        headers = {}
        while st:
            n, it = st[-1]
            for m in it:
                if m in onst:
                    headers.setdefault(m, set()).add(n)
                if m not in seen:
                    seen.add(m)
                    onst.add(m)
                    st.append((m, iter(succ[m])))
                    break
            else:
                st.pop()
                onst.discard(n)
                order.append(n)
        order.reverse()
        f.rpo = {b: n for n, b in enumerate(order)}
        f.headers = headers
        f.preds = {}
        for b in order:
            for s in succ[b]:
                f.preds.setdefault(s, set()).add(b)

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'sw':
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def loop_body(self, f, h):
        """blocks of the natural loop with header h"""
        self.cfg(f)
        body = {h}
        st = list(f.headers[h])
        while st:
            b = st.pop()
            if b in body:
                continue
            body.add(b)
            st.extend(f.preds.get(b, ()))
        return body
