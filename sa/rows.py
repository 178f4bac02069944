"""The transfer function of one loop round, as a table."""
from sa.term import *
from sa.state import *
from sa.loops import delta


class Round:
    def __init__(self, rec, part):
        self.rec, self.part, self.L = rec, part, rec.loop
        self.hs = self.L.head(part)
        self.rows = []
        for i, o in enumerate(part.outs):
            self.rows.append((i, o[0], o[1], delta(o[1], self.hs)))

    def nums(self):
        """[(atom, is an iterator position)]"""
        return [(x, 'it' in path) for path, (x, k) in self.part.atoms.items() if k == 'num' and x not in self.part.alias]

    def seqs(self):
        return [x for path, (x, k) in self.part.atoms.items() if k == 'seq' and x not in self.part.alias]

    def after(self, st):
        """{atom: value after the round}"""
        return self.L.match(self.part, {c: st.cells[c] for c in self.part.cells})

    def slices(self):
        """slice iterators among the loop's cells whose position moves: (iterator, position atom)"""
        out = []
        own = {x for x, it in self.nums()}
        for c, v in self.part.cells.items():
            for t in mentions(v):
                if t.op == 'it' and t.a[0] == 'slice':
                    for x in own:
                        if x in mentions(t.a[3]):
                            out.append((t, x))
        return out

    @staticmethod
    def suffix(x, v):
        """what a sequence atom gained, or None"""
        pre = mk('sub', x, ZERO, atom(mk('len', x), 0, MAXLEN))
        if v.op == 'seq' and v.a and v.a[0] is pre:
            return seq(*v.a[1:])
        return None


def rounds(eng, where=None):
    """all rounds of all loops of an analysis (optionally of one function)"""
    out = []
    for site, rec in eng.lastloops.items():
        if where and where not in rec.where:
            continue
        for p in rec.parts:
            out.append(Round(rec, p))
    return out


def target(rd, st):
    """the partition a round leads to"""
    from sa.loops import shape
    L = rd.L
    cells = {}
    for c in L.keys:
        if c in st.cells:
            cells[c] = L.norm(st, st.cells[c], L.st0.cells[c])
    sh = tuple((c, shape(L.eng, st, v, L.st0.cells[c])) for c, v in cells.items())
    p = L.parts.get(sh)
    return p.idx if p else None
