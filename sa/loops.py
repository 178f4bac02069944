"""Loop stabilisation: head partitions by shape, anti-unification, linear invariants, and
closed forms (maps, sums, first-match) for full traversals."""
from sa.term import *
from sa.state import *
from sa.engine import LoopRec, Part, Unsupported, Budget

NOATOM = object()


def foreign(v, site):
    return any(x.op == 'h' and x.a[0] == site for x in mentions(v))


MAPS = ('hmnew', 'hmins')


def shape(eng, st, v, v0):
    """skeleton of a value; opaque enums count as their variant only when changed in the loop"""
    o = v.op
    if o in MAPS:
        return 'o'
    if o in eng.OPAQUE:
        if v is v0:
            return 'o'
        w = eng.expand(st, v)
        if w.op == 'adt':
            return shape(eng, st, w, None)
        return 'o'
    if o == 'adt':
        sub0 = v0.a[2:] if v0 is not None and v0.op == 'adt' and v0.a[:2] == v.a[:2] else (None,) * 99
        return ('a', v.a[0], v.a[1]) + tuple(shape(eng, st, x, y) for x, y in zip(v.a[2:], sub0))
    if o == 'lin':
        return 'n'
    if o in ('T', 'F'):
        return o if v is not v0 else o
    if o in FORMULA:
        return 'b'
    if o == 'seq':
        return 's'
    if o == 'ref':
        return ('r', shape(eng, st, v.a[0], v0.a[0] if v0 is not None and v0.op == 'ref' else None))
    if o == 'it':
        sub0 = v0.a if v0 is not None and v0.op == 'it' and v0.a[0] == v.a[0] and len(v0.a) == len(v.a) else (None,) * 99
        return ('it', v.a[0]) + tuple(shape(eng, st, x, y) if isinstance(x, T) else x
                                      for x, y in zip(v.a[1:], sub0[1:]))
    if o == 'mref':
        return v
    return o


class Loop:
    def __init__(self, eng, st0, site, body, where):
        self.eng, self.st0, self.site, self.body, self.where = eng, st0, site, body, where
        self.parts, self.order = {}, []
        self.keys = [c for c in st0.cells]

    # -------------------------------------------------------- partitions
    def norm(self, st, v, v0):
        """expand changed opaque enums of known variant"""
        eng = self.eng
        if v is v0:
            return v
        if v.op in eng.OPAQUE:
            w = eng.expand(st, v)
            if w.op == 'adt':
                return self.norm(st, w, None)
            return v
        if v.op == 'adt':
            s0 = v0.a[2:] if v0 is not None and v0.op == 'adt' and v0.a[:2] == v.a[:2] else (None,) * 99
            return mk('adt', *(v.a[:2] + tuple(self.norm(st, x, y) for x, y in zip(v.a[2:], s0))))
        if v.op == 'ref':
            return mk('ref', self.norm(st, v.a[0], v0.a[0] if v0 is not None and v0.op == 'ref' else None))
        if v.op == 'it':
            return mk('it', *(v.a[:1] + tuple(self.norm(st, x, None) if isinstance(x, T) else x for x in v.a[1:])))
        return v

    def enter(self, st):
        eng = self.eng
        cells = {}
        for c in self.keys:
            if c in st.cells:
                cells[c] = self.norm(st, st.cells[c], self.st0.cells[c])
        sh = tuple((c, shape(eng, st, v, self.st0.cells[c])) for c, v in cells.items()
                   if v is not self.st0.cells[c] or True)
        p = self.parts.get(sh)
        changed = False
        if p is None:
            if len(self.parts) >= 40:
                raise Unsupported('too many loop partitions at %s' % self.where)
            p = Part()
            p.shape, p.idx = sh, len(self.parts)
            p.atoms, p.cands, p.dropped, p.inc, p.outs, p.alias = {}, set(), set(), [], [], {}
            p.keep, p.kept = {}, False
            p.gen = False
            self.parts[sh] = p
            self.order.append(p)
            p.cells = {}
            for c, v in cells.items():
                p.cells[c] = self.au(p, v, v, (c,), self.cty(c))
            changed = True
        else:
            for c in list(p.cells):
                v = self.au(p, p.cells[c], cells[c], (c,), self.cty(c))
                if v is not p.cells[c]:
                    p.cells[c] = v
                    changed = True
        if changed:
            p.gen = False
        p.inc.append((st, cells))
        return changed

    def cty(self, c):
        fr = self.eng.frames.get(c[0]) if isinstance(c[0], int) else None
        return fr.body['locals'][c[1]] if fr else None

    def au(self, p, a, b, path, ty):
        if path in p.atoms:
            return a
        o = a.op
        if a is b and not foreign(a, self.site):
            return a
        eng = self.eng
        if o == 'adt':
            fs = None
            t = eng.types[a.a[0]]
            if t['k'] in ('tuple', 'adt'):
                try:
                    fs = eng.fields(a.a[0], a.a[1])
                except Exception:
                    fs = None
            if t['k'] in ('closure',):
                fs = None
            return mk('adt', *(a.a[:2] + tuple(
                self.au(p, x, y, path + (i,), fs[i] if fs and i < len(fs) else None)
                for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])))))
        if o == 'ref':
            return mk('ref', self.au(p, a.a[0], b.a[0], path + ('r',), None))
        if o == 'it':
            return mk('it', *(a.a[:1] + tuple(
                self.au(p, x, y, path + ('it', i), 'pos') if isinstance(x, T) else x
                for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])))))
        x = mk('h', self.site, p.idx, path, ty if isinstance(ty, int) else -1) if o not in eng.OPAQUE else \
            mk('h', self.site, p.idx, path, a.a[-1])
        if o == 'lin':
            if ty == 'pos':
                v = atom(x, 0, MAXLEN)
            elif isinstance(ty, int) and eng.bounds(ty):
                v = atom(x, *eng.bounds(ty))
            else:
                v = atom(x)
            p.atoms[path] = (x, 'num')
            return v
        if o == 'seq':
            v = self.au_view(p, a, b, path)
            if v is not None:
                return v
            for q in [q for q in p.atoms if q[:len(path)] == path]:
                del p.atoms[q]
            p.atoms[path] = (x, 'seq')
            return whole(x)
        if o in FORMULA:
            p.atoms[path] = (x, 'bool')
            return mk('p', x)
        if o in eng.OPAQUE or o in MAPS:
            p.atoms[path] = (x, 'opq')
            return x
        raise Unsupported('cannot generalise %s at a loop head (%s)' % (o, self.where))

    def au_view(self, p, a, b, path):
        """two views of the same text: the text stays, the ends become numbers"""
        if 'r' not in path or len(a.a) != 1 or a.a[0].op != 'sub' or len(b.a) > 1:
            return None
        B, lo, hi = a.a[0].a
        if foreign(B, self.site):
            return None
        if not b.a:
            L = atom(mk('len', B), 0, MAXLEN) if B.op != 'seq' else seqlen(B)
            lo2 = hi2 = L
        elif b.a[0].op == 'sub' and b.a[0].a[0] is B:
            lo2, hi2 = b.a[0].a[1:]
        else:
            return None
        return seq(mk('sub', B, self.au(p, lo, lo2, path + (('v', 1, B),), 'pos'), self.au(p, hi, hi2, path + (('v', 2, B),), 'pos')))

    def at(self, cells, path):
        v = cells[path[0]]
        i = 1
        while i < len(path):
            e = path[i]
            if e == 'r':
                v = v.a[0]
            elif e == 'it':
                i += 1
                v = v.a[1 + path[i]]
            elif isinstance(e, tuple):
                if v.op != 'seq' or len(v.a) > 1 or (v.a and (v.a[0].op != 'sub' or v.a[0].a[0] is not e[2])):
                    raise KeyError(path)
                v = v.a[0].a[e[1]] if v.a else atom(mk('len', e[2]), 0, MAXLEN)
            else:
                v = v.a[2 + e]
            i += 1
        return v

    def match(self, p, cells):
        m = {}
        for path, (x, kind) in p.atoms.items():
            try:
                v = self.at(cells, path)
            except (KeyError, IndexError):
                continue
            if kind == 'bool':
                m[mk('p', x)] = v
            elif kind == 'seq':
                m[mk('sub', x, ZERO, atom(mk('len', x), 0, MAXLEN))] = v
                m[mk('len', x)] = seqlen(v)
                m[x] = v
            else:
                m[x] = v
        return m

    def head(self, p):
        s = St()
        s.cells = {c: subst(v, p.alias) if p.alias else v for c, v in p.cells.items()}
        s.lits, s.disc, s.lin = dict(self.st0.lits), dict(self.st0.disc), self.st0.lin
        s.fail, s.bad, s.trail = self.st0.fail, self.st0.bad, self.st0.trail
        for L in sorted(p.cands, key=lambda t: t.id):
            L = subst(L, p.alias) if p.alias else L
            if not s.entails(L):
                s.lin = s.lin + (L,)
        for (lit, f), v in p.keep.items():
            (s.lits if lit else s.disc)[f] = v
        return s

    def keepers(self, p, old=None):
        """facts without quantities of this loop that hold on every incoming edge"""
        if not p.inc:
            return {}
        out = None
        for st, cells in p.inc:
            if out is None:
                out = {}
                for i, fs, own in ((0, st.disc, self.st0.disc), (1, st.lits, self.st0.lits)):
                    for f, v in fs.items():
                        if f not in own and not foreign(f, self.site) and (old is None or old.get((i, f)) == v):
                            out[i, f] = v
            else:
                out = {(i, f): v for (i, f), v in out.items() if (st.lits if i else st.disc).get(f) == v}
        return out

    # -------------------------------------------------------- invariants
    def vars(self, p):
        out = []
        for path, (x, kind) in p.atoms.items():
            if kind == 'num':
                out.append(lin(0, ((x, 1),)))
            elif kind == 'seq':
                out.append(atom(mk('len', x), 0, MAXLEN))
        return out

    def templates(self, p):
        V = self.vars(p)[:12]
        st, cells = p.inc[0]
        m = self.match(p, cells)
        out = set()
        W = V + [ZERO]
        eng_sums = self.eng.sums
        for x in V:
            ex = subst(x, m)
            if not foreign(ex, self.site) and ex.op == 'lin':
                out.add(sub(x, ex))
                out.add(sub(ex, x))
            for y in W:
                if y is x:
                    continue
                ey = subst(y, m)
                if eng_sums and y is not ZERO:
                    e2 = add(ex, ey)
                    if e2.op == 'lin' and not foreign(e2, self.site):
                        out.add(sub(add(x, y), e2))
                        out.add(sub(e2, add(x, y)))
                d = sub(ex, ey)
                for c in {0, 1, -1} | ({d.a[0]} if isnum(d) else set()):
                    out.add(sub(sub(x, y), num(c)))
                    if y is ZERO:
                        continue
                if not foreign(d, self.site) and not isnum(d):
                    out.add(sub(sub(x, y), d))
                    out.add(sub(d, sub(x, y)))
        # bounds of traversals and of views
        for c, v in p.cells.items():
            for t in mentions(v):
                if t.op == 'sub' and (foreign(t.a[1], self.site) or foreign(t.a[2], self.site)):
                    out.add(sub(t.a[2], t.a[1]))
                    if t.a[0].op != 'seq':
                        out.add(sub(atom(mk('len', t.a[0]), 0, MAXLEN), t.a[2]))
                        out.add(sub(t.a[2], atom(mk('len', t.a[0]), 0, MAXLEN)))
                if t.op == 'it' and t.a[0] in ('slice', 'range'):
                    lo, hi = t.a[-2], t.a[-1]
                    if isinstance(lo, T) and isinstance(hi, T) and lo.op == 'lin' and hi.op == 'lin':
                        out.add(sub(hi, lo))
        res = set()
        for L in out:
            if L.a[1] and L not in p.dropped and not self.ext(p, L):
                lo, hi = range_of(L)
                if lo is not None and lo >= 0:
                    continue
                res.add(L)
        return res

    def ext(self, p, L):
        """mentions a head atom of this loop that does not belong to p (or is not a plain variable)"""
        own = {x for x, k in p.atoms.values() if k == 'num'} | {mk('len', x) for x, k in p.atoms.values() if k == 'seq'}
        for t, k in L.a[1]:
            if t in own:
                continue
            if foreign(t, self.site):
                return True
        return False

    def fact_templates(self, p):
        hf = set(self.head(p).lin)
        own = {x for x, k in p.atoms.values() if k == 'num'} | {mk('len', x) for x, k in p.atoms.values() if k == 'seq'}
        out = set()
        for o in p.outs:
            for L in o[1].lin:
                if L in hf:
                    continue
                if any(t in own for t, _ in L.a[1]) and not self.ext(p, L):
                    for c in (0, 1):
                        M = add(L, num(c))
                        if M not in p.dropped and M not in p.cands:
                            out.add(M)
        return out

    def filter(self, p):
        """drop candidates not implied on every incoming edge; True when something was dropped"""
        dropped = False
        for st, cells in p.inc:
            if not p.cands:
                break
            m = self.match(p, cells)
            for L in list(p.cands):
                M = subst(L, m)
                if M.op != 'lin' or not st.entails(M):
                    p.cands.discard(L)
                    p.dropped.add(L)
                    dropped = True
        return dropped

    # -------------------------------------------------------- fixpoint
    def run(self):
        eng = self.eng
        npan, unk = len(eng.panics), dict(eng.unknown)
        self.enter(self.st0)
        entry = self.order[0]
        tried_alias = False
        for rnd in range(24):
            del eng.panics[npan:]
            eng.unknown = dict(unk)
            for p in self.order:
                if not p.gen:
                    p.gen = True
                    p.dropped = set()
                    p.cands = self.templates(p)
                    self.filter(p)
            changed = False
            n = len(self.order)
            for p in self.order:
                p.inc = [x for x in p.inc if x[0] is self.st0]
            for p in list(self.order):
                p.outs = self.body(self.head(p))
                for o in p.outs:
                    if o[0] == 'back' and self.enter(o[1]):
                        changed = True
            for p in list(self.order):
                if not p.gen:
                    changed = True
                    continue
                if self.filter(p):
                    changed = True
                k = self.keepers(p, p.keep)
                if len(k) != len(p.keep):
                    p.keep = k
                    changed = True
            if len(self.order) != n:
                changed = True
            if not changed and rnd < 18:
                for p in self.order:
                    new = self.fact_templates(p)
                    if new:
                        old = set(p.cands)
                        p.cands |= new
                        self.filter(p)
                        if p.cands - old:
                            changed = True
            if not changed and rnd < 18:
                for p in self.order:
                    k = self.keepers(p)
                    if not p.kept and k:
                        p.keep = k
                        p.kept = changed = True
            if not changed and not tried_alias:
                tried_alias = True
                for p in self.order:
                    if self.find_alias(p):
                        changed = True
            if not changed:
                return
        raise Unsupported('loop did not stabilise: %s' % self.where)

    def find_alias(self, p):
        nums = [(path, x) for path, (x, k) in p.atoms.items() if k == 'num']
        nums.sort(key=lambda q: (0 if 'it' in q[0] else 1))
        al = {}
        for i, (_, y) in enumerate(nums):
            for _, x in nums[:i]:
                if x in al:
                    continue
                for L in p.cands:
                    if len(L.a[1]) == 2 and L.a[1] in (((x, 1), (y, -1)), ((y, -1), (x, 1))) \
                            and scale(L, -1) in p.cands:
                        al[y] = lin(L.a[0], ((x, 1),))
                        break
                if y in al:
                    break
        p.alias = al
        return bool(al)


def delta(st, hs):
    """facts of st that are not facts of the head state"""
    out = []
    for f, v in st.lits.items():
        if f not in hs.lits:
            out.append(f if v else neg(f))
    hl = set(hs.lin)
    eqs = set()
    for f in out:
        if f.op == 'eq0':
            eqs |= {f.a[0], scale(f.a[0], -1)}
    for L in st.lin:
        if L not in hl and L not in eqs:
            out.append(mk('ge', L))
    for t, v in st.disc.items():
        if t not in hs.disc:
            out.append(mk('isv', t, v))
    return out


def analyse(eng, st0, site, body, where):
    for k in (16,):
        r = unroll(eng, st0, body, k)
        if r is None and eng.peel:
            r = unroll(eng, st0, body, eng.peel, True)
        if r is not None:
            return r
    if eng.bound and eng.chars:
        return rounds_of(eng, st0, body, int(eng.bound))         # (0.5: not one whole round)
    dropped = eng.dropped
    L = Loop(eng, st0, site, body, where)
    L.run()
    rec = LoopRec(site, where, st0, L.order)
    rec.loop = L
    try:
        acc = accelerate(L) if len(L.order) == 1 and not eng.plain and eng.dropped == dropped else None
    except Unsupported:
        acc = None
    if acc is None and eng.bound:
        return rounds_of(eng, st0, body, eng.bound)
    rec.accel = acc
    eng.lastloops[site] = rec
    outs = []
    for p in L.order:
        for i, o in enumerate(p.outs):
            if o[0] == 'back':
                continue
            st = o[1]
            if acc:
                st = acc.exit(i, st)
                if st is None:
                    continue
            st = st.copy()
            st.trail = st.trail + ((rec, p.idx, i),)
            outs.append((o[0], st) + tuple(o[2:]))
    return outs


def unroll(eng, st0, body, k, always=False):
    """short traversals of literal sequences are unrolled"""
    def short(v):
        return v.op == 'it' and v.a[0] in ('slice', 'range') and isnum(v.a[-1]) and isnum(v.a[-2]) \
            and v.a[-1].a[0] - v.a[-2].a[0] <= k
    if not always and not any(short(t) for c in st0.cells.values() for t in ([c] if c.op == 'it' else
                                                              [x for x in c.a if isinstance(x, T)])):
        return None
    np, un = len(eng.panics), dict(eng.unknown)
    outs, cur = [], [st0]
    for _ in range(k + 2):
        nxt = []
        for s in cur:
            for o in body(s):
                (nxt if o[0] == 'back' else outs).append(o)
        cur = [o[1] for o in nxt]
        if len(cur) + len(outs) > (600 if eng.chars and always else 64):
            break
        if not cur:
            return outs
    del eng.panics[np:]
    eng.unknown = un
    return None


def rounds_of(eng, st0, body, k):
    """the exits within k rounds, each exact; later rounds are not looked at"""
    outs, cur = [], [st0]
    for n in range(k + 1):
        nxt = []
        for s in cur:
            for o in body(s):
                (nxt if o[0] == 'back' else outs).append(o)
        cur = [o[1] for o in nxt]
    eng.dropped += len(cur)
    return outs


# ---------------------------------------------------------------- closed forms
class Accel:
    pass


def bvdepth(ts):
    d = 0
    for t in ts:
        for x in mentions(t):
            if x.op == 'bv':
                d = max(d, x.a[0] + 1)
    return d


def accelerate(L):
    eng, p = L.eng, L.order[0]
    hs = L.head(p)
    backs = [(i, o) for i, o in enumerate(p.outs) if o[0] == 'back']
    if not backs:
        return None
    e0 = L.match(p, L.st0.cells)
    ms = [L.match(p, {c: o[1].cells[c] for c in p.cells}) for _, o in backs]
    nums = [(path, x) for path, (x, k) in p.atoms.items() if k == 'num' and x not in p.alias]
    nums.sort(key=lambda q: (0 if 'it' in q[0] else 1))
    h = None
    for _, x in nums:
        if all(m.get(x) is lin(1, ((x, 1),)) for m in ms):
            h = x
            break
    if h is None:
        return None
    A = Accel()
    A.h, A.L, A.p = h, L, p
    own = {x for x, k in p.atoms.values()}
    lens = {mk('len', x) for x, k in p.atoms.values() if k == 'seq'}
    bad = (own | lens) - {h}
    bad |= {mk('p', x) for x, k in p.atoms.values() if k == 'bool'}

    # numbers that keep their distance to the counter
    fol = {}
    for _, x in nums:
        if x is not h and all(m.get(x) is lin(1, ((x, 1),)) for m in ms) and not mentions(sub(e0[x], e0[h])) & own:
            fol[x] = add(lin(0, ((h, 1),)), sub(e0[x], e0[h]))

    def follow(t):
        return subst(t, fol) if fol else t

    def clean(t):
        return not (mentions(t) & bad)
    accs = {}       # atom -> ('seq'|'num', entry, [per back row effect])
    for path, (x, kind) in p.atoms.items():
        if x is h or x in p.alias:
            continue
        if kind == 'num':
            ds = [sub(subst(m[x], p.alias), lin(0, ((x, 1),))) if m[x].op == 'lin' else None for m in ms]
            if all(d is not None and clean(d) for d in ds):
                accs[x] = ('num', e0[x], ds)
        elif kind == 'seq':
            pre = mk('sub', x, ZERO, atom(mk('len', x), 0, MAXLEN))
            ds = []
            for m in ms:
                v = m[x]
                more = [follow(q) for q in v.a[1:]] if v.op == 'seq' and v.a and v.a[0] is pre else None
                if more is not None and all(clean(q) for q in more):
                    ds.append(seq(*more))
                else:
                    ds = None
                    break
            if ds is not None:
                accs[x] = ('seq', e0[x], ds)
    # guards and the bound
    gs = {}
    for i, o in enumerate(p.outs):
        gs[i] = delta(o[1], hs)
    N = None
    for i, o in enumerate(p.outs):
        if o[0] == 'back':
            continue
        g = gs[i]
        if len(g) == 1 and g[0].op == 'ge':
            x = g[0].a[0]
            k = dict(x.a[1]).get(h)
            if k == 1 and clean(x):
                n = sub(lin(0, ((h, 1),)), x)
                if not foreign(n, L.site):
                    N = n
                    A.normal = i
    if N is None:
        # the continuation guard gives the bound when the exit is decided by it
        return None
    bound = mk('ge', sub(N, lin(1, ((h, 1),))))
    for i in gs:
        gs[i] = [g for g in gs[i] if g is not bound]
        if i != A.normal and not all(clean(g) for g in gs[i]):
            return None
    A.N, A.lo = N, e0[h]
    A.accs, A.backs, A.gs = accs, backs, gs
    early = [i for i, o in enumerate(p.outs) if o[0] != 'back' and i != A.normal]
    A.early = early
    allt = [t for i in gs for t in gs[i]]
    for kind, e, ds in accs.values():
        allt += ds
    d = bvdepth(allt)
    bv = mk('bv', d)
    bv.lo, bv.hi = 0, MAXLEN
    A.bv = bv
    bvl = lin(0, ((bv, 1),))
    sm = {h: bvl}
    A.guards = {i: tuple(sorted((subst(g, sm) for g in gs[i]), key=lambda t: t.id)) for i in gs}
    A.byte = byte_el(eng, A, [subst(t, sm) for t in allt])
    A.any = None
    hl = lin(0, ((h, 1),))
    # first-match predicate of the early exits
    if early:
        A.any = first_pred(eng, A, early)
    ex = {}
    A.eff = {}
    for x, (kind, e, ds) in accs.items():
        rows = [(A.guards[i], subst(dv, sm)) for (i, _), dv in zip(backs, ds)]
        A.eff[x] = (kind, e, rows)

    def closed(hi):
        m = {}
        for x, (kind, e, rows) in A.eff.items():
            if kind == 'num':
                v = add(e, total(eng, A, rows, A.lo, hi))
                m[x] = v
            else:
                v = seq(*(e.a + tuple(mapped(eng, A, rows, A.lo, hi).a)))
                m[mk('sub', x, ZERO, atom(mk('len', x), 0, MAXLEN))] = v
                m[mk('len', x)] = seqlen(v)
        return m

    def exit(i, st):
        if i == A.normal:
            hv = N if st.decide(eq0(sub(hl, N))) is True else None
            pr = A.any[0] if A.any else None
            truth = False
        else:
            hv = None
            pr = A.any[0] if A.any else None
            truth = True
            if A.any:
                hv = A.any[1]
        m = closed(hv if hv is not None else hl)
        if hv is not None:
            m[h] = hv
        st = subst_state(st, m)
        if st is None:
            return None
        if pr is not None:
            for s in st.assume(pr if truth else neg(pr)):
                st = s
                break
            else:
                return None
            if truth and hv is not None and len(early) == 1:
                pass
        return st
    A.exit = exit
    A.closed = closed
    return A


def subst_state(st, m):
    s = st.copy()
    memo = {}
    mm = dict(m)

    def sb(t):
        return subst_parts(t, mm, memo)
    s.cells = {c: sb(v) for c, v in st.cells.items()}
    s.disc = {sb(t): v for t, v in st.disc.items()}
    s.lin = ()
    s.lits = {}
    for f, v in st.lits.items():
        g = sb(f)
        if g is TRUE or g is FALSE:
            if (g is TRUE) != v:
                return None
            continue
        if g.op == 'not':
            g, v = g.a[0], not v
        s.lits[g] = v
    for Lx in st.lin:
        y = sb(Lx)
        if not s.entails(y):
            s.lin = s.lin + (y,)
    return s


def subst_parts(t, m, memo):
    """substitution in which a sequence part may be replaced by a whole sequence"""
    if not isinstance(t, T):
        return tuple(subst_parts(x, m, memo) for x in t) if isinstance(t, tuple) else t
    if t in memo:
        return memo[t]
    if not (mentions(t) & m.keys()):
        memo[t] = t
        return t
    if t in m:
        r = m[t]
        if t.op != 'lin' and r.op == 'lin':
            pass
        memo[t] = r
        return r
    if t.op == 'seq':
        out = []
        for q in t.a:
            w = subst_parts(q, m, memo)
            out += list(w.a) if w.op == 'seq' else [w]
        r = seq(*out)
    elif t.op == 'sub':
        b, lo, hi = (subst_parts(x, m, memo) for x in t.a)
        r = mk('sub', b, lo, hi)
    elif t.op == 'lin':
        r = num(t.a[0])
        for x, k in t.a[1]:
            y = subst_parts(x, m, memo)
            r = add(r, y if y.op == 'lin' else lin(0, ((y, 1),)), k)
    elif t.op == 'len':
        b = subst_parts(t.a[0], m, memo)
        r = seqlen(b) if b.op == 'seq' else mk('len', b)
    else:
        args = [subst_parts(x, m, memo) for x in t.a]
        r = REBUILD[t.op](*args) if t.op in REBUILD else mk(t.op, *args)
        if r.lo is None:
            r.lo = t.lo
        if r.hi is None:
            r.hi = t.hi
    memo[t] = r
    return r


def byte_el(eng, A, ts):
    """the single byte- or char-sized element the guards and effects depend on, or None"""
    els = set()
    for t in ts:
        for x in mentions(t):
            if x.op == 'el' and A.bv in mentions(x):
                els.add(x)
    if len(els) != 1:
        return None
    E = els.pop()
    s = eng.types[E.a[-1]]['s']
    if s not in ('u8', 'char'):
        return None
    A.off = sub(E.a[1], lin(0, ((A.bv, 1),)))
    if A.bv in mentions(A.off) or A.bv in mentions(E.a[0]) or (E.a[0].op == 'chars' and A.off is not ZERO):
        return None
    return E


def evalf(f, E, v):
    """a formula over the byte E only, at E = v; None when it depends on something else"""
    if f is TRUE or f is FALSE:
        return f is TRUE
    if f.op == 'not':
        r = evalf(f.a[0], E, v)
        return None if r is None else not r
    if f.op in ('and', 'or'):
        rs = [evalf(g, E, v) for g in f.a]
        if None in rs:
            return None
        return all(rs) if f.op == 'and' else any(rs)
    if f.op in ('ge', 'eq0'):
        x = f.a[0]
        n = x.a[0]
        for t, k in x.a[1]:
            if t is not E:
                return None
            n += k * v
        return n >= 0 if f.op == 'ge' else n == 0
    return None


def evalparts(s, E, v, char):
    out = b''
    for q in s.a:
        if q.op == 'lit':
            out += q.a[0]
        elif q.op in ('el1', 'chr'):
            x = q.a[0]
            if x.op != 'lin' or any(t is not E for t, _ in x.a[1]):
                return None
            n = x.a[0] + sum(k * v for _, k in x.a[1])
            if q.op == 'chr' or char:
                if v >= 128 and x.a[1] and not (x.a[0] == 0 and x.a[1] == ((E, 1),)):
                    return None
                if not x.a[1] and n >= 128:
                    return None
            if not 0 <= n < 256:
                return None
            out += bytes([n])
        else:
            return None
    return out


def rows_at(rows, E, v):
    hit = []
    for g, e in rows:
        rs = [evalf(f, E, v) for f in g]
        if False in rs:
            continue
        if None in rs:
            return None
        hit.append(e)
    return hit


def bytemap(A, rows):
    E = A.byte
    if E is None:
        return None
    char = E.a[-1] != A.L.eng.u8()
    table = []
    for v in range(256):
        hit = rows_at(rows, E, v)
        if hit is None or len(hit) > 1:
            return None
        if not hit:
            table.append(None)
            continue
        b = evalparts(hit[0], E, v, char)
        if b is None:
            return None
        table.append(b)
    return tuple(table)


def chars_base(E):
    b = E.a[0]
    return b.a[0] if b.op == 'chars' else b


def seqover(E, lo, hi):
    return seq(mk('sub', chars_base(E), lo, hi))


def hi_of(A, E, hi):
    """chars are traversed as bytes: the whole character sequence is the whole byte sequence"""
    b = E.a[0]
    if b.op == 'chars' and hi.a[1] and len(hi.a[1]) == 1 and hi.a[1][0][0].op == 'len' \
            and hi.a[1][0][0].a[0] is b:
        return seqlen(b.a[0])
    return hi


def mapped(eng, A, rows, lo, hi):
    """the sequence produced by rows for bv in lo..hi"""
    tb = bytemap(A, rows)
    if tb is not None:
        E = A.byte
        base = E.a[0]
        if base.op == 'chars':
            hi2 = hi_of(A, E, hi)
            if hi2 is hi or lo is not ZERO:
                return seq(mk('comp', lo, hi, norm_rows(eng, rows)))
            b = base.a[0]
            whole_b = b
        else:
            hi2 = hi
            whole_b = subseq_raw(base, add(lo, A.off), add(hi, A.off))
        if all(t == bytes([v]) for v, t in enumerate(tb)):
            return whole_b
        return seq(mk('bytemap', whole_b, tb))
    rows = norm_rows(eng, rows)
    if len(rows) == 1 and rows[0][0] == ():
        e = rows[0][1]
        if not e.a:
            return seq()
        bvl = lin(0, ((A.bv, 1),))
        if len(e.a) == 1 and e.a[0].op == 'el1':
            v = e.a[0].a[0]
            x = v
            if x.op == 'lin' and len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == 1:
                x = x.a[1][0][0]
            if x.op == 'el' and len(x.a) == 3:
                k = sub(x.a[1], bvl)
                if isnum(k) or A.bv not in mentions(k):
                    if A.bv not in mentions(x.a[0]):
                        return subseq_raw(x.a[0], add(lo, k), add(hi, k))
        if all(A.bv not in mentions(q) for q in e.a):
            if len(e.a) == 1 and e.a[0].op in ('el1', 'chr'):
                return seq(mk('fill', e.a[0].a[0], sub(hi, lo)))
            if len(e.a) == 1 and e.a[0].op == 'lit' and len(e.a[0].a[0]) == 1:
                return seq(mk('fill', num(e.a[0].a[0][0]), sub(hi, lo)))
    if all(not e.a for _, e in rows):
        return seq()
    return seq(mk('comp', lo, hi, rows))


def subseq_raw(base, lo, hi):
    if base.op == 'seq':
        n = seqlen(base)
        if lo is ZERO and hi is n:
            return base
        if len(base.a) == 1 and base.a[0].op == 'sub':
            b, l, _ = base.a[0].a
            return seq(mk('sub', b, add(l, lo), add(l, hi)))
        return seq(mk('sub', base, lo, hi))
    return seq(mk('sub', base, lo, hi))


def collapse(eng, v):
    """re-assembled copies of an opaque aggregate denote that aggregate"""
    if v.op == 'seq':
        return seq(*[mk('el1', collapse(eng, q.a[0])) if q.op == 'el1' else q for q in v.a])
    if v.op == 'ref':
        return mk('ref', collapse(eng, v.a[0]))
    if v.op == 'adt':
        fs = [collapse(eng, x) for x in v.a[2:]]
        ty, var = v.a[0], v.a[1]
        v = mk('adt', ty, var, *fs)
        t = eng.types[ty]
        if fs and t['k'] == 'adt' and not eng.expands(t):
            ftys = eng.fields(ty, var)
            for x in mentions(fs[0]):
                if x.op == 'fld' and x.a[1] == var and x.a[2] == 0 and x.a[0].op in eng.OPAQUE \
                        and x.a[0].a[-1] == ty:
                    if all(eng.mat(mk('fld', x.a[0], var, i, f), f) is y
                           for i, (f, y) in enumerate(zip(ftys, fs))):
                        return x.a[0]
    return v


def norm_rows(eng, rows):
    """group rows by effect; drop the guard of a group that covers everything"""
    groups = {}
    for g, e in rows:
        e = collapse(eng, e) if e.op in ('seq',) else e
        groups.setdefault(e, []).append(g)
    if len(groups) == 1:
        return (((), next(iter(groups))),)
    out = []
    for e, gl in groups.items():
        for g in sorted(set(gl), key=lambda q: tuple(t.id for t in q)):
            out.append((g, e))
    out.sort(key=lambda r: tuple(t.id for t in r[0]))
    return tuple(out)


def by_part(rows, lo, hi):
    """rows over the items of one list written out part by part: [(rows, lo, hi)] of each part"""
    els = {x for g, e in rows for t in (*g, e) for x in mentions(t) if x.op == 'el' and x.a[0].op == 'seq' and len(x.a[0].a) and
           any(y.op == 'bv' for y in mentions(x.a[1]))}
    if len(els) != 1:
        return None
    el, = els
    S, idx = el.a[0], el.a[1]
    bv = [x for x in mentions(idx) if x.op == 'bv']
    if len(bv) != 1:
        return None
    i = mk('lin', 0, ((bv[0], 1),))
    c = sub(idx, i)
    if any(x.op == 'bv' for x in mentions(c)) or not (add(lo, c) is ZERO and add(hi, c) is seqlen(S)):
        return None
    out, off = [], ZERO
    for p in S.a:
        n = partlen(p)
        if p.op in ('el1', 'fill'):
            v = p.a[0]
        elif p.op == 'comp' and len(p.a[2]) == 1 and not p.a[2][0][0] and p.a[2][0][1].op == 'seq' and len(p.a[2][0][1].a) == 1 and p.a[2][0][1].a[0].op == 'el1':
            v = p.a[2][0][1].a[0].a[0]
            inner = {x for x in mentions(v) if x.op == 'bv'}
            if len(inner) > 1 or bv[0] in inner:
                return None
            for x in inner:
                v = subst(v, {x: add(sub(idx, off), p.a[0])})
        else:
            return None
        rs = []
        for g, e in rows:
            h = []
            for t in g:
                t = known_kind(subst(t, {el: v}))
                if t is FALSE:
                    h = None
                    break
                if t is not TRUE:
                    h.append(t)
            if h is not None:
                e = subst(e, {el: v})
                if e is not ZERO:
                    rs.append((tuple(h), e))
        out.append((rs, sub(off, c), sub(add(off, n), c)))
        off = add(off, n)
    return out


def known_kind(t):
    if t.op == 'isv' and t.a[0].op == 'adt':
        return boolc(t.a[0].a[1] == t.a[1])
    if t.op == 'not':
        u = known_kind(t.a[0])
        return neg(u) if u is not t.a[0] else t
    return t


def total(eng, A, rows, lo, hi):
    """sum of the row values for bv in lo..hi"""
    sp = by_part(rows, lo, hi)
    if sp is not None:
        t = ZERO
        for r, a, b in sp:
            if r:
                t = add(t, total(eng, A, r, a, b))
        return t
    groups = {}
    for g, e in rows:
        groups.setdefault(e, []).append(g)
    if len(groups) == 1:
        e = next(iter(groups))
        if isnum(e):
            return scale(sub(hi, lo), e.a[0])
    nz = tuple(sorted(((g, e) for g, e in rows if e is not ZERO),
                      key=lambda r: tuple(t.id for t in r[0])))
    lob = 0 if all((range_of(e)[0] or 0) >= 0 and range_of(e)[0] is not None for _, e in nz) else None
    return atom(mk('sum', lo, hi, nz), lob)


def first_pred(eng, A, early):
    """(predicate 'some element satisfies the early exits', index of the first one)"""
    E = A.byte
    gl = tuple(sorted({A.guards[i] for i in early}, key=lambda q: tuple(t.id for t in q)))
    if any(foreign(t, A.L.site) for g in gl for t in g):
        return None
    if E is not None:
        rows = [(g, TRUE) for g in gl]
        mask = []
        for v in range(256):
            r = rows_at(rows, E, v)
            if r is None:
                mask = None
                break
            mask.append(bool(r))
        if mask is not None:
            base = E.a[0]
            if base.op == 'chars':
                hi = hi_of(A, E, A.N)
                if hi is A.N or A.lo is not ZERO:
                    return None
                s = base.a[0]
            else:
                s = subseq_raw(base, add(A.lo, A.off), add(A.N, A.off))
            pr, ix = mask_pred(s, tuple(mask))
            if pr is None:
                return None
            return pr, add(A.lo, ix)
    pr = mk('any', A.lo, A.N, gl)
    ix = atom(mk('first', A.lo, A.N, gl), 0, MAXLEN)
    return pr, ix


def mask_pred(s, mask):
    """formula 'some byte of s is in the mask' and the index of the first such byte"""
    ones = [v for v in range(256) if mask[v]]
    if not ones:
        return None, None
    if len(ones) == 1:
        b = bytes(ones)
        return mk('has', s, b), atom(mk('find', s, b), 0, MAXLEN)
    m = bytes(mask)
    return mk('any', s, m), atom(mk('first', s, m), 0, MAXLEN)
