"""C14: the order in which positions are tried, as a product of the search loop and its specification."""
from sa.obl import *
from sa.rows import Round
from sa.loops import shape
from sa.opts import deep

CUT = ('apply::match_fragment',)


def cut_match(eng, st, c):
    img, lines, pos = [deep(eng, st, a) for a in c.args]
    return [(st, mk('p', mk('match', img, lines, pos)))]


def tests(st, base):
    """the positions tried on a path, in order"""
    return [(f.a[0].a[2], v) for f, v in st.lits.items()
            if f.op == 'p' and f.a[0].op == 'match' and (base is None or f not in base.lits)]


class Spec:
    """where the specification stands: the next position backward and forward, whose turn it is"""
    __slots__ = ('lo', 'hi', 'side', 'lod', 'hid', 'p0')

    def __init__(self, lo, hi, side, lod, hid, p0):
        self.lo, self.hi, self.side, self.lod, self.hid, self.p0 = lo, hi, side, lod, hid, p0

    def key(self):
        return (self.side, self.lod, self.hid, self.p0)

    def next(self, st, n):
        """[(state, specification after, position to try | None)]"""
        if self.side == 's':
            return [(st, Spec(sub(self.lo, ONE), add(self.lo, ONE), 'b', False, False, self.p0), self.lo)]
        if self.lod and self.hid:
            return [(st, self, None)]
        if self.side == 'b':
            if self.lod:
                return Spec(self.lo, self.hi, 'f', True, self.hid, self.p0).next(st, n)
            y, no = st.split(ge(self.lo))
            out = [(t, Spec(sub(self.lo, ONE), self.hi, 'f', False, self.hid, self.p0), self.lo) for t in y]
            for t in no:
                out += Spec(self.lo, self.hi, 'f', True, self.hid, self.p0).next(t, n)
            return out
        if self.hid:
            return Spec(self.lo, self.hi, 'b', self.lod, True, self.p0).next(st, n)
        y, no = st.split(ge(sub(sub(n, self.hi), ONE)))
        out = [(t, Spec(self.lo, add(self.hi, ONE), 'b', self.lod, False, self.p0), self.hi) for t in y]
        for t in no:
            out += Spec(self.lo, self.hi, 'b', self.lod, True, self.p0).next(t, n)
        return out


    def settle(self, st, n):
        """notice at once that a direction is used up"""
        if self.side == 's':
            return [(st, self)]
        cur = [(st, self)]
        if not self.lod:
            y, no = st.split(ge(self.lo))
            cur = [(t, self) for t in y] + [(t, Spec(self.lo, self.hi, 'f', True, self.hid, self.p0)) for t in no]
        out = []
        for t, sp in cur:
            if sp.hid:
                out.append((t, sp))
                continue
            y, no = t.split(ge(sub(sub(n, sp.hi), ONE)))
            out += [(u, sp) for u in y] + [(u, Spec(sp.lo, sp.hi, 'b', sp.lod, True, sp.p0)) for u in no]
        return [(t, Spec(sp.lo, sp.hi, 'x', True, True, sp.p0) if sp.lod and sp.hid else sp) for t, sp in out]


class Product:
    def __init__(self, o, key, r, n):
        self.o, self.key, self.r, self.n = o, key, r, n
        self.eng = r.eng
        self.recs = {}
        self.nodes = {}       # (rec id, part, spec key) -> [candidate relations, facts]
        self.todo = []
        self.bad, self.unk = [], []
        self.ntests = 0

    def rec(self, rec):
        if id(rec) not in self.recs:
            self.recs[id(rec)] = (rec, {p.idx: Round(rec, p) for p in rec.parts})
            for x, _, _ in rec.st0.trail:
                self.rec(x)

    def run(self, start):
        finals = {}
        for q in self.r.paths:
            for x, _, _ in q.st.trail:
                self.rec(x)
        entry = {}
        for q in self.r.paths:
            t = q.st.trail
            finals.setdefault((id(t[-1][0]), t[-1][1], t[-1][2]) if t else None, []).append(q)
        for rec, _ in self.recs.values():
            t = rec.st0.trail
            entry.setdefault((id(t[-1][0]), t[-1][1], t[-1][2]) if t else None, []).append(rec)
        self.finals, self.entry = finals, entry
        self.entries(start)
        k = 0
        while self.todo:
            k += 1
            if k > 600:
                self.unk.append('too many product states')
                break
            self.visit(self.todo.pop())
        # the relations are stable now: judge
        for _ in range(8):
            self.bad, self.unk, self.ntests = [], [x for x in self.unk if x.startswith('too many')], 0
            self.todo = []
            self.entries(start)
            for k in list(self.nodes):
                self.visit(k)
            if not self.todo:
                break
        else:
            self.unk.append('the relations are not stable')

    def entries(self, start):
        for q in self.finals.get(None, []):
            for s, p0 in start(self.eng, q.st):
                self.final(q, s, Spec(p0, None, 's', False, False, p0), None)
        for rec in self.entry.get(None, []):
            for s, p0 in start(self.eng, rec.st0):
                self.enter(rec, s, Spec(p0, None, 's', False, False, p0), None)

    # ---------------------------------------------------------------- walking along the tests of one path
    def walk(self, st, spec, ts):
        """[(state, spec)] after the tests; records disagreements"""
        cur = [(st, spec)]
        for pos, truth in ts:
            self.ntests += 1
            nxt = []
            for s, sp in cur:
                for t, sp2, cand in sp.next(s, self.n):
                    if cand is None:
                        if t.decide(ge(sub(pos, self.n))) is True:
                            nxt.append((t, sp2))
                        else:
                            self.unk.append('position %s is tried after all others' % short(self.eng, pos))
                        continue
                    d = t.decide(eq0(sub(pos, cand)))
                    if d is True:
                        nxt.append((t, sp2))
                    elif (isnum(sub(pos, cand)) or sp.side == 's' and same(t, pos, cand) == 'ne') and not self.counts(t):
                        self.bad.append('position %s is tried where position %s is the nearest one left (case: %s)' % (
                            short(self.eng, pos), short(self.eng, cand), ' & '.join(facts(self.eng, t))[:400]))
                    else:
                        self.unk.append('position %s tried, %s expected' % (short(self.eng, pos), short(self.eng, cand)))
            cur = nxt
        return [r for s, sp in cur for r in sp.settle(s, self.n)]

    def counts(self, st):
        """the path knows how many lines the hunk needs: positions that cannot fit may be skipped"""
        for f in (*st.lits, *st.lin):
            if f.op == 'p' and f.a[0].op == 'match':
                continue
            if any(x.op in ('sum', 'plen', 'unk', 'comp') or (x.op == 'len' and 'lines' in pp(self.eng, x)) for x in mentions(f)):
                return True
        return False

    def final(self, q, st, spec, base):
        ts = tests(q.st, base)
        kind = vname(self.eng, q.val)
        for i, (pos, truth) in enumerate(ts):
            if truth and i != len(ts) - 1:
                self.unk.append('the search goes on after a match')
                return
        hit = bool(ts) and ts[-1][1]
        for s, sp in self.walk(st, spec, ts):
            if hit:
                if kind != 'Some':
                    self.bad.append('the matching position %s is not returned' % short(self.eng, ts[-1][0]))
                elif s.decide(eq0(sub(q.val.a[2], ts[-1][0]))) is not True:
                    d = sub(q.val.a[2], ts[-1][0])
                    (self.bad if isnum(d) else self.unk).append('position %s matched, %s is returned' % (
                        short(self.eng, ts[-1][0]), short(self.eng, q.val.a[2])))
                continue
            if kind == 'Some':
                self.bad.append('position %s is returned without having been compared' % short(self.eng, q.val.a[2]))
                continue
            for t, _, cand in sp.next(s, self.n):
                if cand is None:
                    continue
                msg = 'the search gives up although position %s was never tried (case: %s)' % (
                    short(self.eng, cand), ' & '.join(facts(self.eng, t))[:400])
                (self.unk if self.counts(t) else self.bad).append(msg)

    # ---------------------------------------------------------------- entering a partition
    def part_of(self, rec, st):
        L = rec.loop
        cells = {}
        for c in L.keys:
            if c in st.cells:
                cells[c] = L.norm(st, st.cells[c], L.st0.cells[c])
        sh = tuple((c, shape(L.eng, st, v, L.st0.cells[c])) for c, v in cells.items())
        p = L.parts.get(sh)
        if p is None:
            return None, None
        try:
            return p, L.match(p, {c: cells[c] for c in p.cells})
        except Exception:
            return None, None

    def enter(self, rec, st, spec, base):
        st0 = st
        for s, sp in self.walk(st0, spec, tests(rec.st0, base)):
            self.arrive(rec, s, sp, rec.st0)

    def arrive(self, rec, s, sp, cellst):
        p, m = self.part_of(rec, cellst)
        if p is None:
            self.unk.append('loop partition')
            return
        own = {x for x, k in p.atoms.values() if k == 'num'}
        src = {x for x in own}
        pins = {}
        mv = self.moving(rec)
        for f in s.lin:
            for a, k in f.a[1]:
                if a in mv and a not in pins and abs(k) == 1 and not any(b in mv for b, _ in f.a[1] if b is not a):
                    v = scale(sub(f, lin(0, ((a, k),))), -k)
                    if s.decide(eq0(sub(lin(0, ((a, 1),)), v))) is True:
                        pins[a] = v
        if pins:
            m = {h: subst(v, pins) if v.op == 'lin' else v for h, v in m.items()}
            sp = Spec(sp.lo and subst(sp.lo, pins), sp.hi and subst(sp.hi, pins), sp.side, sp.lod, sp.hid, sp.p0)
        key = (id(rec), p.idx) + sp.key()
        back = {}
        for h, v in m.items():
            if h in own and v.op == 'lin':
                for a, k in v.a[1]:
                    if abs(k) == 1 and a.op == 'h':
                        # a = (h - rest) * k
                        rest = sub(v, lin(0, ((a, k),)))
                        back.setdefault(a, scale(sub(lin(0, ((h, 1),)), rest), k))
        hatoms = {a for v in m.values() if v.op == 'lin' for a, _ in v.a[1] if a.op == 'h'}

        def rel(e):
            if e is None:
                return None
            c = set()
            for h, v in m.items():
                if h in own and v.op == 'lin':
                    for k in (1, -1):
                        d = sub(e, scale(v, k))
                        if not any(a in self.moving(rec) for a, _ in d.a[1]):
                            c.add(add(d, lin(0, ((h, k),))))
            if not any(a in self.moving(rec) for a, _ in e.a[1]):
                c.add(e)
            return c
        mm = {h: v for h, v in m.items() if h in own and v.op == 'lin'}
        node = self.nodes.get(key)
        if node is None:
            fs = set()
            for f in s.lin:
                if any(a.op == 'h' for a, _ in f.a[1]) or True:
                    g = subst(f, back)
                    if all(a in own or a not in self.moving(rec) for a, _ in g.a[1]):
                        fs.add(g)
            for h, v in mm.items():
                if not any(a in self.moving(rec) for a, _ in v.a[1]):
                    d = sub(lin(0, ((h, 1),)), v)
                    fs |= {d, scale(d, -1)}
            rl, rh = rel(sp.lo), rel(sp.hi)
            if sp.lod:
                fs |= {sub(num(-1), c) for c in rl or ()}
            if sp.hid:
                fs |= {sub(c, self.n) for c in rh or ()}
            self.nodes[key] = [rl, rh, fs, s]
            self.todo.append(key)
            return
        ch = False
        for i, e in ((0, sp.lo), (1, sp.hi)):
            if node[i] is not None and e is not None:
                keep = {c for c in node[i] if s.decide(eq0(sub(subst(c, mm), e))) is True}
                if keep != node[i]:
                    node[i] = keep
                    ch = True
        keep = {f for f in node[2] if s.entails(subst(f, mm))}
        if keep != node[2]:
            node[2] = keep
            ch = True
        if ch and key not in self.todo:
            self.todo.append(key)

    def moving(self, rec):
        if not hasattr(rec, '_moving'):
            rec_m = set()
            for p in rec.parts:
                rec_m |= {x for x, k in p.atoms.values()}
            self.__dict__.setdefault('_mov', {})[id(rec)] = rec_m
            return rec_m
        return self._mov[id(rec)]

    def visit(self, key):
        rid, pi, side, lod, hid, p0 = key
        rec, rds = self.recs[rid]
        lo, hi, fs, _ = self.nodes[key]
        if lo == set() and not lod or hi == set() and not hid:
            self.unk.append('the position is not tied to the variables of the loop (%s lo=%s hi=%s)' % (key[1:], lo, hi))
            return
        mv = self.moving(rec)
        first = lambda c: None if not c else min(c, key=lambda t: (not any(a in mv for a, _ in t.a[1]), t.id))
        spec = Spec(first(lo), first(hi), side, lod, hid, p0)
        extra = list(fs)
        for c in (lo, hi):
            for e in (c or ()):
                d = sub(e, first(c))
                extra += [d, scale(d, -1)]
        rd = rds[pi]
        for i, kind, s2, g in rd.rows:
            if kind == 'back':
                s = self.with_facts(s2, extra)
                if s is None:
                    continue
                ts = tests(s2, rd.hs)
                for t, sp in self.walk(s, spec, ts):
                    self.arrive(rec, t, sp, s2)
                continue
            for q in self.finals.get((rid, pi, i), []):
                s = self.with_facts(q.st, extra)
                if s is not None:
                    self.final(q, s, spec, rd.hs)
            for r2 in self.entry.get((rid, pi, i), []):
                s = self.with_facts(r2.st0, extra)
                if s is not None:
                    self.enter(r2, s, spec, rd.hs)

    @staticmethod
    def with_facts(st, extra):
        s = st.copy()
        for f in extra:
            if not s.addlin(f):
                return None
        return s


def run_c14(p, rep):
    o = Obl(p, rep)
    for k in o.find('search for a position', 'diffy::apply::find_position'):
        search(o, k)
    o.done()


def search(o, k):
    r = o.run(k, 'any image and hunk', cuts=cuts_for(o.p, {CUT: cut_match}), plain=True)
    if r is None:
        return
    eng = r.eng
    av = eng.args
    img = next((i for i, a in enumerate(av) if dref(a).op == 'seq'), None)
    hk = next((i for i, a in enumerate(av) if dref(a).op == 'adt'), None)
    if img is None or hk is None:
        o.rep.unk('%s: arguments not recognised' % o.d.name(k))
        return
    n = seqlen(dref(av[img]))

    def start(eng, st):
        rs = get(eng, st, av[hk], 'new_range.start')
        rl = get(eng, st, av[hk], 'new_range.len')
        out = []
        y, no = st.split(eq0(rl))
        alts = [(t, rs) for t in y]
        for t in no:
            a, b = t.split(ge(sub(rs, ONE)))
            alts += [(u, sub(rs, ONE)) for u in a] + [(u, ZERO) for u in b]
        for t, x in alts:
            a, b = t.split(ge(sub(n, x)))
            out += [(u, x) for u in a] + [(u, n) for u in b]
        return out
    P = Product(o, k, r, n)
    try:
        P.run(start)
    except Unsupported as e:
        P.unk.append(str(e))
    nm = o.d.name(k)
    # every test must be about this image and these lines
    for q in r.paths:
        for f in q.st.lits:
            if f.op == 'p' and f.a[0].op == 'match':
                if f.a[0].a[0] is not strip_refs(dref(av[img])) or f.a[0].a[1] is not strip_refs(get(eng, q.st, av[hk], 'lines')):
                    P.unk.append('a test looks at something else')
    o.rep.counts['product states of %s' % nm] = len(P.nodes)
    o.rep.counts['tests compared in %s' % nm] = P.ntests
    if P.bad:
        for b in sorted(set(P.bad))[:5]:
            o.rep.bad('%s|%s' % (nm, b.split(' (case')[0]), '%s: %s' % (o.where(k), b))
    elif P.unk:
        o.rep.unk('%s: %s' % (nm, P.unk[0]))
    elif P.ntests == 0:
        o.rep.unk('%s: no tests found' % nm)
    else:
        o.rep.good('%s: positions are tried nearest first, all of them, and the first match is returned' % nm)
