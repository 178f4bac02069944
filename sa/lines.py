"""C17: texts are cut into lines without loss, and text and bytes are searched and cut alike."""
from sa.obl import *
from sa.models import pred
from sa.rows import rounds
from sa.apply import feasible, guarded


def run_c17(p, rep):
    o = Obl(p, rep)
    n = 0
    for k, i in sorted(p.insts.items(), key=lambda x: x[1]['inst']):
        if i.get('body') and 'utils::LineIter' in i['name'] and i['name'].endswith('Iterator>::next'):
            guarded(o, k, next_line)
            n += 1
    if n < 2:
        rep.unk('line iterators: %d recognised, 2 expected' % n)
    for t in ('str', '[u8]'):
        for m in METHODS:
            ks = [k for k, i in p.insts.items() if i.get('body') and i['name'] == '<%s as diffy::utils::Text>::%s' % (t, m)]
            for k in ks:
                guarded(o, k, METHODS[m])
            if not ks and m in ('find', 'split_at_exclusive', 'split_at', 'strip_prefix'):
                rep.unk('%s of %s: not recognised in this tree' % (m, t))
    for k in o.find('search for bytes', 'diffy::utils::find_bytes'):
        guarded(o, k, find)
    for k in o.find('search for a byte', 'diffy::utils::find_byte'):
        guarded(o, k, find_one)
    for k, i in p.insts.items():
        if i.get('body') and i['name'] == 'diffy::utils::Text::parse':
            guarded(o, k, parse)
    o.done()


# ---------------------------------------------------------------- one line
def text_field(eng, v):
    """the text a line iterator still has to cut"""
    v = dref(v)
    if v.op == 'seq':
        return v
    if v.op == 'adt':
        ts = [x for x in v.a[2:] if dref(x).op in ('seq', 'adt')]
        if len(ts) == 1:
            return text_field(eng, ts[0])
    raise Unsupported('the remaining text is not recognised')


def next_line(o, key):
    def spec(eng, p):
        T0 = text_field(eng, eng.expand(p.st, mk('in', 'a0', eng.types[o.p.insts[key]['body']['locals'][1]]['to'])))
        T1 = text_field(eng, p.out)
        res = []
        some = vname(eng, p.val) == 'Some'
        L = seqlen(T0)
        for s in p.st.assume(eq0(L)):
            res.append(('no line in an empty text', WithState(s, some), False))
            if not some:
                res.append(('an empty text stays empty', WithState(s, T1), seq()))
        for s in p.st.assume(neg(eq0(L))):
            f = pred(s, eng, 'has', T0, b'\n')
            i = atom(mk('find', T0, b'\n'), 0, MAXLEN)
            for t in s.assume(f):
                t = t.copy()
                t.addlin(sub(sub(L, i), ONE))
                res.append(('a line in a text with a newline', WithState(t, some), True))
                if some:
                    res.append(('the line reaches to the first newline', WithState(t, dref(p.val.a[2])), subseq(T0, ZERO, add(i, ONE), t)))
                    res.append(('the rest follows the line', WithState(t, T1), subseq(T0, add(i, ONE), L, t)))
            for t in s.assume(neg(f)):
                res.append(('a line in a text without newline', WithState(t, some), True))
                if some:
                    res.append(('the last line is the rest of the text', WithState(t, dref(p.val.a[2])), T0))
                    res.append(('nothing follows the last line', WithState(t, T1), seq()))
        return res
    o.expect(key, 'any text', spec)
    no_panic(o, key)


def no_panic(o, key, pre=None):
    r = o.d.run(key, pre)
    if r.error or r.unknown:
        return
    nm = o.d.name(key)
    for q in r.panics:
        if feasible(q.st):
            (o.rep.bad if exact(q.st) else lambda k, t: o.rep.unk(t))(
                '%s|panic' % nm, '%s: can panic (%s; case: %s)' % (o.where(key), q.why, ' & '.join(facts(r.eng, q.st))[:400]))
            return
    o.rep.good('%s: no panic' % nm)


# ---------------------------------------------------------------- primitives
def formula(what, want):
    """a method whose boolean result must be the given formula of its arguments"""
    def f(o, key):
        def spec(eng, p):
            w = want(eng, p.st, *[dref(a) for a in eng.args])
            res = []
            for truth in (True, False):
                for s in p.st.assume(w if truth else neg(w)):
                    v = p.val
                    if v is TRUE or v is FALSE:
                        res.append((what, WithState(s, v is TRUE), truth))
                        continue
                    d = s.decide(v)
                    if d is not None:
                        res.append((what, WithState(s, d), truth))
                    else:
                        res.append((what, WithState(s, v), TRUE if truth else FALSE))
            return res
        o.expect(key, 'any text', spec)
    return f


def length(o, key):
    o.expect(key, 'any text', lambda eng, p: [('the number of bytes', p.val, seqlen(dref(eng.args[0])))])


def same_bytes(o, key):
    o.expect(key, 'any text', lambda eng, p: [('the same bytes', dref(p.val), dref(eng.args[0]))])


def strip(op):
    def f(o, key):
        def spec(eng, p):
            s, x = dref(eng.args[0]), dref(eng.args[1])
            some = vname(eng, p.val) == 'Some'
            g = pred(p.st, eng, op, s, x)
            n, m = seqlen(s), seqlen(x)
            res = []
            for t in p.st.assume(g):
                t = t.copy()
                t.addlin(sub(n, m))
                res.append(('something is left when it is there', WithState(t, some), True))
                if some:
                    want = subseq(s, m, n, t) if op == 'sw' else subseq(s, ZERO, sub(n, m), t)
                    res.append(('exactly the rest is left', WithState(t, dref(p.val.a[2])), want))
            for t in p.st.assume(neg(g)):
                res.append(('nothing when it is not there', WithState(t, some), False))
            return res
        o.expect(key, 'any text', spec)
    return f


def split_at(o, key):
    def spec(eng, p):
        s, i = dref(eng.args[0]), eng.args[1]
        return [('before the position', dref(p.val.a[2]), subseq(s, ZERO, i, p.st)),
                ('from the position on', dref(p.val.a[3]), subseq(s, i, seqlen(s), p.st))]
    o.expect(key, 'any text and position', spec)


def as_str(o, key):
    def spec(eng, p):
        s = dref(eng.args[0])
        some = vname(eng, p.val) == 'Some'
        res = []
        if '<str as' in o.p.insts[key]['name']:
            res.append(('always readable', some, True))
        else:
            for t in p.st.assume(mk('utf8', s)):
                res.append(('UTF-8 is readable', WithState(t, some), True))
            for t in p.st.assume(neg(mk('utf8', s))):
                res.append(('other bytes are not readable', WithState(t, some), False))
        if some:
            res.append(('the same text', dref(p.val.a[2]), s))
        return res
    o.expect(key, 'any text', spec)


def parse(o, key):
    def spec(eng, p):
        s = dref(eng.args[0])
        some = vname(eng, p.val) == 'Some'
        g = mk('parses', s, 'usize')
        if '<str as' not in o.p.insts[key]['inst']:
            g = conj(mk('utf8', s), g)
        res = []
        for t in p.st.assume(g):
            res.append(('a number is read', WithState(t, some), True))
        for t in p.st.assume(neg(g)):
            res.append(('anything else is rejected', WithState(t, some), False))
        if some:
            ity = eng.fields(eng.tyof(p.val), p.val.a[1])[0]
            res.append(('the number the digits say', p.val.a[2], atom(mk('parse', s, ity), *eng.bounds(ity))))
        return res
    o.expect(key, 'any text', spec)


# ---------------------------------------------------------------- first occurrence
class Occurrence:
    """what the facts of a path say about the positions at which the needle occurs in the haystack"""

    def __init__(self, eng, H, N):
        self.eng, self.H, self.N = eng, H, N
        self.base, self.off = (H.a[0].a[0], H.a[0].a[1])
        self.n, self.m = seqlen(H), seqlen(N)

    def element(self, t):
        """position of an element of the haystack"""
        if t.op == 'lin' and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
            x = t.a[1][0][0]
            if x.op == 'el' and x.a[0] is self.base:
                return sub(x.a[1], self.off)
        return None

    def first_byte(self, f):
        """position j when the formula says haystack[j] == needle[0]"""
        if f.op != 'eq0':
            return None
        L = f.a[0]
        if L.a[0] != 0 or len(L.a[1]) != 2 or {k for _, k in L.a[1]} != {1, -1}:
            return None
        els = [x for x, _ in L.a[1] if x.op == 'el']
        if len(els) != 2:
            return None
        nb, no = self.N.a[0].a[0], self.N.a[0].a[1]
        mine = [x for x in els if x.a[0] is self.base]
        other = [x for x in els if x.a[0] is nb and x.a[1] is no]
        return sub(mine[0].a[1], self.off) if len(mine) == 1 and len(other) == 1 else None

    def window(self, f):
        """position j when the formula says haystack[j..j+m] == needle"""
        if f.op != 'seqeq' or not all(isinstance(x, T) and x.op == 'seq' for x in f.a[:2]):
            return None
        a, b = f.a[:2]
        if a is not self.N:
            a, b = b, a
        if a is not self.N or len(b.a) != 1 or b.a[0].op != 'sub' or b.a[0].a[0] is not self.base:
            return None
        lo, hi = b.a[0].a[1:]
        if sub(sub(hi, lo), self.m) is not ZERO:
            return None
        return sub(lo, self.off)

    def guard(self, gs):
        """(k, d): the guards say of the index i that the first byte is equal, or the needle is, at k*i+d"""
        if len(gs) != 1 or len(gs[0]) != 1:
            return None
        f = gs[0][0]
        j = self.first_byte(f)
        if j is None:
            j = self.window(f)
        if j is None:
            return None
        bv = free_bv(j)
        if len(bv) != 1:
            return None
        b = atom(bv.pop(), 0, MAXLEN)
        for k, d in ((1, sub(j, b)), (-1, add(j, b))):
            if not free_bv(d):
                return k, d
        return None

    def none(self, st):
        """[(lo, hi)]: no occurrence at lo <= j < hi"""
        out = []
        for f, v in st.lits.items():
            j = self.first_byte(f)
            if j is None:
                j = self.window(f)
            if j is not None and not v:
                out.append((j, add(j, ONE)))
            if f.op == 'any' and len(f.a) == 3:
                d = self.guard(f.a[2])
                if d is not None:
                    hi = atom(mk('first', *f.a), 0, MAXLEN) if v else f.a[1]
                    k, d = d
                    out.append((add(f.a[0], d), add(hi, d)) if k > 0 else (add(sub(d, hi), ONE), add(sub(d, f.a[0]), ONE)))
            if f.op == 'has' and f.a[0] is self.H and f.a[1] is self.N:
                out.append((ZERO, atom(mk('find', self.H, self.N), 0, MAXLEN) if v else add(self.n, ONE)))
            if f.op == 'has' and self.part(f.a[0]) is not None and f.a[1] is self.N:
                lo, hi = self.part(f.a[0])
                if hi is self.n:
                    out.append((lo, add(lo, atom(mk('find', f.a[0], self.N), 0, MAXLEN)) if v else add(self.n, ONE)))
        return out

    def part(self, s):
        if not isinstance(s, T) or s.op != 'seq' or len(s.a) != 1 or s.a[0].op != 'sub' or s.a[0].a[0] is not self.base:
            return None
        return sub(s.a[0].a[1], self.off), sub(s.a[0].a[2], self.off)

    def hit(self, st, v):
        """is there an occurrence at v?"""
        if st.decide(eq0(self.m)) is True:
            return True
        for f, t in st.lits.items():
            if not t:
                continue
            j = self.window(f)
            if j is None and st.decide(eq0(sub(self.m, ONE))) is True:
                j = self.first_byte(f)
            if j is None and f.op == 'has' and f.a[0] is self.H and f.a[1] is self.N:
                j = atom(mk('find', self.H, self.N), 0, MAXLEN)
                r = atom(mk('rfind', self.H, self.N), 0, MAXLEN)
                if st.decide(eq0(sub(r, v))) is True:
                    return True
            if j is None and f.op == 'any' and len(f.a) == 3:
                d = self.guard(f.a[2])
                if d is not None and (self.window(f.a[2][0][0]) is not None or st.decide(eq0(sub(self.m, ONE))) is True):
                    j = add(scale(atom(mk('first', *f.a), 0, MAXLEN), d[0]), d[1])
            if j is not None and st.decide(eq0(sub(j, v))) is True:
                return True
        return False

    def cover(self, st, end, hyp=()):
        """None when no occurrence starts before `end`; else the first position nothing is known about"""
        iv = list(dict.fromkeys([(ZERO, h) for h in hyp] + self.none(st)))[:12]
        best = [ZERO]
        budget = [400]

        def go(cur, left):
            budget[0] -= 1
            if st.entails(sub(cur, end)) or st.entails(sub(add(cur, self.m), add(self.n, ONE))):
                return True
            if st.entails(sub(cur, best[0])):
                best[0] = cur
            for x, y in left:
                if budget[0] > 0 and sub(y, cur) is not ZERO and st.entails(sub(cur, x)) and st.entails(sub(y, cur)):
                    if go(y, [z for z in left if z != (x, y)]):
                        return True
            return False
        return None if go(ZERO, iv) else (best[0], iv)

    def missed(self, st, end):
        """a state in which the needle occurs before `end` at a position nothing on the path is about, or None;
        only for paths whose facts are complete"""
        j = atom(mk('free', 'occurrence'), 0, MAXLEN)
        s = st.copy()
        if not (s.addlin(sub(sub(self.n, self.m), j)) and s.addlin(sub(sub(end, j), ONE))):
            return None
        iv = list(dict.fromkeys(self.none(st)))[:12]

        def go(s, left):
            if not left:
                return s if feasible(s) else None
            x, y = left[0]
            for c in (sub(sub(x, j), ONE), sub(j, y)):
                t = s.copy()
                if t.addlin(c):
                    r = go(t, left[1:])
                    if r is not None:
                        return r
            return None
        return go(s, iv)

    def understood(self, st):
        """all facts about contents are about occurrences"""
        for f in st.lits:
            if any(x.op == 'el' and x.a[0] is self.base for x in mentions(f)) or \
                    any(x.op == 'sub' and x.a[0] is self.base for x in mentions(f)):
                if self.first_byte(f) is None and self.window(f) is None and \
                        not (f.op == 'any' and len(f.a) == 3 and self.guard(f.a[2]) is not None) and f.op != 'has':
                    return False
        return True


def progress(eng, oc):
    """{(record, partition): atoms up to which no occurrence starts} — an inductive invariant of the loops"""
    cand = {}
    rds = [rd for rd in rounds(eng) if not rd.rec.accel]
    for rd in rds:
        al = rd.part.alias
        cand[rd.rec, rd.part.idx] = {x for x, it in rd.nums()}
    while True:
        drop = False
        for rd in rds:
            c = cand[rd.rec, rd.part.idx]
            for x in list(c):
                for st, cells in rd.part.inc:
                    m = rd.L.match(rd.part, cells)
                    v = subst(lin(0, ((x, 1),)), m)
                    hyp = []
                    for (rec, i), xs in cand.items():
                        # the fact must come from the partition this state left
                        for y in xs:
                            z = lin(0, ((y, 1),))
                            hyp.append(subst(z, rec.parts[i].alias) if rec.parts[i].alias else z)
                    if v.op != 'lin' or oc.cover(st, v, hyp) is not None:
                        c.discard(x)
                        drop = True
                        break
        if not drop:
            return cand


def find(o, key):
    """result: Option<position of the first occurrence>"""
    def pos(eng, p):
        return (p.st, p.val.a[2]) if vname(eng, p.val) == 'Some' else (p.st, None)
    occurrences(o, key, pos)


def occurrences(o, key, pos, needle=None):
    nm = o.d.name(key)
    bad, unk = None, None
    for bound in (0, 2):
        r = o.run(key, 'any text and pattern', bound=bound)
        if r is None:
            return
        eng = r.eng
        H, N = dref(eng.args[0]), dref(eng.args[1])
        if N.op == 'lin':
            N = None
        oc = Occurrence(eng, H, N) if N is not None else Byte(eng, H, eng.args[1])
        hyps = [lin(0, ((x, 1),)) for (rec, i), xs in progress(eng, oc).items() for x in xs]
        bad = unk = None
        for p in r.paths:
            st, v = pos(eng, p)
            sure = exact(st) and all(rec.accel for rec, _, _ in st.trail) and oc.understood(st)
            end = v if v is not None else add(sub(oc.n, oc.m), ONE)
            gap = oc.cover(st, end, () if sure else hyps)
            if gap is not None:
                miss = oc.missed(st, end) if sure else None
                if miss is not None:
                    bad = bad or 'an occurrence is passed over (case: %s)' % ' & '.join(facts(eng, miss))[:400]
                else:
                    unk = unk or 'an occurrence at position %s may be passed over (case: %s)' % (
                        short(eng, gap[0]), ' & '.join(facts(eng, st))[:400])
            if v is not None and not oc.hit(st, v):
                text = 'position %s is returned although nothing shows an occurrence there (case: %s)' % (short(eng, v), ' & '.join(facts(eng, st))[:400])
                s = st.copy()
                if sure and feasible(s):
                    bad = bad or text
                else:
                    unk = unk or text
        if bad or not unk:
            break
        if not bound:
            first = unk
    if not bad and (unk or bound):
        unk = first
    if bad:
        o.rep.bad('%s|first occurrence' % nm, '%s: %s' % (o.where(key), bad))
    elif unk:
        o.rep.unk('%s: %s' % (nm, unk))
    else:
        o.rep.good('%s: the first occurrence, or none when there is none' % nm)
        no_panic(o, key)


def free_bv(t, out=None):
    """bound variables of t outside the closed forms that bind their own"""
    out = set() if out is None else out
    if isinstance(t, T):
        if t.op == 'bv':
            out.add(t)
        elif t.op not in ('first', 'any', 'comp', 'sum'):
            for x in t.a:
                free_bv(x, out)
    elif isinstance(t, tuple):
        for x in t:
            free_bv(x, out)
    return out


class Byte(Occurrence):
    """the same for a single byte"""

    def __init__(self, eng, H, b):
        self.eng, self.H, self.N, self.b = eng, H, None, b
        self.base, self.off = (H.a[0].a[0], H.a[0].a[1])
        self.n, self.m = seqlen(H), ONE

    def first_byte(self, f):
        if f.op != 'eq0':
            return None
        L = f.a[0]
        for k in (1, -1):
            d = add(L, scale(self.b, k))
            j = self.element(scale(d, -k) if False else d) if d.a[0] == 0 and len(d.a[1]) == 1 and d.a[1][0][1] == 1 else \
                self.element(scale(d, -1)) if d.a[0] == 0 and len(d.a[1]) == 1 and d.a[1][0][1] == -1 else None
            if j is not None:
                return j
        return None

    def window(self, f):
        return None


find_one = find


def split_exclusive(o, key):
    """Some((before, after)) around the first occurrence"""
    nm = o.d.name(key)

    def pos(eng, p):
        if vname(eng, p.val) != 'Some':
            return p.st, None
        a, b = dref(p.val.a[2].a[2]), dref(p.val.a[2].a[3])
        H, N = dref(eng.args[0]), dref(eng.args[1])
        n, m = seqlen(H), seqlen(N)
        if b.a and b.op == 'seq' and len(b.a) == 1 and b.a[0].op == 'sub':
            v = sub(sub(b.a[0].a[1], H.a[0].a[1]), m)
        elif a.a and len(a.a) == 1 and a.a[0].op == 'sub':
            v = sub(a.a[0].a[2], H.a[0].a[1])
        else:
            raise Unsupported('parts not recognised')
        out.append((p, v, same(p.st, a, subseq(H, ZERO, v, p.st)), same(p.st, b, subseq(H, add(v, m), n, p.st))))
        return p.st, v
    out = []
    occurrences(o, key, pos)
    bad = [(p, v) for p, v, x, y in out if ('ne' in (x, y)) and exact(p.st)]
    if bad:
        o.rep.bad('%s|parts' % nm, '%s: the two parts are not what precedes and follows the separator' % o.where(key))
    elif all(x == y == 'eq' for _, _, x, y in out) and out:
        o.rep.good('%s: the parts are the text before and after the separator' % nm)
    elif out:
        o.rep.unk('%s: the parts are not recognised' % nm)


METHODS = {
    'is_empty': formula('empty', lambda eng, st, s: eq0(seqlen(s))),
    'len': length, 'as_bytes': same_bytes, 'as_str': as_str,
    'starts_with': formula('starts with', lambda eng, st, s, x: pred(st, eng, 'sw', s, x)),
    'ends_with': formula('ends with', lambda eng, st, s, x: pred(st, eng, 'ew', s, x)),
    'strip_prefix': strip('sw'), 'strip_suffix': strip('ew'),
    'split_at': split_at, 'find': find, 'split_at_exclusive': split_exclusive,
}
