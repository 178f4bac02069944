"""Obligations over the paths of one function, class of inputs by class of inputs."""
from sa.term import *
from sa.state import *
from sa.drive import *
from sa.cmp import same, canon
from sa.engine import Unsupported
from sa import models

INEXACT = {'h', 'unk', 'unkn', 'unkb', 'unks', 'unkv'}


def exact(st, *ts):
    """no quantity the analysis lost track of is involved"""
    for t in ts:
        if any(x.op in INEXACT for x in mentions(t)):
            return False
    for f in (*st.lits, *st.lin, *st.disc):
        if any(x.op in INEXACT for x in mentions(f)):
            return False
    return True


class Obl:
    """shared driver of the checks: run a function over a partition of its inputs, compare"""

    def __init__(self, p, rep):
        self.d, self.p, self.rep = Driver(p), p, rep
        self.n = {'functions': set(), 'paths': 0, 'classes': 0}

    def find(self, what, *names, has=(), least=1):
        ks = self.d.find(*names, has=has)
        if len(ks) < least:
            self.rep.unk('%s: not recognised in this tree (%s)' % (what, names[0]))
        return ks

    def root(self, name):
        k = self.p.roots.get(name)
        if k is None:
            self.rep.unk('public item %s is not in this tree' % name)
        return k

    def where(self, key):
        i = self.p.insts[key]
        sp = i.get('span')
        f = sp[0].replace('/repo/', '') if sp else '?'
        if '/src/' in f:
            f = 'src/' + f.split('/src/')[-1]
        return '%s (%s:%s)' % (self.d.name(key), f, sp[1] if sp else '?')

    def run(self, key, label, setup=None, **kw):
        self.n['functions'].add(self.d.name(key))
        self.n['classes'] += 1
        r = self.d.run(key, setup, **kw)
        if r.error or r.unknown:
            self.rep.unk('%s [%s]: %s' % (self.d.name(key), label, r.error or 'calls outside the model: %s' % sorted(r.unknown)))
            return None
        self.n['paths'] += len(r.paths)
        return r

    def expect(self, key, label, spec, setup=None, tag=None, **kw):
        """every path of every class must produce what spec(eng, path) says:
        spec returns [(what, got, want)]"""
        r = self.run(key, label, setup, **kw)
        if r is None:
            return None
        if not r.paths:
            self.rep.unk('%s [%s]: no completing path' % (self.d.name(key), label))
            return r
        self.judge(key, label, r, spec, tag, lambda: self.d.run(key, setup, **{**kw, 'bound': 2, 'peel': 0, 'plain': False}))
        return r

    def verdicts(self, key, r, spec):
        """{(what, verdict): [(path, got, want)]}, or the reason why there is none"""
        out = {}
        for p in r.paths:
            try:
                obs = spec(r.eng, p)
            except Unsupported as e:
                return str(e)
            for what, got, want in obs:
                st = p.st
                if isinstance(got, WithState):
                    st, got = got.st, got.v
                v = self.verdict(r.eng, st, got, want)
                out.setdefault((what, v), []).append((p, got, want))
        return out

    def judge(self, key, label, r, spec, tag=None, bounded=None):
        verdicts = self.verdicts(key, r, spec)
        if bounded and (isinstance(verdicts, str) or (any(v == '?' for _, v in verdicts) and not any(v == 'ne' for _, v in verdicts))):
            # something is undecided: look for a definite violation among the paths that take few rounds
            r2 = bounded()
            if not r2.unknown and r2.eng.dropped and r2.paths:
                v2 = self.verdicts(key, r2, spec)
                if not isinstance(v2, str) and any(v == 'ne' for _, v in v2):
                    verdicts, r = {k: x for k, x in v2.items() if k[1] == 'ne'}, r2
        if isinstance(verdicts, str):
            self.rep.unk('%s [%s]: %s' % (self.d.name(key), label, verdicts))
            return
        for (what, v), ps in sorted(verdicts.items(), key=lambda x: x[0]):
            name = '%s: %s [%s]' % (self.d.name(key), what, label)
            if v == 'eq':
                if (what, 'ne') not in verdicts and (what, '?') not in verdicts:
                    self.rep.good(name)
            elif v == '?':
                p, got, want = ps[0]
                self.rep.unk('%s: got %s want %s' % (name, short(r.eng, got), short(r.eng, want)))
            else:
                p, got, want = ps[0]
                self.rep.bad('%s|%s|%s' % (tag or self.d.name(key), what, label),
                             '%s: %s: for inputs with %s the result is %s, the property demands %s (case: %s)' % (
                                 self.where(key), what, label, short(r.eng, got), short(r.eng, want),
                                 ' & '.join(facts(r.eng, p.st))[:600]))

    @staticmethod
    def verdict(eng, st, got, want):
        if isinstance(got, bool) or isinstance(want, bool) or isinstance(got, str):
            return 'eq' if got == want else ('ne' if exact(st) else '?')
        v = same(st, got, want)
        if v == 'ne' and not exact(st, got, want):
            return '?'
        if v == '?' and exact(st, got, want) and apart(st, got, want):
            return 'ne'
        return v

    def done(self):
        self.rep.counts['functions analysed'] = len(self.n['functions'])
        self.rep.counts['input classes'] = self.n['classes']
        self.rep.counts['paths'] = self.n['paths']


def apart(st, got, want):
    """two cuts of one text, at the first or last places of different patterns, that need not coincide"""
    got, want = (x.a[0] if isinstance(x, T) and x.op == 'ref' else x for x in (got, want))
    if not all(isinstance(x, T) and x.op == 'seq' and len(x.a) <= 1 and all(y.op == 'sub' for y in x.a) for x in (got, want)):
        return False
    d = sub(seqlen(got), seqlen(want))
    at = [x for x, _ in d.a[1]]
    if not any(x.op in ('find', 'rfind') for x in at):
        return False
    for x in at:
        if x.op == 'len' or x.op in ('find', 'rfind') and isinstance(x.a[1], bytes) and len(x.a[1]) == 1 \
                and st.decide(mk('has', x.a[0], x.a[1])) is True:
            continue
        return False
    from sa.apply import feasible
    for k in (1, -1):
        s = st.copy()
        if s.addlin(sub(scale(d, k), ONE)) and feasible(s):
            return True
    return False


class WithState:
    """a value to be judged in a refinement of the path's state"""
    def __init__(self, st, v):
        self.st, self.v = st, v


def short(eng, t):
    if isinstance(t, T):
        return pp(eng, t)[:300]
    return str(t)


def cut_emit(tag):
    """summary of a writer: it appends one opaque part naming what is written"""
    def f(eng, st, c):
        v = c.args[0]
        while v.op in ('ref', 'mref'):
            v = v.a[0] if v.op == 'ref' else eng.load(st, v.a[0], v.a[1])
        part = mk('opq', tag, strip_refs(v))
        return [(t, models.result_of(eng, c.dty, g)) for t, g in models.emit(eng, st, c.args[1], (part,), c.path)]
    return f


def strip_refs(v):
    if v.op == 'ref':
        return strip_refs(v.a[0])
    if v.op == 'adt':
        return mk('adt', v.a[0], v.a[1], *[strip_refs(x) for x in v.a[2:]])
    return v


def cuts_for(p, table):
    """{exact instance name: summary} from {(substring, ...): summary}"""
    out = {}
    for k, i in p.insts.items():
        for pats, s in table.items():
            if all(q in i['name'] for q in pats):
                out[i['name']] = s
    return out


def assume_all(st, fs):
    sts = [st]
    for f in fs:
        sts = [t for s in sts for t in s.assume(f)]
    return sts


def row_at(st, rows):
    """effects of the rows that are possible in st (guards are jointly exhaustive)"""
    out = []
    for g, e in rows:
        if st.decide(conj(*g) if g else TRUE) is False:
            continue
        if not assume_all(st, g):
            continue
        out.append((g, e))
    return out


def joint(sa, sb):
    """sa with the facts of sb added; None when they contradict each other"""
    s = sa.copy()
    for t, v in sb.disc.items():
        if s.disc.get(t, v) != v:
            return None
        s.disc[t] = v
    for L in sb.lin:
        if not s.addlin(L):
            return None
    for f, v in sb.lits.items():
        r = s.decide(f)
        if r is not None:
            if r != v:
                return None
            continue
        ts = s.assume(f if v else neg(f))
        if not ts:
            return None
        s = ts[0]
    # facts of sa may have become decidable
    for f, v in sa.lits.items():
        t = s.copy()
        t.lits = {g: w for g, w in s.lits.items() if g is not f}
        if t.decide(f) is (not v):
            return None
    return s


def twins(o, ka, kb, what, view=None, conv=None, setup=None, kwa={}, kwb={}):
    """two functions that must produce the same on the same arguments: every pair of compatible
    paths is compared. view(eng, path) -> [(name, value)]; conv maps terms of b into those of a"""
    view = view or (lambda eng, p: [('result', p.val)] + [('output %d' % i, x) for i, x in enumerate(p.outs)])
    a = o.run(ka, what, setup, **kwa)
    b = o.run(kb, what, setup, **kwb)
    if a is None or b is None:
        return
    na, nb = o.d.name(ka), o.d.name(kb)
    if not a.paths or not b.paths:
        o.rep.unk('%s and %s: no completing path' % (na, nb))
        return
    good = bad = unk = 0
    for x in a.paths:
        for y in b.paths:
            sb = conv.state(y.st) if conv else y.st
            s = joint(x.st, sb)
            if s is None:
                continue
            va, vb = view(a.eng, x), view(b.eng, y)
            for (n, p), (_, q) in zip(va, vb):
                if conv:
                    q = conv.term(q)
                v = o.verdict(a.eng, s, p, q)
                if v == 'eq':
                    good += 1
                elif v == 'ne':
                    bad += 1
                    o.rep.bad('%s|%s|%s' % (what, na, n), '%s and %s disagree on the %s: %s against %s (case: %s)' % (
                        o.where(ka), o.where(kb), n, short(a.eng, p), short(a.eng, q), ' & '.join(facts(a.eng, s))[:600]))
                else:
                    unk += 1
                    o.rep.unk('%s / %s: %s: %s against %s' % (na, nb, n, short(a.eng, p), short(a.eng, q)))
    if good and not bad and not unk:
        o.rep.good('%s: %s and %s agree on every pair of compatible paths (%d comparisons)' % (what, na, nb, good))
