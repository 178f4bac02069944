"""Comparing what a path produced with what the property demands.

`eq`: equal for every input of the path's class; `ne`: some input of the class tells them apart;
`?`: neither could be established (never an alarm)."""
from sa.term import *
from sa.state import *

PURE = {"eqic", 'in', 'fld', 'el', 'deref', 'lin', 'seq', 'sub', 'len', 'lines'}


def pure(t):
    """built from the arguments alone: free to take any value"""
    return all(x.op in PURE for x in mentions(t))


def split_known(st, p):
    """parts of p with the bytes the facts fix made explicit, or None"""
    S = seq(p)
    b, lo, hi = p.a
    for g, v in st.lits.items():
        if not v or g.op not in ('sw', 'ew', 'seqeq') or g.a[0] is not S or not isinstance(g.a[1], bytes):
            continue
        k = g.a[1]
        if g.op == 'seqeq':
            return (mk('lit', k),)
        if g.op == 'sw':
            return seq(mk('lit', k), mk('sub', b, add(lo, num(len(k))), hi)).a
        return seq(mk('sub', b, lo, sub(hi, num(len(k)))), mk('lit', k)).a
    return None


def const_of(st, x):
    """the constant a linear expression is known to equal"""
    if not x.a[1]:
        return x.a[0]
    for g, v in st.lits.items():
        if v and g.op == 'eq0':
            for k in (1, -1):
                d = sub(x, scale(g.a[0], k))
                if not d.a[1]:
                    return d.a[0]
    if len(x.a[1]) <= 2:
        for c in range(0, 3):
            if st.decide(eq0(sub(x, num(c)))) is True:
                return c
    return None


def canon(st, s):
    out = []
    todo = list(reversed(s.a))
    n = 0
    while todo:
        p = todo.pop()
        n += 1
        if n > 400:
            break
        if p.op == 'sub':
            if st.decide(eq0(sub(p.a[2], p.a[1]))) is True:
                continue
            k = split_known(st, p)
            if k is not None:
                todo += list(reversed(k))
                continue
            if p.a[0].op == 'seq' and p.a[1] is ZERO and p.a[2] is seqlen(p.a[0]):
                todo += list(reversed(p.a[0].a))
                continue
        elif p.op == 'el1' and p.a[0].op == 'lin':
            c = const_of(st, p.a[0])
            if c is not None and 0 <= c < 256:
                p = mk('lit', bytes([c]))
        elif p.op == 'disp' and p.a[0] == 'dec':
            c = const_of(st, p.a[1])
            if c is not None:
                p = mk('lit', str(c).encode())
        elif p.op == 'fill':
            k = const_of(st, p.a[1])
            c = p.a[0]
            v = const_of(st, c) if c.op == 'lin' else None
            if k == 0:
                continue
            if k is not None and v is not None and 0 <= v < 128 and k < 64:
                p = mk('lit', bytes([v]) * k)
        elif p.op == 'comp' and st.decide(eq0(sub(p.a[1], p.a[0]))) is True:
            continue
        out.append(p)
    return seq(*out)


def same_part(st, p, q):
    if p is q:
        return True
    if p.op != q.op:
        return None
    if p.op == 'sub' and p.a[0] is q.a[0]:
        a, b = st.decide(eq0(sub(p.a[1], q.a[1]))), st.decide(eq0(sub(p.a[2], q.a[2])))
        if a is True and b is True:
            return True
        return None
    if p.op == 'el1':
        return {'eq': True, 'ne': False}.get(same(st, p.a[0], q.a[0]))
    if p.op == 'disp' and p.a[:-1] == q.a[:-1]:
        return {'eq': True, 'ne': False}.get(same(st, p.a[-1], q.a[-1]))
    if p.op == 'fill' and st.decide(eq0(sub(p.a[1], q.a[1]))) is True:
        return {'eq': True}.get(same(st, p.a[0], q.a[0]))
    return None


def sameseq(st, got, want):
    g, w = list(canon(st, got).a), list(canon(st, want).a)
    # strip what agrees at both ends
    for end in (0, -1):
        while g and w:
            p, q = g[end], w[end]
            r = same_part(st, p, q)
            if r is True:
                g.pop(end)
                w.pop(end)
                continue
            if r is False:
                return 'ne'
            if p.op == 'lit' and q.op == 'lit':
                x, y = p.a[0], q.a[0]
                if end == 0:
                    k = 0
                    while k < min(len(x), len(y)) and x[k] == y[k]:
                        k += 1
                    x, y, bad = x[k:], y[k:], k < min(len(x), len(y))
                else:
                    k = 0
                    while k < min(len(x), len(y)) and x[-1 - k] == y[-1 - k]:
                        k += 1
                    x, y, bad = x[:len(x) - k], y[:len(y) - k], k < min(len(x), len(y))
                if bad:
                    return 'ne'
                g.pop(end)
                w.pop(end)
                at = 0 if end == 0 else len(g)
                if x:
                    g.insert(at, mk('lit', x))
                at = 0 if end == 0 else len(w)
                if y:
                    w.insert(at, mk('lit', y))
                continue
            if p.op == 'sub' and q.op == 'sub' and p.a[0] is q.a[0]:
                # the same text up to a length
                if end == 0 and st.decide(eq0(sub(p.a[1], q.a[1]))) is True:
                    d = sub(p.a[2], q.a[2])
                    if st.entails(d):
                        g[0] = mk('sub', p.a[0], q.a[2], p.a[2])
                        w.pop(0)
                        continue
                    if st.entails(scale(d, -1)):
                        w[0] = mk('sub', q.a[0], p.a[2], q.a[2])
                        g.pop(0)
                        continue
                if end == -1 and st.decide(eq0(sub(p.a[2], q.a[2]))) is True:
                    d = sub(p.a[1], q.a[1])
                    if st.entails(scale(d, -1)):      # got starts earlier
                        g[-1] = mk('sub', p.a[0], p.a[1], q.a[1])
                        w.pop()
                        continue
                    if st.entails(d):
                        w[-1] = mk('sub', q.a[0], q.a[1], p.a[1])
                        g.pop()
                        continue
            break
    if not g and not w:
        return 'eq'
    d = sub(seqlen(seq(*g)), seqlen(seq(*w)))
    z = st.decide(eq0(d))
    if z is False:
        return 'ne'
    if not g or not w:
        r = (g or w)
        # something may be there or not: told apart by an input where it is there
        if all(p.op in ('sub', 'lit', 'el1', 'disp', 'fill', 'comp', 'bytemap') for p in r) and z is None:
            return 'ne' if all(p.op in ('lit', 'el1', 'disp') or pure(p) for p in r) else '?'
        return '?'
    p, q = g[0], w[0]
    if p.op == 'sub' and q.op == 'sub' and pure(p) and pure(q):
        if p.a[0] is not q.a[0]:
            return '?' if related(st, p.a[0], q.a[0]) else 'ne'
        if st.decide(eq0(sub(p.a[1], q.a[1]))) is False:
            return 'ne' if not any(x in mentions(f) for f in st.lits for x in (p.a[0],)) else '?'
    if {p.op, q.op} <= {'sub', 'lit', 'disp'} and p.op != q.op:
        f = p if p.op == 'sub' else q
        if f.op == 'sub' and pure(f) and not any(f.a[0] in mentions(l) for l in st.lits):
            return 'ne'
        if {p.op, q.op} == {'lit', 'disp'}:
            return 'ne'
    if p.op == 'disp' and q.op == 'disp' and p.a[0] != q.a[0]:
        return 'ne'
    return '?'


def related(st, a, b):
    return any(v and f.op in ('seqeq', 'same') and a in mentions(f) and b in mentions(f) for f, v in st.lits.items())


def apart(st, d):
    """some input of the class makes d non-zero, although linear facts tie its atoms: every fact that
    touches them is linear with unit coefficients over the arguments, so a rational point is enough"""
    seen = {t for t, _ in d.a[1]}
    cons = []
    rest = list(st.lin)
    diseq = [f.a[0] for f, v in st.lits.items() if f.op == 'eq0' and not v]
    while True:
        new = [L for L in rest if seen & {t for t, _ in L.a[1]}]
        newd = [L for L in diseq if seen & {t for t, _ in L.a[1]}]
        if not new and not newd:
            break
        rest = [L for L in rest if L not in new]
        diseq = [L for L in diseq if L not in newd]
        cons += [(L, False) for L in new] + [(L, True) for L in newd]
        for L in new + newd:
            seen |= {t for t, _ in L.a[1]}
    if len(cons) > 40 or sum(1 for _, q in cons if q) > 5:
        return False
    for t in seen:
        if not pure(t):
            return False
    if any(abs(k) != 1 for L, _ in cons for _, k in L.a[1]) or any(abs(k) != 1 for _, k in d.a[1]):
        return False
    for f in st.lits:
        if f.op not in ('eq0', 'ge') and (f.op != 'p' or f.a[0].op != 'match') and seen & mentions(f):
            return False
    base = [L for L, q in cons if not q]
    alts = [[]]
    for L, q in cons:
        if q:
            alts = [a + [x] for a in alts for x in (sub(L, ONE), sub(num(-1), L))]
    for sg in (sub(d, ONE), sub(num(-1), d)):
        for a in alts:
            cs = [(L.a[0], dict(L.a[1])) for L in base + a + [sg]]
            for t in seen:
                if t.lo is not None:
                    cs.append((-t.lo, {t: 1}))
                if t.hi is not None and t.hi < MAXLEN:
                    cs.append((t.hi, {t: -1}))
            if not infeasible(cs, cap=10 ** 9 if len(cs) < 16 else 4000, strict=True):
                return True
    return False


def same(st, a, b):
    """eq / ne / ? for two values"""
    if a is b:
        return 'eq'
    while a.op == 'ref' and b.op == 'ref':
        a, b = a.a[0], b.a[0]
    if a is b:
        return 'eq'
    if a.op == 'lin' and b.op == 'lin':
        r = st.decide(eq0(sub(a, b)))
        if r is True:
            return 'eq'
        if r is False:
            return 'ne'
        if pure(a) and pure(b):
            d = sub(a, b)
            # free atoms: some value tells them apart unless the facts tie them
            ats = {t for t, _ in d.a[1]}
            if not any(ats & {t for t, _ in L.a[1]} for L in st.lin) and \
                    not any(ats & mentions(f) for f in st.lits):
                return 'ne'
            if apart(st, d):
                return 'ne'
        return '?'
    if a.op in FORMULA and b.op in FORMULA:
        x, y = st.decide(a), st.decide(b)
        if x is not None and y is not None:
            return 'eq' if x == y else 'ne'
        if (x is None) != (y is None):
            f = b if y is None else a
            if f.op == 'p' and pure(f.a[0]):
                return 'ne'
            if f.op == 'not' and f.a[0].op == 'p' and pure(f.a[0].a[0]):
                return 'ne'
        if x is None and y is None and a is neg(b):
            return 'ne'
        if a.op == 'p' and b.op == 'p' and pure(a.a[0]) and pure(b.a[0]):
            return 'ne'
        return '?'
    if a.op == 'seq' and b.op == 'seq':
        return sameseq(st, a, b)
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return 'ne'
        rs = [same(st, x, y) for x, y in zip(a.a[2:], b.a[2:])]
        if 'ne' in rs:
            return 'ne'
        return 'eq' if all(r == 'eq' for r in rs) else '?'
    for x, y in ((a, b), (b, a)):
        if x.op in ('in', 'fld', 'el', 'deref') and y.op == 'adt':
            d = st.disc.get(x)
            if d is not None and d != y.a[1]:
                return 'ne'
            if d is None and pure(x):
                return 'ne'
            return '?'
    if a.op in ('in', 'fld', 'el', 'deref') and b.op in ('in', 'fld', 'el', 'deref') and pure(a) and pure(b):
        if a in st.disc and b in st.disc:
            if st.disc[a] != st.disc[b]:
                return 'ne'
            return '?'
        return 'ne'
    return '?'
