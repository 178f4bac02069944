"""Abstract states: cells, facts, and a small relational numeric domain (linear inequalities with
Fourier-Motzkin elimination as the entailment test)."""
from sa.term import *


class St:
    __slots__ = ('cells', 'lits', 'lin', 'disc', 'notdisc', 'fail', 'bad', 'trail')

    def __init__(self):
        self.cells = {}
        self.lits = {}       # formula atom -> bool
        self.lin = ()        # linear expressions known to be >= 0
        self.disc = {}       # opaque enum term -> variant
        self.fail = None     # a write has failed (error propagation mode)
        self.bad = None
        self.trail = ()

    def copy(self):
        s = St()
        s.cells = dict(self.cells)
        s.lits = dict(self.lits)
        s.lin = self.lin
        s.disc = dict(self.disc)
        s.fail, s.bad, s.trail = self.fail, self.bad, self.trail
        return s

    def facts(self):
        return (frozenset(self.lits.items()), frozenset(self.lin), frozenset(self.disc.items()))

    # ------------------------------------------------------------ deciding formulas
    def decide(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        op = f.op
        if op == 'not':
            r = self.decide(f.a[0])
            return None if r is None else not r
        if op == 'and':
            rs = [self.decide(g) for g in f.a]
            if False in rs:
                return False
            return True if all(r is True for r in rs) else None
        if op == 'or':
            rs = [self.decide(g) for g in f.a]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if op == 'ge':
            if self.entails(f.a[0]):
                return True
            if self.entails(sub(num(-1), f.a[0])):
                return False
            return self.decide_bytes(f)
        if op == 'isv':
            t = f.a[0]
            if t.op == 'adt':
                return t.a[1] == f.a[1]
            return self.disc[t] == f.a[1] if t in self.disc else None
        if f in self.lits:
            return self.lits[f]
        if op == 'eq0':
            x = f.a[0]
            if self.entails(sub(x, ONE)) or self.entails(sub(num(-1), x)):
                return False
            if self.entails(x) and self.entails(scale(x, -1)):
                return True
            # a disequality known for the same expression is in lits; an equality with another
            # constant on the same atom decides it as well (covered by the linear facts)
            return self.decide_bytes(f)
        if op in ('sw', 'ew', 'seqeq', 'has'):
            return self.decide_str(f)
        return None

    def bytes_read(self, b):
        """the bytes of the text b that the facts speak of: [(place, atom)]"""
        out = {}
        for L in [g.a[0] for g in self.lits if g.op == 'eq0'] + list(self.lin):
            for x, _ in L.a[1]:
                if x.op == 'el' and x.a[0] is b and len(x.a) == 3:
                    out[x] = x.a[1]
        return out

    def byte_at(self, b, pos):
        """(the byte that the known beginnings and ends of pieces of b put at pos, or None; the
        bytes that they rule out)"""
        no = set()
        for g, v in self.lits.items():
            if g.op not in ('sw', 'ew', 'seqeq') or not isinstance(g.a[1], bytes) or not g.a[1] or len(g.a[0].a) != 1 \
                    or g.a[0].a[0].op != 'sub' or g.a[0].a[0].a[0] is not b:
                continue
            _, lo, hi = g.a[0].a[0].a
            q = g.a[1]
            if not v and len(q) > 1:
                continue
            d = sub(pos, sub(hi, num(len(q))) if g.op == 'ew' else lo)
            if isnum(d):
                i = cval(d)
                if not 0 <= i < len(q):
                    continue
            else:
                i = next((i for i in range(min(len(q), 4)) if self.zero(sub(d, num(i)))), None)
                if i is None:
                    continue
            if v:
                return q[i], no
            n = sub(hi, lo)
            if self.entails(sub(n, ONE)) and (g.op != 'seqeq' or self.entails(sub(ONE, n))):
                no.add(q[0])
        return None, no

    def zero(self, x):
        if isnum(x):
            return cval(x) == 0
        return self.entails(x) and self.entails(scale(x, -1))

    def decide_bytes(self, f):
        """what the known contents of a text say about a formula over its bytes"""
        x = f.a[0]
        for e, k in x.a[1]:
            if e.op != 'el' or len(e.a) != 3:
                continue
            b, pos = e.a[0], e.a[1]
            v, no = self.byte_at(b, pos)
            rest = sub(x, lin(0, ((e, k),)))
            if v is not None:
                return self.decide(ge(add(rest, num(k * v))) if f.op == 'ge' else eq0(add(rest, num(k * v))))
            if f.op == 'eq0' and not rest.a[1] and abs(k) == 1 and -rest.a[0] * k in no:
                return False
            for y, at in self.bytes_read(b).items():
                if y is e or isnum(sub(at, pos)) or not self.zero(sub(at, pos)):
                    continue
                z = add(rest, lin(0, ((y, k),)))
                if f.op == 'ge':
                    r = True if self.entails(z) else False if self.entails(sub(num(-1), z)) else None
                else:
                    g = eq0(z)
                    r = g is TRUE if g in (TRUE, FALSE) else self.lits.get(g)
                    if r is None:
                        r = False if self.entails(sub(z, ONE)) or self.entails(sub(num(-1), z)) else \
                            True if self.zero(z) else None
                if r is not None:
                    return r
        return None

    def possible(self):
        """False when what is known of the contents of some text contradicts itself"""
        for f, v in list(self.lits.items()):
            if f.op in ('sw', 'ew', 'seqeq') and isinstance(f.a[1], bytes) or \
                    f.op == 'eq0' and any(e.op == 'el' for e, _ in f.a[0].a[1]):
                t = self.copy()
                del t.lits[f]
                if t.decide(f) is (not v):
                    return False
        for L in self.lin:
            if any(e.op == 'el' for e, _ in L.a[1]) and self.decide_bytes(mk('ge', L)) is False:
                return False
        return True

    def decide_str(self, f):
        s, lit = f.a[0], f.a[1]
        if not isinstance(lit, bytes):
            return None
        op = f.op
        n = seqlen(s)
        if op == 'sw' and self.decide(ge(sub(n, num(len(lit))))) is False:
            return False
        if op == 'ew' and self.decide(ge(sub(n, num(len(lit))))) is False:
            return False
        if op == 'seqeq':
            if self.decide(eq0(sub(n, num(len(lit))))) is False:
                return False
        for g, v in self.lits.items():
            if g.op not in ('sw', 'ew', 'seqeq', 'has') or g.a[0] is not s or not isinstance(g.a[1], bytes):
                continue
            q = g.a[1]
            if v:
                if g.op == 'sw':
                    if op == 'sw':
                        if q.startswith(lit):
                            return True
                        if not lit.startswith(q):
                            return False
                    if op == 'seqeq' and not lit.startswith(q):
                        return False
                    if op == 'has' and lit in q:
                        return True
                elif g.op == 'ew':
                    if op == 'ew':
                        if q.endswith(lit):
                            return True
                        if not lit.endswith(q):
                            return False
                    if op == 'seqeq' and not lit.endswith(q):
                        return False
                    if op == 'has' and lit in q:
                        return True
                elif g.op == 'seqeq':
                    return {'sw': q.startswith(lit), 'ew': q.endswith(lit), 'seqeq': q == lit,
                            'has': lit in q}[op]
            else:
                if g.op == 'sw' and op in ('sw', 'seqeq') and lit.startswith(q):
                    return False
                if g.op == 'ew' and op in ('ew', 'seqeq') and lit.endswith(q):
                    return False
                if g.op == 'has' and q in lit:
                    return False
        if op in ('sw', 'ew', 'seqeq') and len(s.a) == 1 and s.a[0].op == 'sub' and lit:
            return self.decide_overlap(op, s.a[0], n, lit)
        return None

    def decide_overlap(self, op, part, n, lit):
        """prefix and suffix facts about overlapping pieces of the same text"""
        b, lo, hi = part.a
        if op == 'seqeq':
            # whole pieces of known length
            r = [self.decide_overlap('sw', part, n, lit), self.decide_overlap('ew', part, n, lit)]
            if False in r:
                return False
            if True in r and self.decide(eq0(sub(n, num(len(lit))))) is True:
                return True
            return None
        start = lo if op == 'sw' else sub(hi, num(len(lit)))
        known = 0
        els = self.bytes_read(b)
        for i in range(len(lit)) if els else ():
            at = add(start, num(i))
            hits = [e for e, p in els.items() if self.zero(sub(p, at))]
            rs = [self.decide(eq0(lin(-lit[i], ((e, 1),)))) for e in hits]
            if False in rs:
                return False
            known += True in rs
        if known == len(lit) and self.entails(sub(n, num(known))):
            return True
        for g, v in self.lits.items():
            if g.op not in ('sw', 'ew', 'seqeq') or not isinstance(g.a[1], bytes) or len(g.a[0].a) != 1 \
                    or g.a[0].a[0].op != 'sub' or g.a[0].a[0].a[0] is not b:
                continue
            _, l2, h2 = g.a[0].a[0].a
            q = g.a[1]
            if op == 'sw' and g.op in ('sw', 'seqeq') and l2 is lo:
                pre = q.startswith(lit)
                clash = not pre and not lit.startswith(q)
            elif op == 'ew' and g.op in ('ew', 'seqeq') and h2 is hi:
                pre = q.endswith(lit)
                clash = not pre and not lit.endswith(q)
            else:
                continue
            if v:
                if pre and self.entails(sub(n, num(len(lit)))):
                    return True
                if clash:
                    return False
            elif g.op == op and (lit.startswith(q) if op == 'sw' else lit.endswith(q)) and \
                    self.entails(sub(sub(h2, l2), num(len(q)))):
                return False
        return None

    # ------------------------------------------------------------ assuming formulas
    def assume(self, f):
        """states in which f holds (possibly several, disjoint)"""
        r = self.decide(f)
        if r is True:
            return [self]
        if r is False:
            return []
        op = f.op
        if op == 'and':
            sts = [self]
            for g in f.a:
                sts = [t for s in sts for t in s.assume(g)]
            return sts
        if op == 'or':
            out, rest = [], [self]
            for g in f.a:
                out += [t for s in rest for t in s.assume(g)]
                rest = [t for s in rest for t in s.assume(neg(g))]
            return out
        if op == 'not':
            g = f.a[0]
            if g.op == 'and':
                return self.assume(disj(*[neg(x) for x in g.a]))
            if g.op == 'or':
                return self.assume(conj(*[neg(x) for x in g.a]))
            s = self.copy()
            s.lits[g] = False
            if g.op == 'eq0':
                x = g.a[0]
                if s.entails(x):
                    s.addlin(sub(x, ONE))
                elif s.entails(scale(x, -1)):
                    s.addlin(sub(num(-1), x))
            if g.op == 'seqeq' and g.a[1] == b'':
                s.addlin(sub(seqlen(g.a[0]), ONE))
            elif g.op == 'seqeq' and isinstance(g.a[1], bytes):
                s.longer(g.a[0], g.a[1])
            return [s]
        s = self.copy()
        if op == 'isv':
            s.disc[f.a[0]] = f.a[1]
            return [s]
        if op == 'ge':
            if not s.addlin(f.a[0]):
                return []
            return [s]
        s.lits[f] = True
        if op == 'eq0':
            if not (s.addlin(f.a[0]) and s.addlin(scale(f.a[0], -1))):
                return []
        if op in ('sw', 'ew', 'has') and isinstance(f.a[1], bytes):
            if not s.addlin(sub(seqlen(f.a[0]), num(len(f.a[1])))):
                return []
            if s.lits.get(mk('seqeq', f.a[0], f.a[1])) is False and not s.longer(f.a[0], f.a[1]):
                return []
        if op == 'seqeq':
            m = num(len(f.a[1])) if isinstance(f.a[1], bytes) else seqlen(f.a[1])
            n = sub(seqlen(f.a[0]), m)
            if not (s.addlin(n) and s.addlin(scale(n, -1))):
                return []
        return [s]

    def longer(self, x, b):
        """x starts or ends with b and is not b: there is more of it"""
        if self.decide_str(mk('sw', x, b)) is True or self.decide_str(mk('ew', x, b)) is True:
            return self.addlin(sub(seqlen(x), num(len(b) + 1)))
        return True

    def split(self, f):
        return self.assume(f), self.assume(neg(f))

    def addlin(self, x):
        if self.entails(x):
            return True
        if self.entails(sub(num(-1), x)):
            return False
        self.lin = self.lin + (x,)
        # disequalities that became strict inequalities
        for g, v in list(self.lits.items()):
            if v is False and g.op == 'eq0' and g.a[0] is not x:
                y = g.a[0]
                if set(p for p, _ in y.a[1]) & set(p for p, _ in x.a[1]):
                    if self.entails(y):
                        z = sub(y, ONE)
                        if not self.entails(z):
                            self.lin = self.lin + (z,)
                    elif self.entails(scale(y, -1)):
                        z = sub(num(-1), y)
                        if not self.entails(z):
                            self.lin = self.lin + (z,)
        return True

    # ------------------------------------------------------------ entailment
    def entails(self, x):
        lo, hi = range_of(x)
        if lo is not None and lo >= 0:
            return True
        if not x.a[1]:
            return x.a[0] >= 0
        return entail(self.lin, x)


_memo = {}


def entail(facts, x):
    k = (facts, x)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _entail(facts, x)
        if len(_memo) > 400000:
            _memo.clear()
    return r


def _entail(facts, x):
    # refute: facts, bounds, and  -x - 1 >= 0
    goal = sub(num(-1), x)
    cons = [goal]
    seen = {t for t, _ in goal.a[1]}
    rest = list(facts)
    changed = True
    while changed:
        changed = False
        nxt = []
        for f in rest:
            if any(t in seen for t, _ in f.a[1]):
                cons.append(f)
                for t, _ in f.a[1]:
                    if t not in seen:
                        seen.add(t)
                changed = True
            else:
                nxt.append(f)
        rest = nxt
    for t in seen:
        if t.lo is not None:
            cons.append(lin(-t.lo, ((t, 1),)))
        if t.hi is not None and t.hi < MAXLEN:
            cons.append(lin(t.hi, ((t, -1),)))
    if any(t.hi is not None and t.hi >= MAXLEN for t in seen) and abs(goal.a[0]) > 2 ** 40:
        for t in seen:
            if t.hi is not None and t.hi >= MAXLEN:
                cons.append(lin(t.hi, ((t, -1),)))
    return infeasible([(c.a[0], dict(c.a[1])) for c in cons])


def infeasible(cons, cap=600, strict=False):
    from math import gcd
    cons = dedupe(cons)
    if cons is None:
        return True
    while True:
        vs = {}
        for c, d in cons:
            for t, k in d.items():
                p, n = vs.get(t, (0, 0))
                vs[t] = (p + (k > 0), n + (k < 0))
        if not vs:
            return False
        t = min(vs, key=lambda v: (vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1], v.id))
        pos, negs, new = [], [], []
        for c in cons:
            k = c[1].get(t, 0)
            (pos if k > 0 else negs if k < 0 else new).append(c)
        if len(pos) * len(negs) + len(new) > cap:
            return strict
        for pc, pd in pos:
            for nc, nd in negs:
                a, b = pd[t], -nd[t]
                d = {}
                for u, k in pd.items():
                    d[u] = d.get(u, 0) + k * b
                for u, k in nd.items():
                    d[u] = d.get(u, 0) + k * a
                d = {u: k for u, k in d.items() if k}
                new.append((pc * b + nc * a, d))
        cons = dedupe(new)
        if cons is None:
            return True


def dedupe(cons):
    """normalise (integer tightening); None when a constant contradiction is found"""
    from math import gcd
    best = {}
    for c, d in cons:
        if not d:
            if c < 0:
                return None
            continue
        g = 0
        for k in d.values():
            g = gcd(g, abs(k))
        if g > 1:
            c = c // g
            d = {t: k // g for t, k in d.items()}
        key = tuple(sorted(((t.id, k) for t, k in d.items())))
        if key not in best or best[key][0] > c:
            best[key] = (c, d)
    # x >= a and -x >= b with a contradiction
    for key, (c, d) in best.items():
        nk = tuple((i, -k) for i, k in key)
        if nk in best and best[nk][0] + c < 0:
            return None
    return list(best.values())


# ---------------------------------------------------------------- sequences
def partlen(p):
    o = p.op
    if o == 'lit':
        return num(len(p.a[0]))
    if o == 'el1':
        return ONE
    if o == 'sub':
        return add(p.a[2], p.a[1], -1)
    if o == 'fill':
        return p.a[1]
    if o == 'comp' and len(p.a[2]) == 1 and not p.a[2][0][0] and p.a[2][0][1].op == 'seq':
        n = [partlen(q) for q in p.a[2][0][1].a]          # the same number of items for every one
        if all(isnum(x) for x in n):
            return scale(add(p.a[1], p.a[0], -1), sum(x.a[0] for x in n))
    return atom(mk('plen', p), 0, MAXLEN)


def seqlen(s):
    if s.op != 'seq':
        return atom(mk('len', s), 0, MAXLEN)
    n = ZERO
    for p in s.a:
        n = add(n, partlen(p))
    return n


def seq(*parts):
    out = []
    for p in parts:
        if p.op == 'lit':
            if not p.a[0]:
                continue
            if out and out[-1].op == 'lit':
                out[-1] = mk('lit', out[-1].a[0] + p.a[0])
                continue
        if p.op == 'sub':
            if p.a[1] is p.a[2]:
                continue
            if out and out[-1].op == 'sub' and out[-1].a[0] is p.a[0] and out[-1].a[2] is p.a[1]:
                out[-1] = mk('sub', p.a[0], out[-1].a[1], p.a[2])
                continue
        if p.op == 'fill' and p.a[1] is ZERO:
            continue
        out.append(p)
    return mk('seq', *out)


REBUILD['seq'] = seq


def lit(b):
    return seq(mk('lit', b))


def whole(s):
    """the sequence value of an opaque sequence term"""
    if s.op == 'seq':
        return s
    return seq(mk('sub', s, ZERO, atom(mk('len', s), 0, MAXLEN)))


def litval(s):
    """bytes of a literal sequence, or None"""
    if s.op != 'seq':
        return None
    if not s.a:
        return b''
    if len(s.a) == 1 and s.a[0].op == 'lit':
        return s.a[0].a[0]
    out = b''
    for p in s.a:
        if p.op == 'lit':
            out += p.a[0]
        elif p.op == 'el1' and p.a[0].op == 'lin' and isnum(p.a[0]) and 0 <= p.a[0].a[0] < 256:
            out += bytes([p.a[0].a[0]])
        else:
            return None
    return out


def subseq(s, lo, hi, st):
    """s[lo..hi]; bounds are known to hold"""
    if lo is hi or st.decide(eq0(sub(hi, lo))) is True:
        return seq()
    n = seqlen(s)
    if lo is ZERO and hi is n:
        return s
    if len(s.a) == 1 and s.a[0].op == 'sub':
        b, l, h = s.a[0].a
        return seq(mk('sub', b, add(l, lo), add(l, hi)))
    if len(s.a) == 1 and s.a[0].op == 'fill':
        return seq(mk('fill', s.a[0].a[0], sub(hi, lo)))
    # walk the parts
    out = []
    off = ZERO
    started = False
    for p in s.a:
        pl = partlen(p)
        end = add(off, pl)
        a, b = sub(lo, off), sub(hi, off)         # relative to this part
        if not started:
            if st.entails(sub(a, pl)):            # lo >= end: skip
                off = end
                continue
            if not st.entails(a):                 # lo < off not excluded, and not started
                if not st.entails(scale(a, -1)):
                    break
        elif True:
            a = ZERO
        if started or st.entails(scale(a, -1)):
            a = ZERO
        started = True
        done = False
        if st.entails(sub(pl, b)):                # hi within this part
            done = True
            if p.op == 'el1' and b is not pl and st.entails(sub(b, pl)):
                b = pl
        elif not st.entails(sub(b, pl)):
            break
        else:
            b = pl
        if a is ZERO and b is pl:
            out.append(p)
        elif p.op == 'lit' and isnum(a) and isnum(b):
            out.append(mk('lit', p.a[0][a.a[0]:b.a[0]]))
        elif p.op == 'sub':
            out.append(mk('sub', p.a[0], add(p.a[1], a), add(p.a[1], b)))
        else:
            break
        if done:
            return seq(*out)
        off = end
    else:
        if started:
            return seq(*out)
        return seq()
    return seq(mk('sub', s, lo, hi))
