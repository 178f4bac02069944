"""Hash-consed terms: the value domain of the abstract interpreter.

Numbers are linear expressions over atoms, booleans are formulas, sequences are concatenations of
parts.  Equality of terms is identity."""

_table = {}
_n = 0


class T:
    __slots__ = ('op', 'a', 'id', 'lo', 'hi', '_atoms', '_size')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    global _n
    k = (op,) + a
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        t.lo = t.hi = None
        if op == 'len' and a[0].op == 'el' and a[0].a[0].op == 'lines':
            t.lo = 1                                 # a line is never empty
        t._atoms = None
        t._size = None
        _n += 1
        t.id = _n
        _table[k] = t
    return t


# ---------------------------------------------------------------- linear expressions
MAXLEN = 2 ** 63 - 1


def lin(c, items=()):
    """items: dict atom -> coefficient or an iterable of pairs"""
    d = {}
    for x, k in (items.items() if isinstance(items, dict) else items):
        d[x] = d.get(x, 0) + k
    its = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].id))
    return mk('lin', c, its)


def num(c):
    return mk('lin', c, ())


ZERO, ONE = num(0), num(1)


def atom(t, lo=None, hi=None):
    """a numeric atom as a linear expression; bounds are recorded with the atom"""
    if lo is not None and (t.lo is None or lo > t.lo):
        t.lo = lo
    if hi is not None and (t.hi is None or hi < t.hi):
        t.hi = hi
    return mk('lin', 0, ((t, 1),))


def add(x, y, k=1):
    if not y.a[1]:
        return mk('lin', x.a[0] + k * y.a[0], x.a[1]) if k * y.a[0] else x
    return lin(x.a[0] + k * y.a[0], list(x.a[1]) + [(t, k * c) for t, c in y.a[1]])


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    return lin(x.a[0] * k, [(t, c * k) for t, c in x.a[1]])


def isnum(x):
    return x.op == 'lin' and not x.a[1]


def cval(x):
    return x.a[0] if x.op == 'lin' and not x.a[1] else None


# ---------------------------------------------------------------- formulas
TRUE, FALSE = mk('T'), mk('F')


def boolc(b):
    return TRUE if b else FALSE


def range_of(x):
    """interval of a linear expression from the bounds of its atoms"""
    lo = hi = x.a[0]
    for t, k in x.a[1]:
        l, h = (t.lo, t.hi) if k > 0 else (t.hi, t.lo)
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def ge(x):
    """x >= 0"""
    lo, hi = range_of(x)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    return mk('ge', x)


def eq0(x):
    if not x.a[1]:
        return boolc(x.a[0] == 0)
    lo, hi = range_of(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if x.a[1][0][1] < 0:
        x = scale(x, -1)
    return mk('eq0', x)


def neg(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'not':
        return f.a[0]
    if f.op == 'ge':
        return ge(sub(num(-1), f.a[0]))
    return mk('not', f)


def conj(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        for g in (f.a if f.op == 'and' else (f,)):
            if neg(g) in out:
                return FALSE
            if g not in out:
                out.append(g)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', *out)


def disj(*fs):
    out = []
    for f in fs:
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        for g in (f.a if f.op == 'or' else (f,)):
            if neg(g) in out:
                return TRUE
            if g not in out:
                out.append(g)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk('or', *out)


FORMULA = {'T', 'F', 'ge', 'eq0', 'not', 'and', 'or', 'p', 'sw', 'ew', 'seqeq', 'has', 'any',
           'same', 'utf8', 'parses', 'isv'}


# ---------------------------------------------------------------- generic traversal
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tupch(x)


def _tupch(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tupch(y)


def mentions(t):
    """every sub-term (memoised as a frozenset)"""
    if t._atoms is None:
        s = {t}
        for c in children(t):
            s |= mentions(c)
        t._atoms = frozenset(s)
    return t._atoms


def subst(t, m, memo=None):
    """replace sub-terms (keys of m) by values; atoms of linear expressions may map to `lin`"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not any(k in mentions(t) for k in m):
        memo[t] = t
        return t
    if t.op == 'lin':
        r = num(t.a[0])
        for x, k in t.a[1]:
            y = subst(x, m, memo)
            r = add(r, y if y.op == 'lin' else lin(0, ((y, 1),)), k)
    elif t.op in REBUILD:
        r = REBUILD[t.op](*[_sx(x, m, memo) for x in t.a])
    else:
        r = mk(t.op, *[_sx(x, m, memo) for x in t.a])
        if r.lo is None:
            r.lo = t.lo
        if r.hi is None:
            r.hi = t.hi
    memo[t] = r
    return r


def _sx(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_sx(y, m, memo) for y in x)
    return x


REBUILD = {'ge': ge, 'eq0': eq0, 'not': neg, 'and': conj, 'or': disj}


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return repr(t) if isinstance(t, (bytes, str)) else str(t)
    if d > 14:
        return '..'
    o, a = t.op, t.a
    if o == 'lin':
        s = []
        for x, k in a[1]:
            s.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + show(x, d + 1))
        if a[0] or not s:
            s.append(str(a[0]))
        return '+'.join(s).replace('+-', '-')
    if o == 'seq':
        return '[' + ' '.join(show(x, d + 1) for x in a) + ']'
    if o == 'adt':
        return '#%s.%s(%s)' % (a[0], a[1], ','.join(show(x, d + 1) for x in a[2:]))
    if o == 'ref':
        return '&' + show(a[0], d + 1)
    if not a:
        return o
    return '%s(%s)' % (o, ','.join(show(x, d + 1) for x in a))
