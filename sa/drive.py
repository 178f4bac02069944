"""Running the abstract interpreter on single functions and comparing what they produce."""
import sys, time
from sa.term import *
from sa.state import *
from sa.engine import Engine, Budget, Unsupported

sys.setrecursionlimit(200000)

WRITERS = {'std::vec::Vec', 'std::string::String', 'diffy_roots::Sink', 'std::fmt::Formatter'}


class Path:
    """one outcome: final state, result, and the contents behind the &mut arguments"""
    def __init__(self, st, val, outs):
        self.st, self.val, self.outs = st, val, outs

    @property
    def out(self):
        return self.outs[0] if self.outs else None


class Result:
    def __init__(self, eng, paths, error, args):
        self.eng, self.paths, self.error, self.args = eng, paths, error, args
        self.panics = eng.panics
        self.unknown = dict(eng.unknown)


class Driver:
    def __init__(self, prog):
        self.p = prog

    def find(self, *pats, has=()):
        """instances whose path (without generic arguments) ends in one of the patterns"""
        out = []
        for k, i in self.p.insts.items():
            if not i.get('body'):
                continue
            if any(i['name'] == q or i['inst'] == q for q in pats) and all(h in i['inst'] for h in has):
                out.append(k)
        return sorted(out, key=lambda k: self.p.insts[k]['inst'])

    def name(self, key):
        return self.p.insts[key]['inst'].replace('diffy_roots::', '').replace('diffy::', '')

    def arg(self, eng, st, tag, ty, empty=True):
        """an arbitrary value of the argument type; &mut arguments get a cell of their own"""
        t = self.p.types[ty]
        if t['k'] == 'ref' and t.get('mut'):
            to = t['to']
            tt = self.p.types[to]
            cell = ('in', tag)
            if tt['k'] == 'ref' and tt.get('mut'):
                v = self.arg(eng, st, tag + "'", to, empty)
            elif empty and (tt.get('name') in WRITERS):
                v = seq()
            else:
                v = eng.fresh(tag, to)
            st.cells[cell] = v
            return mk('mref', cell, ())
        return eng.fresh(tag, ty)

    def run(self, key, setup=None, fail=False, cuts=None, budget=150000, args=None, empty=True, plain=False, peel=0, bound=0, sums=False, chars=False):
        """analyse one function for arbitrary arguments; setup(eng, st, args) adds assumptions and
        may return replacement arguments"""
        eng = Engine(self.p, fail=fail, budget=budget)
        eng.plain, eng.peel, eng.bound, eng.sums, eng.chars = plain, peel, bound, sums, chars
        if cuts:
            eng.summaries.update(cuts)
        eng.root = key
        b = self.p.insts[key]['body']
        st = St()
        av = [self.arg(eng, st, 'a%d' % i, b['locals'][i + 1], empty) for i in range(b['argc'])] \
            if args is None else args
        eng.args = av
        err = None
        paths = []
        try:
            sts = [st]
            if setup:
                r = setup(eng, st, av)
                if isinstance(r, tuple):
                    sts, av = r
                elif isinstance(r, list):
                    sts = r
            cells = [c for c in st.cells if c[0] == 'in']
            for s0 in sts:
                r = eng.exec_fn(s0, key, av, (('root', 0),))
                if r is None:
                    raise Unsupported('recursion')
                for s, v in r:
                    if not s.possible():
                        continue
                    outs = [self.deepload(eng, s, c) for c in cells]
                    paths.append(Path(s, v, [o for o in outs if o.op != 'mref']))
        except (Budget, Unsupported) as e:
            err = '%s: %s' % (type(e).__name__, e)
        except (KeyError, IndexError, AttributeError, AssertionError, TypeError, ValueError, RecursionError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            err = 'not analysable: %s %s (%s:%d)' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno)
        return Result(eng, paths, err, av)

    @staticmethod
    def deepload(eng, st, c):
        return st.cells[c]


# ---------------------------------------------------------------- navigating values by field name
def get(eng, st, v, path):
    """field access by name: 'patch.hunks', variants as '?Some.0', references followed"""
    for e in path.split('.'):
        while v.op in ('ref', 'mref'):
            v = v.a[0] if v.op == 'ref' else eng.load(st, v.a[0], v.a[1])
        if e.startswith('?'):
            ty = eng.tyof(v)
            var = eng.vidx(ty, e[1:])
            if v.op == 'adt':
                if v.a[1] != var:
                    raise Unsupported('variant %s expected' % e)
            else:
                v = eng.expand(st, v, var)
            continue
        ty = eng.tyof(v)
        if v.op != 'adt':
            v2 = eng.expand(st, v)
            if v2.op == 'adt':
                v = v2
        if v.op == 'adt':
            v = v.a[2 + findex(eng, v.a[0], v.a[1], e)]
        else:
            raise Unsupported('field %s of %s' % (e, v.op))
    while v.op == 'ref':
        v = v.a[0]
    return v


def findex(eng, ty, var, name):
    t = eng.types[ty]
    if name.isdigit():
        return int(name)
    for i, f in enumerate(t['variants'][var]['fields']):
        if f['name'] == name:
            return i
    raise Unsupported('no field %s in %s' % (name, t['s']))


def vname(eng, v):
    """variant name of an adt value"""
    t = eng.types[v.a[0]]
    return t['variants'][v.a[1]]['name'] if t['k'] == 'adt' else None


def dref(v):
    while v.op == 'ref':
        v = v.a[0]
    return v


# ---------------------------------------------------------------- readable terms
def pp(eng, t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(pp(eng, x, d) for x in t) + ')'
        return repr(t) if isinstance(t, (bytes, str)) else str(t)
    if d > 40:
        return '..'
    o, a = t.op, t.a
    f = lambda x: pp(eng, x, d + 1)
    if o == 'lin':
        s = []
        for x, k in a[1]:
            s.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + f(x))
        if a[0] or not s:
            s.append(str(a[0]))
        return '+'.join(s).replace('+-', '-')
    if o == 'seq':
        return '[' + ' '.join(f(x) for x in a) + ']'
    if o == 'sub':
        n = f(a[0])
        if a[1] is ZERO and a[2] is atom(mk('len', a[0]), 0, MAXLEN):
            return n
        return '%s[%s..%s]' % (n, f(a[1]), f(a[2]))
    if o == 'in':
        return str(a[0])
    if o == 'deref':
        return f(a[0])
    if o == 'fld':
        ty = eng.tyof(a[0])
        nm = str(a[2])
        if ty is not None and ty >= 0:
            tt = eng.types[ty]
            if tt['k'] == 'adt':
                vr = tt['variants'][a[1]]
                nm = vr['fields'][a[2]]['name']
                if len(tt['variants']) > 1:
                    nm = vr['name'] + '.' + nm
        return f(a[0]) + '.' + nm
    if o == 'el':
        return '%s[%s]' % (f(a[0]), f(a[1]))
    if o == 'adt':
        tt = eng.types[a[0]]
        if tt['k'] == 'adt':
            n = tt['variants'][a[1]]['name']
            return n + ('(' + ', '.join(f(x) for x in a[2:]) + ')' if len(a) > 2 else '')
        return '(' + ', '.join(f(x) for x in a[2:]) + ')'
    if o == 'ref':
        return '&' + f(a[0])
    if o == 'isv':
        ty = eng.tyof(a[0])
        return '%s is %s' % (f(a[0]), eng.types[ty]['variants'][a[1]]['name'])
    if o == 'ge':
        return f(a[0]) + '>=0'
    if o == 'eq0':
        return f(a[0]) + '==0'
    if o == 'bytemap':
        n = sum(1 for v, x in enumerate(a[1]) if x != bytes([v]))
        return 'bytemap(%s, %d bytes changed)' % (f(a[0]), n)
    if o == 'h':
        return 'h%s' % (a[0][1:] + (a[1],) + a[2],)
    if o == 'any' and len(a) == 2 and isinstance(a[1], bytes) and len(a[1]) == 256:
        return 'any(%s, %d byte values)' % (f(a[0]), sum(a[1]))
    if not a:
        return o
    return '%s(%s)' % (o, ', '.join(f(x) for x in a))


def facts(eng, st):
    return [('' if v else 'not ') + pp(eng, f) for f, v in st.lits.items()] + \
        [pp(eng, L) + '>=0' for L in st.lin] + \
        ['%s is %s' % (pp(eng, t), eng.types[eng.tyof(t)]['variants'][v]['name']) for t, v in st.disc.items()]


# ---------------------------------------------------------------- text as a list of lines
def line_type(eng, key):
    """the text type (str or [u8]) of an instance, from its name"""
    inst = eng.p.insts[key]['inst']
    want = '[u8]' if '[u8]' in inst else 'str'
    return next(i for i, t in enumerate(eng.types) if t['s'] == want)


def lines_it(eng, text, ty, lo=None):
    s = whole(mk('lines', text))
    return mk('it', 'slice', s, ty, ZERO if lo is None else lo, seqlen(s))


def line_cuts(prog):
    """treat LineIter as the traversal of the list of lines of its text (that it is one is the
    subject of the line-splitting property)"""
    from sa import models

    def new(eng, st, c):
        s = dref(c.args[0])
        if s.op != 'seq':
            return None
        return [(st, lines_it(eng, s, line_type(eng, c.key)))]

    def nxt(eng, st, c):
        cell, path = models.target(st, eng, c.args[0])
        v = eng.load(st, cell, path)
        if v.op != 'it':
            return None
        out = []
        for t, j, x in models.next_of(eng, st, v, c.path):
            t = t.copy()
            eng.store(t, cell, path, j)
            out.append((t, models.none(eng, c.dty) if x is None else models.some(eng, c.dty, x)))
        return out
    cuts = {}
    for k, i in prog.insts.items():
        n = i['name']
        if n.startswith('diffy::utils::LineIter') and n.endswith('::new'):
            cuts[n] = new
        if 'diffy::utils::LineIter' in n and n.endswith('Iterator>::next'):
            cuts[n] = nxt
    return cuts


def parser_arg(eng, st, ty_ref, key, tag='a0'):
    """a &mut Parser positioned anywhere in an arbitrary text"""
    t = eng.types[ty_ref]
    pty = t['to']
    lt = line_type(eng, key)
    text = whole(mk('in', 'text', lt))
    pos = atom(mk('in', 'pos', -1), 0, MAXLEN)
    i = lines_it(eng, text, lt, pos)
    st.addlin(sub(i.a[-1], pos))
    cell = ('in', tag)
    st.cells[cell] = mk('adt', pty, 0, mk('it', 'peekable', i))
    return mk('mref', cell, ())
