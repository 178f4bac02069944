"""Abstract interpretation of the monomorphic MIR, with trace partitioning.

Every function is analysed in the context of its caller (inlined).  Branches split the abstract
state; loop heads are abstracted by anti-unification of the incoming states, with linear invariants
found by elimination of candidates (Houdini).  Nothing is executed and no solver is involved."""
from sa.term import *
from sa.state import *

U64 = 2 ** 64 - 1
SEQ_ADTS = {'std::vec::Vec', 'std::string::String', 'diffy_roots::Sink'}


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Panic:
    def __init__(self, st, where, why):
        self.st, self.where, self.why = st, where, why


class Part:
    """one head partition of a loop"""
    __slots__ = ('shape', 'cells', 'atoms', 'cands', 'dropped', 'inc', 'outs', 'idx', 'alias', 'gen', 'keep', 'kept')


class LoopRec:
    """a stabilised loop: partitions with their head states and rows"""
    def __init__(self, site, where, st0, parts):
        self.site, self.where, self.st0, self.parts = site, where, st0, parts
        self.accel = None


class Engine:
    def __init__(self, prog, fail=False, budget=400000):
        self.p = prog
        self.types = prog.types
        self.fail = fail
        self.budget = budget
        self.steps = 0
        self.paths = {}
        self.panics = []
        self.unknown = {}
        self.visited = {}
        self.loopinfo = {}
        self.liveinfo = {}
        self.nloops = 0
        self.stack = []
        self.tmpn = 0
        self.sink = 0          # >0: panics of speculative loop rounds are not recorded
        self.summaries = {}    # inst name -> model (set by checks)
        self.hooks = []
        self.chars = False     # cutting a str inside a character is a panic
        self.frames = {}
        self.lastloops = {}
        self.plain = False     # no closed forms for loops
        self.alias = False
        self.sums = False      # look for sums of two quantities that stay the same, too
        self.peel = 0          # rounds followed one by one before a loop is generalised
        self.bound = 0         # follow only this many rounds of loops without a closed form (to refute)
        self.dropped = 0       # states given up by the bound
        from sa import models, text, more, maps
        self.models = models.MODELS
        self.prefix_models = models.PREFIX

    # ------------------------------------------------------------ types
    def tk(self, ty):
        return self.types[ty]

    def is_seq(self, ty):
        t = self.types[ty]
        return t['k'] in ('str', 'slice', 'array') or (t['k'] == 'adt' and t['name'] in SEQ_ADTS)

    def elem_ty(self, ty):
        t = self.types[ty]
        if t['k'] in ('slice', 'array'):
            return t['elem']
        if t['k'] == 'adt' and t['name'] == 'std::vec::Vec':
            return t['args'][0]
        return self.u8()

    def u8(self):
        if not hasattr(self, '_u8'):
            self._u8 = next(i for i, t in enumerate(self.types) if t['s'] == 'u8')
        return self._u8

    def bounds(self, ty):
        t = self.types[ty]
        s = t['s']
        if t['k'] == 'char':
            return 0, 0x10FFFF
        if t['k'] in ('uint', 'int'):
            w = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128, 'size': 64}[s[1:]]
            return (0, 2 ** w - 1) if t['k'] == 'uint' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        return None

    def vidx(self, ty, name):
        for i, v in enumerate(self.types[ty]['variants']):
            if v['name'] == name:
                return i
        raise Unsupported('no variant %s in %s' % (name, self.types[ty]['s']))

    def variant(self, ty, name, *fields):
        return mk('adt', ty, self.vidx(ty, name), *fields)

    def unit(self, ty):
        return mk('adt', ty, 0)

    def fields(self, ty, var):
        t = self.types[ty]
        if t['k'] == 'tuple':
            return list(t['elems'])
        return [f['ty'] for f in t['variants'][var]['fields']]

    def expands(self, t):
        if t['k'] != 'adt' or t.get('ak') == 'enum' or len(t.get('variants', [])) != 1:
            return False
        return t['krate'].startswith('diffy') or t['name'].startswith('std::ops::Range')

    # the value of type ty denoted by the opaque term x
    def mat(self, x, ty):
        t = self.types[ty]
        k = t['k']
        b = self.bounds(ty)
        if b:
            return atom(x, *b)
        if k == 'bool':
            return mk('p', x)
        if self.is_seq(ty):
            return whole(x)
        if k == 'ref':
            if t.get('mut'):
                raise Unsupported('opaque &mut')
            return mk('ref', self.mat(mk('deref', x, t['to']), t['to']))
        if k == 'tuple':
            return mk('adt', ty, 0, *[self.mat(mk('fld', x, 0, i, e), e)
                                      for i, e in enumerate(t['elems'])])
        if k in ('fndef', 'closure'):
            return mk('adt', ty, 0)
        if self.expands(t):
            return mk('adt', ty, 0, *[self.mat(mk('fld', x, 0, i, f), f)
                                      for i, f in enumerate(self.fields(ty, 0))])
        return x

    ATOMIC = ('std::collections::HashMap', 'std::collections::BTreeMap')
    OPAQUE = {'in', 'fld', 'el', 'h', 'unk', 'deref', 'call', 'cst'}

    def tyof(self, x):
        if x.op == 'adt':
            return x.a[0]
        if x.op in self.OPAQUE:
            return x.a[-1]
        return None

    def fresh(self, name, ty):
        return self.mat(mk('in', name, ty), ty)

    def expand(self, st, x, var=None):
        """opaque aggregate -> adt, when its variant is known"""
        if x.op in self.OPAQUE:
            ty = x.a[-1]
            t = self.types[ty]
            if t['k'] == 'adt' and t['name'] not in self.ATOMIC:
                if var is None:
                    var = st.disc.get(x)
                    if var is None and len(t['variants']) == 1:
                        var = 0
                if var is not None:
                    return mk('adt', ty, var, *[self.mat(mk('fld', x, var, i, f), f)
                                                for i, f in enumerate(self.fields(ty, var))])
        return x

    # ------------------------------------------------------------ sequences
    def seqget(self, st, s, idx, ety):
        off = ZERO
        for p in s.a:
            pl = partlen(p)
            rel = sub(idx, off)
            inside = st.decide(conj(ge(rel), ge(sub(sub(pl, rel), ONE))))
            if inside is True or (inside is None and len(s.a) == 1):
                if p.op == 'lit' and isnum(rel) and 0 <= rel.a[0] < len(p.a[0]):
                    return num(p.a[0][rel.a[0]])
                if p.op == 'el1':
                    return p.a[0]
                if p.op == 'fill':
                    return p.a[0]
                if p.op == 'sub':
                    return self.baseget(st, p.a[0], add(p.a[1], rel), ety)
                break
            if inside is None:
                break
            off = add(off, pl)
        return self.mat(mk('el', s, idx, ety), ety)

    def baseget(self, st, b, idx, ety):
        if self.alias:
            for e in st.disc:              # one name for one item
                if e.op == 'el' and e.a[0] is b and e.a[1] is not idx and st.decide(eq0(sub(e.a[1], idx))) is True:
                    idx = e.a[1]
                    break
        if b.op == 'upd':
            d = eq0(sub(b.a[1], idx))
            r = st.decide(d)
            if r is True:
                return b.a[2]
            if r is False:
                return self.seqget(st, b.a[0], idx, ety)
        if b.op == 'seq':
            return self.seqget(st, b, idx, ety) if b.a else self.mat(mk('el', b, idx, ety), ety)
        return self.mat(mk('el', b, idx, ety), ety)

    def seqset(self, st, s, idx, v):
        off = ZERO
        for n, p in enumerate(s.a):
            pl = partlen(p)
            rel = sub(idx, off)
            if p.op == 'el1' and st.decide(eq0(rel)) is True:
                return seq(*(s.a[:n] + (mk('el1', v),) + s.a[n + 1:]))
            off = add(off, pl)
        return seq(mk('sub', mk('upd', s, idx, v), ZERO, seqlen(s)))

    # ------------------------------------------------------------ cells and places
    def fid(self, path):
        return self.paths.setdefault(path, len(self.paths))

    def tmp(self, st, v, tag):
        """a temporary cell; the name depends on the call site only"""
        c = ('t', tag)
        st.cells[c] = v
        return c

    def load(self, st, cell, path):
        v = st.cells[cell]
        for e in path:
            v = self.sel(st, v, e)
        return v

    def sel(self, st, v, e):
        if e[0] == 'f':
            if v.op == 'adt':
                if e[1] is not None and v.a[1] != e[1]:
                    raise Unsupported('field of another variant')
                return v.a[2 + e[2]]
            if v.op in self.OPAQUE:
                return self.mat(mk('fld', v, e[1] or 0, e[2], e[3]), e[3])
            raise Unsupported('field of %s' % v.op)
        if e[0] == 'i':
            return self.seqget(st, v, e[1], e[2])
        if e[0] == 'ss':
            return subseq(v, e[1], e[2], st)
        raise Unsupported('projection %s' % (e,))

    def store(self, st, cell, path, v):
        st.cells[cell] = self.upd(st, st.cells.get(cell), path, v) if path else v

    def upd(self, st, old, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == 'f':
            if old is None:
                raise Unsupported('field of an unset place')
            if old.op != 'adt':
                old = self.expand(st, old, e[1])
            if old.op != 'adt':
                raise Unsupported('field update of %s' % old.op)
            i = 2 + e[2]
            return mk('adt', *(old.a[:i] + (self.upd(st, old.a[i], path[1:], v),) + old.a[i + 1:]))
        if e[0] == 'i':
            w = v if len(path) == 1 else self.upd(st, self.seqget(st, old, e[1], e[2]), path[1:], v)
            return self.seqset(st, old, e[1], w)
        if e[0] == 'ss':
            w = v if len(path) == 1 else self.upd(st, subseq(old, e[1], e[2], st), path[1:], v)
            return seq(*(subseq(old, ZERO, e[1], st).a + w.a + subseq(old, e[2], seqlen(old), st).a))
        raise Unsupported('update %s' % (e,))

    def ety_of(self, fr, ty):
        return self.elem_ty(ty)

    def place_ty(self, fr, place, upto):
        """type of the place prefix (locals and field projections only)"""
        ty = fr.body['locals'][place[0]]
        for e in place[1:upto]:
            t = self.types[ty]
            if e == '*':
                ty = t['to'] if 'to' in t else t['args'][0]
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.elem_ty(ty)
        return ty

    def read(self, st, fr, place):
        v = st.cells.get((fr.fid, place[0]))
        if v is None:
            raise Unsupported('read of an unset local _%d' % place[0])
        var = None
        for n, e in enumerate(place[1:]):
            if e == '*':
                if v.op == 'ref':
                    v = v.a[0]
                elif v.op == 'mref':
                    v = self.load(st, v.a[0], v.a[1])
                else:
                    raise Unsupported('deref of %s' % (v.op if v.op != 'el' else 'el %s %s' % (self.types[v.a[2]]['s'] if isinstance(v.a[2],int) and v.a[2]>=0 else v.a[2], place)))
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'f':
                v = self.sel(st, v, ('f', var, e[1], e[2]))
                var = None
            elif e[0] == 'i':
                idx = st.cells[(fr.fid, e[1])]
                v = self.seqget(st, v, idx, self.elem_ty(self.place_ty(fr, place, n + 1)))
            elif e[0] == 'ci':
                ety = self.elem_ty(self.place_ty(fr, place, n + 1))
                idx = num(e[1]) if not e[3] else sub(seqlen(v), num(e[1]))
                v = self.seqget(st, v, idx, ety)
            elif e[0] == 'ss':
                hi = sub(seqlen(v), num(e[2])) if e[3] else num(e[2])
                v = subseq(v, num(e[1]), hi, st)
            else:
                raise Unsupported('place %s' % (e,))
        return v

    def locate(self, st, fr, place):
        cell, path, var = (fr.fid, place[0]), (), None
        for n, e in enumerate(place[1:]):
            if e == '*':
                v = self.load(st, cell, path)
                if v.op == 'mref':
                    cell, path = v.a[0], v.a[1]
                elif v.op == 'ref':
                    # a shared reference: its referent is a value; give it a cell of its own
                    c = ('r', v)
                    st.cells[c] = v.a[0]
                    cell, path = c, ()
                else:
                    raise Unsupported('deref of %s' % (v.op if v.op != 'el' else 'el %s %s' % (self.types[v.a[2]]['s'] if isinstance(v.a[2],int) and v.a[2]>=0 else v.a[2], place)))
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'f':
                path += (('f', var, e[1], e[2]),)
                var = None
            elif e[0] == 'i':
                path += (('i', st.cells[(fr.fid, e[1])], self.elem_ty(self.place_ty(fr, place, n + 1))),)
            elif e[0] == 'ci':
                v = self.load(st, cell, path)
                idx = num(e[1]) if not e[3] else sub(seqlen(v), num(e[1]))
                path += (('i', idx, self.elem_ty(self.place_ty(fr, place, n + 1))),)
            else:
                raise Unsupported('place %s' % (e,))
        return cell, path

    # ------------------------------------------------------------ constants and rvalues
    def const(self, c, ty):
        t = self.types[ty]
        k = c[0]
        if t['k'] == 'ref':
            inner = c[1] if k == 'ref' else c
            return mk('ref', self.const(inner, t['to']))
        if k == 'int':
            return num(int(c[1]))
        if k == 'bool':
            return boolc(c[1])
        if k == 'str':
            return lit(c[1].encode('utf8', 'surrogateescape') if isinstance(c[1], str) else bytes(c[1]))
        if k in ('slice', 'array'):
            ety = self.elem_ty(ty)
            vs = [self.const(x, ety) for x in c[1]]
            if self.types[ety]['s'] == 'u8' and all(isnum(v) for v in vs):
                return lit(bytes(v.a[0] for v in vs))
            return seq(*[mk('el1', v) for v in vs])
        if k == 'zst':
            return mk('adt', ty, 0)
        if k == 'adt' and t['k'] in ('adt', 'tuple') and not self.is_seq(ty):
            var = int(c[1])
            fs = self.fields(ty, var)
            if len(fs) == len(c[2]):
                return mk('adt', ty, var, *[self.const(x, f) for x, f in zip(c[2], fs)])
        if self.is_seq(ty):
            return whole(mk('cst', repr(c), ty))
        return self.mat(mk('cst', repr(c), ty), ty)

    def operand(self, st, fr, o):
        if 'cp' in o:
            return self.read(st, fr, o['cp'])
        if 'mv' in o:
            return self.read(st, fr, o['mv'])
        return self.const(o['c'], o['ty'])

    def op_ty(self, fr, o):
        if 'ty' in o:
            return o['ty']
        pl = o.get('cp') or o.get('mv')
        return self.place_ty(fr, pl, len(pl))

    def cmpf(self, op, x, y):
        if x.op == 'lin' and y.op == 'lin':
            d = sub(x, y)
            return {'Eq': lambda: eq0(d), 'Ne': lambda: neg(eq0(d)),
                    'Lt': lambda: ge(sub(scale(d, -1), ONE)), 'Le': lambda: ge(scale(d, -1)),
                    'Gt': lambda: ge(sub(d, ONE)), 'Ge': lambda: ge(d)}[op]()
        if x.op in FORMULA and y.op in FORMULA and op in ('Eq', 'Ne'):
            f = disj(conj(x, y), conj(neg(x), neg(y)))
            return f if op == 'Eq' else neg(f)
        raise Unsupported('comparison %s of %s and %s' % (op, x.op, y.op))

    def arith(self, st, op, x, y, ty):
        b = self.bounds(ty)
        if x.op in FORMULA and y.op in FORMULA:
            if op == 'BitAnd':
                return conj(x, y)
            if op == 'BitOr':
                return disj(x, y)
            if op == 'BitXor':
                return disj(conj(x, neg(y)), conj(neg(x), y))
        if x.op != 'lin' or y.op != 'lin':
            raise Unsupported('arith on %s' % x.op)
        if op in ('Add', 'AddUnchecked'):
            return add(x, y)
        if op in ('Sub', 'SubUnchecked'):
            return sub(x, y)
        if op in ('Mul', 'MulUnchecked'):
            if isnum(y):
                return scale(x, y.a[0])
            if isnum(x):
                return scale(y, x.a[0])
        cx, cy = cval(x), cval(y)
        if cx is not None and cy is not None:
            if op == 'Div' and cy:
                return num(int(cx / cy) if cx * cy < 0 else cx // cy)
            if op == 'Rem' and cy and cx >= 0:
                return num(cx % cy)
            if op == 'BitAnd' and cx >= 0 and cy >= 0:
                return num(cx & cy)
            if op == 'BitOr' and cx >= 0 and cy >= 0:
                return num(cx | cy)
        lo, hi = b or (None, None)
        if op in ('Div', 'Rem') and cy and cy > 0 and st.entails(x):
            q = atom(mk('div', x, y), 0, hi)
            st.addlin(sub(x, scale(q, cy)))
            st.addlin(sub(add(scale(q, cy), num(cy - 1)), x))
            return q if op == 'Div' else sub(x, scale(q, cy))
        if op == 'BitAnd' and cy is not None and cy >= 0:
            return atom(mk('bitand', x, y), 0, cy)
        return atom(mk('arith', op, x, y), lo, hi)

    def cast(self, st, kind, v, ty, fty):
        if kind == 'IntToInt':
            lo, hi = self.bounds(ty) or (0, 1)
            if v.op in FORMULA:
                f = atom(mk('b2i', v), 0, 1)
                return f
            if st.entails(sub(v, num(lo))) and st.entails(sub(num(hi), v)):
                return v
            c = self.cv(st, v)
            if c is not None:
                w = hi - lo + 1
                return num((c - lo) % w + lo)
            return atom(mk('trunc', v, lo, hi), lo, hi)
        return v

    def cv(self, st, v):
        """constant value, also when an equality fact pins the atom"""
        c = cval(v)
        if c is not None:
            return c
        if len(v.a[1]) == 1:
            t, k = v.a[1][0]
            for g, b in st.lits.items():
                if b and g.op == 'eq0' and len(g.a[0].a[1]) == 1 and g.a[0].a[1][0][0] is t:
                    kk = g.a[0].a[1][0][1]
                    if g.a[0].a[0] % kk == 0:
                        return v.a[0] + k * (-g.a[0].a[0] // kk)
        return None

    def rvalue(self, st, fr, r, dstty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2] if len(r) > 2 else None
            t = self.types[dstty]
            n = t.get('len', n)
            if not isinstance(n, int):
                raise Unsupported('repeat length')
            return seq(mk('fill', v, num(n)))
        if k in ('ref', 'addr'):
            kind, pl = r[1], r[2]
            if 'Mut' in str(kind) or 'mut' in str(kind):
                return mk('mref', *self.locate(st, fr, pl))
            return mk('ref', self.read(st, fr, pl))
        if k == 'len':
            return seqlen(self.read(st, fr, r[1]))
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, r[3], self.op_ty(fr, r[2]))
        if k == 'bin':
            x, y = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            if r[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.cmpf(r[1], x, y)
            return self.arith(st, r[1], x, y, dstty)
        if k == 'chk':
            x, y = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            nty = self.types[dstty]['elems'][0]
            v = self.arith(st, r[1], x, y, nty)
            lo, hi = self.bounds(nty)
            over = neg(conj(ge(sub(v, num(lo))), ge(sub(num(hi), v))))
            return mk('adt', dstty, 0, v, over)
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if v.op in FORMULA:
                    return neg(v)
            if r[1] == 'Neg':
                return scale(v, -1)
            if r[1] == 'PtrMetadata':
                w = self.load(st, v.a[0], v.a[1]) if v.op == 'mref' else v.a[0]
                if w.op == 'seq':
                    return seqlen(w)
            raise Unsupported('unary %s of %s' % (r[1], v.op))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a['k'] == 'tuple':
                return mk('adt', dstty, 0, *ops)
            if a['k'] == 'array':
                ety = self.elem_ty(dstty)
                if self.types[ety]['s'] == 'u8' and all(self.cv(st, v) is not None for v in ops):
                    return lit(bytes(self.cv(st, v) for v in ops))
                return seq(*[mk('el1', v) for v in ops])
            if a['k'] == 'adt':
                t = self.types[a['ty']]
                return mk('adt', a['ty'], a['variant'] if 'variant' in a else 0, *ops)
            if a['k'] == 'closure':
                return mk('adt', a['ty'], 0, *ops)
        raise Unsupported('rvalue %s' % k)

    # ------------------------------------------------------------ running functions
    def where(self, fr, sp):
        f, l = sp if sp else fr.inst['span']
        return '%s (%s:%s)' % (fr.inst['inst'], f.replace('/repo/', ''), l)

    def exec_fn(self, st, key, args, path):
        inst = self.p.insts[key]
        b = inst['body']
        if key in [k for k in self.stack] or len(self.stack) > 60:
            return None
        fr = Frame()
        fr.key, fr.inst, fr.body, fr.path = key, inst, b, path
        fr.fid = self.fid(path)
        self.frames[fr.fid] = fr
        self.visited[key] = self.visited.get(key, 0) + 1
        st = st.copy()
        for i, a in enumerate(args):
            st.cells[(fr.fid, i + 1)] = a
        self.stack.append(key)
        try:
            outs = self.run(fr, st, 0, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o[0] != 'ret':
                raise Unsupported('stray outcome')
            s = o[1]
            v = s.cells.get((fr.fid, 0))
            if v is None:
                v = mk('adt', b['locals'][0], 0)
            s.cells = {c: x for c, x in s.cells.items() if not (c[0] == fr.fid)}
            res.append((s, v))
        return res

    def loops_of(self, key):
        if key not in self.loopinfo:
            self.loopinfo[key] = natural_loops(self.p.insts[key]['body'])
        return self.loopinfo[key]

    def live_of(self, key):
        if key not in self.liveinfo:
            self.liveinfo[key] = liveness(self.p.insts[key]['body'])
        return self.liveinfo[key]

    def run(self, fr, st, bb, loop):
        loops = self.loops_of(fr.key)
        outs = []
        work = [(st, bb, 0, True)]
        while work:
            st, bb, si, first = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('step budget exhausted in %s' % fr.inst['inst'])
            if si == 0:
                if loop and bb not in loop[1]:
                    outs.append(('exit', st, bb))
                    continue
                if loop and bb == loop[0] and not first:
                    outs.append(('back', st))
                    continue
                if bb in loops and not (loop and bb == loop[0]):
                    for o in self.mir_loop(fr, st, bb, loops[bb]):
                        if o[0] == 'ret':
                            outs.append(o)
                        else:
                            work.append((o[1], o[2], 0, False))
                    continue
            blk = fr.body['bb'][bb]
            ss = blk['s']
            st = st.copy()
            forked = False
            while si < len(ss):
                s = ss[si]
                if s[0] == 'dead':
                    st.cells.pop((fr.fid, s[1]), None)
                elif s[0] == '=':
                    pl, r = s[1], s[2]
                    if r[0] == 'discr':
                        alts = self.discr(st, fr, r[1])
                        if len(alts) != 1 or alts[0][0] is not st:
                            for s2, v in alts:
                                self.assign(s2, fr, pl, v)
                                work.append((s2, bb, si + 1, False) if si + 1 else None)
                            forked = True
                            break
                        self.assign(st, fr, pl, alts[0][1])
                    else:
                        self.assign(st, fr, pl, self.rvalue(st, fr, r, self.place_ty(fr, pl, len(pl))))
                elif s[0] == 'sd':
                    cell, path = self.locate(st, fr, s[1])
                    old = self.load(st, cell, path)
                    self.store(st, cell, path, mk('adt', old.a[0], s[2], *old.a[2:]))
                elif s[0] == 'intr':
                    pass
                si += 1
            if forked:
                continue
            self.term(fr, st, bb, blk['t'], work, outs)
        return outs

    def assign(self, st, fr, pl, v):
        if len(pl) == 1:
            st.cells[(fr.fid, pl[0])] = v
        else:
            cell, path = self.locate(st, fr, pl)
            self.store(st, cell, path, v)

    def discr(self, st, fr, pl):
        return self.fork_variants(st, self.read(st, fr, pl))

    def fork_variants(self, st, v):
        """[(state, discriminant)] for every variant the value can have"""
        if v.op == 'adt':
            t = self.types[v.a[0]]
            return [(st, num(int(t['variants'][v.a[1]].get('discr', v.a[1]))))]
        if v.op not in self.OPAQUE:
            raise Unsupported('discriminant of %s' % v.op)
        t = self.types[v.a[-1]]
        if v in st.disc:
            return [(st, num(int(t['variants'][st.disc[v]]['discr'])))]
        out = []
        for i, vr in enumerate(t['variants']):
            s = st.copy()
            s.disc[v] = i
            out.append((s, num(int(vr['discr']))))
        return out

    def cases(self, st, v):
        """[(state, variant index, adt value)]"""
        if v.op == 'adt':
            return [(st, v.a[1], v)]
        out = []
        for s, d in self.fork_variants(st, v):
            var = s.disc[v]
            out.append((s, var, self.expand(s, v, var)))
        return out

    def panic(self, fr, st, why, sp):
        self.panics.append(Panic(st, self.where(fr, sp), why))

    def term(self, fr, st, bb, t, work, outs):
        k = t['k']
        if k == 'goto':
            work.append((st, t['t'], 0, False))
        elif k == 'drop':
            work.append((st, t['t'], 0, False))
        elif k == 'return':
            outs.append(('ret', st))
        elif k in ('unreachable', 'resume'):
            pass
        elif k == 'assert':
            c = self.operand(st, fr, t['c'])
            if not t['e']:
                c = neg(c)
            good, badst = st.split(c)
            for s in badst:
                self.panic(fr, s, t['m'], t.get('sp'))
            for s in good:
                work.append((s, t['t'], 0, False))
        elif k == 'switch':
            d = self.operand(st, fr, t['d'])
            if d.op in FORMULA:
                tgt = {int(v): b for v, b in t['br']}
                for truth, f in ((1, d), (0, neg(d))):
                    b = tgt.get(truth, t['else'])
                    for s in st.assume(f):
                        work.append((s, b, 0, False))
            else:
                rest = [st]
                lo, hi = self.bounds(self.op_ty(fr, t['d'])) or (None, None)
                for v, b in t['br']:
                    iv = int(v)
                    f = eq0(sub(d, num(iv)))
                    nr = []
                    for s in rest:
                        for s2 in s.assume(f):
                            work.append((s2, b, 0, False))
                        nr += s.assume(neg(f))
                    rest = nr
                for s in rest:
                    work.append((s, t['else'], 0, False))
        elif k == 'call':
            args = [self.operand(st, fr, o) for o in t['a']]
            path = fr.path + ((fr.key, bb),)
            dty = self.place_ty(fr, t['dst'], len(t['dst']))
            if 'f' not in t:
                res = self.call_value(st, self.operand(st, fr, t['fp']), args, dty, path)
            else:
                res = self.call(st, t['f'], args, dty, path, fr, t.get('sp'))
            for s, v in res:
                if t.get('t') is None:
                    continue
                s = s.copy()
                self.assign(s, fr, t['dst'], v)
                work.append((s, t['t'], 0, False))
        else:
            raise Unsupported('terminator %s' % k)

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, dty, path, fr, sp):
        key = f.get('key')
        inst = self.p.insts.get(key)
        name = inst['name'] if inst else f['decl']
        c = Call(self, f, name, key, args, dty, path, fr, sp)
        m = self.summaries.get(name) or self.summaries.get(f['decl'])
        if m:
            r = m(self, st, c)
            if r is not None:
                return r
        if self.types[dty]['k'] == 'never':
            self.panic(fr, st, name, sp)
            return []
        m = self.models.get(name) or self.models.get(f['decl'])
        if m is None:
            for p, g in self.prefix_models:
                if name.startswith(p):
                    m = g
                    break
        if m:
            r = m(self, st, c)
            if r is not None:
                return r
        if f['decl'] in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            return self.call_value(st, args[0], list(args[1].a[2:]), dty, path)
        if inst and inst.get('body'):
            r = self.exec_fn(st, key, args, path)
            if r is not None:
                return r
        if inst and not inst.get('body') and self.is_ctor(inst, dty):
            return [(st, self.ctor(inst, args, dty))]
        return self.havoc(st, name, args, dty, path)

    def is_ctor(self, inst, dty):
        t = self.types[dty]
        return t['k'] == 'adt' and inst['name'].split('::')[-1] in [v['name'] for v in t['variants']] \
            or (t['k'] == 'adt' and t['name'] == inst['name'])

    def ctor(self, inst, args, dty):
        t = self.types[dty]
        last = inst['name'].split('::')[-1]
        for i, v in enumerate(t['variants']):
            if v['name'] == last:
                return mk('adt', dty, i, *args)
        return mk('adt', dty, 0, *args)

    def call_value(self, st, fv, args, dty, path):
        """call a closure or function value with the untupled args"""
        while fv.op == 'ref' and fv.a[0].op in ('ref', 'mref', 'adt'):
            inner = fv.a[0]
            if inner.op == 'adt' and self.types[inner.a[0]]['k'] == 'closure':
                break
            fv = inner
        env = fv
        if fv.op == 'mref':
            v = self.load(st, fv.a[0], fv.a[1])
            if v.op in ('mref', 'ref'):
                return self.call_value(st, v, args, dty, path)
            fv = v
        elif fv.op == 'ref':
            fv = fv.a[0]
        ty = self.tyof(fv)
        t = self.types[ty] if ty is not None else None
        if t and t['k'] == 'fndef':
            cl = t['callee']
            return self.call(st, cl, args, dty if dty is not None else self.retty(cl), path + (('fn', 0),), None, None)
        if t and t['k'] == 'closure':
            key = t['key']
            body = self.p.insts[key].get('body')
            if body:
                l1 = self.types[body['locals'][1]]
                st = st.copy()
                if l1['k'] == 'ref':
                    if env.op not in ('mref', 'ref'):
                        cell = self.tmp(st, env, ('env', self.fid(path)))
                        env = mk('mref', cell, ())
                else:
                    env = fv
                r = self.exec_fn(st, key, [env] + args, path + (('cl', 0),))
                if r is not None:
                    return r
        return self.havoc(st, 'indirect call', args, dty, path)

    def retty(self, cl):
        inst = self.p.insts.get(cl.get('key'))
        if inst and inst.get('body'):
            return inst['body']['locals'][0]
        return None

    def havoc(self, st, name, args, dty, path):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        st = st.copy()
        fid = self.fid(path)
        for i, a in enumerate(args):
            if a.op == 'mref':
                old = self.load(st, a.a[0], a.a[1])
                nv = self.havoc_value(st, old, ('unk', fid, i))
                self.store(st, a.a[0], a.a[1], nv)
        if dty is None:
            return [(st, mk('unk', fid, 'r', -1))]
        if self.types[dty]['k'] == 'never':
            return []
        t = self.types[dty]
        if t['k'] == 'ref' and t.get('mut'):
            raise Unsupported('havoc returning &mut (%s)' % name)
        return [(st, self.mat(mk('unk', fid, 'r', dty), dty))]

    def havoc_value(self, st, v, tag):
        if v.op == 'lin':
            return atom(mk('unkn', *tag))
        if v.op in FORMULA:
            return mk('p', mk('unkb', *tag))
        if v.op == 'seq':
            return whole(mk('unks', *tag))
        if v.op == 'adt':
            ty = v.a[0]
            t = self.types[ty]
            if t['k'] in ('closure', 'fndef'):
                return v
            if t['k'] == 'adt' and len(t['variants']) > 1:
                return mk('unk', tag, ty)
            return mk('adt', ty, v.a[1], *[self.havoc_value(st, x, tag + (i,)) for i, x in enumerate(v.a[2:])])
        if v.op in self.OPAQUE:
            return mk('unk', tag, v.a[-1])
        if v.op == 'ref':
            return mk('ref', self.havoc_value(st, v.a[0], tag + ('r',)))
        if v.op == 'mref':
            return v
        return mk('unkv', *tag)

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, st, head, blocks):
        site = ('L', fr.fid, head)
        live = self.live_of(fr.key)[head]
        gone = [c for c in st.cells if c[0] == fr.fid and len(c) == 2 and c[1] not in live]
        if gone:
            # what no later statement of this body can read takes no part in the loop
            st = st.copy()
            for c in gone:
                del st.cells[c]

        def body(s):
            return self.run(fr, s, head, (head, blocks))
        sp = fr.body['bb'][head]['t'].get('sp')
        return self.loop(st, site, body, self.where(fr, sp))

    def loop(self, st0, site, body, where):
        """outcomes ('exit', st, target) / ('ret', st) of a loop entered in st0"""
        from sa.loops import analyse
        return analyse(self, st0, site, body, where)

    def consume(self, st, path, tag, cells, step):
        """a library consumer as a loop: `step(state)` -> [('back', st) | ('exit', st, tag)].
        cells: initial values of temporary cells, in order; returns the exits"""
        st = st.copy()
        fid = self.fid(path)
        for i, v in enumerate(cells):
            st.cells[('k', fid, tag, i)] = v
        ids = [('k', fid, tag, i) for i in range(len(cells))]
        outs = self.loop(st, ('K', fid, tag), lambda s: step(s, ids), self.path_where(path))
        return ids, outs

    def drop(self, st, ids):
        for c in ids:
            st.cells.pop(c, None)

    def path_where(self, path):
        for key, bb in reversed(path):
            i = self.p.insts.get(key)
            if i:
                sp = i['body']['bb'][bb]['t'].get('sp') or i['span']
                return '%s (%s:%s)' % (i['inst'], sp[0].replace('/repo/', ''), sp[1])
        return '?'


class Frame:
    __slots__ = ('key', 'inst', 'body', 'path', 'fid')


class Call:
    __slots__ = ('eng', 'f', 'name', 'key', 'args', 'dty', 'path', 'fr', 'sp')

    def __init__(self, eng, f, name, key, args, dty, path, fr, sp):
        self.eng, self.f, self.name, self.key = eng, f, name, key
        self.args, self.dty, self.path, self.fr, self.sp = args, dty, path, fr, sp


def liveness(b):
    """block -> the locals some later statement may read on entry to it (locals whose address is
    taken for writing are kept throughout)"""
    kept = {0}

    def reads(pl):
        return [pl[0]] + [e[1] for e in pl[1:] if e != '*' and e[0] == 'i']

    def used(x, out):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('mv', 'cp'):
                    out += reads(v)
                else:
                    used(v, out)
        elif isinstance(x, list):
            for y in x:
                used(y, out)
    gen, kill, succ = [], [], []
    for blk in b['bb']:
        events = []
        for s in blk['s']:
            if s[0] == 'dead':
                events.append(((), s[1]))
            elif s[0] == '=':
                u, r = [], s[2]
                used(r, u)
                if r[0] in ('ref', 'addr'):
                    u += reads(r[2])
                    if r[1] not in ('Shared', 'Const') and '*' not in r[2]:
                        kept.add(r[2][0])
                elif r[0] == 'discr':
                    u += reads(r[1])
                else:
                    for y in r[1:]:
                        if isinstance(y, list) and y and isinstance(y[0], int):
                            u += reads([z for z in y if isinstance(z, int) or z]) \
                                if all(z == '*' or isinstance(z, (int, list)) for z in y) else []
                if len(s[1]) > 1:
                    u += reads(s[1])
                events.append((u, s[1][0] if len(s[1]) == 1 else None))
            else:
                u = []
                for y in s[1:]:
                    used(y, u)
                    if s[0] == 'sd' and isinstance(y, list) and y and isinstance(y[0], int):
                        u += reads(y)
                events.append((u, None))
        t = blk['t']
        u = []
        used(t, u)
        if t['k'] == 'return':
            u.append(0)
        if t['k'] == 'drop':
            u += reads(t['p'])
        d = t.get('dst')
        if d and len(d) > 1:
            u += reads(d)
        events.append((u, d[0] if d and len(d) == 1 else None))
        g, k = set(), set()
        for u, w in events[::-1]:
            if w is not None:
                g.discard(w)
                k.add(w)
            g |= set(u)
        gen.append(g)
        kill.append(k)
        x = [t['t']] if t.get('t') is not None else []
        if t['k'] == 'switch':
            x = [v for _, v in t['br']] + [t['else']]
        succ.append(x)
    live = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for i in range(len(live) - 1, -1, -1):
            n = set(gen[i])
            for j in succ[i]:
                n |= live[j] - kill[i]
            if n != live[i]:
                live[i] = n
                ch = True
    return [x | kept for x in live]


def natural_loops(b):
    """head -> blocks, from back edges of a depth-first search with dominators"""
    n = len(b['bb'])
    succ = []
    for blk in b['bb']:
        t = blk['t']
        k = t['k']
        s = []
        if k in ('goto', 'drop', 'assert', 'call') and t.get('t') is not None:
            s.append(t['t'])
        if k == 'switch':
            s += [x for _, x in t['br']] + [t['else']]
        succ.append(s)
    order, seen = [], set()

    def dfs(r):
        stack = [(r, iter(succ[r]))]
        seen.add(r)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
    dfs(0)
    rpo = order[::-1]
    pos = {u: i for i, u in enumerate(rpo)}
    pred = {u: [] for u in rpo}
    for u in rpo:
        for v in succ[u]:
            pred[v].append(u)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for u in rpo[1:]:
            ps = [q for q in pred[u] if q in idom]
            x = ps[0]
            for y in ps[1:]:
                a, c = x, y
                while a != c:
                    while pos[a] > pos[c]:
                        a = idom[a]
                    while pos[c] > pos[a]:
                        c = idom[c]
                x = a
            if idom.get(u) != x:
                idom[u] = x
                ch = True

    def dom(a, c):
        while True:
            if c == a:
                return True
            if c == 0:
                return False
            c = idom[c]
    loops = {}
    for u in rpo:
        for v in succ[u]:
            if dom(v, u):
                blocks = loops.setdefault(v, {v})
                todo = [u]
                while todo:
                    w = todo.pop()
                    if w not in blocks:
                        blocks.add(w)
                        todo += pred[w]
    return loops
