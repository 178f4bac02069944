"""C21: the hunks of a diff hold every change once, with the context that was asked for."""
import itertools, multiprocessing, os, signal, time
from sa.obl import *
from sa.apply import feasible, guarded
from sa.mergetab import Notes
from sa.opts import whole_of

BIG = 2 ** 60
H1 = 'every change is in one hunk, in order'
H2 = 'as much context as asked for and there is'
H3 = 'the header of a hunk counts its lines'
H4 = 'hunks do not overlap, and are apart where they can be'
H5 = 'no panic'
ALL = (H1, H2, H3, H4, H5)


def run_c21(p, rep):
    o = Obl(p, rep)
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    ks = o.find('making hunks of a diff', 'diffy::diff::to_hunks')
    for n, k in enumerate(ks):
        guarded(o, k, hunks(deep or n == 0, deep))
    o.done()


def shapes(full, deep=False):
    """the lists of pieces gone through: kinds, and for every inner unchanged piece whether it is
    longer than twice the context (s), no longer (m), or either (-)"""
    out = []
    for s in ('', 'E', 'D', 'I', 'DI', 'ID', 'DID', 'IDI', 'DD', 'II', 'EE'):
        out += [(s, '')]
        if s.strip('E'):
            out += [('E' + s, ''), (s + 'E', ''), ('E' + s + 'E', '')]
    two = [(x, y) for x in ('D', 'I', 'DI') for y in ('D', 'I', 'ID')] if full else [('D', 'I'), ('I', 'DI')]
    for x, y in two:
        out += [(x + 'E' + y, 'm'), (x + 'E' + y, 's'), ('E' + x + 'E' + y + 'E', 'm'), ('E' + x + 'E' + y + 'E', 's')]
    out += [('EDEEIE', '-')]
    for a in 'ms':
        for b in 'ms':
            out += [('EDEIEDIE', a + b), ('IEDED', a + b)]
            if full:
                out += [('EDIEDEIE', a + b), ('DEIEIE', a + b)] + [('EDEIEDEIE', a + b + c) for c in 'ms']
    if deep:
        for xs in itertools.product(('D', 'I', 'DI'), repeat=3):
            for ab in itertools.product('ms', repeat=2):
                out += [(pre + 'E'.join(xs) + post, ''.join(ab)) for pre, post in (('', ''), ('E', 'E'))]
        out += [('EDEIEDEIEDE', x) for x in ('smsm', 'mssm', 'msms')]
    return list(dict.fromkeys(out))


def pieces(eng, st, args, key, kinds, split):
    """the list of pieces as an argument, and its expected effect"""
    loc = eng.p.insts[key]['body']['locals']
    lists, sol, ctx = [], None, None
    for i, a in enumerate(args):
        t = eng.types[loc[i + 1]]
        if t['k'] == 'uint' or t['s'] == 'usize':
            ctx = i
            continue
        d = dref(a)
        ety = eng.elem_ty(eng.tyof(d.a[0].a[0])) if whole_of(d) else None
        if ety is None:
            raise Unsupported('an argument')
        if any(v['name'] == 'Delete' for v in eng.types[ety].get('variants', ())):
            sol = (i, ety)
        else:
            lists.append(i)
    if sol is None or ctx is None or len(lists) != 2:
        raise Unsupported('the arguments')
    dty = sol[1]
    vs = eng.types[dty]['variants']
    vno = {v['name']: (n, [f['ty'] for f in v['fields']]) for n, v in enumerate(vs)}
    ids = [whole(mk('in', 'ids%d' % i, -1)) for i in (1, 2)]

    def rng(ty, side, lo, n):
        fs = []
        for f in eng.types[ty]['variants'][0]['fields']:
            fs.append({'inner': mk('ref', ids[side]), 'offset': lo, 'len': n}.get(f['name']))
        if None in fs:
            raise Unsupported('a range')
        return mk('adt', ty, 0, *fs)
    at = [ZERO, ZERO]
    items, runs, gaps = [], [], [ZERO]
    for i, k in enumerate(kinds):
        v = atom(mk('q', '%s%d' % (k.lower(), i)), 1, BIG)
        if k == 'E':
            n, tys = vno['Equal']
            items.append(mk('el1', mk('adt', dty, n, rng(tys[0], 0, at[0], v), rng(tys[1], 1, at[1], v))))
            gaps[-1] = add(gaps[-1], v)
            at = [add(x, v) for x in at]
            continue
        if i == 0 or kinds[i - 1] == 'E':
            runs.append([at[0], at[1], ZERO, ZERO])
            gaps.append(ZERO)
        side = 0 if k == 'D' else 1
        n, tys = vno['Delete' if k == 'D' else 'Insert']
        items.append(mk('el1', mk('adt', dty, n, rng(tys[0], side, at[side], v))))
        runs[-1][2 + side] = add(runs[-1][2 + side], v)
        at[side] = add(at[side], v)
    args = list(args)
    args[sol[0]] = mk('ref', seq(*items))
    for i, x in zip(lists, at):
        n = seqlen(dref(args[i]))
        st.addlin(sub(n, x))
        st.addlin(sub(x, n))
    c = args[ctx]
    for g, s in zip(gaps[1:-1], split):
        if s == 's':
            st.addlin(sub(sub(g, scale(c, 2)), ONE))
        elif s == 'm':
            st.addlin(sub(scale(c, 2), g))
    if len(runs) > 2:
        for g in (gaps[0], gaps[-1]):
            if g is not ZERO:
                st.addlin(sub(g, c))
    return args, (runs, gaps, c, [dref(args[i]).a[0].a[0] for i in lists], at)


def hunks(full, deep):
    def f(o, key):
        note = Notes(o, key)
        o.n['functions'].add(o.d.name(key))
        for paths, notes in spread(lambda x: one_shape(o, key, *x), shapes(full, deep)):
            o.n['classes'] += 1
            o.n['paths'] += paths
            for x in notes:
                note(*x)
        for h in ALL:
            note(h, 'eq', '')
        note.report()
    return f


def spread(f, xs, enough=lambda r: any(v == 'ne' for _, v, _ in r[1]), most=300):
    """f over xs, in several processes, until one result is enough or the time is over"""
    global TASK
    TASK = (f, xs)
    end = time.time() + most
    out = []
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        it = pool.imap_unordered(task, range(len(xs)), chunksize=1)
        while len(out) < len(xs):
            try:
                out.append(it.next(max(0.1, end - time.time())))
            except multiprocessing.TimeoutError:
                return out + [(0, [(H1, '?', 'no answer in time for %d of the shapes' % (len(xs) - len(out)))])]
            if enough(out[-1]):
                break
    return out


def task(i):
    def late(*_):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(ONE_SHAPE)
    try:
        return TASK[0](TASK[1][i])
    except Late:
        return 0, [(H1, '?', '%s: no answer in %d s' % (TASK[1][i], ONE_SHAPE))]
    finally:
        signal.alarm(0)


def one_shape(o, key, kinds, split):
    """(paths, [(obligation, verdict, text)]) of the lists of pieces of one shape"""
    got, notes = {}, []

    def note(*x):
        notes.append(x)

    def setup(eng, st, args):
        args, got['want'] = pieces(eng, st, args, key, kinds, split)
        return [st], args
    label = '%s%s' % (kinds or 'nothing', ' ' + split if split else '')
    r = o.d.run(key, setup, peel=len(kinds) + 1, budget=1000000)
    if r.error or r.unknown:
        note(H1, '?', '[%s] %s' % (label, r.error or 'calls outside the model: %s' % sorted(r.unknown)))
        return 0, notes
    W = Want(r.eng, kinds, *got['want'])
    for q in r.panics:
        if not feasible(q.st):
            continue
        w = W.witness(q.st, []) if exact(q.st) else None
        note(H5, 'ne' if w else '?', 'panics (%s) for %s' % (q.why, w or label))
    for q in r.paths:
        if not feasible(q.st):
            continue
        if not exact(q.st, q.val):
            note(H1, '?', '[%s] a quantity is lost track of' % label)
            continue
        try:
            for st in W.split(q.st, q.val):
                W.judge(st, q.val, note, label)
        except Unsupported as e:
            note(H1, '?', '[%s] %s' % (label, e))
    return len(r.paths), notes


ONE_SHAPE = 100


class Late(BaseException):
    pass


class Stop(Exception):
    pass


class Want:
    def __init__(self, eng, kinds, runs, gaps, c, bases, ends):
        self.eng, self.kinds, self.runs, self.gaps, self.c, self.bases, self.ends = eng, kinds, runs, gaps, c, bases, ends

    # ------------------------------------------------------------ concrete instances
    def witness(self, st, more):
        """small numbers that satisfy the state and the further conditions (ge / eq0 / not), in words"""
        vs = {}
        for L in [*self.gaps, *[x for r in self.runs for x in r[2:]]]:
            for t, _ in L.a[1]:
                vs[t] = 1
        c = [t for t, _ in self.c.a[1]]
        lens = {}
        for b, e in zip(self.bases, self.ends):
            lens[mk('len', b)] = e
        names = list(vs)
        fs = [('ge', L) for L in st.lin] + [(('' if v else '!') + f.op, f.a[0]) for f, v in st.lits.items() if f.op in ('ge', 'eq0')]
        if any(f.op not in ('ge', 'eq0') for f in st.lits):
            return None
        for f in more:
            n = f.op == 'not'
            g = f.a[0] if n else f
            if g.op not in ('ge', 'eq0'):
                return None
            fs.append((('!' if n else '') + g.op, g.a[0]))
        ok = set(names) | set(c) | set(lens)
        plain = []
        for op, L in fs:
            L = subst(L, {k: v for k, v in lens.items()}) if any(t in lens for t, _ in L.a[1]) else L
            if any(t not in ok for t, _ in L.a[1]):
                return None
            plain.append((op, L.a[0], L.a[1]))

        def good(env):
            for op, k, ts in plain:
                x = k + sum(n * env[t] for t, n in ts)
                if (x >= 0 if op[-2:] == 'ge' else x == 0) == (op[0] == '!'):
                    return False
            return True
        tops = [range(1, 8) if t.a[0][0] == 'e' else range(1, 3) for t in names]
        if len(names) > 6:
            tops = [range(1, 6) if t.a[0][0] == 'e' else range(1, 2) for t in names]
        for cv in (0, 1, 2, 3, 2 ** 64 - 1) if c else (0,):
            for xs in itertools.product(*tops):
                env = dict(zip(names, xs))
                env.update({t: cv for t in c})
                if good(env):
                    what = ', '.join('%d %s' % (env[t], {'e': 'unchanged', 'd': 'deleted', 'i': 'inserted'}[t.a[0][0]]) for t in sorted(names, key=lambda t: int(t.a[0][1:])))
                    return '%s and %s lines of context' % (what or 'no lines', cv)
        return None

    # ------------------------------------------------------------ splitting into clear cases
    def split(self, st, val):
        fs = []
        c = self.c
        for i, g in enumerate(self.gaps):
            fs += [ge(sub(g, c))]
            if 0 < i < len(self.gaps) - 1:
                fs += [ge(sub(scale(c, 2), g))]
        for h in self.hunks(val):
            for _, _, _, n in self.segs(st, h):
                fs += [ge(sub(n, ONE))]
        fs += [ge(sub(c, ONE))]
        out = [st]
        for f in fs:
            nxt = []
            for s in out:
                if s.decide(f) is not None:
                    nxt.append(s)
                else:
                    nxt += [t for t in s.assume(f) + s.assume(neg(f)) if feasible(t)]
            out = nxt
        return out

    def hunks(self, val):
        v = dref(val)
        if v.op != 'seq' or any(x.op != 'el1' for x in v.a):
            raise Unsupported('the list of hunks')
        return [x.a[0] for x in v.a]

    def segs(self, st, h):
        """[(kind, list, first index, number of lines)]"""
        v = get(self.eng, st, h, 'lines')
        if v.op != 'seq':
            raise Unsupported('the lines of a hunk')
        out = []
        for p in v.a:
            if p.op == 'el1':
                e, lo, n = p.a[0], ZERO, ONE
            elif p.op == 'comp' and len(p.a[2]) == 1 and not p.a[2][0][0] and p.a[2][0][1].op == 'seq' and len(p.a[2][0][1].a) == 1 and p.a[2][0][1].a[0].op == 'el1':
                e, lo, n = p.a[2][0][1].a[0].a[0], p.a[0], sub(p.a[1], p.a[0])
            else:
                raise Unsupported('the lines of a hunk: %s' % short(self.eng, p)[:120])
            if e.op != 'adt':
                raise Unsupported('a line of a hunk: %s' % short(self.eng, e)[:120])
            t = dref(e.a[2])
            if whole_of(t):
                t = t.a[0].a[0]
            if t.op == 'deref':
                t = dref(t.a[0])
            if t.op != 'el' or t.a[0] not in self.bases:
                raise Unsupported('the text of a line: %s' % short(self.eng, t)[:120])
            i = t.a[1]
            b = [(x, k) for x, k in i.a[1] if x.op == 'bv']
            if p.op == 'comp':
                if len(b) != 1 or b[0][1] != 1:
                    raise Unsupported('the order of the lines')
                i = subst(i, {b[0][0]: lo})
            elif b:
                raise Unsupported('the order of the lines')
            out.append((vname(self.eng, e), self.bases.index(t.a[0]), i, n))
        return out

    # ------------------------------------------------------------ the expected hunks
    def judge(self, st, val, note, label):
        try:
            self.walk(st, val, note, label)
        except Stop:
            pass

    def demand(self, st, f, note, what, label, text):
        d = st.decide(f)
        if d is True:
            return
        w = self.witness(st, [] if d is False else [neg(f)])
        note(what, 'ne' if w else '?', '%s (%s)' % (text, 'for ' + w if w else label))
        raise Stop()

    def fail(self, st, note, what, label, text):
        self.demand(st, FALSE, note, what, label, text)

    def walk(self, st, val, note, label):
        c, eng = self.c, self.eng
        zero = lambda x: st.decide(ge(sub(x, ONE))) is False

        def least(x, y):
            return x if st.decide(ge(sub(y, x))) is True else y
        i, K = 0, len(self.runs)
        for h in self.hunks(val):
            if i >= K:
                self.fail(st, note, H1, label, 'there is a hunk without a change')
            if i:
                self.demand(st, ge(sub(self.gaps[i], scale(c, 2))), note, H4, label, 'two hunks share lines')
            segs = [s for s in self.segs(st, h) if not zero(s[3])]
            pre = least(c, self.gaps[i])
            x, y = sub(self.runs[i][0], pre), sub(self.runs[i][1], pre)
            x0, y0 = x, y

            def take(seg):
                nonlocal x, y
                kind, side, at, n = seg
                want = {'Delete': (0,), 'Insert': (1,), 'Context': (0, 1)}[kind]
                if side not in want:
                    self.fail(st, note, H1, label, 'a line of the wrong side is shown as %s' % kind)
                self.demand(st, eq0(sub(at, (x, y)[side])), note, H2 if kind == 'Context' else H1, label,
                            'a %s line is not the one that is next' % kind)
                if kind != 'Insert':
                    x = add(x, n)
                if kind != 'Delete':
                    y = add(y, n)
                return n

            def context(most, text):
                """the context lines that come next are as many"""
                t = ZERO
                while segs and segs[0][0] == 'Context':
                    t = add(t, take(segs.pop(0)))
                self.demand(st, eq0(sub(t, most)), note, H2, label, text)
            context(pre, 'the context before a change has the wrong length')
            while True:
                rem = {'Delete': self.runs[i][2], 'Insert': self.runs[i][3]}
                while segs and segs[0][0] != 'Context':
                    s = segs.pop(0)
                    n = take(s)
                    rem[s[0]] = sub(rem[s[0]], n)
                    self.demand(st, ge(rem[s[0]]), note, H1, label, 'more lines are shown as %s than there are' % s[0])
                for k, n in rem.items():
                    self.demand(st, eq0(n), note, H1, label, 'some of the lines to %s are missing' % k.lower())
                gap = self.gaps[i + 1]
                if any(s[0] != 'Context' for s in segs):
                    if i + 1 >= K:
                        self.fail(st, note, H1, label, 'lines are shown twice')
                    context(gap, 'the context between two changes of a hunk has the wrong length')
                    self.demand(st, ge(sub(scale(c, 2), gap)), note, H4, label, 'two changes share a hunk although more lines are between them than their context takes')
                    i += 1
                    continue
                context(least(c, gap), 'the context after a change has the wrong length')
                break
            for name, a, b in (('old_range', x0, x), ('new_range', y0, y)):
                n = sub(b, a)
                start, ln = get(eng, st, h, name + '.start'), get(eng, st, h, name + '.len')
                self.demand(st, eq0(sub(ln, n)), note, H3, label, 'the number of lines in the %s is wrong' % name.replace('_', ' '))
                d = st.decide(ge(sub(n, ONE)))
                for s in ([st] if d is not None else [t for t in st.assume(ge(sub(n, ONE))) + st.assume(ge(scale(n, -1))) if feasible(t)]):
                    some = s.decide(ge(sub(n, ONE)))
                    self.demand(s, eq0(sub(start, add(a, ONE) if some else a)), note, H3, label, 'the first line in the %s is wrong' % name.replace('_', ' '))
            i += 1
        if i < K:
            self.fail(st, note, H1, label, 'a change is in no hunk')
