"""C19: a diff accounts for every item of both sides, once and in order, and calls equal only what is."""
from sa.obl import *
from sa.apply import feasible, guarded
from sa.mergetab import Notes, case, rng
from sa.opts import call_cut, need_call, origin, whole_of
from sa.rows import rounds

PRE, SUF = 'prefix', 'suffix'


def run_c19(p, rep):
    o = Obl(p, rep)
    for what, n, f in (('the length of a common prefix', 'common_prefix_len', agree(PRE)), ('the length of a common suffix', 'common_suffix_len', agree(SUF))):
        ks = [k for k, i in sorted(p.insts.items(), key=lambda x: x[1]['inst']) if i.get('body') and i['name'].startswith('<[') and i['name'].endswith('SliceLike>::' + n)]
        if not ks:
            rep.unk('%s: not recognised in this tree' % what)
        for k in ks:
            guarded(o, k, f)
    for k in o.find('dividing the input', 'diffy::diff::myers::conquer'):
        guarded(o, k, divide)
    for k in o.find('the whole diff', 'diffy::diff::myers::diff'):
        guarded(o, k, whole_diff)
    for k in o.find('diff and compaction', 'diffy::DiffOptions::diff_slice'):
        guarded(o, k, sliced)
    o.done()


# ---------------------------------------------------------------- common prefixes and suffixes
def agree(side):
    def f(o, key):
        r = o.run(key, 'any two lists', plain=True, sums=True)
        if r is None:
            return
        note = Notes(o, key)
        eng = r.eng
        a, b = (dref(x) for x in eng.args[:2])
        any_length(eng, r, a, b, side, note)
        if note.worst() != 'eq':
            r2 = o.d.run(key, bound=3, plain=True)
            n2 = Notes(o, key)
            if not r2.error and not r2.unknown:
                for q in r2.panics:
                    if exact(q.st) and feasible(q.st):
                        n2('no panic', 'ne', 'panics (%s): %s' % (q.why, case(r2.eng, q.st)))
                for q in r2.paths:
                    if exact(q.st, q.val) and feasible(q.st):
                        counted(r2.eng, q.st, dref(r2.eng.args[0]), dref(r2.eng.args[1]), q.val, side, n2)
                if n2.worst() == 'ne':
                    note = n2
                    for vs in note.m.values():
                        vs[:] = [x for x in vs if x[0] == 'ne'] or [('eq', '')]
        note.report()
    return f


def pair(eng, st, a, b, i, side):
    """the comparison of the items number i, counted from the side's end"""
    ety = eng.elem_ty(eng.tyof(a.a[0].a[0]))
    na, nb = seqlen(a), seqlen(b)
    at = (i, i) if side == PRE else (sub(sub(na, ONE), i), sub(sub(nb, ONE), i))
    x, y = eng.seqget(st, a, at[0], ety), eng.seqget(st, b, at[1], ety)
    return eq0(sub(x, y)) if x.op == y.op == 'lin' else None


def known(st, f):
    """whether two items are equal, up to what is known of their places"""
    d = st.decide(f)
    if d is not None or f.op != 'eq0' or len(f.a[0].a[1]) != 2:
        return d
    (x, _), (y, _) = f.a[0].a[1]
    for g, v in st.lits.items():
        if g.op != 'eq0' or len(g.a[0].a[1]) != 2 or g.a[0].a[0] != 0:
            continue
        (u, k), (w, l) = g.a[0].a[1]
        if k + l or any(t.op != 'el' for t in (x, y, u, w)):
            continue
        for u, w in ((u, w), (w, u)):
            if u.a[0] is x.a[0] and w.a[0] is y.a[0] and all(st.decide(eq0(sub(p.a[1], q.a[1]))) is True for p, q in ((u, x), (w, y))):
                return v
    return None


K1, K2 = 'the counted items are equal', 'the count ends at a difference'


def counted(eng, st, a, b, v, side, note):
    """a result after a known number of rounds"""
    for i in range(5):
        more = st.decide(ge(sub(v, num(i + 1))))
        if more is None:
            for s in st.assume(ge(sub(v, num(i + 1)))) + st.assume(ge(sub(num(i), v))):
                if feasible(s):
                    counted(eng, s, a, b, v, side, note)
            return
        if not more:
            break
        for n, t in ((seqlen(a), 'first'), (seqlen(b), 'second')):
            if st.decide(ge(sub(n, num(i + 1)))) is not True and st.assume(ge(sub(num(i), n))):
                s = st.assume(ge(sub(num(i), n)))[0]
                if feasible(s):
                    note(K1, 'ne', 'the result is %s or more, where the %s list has %d items (%s)' % (i + 1, t, i, case(eng, s)))
                    return
        f = pair(eng, st, a, b, num(i), side)
        d = known(st, f) if f is not None else None
        if d is not True:
            note(K1, 'ne' if f is not None else '?', 'item %d from the end is counted without being compared, or although it differs (%s)' % (i, case(eng, st)))
            return
    else:
        return
    note(K1, 'eq', '')
    for s in assume_all(st, [ge(sub(sub(seqlen(a), v), ONE)), ge(sub(sub(seqlen(b), v), ONE))]):
        if not feasible(s):
            continue
        f = pair(eng, s, a, b, v, side)
        d = known(s, f) if f is not None else None
        note(K2, 'eq' if d is False else 'ne' if f is not None else '?', 'only %s items are counted although the next ones may be equal (%s)' % (short(eng, v), case(eng, s)))


def any_length(eng, r, a, b, side, note):
    for q in r.panics:
        note('no panic', '?', 'panics (%s): %s' % (q.why, case(eng, q.st)))
    rds = rounds(eng)
    if len(rds) != 1:
        note(K1, '?', '%d kinds of rounds' % len(rds))
        return
    rd, = rds
    na = seqlen(a)
    # the number of items compared so far, as the loop has it
    for x, _ in rd.nums():
        v = mk('lin', 0, ((x, 1),))
        for cnt in (v, sub(na, v)):
            m = Notes(note.o, note.key)
            by_count(eng, r, rd, a, b, cnt, x, side, m)
            if m.worst() != '?':
                for k, vs in m.m.items():
                    for y in vs:
                        note(k, *y)
                return
    note(K1, '?', 'no count of the compared items is recognised')


def by_count(eng, r, rd, a, b, cnt, x, side, note):
    st0 = rd.rec.st0
    first = rd.L.match(rd.part, {c: st0.cells[c] for c in rd.part.cells if c in st0.cells})
    c0 = subst(cnt, {k: v for k, v in first.items()})
    note(K1, 'eq' if c0.op == 'lin' and st0.decide(eq0(c0)) is True else '?', 'counting starts at %s' % short(eng, c0))
    every = True        # every count up to the shorter list is reached
    for i, kind, st, g in rd.rows:
        if kind != 'back' or not feasible(st):
            continue
        af = rd.after(st)
        c1 = subst(cnt, {k: v for k, v in af.items()})
        f = pair(eng, st, a, b, cnt, side)
        ok = f is not None and known(st, f) is True and st.decide(eq0(sub(sub(c1, cnt), ONE))) is True
        every = every and len([g for g, v in st.lits.items() if rd.hs.lits.get(g) is not v]) == 1 and \
            all(x.op in ('len', 'in', 'deref', 'fld') or x in {z for z, _ in rd.nums()} for L in st.lin for x, _ in L.a[1] if x.op != 'el')
        note(K1, 'eq' if ok else '?', 'a round takes %s to %s' % (short(eng, cnt), short(eng, c1)))
    for p in r.paths:
        if not feasible(p.st):
            continue
        sure = every and note.worst() == 'eq'
        v = 'eq' if p.st.decide(eq0(sub(p.val, cnt))) is True else '?'
        if v == '?' and sure and p.st.decide(ge(sub(sub(p.val, cnt), ONE))) is True:
            f = pair(eng, p.st, a, b, cnt, side)
            if any(p.st.decide(ge(sub(cnt, seqlen(t)))) is True for t in (a, b)) or known(p.st, f) is False:
                v = 'ne'
        note(K1, v, 'the result is %s' % short(eng, p.val))
        if v == '?' and sure and p.st.decide(ge(sub(sub(cnt, p.val), ONE))) is True:
            note(K2, 'ne', 'the result is only %s' % short(eng, p.val))
            continue
        for s in assume_all(p.st, [ge(sub(sub(seqlen(a), cnt), ONE)), ge(sub(sub(seqlen(b), cnt), ONE))]):
            if not feasible(s):
                continue
            f = pair(eng, s, a, b, cnt, side)
            note(K2, 'eq' if f is not None and known(s, f) is False else '?', 'the count may end early')


# ---------------------------------------------------------------- dividing
def common(side):
    """what the obligations above say about a common prefix or suffix"""
    def f(eng, st, c):
        a, b = (dref(x) for x in c.args[:2])
        if a.op != 'seq' or b.op != 'seq':
            return None
        k = atom(mk('common', side, a, b), 0, MAXLEN)
        st = st.copy()
        if not st.addlin(sub(seqlen(a), k)) or not st.addlin(sub(seqlen(b), k)):
            return []
        return [(st, k)]
    return f


def again(eng, st, c):
    """the function itself: it appends a diff of its two ranges"""
    from sa import models
    a, b = (items_of(eng, st, x) for x in c.args[:2])
    sol = [x for x in c.args if x.op == 'mref' and eng.load(st, x.a[0], x.a[1]).op == 'seq']
    if len(sol) != 1:
        return None
    st = st.copy()
    cell, path = sol[0].a[0], sol[0].a[1]
    v = eng.load(st, cell, path)
    eng.store(st, cell, path, seq(*(v.a + (mk('opq', 'diff', a, b),))))
    return [(st, mk('adt', c.dty, 0))]


def middle_snake(eng, st, c):
    """the middle: some diagonal inside the two ranges"""
    (t, v), = call_cut('snake')(eng, st, c)
    t = t.copy()
    try:
        f = [get(eng, t, v, '1.' + n) for n in ('x_start', 'x_end', 'y_start', 'y_end')]
        n, m = (rng(eng, t, x)[2] for x in c.args[:2])
        for e in (sub(f[1], f[0]), sub(n, f[1]), sub(f[3], f[2]), sub(m, f[3]), sub(sub(f[1], f[0]), sub(f[3], f[2])), sub(sub(f[3], f[2]), sub(f[1], f[0]))):
            if not t.addlin(e):
                return []
    except Unsupported:
        return [(t, v)]
    return [(t, v)]


def items_of(eng, st, v):
    i, off, n = rng(eng, st, v)
    return seq(mk('sub', base(i), off, add(off, n)))


def base(i):
    i = dref(i)
    if i.op == 'seq' and len(i.a) == 1 and i.a[0].op == 'sub' and whole_of(i):
        return i.a[0].a[0]
    if i.op == 'seq':
        raise Unsupported('a range of %s' % i.op)
    return i


def named(p, tail):
    return [i['name'] for i in p.insts.values() if i['name'].endswith(tail)]


def cut_names(p, table):
    return {n: s for t, s in table.items() for n in named(p, t)}


COMMON = {'SliceLike>::common_prefix_len': common(PRE), 'SliceLike>::common_suffix_len': common(SUF)}


def divide(o, key):
    cuts = cut_names(o.p, {**COMMON, 'myers::find_middle_snake': middle_snake, 'myers::conquer': again})

    def setup(eng, st, args):
        for i in (0, 1):
            inner, off, n = rng(eng, st, args[i])
            st.addlin(sub(sub(seqlen(inner), off), n))
    r = o.run(key, 'any two ranges', setup, cuts=cuts, empty=False)
    if r is None:
        return
    note = Notes(o, key)
    eng = r.eng
    for q in r.panics:
        snake = any(x.op == 'call' and x.a[0] == 'snake' for L in q.st.lin for x in mentions(L))
        if not feasible(q.st) or snake:
            continue        # where the middle is, is not this property's concern: a panic is no wrong diff
        note('no panic before the search', '?', 'panics (%s): %s' % (q.why, case(eng, q.st)))
    a, b = (rng(eng, St(), eng.args[i]) for i in (0, 1))
    n = 0
    for q in r.paths:
        if not feasible(q.st):
            continue
        outs = [v for v in q.outs if v.op == 'seq' and any(t.op == 'in' for t in mentions(v)) and v.a and v.a[0].op == 'sub' and v.a[0].a[0].op == 'in']
        if len(outs) != 1 or not whole_of(seq(outs[0].a[0])):
            raise Unsupported('the growing solution')
        covers(eng, q.st, outs[0].a[1:], a, b, note)
        n += 1
    if not n:
        raise Unsupported('no completing path')
    note.report()


T1 = 'every item of both sides, once, in order'
T2 = 'unchanged stretches are equal'


def covers(eng, st, ps, a, b, note):
    """the pieces tile the two ranges (inner, offset, length)"""
    for s, v, text in tiles(eng, st, ps, a, b):
        what = T2 if v.endswith('2') else T1
        v = v.rstrip('2')
        if v == 'ne' and not (exact(s) and feasible(s)):
            v = '?'
        note(what, v, '%s (%s)' % (text, case(eng, s)))


def tiles(eng, st, ps, a, b):
    at = [a[1], b[1]]
    end = [add(a[1], a[2]), add(b[1], b[2])]
    inner = [base(a[0]), base(b[0])]
    nm = ('old', 'new')
    for k, q in enumerate(ps):
        if q.op == 'opq' and q.a[0] == 'diff':
            got = [(x.a[0].a[0], x.a[0].a[1], x.a[0].a[2]) for x in q.a[1:]]
            sides = (0, 1)
        elif q.op == 'el1':
            cs = list(eng.cases(st, strip_refs(q.a[0])))
            if len(cs) != 1:
                yield st, '?', 'piece %d is %s' % (k + 1, short(eng, q.a[0]))
                return
            _, var, x = cs[0]
            name = eng.types[eng.tyof(x)]['variants'][var]['name']
            got = []
            for f in x.a[2:]:
                i, off, n = rng(eng, st, f)
                got.append((base(i), off, add(off, n)))
            sides = {'Equal': (0, 1), 'Delete': (0,), 'Insert': (1,)}[name]
            if name == 'Equal':
                yield from equal_halves(eng, st, got)
        else:
            yield st, '?', 'piece %d is %s' % (k + 1, q.op)
            return
        for side, (i, lo, hi) in zip(sides, got):
            if i is not inner[side]:
                yield st, 'ne' if i is inner[1 - side] else '?', 'piece %d shows items of the other side as %s' % (k + 1, nm[side])
                return
            d = sub(lo, at[side])
            ok = yield from zero(eng, st, d, 'piece %d starts at %s of the %s side, where %s comes next' % (k + 1, short(eng, lo), nm[side], short(eng, at[side])))
            if not ok:
                return
            at[side] = hi
    for side in (0, 1):
        ok = yield from zero(eng, st, sub(at[side], end[side]), 'the diff of the %s side ends at %s instead of %s' % (nm[side], short(eng, at[side]), short(eng, end[side])))
        if not ok:
            return
    yield st, 'eq', ''


def zero(eng, st, d, text):
    r = st.decide(eq0(d))
    if r is True:
        return True
    cm = {x for f in (*st.lits, *st.lin, d) for x in mentions(f) if x.op == 'common'}
    if len(cm) > 2 or not places(st, d):
        yield st, '?', text
        return False
    for s in st.assume(neg(eq0(d))):
        for e in (d, scale(d, -1)):
            for t in s.assume(ge(sub(e, ONE))):
                if feasible(t):
                    yield t, 'ne', text
                    return False
    yield st, '?', text
    return False


def places(st, *ts):
    """of the middle, only its places matter"""
    got = {x for f in (*st.lits, *st.lin, *ts) for x in mentions(f) if x.op == 'fld' and x.a[0].op == 'call'}
    return len(got) <= 1


def equal_halves(eng, st, got):
    (ia, la, ha), (ib, lb, hb) = got
    n = sub(ha, la)
    ok = yield from zero(eng, st, sub(n, sub(hb, lb)), 'an unchanged stretch has %s items of the old and %s of the new side' % (short(eng, n), short(eng, sub(hb, lb))))
    if not ok:
        return
    if st.decide(ge(scale(n, -1))) is True:
        return
    facts_ = {x for f in (*st.lits, *st.lin, la, ha) for x in mentions(f) if x.op == 'common'}
    part = []
    for c in facts_:
        side, A, B = c.a
        if not all(s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub' for s in (A, B)):
            continue
        for X, Y in ((A, B), (B, A)):
            (xi, xl, xh), (yi, yl, yh) = X.a[0].a, Y.a[0].a
            if xi is not ia or yi is not ib:
                continue
            k = mk('lin', 0, ((c, 1),))
            if side == PRE:
                same_place = sub(sub(la, xl), sub(lb, yl))
                inside = [sub(la, xl), sub(add(xl, k), ha)]
            else:
                same_place = sub(sub(xh, ha), sub(yh, hb))
                inside = [sub(xh, ha), sub(la, sub(xh, k))]
            if st.decide(eq0(same_place)) is not True:
                continue
            if all(st.decide(ge(e)) is True for e in inside):
                yield st, 'eq2', ''
                return
            part.append(c)
    if any(x.op == 'call' for x in mentions(la) | mentions(ha)) or any(x.op == 'el' for f in st.lits for x in mentions(f)):
        yield st, '?2', 'no reason why %s and %s should be equal' % (short(eng, la), short(eng, lb))
        return
    for s in st.assume(ge(sub(n, ONE))):
        yield s, 'ne2' if len(facts_) <= 2 else '?2', 'items %s to %s of the old side are called equal to those from %s on of the new side, which was not compared' % (short(eng, la), short(eng, ha), short(eng, lb))


# ---------------------------------------------------------------- the whole
def whole_diff(o, key):
    cuts = cut_names(o.p, {'myers::conquer': again})
    r = o.run(key, 'any two lists', cuts=cuts)
    if r is None:
        return
    note = Notes(o, key)
    eng = r.eng
    a, b = (dref(x) for x in eng.args[:2])
    for q in r.paths:
        if not feasible(q.st):
            continue
        v = dref(q.val)
        if v.op != 'seq':
            raise Unsupported('the result')
        covers(eng, q.st, v.a, (a, ZERO, seqlen(a)), (b, ZERO, seqlen(b)), note)
    if not note.m:
        raise Unsupported('no completing path')
    note.report()


def part(st, x, a):
    """a proper part of the list, or the other list"""
    if x is a:
        return 'eq'
    if all(len(s.a) == 1 and s.a[0].op == 'sub' for s in (x, a)) and x.a[0].a[0].op == a.a[0].a[0].op == 'deref':
        if x.a[0].a[0] is not a.a[0].a[0] or st.decide(ge(sub(sub(seqlen(a), seqlen(x)), ONE))) is True:
            return 'ne'
    return '?'


def sliced(o, key):
    cuts = cuts_for(o.p, {('myers::diff',): call_cut('diff'), ('cleanup::compact',): call_cut('compact', 0)})
    r = o.run(key, 'any two lists', cuts=cuts)
    if r is None:
        return
    note = Notes(o, key)
    eng = r.eng
    k = 'the diff of these two lists, compacted or not'
    for q in r.paths:
        if not feasible(q.st):
            continue
        v = q.val
        c = origin(v)
        if c.op == 'call' and c.a[0] == "compact'":
            v = c.a[1]
            c = origin(v)
        if c.op != 'call' or c.a[0] != 'diff':
            note(k, '?', 'it is %s' % short(eng, q.val))
            continue
        x, y = c.a[1:3]
        a, b = (dref(w) for w in eng.args[1:3])
        x, y = dref(x), dref(y)
        ok = x is a and y is b and whole_of(v)
        definite = not ok and x.op == y.op == 'seq' and (not whole_of(v) and x is a and y is b or 'ne' in (part(q.st, x, a), part(q.st, y, b)))
        note(k, 'eq' if ok else 'ne' if definite and exact(q.st) else '?', 'it is the diff of %s and %s' % (short(eng, x), short(eng, y)))
    if not note.m:
        raise Unsupported('no completing path')
    note.report()
