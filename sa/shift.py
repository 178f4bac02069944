"""C20: compaction rewrites a diff into another diff of the same two texts."""
from itertools import product
from sa.obl import *
from sa.apply import feasible, guarded
from sa.cover import COMMON, cut_names, base, places, PRE
from sa.mergetab import Notes, case, rng
from sa.opts import call_cut, origin, whole_of
from sa.rows import rounds

T1 = 'every item of both sides, once, in order'
T2 = 'unchanged stretches are equal'
T3 = 'no panic'
T4 = 'it stays at a change'


def run_c20(p, rep):
    o = Obl(p, rep)
    for what, n in (('shifting a change up', 'shift_diff_up'), ('shifting a change down', 'shift_diff_down')):
        for k in o.find(what, 'diffy::diff::cleanup::' + n):
            guarded(o, k, shifting)
    for k in o.find('compaction', 'diffy::diff::cleanup::compact'):
        guarded(o, k, compaction)
    o.done()


# ---------------------------------------------------------------- lists rewritten in the middle
def flatten(st, s, h):
    """the parts of a list in terms of the list h: ('run', lo, hi) and ('el', value)"""
    out = []
    for q in s.a:
        out += flat_part(st, q, h)
    return out


def flat_part(st, q, h):
    if q.op == 'el1':
        return [('el', q.a[0])]
    if q.op != 'sub':
        raise Unsupported('a list with %s' % q.op)
    b, lo, hi = q.a
    if st.decide(eq0(sub(hi, lo))) is True:
        return []
    if b is h:
        return [('run', lo, hi)]
    if b.op == 'seq':
        r = subseq(b, lo, hi, st)
        if r.a == (q,):
            raise Unsupported('where a part of the list ends')
        return flatten(st, r, h)
    if b.op == 'upd':
        s, i, v = b.a
        s = whole(s) if s.op != 'seq' else s
        if st.decide(ge(sub(sub(lo, i), ONE))) is True or st.decide(ge(sub(i, hi))) is True:
            return flatten(st, subseq(s, lo, hi, st), h)
        if st.decide(ge(sub(i, lo))) is not True or st.decide(ge(sub(sub(hi, i), ONE))) is not True:
            raise Unsupported('where a list changes')
        return flatten(st, subseq(s, lo, i, st), h) + [('el', v)] + flatten(st, subseq(s, add(i, ONE), hi, st), h)
    raise Unsupported('a list of another origin')


def window(eng, st, s, h, ety):
    """(lo, k, [values]): the list is h with the k items from lo on replaced by the values"""
    n = atom(mk('len', h), 0, MAXLEN)
    ts = flatten(st, s, h)
    lo, hi = ZERO, n

    def steps(d):
        k = cval(d)
        return k if k is not None else next((k for k in range(7) if st.decide(eq0(sub(d, num(k)))) is True), None)
    if ts and ts[0][0] == 'run' and st.decide(eq0(ts[0][1])) is True:
        lo = ts.pop(0)[2]
        if not ts and st.decide(eq0(sub(lo, n))) is True:
            return n, 0, []
    if ts and ts[-1][0] == 'run' and st.decide(eq0(sub(ts[-1][2], n))) is True:
        hi = ts.pop()[1]
    vals = []
    for t in ts:
        if t[0] == 'el':
            vals.append(t[1])
            continue
        k = steps(sub(t[2], t[1]))
        if k is None or k > 4:
            raise Unsupported('a part of the list is moved')
        vals += [eng.seqget(st, whole(h), add(t[1], num(i)), ety) for i in range(k)]
    k = steps(sub(hi, lo))
    if k is None or k > 6:
        raise Unsupported('the stretch that changes')
    return lo, k, vals


def pieces(eng, st, v):
    """[(state, variant, [(inner, offset, len)])]"""
    for s, var, x in eng.cases(st, strip_refs(v)):
        name = eng.types[eng.tyof(x)]['variants'][var]['name']
        yield s, name, [(base(i), off, n) for i, off, n in (rng(eng, s, f) for f in x.a[2:])]


SIDES = {'Equal': (0, 1), 'Delete': (0,), 'Insert': (1,)}
NAMES = ('old', 'new')


def worlds(eng, st, vals):
    """the values as pieces, one state per combination of kinds"""
    sts = [(st, [])]
    for v in vals:
        sts = [(s2, ps + [(n, rs)]) for s, ps in sts for s2, n, rs in pieces(eng, s, v)]
    return sts


def tiled(st, ps):
    """st with what a stretch of a diff is known to satisfy, and its two sides; None if it cannot be"""
    st = st.copy()
    side = {}
    at = [None, None]
    start = [None, None]
    same_ = []
    for name, rs in ps:
        for k, (i, off, n) in zip(SIDES[name], rs):
            side[i] = k
            if at[k] is None:
                start[k] = off
            elif not (st.addlin(sub(off, at[k])) and st.addlin(sub(at[k], off))):
                return None
            at[k] = add(off, n)
            # the ends of a range lie in its list, whose length fits an isize
            n_, m = atom(mk('len', mk('side', k)), 0, 2 ** 60), atom(mk('len', i), 0, MAXLEN)
            if not (st.addlin(sub(n_, at[k])) and st.addlin(sub(n_, m)) and st.addlin(sub(m, n_))):
                return None
        if name == 'Equal':
            d = sub(rs[0][2], rs[1][2])
            if not (st.addlin(d) and st.addlin(scale(d, -1))):
                return None
            same_.append((rs[0][1], rs[1][1], rs[0][2]))
    return st, side, start, at, same_


def evidence(st, side, same_):
    """stretches known to be equal: (old offset, new offset, length)"""
    out = list(same_)
    for c in {x for f in (*st.lits, *st.lin) for x in mentions(f) if x.op == 'common'}:
        which, A, B = c.a
        if not all(s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub' for s in (A, B)):
            continue
        (xi, xl, xh), (yi, yl, yh) = A.a[0].a, B.a[0].a
        sx, sy = side.get(xi), side.get(yi)
        if sx is None or sy is None or sx == sy:
            continue
        if sx == 1:
            xl, xh, yl, yh = yl, yh, xl, xh
        k = mk('lin', 0, ((c, 1),))
        out.append((xl, yl, k) if which == PRE else (sub(xh, k), sub(yh, k), k))
    return out


def judge(eng, st, before, after, sure):
    """the stretch `before` of a diff is replaced by `after`: yields (state, what, verdict, text)"""
    for s0, ps in worlds(eng, st, before):
        t = tiled(s0, ps)
        if t is None or not feasible(t[0]):
            continue
        s1, side, start, end, same_ = t
        for s, qs in worlds(eng, s1, after):
            if not feasible(s):
                continue
            yield from compare(eng, s, side, start, end, same_, qs, sure)


def off_by(st, d, what, text, sure):
    """d must be zero"""
    r = st.decide(eq0(d))
    if r is True:
        return True
    for s in st.assume(neg(eq0(d))):
        for e in (d, scale(d, -1)):
            for t in s.assume(ge(sub(e, ONE))):
                if feasible(t):
                    yield t, what, 'ne' if sure else '?', text
                    return False
    return True


def compare(eng, st, side, start, end, same_, qs, sure):
    at = list(start)
    ev = evidence(st, side, same_)
    seen = []
    for n, (name, rs) in enumerate(qs):
        for k, (i, off, ln) in zip(SIDES[name], rs):
            if side.get(i) is None:
                yield st, T1, '?', 'piece %d is a part of something else' % (n + 1)
                return
            if side[i] != k:
                yield st, T1, 'ne' if sure else '?', 'items of the %s side are shown as %s' % (NAMES[side[i]], NAMES[k])
                return
            if at[k] is None:
                # nothing of this side was here
                ok = yield from off_by(st, ln, T1, '%s items of the %s side come from nowhere' % (short(eng, ln), NAMES[k]), sure)
            else:
                ok = yield from off_by(st, sub(off, at[k]), T1, 'piece %d starts at %s of the %s side, where %s comes next' % (n + 1, short(eng, off), NAMES[k], short(eng, at[k])), sure)
                at[k] = add(off, ln)
            if not ok:
                return
        if name == 'Equal':
            ok = yield from off_by(st, sub(rs[0][2], rs[1][2]), T2, 'an unchanged stretch has %s items of the old and %s of the new side' % (short(eng, rs[0][2]), short(eng, rs[1][2])), sure)
            if not ok:
                return
            seen.append((rs[0][1], rs[1][1], rs[0][2]))
    for k in (0, 1):
        if end[k] is not None:
            ok = yield from off_by(st, sub(at[k], end[k]), T1, 'the %s side ends at %s instead of %s' % (NAMES[k], short(eng, at[k]), short(eng, end[k])), sure)
            if not ok:
                return
    yield st, T1, 'eq', ''
    for lo, lo2, ln in seen:
        yield justified(eng, st, lo, lo2, ln, ev, sure)


def justified(eng, st, lo, lo2, ln, ev, sure):
    """the old items from lo on equal the new ones from lo2 on, by the stretches known to be equal"""
    x, end = lo, add(lo, ln)
    left = list(ev)
    while st.decide(ge(sub(x, end))) is not True:
        for e in left:
            a, b, k = e
            if st.decide(eq0(sub(sub(a, b), sub(lo, lo2)))) is True and st.decide(ge(sub(x, a))) is True and st.decide(ge(sub(sub(add(a, k), x), ONE))) is not False:
                # empty stretches may be passed over
                left.remove(e)
                if st.decide(ge(sub(add(a, k), x))) is True:
                    x = add(a, k)
                    break
        else:
            for s in st.assume(ge(sub(sub(end, x), ONE))):
                if feasible(s):
                    return s, T2, 'ne' if sure else '?', 'items from %s on of the old side are called equal to those from %s on of the new side without a reason' % (short(eng, x), short(eng, add(x, sub(lo2, lo))))
            break
    return st, T2, 'eq', ''


def item_type(eng):
    """the type of the items of the list that the function rewrites"""
    key = eng.root
    for t in eng.p.insts[key]['body']['locals'][1:eng.p.insts[key]['body']['argc'] + 1]:
        t = eng.types[t]
        if t['k'] == 'ref' and eng.types[t['to']].get('name') == 'std::vec::Vec':
            return eng.types[t['to']]['args'][0]
    raise Unsupported('the list')


# ---------------------------------------------------------------- shifting
def start(eng, st, args):
    """the pointer is at a change"""
    v = eng.load(st, args[0].a[0], args[0].a[1])
    eng.ety = item_type(eng)
    eng.alias = True
    st.addlin(sub(sub(seqlen(v), args[1]), ONE))
    el = eng.seqget(st, v, args[1], eng.ety)
    out = []
    for s, var, x in eng.cases(st, el):
        if eng.types[eng.tyof(x)]['variants'][var]['name'] != 'Equal':
            out.append(s)
    return out


def shifting(o, key):
    cuts = cut_names(o.p, COMMON)
    kw = dict(cuts=cuts, empty=False)
    r = o.run(key, 'any stretch of a diff', start, **kw)
    if r is None:
        return
    note = Notes(o, key)
    inductive(r, note)
    if note.worst() != 'eq':
        for b in (1, 2):
            r2 = o.d.run(key, start, bound=b, **kw)
            if r2.error or r2.unknown:
                break
            n2 = Notes(o, key)
            exactly_run(r2, n2)
            if n2.worst() == 'ne':
                note = n2
                for vs in note.m.values():
                    vs[:] = [x for x in vs if x[0] == 'ne'] or [('eq', '')]
                break
    note.report()


def list_cell(eng):
    return [c for c in {a.a[0] for a in eng.args if a.op == 'mref'}][0]


def at_change(eng, st, v, i, ety):
    """is the item number i of the list there, and a change?"""
    if st.decide(ge(i)) is not True or st.decide(ge(sub(sub(seqlen(v), i), ONE))) is not True:
        return None
    e = eng.seqget(st, v, i, ety)
    kinds = {eng.types[eng.tyof(x)]['variants'][var]['name'] for s, var, x in eng.cases(st, strip_refs(e)) if feasible(s)}
    return 'Equal' not in kinds if len(kinds) == 1 or 'Equal' not in kinds else None


def inductive(r, note):
    eng = r.eng
    rds = rounds(eng)
    if len(rds) != 1:
        raise Unsupported('%d kinds of rounds' % len(rds))
    rd, = rds
    cell = list_cell(eng)
    hv = rd.part.cells[cell]
    if not whole_of(hv):
        raise Unsupported('the list in a round')
    h = hv.a[0].a[0]
    ety = item_type(eng)
    ptr = [x for x, it in rd.nums()]
    # the pointer of the rounds: the number that starts as the given one
    first = rd.L.match(rd.part, {c: rd.rec.st0.cells[c] for c in rd.part.cells if c in rd.rec.st0.cells})
    ptr = [x for x in ptr if first.get(x) is eng.args[1]]
    if len(ptr) != 1:
        raise Unsupported('the pointer')
    p = mk('lin', 0, ((ptr[0], 1),))

    def there(st):
        """states in which the pointer is at a change"""
        out = []
        for s in st.assume(ge(sub(sub(seqlen(hv), p), ONE))):
            for s2, var, x in eng.cases(s, eng.seqget(s, hv, p, ety)):
                if eng.types[eng.tyof(x)]['variants'][var]['name'] != 'Equal' and feasible(s2):
                    out.append(s2)
        return out
    note(T4, 'eq', '')
    for q in r.panics:
        for s in there(q.st):
            for s2 in near(eng, s, h, ety):
                note(T3, '?', 'panics (%s): %s' % (q.why, case(eng, s2)))
    note(T3, 'eq', '')
    for i, kind, st, g in rd.rows:
        for s in there(st):
            if not feasible(s):
                continue
            after_round(eng, s, s.cells[cell], h, ety, note, False)
            if kind == 'back':
                af = rd.after(s)
                np = af.get(ptr[0])
                note(T4, 'eq' if np is not None and stays(eng, s, s.cells[cell], np, ety, h) is True else '?', 'a round leads to %s (%s)' % (short(eng, np) if np is not None else '?', case(eng, s)))
    for q in r.paths:
        for s in there(q.st):
            v = q.val
            note(T4, 'eq' if v.op == 'lin' and stays(eng, s, s.cells[cell], v, ety, h) is True else '?', 'it ends at %s (%s)' % (short(eng, v), case(eng, s)))
            after_round(eng, s, s.cells[cell], h, ety, note, False)


def stays(eng, st, v, i, ety, h):
    for s in near(eng, st, h, ety):
        if at_change(eng, s, v, i, ety) is not True:
            return None
    return True


def near(eng, st, h, ety, strict=False):
    """st with what is known of the pieces of the list that it mentions"""
    idx = {x.a[1] for f in (*st.lits, *st.lin, *st.disc) for x in mentions(f) if x.op == 'el' and x.a[0] is h}
    if not idx:
        return [st] if feasible(st) else []
    runs = order(st, idx)
    if runs is None:
        return [] if strict else [st]
    sts = [st]
    for run in runs:
        nxt = []
        for s in sts:
            for s2, ps in worlds(eng, s, [eng.seqget(s, whole(h), i, ety) for i in run]):
                t = tiled(s2, ps)
                if t is not None and feasible(t[0]):
                    nxt.append(t[0])
        sts = nxt
    return sts


def order(st, idx):
    """indices in runs of consecutive ones; None if it is not known how they lie"""
    idx = list(idx)
    base_ = idx[0]
    at = {base_: 0}
    for i in idx[1:]:
        d = sub(i, base_)
        v = cval(d)
        if v is None:
            v = next((k for k in range(-4, 5) if st.decide(eq0(sub(d, num(k)))) is True), None)
        if v is None:
            return None
        at[i] = v
    if len(set(at.values())) < len(idx):
        return None
    idx.sort(key=at.get)
    runs = [[idx[0]]]
    for i in idx[1:]:
        if at[i] - at[runs[-1][-1]] == 1:
            runs[-1].append(i)
        else:
            runs.append([i])
    return runs


def after_round(eng, st, v, h, ety, note, sure):
    try:
        lo, k, vals = window(eng, st, v, h, ety)
    except Unsupported as e:
        note(T1, '?', '%s (%s)' % (e, case(eng, st)))
        return
    if not vals and not k:
        note(T1, 'eq', '')
        return
    old = [eng.seqget(st, whole(h), add(lo, num(i)), ety) for i in range(k)]
    for s, what, verdict, text in judge(eng, st, old, vals, sure):
        note(what, verdict, '%s (%s)' % (text, case(eng, s)))


def exactly_run(r, note):
    eng = r.eng
    cell = list_cell(eng)
    h = None
    for q in r.paths + r.panics:
        s = q.st
        for f in (*s.lits, *s.lin, *s.disc):
            for x in mentions(f):
                if x.op == 'el' and x.a[0].op in ('in', 'deref'):
                    h = x.a[0]
    if h is None:
        return
    ety = item_type(eng)
    for q in r.panics:
        if not exact(q.st):
            continue
        for s in near(eng, q.st, h, ety, True):
            note(T3, 'ne', 'panics (%s): %s' % (q.why, case(eng, s)))
    for q in r.paths:
        if exact(q.st, q.val) and feasible(q.st):
            after_round(eng, q.st, q.st.cells[cell], h, ety, note, True)


# ---------------------------------------------------------------- the whole
def compaction(o, key):
    bad = []

    def step(tag):
        cut = call_cut(tag, 0)

        def f(eng, st, c):
            v = eng.load(st, c.args[0].a[0], c.args[0].a[1])
            p = c.args[1]
            bad.append((eng, st, v, p, tag))
            out = cut(eng, st, c)
            for s, x in out:               # it stays at a change, thus within the list
                s.addlin(sub(sub(seqlen(eng.load(s, c.args[0].a[0], c.args[0].a[1])), x), ONE))
            return out
        return f
    cuts = cuts_for(o.p, {('cleanup::shift_diff_up',): step('up'), ('cleanup::shift_diff_down',): step('down')})
    r = o.run(key, 'any diff', cuts=cuts, empty=False)
    if r is None:
        return
    note = Notes(o, key)
    eng = r.eng
    k1, k2 = 'the diff changes by shifts only', 'shifts start at a change'
    maybe = False
    for _, st, v, p, tag in bad:
        if not feasible(st):
            continue
        c, d = origin(v), origin(p)
        if d.op == 'call' and c.op == 'call' and c.a[0] == d.a[0] + "'" and c.a[1:-1] == d.a[1:-1] and p.a == mk('lin', 0, ((d, 1),)).a and whole_of(v):
            note(k2, 'eq', '')       # where the last shift ended
            continue
        h = v.a[0].a[0] if whole_of(v) else None
        ok = at_change(eng, st, v, p, item_type(eng)) if h is not None else None
        if ok is False:
            maybe = True
        note(k2, 'eq' if ok is True else '?', 'shifting %s starts at %s (%s)' % (tag, short(eng, p), case(eng, st)))
    cell = list_cell(eng)
    for rd in rounds(eng):
        for i, kind, st, g in rd.rows:
            if feasible(st):
                shifted(eng, st.cells.get(cell), note, k1)
    for q in r.paths:
        if feasible(q.st):
            shifted(eng, q.st.cells[cell], note, k1)
    for q in r.panics:
        if feasible(q.st):
            note(T3, '?', 'panics (%s): %s' % (q.why, case(eng, q.st)))
    if maybe:
        unchanged_shifted(o, key, cuts, bad, note, k2)
    note.report()


def unchanged_shifted(o, key, cuts, bad, note, k2):
    """an unchanged stretch is shifted, and that panics"""
    bad.clear()
    r = o.d.run(key, cuts=cuts, empty=False, bound=2)
    if r.error or r.unknown:
        return
    for eng, st, v, p, tag in bad:
        c = v.a[0].a[0] if whole_of(v) else None
        if c is None or c.op not in ('in', 'deref') or not exact(st) or not feasible(st) or not isnum(p):
            continue
        ety = item_type(eng)
        if at_change(eng, st, v, p, ety) is not False:
            continue
        for k in o.d.find('diffy::diff::cleanup::shift_diff_' + tag):
            def same(e2, s2, args, n=p.a[0]):
                e2.alias = True
                hv = e2.load(s2, args[0].a[0], args[0].a[1])
                s2.addlin(sub(args[1], num(n)))
                s2.addlin(sub(num(n), args[1]))
                s2.addlin(sub(sub(seqlen(hv), args[1]), num(2)))
                el = e2.seqget(s2, hv, args[1], item_type(e2))
                return [s for s, var, x in e2.cases(s2, el) if e2.types[e2.tyof(x)]['variants'][var]['name'] == 'Equal']
            r2 = o.d.run(k, same, cuts=cut_names(o.p, COMMON), bound=1, empty=False)
            ps = [q for q in r2.panics if exact(q.st) and feasible(q.st)]
            if not r2.error and not r2.unknown and ps and not [q for q in r2.paths if feasible(q.st)] and len(ps) == len([q for q in r2.panics if feasible(q.st)]):
                for s in st.assume(ge(sub(sub(seqlen(v), p), num(2)))):
                    if feasible(s):
                        note(k2, 'ne', 'shifting %s starts at %s, an unchanged stretch, and panics there (%s): %s' % (tag, short(eng, p), ps[0].why, case(eng, s)))
                        return


def shifted(eng, v, note, k):
    while v is not None and whole_of(v):
        c = v.a[0].a[0]
        if c.op == 'call' and c.a[0] in ("up'", "down'"):
            v = c.a[1]
            continue
        if c.op in ('in', 'h'):
            note(k, 'eq', '')
            return
        break
    note(k, '?', 'it becomes %s' % (short(eng, v) if v is not None else '?'))
