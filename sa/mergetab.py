"""C15: how a merge decides between the sides."""
from itertools import permutations
from sa.obl import *
from sa.rows import Round, rounds, target
from sa.apply import feasible, guarded, base_of
from sa.drive import get
from sa.mergeout import fields

EMPTY = (None, ZERO, ZERO)


def run_c15(p, rep):
    o = Obl(p, rep)
    for what, name, f in (('walking both solutions', 'merge_solutions', zipped), ('grouping the regions', 'diff3_range_to_merge_range', grouping),
                          ('resolving conflicts', 'cleanup_conflicts', cleaning)):
        ks = [k for k, i in sorted(p.insts.items(), key=lambda x: x[1]['inst'])
              if i.get('body') and i['name'].split('::<')[0] == 'diffy::merge::' + name]
        if not ks:
            rep.unk('%s: not recognised in this tree' % what)
        for k in ks:
            guarded(o, k, f)
    o.done()


def outs(rd):
    """the growing lists among the loop's cells: [(cell, atom)]"""
    return [(c, v.a[0].a[0]) for c, v in rd.part.cells.items() if v.op == 'seq' and len(v.a) == 1 and v.a[0].op == 'sub' and v.a[0].a[0] in rd.seqs()]


# ---------------------------------------------------------------- ranges
def rng(eng, st, v):
    v = strip_refs(v)
    return (get(eng, st, v, 'inner'), get(eng, st, v, 'offset'), get(eng, st, v, 'len'))


def same_range(st, g, w):
    ge_, we = st.decide(eq0(g[2])), st.decide(eq0(w[2]))
    if ge_ is True and we is True:
        return 'eq'
    b = same(st, g[2], w[2])
    if b == 'ne':
        return 'ne'
    a = same(st, g[1], w[1])
    if a == 'eq' and b == 'eq':
        return 'eq' if g[0] is w[0] or w[0] is None else '?'
    if a == 'ne' and (ge_ is False or we is False):
        return 'ne'
    return '?'


def decode(eng, st, v):
    """a MergeRange, Diff3Range or DiffRange value as (variant, [ranges]); the variant must be known"""
    v = strip_refs(v)
    for s, var, x in eng.cases(st, v):
        name = eng.types[eng.tyof(x)]['variants'][var]['name']
        yield s, name, [rng(eng, s, f) for f in x.a[2:]]


def option(eng, st, v):
    for s, var, x in eng.cases(st, v):
        yield s, (None if eng.types[eng.tyof(x)]['variants'][var]['name'] == 'None' else x.a[2])


def empties(st, r):
    """split by whether a range is empty"""
    if r[2] is ZERO:
        return [(st, True)]
    y, n = st.split(eq0(r[2]))
    return [(s, True) for s in y] + [(s, False) for s in n]


def parts(v):
    """the single elements at the end of a list: [value], or None"""
    out = []
    for p in v:
        if p.op != 'el1':
            return None
        out.append(p.a[0])
    return out


def compare_lists(eng, st, got, want, norm):
    """(state, verdict, text) for every case of the got values"""
    def rec(s, gs, acc):
        if not gs:
            yield s, acc
            return
        for t, name, rs in decode(eng, s, gs[0]):
            yield from rec(t, gs[1:], acc + [(name, rs)])
    for s, g in rec(st, list(got), []):
        gn, wn = norm(s, g), norm(s, want)
        if len(gn) != len(wn):
            yield s, 'ne', 'there are %d regions instead of %d' % (len(gn), len(wn))
            continue
        v, text = 'eq', ''
        for a, b in zip(gn, wn):
            r, tx = one_region(eng, s, a, b)
            if r == 'ne':
                v, text = r, tx
                break
            if r == '?' and v == 'eq':
                v, text = r, tx
        yield s, v, text


def one_region(eng, st, a, b):
    if a[0] != b[0]:
        return 'ne', 'the region is %s instead of %s' % (a[0], b[0])
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        r = same_range(st, x, y)
        if r != 'eq':
            return r, 'part %d of the region %s is %s lines from %s on, not %s from %s' % (i, a[0], short(eng, x[2]), short(eng, x[1]), short(eng, y[2]), short(eng, y[1]))
    return 'eq', ''


class Notes:
    def __init__(self, o, key):
        self.o, self.key, self.m = o, key, {}

    def __call__(self, what, v, text):
        self.m.setdefault(what, []).append((v, text))

    def worst(self):
        vs = [v for x in self.m.values() for v, _ in x]
        return 'ne' if 'ne' in vs else '?' if '?' in vs else 'eq'

    def report(self):
        nm, rep = self.o.d.name(self.key), self.o.rep
        for what, vs in sorted(self.m.items()):
            bad = [t for v, t in vs if v == 'ne']
            unk = [t for v, t in vs if v == '?']
            if bad:
                rep.bad('%s|%s' % (nm, what), '%s: %s: %s' % (self.o.where(self.key), what, bad[0]))
            elif unk:
                rep.unk('%s: %s: %s' % (nm, what, unk[0]))
            else:
                rep.good('%s: %s' % (nm, what))


def case(eng, st):
    return 'case: ' + ' & '.join(facts(eng, st))[:400]


# ---------------------------------------------------------------- grouping the regions between unchanged ones
def add_to(st, cur, new):
    """[(state, accumulated)]"""
    if cur is None:
        return [(st, new)]
    out = []
    for s, e in empties(st, cur):
        if e:
            out.append((s, new))
            continue
        for t, e2 in empties(s, new):
            out.append((t, cur if e2 else (cur[0], cur[1], add(cur[2], new[2]))))
    return out


def flush(S):
    a, o, t = S
    if o is None and t is None:
        return None if a is not None else []
    if a is None and t is None:
        return [('Ours', [o])]
    if a is None and o is None:
        return [('Theirs', [t])]
    return [('Conflict', [a or EMPTY, o or EMPTY, t or EMPTY])]


def group_step(eng, st, S, el):
    """[(state, variant, next accumulators, regions finished or None: not possible)]"""
    out = []
    for s, name, r in decode(eng, st, el):
        if name == 'Equal':
            f = flush(S)
            out.append((s, name, (None, None, None), None if f is None else f + [('Equal', r)]))
            continue
        new = {'Ancestor': (r[0], EMPTY, EMPTY)}.get(name)
        if new is None:
            new = {'AncestorOurs': lambda: (r[0], r[1], None), 'AncestorTheirs': lambda: (r[0], None, r[1]),
                   'Ours': lambda: (None, r[0], None), 'Theirs': lambda: (None, None, r[0])}[name]()
        sts = [(s, [])]
        for cur, n in zip(S, new):
            sts = [(u, acc + [v]) for t, acc in sts for u, v in (add_to(t, cur, n) if n is not None else [(t, cur)])]
        out += [(t, name, tuple(acc), []) for t, acc in sts]
    return out


def group_norm(st, regs):
    """equivalent ways to say the same region"""
    out = []
    for name, rs in regs:
        if name == 'Conflict':
            e = [st.decide(eq0(r[2])) for r in rs]
            if e[0] and e[2]:
                name, rs = 'Ours', [rs[1]]
            elif e[0] and e[1]:
                name, rs = 'Theirs', [rs[2]]
        if name in ('Ours', 'Theirs') and st.decide(eq0(rs[0][2])) is True:
            continue
        out.append((name, rs))
    return out


def grouping(o, key):
    r = o.run(key, 'any list of regions')
    if r is None:
        return
    note = Notes(o, key)
    ok = False
    try:
        ok = group_induct(o, key, r, note)
    except Unsupported as e:
        note('every region', '?', str(e))
    if not ok:
        exactly(o, key, note, group_bounded, 3)
        if note.worst() == 'eq':
            note('every input', '?', 'short lists agree, the general step is not established')
    note.report()


def accumulators(rd, eng):
    """cells that hold an optional range"""
    out = []
    for c, v in rd.part.cells.items():
        try:
            t = eng.types[eng.tyof(v)]
        except Exception:
            continue
        if t.get('name') == 'std::option::Option' and 'Range<' in t['s']:
            out.append(c)
    return out


def group_induct(o, key, r, note):
    eng = r.eng
    lst = dref(eng.args[0])
    b = base_of(lst)[0]
    rds = [rd for rd in rounds(eng) if any(sub_base(it) is b for it, _ in rd.slices())]
    if not rds or len({rd.rec.site for rd in rds}) != 1:
        raise Unsupported('the loop over the regions is not recognised')
    rec = rds[0].rec
    cells = accumulators(rds[0], eng)
    if len(cells) != 3:
        raise Unsupported('%d accumulators' % len(cells))
    best = None
    for perm in permutations(cells):
        n = Notes(o, key)
        group_try(eng, r, lst, b, rds, rec, perm, n)
        if n.worst() == 'eq':
            for what, vs in n.m.items():
                note.m.setdefault(what, []).extend(vs)
            return True
    return False


def sub_base(it):
    s = it.a[1]
    return s.a[0].a[0] if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub' else None


def state_of(eng, st, cells, perm):
    """[(state, (A, O, T))]"""
    sts = [(st, ())]
    for c in perm:
        nxt = []
        for s, acc in sts:
            for t, x in option(eng, s, cells[c]):
                nxt.append((t, acc + (None if x is None else rng(eng, t, x),)))
        sts = nxt
    return sts


def group_try(eng, r, lst, b, rds, rec, perm, note):
    first = next(rd for rd in rds if rd.part is rec.parts[0])
    for s, S in state_of(eng, rec.st0, rec.st0.cells, perm):
        note('nothing is pending at first', 'eq' if S == (None, None, None) else '?', 'something is pending at first')
    m0 = first.L.match(first.part, {c: rec.st0.cells[c] for c in first.part.cells})
    for it, x in first.slices():
        if sub_base(it) is b:
            note('every region once, in order', 'eq' if subst(it.a[3], m0) is ZERO else '?', 'the first region looked at is another one')
    ety = eng.elem_ty(eng.tyof(b))
    for rd in rds:
        its = [it for it, _ in rd.slices() if sub_base(it) is b]
        if len(its) != 1 or len(outs(rd)) != 1:
            raise Unsupported('loop over the regions')
        it, (oc, out) = its[0], outs(rd)[0]
        for i, kind, s2, g in rd.rows:
            if kind != 'back':
                continue
            if target(rd, s2) is None:
                raise Unsupported('next round')
            for s, S in state_of(eng, s2, rd.part.cells, perm):
                el = eng.seqget(s, lst, it.a[3], ety)
                suf = rd.suffix(out, s2.cells[oc])
                gs = None if suf is None else parts(suf.a)
                if gs is None:
                    raise Unsupported('the list of results')
                nit = [x for c in s2.cells for x in mentions(s2.cells[c]) if x.op == 'it' and x.a[0] == 'slice' and sub_base(x) is b and x is not it
                       and c in rd.part.cells and it in mentions(rd.part.cells[c])]
                note('every region once, in order', 'eq' if any(x.a[3] is add(it.a[3], ONE) for x in nit) else '?', 'the next region is another one')
                for t, name, want, done in group_step(eng, s, S, el):
                    if not feasible(t) or done is None:
                        continue
                    what = 'a region of kind %s' % name
                    for u, v, text in compare_lists(eng, t, gs, done, group_norm):
                        note(what, v, text)
                    for u, got in state_of(eng, t, s2.cells, perm):
                        for x, y in zip(got, want):
                            if (x is None) != (y is None):
                                note(what, 'ne', 'pending')
                            elif x is not None:
                                note(what, same_range(u, x, y), 'what is pending after it differs (%s)' % case(eng, u))
    for p in r.paths:
        tr = [pi for rc, pi, i in p.st.trail if rc is rec]
        if not tr:
            raise Unsupported('a result without looking at the regions')
        rd = next(x for x in rds if x.part.idx == tr[-1])
        it = [it for it, _ in rd.slices() if sub_base(it) is b][0]
        note('every region once, in order', 'eq' if p.st.decide(ge(sub(it.a[3], seqlen(lst)))) is True else '?', 'not every region is looked at')
        for s, S in state_of(eng, p.st, rd.part.cells, perm):
            want = flush(S)
            if want is None:
                continue
            suf = rd.suffix(outs(rd)[0][1], p.val) if p.val.op == 'seq' else None
            gs = None if suf is None else parts(suf.a)
            if gs is None:
                raise Unsupported('the list of results')
            for u, v, text in compare_lists(eng, s, gs, want, group_norm):
                note('after the last region', v, text)


def exactly(o, key, note, f, most, budget=3000000):
    """follow short lists exactly; only definite contradictions count"""
    for k in range(1, most + 1):
        r = o.d.run(key, bound=k, budget=budget)
        if r.error or r.unknown:
            return
        f(o, key, r, note, k)
        if note.worst() == 'ne':
            return


def lists(eng, st, lst, k):
    """[(state, [elements])] for the lengths 0..k"""
    b = base_of(lst)[0]
    ety = eng.elem_ty(eng.tyof(b))
    for n in range(k + 1):
        for s in st.assume(eq0(sub(seqlen(lst), num(n)))):
            yield s, [eng.seqget(s, lst, num(i), ety) for i in range(n)]


def group_bounded(o, key, r, note, k):
    eng = r.eng
    lst = dref(eng.args[0])
    for p in r.paths:
        if not exact(p.st) or p.val.op != 'seq':
            continue
        gs = parts(p.val.a)
        if gs is None:
            continue
        for s, els in lists(eng, p.st, lst, k):
            sts = [(t, (None, None, None), [], []) for t in regions_of(eng, s, els)]
            for el in els:
                nxt = []
                for t, S, out, names in sts:
                    for u, name, S2, done in group_step(eng, t, S, el):
                        if feasible(u) and done is not None:
                            nxt.append((u, S2, out + done, names + [name]))
                sts = nxt
            for t, S, out, names in sts:
                f = flush(S)
                if f is None:
                    continue
                for u, v, text in compare_lists(eng, t, gs, out + f, group_norm):
                    if v == 'ne' and feasible(u) and exact(u):
                        note('regions of kinds %s' % ', '.join(names), 'ne', '%s (%s)' % (text, case(eng, u)))


    if k < 2:
        return
    for q in r.panics:
        if exact(q.st):
            for s, els in lists(eng, q.st, lst, k):
                for u in regions_of(eng, s, els):
                    note('no panic', 'ne', 'panics (%s): %s' % (q.why, case(eng, u)))
                    return


SIDES = {'Equal': (0, 1, 2), 'Ancestor': (0,), 'AncestorOurs': (0, 1), 'AncestorTheirs': (0, 2), 'Ours': (1,), 'Theirs': (2,)}


def regions_of(eng, st, els):
    """states in which the list is what a walk over two edit scripts gives: no region is empty, its parts are of one length,
    and each part starts where the last one of its text ended"""
    def walk(s, i, at):
        if not feasible(s):
            return
        if i == len(els):
            yield s
            return
        for t, name, rs in decode(eng, s, els[i]):
            now, fs = list(at), []
            for side, r in zip(SIDES[name], rs):
                fs += [ge(sub(r[1], at[side])), ge(sub(at[side], r[1])), ge(sub(r[2], ONE)), ge(sub(sub(num(MAXLEN), r[1]), r[2])),
                       ge(sub(r[2], rs[0][2])), ge(sub(rs[0][2], r[2]))]
                now[side] = add(at[side], r[2])
            for u in assume_all(t, fs):
                yield from walk(u, i + 1, now)
    yield from walk(st, 0, [ZERO, ZERO, ZERO])


# ---------------------------------------------------------------- resolving conflicts
def part_of(eng, st, r):
    s = dref(r[0])
    return subseq(s, r[1], add(r[1], r[2]), st)


def cleaning(o, key):
    r = o.run(key, 'any list of regions')
    if r is None:
        return
    note = Notes(o, key)
    ok = False
    try:
        ok = clean_induct(o, key, r, note)
    except Unsupported as e:
        note('every region', '?', str(e))
    if not ok:
        exactly(o, key, note, clean_bounded, 2)
        if note.worst() == 'eq':
            note('every input', '?', 'short lists agree, the general step is not established')
    note.report()


def equal_content(eng, st, a, b):
    """True, False or None: do two ranges hold equal lines, by the facts of the path"""
    x, y = part_of(eng, st, a), part_of(eng, st, b)
    if x is y:
        return True
    for g, v in st.lits.items():
        if g.op == 'seqeq' and ((same_seq(st, g.a[0], x) and same_seq(st, g.a[1], y)) or (same_seq(st, g.a[0], y) and same_seq(st, g.a[1], x))):
            return v
    d = st.decide(eq0(sub(a[2], b[2])))
    if d is False:
        return False
    if st.decide(eq0(a[2])) is True and st.decide(eq0(b[2])) is True:
        return True
    return None


def same_seq(st, a, b):
    return a is b or same(st, a, b) == 'eq'


def clean_one(eng, st, el, got):
    """verdict for one region before and after"""
    for s, name, rs in decode(eng, st, el):
        for t, gname, gs in decode(eng, s, got):
            if name != 'Conflict':
                r = one_region(eng, t, (gname, gs), (name, rs))
                yield t, 'a region of kind ' + name, r
                continue
            a, u, th = rs
            for t, eqs in compared(eng, t, {'ot': (u, th), 'ao': (a, u), 'at': (a, th)}):
                yield resolved(eng, t, rs, gname, gs, eqs)


def compared(eng, st, pairs):
    """[(state, {pair: equal})]: every comparison decided, also those the code did not make"""
    out = []

    def rec(s, todo, eqs):
        if not feasible(s):
            return
        # equality is transitive
        for p, q, w in (('ot', 'ao', 'at'), ('ot', 'at', 'ao'), ('ao', 'at', 'ot')):
            if eqs.get(p) is True and eqs.get(q) is not None:
                if eqs.get(w) is None:
                    eqs = {**eqs, w: eqs[q]}
                elif eqs[w] is not eqs[q]:
                    return
        todo = [p for p in todo if p not in eqs]
        if not todo:
            out.append((s, eqs))
            return
        p = todo[0]
        a, b = pairs[p]
        d = equal_content(eng, s, a, b)
        if d is not None:
            rec(s, todo[1:], {**eqs, p: d})
            return
        if s.decide(eq0(a[2])) is True or s.decide(eq0(b[2])) is True:
            y, n = s.split(eq0(sub(a[2], b[2])))
        else:
            y, n = s.split(mk('seqeq', part_of(eng, s, a), part_of(eng, s, b)))
            y = [t for x in y for t in x.assume(eq0(sub(a[2], b[2])))]
        for t in y:
            rec(t, todo[1:], {**eqs, p: True})
        for t in n:
            rec(t, todo[1:], {**eqs, p: False})
    rec(st, list(pairs), {})
    return out


def resolved(eng, t, rs, gname, gs, eqs):
    a, u, th = rs
    keep = one_region(eng, t, (gname, gs), ('Conflict', rs))[0]
    takes = {'Ours': [u], 'Theirs': [th], 'Both': [u, th], 'Equal': [a, u, th]}.get(gname)
    right = takes is not None and all(same_range(t, x, y) == 'eq' for x, y in zip(gs, takes))
    if eqs['ot']:
        what = 'a conflict with the same lines on both sides'
        good = right and gname in ('Both', 'Ours', 'Theirs')
    elif eqs['ao']:
        what = 'a conflict that only their side changed'
        good = right and gname == 'Theirs'
    elif eqs['at']:
        what = 'a conflict that only our side changed'
        good = right and gname == 'Ours'
    else:
        what = 'a conflict both sides changed differently'
        good = keep == 'eq'
    if good:
        return t, what, ('eq', '')
    if gname == 'Conflict' and keep != 'eq':
        return t, what, (keep, 'the conflict becomes another one')
    wrong = takes is None or right or any(same_range(t, x, y) == 'ne' for x, y in zip(gs, takes))
    return t, what, ('ne' if wrong else '?', 'it becomes %s (%s)' % (gname, case(eng, t)))


def clean_induct(o, key, r, note):
    eng = r.eng
    rds = rounds(eng)
    if len({rd.rec.site for rd in rds}) != 1:
        raise Unsupported('loops')
    rec = rds[0].rec
    n = Notes(o, key)
    for rd in rds:
        lst = [(c, v) for c, v in rd.part.cells.items() if v.op == 'seq' and c[0] == 'in']
        pos = [x for x, it in rd.nums()]
        if len(lst) != 1 or len(pos) != 1 or len(rd.seqs()) != 1:
            raise Unsupported('the loop over the regions is not recognised')
        cell, head = lst[0]
        b = rd.seqs()[0]
        i = atom(pos[0], 0, MAXLEN)
        m0 = rd.L.match(rd.part, {c: rec.st0.cells[c] for c in rd.part.cells})
        n('every region once, in order', 'eq' if subst(i, m0) is ZERO else '?', 'the first region is another one')
        ety = eng.elem_ty(eng.tyof(base_of(dref(eng.args[0]) if False else r.eng.mat(mk('in', 'a0', eng.types[o.p.insts[key]['body']['locals'][1]]['to']), eng.types[o.p.insts[key]['body']['locals'][1]]['to']))[0]))
        el = eng.seqget(rec.st0, head, i, ety)
        for _, kind, s2, g in rd.rows:
            if kind != 'back':
                n('every region once, in order', 'eq' if s2.decide(ge(sub(i, seqlen(head)))) is True else '?', 'not every region is looked at')
                continue
            m = rd.after(s2)
            n('every region once, in order', 'eq' if subst(i, m) is add(i, ONE) else '?', 'the next region is another one')
            after = s2.cells[cell]
            if after is head:
                got = el
            else:
                q = after.a[0] if after.op == 'seq' and len(after.a) == 1 else None
                u = q.a[0] if q is not None and q.op == 'sub' else None
                if u is None or u.op != 'upd' or u.a[0] is not head or u.a[1] is not i:
                    raise Unsupported('the change of the list')
                got = u.a[2]
            for t, what, (v, text) in clean_one(eng, s2, el, got):
                if feasible(t):
                    n(what, v, text)
    for p in r.paths:
        rd = rds[0]
        whole_ = seq(mk('sub', rd.seqs()[0], ZERO, atom(mk('len', rd.seqs()[0]), 0, MAXLEN)))
        n('nothing else changes', 'eq' if p.out is whole_ else '?', 'the list is changed after the loop')
    for what, vs in n.m.items():
        note.m.setdefault(what, []).extend(vs)
    return n.worst() == 'eq'


def clean_bounded(o, key, r, note, k):
    eng = r.eng
    ity = eng.types[o.p.insts[key]['body']['locals'][1]]['to']
    lst = eng.mat(mk('in', 'a0', ity), ity)
    ety = eng.elem_ty(eng.tyof(base_of(lst)[0]))
    for p in r.paths:
        if not exact(p.st):
            continue
        for s, els in lists(eng, p.st, lst, k):
            for i, el in enumerate(els):
                got = eng.seqget(s, p.out, num(i), ety)
                for t, what, (v, text) in clean_one(eng, s, el, got):
                    if v == 'ne' and feasible(t) and exact(t):
                        note(what, v, 'region %d of %d: %s' % (i, len(els), text))


# ---------------------------------------------------------------- walking both solutions
def zipped(o, key):
    r = o.run(key, 'any two solutions')
    if r is None:
        return
    note = Notes(o, key)
    ok = False
    try:
        ok = zip_induct(o, key, r, note)
    except Unsupported as e:
        note('every step', '?', str(e))
    if not ok:
        exactly(o, key, note, zip_bounded, 2)
        if note.worst() == 'eq':
            note('every input', '?', 'short lists agree, the general step is not established')
    note.report()


def diff_accumulators(rd, eng):
    out = []
    for c, v in rd.part.cells.items():
        try:
            t = eng.types[eng.tyof(v)]
        except Exception:
            continue
        if t.get('name') == 'std::option::Option' and 'DiffRange<' in t['s']:
            out.append(c)
    return out


def zip_induct(o, key, r, note):
    eng = r.eng
    ls = [dref(eng.args[0]), dref(eng.args[1])]
    bs = [base_of(x)[0] for x in ls]
    rds = rounds(eng)
    if not rds or len({rd.rec.site for rd in rds}) != 1:
        raise Unsupported('the loop over both solutions is not recognised')
    cells = diff_accumulators(rds[0], eng)
    if len(cells) != 2:
        raise Unsupported('%d current ranges' % len(cells))
    # one loop, entered with several shapes of first ranges
    recs = []
    for p in r.paths:
        for rc, pi, i in p.st.trail:
            if rc.site == rds[0].rec.site and rc not in recs:
                recs.append(rc)
    rds = [Round(rc, pt) for rc in recs for pt in rc.parts]
    for perm in permutations(cells):
        n = Notes(o, key)
        zip_try(eng, r, ls, bs, rds, perm, n)
        if n.worst() == 'eq':
            for what, vs in n.m.items():
                note.m.setdefault(what, []).extend(vs)
            return True
    return False


def position(rd, b):
    its = [it for it, _ in rd.slices() if sub_base(it) is b]
    if not its:
        its = list({x for v in rd.part.cells.values() for x in mentions(v) if x.op == 'it' and x.a[0] == 'slice' and sub_base(x) is b})
    if len(its) != 1:
        raise Unsupported('position in a solution')
    return its[0]


def next_pos(rd, st, it, b):
    for c, v in rd.part.cells.items():
        if it in mentions(v):
            xs = [x for x in mentions(st.cells[c]) if x.op == 'it' and x.a[0] == 'slice' and sub_base(x) is b]
            if len(xs) == 1:
                return xs[0].a[3]
    return None


def elem_or_none(eng, st, lst, i, ety):
    """[(state, element or None)] of a list at a position"""
    out = []
    f = ge(sub(sub(seqlen(lst), i), ONE))
    y, n = st.split(f)
    return [(s, eng.seqget(s, lst, i, ety)) for s in y] + [(s, None) for s in n]


def zip_try(eng, r, ls, bs, rds, perm, note):
    seen = set()
    zip_rounds(eng, r, ls, bs, rds, perm, note, seen)
    # every pair of ranges must have a step (the alternative is a panic)
    for on in ('Equal', 'Delete', 'Insert', None):
        for tn in ('Equal', 'Delete', 'Insert', None):
            for longer in ((True, False) if on in ('Equal', 'Delete') and tn in ('Equal', 'Delete') else (None,)):
                if (on is None and tn is None) or (None in (on, tn) and 'Insert' not in (on, tn)):
                    continue
                note('every pair of ranges', 'eq' if (on, tn, longer) in seen else '?', 'no step for ours at %s, theirs at %s' % (on or 'its end', tn or 'its end'))


def zip_rounds(eng, r, ls, bs, rds, perm, note, seen):
    etys = [eng.elem_ty(eng.tyof(b)) for b in bs]
    # every entry state is a path: the current ranges are the first elements
    for rec in {id(rd.rec): rd.rec for rd in rds}.values():
        first = next(rd for rd in rds if rd.part is rec.parts[0])
        entry(eng, rec.st0, first, ls, bs, etys, perm, note)
    for rd in rds:
        its = [position(rd, b) for b in bs]
        if not any(kind == 'back' for _, kind, s2, g in rd.rows):
            continue
        if len(outs(rd)) != 1:
            raise Unsupported('the list of results')
        oc, out = outs(rd)[0]
        for i, kind, s2, g in rd.rows:
            pre = [(s2, ())]
            for c in perm:
                pre = [(t, acc + (x,)) for s, acc in pre for t, x in option(eng, s, rd.part.cells[c])]
            for s, (O, T) in pre:
                if not feasible(s):
                    continue
                if kind != 'back':
                    continue
                suf = rd.suffix(out, s2.cells[oc])
                gs = None if suf is None else parts(suf.a)
                if gs is None:
                    raise Unsupported('the list of results')
                for t, on, tn, steps in zip_steps(eng, s, O, T):
                    if not feasible(t):
                        continue
                    what = 'ours at %s, theirs at %s' % (on or 'its end', tn or 'its end')
                    if not steps:
                        note(what, '?', 'no step is possible')
                        continue
                    if len(steps) == 1 or on == 'Insert' or tn == 'Insert':
                        seen.add((on, tn, None))
                    for n_, (st_, *_r) in enumerate(steps):
                        if on != 'Insert' and tn != 'Insert' and feasible(st_):
                            seen.add((on, tn, st_.decide(ge(sub(steps_len(eng, T, tn, st_), steps_len(eng, O, on, st_))))))
                    res = [zip_step_ok(eng, rd, st_, s2, gs, reg, (ro, rt), (O, T), its, ls, bs, etys, perm) for st_, reg, ro, rt in steps if feasible(st_)]
                    # the alternatives of one case split must all hold; two insertions may go in either order
                    if on == 'Insert' and tn == 'Insert':
                        good = any(v == 'eq' for v, _ in res)
                    else:
                        good = all(v == 'eq' for v, _ in res)
                    note(what, 'eq' if good else '?', '' if good else next(x for v, x in res if v != 'eq'))
    for p in r.paths:
        tr = [(rc, pi) for rc, pi, i in p.st.trail if rc.site == rds[0].rec.site]
        if not tr:
            ok = all(p.st.decide(ge(sub(ZERO, seqlen(x)))) is True for x in ls)
            note('nothing is left over', 'eq' if ok and p.val is seq() else '?', 'a result without a walk')
            continue
        rd = next(x for x in rds if x.rec is tr[-1][0] and x.part.idx == tr[-1][1])
        for k, n in ((0, 'our'), (1, 'their')):
            for s, x in option(eng, p.st, rd.part.cells[perm[k]]):
                # every step leaves nothing only at the end of a solution (checked above), so that is where it is
                note('nothing is left over', 'eq' if x is None else '?', 'the walk ends before %s solution does' % n)
        if not outs(rd):
            note('nothing is left over', 'eq' if p.val is seq() else '?', 'something for two empty solutions')
            continue
        x = outs(rd)[0][1]
        note('nothing is left over', 'eq' if p.val is seq(mk('sub', x, ZERO, atom(mk('len', x), 0, MAXLEN))) else '?', 'the result is not the list')


def entry(eng, st0, first, ls, bs, etys, perm, note):
    m0 = first.L.match(first.part, {c: st0.cells[c] for c in first.part.cells})
    if m0 is None:
        raise Unsupported('the first round')
    for k in (0, 1):
        it = position(first, bs[k])
        i0 = subst(it.a[3], m0)
        for s, x in option(eng, st0, st0.cells[perm[k]]):
            if x is None:
                ok = s.decide(eq0(seqlen(ls[k]))) is True
            else:
                ok = i0 is ONE and x is eng.seqget(s, ls[k], ZERO, etys[k])
            note('the walk starts with the first ranges', 'eq' if ok else '?', 'it starts elsewhere')


def steps_len(eng, x, name, st):
    for s, n, rs in decode(eng, st, x):
        return rs[0][2]


def zip_step_ok(eng, rd, st, s2, gs, reg, rests, olds, its, ls, bs, etys, perm):
    for u, v, text in compare_lists(eng, st, gs, [reg], lambda s, x: x):
        if v != 'eq':
            return v, text
        for k in (0, 1):
            rest, old, it = rests[k], olds[k], its[k]
            new = s2.cells[perm[k]]
            npos = next_pos(rd, s2, it, bs[k])
            if npos is None:
                return '?', 'position'
            if rest == 'same':
                cases_ = [(u, old, 0)] if old is not None else [(w, e, 1 if e is not None else 0) for w, e in elem_or_none(eng, u, ls[k], it.a[3], etys[k])]
            elif rest == 'gone':
                cases_ = [(w, e, 1 if e is not None else 0) for w, e in elem_or_none(eng, u, ls[k], it.a[3], etys[k])]
            else:
                cases_ = []
                for w, e in empties(u, rest[1][0]):
                    if not e:
                        cases_.append((w, rest, 0))
                    else:
                        cases_ += [(z, x, 1 if x is not None else 0) for z, x in elem_or_none(eng, w, ls[k], it.a[3], etys[k])]
            for w, want, moved in cases_:
                if not feasible(w):
                    continue
                if same(w, npos, add(it.a[3], num(moved))) != 'eq' and not (want is None and w.decide(ge(sub(npos, seqlen(ls[k])))) is True):
                    return '?', 'the position in the solution'
                for z, x in option(eng, w, new):
                    if not feasible(z):
                        continue
                    if (x is None) != (want is None):
                        return '?', 'what comes next'
                    if x is None or x is want:
                        continue
                    wants = [(z, want[0], want[1])] if isinstance(want, tuple) else list(decode(eng, z, want))
                    for y, wn, wr in wants:
                        for q, gn, gr in decode(eng, y, x):
                            if feasible(q) and one_region(eng, q, (gn, gr), (wn, wr))[0] != 'eq':
                                return '?', 'what comes next: %s' % one_region(eng, q, (gn, gr), (wn, wr))[1]
    return 'eq', ''


def zip_bounded(o, key, r, note, k):
    eng = r.eng
    ls = [dref(eng.args[0]), dref(eng.args[1])]
    for p in r.paths:
        if not exact(p.st) or p.val.op != 'seq':
            continue
        gs = parts(p.val.a)
        if gs is None:
            continue
        for s, os_ in lists(eng, p.st, ls[0], k + 1):
            for t, ts in lists(eng, s, ls[1], k + 1):
                for u in tiling(eng, t, os_, ts):
                    zip_sim(eng, u, p, gs, os_, ts, note)


    if k < 2:
        return
    for q in r.panics:
        if not exact(q.st):
            continue
        for s, os_ in lists(eng, q.st, ls[0], k):
            for t, ts in lists(eng, s, ls[1], k):
                for u in tiling(eng, t, os_, ts):
                    note('no panic', 'ne', 'panics (%s): %s' % (q.why, case(eng, u)))
                    return


def tiling(eng, st, os_, ts):
    """states in which the lists are solutions: consecutive non-empty ranges, over one and the same ancestor"""
    def walk(s, els, i, anc, side):
        if not feasible(s):
            return
        if i == len(els):
            yield s, anc
            return
        for t, name, rs in decode(eng, s, els[i]):
            for u in solution_range(t, name, rs):
                a = rs[0] if name != 'Insert' else None
                b = rs[-1] if name != 'Delete' else None
                fs = []
                for r, at in ((a, anc), (b, side)):
                    if r is not None:
                        # a range lies within a slice, which has at most isize::MAX elements
                        fs += [ge(sub(r[1], at)), ge(sub(at, r[1])), ge(sub(sub(num(MAXLEN), r[1]), r[2]))]
                for w in assume_all(u, fs):
                    yield from walk(w, els, i + 1, add(anc, a[2]) if a else anc, add(side, b[2]) if b else side)
    for s, n1 in walk(st, os_, 0, ZERO, ZERO):
        for t, n2 in walk(s, ts, 0, ZERO, ZERO):
            for u in assume_all(t, [ge(sub(n1, n2)), ge(sub(n2, n1))]):
                if feasible(u):
                    yield u


def zip_sim(eng, st, p, gs, os_, ts, note):
    """follow the specification along the results"""
    def rec(s, O, T, oi, ti, i, trace):
        while O is None and oi < len(os_):
            O, oi = os_[oi], oi + 1
        while T is None and ti < len(ts):
            T, ti = ts[ti], ti + 1
        if O is None and T is None:
            if i != len(gs):
                note('the regions', 'ne', 'there are %d regions after %s (%s)' % (len(gs) - i, trace, case(eng, s)))
            return
        for t, on, tn, steps in zip_steps(eng, s, O, T):
            if not feasible(t) or not exact(t):
                continue
            if not steps:
                continue
            if i >= len(gs):
                note('the regions', 'ne', 'the result ends after %s although more follows (%s)' % (trace, case(eng, t)))
                continue
            fits = []
            for st_, reg, ro, rt in steps:
                if not feasible(st_):
                    continue
                for u, v, text in compare_lists(eng, st_, gs[i:i + 1], [reg], lambda a, b: b):
                    fits.append((u, v, text, reg, ro, rt))
            alt = on == 'Insert' and tn == 'Insert'
            if alt and any(v != 'ne' for _, v, *_r in fits):
                fits = [f for f in fits if f[1] != 'ne']
            for u, v, text, reg, ro, rt in fits:
                if not feasible(u):
                    continue
                if v == 'ne':
                    note('ours at %s, theirs at %s' % (on or 'its end', tn or 'its end'), 'ne', 'after %s: %s (%s)' % (trace or 'the start', text, case(eng, u)))
                elif v == 'eq':
                    for w, o2 in left(u, O, ro):
                        for x, t2 in left(w, T, rt):
                            rec(x, o2, t2, oi, ti, i + 1, trace + [reg[0]])
    rec(st, None, None, 0, 0, 0, [])


def left(st, old, rest):
    if rest == 'same':
        return [(st, old)]
    if rest == 'gone':
        return [(st, None)]
    return [(s, None if e else rest) for s, e in empties(st, rest[1][0])]


def zip_steps(eng, st, O, T):
    """as zip_steps; a current range may be a value or a rest"""
    def dec(s, x):
        return [(s, x[0], x[1])] if isinstance(x, tuple) else list(decode(eng, s, x))
    out = []
    for s, on, orr in ([(st, None, None)] if O is None else dec(st, O)):
        for t, tn, trr in ([(s, None, None)] if T is None else dec(s, T)):
            for u in solution_range(t, on, orr):
                for w in solution_range(u, tn, trr):
                    out += steps_of(w, on, orr, tn, trr)
    return out


def solution_range(st, name, rs):
    """what holds for every range of a solution: it is not empty, and equal parts have one length"""
    if name is None:
        return [st]
    fs = [ge(sub(rs[0][2], ONE))]
    if len(rs) == 2:
        fs += [ge(sub(rs[0][2], rs[1][2])), ge(sub(rs[1][2], rs[0][2]))]
    return [s for s in assume_all(st, fs) if feasible(s)]


def steps_of(t, on, orr, tn, trr):
    steps = []
    if on == 'Insert':
        steps.append((t, ('Ours', [orr[0]]), 'gone', 'same'))
    if tn == 'Insert':
        steps.append((t, ('Theirs', [trr[0]]), 'same', 'gone'))
    if not steps and on and tn:
        oa, ta = orr[0], trr[0]
        name = {('Equal', 'Equal'): 'Equal', ('Equal', 'Delete'): 'AncestorOurs', ('Delete', 'Equal'): 'AncestorTheirs',
                ('Delete', 'Delete'): 'Ancestor'}[(on, tn)]
        y, n = t.split(ge(sub(ta[2], oa[2])))
        for sts, ln in ((y, oa[2]), (n, ta[2])):
            for u in sts:
                def cut_(q, ln=ln):
                    return (q[0], q[1], ln)

                def rest(nm, rs, ln=ln):
                    return (nm, [(q[0], add(q[1], ln), sub(q[2], ln)) for q in rs])
                reg = {'Equal': [oa] + orr[1:] + trr[1:], 'AncestorOurs': [oa, orr[-1]],
                       'AncestorTheirs': [ta, trr[-1]], 'Ancestor': [oa]}[name]
                steps.append((u, (name, [cut_(q) for q in reg]), rest(on, orr), rest(tn, trr)))
    return [(t, on, tn, steps)]
