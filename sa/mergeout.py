"""C16: how a merge result is put together, and when it is an error."""
from sa.obl import *
from sa.models import target as place, unitv, seqlen
from sa.rows import rounds, target
from sa.apply import feasible, guarded, base_of
from sa.drive import get

LABEL = {'<': b'ours', '|': b'original', '>': b'theirs', '=': None}


def run_c16(p, rep):
    o = Obl(p, rep)
    for k in o.find('conflict marker', 'diffy::merge::add_conflict_marker') + \
            o.find('conflict marker for bytes', 'diffy::merge::add_conflict_marker_bytes'):
        guarded(o, k, marker)
    outs = [k for k, i in sorted(p.insts.items(), key=lambda x: x[1]['inst'])
            if i.get('body') and i['name'].startswith('diffy::merge::output_result') and '{closure' not in i['name']]
    if len(outs) < 2:
        rep.unk('putting the result together: %d functions recognised, 2 expected' % len(outs))
    for k in outs:
        guarded(o, k, result)
    o.done()


# ---------------------------------------------------------------- one marker line
def marker(o, key):
    """the line break if the last line is open, the marker characters, the label, a newline"""
    def spec(ch):
        def f(eng, p):
            st = p.st
            ity = eng.types[o.p.insts[key]['body']['locals'][1]]['to']
            old = eng.mat(mk('in', 'a0', ity), ity)
            n, name = eng.args[2], eng.args[3]
            res = []
            open_ = conj(neg(eq0(seqlen(old))), neg(mk('ew', old, b'\n')))
            for f_, br in ((open_, lit(b'\n')), (neg(open_), seq())):
                for s in st.assume(f_):
                    for t, var, x in eng.cases(s, name):
                        if eng.types[eng.tyof(x)]['variants'][var]['name'] == 'Some':
                            lab = seq(*lit(b' ').a, *dref(x.a[2]).a)
                        else:
                            lab = seq()
                        want = seq(*old.a, *br.a, mk('fill', num(ord(ch)), n), *lab.a, *lit(b'\n').a)
                        res.append(('the marker line', WithState(t, p.out), want))
            return res
        return f
    for ch in '<|=>':
        def pre(eng, st, av, ch=ch):
            av = list(av)
            av[1] = num(ord(ch))
            return [st], av
        o.expect(key, 'any text and the marker ' + ch, spec(ch), setup=pre, empty=False)


# ---------------------------------------------------------------- the whole result
def cut_marker(eng, st, c):
    cell, path = place(st, eng, c.args[0])
    v = eng.load(st, cell, path)
    st = st.copy()
    ch, n, name = [strip_refs(deep1(eng, st, x)) for x in c.args[1:4]]
    eng.store(st, cell, path, seq(*(v.a + (mk('opq', 'marker', ch, n, name),))))
    return [(st, unitv(eng, c.dty))]


def deep1(eng, st, v):
    while v.op == 'mref':
        v = eng.load(st, v.a[0], v.a[1])
    return v


def fields(eng, st, el, variant):
    t = eng.types[eng.tyof(el)]
    var = next(i for i, x in enumerate(t['variants']) if x['name'] == variant)
    v = el if el.op == 'adt' else eng.expand(st, el, var)
    return v.a[2:]


def lines_of(eng, st, lines, rng):
    """the lines of one text a range names, one after the other"""
    lo, n = get(eng, st, rng, 'offset'), get(eng, st, rng, 'len')
    return seq(mk('lines of', lines, lo, n))


def pieces(eng, st, s, texts):
    """the appended text as [marker | (text, offset, len)]"""
    out = []
    for q in s.a:
        if q.op == 'opq' and q.a[0] == 'marker':
            out.append(q)
            continue
        if q.op == 'lit':
            out.append(q.a[0])
            continue
        if q.op == 'comp':
            lo, hi, rows = q.a
            if len(rows) == 1 and not rows[0][0]:
                e = rows[0][1]
                x = e.a[0] if len(e.a) == 1 else None
                if x is not None and x.op == 'sub' and x.a[0].op == 'deref':
                    # a whole line
                    el = x.a[0].a[0]
                    if x.a[1] is ZERO and x.a[2] is atom(mk('len', x.a[0]), 0, MAXLEN) and el.op == 'el':
                        b = el.a[0]
                        for name, t in texts.items():
                            if t is b:
                                bv = [y for y in mentions(el.a[1]) if y.op == 'bv']
                                if len(bv) == 1:
                                    off = sub(el.a[1], atom(bv[0], 0, MAXLEN))
                                    if not any(y.op == 'bv' for y in mentions(off)):
                                        out.append((name, add(off, lo), sub(hi, lo)))
                                        break
                        else:
                            return None
                        if isinstance(out[-1], tuple):
                            continue
        return None
    return out


def option_name(eng, st, v):
    if v.op == 'adt':
        if eng.types[v.a[0]]['variants'][v.a[1]]['name'] == 'None':
            return None
        x = strip_refs(v.a[2])
        return x.a[0].a[0] if x.op == 'seq' and len(x.a) == 1 and x.a[0].op == 'lit' else '?'
    return '?'


def expected(eng, st, el, variant, style, mlen):
    """alternatives: lists of (text, range) and (marker char)"""
    f = fields(eng, st, el, variant)
    if variant == 'Equal':
        return [[('ancestor', f[0])], [('ours', f[1])], [('theirs', f[2])]]
    if variant == 'Both':
        return [[('ours', f[0])], [('theirs', f[1])]]
    if variant == 'Ours':
        return [[('ours', f[0])]]
    if variant == 'Theirs':
        return [[('theirs', f[0])]]
    mid = ['|', ('ancestor', f[0])] if style == 'Diff3' else []
    return [['<', ('ours', f[1])] + mid + ['=', ('theirs', f[2]), '>']]


def compare(eng, st, got, want, mlen):
    """'eq', 'ne' or '?' and a text"""
    if got is None:
        return '?', 'text not recognised'
    # no lines at all leave no trace
    stray = [g for g in got if isinstance(g, bytes) and g]
    if stray:
        if [eng.cv(st, g.a[1]) for g in got if isinstance(g, T)] == [ord(w) for w in want if isinstance(w, str)]:
            return 'ne', '%r between the lines' % stray[0]
        return '?', 'text not recognised'
    got = [g for g in got if isinstance(g, T) or st.decide(eq0(g[2])) is not True]
    want = [w for w in want if isinstance(w, str) or st.decide(eq0(get(eng, st, w[1], 'len'))) is not True]
    if len(got) != len(want):
        return 'ne', '%d pieces instead of %d' % (len(got), len(want))
    res = 'eq', ''
    for g, w in zip(got, want):
        if isinstance(w, str):
            if not isinstance(g, T):
                return 'ne', 'text instead of the marker %s' % w
            ch, n, name = g.a[1:4]
            c = eng.cv(st, ch)
            nm = option_name(eng, st, name)
            if c is None or nm == '?':
                res = '?', 'marker not recognised'
            elif c != ord(w):
                return 'ne', 'the marker %s instead of %s' % (chr(c), w)
            elif nm != LABEL[w]:
                return 'ne', 'the marker %s is labelled %s' % (w, nm)
            v = same(st, n, mlen)
            if v != 'eq':
                return v, 'the marker %s has length %s' % (w, short(eng, n))
        else:
            if isinstance(g, T):
                return 'ne', 'a marker instead of the lines of %s' % w[0]
            if g[0] != w[0]:
                return 'ne', 'the lines come from %s instead of %s' % (g[0], w[0])
            lo, n = get(eng, st, w[1], 'offset'), get(eng, st, w[1], 'len')
            for a, b, what in ((g[1], lo, 'first line'), (g[2], n, 'number of lines')):
                v = same(st, a, b)
                if v != 'eq':
                    return v, 'the %s of %s is %s instead of %s' % (what, w[0], short(eng, a), short(eng, b))
    return res


def result(o, key):
    rep, nm = o.rep, o.d.name(key)
    cuts = cuts_for(o.p, {('diffy::merge::add_conflict_marker',): cut_marker})
    r = o.run(key, 'any list of merge ranges', cuts=cuts)
    if r is None:
        return
    eng = r.eng
    loc = o.p.insts[key]['body']['locals']
    texts = {}
    for i, n in enumerate(('ancestor', 'ours', 'theirs')):
        texts[n] = base_of(dref(eng.args[i]))[0]
    merge = dref(eng.args[3])
    mb = base_of(merge)[0]
    mlen, style = eng.args[4], eng.args[5]
    probs = {}

    def note(k2, v, text):
        probs.setdefault(k2, []).append((v, text))

    def one(st, el, variant, add_):
        """judge the text added for one range"""
        for s, var, x in eng.cases(st, style):
            sn = eng.types[eng.tyof(x)]['variants'][var]['name']
            best = None
            got = pieces(eng, s, add_, texts) if add_ is not None else None
            for w in expected(eng, s, el, variant, sn, mlen):
                v = compare(eng, s, got, w, mlen)
                if best is None or v[0] == 'eq' or (v[0] == '?' and best[0] == 'ne'):
                    best = v
            what = 'a range of kind %s in style %s' % (variant, sn)
            note(what, best[0] if best[0] != 'ne' or exact_but_h(s) else '?', '%s: %s (case: %s)' % (what, best[1], ' & '.join(facts(eng, s))[:300]))
    over = [rd for rd in rounds(eng) if any(it.a[1] is merge or base_of_it(it) is mb for it, _ in rd.slices())]
    over = [rd for rd in over if rd.seqs()]
    if not over:
        closed(o, key, r, eng, mb, merge, one, note)
    else:
        if len({rd.rec.site for rd in over}) != 1:
            raise Unsupported('%d loops put text together' % len({rd.rec.site for rd in over}))
        product(o, key, r, eng, mb, merge, over, one, note)
    if any(v == '?' for vs in probs.values() for v, _ in vs) and not any(v == 'ne' for vs in probs.values() for v, _ in vs):
        short_lists(o, key, cuts, note)
    for what, vs in sorted(probs.items()):
        bad = [t for v, t in vs if v == 'ne']
        unk = [t for v, t in vs if v == '?']
        if bad:
            rep.bad('%s|%s' % (nm, what), '%s: %s' % (o.where(key), bad[0]))
        elif unk:
            rep.unk('%s: %s' % (nm, unk[0]))
        else:
            rep.good('%s: %s' % (nm, what))


def base_of_it(it):
    s = it.a[1]
    return s.a[0].a[0] if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub' else None


def exact_but_h(st):
    return not any(x.op in ('unk', 'unkn', 'unkb', 'unks') for f in (*st.lits, *st.lin) for x in mentions(f))


def conflict_guard(eng, gs, mb):
    """do the guards of a closed form say `the element at the bound index is a conflict`?"""
    if len(gs) != 1 or len(gs[0]) != 1:
        return None
    f = gs[0][0]
    yes = True
    if f.op == 'not':
        f, yes = f.a[0], False
    if f.op != 'isv' or f.a[0].op != 'el' or f.a[0].a[0] is not mb:
        return None
    t = eng.types[eng.tyof(f.a[0])]
    return t['variants'][f.a[1]]['name'] == 'Conflict' if yes else None


def conflicts_known(eng, st, mb, n):
    """does the state say whether the list has a conflict? True, False or None"""
    for f, v in st.lits.items():
        if f.op == 'any' and len(f.a) == 3 and f.a[0] is ZERO and f.a[1] is n and conflict_guard(eng, f.a[2], mb):
            return v
    for L in [*st.lin] + [f.a[0] for f, v in st.lits.items() if f.op == 'eq0']:
        for x, _ in L.a[1]:
            if x.op == 'sum' and x.a[0] is ZERO and x.a[1] is n and len(x.a[2]) == 1:
                g, e = x.a[2][0]
                if e is ONE and conflict_guard(eng, (g,), mb):
                    z = st.decide(eq0(lin(0, ((x, 1),))))
                    if z is not None:
                        return not z
    return None


def closed(o, key, r, eng, mb, merge, one, note):
    """the text is a closed form over the list"""
    n = seqlen(merge)
    for p in r.paths:
        kind = vname(eng, p.val)
        c = conflicts_known(eng, p.st, mb, n)
        what = 'an error exactly when there is a conflict'
        if c is None:
            note(what, '?', 'the result is %s, conflicts unknown' % kind)
        else:
            note(what, 'eq' if (kind == 'Err') == c else 'ne', 'the result is %s for a merge %s conflicts' % (kind, 'with' if c else 'without'))
        s = p.val.a[2]
        if len(s.a) != 1 or s.a[0].op != 'comp' or s.a[0].a[0] is not ZERO or s.a[0].a[1] is not n:
            note('every range once, in order', '?', 'the result is %s' % short(eng, s))
            continue
        note('every range once, in order', 'eq', '')
        for name, el, w, e in cases_of(eng, p.st, s.a[0].a[2], mb):
            one(w, el, name, e)


def cases_of(eng, st, rows, mb):
    els = {x for g, e in rows for t in (*g, e) for x in mentions(t) if x.op == 'el' and x.a[0] is mb}
    if len(els) != 1:
        raise Unsupported('elements of the list')
    el = els.pop()
    t = eng.types[eng.tyof(el)]
    for var, v in enumerate(t['variants']):
        for s in st.assume(mk('isv', el, var)):
            for g, e in row_at(s, rows):
                for w in assume_all(s, g):
                    yield v['name'], el, w, e


def product(o, key, r, eng, mb, merge, over, one, note):
    """code loop x {no conflict yet, conflict seen}; facts about the loop's numbers by fixpoint"""
    n = seqlen(merge)
    by = {rd.part.idx: rd for rd in over}
    rec = over[0].rec

    def cand(rd):
        own = [x for x, it in rd.nums() if not it]
        return {f for x in own for f in (eq0(lin(0, ((x, 1),))), ge(sub(lin(0, ((x, 1),)), ONE)))}

    def holds(rd, st, m, f):
        return st.decide(subst(f, m)) is True
    # entry
    first = by.get(rec.parts[0].idx)
    facts_ = {}
    if first is None:
        raise Unsupported('entry of the loop')
    m0 = first.L.match(first.part, {c: rec.st0.cells[c] for c in first.part.cells})
    start = (first.part.idx, False)
    facts_[start] = {f for f in cand(first) if holds(first, rec.st0, m0, f)}
    for it, x in first.slices():
        if base_of_it(it) is mb:
            v = subst(it.a[3], m0)
            note('every range once, in order', 'eq' if v is ZERO else ('ne' if isnum(v) else '?'), 'the first range looked at is number %s' % short(eng, v))
    for s in first.seqs():
        v = m0.get(s)
        note('nothing before the first range', same(rec.st0, v, seq()) if v is not None else '?', 'the text starts with %s' % (short(eng, v) if v is not None else '?'))
    todo = [start]
    seen_rows = {}
    while todo:
        cur = todo.pop()
        rd, q = by[cur[0]], cur[1]
        its = [(it, x) for it, x in rd.slices() if base_of_it(it) is mb]
        if len(its) != 1 or len(rd.seqs()) != 1:
            raise Unsupported('loop over the ranges')
        it = its[0][0]
        out = rd.seqs()[0]
        seen_rows[cur] = (rd, it, out)
        for i, kind, s2, g in rd.rows:
            if kind != 'back':
                continue
            el = [x for x in [*s2.disc] if x.op == 'el' and x.a[0] is mb and x.a[1] is it.a[3]]
            for s in assume_all(s2, sorted(facts_[cur], key=lambda f: f.id)):
                for w, var, x in eng.cases(s, eng.seqget(s, merge, it.a[3], it.a[2])):
                    vn = eng.types[eng.tyof(x)]['variants'][var]['name']
                    nq = q or vn == 'Conflict'
                    t = target(rd, s2)
                    if t is None or t not in by:
                        raise Unsupported('next round')
                    m = rd.after(s2)
                    td = by[t]
                    if td is not rd:
                        m = td.L.match(td.part, {c: s2.cells[c] for c in td.part.cells})
                    new = {f for f in cand(td) if holds(td, w, m, f)}
                    to = (t, nq)
                    old = facts_.get(to)
                    if old is None or not old <= new:
                        facts_[to] = new if old is None else old & new
                        todo.append(to)
    if len(by) == 1:
        wraps(eng, r, merge, first, m0, mb, note)
    # judge with the final facts
    for cur, (rd, it, out) in seen_rows.items():
        for i, kind, s2, g in rd.rows:
            if kind != 'back':
                continue
            m = rd.after(s2)
            if m is None:
                raise Unsupported('round of several phases')
            for s in assume_all(s2, sorted(facts_[cur], key=lambda f: f.id)):
                el0 = eng.seqget(s, merge, it.a[3], it.a[2])
                for w, var, x in eng.cases(s, el0):
                    vn = eng.types[eng.tyof(x)]['variants'][var]['name']
                    nx = subst(it.a[3], m)
                    v = same(w, nx, add(it.a[3], ONE))
                    note('every range once, in order', v if v != 'ne' or isnum(sub(nx, it.a[3])) else '?', 'after range %s comes range %s' % (short(eng, it.a[3]), short(eng, nx)))
                    one(w, x, vn, rd.suffix(out, m[out]))
    for p in r.paths:
        for rc, pi, i in p.st.trail:
            if rc is rec:
                break
        else:
            note('every range once, in order', '?', 'a result without looking at the ranges')
            continue
        kind = vname(eng, p.val)
        for q in (False, True):
            cur = (pi, q)
            if cur not in seen_rows:
                continue
            rd, it, out = seen_rows[cur]
            for s in assume_all(p.st, sorted(facts_[cur], key=lambda f: f.id)):
                c = conflicts_known(eng, s, mb, n)
                if q and c is False:
                    continue
                if c is not None and not q and c is not q:
                    # the conflict lies in a round not yet looked at
                    if s.decide(ge(sub(it.a[3], n))) is True:
                        continue
                what = 'an error exactly when there is a conflict'
                full = s.decide(ge(sub(it.a[3], n)))
                note('every range once, in order', 'eq' if full is True else '?', 'the result is ready before every range was looked at (case: %s)' % ' & '.join(facts(eng, s))[:300])
                if not feasible(s):
                    continue
                ok = (kind == 'Err') == q
                note(what, 'eq' if ok else 'ne' if full is True and exact_but_h(s) and bool(facts_[cur]) else '?',
                     'the result is %s for a merge %s conflicts (case: %s)' % (kind, 'with' if q else 'without', ' & '.join(facts(eng, s))[:300]))
                v = p.val.a[2]
                whole_ = seq(mk('sub', out, ZERO, atom(mk('len', out), 0, MAXLEN)))
                z = same(s, v, whole_)
                note('the result is the whole text', z if z != 'ne' or v.op == 'seq' else '?', 'the result is %s' % short(eng, v))


def wraps(eng, r, merge, rd, m0, mb, note):
    """a count of the conflicts that is back at nothing after so many of them"""
    it = next(it for it, x in rd.slices() if base_of_it(it) is mb)
    for x, i in rd.nums():
        if i or m0.get(x) is not ZERO and not (x.op != 'lin' and m0.get(x) is not None and isnum(m0[x]) and cval(m0[x]) == 0):
            continue
        X = lin(0, ((x, 1),))
        steps, top, fine = set(), None, True
        for _, kind, s2, g in rd.rows:
            if kind != 'back':
                continue
            nx = (rd.after(s2) or {}).get(x)
            for w, var, el in eng.cases(s2, eng.seqget(s2, merge, it.a[3], it.a[2])):
                if not feasible(w):
                    continue
                c = eng.types[eng.tyof(el)]['variants'][var]['name'] == 'Conflict'
                d = None if nx is None else sub(nx, X)
                if d is None or not isnum(d):
                    fine = False
                elif not c:
                    fine = fine and cval(d) == 0
                elif cval(d) == 1:
                    steps.add('up')
                elif cval(d) < 0 and w.decide(eq0(add(X, d))) is True:
                    steps.add('back')
                    top = -cval(d)
                else:
                    fine = False
        if not fine or 'up' not in steps:
            continue
        if 'back' in steps and top < 2 ** 32:
            for p in r.paths:
                if vname(eng, p.val) == 'Ok' and exact_but_h(p.st) and p.st.decide(eq0(X)) is True and feasible(p.st) and \
                        p.st.decide(ge(sub(it.a[3], seqlen(merge)))) is True:
                    note('an error exactly when there is a conflict', 'ne', 'after %d conflicts their number is 0 again and the result is Ok' % (top + 1))
        for q in eng.panics:
            if 'Overflow(Add' in q.why and exact_but_h(q.st) and feasible(q.st) and any(y is x for L in q.st.lin for y, _ in L.a[1]):
                m = next((k for k in (2 ** 7 - 1, 2 ** 8 - 1, 2 ** 15 - 1, 2 ** 16 - 1) if q.st.entails(sub(X, num(k))) and not q.st.entails(sub(X, num(k + 1)))), None)
                if m is not None:
                    note('an error exactly when there is a conflict', 'ne', 'conflict number %d overflows their count (%s)' % (m + 1, q.why))


def short_lists(o, key, cuts, note, most=2):
    """the whole function on lists of few ranges: only to find a definite contradiction"""
    r = o.d.run(key, cuts=cuts, bound=most)
    eng = r.eng
    if r.error or r.unknown:
        return
    texts = {}
    for i, n in enumerate(('ancestor', 'ours', 'theirs')):
        texts[n] = base_of(dref(eng.args[i]))[0]
    merge, mlen, style = dref(eng.args[3]), eng.args[4], eng.args[5]
    ety = eng.types[eng.types[o.p.insts[key]['body']['locals'][4]]['to']]['elem']

    def kinds(st, i, n):
        if i == n:
            yield st, []
            return
        for w, var, x in eng.cases(st, eng.seqget(st, merge, num(i), ety)):
            for v, rest in kinds(w, i + 1, n):
                yield v, [(eng.types[eng.tyof(x)]['variants'][var]['name'], x)] + rest
    for p in r.paths:
        if not exact(p.st):
            continue
        for n in range(most + 1):
            for s in p.st.assume(eq0(sub(seqlen(merge), num(n)))):
                for t, els in kinds(s, 0, n):
                    if not feasible(t):
                        continue
                    conflict = any(v == 'Conflict' for v, _ in els)
                    kind = vname(eng, p.val)
                    shape = 'ranges of kinds %s' % ', '.join(v for v, _ in els) if els else 'no ranges'
                    if (kind == 'Err') != conflict:
                        note('an error exactly when there is a conflict', 'ne', 'the result is %s for %s (case: %s)' % (kind, shape, ' & '.join(facts(eng, t))[:300]))
                    for w, var, x in eng.cases(t, style):
                        sn = eng.types[eng.tyof(x)]['variants'][var]['name']
                        wants = [[]]
                        for v, el in els:
                            wants = [a + b for a in wants for b in expected(eng, w, el, v, sn, mlen)]
                        got = pieces(eng, w, p.val.a[2], texts)
                        res = [compare(eng, w, got, q, mlen) for q in wants]
                        if all(q[0] == 'ne' for q in res) and exact(w):
                            note('every range once, in order', 'ne', 'for %s in style %s: %s (case: %s)' % (shape, sn, res[0][1], ' & '.join(facts(eng, w))[:300]))
