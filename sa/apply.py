"""C13: what applying a patch does, function by function."""
from sa.obl import *
from sa.opts import call_cut, deep, field
from sa.rows import rounds

PRE = {'Context': True, 'Delete': True, 'Insert': False}
POST = {'Context': True, 'Delete': False, 'Insert': True}


def run_c13(p, rep):
    o = Obl(p, rep)
    for k in o.find('comparison at a position', 'diffy::apply::match_fragment'):
        guarded(o, k, fragment)
    for k in o.find('replacement of the lines', 'diffy::apply::apply_hunk'):
        guarded(o, k, hunk)
    for n in ('apply_str', 'apply_u8'):
        k = o.root(n)
        if k:
            guarded(o, k, whole_patch)
    o.done()


def guarded(o, k, f):
    try:
        f(o, k)
    except Unsupported as e:
        o.rep.unk('%s: %s' % (o.d.name(k), e))


# ---------------------------------------------------------------- traversals, case by case
def base_of(s):
    """(opaque list, offset) of a part of a list"""
    s = dref(s)
    if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub':
        return s.a[0].a[0], s.a[0].a[1]
    raise Unsupported('not a part of one list')


def cases(eng, st, rows, base, off=None):
    """[(variant, element, state, effect)] of an arbitrary round over the list"""
    bvs = {x for g, e in rows for t in (*g, e) for x in mentions(t) if x.op == 'bv'}
    if len(bvs) > 1:
        raise Unsupported('nested traversal')
    bv = bvs.pop() if bvs else mk('bv', 0)
    ety = eng.elem_ty(eng.tyof(base))
    idx = atom(bv, 0, MAXLEN)
    el = eng.baseget(st, base, add(idx, off) if off is not None else idx, ety)
    out = []
    t = eng.types[eng.tyof(el)]
    for d, v in enumerate(t['variants']):
        for s in st.assume(mk('isv', el, d)):
            for g, e in row_at(s, rows):
                for w in assume_all(s, g):
                    out.append((v['name'], el, w, e))
    return out


def count_verdict(eng, st, n, lines, table=None):
    """is the number n the count of old lines of the hunk: 'eq', 'ne' (another count) or '?'"""
    if n.op == 'lin' and n.a[0] == 0 and len(n.a[1]) == 1 and n.a[1][0][1] == 1:
        t = n.a[1][0][0]
        base, off = base_of(lines)
        if t.op == 'plen' and t.a[0].op == 'comp':
            lo, hi, rows = t.a[0].a
            rows = tuple((g, seqlen(e)) for g, e in rows)
        elif t.op == 'sum':
            lo, hi, rows = t.a
        else:
            return '?'
        if lo is not ZERO or hi is not seqlen(lines):
            return '?'
        v = 'eq'
        for name, el, w, e in cases(eng, st, rows, base):
            r = same(w, e, ONE if (table or PRE)[name] else ZERO)
            if r == 'ne':
                return 'ne'
            if r != 'eq':
                v = '?'
        return v
    return '?'


def counts_in(eng, st, lines, ts, table=None):
    """the numbers on this path that are the count of old lines"""
    out, other = [], []
    for t in {x for t in ts for x in mentions(t) if x.op in ('sum', 'plen')}:
        n = atom(t, 0, MAXLEN)
        r = count_verdict(eng, st, n, lines, table)
        if r == 'eq':
            out.append(n)
        elif r == 'ne':
            other.append(n)
    return out, other


def texts_verdict(eng, st, s, base, off, n, hi, table, wrap=None):
    """is s the texts of the elements selected by table (variant -> selected)?"""
    if s.op != 'seq' or len(s.a) != 1 or s.a[0].op != 'comp':
        return None
    lo, h, rows = s.a[0].a
    els = {x for g, e in rows for t in (*g, e) for x in mentions(t) if x.op == 'el'}
    if not any(x.a[0] is base for x in els):
        return None
    if lo is not ZERO:
        return '?'
    v = 'eq'
    if st.decide(eq0(sub(h, hi))) is not True:
        v = '?'
    for name, el, w, e in cases(eng, st, rows, base, off):
        if table[name]:
            x = get(eng, w, el, '?%s.0' % name)
            want = seq(mk('el1', wrap(x) if wrap else strip_refs(x)))
        else:
            want = seq()
        r = same(w, strip_all(e), strip_all(want))
        if r == 'ne':
            return 'ne'
        if r != 'eq':
            v = '?'
    return v


def strip_all(s):
    return seq(*[mk('el1', strip_refs(p.a[0])) if p.op == 'el1' else p for p in s.a]) if s.op == 'seq' else s


# ---------------------------------------------------------------- match_fragment
def fragment(o, key):
    r = o.run(key, 'any image, lines and position')
    if r is None:
        return
    eng, rep, nm = r.eng, o.rep, o.d.name(key)
    img, lines, pos = dref(eng.args[0]), dref(eng.args[1]), eng.args[2]
    ib, _ = base_of(img)
    lb, _ = base_of(lines)
    total = seqlen(img)
    problems = []
    for p in r.paths:
        ys, ns = p.st.split(p.val)
        for st, truth in [(s, True) for s in ys] + [(s, False) for s in ns]:
            problems += fragment_path(o, eng, st, truth, img, ib, lines, lb, pos, total)
    bad = [x for x in problems if x[0] == 'ne']
    unk = [x for x in problems if x[0] == '?']
    for _, key2, text in bad:
        rep.bad('%s|%s' % (nm, key2), '%s: %s' % (o.where(key), text))
    if unk and not bad:
        rep.unk('%s: %s' % (nm, unk[0][2]))
    if not problems and r.paths:
        rep.good('%s: true exactly when the old lines fit at the position, none of the lines there was patched and all texts are equal (%d paths)' % (nm, len(r.paths)))


def fragment_path(o, eng, st, truth, img, ib, lines, lb, pos, total):
    case = ' & '.join(facts(eng, st))[:500]
    terms = list(st.lits) + list(st.lin)
    ns, others = counts_in(eng, st, lines, terms)
    st = st.copy()
    for n in ns[1:]:                      # different spellings of the same count
        if not (st.addlin(sub(n, ns[0])) and st.addlin(sub(ns[0], n))):
            return []
    none = any(st.decide(eq0(n)) is True for n in ns[:1])       # no old lines at all
    # the three conditions, as far as the facts of the path speak about them
    fit = None
    for n in ns:
        d = st.decide(ge(sub(sub(total, pos), n)))
        fit = d if d is not None else fit
    patched, equal = [], []
    strange = []
    for f, v in st.lits.items():
        if f.op == 'any':
            lo, hi, g = f.a
            g = (disj(*[conj(*x) for x in g]),)
            patched.append((v, any_patched(eng, st, lo, hi, g, ib, pos, ns, others)))
        elif f.op == 'seqeq' and f.a[1].__class__ is not bytes:
            equal.append((v, eq_verdict(eng, st, f.a[0], f.a[1], img, ib, lines, lb, pos, ns)))
        elif f.op in ('isv', 'eq0', 'ge') or f.op == 'not':
            pass
        else:
            strange.append(f)
    known = not strange and not any(x == '?' for _, x in patched + equal) and exact(st) and \
        not any(x.op in ('unk', 'h') for t in terms for x in mentions(t))
    if truth:
        out = []
        if fit is not True:
            out.append(('?', 'range', 'true although the old lines need not fit (case: %s)' % case))
        np = [v for v, x in patched if x == 'eq']
        if none:
            return out
        if any(v for v, x in patched if x == 'eq'):
            out.append(('ne' if known else '?', 'patched', 'true although a line there was already patched (case: %s)' % case))
        elif not np:
            about = any(mentions_variant(f, ib) for f in st.lits if f.op != 'seqeq') or any(q is ib for q in st.disc)
            out.append(('ne' if (known and not about) else '?', 'patched',
                        'true without regard to whether the lines there were already patched (case: %s)' % case))
        e = [x for v, x in equal if v]
        if 'eq' not in e:
            if known and 'ne' in e:
                out.append(('ne', 'texts', 'true when something other than the old lines of the hunk equals the lines of the image (case: %s)' % case))
            elif known and not equal:
                out.append(('ne', 'texts', 'true without comparing the texts (case: %s)' % case))
            else:
                out.append(('?', 'texts', 'true, texts not recognised (case: %s)' % case))
        return out
    if fit is False:
        return []
    if any(v and x == 'eq' for v, x in patched) or any((not v) and x == 'eq' for v, x in equal):
        return []
    # nothing the property allows to refuse for
    if none and fit is True and all(f.op in ('isv', 'eq0', 'ge', 'any', 'not') for f in st.lits):
        return [('ne' if exact(st) else '?', 'refused', 'false although there are no old lines to compare (case: %s)' % case)]
    if any(any(y is ib for y in mentions(q)) for q in st.disc) or any(mentions_variant(f, ib) and f.op not in ('seqeq', 'any') for f in st.lits):
        return [('?', 'refused', 'false because of a single line (case: %s)' % case)]
    if known and ns and fit is None:
        t = st.assume(ge(sub(sub(total, pos), ns[0])))
        if t and feasible(t[0]):
            return [('ne', 'refused', 'false although the old lines fit, are unpatched and equal (case: %s)' % case)]
    if known and fit is True:
        return [('ne', 'refused', 'false although the old lines fit, are unpatched and equal (case: %s)' % case)]
    return [('?', 'refused', 'false for a reason that is not recognised (case: %s)' % case)]


def feasible(st):
    cs = [(L.a[0], dict(L.a[1])) for L in st.lin]
    for t in {t for L in st.lin for t, _ in L.a[1]}:
        if t.lo is not None:
            cs.append((-t.lo, {t: 1}))
        if t.hi is not None and t.hi < MAXLEN:
            cs.append((t.hi, {t: -1}))
    if any(abs(c) > 2 ** 40 for c, _ in cs):
        cs += [(t.hi, {t: -1}) for t in {t for _, d in cs for t in d} if t.hi is not None and t.hi >= MAXLEN]
    return not infeasible(cs, cap=4000, strict=True) and st.possible()


def mentions_variant(f, ib):
    return any(x.op == 'isv' and any(y is ib for y in mentions(x)) for x in mentions(f))


def any_patched(eng, st, lo, hi, g, ib, pos, ns, others):
    """is this `any line of image[pos..pos+n] is patched`?"""
    els = {x for t in g for x in mentions(t) if x.op == 'el' and x.a[0] is ib}
    if len(els) != 1 or lo is not ZERO:
        return '?'
    el = els.pop()
    bvs = [x for x in mentions(el.a[1]) if x.op == 'bv']
    if len(bvs) != 1:
        return '?'
    off = sub(el.a[1], atom(bvs[0], 0, MAXLEN))
    names = {}
    t = eng.types[eng.tyof(el)]
    for d, v in enumerate(t['variants']):
        r = [u.decide(conj(*g)) for u in st.assume(mk('isv', el, d))]
        names[v['name']] = r[0] if len(set(r)) == 1 else None
    if names != {'Unpatched': False, 'Patched': True}:
        return 'ne' if names.get('Patched') is False or names.get('Unpatched') is True else '?'
    if st.decide(eq0(sub(off, pos))) is True and any(st.decide(eq0(sub(hi, n))) is True for n in ns):
        return 'eq'
    if off is pos and any(hi is n for n in others):
        return 'ne'
    for n in ns:
        if isnum(sub(off, pos)) and isnum(sub(hi, n)):
            return 'ne'
    return '?'


def eq_verdict(eng, st, a, b, img, ib, lines, lb, pos, ns):
    """is this comparison the one of the old lines with image[pos..pos+n]?"""
    out = []
    for x, y in ((a, b), (b, a)):
        v1 = texts_verdict(eng, st, x, lb, None, None, seqlen(lines), PRE)
        if v1 is None:
            continue
        if y.op == 'seq' and len(y.a) == 1 and y.a[0].op == 'comp' and ns:
            v2 = None
            for n in ns:
                v = texts_verdict(eng, st, y, ib, pos, n, n, {'Unpatched': True, 'Patched': True})
                v2 = v if v2 is None or v == 'eq' else v2
        else:
            v2 = '?'
        if v1 == 'eq' and v2 == 'eq':
            return 'eq'
        out += [v1, v2]
    if 'ne' in out and '?' not in out and None not in out:
        return 'ne'
    return '?'


# ---------------------------------------------------------------- apply_hunk
def cut_find(eng, st, c):
    return [(st, eng.mat(mk('call', 'find', *[deep(eng, st, a) for a in c.args], c.dty), c.dty))]


def hunk(o, key):
    rep, nm = o.rep, o.d.name(key)
    r = o.run(key, 'any image and hunk', cuts=cuts_for(o.p, {('apply::find_position',): cut_find}), empty=False)
    if r is None:
        return
    eng = r.eng
    out = []
    for p in r.paths:
        st = p.st
        case = ' & '.join(facts(eng, st))[:400]
        finds = [t for t in st.disc if t.op == 'call' and t.a[0] == 'find']
        if len(finds) != 1:
            raise Unsupported('%d searches' % len(finds))
        fd = finds[0]
        ity = eng.types[o.p.insts[key]['body']['locals'][1]]['to']
        img = eng.mat(mk('in', 'a0', ity), ity)
        ib, _ = base_of(img)
        hk = dref(eng.args[1])
        lines = dref(get(eng, st, hk, 'lines'))
        lb, _ = base_of(lines)
        if strip_refs(fd.a[1]) is not strip_refs(img) or strip_refs(fd.a[2]) is not strip_refs(deep(eng, st, hk)):
            raise Unsupported('the search looks at something else')
        found = eng.types[eng.tyof(fd)]['variants'][st.disc[fd]]['name']
        ok = vname(eng, p.val)
        if found == 'None':
            if ok != 'Err':
                out.append(('ne' if exact(st) else '?', 'failure', 'a hunk that fits nowhere is reported as applied (case: %s)' % case))
            if p.out is not img:
                out.append(('?', 'failure', 'the image changes although the hunk fits nowhere'))
            continue
        if ok != 'Ok':
            out.append(('ne' if exact(st) else '?', 'success', 'a hunk that fits is reported as failing (case: %s)' % case))
            continue
        pos = get(eng, st, fd, '?Some.0')
        out += replaced(eng, st, p.out, ib, lines, lb, pos, seqlen(img), case)
    for v, k2, text in out:
        if v == 'ne':
            rep.bad('%s|%s' % (nm, k2), '%s: %s' % (o.where(key), text))
        else:
            rep.unk('%s: %s' % (nm, text))
    if not out and len(r.paths) >= 2:
        rep.good('%s: the old lines at the position found are replaced by the new lines of the hunk, marked as patched; the rest stays' % nm)


def replaced(eng, st, got, ib, lines, lb, pos, total, case):
    out = []
    parts = list(got.a)
    comps = [i for i, q in enumerate(parts) if q.op == 'comp']
    if len(comps) != 1:
        return [('?', 'result', 'the result is not recognised: %s' % short(eng, got))]
    i = comps[0]
    before, mid, after = seq(*parts[:i]), parts[i], seq(*parts[i + 1:])
    want = subseq(whole(ib), ZERO, pos, st)
    v = same(st, before, want)
    if v != 'eq':
        d = before.op == 'seq' and len(before.a) == 1 and before.a[0].op == 'sub' and before.a[0].a[0] is ib and \
            before.a[0].a[1] is ZERO and isnum(sub(before.a[0].a[2], pos))
        out.append(('ne' if d or not before.a and exact(st) else '?', 'before',
                    'before the new lines stands %s instead of the lines before the position (case: %s)' % (short(eng, before), case)))
    # the lines after
    ok = False
    if len(after.a) == 1 and after.a[0].op == 'sub' and after.a[0].a[0] is ib:
        _, lo, hi = after.a[0].a
        n = sub(lo, pos)
        ns, others = counts_in(eng, st, lines, [lo] + list(st.lin))
        if hi is total and (count_verdict(eng, st, n, lines) == 'eq' or any(st.decide(eq0(sub(n, m))) is True for m in ns)):
            ok = True
        elif hi is not total and isnum(sub(hi, total)) or any(isnum(sub(n, m)) for m in ns) or count_verdict(eng, st, n, lines) == 'ne' or isnum(n) or \
                n is seqlen(lines):
            out.append(('ne', 'after', 'after the new lines follow %s: not the lines behind the old ones (case: %s)' % (short(eng, after), case)))
            ok = True
    elif not after.a and exact(st):
        ns, others = counts_in(eng, st, lines, list(st.lin))
        if not any(st.decide(eq0(sub(add(pos, m), total))) is True for m in ns):
            out.append(('ne', 'after', 'the lines after the hunk are lost (case: %s)' % case))
        ok = True
    if not ok:
        out.append(('?', 'after', 'after the new lines: %s' % short(eng, after)))
    lo, hi, rows = mid.a
    if lo is not ZERO or hi is not seqlen(lines):
        d = isnum(sub(hi, seqlen(lines))) and isnum(lo)
        out.append(('ne' if d else '?', 'new lines', 'only lines %s to %s of the hunk are written (case: %s)' % (short(eng, lo), short(eng, hi), case)))
        return out
    for name, el, w, e in cases(eng, st, rows, lb):
        if not POST[name]:
            v = same(w, e, seq())
            what = 'nothing'
        else:
            x = strip_refs(get(eng, w, el, '?%s.0' % name))
            what = 'its text, patched'
            if len(e.a) == 1 and e.a[0].op == 'el1' and e.a[0].a[0].op == 'adt':
                y = e.a[0].a[0]
                if vname(eng, y) != 'Patched':
                    v = 'ne'
                else:
                    v = same(w, strip_refs(dref(y.a[2])), strip_refs(dref(x)))
            elif not e.a:
                v = 'ne'
            else:
                v = '?'
        if v != 'eq':
            out.append((v if exact(w) else '?', 'new lines|' + name, 'for a line of kind %s the result has %s, the property demands %s (case: %s)' % (
                name, short(eng, e), what, case)))
    return out


# ---------------------------------------------------------------- apply
def whole_patch(o, key):
    rep, nm = o.rep, o.d.name(key)
    cuts = line_cuts(o.p)
    cuts.update(cuts_for(o.p, {('apply::apply_hunk',): call_cut('hunk', 0)}))
    r = o.run(key, 'any base and patch', cuts=cuts)
    if r is None:
        return
    eng = r.eng
    out = []
    base, patch = dref(eng.args[0]), dref(eng.args[1])
    lns = whole(mk('lines', base))
    main = []
    for rd in rounds(eng):
        for i, kind, s2, g in rd.rows:
            if any(t.op == 'call' and t.a[0] == 'hunk' for t in s2.disc):
                main.append(rd)
                break
    if len(main) != 1:
        raise Unsupported('%d loops over the hunks' % len(main))
    rd = main[0]
    own = set(rd.nums()) and {x for x, _ in rd.nums()}
    hunks = None
    img = None
    idx = None
    for i, kind, s2, g in rd.rows:
        for t in s2.disc:
            if t.op == 'call' and t.a[0] == 'hunk' and t not in rd.hs.disc:
                a0, a1 = t.a[1], t.a[2]
                hs = {(x.a[0], x.a[1]) for x in mentions(a1) if x.op == 'el'}
                if len(hs) != 1 or (img is not None and (img, hunks, idx) != (a0, *list(hs)[0])):
                    raise Unsupported('which hunk')
                img, (hunks, idx) = a0, list(hs)[0]
    if img is None or whole(hunks) is not dref(get(eng, rd.hs, patch, 'hunks')):
        raise Unsupported('which hunks')
    ety = eng.elem_ty(eng.tyof(hunks))
    I, _ = base_of(img)
    case = lambda st: ' & '.join(facts(eng, st))[:400]
    # where it starts
    st0 = rd.rec.st0
    m0 = rd.L.match(rd.part, {c: st0.cells[c] for c in rd.part.cells}) if len(rd.rec.parts) == 1 else None
    if m0 is None:
        raise Unsupported('loop of several phases')
    first = subst(idx, m0)
    v = same(st0, first, ZERO)
    if v != 'eq':
        out.append((v if isnum(first) else '?', 'first hunk', 'the first hunk applied is number %s' % short(eng, first)))
    start = m0.get(I)
    if start is None:
        raise Unsupported('the image the loop starts with')
    out += first_image(eng, st0, start, lns)
    # rounds
    n = seqlen(whole(hunks))
    for i, kind, s2, g in rd.rows:
        calls = [t for t in s2.disc if t.op == 'call' and t.a[0] == 'hunk' and t not in rd.hs.disc]
        if kind == 'back':
            if len(calls) != 1:
                out.append(('?', 'round', 'a round with %d hunks' % len(calls)))
                continue
            okv = eng.types[eng.tyof(calls[0])]['variants'][s2.disc[calls[0]]]['name']
            if okv != 'Ok':
                out.append(('ne', 'failure ignored', 'the hunks after a failing one are applied (case: %s)' % case(s2)))
                continue
            a = rd.after(s2)
            nxt = subst(idx, {k: v for k, v in a.items()})
            v = same(s2, nxt, add(idx, ONE))
            if v != 'eq':
                out.append(('ne' if isnum(sub(nxt, idx)) else '?', 'next hunk', 'after hunk %s comes hunk %s' % (short(eng, idx), short(eng, nxt))))
            J = a.get(I)
            ok = J is not None and J.op == 'seq' and len(J.a) == 1 and J.a[0].op == 'sub' and J.a[0].a[0].op == 'call' and \
                J.a[0].a[0].a[0] == "hunk'" and J.a[0].a[0].a[1] is img
            if not ok:
                out.append(('ne' if J is img else '?', 'image', 'the next hunk is not applied to the result of this one (%s)' % (short(eng, J) if J else None)))
    # the ends
    mine = {(id(rd.rec), rd.part.idx)}
    for p in r.paths:
        t = p.st.trail
        through = [x for x in t if id(x[0]) == id(rd.rec)]
        if not through:
            out.append(('?', 'end', 'a result without looking at the hunks'))
            continue
        calls = [c for c in p.st.disc if c.op == 'call' and c.a[0] == 'hunk']
        ok = vname(eng, p.val)
        if calls:
            d = eng.types[eng.tyof(calls[0])]['variants'][p.st.disc[calls[0]]]['name']
            if d != 'Err':
                out.append(('?', 'end', 'the loop ends after a hunk was applied'))
                continue
            if ok != 'Err':
                out.append(('ne', 'failure', 'a failing hunk gives %s (case: %s)' % (ok, case(p.st))))
                continue
            e = p.val.a[2]
            while e.op == 'adt' and len(e.a) == 3:
                e = e.a[2]
            v = same(p.st, e, add(idx, ONE)) if e.op == 'lin' else '?'
            if v != 'eq':
                out.append(('ne' if e.op == 'lin' and isnum(sub(e, idx)) else '?', 'hunk number',
                            'the error names hunk %s when hunk %s (counted from 1) fails' % (short(eng, e), short(eng, add(idx, ONE)))))
            continue
        done = p.st.decide(ge(sub(idx, n)))
        if ok != 'Ok':
            out.append(('ne' if exact_but(p.st, rd) and done is True else '?', 'success', 'an error although every hunk was applied (case: %s)' % case(p.st)))
            continue
        if done is not True:
            out.append(('?' if done is None else 'ne', 'all hunks', 'success before hunk %s was applied (case: %s)' % (short(eng, idx), case(p.st))))
        out += joined(eng, p.st, p.val.a[2], img, I)
    for v, k2, text in out:
        if v == 'ne':
            rep.bad('%s|%s' % (nm, k2), '%s: %s' % (o.where(key), text))
        else:
            rep.unk('%s: %s' % (nm, text))
    if not out:
        rep.good('%s: the hunks are applied in order, each to the result of the one before, starting from the unpatched lines of the base; '
                 'the first failing hunk is named, counted from 1; the result is the texts of all lines in order' % nm)


def exact_but(st, rd):
    return not any(x.op == 'unk' for f in (*st.lits, *st.lin) for x in mentions(f))


def first_image(eng, st, s, lns):
    lb, _ = base_of(lns)
    if s.op != 'seq' or len(s.a) != 1 or s.a[0].op != 'comp':
        return [('?', 'lines of the base', 'the first image is not recognised')]
    lo, hi, rows = s.a[0].a
    out = []
    if lo is not ZERO or hi is not seqlen(lns):
        d = isnum(lo) and isnum(sub(hi, seqlen(lns)))
        out.append(('ne' if d else '?', 'lines of the base', 'lines %s to %s of the base are taken' % (short(eng, lo), short(eng, hi))))
    bvs = {x for g, e in rows for t in (*g, e) for x in mentions(t) if x.op == 'bv'}
    if len(bvs) != 1:
        return out + [('?', 'lines of the base', 'lines not recognised')]
    at = atom(bvs.pop(), 0, MAXLEN)
    for g, e in rows:
        if g:
            out.append(('?', 'lines of the base', 'some lines are left out or treated differently'))
            continue
        if len(e.a) != 1 or e.a[0].op != 'el1' or e.a[0].a[0].op != 'adt':
            out.append(('?', 'lines of the base', 'a line becomes %s' % short(eng, e)))
            continue
        y = e.a[0].a[0]
        if vname(eng, y) != 'Unpatched':
            out.append(('ne', 'lines of the base', 'the lines of the base are taken for patched ones'))
        elif not any(x.op == 'el' and x.a[0] is lb and x.a[1] is at for x in mentions(y)):
            out.append(('?', 'lines of the base', 'a line becomes %s' % short(eng, e)))
    return out


def joined(eng, st, s, img, I):
    """the texts of all lines, one after the other"""
    if s.op != 'seq' or len(s.a) != 1 or s.a[0].op != 'comp':
        return [('?', 'result', 'the result is not recognised: %s' % short(eng, s))]
    lo, hi, rows = s.a[0].a
    out = []
    if lo is not ZERO or hi is not seqlen(img):
        d = isnum(lo) and isnum(sub(hi, seqlen(img)))
        out.append(('ne' if d else '?', 'result', 'the result has lines %s to %s of the image' % (short(eng, lo), short(eng, hi))))
    for name, el, w, e in cases(eng, st, rows, I):
        x = strip_refs(dref(get(eng, w, el, '?%s.0' % name)))
        v = same(w, e, x if x.op == 'seq' else whole(x))
        if v != 'eq':
            if not e.a:
                v = 'ne'
            out.append((v, 'result|' + name, 'a line that is %s contributes %s instead of its text' % (name, short(eng, e))))
    return out
