"""C12: reversing a patch exchanges the two sides and changes nothing else."""
from sa.obl import *
from sa.apply import feasible, guarded
from sa.drive import get
from sa.mergetab import Notes, case
from sa.opts import whole_of

TURNED = {'Context': 'Context', 'Delete': 'Insert', 'Insert': 'Delete'}


def run_c12(p, rep):
    o = Obl(p, rep)
    for n in ('reverse_str', 'reverse_u8'):
        k = o.root(n)
        if k:
            guarded(o, k, one('the patch', mirror_patch))
    for n in ('patch_clone', 'patch_clone_u8'):
        k = o.root(n)
        if k:
            guarded(o, k, one('the patch', copy_patch))
    for what, name, f in (('a hunk', "diffy::Hunk::<'a, T>::reverse", mirror_hunk), ('a line', "diffy::Line::<'_, T>::reverse", mirror_line)):
        # the roots above cover these through their callers; a tree may do without them
        for k in o.find('reversing ' + what, name, least=0):
            guarded(o, k, one(what, f))
    o.done()


def one(what, f):
    def run(o, key):
        r = o.run(key, 'any value')
        if r is None:
            return
        note = Notes(o, key)
        judge(o, r, f, note, what)
        if note.worst() == '?':
            r2 = o.d.run(key, bound=2)
            if not r2.error and not r2.unknown:
                n2 = Notes(o, key)
                judge(o, r2, f, n2, what)
                if n2.worst() == 'ne':
                    note = n2
                    for vs in note.m.values():
                        vs[:] = [x for x in vs if x[0] == 'ne'] or [('eq', '')]
        note.report()
    return run


def judge(o, r, f, note, what):
    eng = r.eng
    for p in r.panics:
        definite = exact(p.st) and feasible(p.st) and not any('len' in str(x.op) or x.op in ('plen', 'sum') for L in p.st.lin for x in mentions(L))
        note('no panic', 'ne' if definite else '?', 'panics (%s): %s' % (p.why, case(eng, p.st)))
    for p in r.paths:
        for st, k, verdict, text in f(eng, p.st, dref(eng.args[0]), p.val):
            if verdict == 'ne' and not (exact(st) and feasible(st)):
                verdict = '?'
            note(k, verdict, '%s (%s)' % (text, case(eng, st)))


def fld(eng, st, v, name):
    return strip_refs(get(eng, st, v, name))


def shape(eng, v):
    """the type of an aggregate value, or None"""
    if v.op == 'adt' or v.op in eng.OPAQUE:
        t = eng.types[eng.tyof(v)]
        return t if t['k'] == 'adt' else None
    return None


def equal(eng, st, k, got, want):
    """[(state, what, verdict, text)]: two values of the same type, variant by variant"""
    got, want = strip_refs(dref(got)), strip_refs(dref(want))
    if got is want:
        return [(st, k, 'eq', '')]
    t, u = shape(eng, got), shape(eng, want)
    if t is not None and u is not None and t['name'] == u['name']:
        out = []
        if t.get('ak') == 'enum':
            for s, va, x in eng.cases(st, got):
                for s2, vb, y in eng.cases(s, want):
                    if not feasible(s2):
                        continue
                    na, nb = t['variants'][va]['name'], t['variants'][vb]['name']
                    if va != vb and t['name'].endswith('Cow'):
                        out += equal(eng, s2, k, x.a[2], y.a[2])
                    elif va != vb:
                        out.append((s2, k, 'ne', 'it is %s instead of %s' % (na, nb)))
                    elif len(x.a) == 2:
                        out.append((s2, k, 'eq', ''))
                    else:
                        for a, b in zip(x.a[2:], y.a[2:]):
                            out += equal(eng, s2, k, a, b)
            return out
        x, y = eng.expand(st, got), eng.expand(st, want)
        return [r for a, b in zip(x.a[2:], y.a[2:]) for r in equal(eng, st, k, a, b)]
    return [(st, k, same(st, got, want), 'it is %s instead of %s' % (short(eng, got), short(eng, want)))]


def mirror_patch(eng, st, src, got):
    for x, y in (('original', 'modified'), ('modified', 'original')):
        yield from equal(eng, st, 'the %s name becomes the %s' % (y, x), fld(eng, st, got, x), fld(eng, st, src, y))
    for s, a, b, k in items(eng, st, fld(eng, st, got, 'hunks'), fld(eng, st, src, 'hunks'), 'hunks'):
        if k:
            yield s, *k
        else:
            yield from mirror_hunk(eng, s, b, a)


def copy_patch(eng, st, src, got):
    for x in ('original', 'modified'):
        yield from equal(eng, st, 'a clone has the same names', fld(eng, st, got, x), fld(eng, st, src, x))
    for s, a, b, k in items(eng, st, fld(eng, st, got, 'hunks'), fld(eng, st, src, 'hunks'), 'hunks'):
        if k:
            yield s, *k
            continue
        for x in ('old_range', 'new_range', 'function_context'):
            yield from equal(eng, s, 'the hunks of a clone are the same', fld(eng, s, a, x), fld(eng, s, b, x))
        for s2, c, d, k in items(eng, s, fld(eng, s, a, 'lines'), fld(eng, s, b, 'lines'), 'lines'):
            if k:
                yield s2, *k
            else:
                yield from equal(eng, s2, 'the lines of a clone are the same', c, d)


def mirror_hunk(eng, st, src, got):
    for x, y in (('old_range', 'new_range'), ('new_range', 'old_range')):
        for f in ('start', 'len'):
            yield from equal(eng, st, 'the ranges of a hunk are exchanged', fld(eng, st, got, x + '.' + f), fld(eng, st, src, y + '.' + f))
    yield from equal(eng, st, 'the function context stays', fld(eng, st, got, 'function_context'), fld(eng, st, src, 'function_context'))
    for s, a, b, k in items(eng, st, fld(eng, st, got, 'lines'), fld(eng, st, src, 'lines'), 'lines'):
        if k:
            yield s, *k
        else:
            yield from mirror_line(eng, s, b, a)


def mirror_line(eng, st, src, got):
    for s, va, x in eng.cases(st, strip_refs(dref(src))):
        for s2, vb, y in eng.cases(s, strip_refs(dref(got))):
            if not feasible(s2):
                continue
            vs = eng.types[eng.tyof(y)]['variants']
            na, nb = vs[va]['name'], vs[vb]['name']
            k = 'a line of kind %s' % na
            if nb != TURNED[na]:
                yield s2, k, 'ne', 'it becomes %s' % nb
            else:
                yield from equal(eng, s2, k, y.a[2], x.a[2])


def items(eng, st, got, src, what):
    """(state, item of the result, item of the source, None), or (state, None, None, (what, verdict, text))"""
    k = 'all %s, in order' % what
    if got.op != 'seq':
        yield st, None, None, (k, '?', 'the result is %s' % short(eng, got))
        return
    n = seqlen(src)
    ps = [q for q in got.a if not (q.op == 'sub' and st.decide(eq0(sub(q.a[2], q.a[1]))) is True)]
    sb = src.a[0].a[0] if src.op == 'seq' and len(src.a) == 1 else None
    if len(ps) == 1 and ps[0].op == 'comp':
        lo, hi, rows = ps[0].a
        whole = st.decide(eq0(lo)) is True and st.decide(eq0(sub(hi, n))) is True
        part = isnum(sub(hi, n)) and isnum(lo)
        els = {x for g, e in rows for t in (*g, e) for x in mentions(t) if x.op == 'el' and x.a[0] is sb}
        if len(els) != 1:
            yield st, None, None, (k, '?', 'the result is %s' % short(eng, got))
            return
        el = els.pop()
        bvs = [x for x in mentions(el.a[1]) if x.op == 'bv']
        ok = len(bvs) == 1 and el.a[1] is atom(bvs[0], 0, MAXLEN)
        if not whole or not ok:
            yield st, None, None, (k, 'ne' if part and ok and not whole else '?', 'the result has items %s to %s only' % (short(eng, lo), short(eng, hi)))
            return
        yield st, None, None, (k, 'eq', '')
        for g, e in rows:
            for s in assume_all(st, g):
                if not feasible(s):
                    continue
                if not e.a:
                    yield s, None, None, (k, 'ne', 'an item is left out')
                elif len(e.a) != 1 or e.a[0].op != 'el1':
                    yield s, None, None, (k, '?', 'an item becomes %s' % short(eng, e))
                else:
                    yield s, e.a[0].a[0], el, None
        return
    if whole_of(got) and got is src:
        # the very same list: right only where no item changes
        for s in st.assume(ge(sub(n, ONE))):
            el = eng.seqget(s, src, ZERO, eng.elem_ty(eng.tyof(sb)))
            yield s, el, el, None
        return
    if all(q.op == 'el1' for q in ps):
        for s in st.assume(eq0(sub(n, num(len(ps))))):
            if not feasible(s):
                continue
            yield s, None, None, (k, 'eq', '')
            for i, q in enumerate(ps):
                yield s, q.a[0], eng.seqget(s, src, num(i), eng.elem_ty(eng.tyof(sb))), None
        for s in st.assume(neg(eq0(sub(n, num(len(ps)))))):
            yield s, None, None, (k, 'ne', 'the result has %d %s, not %s' % (len(ps), what, short(eng, n)))
        return
    yield st, None, None, (k, '?', 'the result is %s' % short(eng, got))
