"""More iterator, slice and number operations."""
from sa.models import *
from sa.models import (model, ints, is_text, is_bytes, emit, ok, result_of, opt_inner, sq, deref, some, none, into_iter, drain, callf, search, target, subseq, modify, unitv,
                       norm_it, it, next_of, seq_eq, next_model, collect)


@model('std::iter::Iterator::last', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::last')
def m_it_last(eng, st, c):
    def step(s, ids, x):
        s = s.copy()
        s.cells[ids[0]] = some(eng, c.dty, x)
        return [(s, 'go')]
    out = []
    for s, i in into_iter(eng, st, c.args[0], c):
        for u, tg, av in drain(eng, s, i, c.path, 'la', [none(eng, c.dty)], step):
            out.append((u, av[0]))
    return out


def short_circuit(eng, st, c, fn, init):
    """try_for_each / try_fold over a Result or an Option"""
    t = eng.types[c.dty]
    names = [v['name'] for v in t['variants']]
    good = next((n for n in ('Ok', 'Some', 'Continue') if n in names), None)
    if good is None:
        return None

    def step(s, ids, x):
        out = []
        args = [x] if init is None else [s.cells[ids[2]], x]
        for u, f2, y in callf(eng, s, s.cells[ids[0]], args, c.path, dty=c.dty):
            for w, var, z in eng.cases(u, y):
                w = w.copy()
                w.cells[ids[0]] = f2
                if eng.types[c.dty]['variants'][var]['name'] == good:
                    if init is not None:
                        w.cells[ids[2]] = z.a[2]
                    out.append((w, 'go'))
                else:
                    w.cells[ids[1]] = z
                    out.append((w, 'stop'))
        return out
    src = c.args[0]
    res = []
    v = eng.load(st, src.a[0], src.a[1]) if src.op == 'mref' else src
    for s, i in into_iter(eng, st, v, c):
        if src.op == 'mref':
            s = s.copy()
            eng.store(s, src.a[0], src.a[1], i)
            i = src
        for u, tg, av in drain(eng, s, i, c.path, 'tf', [fn, mk('nothing')] + ([] if init is None else [init]), step):
            if tg == 'stop':
                res.append((u, av[1]))
            else:
                okty = eng.fields(c.dty, eng.vidx(c.dty, good))[0]
                res.append((u, eng.variant(c.dty, good, unitv(eng, okty) if init is None else av[2])))
    return res


@model('std::iter::Iterator::try_for_each', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::try_for_each')
def m_try_for_each(eng, st, c):
    return short_circuit(eng, st, c, c.args[1], None)


@model('std::iter::Iterator::try_fold', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::try_fold')
def m_try_fold(eng, st, c):
    return short_circuit(eng, st, c, c.args[2], c.args[1])


@model('std::iter::Iterator::nth', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::nth')
def m_nth(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    v = norm_it(eng, st, eng.load(st, cell, path), c)
    if v.op != 'it' or v.a[0] not in ('slice', 'vals', 'range', 'windows', 'chunks'):
        return None
    lo, hi = v.a[-2], v.a[-1]
    k = c.args[1]
    y, n = st.split(ge(sub(sub(hi, lo), add(k, ONE))))
    out = []
    for t in y:
        for u, j, x in next_of(eng, t, mk('it', *v.a[:-2], add(lo, k), hi), c.path):
            u = u.copy()
            eng.store(u, cell, path, j)
            out.append((u, none(eng, c.dty) if x is None else some(eng, c.dty, x)))
    for t in n:
        t = t.copy()
        eng.store(t, cell, path, mk('it', *v.a[:-2], hi, hi))
        out.append((t, none(eng, c.dty)))
    return out


@model('std::iter::DoubleEndedIterator::rfind')
def m_rfind(eng, st, c):
    v = eng.load(st, c.args[0].a[0], c.args[0].a[1]) if c.args[0].op == 'mref' else c.args[0]
    return [(u, some(eng, c.dty, x) if tg == 'hit' else none(eng, c.dty))
            for u, tg, n, x in search(eng, st, c, it('rev', v), 'find', True)]


@model('std::iter::Iterator::ne')
def m_it_ne(eng, st, c):
    out = []
    for s, a in into_iter(eng, st, c.args[0], c):
        for t, b in into_iter(eng, s, c.args[1], c):
            for u, x in collect(eng, t, a, c.path, 'e1', False):
                for w, y in collect(eng, u, b, c.path, 'e2', False):
                    out.append((w, neg(seq_eq(w, eng, x, y))))
    return out


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_split_first(eng, st, c):
    s = sq(st, eng, c.args[0])
    n = seqlen(s)
    tup = opt_inner(eng, c.dty)
    ety = eng.types[eng.types[tup]['elems'][0]]['to']
    y, no = st.split(ge(sub(n, ONE)))
    out = []
    for t in y:
        if c.name.endswith('split_first'):
            e, r = eng.seqget(t, s, ZERO, ety), subseq(s, ONE, n, t)
        else:
            e, r = eng.seqget(t, s, sub(n, ONE), ety), subseq(s, ZERO, sub(n, ONE), t)
        out.append((t, some(eng, c.dty, mk('adt', tup, 0, mk('ref', e), mk('ref', r)))))
    return out + [(t, none(eng, c.dty)) for t in no]


@model(*ints('abs_diff'))
def m_abs_diff(eng, st, c):
    a, b = c.args
    y, n = st.split(ge(sub(a, b)))
    return [(t, sub(a, b)) for t in y] + [(t, sub(b, a)) for t in n]


@model('std::iter::ExactSizeIterator::len')
def m_exact_len(eng, st, c):
    v = deref(st, eng, c.args[0])
    v = norm_it(eng, st, v, c)
    while v.op == 'it' and v.a[0] in ('rev', 'map', 'copied', 'enumerate', 'peekable'):
        v = v.a[1]
    if v.op == 'it' and v.a[0] in ('slice', 'vals', 'range', 'windows', 'chunks'):
        return [(st, sub(v.a[-1], v.a[-2]))]
    return None


@model('std::vec::Vec::<T, A>::split_off')
def m_split_off(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    s = eng.load(st, cell, path)
    k = c.args[1]
    y, n = st.split(ge(sub(seqlen(s), k)))
    out = []
    for t in y:
        cut(eng, t, c, s, (k,))
        t = t.copy()
        eng.store(t, cell, path, subseq(s, ZERO, k, t))
        out.append((t, subseq(s, k, seqlen(s), t)))
    for t in n:
        eng.panic(c.fr, t, 'split_off out of range', c.sp)
    return out


@model('std::io::Write::write', 'core::io::impls::<impl std::io::Write for &mut W>::write')
def m_write_some(eng, st, c):
    """a single write may take only part of the bytes"""
    s = sq(st, eng, c.args[1])
    n = seqlen(s)
    k = atom(mk('wrote', s, c.path, -1), 0, MAXLEN)
    out = []
    for t, g in emit(eng, st, c.args[0], (), c.path):
        for u in t.assume(ge(sub(n, k))):
            y, no = u.split(eq0(sub(n, k)))
            for w in y + no:
                w = w.copy()
                cell, p = target(w, eng, c.args[0])
                cur = eng.load(w, cell, p)
                eng.store(w, cell, p, seq(*(cur.a + subseq(s, ZERO, k, w).a)))
                out.append((w, ok(eng, c.dty, k)))
    if eng.fail and st.fail is None:
        f = st.copy()
        f.fail = eng.path_where(c.path)
        out.append((f, result_of(eng, c.dty, False)))
    return out


@model('std::slice::<impl [T]>::concat')
def m_concat(eng, st, c):
    """of `&str` or `&[u8]`; the element type only matters for the shape"""
    inner = 'str' if is_text(eng, c.dty) else '[u8]'
    ety = next((i for i, t in enumerate(eng.types) if t['k'] == 'ref' and eng.types[t['to']]['s'] == inner), None)
    s = sq(st, eng, c.args[0])
    if ety is None:
        return None

    def step(u, ids, x):
        u = u.copy()
        u.cells[ids[0]] = seq(*(u.cells[ids[0]].a + sq(u, eng, x).a))
        return [(u, 'go')]
    return [(t, av[0]) for t, tg, av in drain(eng, st, it('slice', s, ety, ZERO, seqlen(s)), c.path, 'cc', [seq()], step)]


@model('std::mem::swap', 'std::intrinsics::typed_swap_nonoverlapping', 'core::intrinsics::typed_swap_nonoverlapping')
def m_mem_swap(eng, st, c):
    st = st.copy()
    (c1, p1), (c2, p2) = target(st, eng, c.args[0]), target(st, eng, c.args[1])
    x, y = eng.load(st, c1, p1), eng.load(st, c2, p2)
    eng.store(st, c1, p1, y)
    eng.store(st, c2, p2, x)
    return [(st, unitv(eng, c.dty))]


@model('std::mem::replace')
def m_mem_replace(eng, st, c):
    st = st.copy()
    cell, path = target(st, eng, c.args[0])
    x = eng.load(st, cell, path)
    eng.store(st, cell, path, c.args[1])
    return [(st, x)]
