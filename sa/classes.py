"""C18: two lines get the same number exactly when they are the same bytes."""
from sa.obl import *
from sa.apply import feasible, guarded
from sa.mergetab import Notes, case
from sa.opts import call_cut, need_call, whole_of
from sa.rows import rounds

CUTS = {('DiffOptions', 'diff_slice'): call_cut('diff_slice'), ('diff::to_hunks',): call_cut('to_hunks')}
MCUTS = {('DiffOptions', 'diff_slice'): call_cut('diff_slice'), ('merge::merge_solutions',): call_cut('merge_solutions'),
         ('merge::diff3_range_to_merge_range',): call_cut('ranges'), ('merge::cleanup_conflicts',): call_cut('cleanup', 0),
         ('merge::output_result',): call_cut('output')}


def run_c18(p, rep):
    o = Obl(p, rep)
    for k in o.find('numbering the lines of a text', "diffy::utils::Classifier::<'a, T>::classify_lines", has=()):
        guarded(o, k, numbering)
    for n, own, bound in (('create_patch_str', 0, 2), ('create_patch_u8', 0, 2), ('diff_options_create_patch', 1, 2), ('diff_options_create_patch_bytes', 1, 2)):
        k = o.root(n)
        if k:
            guarded(o, k, few(diff_texts, CUTS, own, bound))
    for n, own in (('merge_str', 0), ('merge_u8', 0), ('merge_options_merge', 1), ('merge_options_merge_bytes', 1)):
        k = o.root(n)
        if k:
            guarded(o, k, few(merge_texts, MCUTS, own, 1))
    o.done()


# ---------------------------------------------------------------- the first lines of every text, exactly
def few(pairs, cuts, own, bound):
    def run(o, key):
        o.n['functions'].add(o.d.name(key))
        o.n['classes'] += 1
        for b in range(bound, 0, -1):
            r = o.d.run(key, cuts=cuts_for(o.p, cuts), bound=b)
            if not (r.error and 'udget' in str(r.error)):
                break
        if r.error or r.unknown:
            o.rep.unk('%s: %s' % (o.d.name(key), r.error or sorted(r.unknown)))
            return
        o.n['paths'] += len(r.paths)
        note = Notes(o, key)
        eng = r.eng
        for q in r.panics:
            note('no panic', 'ne' if exact(q.st) and feasible(q.st) else '?', 'panics (%s): %s' % (q.why, case(eng, q.st)))
        for q in r.paths:
            if not feasible(q.st):
                continue
            ts = pairs(eng, q, own)
            texts = eng.args[own:]
            for (what, ids), text in zip(ts, texts):
                one_text(eng, q.st, dref(text), ids, what, note)
            across(eng, q.st, ts, [dref(x) for x in texts], note)
        note.report()
    return run


def diff_texts(eng, q, own):
    from sa.opts import field
    _, _, sol, _ = need_call(field(eng, q.st, q.val, 'hunks'), 'to_hunks')
    _, i1, i2 = need_call(sol, 'diff_slice')
    return [('old text', dref(i1)), ('new text', dref(i2))]


def merge_texts(eng, q, own):
    args = need_call(need_call(q.val, 'output')[3], "cleanup'")
    sols, = need_call(args[0], 'ranges')
    s1, s2 = need_call(sols, 'merge_solutions')
    _, x, y = need_call(s1, 'diff_slice')
    _, z, w = need_call(s2, 'diff_slice')
    if dref(z) is not dref(x):
        raise Unsupported('two numberings of the ancestor')
    return [('ancestor', dref(x)), ('our text', dref(y)), ('their text', dref(w))]


def split_lines(eng, st, s):
    """the lines of a text of few lines in a state that knows them all: [terms], or None"""
    from sa.models import find_in
    out = []
    n = seqlen(s)
    at = ZERO
    for _ in range(8):
        if st.decide(eq0(sub(n, at))) is True:
            return out
        if st.decide(eq0(sub(n, at))) is not False:
            return None
        rest = subseq(s, at, n, st)
        h = st.decide(mk('has', rest, b'\n'))
        if h is False:
            out.append(rest)
            return out
        if h is not True:
            return None
        e = add(add(at, find_atom(rest)), ONE)
        out.append(subseq(s, at, e, st))
        at = e
    return None


def find_atom(rest):
    return atom(mk('find', rest, b'\n'), 0, MAXLEN)


def one_text(eng, st, text, ids, what, note):
    k = 'one number per line, in order'
    ls = split_lines(eng, st, text)
    if ls is None or ids.op != 'seq' or not all(q.op == 'el1' for q in ids.a):
        note(k, '?', 'the numbers of the %s are %s' % (what, short(eng, ids)))
        return
    note(k, 'eq' if len(ls) == len(ids.a) else ('ne' if exact(st) else '?'),
         'the %s has %d lines and gets %d numbers (%s)' % (what, len(ls), len(ids.a), case(eng, st)))


def across(eng, st, ts, texts, note):
    all_ = []
    for (what, ids), t in zip(ts, texts):
        ls = split_lines(eng, st, t)
        if ls is None or ids.op != 'seq' or len(ls) != len(ids.a):
            return
        all_ += [('line %d of the %s' % (i + 1, what), l, q.a[0]) for i, (l, q) in enumerate(zip(ls, ids.a)) if q.op == 'el1']
    from sa.models import seq_eq
    k = 'the same number exactly for the same bytes'
    ls = list(dict.fromkeys(l for _, l, _ in all_))
    for i in range(len(all_)):
        for j in range(i):
            (na, la, x), (nb, lb, y) = all_[j], all_[i]
            for s in sum(st.split(seq_eq(st, eng, la, lb)), []):
                cl = same_lines(eng, s, ls)
                if cl is None or not feasible(s):
                    continue
                eqv = cl[la] == cl[lb]
                d = s.decide(eq0(sub(x, y))) if x.op == y.op == 'lin' else None
                if d is eqv:
                    note(k, 'eq', '')
                elif d is None:
                    note(k, '?', '%s and %s get %s and %s (%s)' % (na, nb, short(eng, x), short(eng, y), case(eng, s)))
                else:
                    note(k, 'ne' if exact(s, x, y) else '?', '%s and %s are %s, their numbers are %s and %s (%s)' % (
                        na, nb, 'the same' if eqv else 'different', short(eng, x), short(eng, y), case(eng, s)))


def same_lines(eng, st, ls):
    """{line: class}, or None where what is known of equal lines contradicts itself"""
    from sa.models import seq_eq
    rel = {(a, b): st.decide(seq_eq(st, eng, a, b)) for a in ls for b in ls if a is not b}
    cl = {l: i for i, l in enumerate(ls)}
    for (a, b), d in rel.items():
        if d is True and cl[a] != cl[b]:
            x, y = cl[a], cl[b]
            cl = {l: x if c == y else c for l, c in cl.items()}
    if any(d is False and cl[a] == cl[b] for (a, b), d in rel.items()):
        return None
    return cl


# ---------------------------------------------------------------- any number of lines
def numbering(o, key):
    r = o.run(key, 'any text, any lines numbered before')
    if r is None:
        return
    eng = r.eng
    note = Notes(o, key)
    text = dref(eng.args[1])
    base = text.a[0].a[0] if text.op == 'seq' and len(text.a) == 1 else None
    rds = rounds(eng)
    if base is None or not rds:
        raise Unsupported('no loop over the lines')
    for q in r.panics:
        # running out of 2^64 numbers is not a concern
        if any(x.op in ('h', 'fld', 'in') and f.op == 'lin' and abs(f.a[0]) >= 2 ** 63 for f in q.st.lin for x in mentions(f)):
            continue
        note('no panic', '?', 'panics (%s): %s' % (q.why, case(eng, q.st)))
    seen = 0
    for rd in rds:
        x = position(rd, base)
        if x is None:
            continue
        seen += 1
        check_rounds(eng, rd, x, base, note, start_values(o, key), r.panics)
        at_exit(eng, r, rd, x, base, note)
    if not seen:
        raise Unsupported('no loop over the lines')
    note.report()


def position(rd, base):
    """the position up to which the text is consumed: an atom that starts at 0"""
    out = []
    for x, _ in rd.nums():
        for v in rd.part.cells.values():
            for t in mentions(v):
                if t.op == 'sub' and t.a[0] is base and x in mentions(t.a[1]):
                    out.append(x)
    out = list(dict.fromkeys(out))
    return atom(out[0], 0, MAXLEN) if len(out) == 1 else None


def lists_of(rd):
    """the two growing lists: (lines, numbers)"""
    ls = {}
    for i, kind, st, g in rd.rows:
        if kind != 'back':
            continue
        af = rd.after(st)
        for s in rd.seqs():
            gain = rd.suffix(s, af[s]) if s in af else None
            if gain is not None and gain.a:
                ls.setdefault(s, []).append(gain)
    lines = [s for s, gs in ls.items() if all(len(g.a) == 1 and g.a[0].op == 'el1' and dref(g.a[0].a[0]).op == 'seq' for g in gs)]
    nums = [s for s, gs in ls.items() if all(len(g.a) == 1 and g.a[0].op == 'el1' and g.a[0].a[0].op == 'lin' for g in gs)]
    if len(lines) != 1 or len(nums) != 1:
        raise Unsupported('the lists of lines and numbers')
    return lines[0], nums[0]


def maps_in(rd):
    """cells holding a map: {map term at the head}"""
    out = []
    for path, (x, k) in rd.part.atoms.items():
        if k == 'opq':
            out.append(x)
    return out


def check_rounds(eng, rd, x, base, note, start, panics):
    ll, nn = lists_of(rd)
    n = atom(mk('len', base), 0, MAXLEN)
    counters = [a for a, _ in rd.nums()]
    fresh, known = [], []
    for i, kind, st, g in rd.rows:
        if kind != 'back' or not feasible(st):
            continue
        af = rd.after(st)
        rest = subseq(whole(base), x, n, st)
        h = st.decide(mk('has', rest, b'\n'))
        if h is None:
            raise Unsupported('where a line ends')
        e = add(add(x, find_atom(rest)), ONE) if h else n
        line = subseq(whole(base), x, e, st)
        k1 = 'every line is listed whole, in order'
        gl, gn = rd.suffix(ll, af[ll]), rd.suffix(nn, af[nn])
        if gl is None or gn is None or len(gl.a) != 1 or len(gn.a) != 1:
            note(k1, '?', 'a round lists %s and %s' % (short(eng, af[ll]), short(eng, af[nn])))
            continue
        got = dref(gl.a[0].a[0])
        note(k1, same(st, got, line) if same(st, got, line) == 'eq' else '?', 'it lists %s instead of %s' % (short(eng, got), short(eng, line)))
        px = next((v for a, v in af.items() if atom(a, 0, MAXLEN) is x), None)
        ok = px is not None and (st.decide(eq0(sub(px, e))) is True)
        if not ok:
            # the rest of the text may be kept as an empty text at the end
            ok = st.decide(eq0(sub(e, n))) is True
        note('after a line comes the next one', 'eq' if ok else '?', 'the search goes on at %s instead of %s' % (short(eng, px) if px else '?', short(eng, e)))
        v = gn.a[0].a[0]
        old = [a for a in maps_in(rd)]
        new = {a: af.get(a) for a in old}
        number(eng, rd, st, line, v, old, new, counters, af, note, fresh, known)
    simulate(eng, rd, x, base, start, note, panics)
    if not fresh:
        note('a new line gets a number of its own', '?', 'no round gives a new number')
    # the counter never goes back
    cs = {c for c in fresh}
    if len(cs) == 1:
        c, = cs
        for st, after in known:
            d = st.decide(ge(sub(value_after(after, c), c))) if c.op == 'lin' else None
            note('numbers never come back', 'eq' if d is True else '?', 'the next number goes from %s to %s' % (short(eng, c), short(eng, value_after(after, c))))
    elif cs:
        note('a new line gets a number of its own', '?', 'new numbers come from %s' % ', '.join(short(eng, c) for c in cs))


def value_after(after, c):
    for a, v in after.items():
        if v.op == 'lin' and a in mentions(c):
            return v
    return c


def number(eng, rd, st, line, v, old, new, counters, af, note, fresh, known):
    k2, k3 = 'a line met before gets the number it had', 'a new line gets a number of its own'
    hv = [t for t in mentions(v) if t.op == 'hmval']
    if len(hv) == 1 and v is atom(hv[0], 0, 2 ** 64 - 1):
        m, key = hv[0].a
        good = m in old and same(st, key, line) == 'eq'
        if m in old and key.op == 'lin' and feasible(st) and not any(
                v_ and f.op in ('seqeq', 'same') and line in mentions(f) for f, v_ in st.lits.items()):
            # more lines than numbers of that kind: two different lines share one
            note(k2, 'ne', 'it is looked up by a number made from it (%s), which other lines have as well' % short(eng, key))
            return
        if not good and m in old and shorter(st, key, line):
            note(k2, 'ne' if feasible(st) else '?', 'it looks up %s instead of %s' % (short(eng, key), short(eng, line)))
            return
        w = new.get(m)
        keep = w is m or (w is not None and w.op == 'hmins' and w.a[0] is m and same(st, w.a[1], line) == 'eq' and w.a[2] is v)
        note(k2, 'eq' if good and keep else '?', 'it gets %s, the table becomes %s' % (short(eng, v), short(eng, w) if w is not None else '?'))
        known.append((st, af))
        return
    ins = [(m, w) for m, w in new.items() if w is not None and w is not m]
    if len(ins) != 1:
        ms = [m for m in old if eng.types[m.a[-1]]['k'] == 'adt' and eng.types[m.a[-1]]['name'] in eng.ATOMIC] if all(isinstance(m.a[-1], int) and m.a[-1] >= 0 for m in old) else []
        note(k2, '?', 'a new line is not remembered (number %s)' % short(eng, v))
        return
    m, w = ins[0]
    if w.op != 'hmins' or w.a[0] is not m:
        note(k3, '?', 'the table becomes %s' % short(eng, w))
        return
    if same(st, w.a[1], line) != 'eq':
        note(k2, 'ne' if shorter(st, w.a[1], line) and feasible(st) else '?', 'it is remembered as %s instead of %s' % (short(eng, w.a[1]), short(eng, line)))
        return
    if st.decide(eq0(sub(w.a[2], v))) is not True:
        note(k2, 'ne' if st.decide(eq0(sub(w.a[2], v))) is False else '?', 'it gets %s, but %s is remembered' % (short(eng, v), short(eng, w.a[2])))
        return
    from sa.maps import has
    new_line = st.decide(has(st, eng, m, line)) is False
    if any(t.op == 'hmlen' and t.a[0] is m for t in mentions(v)) and v is atom(mk('hmlen', m), 0, MAXLEN):
        note(k3, 'eq' if new_line else '?', 'the number %s is given to a line that may be known' % short(eng, v))
        fresh.append(v)
        return
    c = [a for a in counters if a in mentions(v)]
    if len(c) != 1:
        note(k3, '?', 'the number is %s' % short(eng, v))
        return
    ca = mk('lin', 0, ((c[0], 1),))
    nxt = af.get(c[0])
    first = st.decide(ge(sub(v, ca)))
    later = st.decide(ge(sub(sub(nxt, v), ONE))) if nxt is not None else None
    if later is False and new_line:
        note(k3, 'ne', 'the number %s is given again to the next new line' % short(eng, v))
    else:
        note(k3, 'eq' if first is True and later is True and new_line else '?', 'the number is %s, the next one %s' % (short(eng, v), short(eng, nxt) if nxt else '?'))
    fresh.append(ca)


def start_values(o, key):
    """the fields of a fresh classifier"""
    for k in o.d.find("<diffy::utils::Classifier<'_, T> as std::default::Default>::default"):
        r = o.d.run(k)
        if not r.error and not r.unknown and len(r.paths) == 1 and r.paths[0].val.op == 'adt':
            return r.paths[0].val.a[2:]
    return ()


def value(t, env):
    """a number, given those of some atoms; None if it depends on more"""
    if t.op == 'lin':
        s = t.a[0]
        for x, k in t.a[1]:
            v = env.get(x)
            if v is None:
                v = value(x, env)
                if v is None:
                    return None
            s += k * v
        return s
    if t.op in ('div', 'trunc', 'bitand'):
        x = value(t.a[0], env)
        if x is None:
            return None
        if t.op == 'trunc':
            lo, hi = t.a[1], t.a[2]
            return (x - lo) % (hi - lo + 1) + lo
        y = value(t.a[1], env)
        if y is None or (t.op == 'div' and y <= 0):
            return None
        return x // y if t.op == 'div' else x & y
    return None


def truth(f, env):
    if f.op == 'not':
        v = truth(f.a[0], env)
        return None if v is None else not v
    if f.op in ('ge', 'eq0'):
        v = value(f.a[0], env)
        return None if v is None else (v >= 0 if f.op == 'ge' else v == 0)
    if f.op in ('and', 'or'):
        vs = [truth(x, env) for x in f.a]
        if f.op == 'and':
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    return None


STEPS = 70000


def simulate(eng, rd, x, base, start, note, eng_panics):
    """the numbers given to one new terminated line after the other, from a fresh classifier on"""
    ll, nn = lists_of(rd)
    n = atom(mk('len', base), 0, MAXLEN)
    names = {path: a for path, (a, k) in rd.part.atoms.items() if k == 'num' and path[0] == ('in', 'a0') and len(path) == 2}
    env0 = {a: start[path[1]].a[0] for path, a in names.items() if path[1] < len(start) and isnum(start[path[1]])}
    rows = []
    for i, kind, st, g in rd.rows:
        if kind != 'back' or not feasible(st):
            continue
        rest = subseq(whole(base), x, n, st)
        if st.decide(mk('has', rest, b'\n')) is not True:
            continue
        af = rd.after(st)
        gn = rd.suffix(nn, af[nn])
        if gn is None or len(gn.a) != 1 or gn.a[0].a[0].op != 'lin':
            return
        v = gn.a[0].a[0]
        if any(t.op in ('hmval', 'hmlen') for t in mentions(v)):
            continue
        kept = any(w is not None and w.op == 'hmins' and w.a[0] is m for m, w in ((m, af.get(m)) for m in maps_in(rd)))
        # what else the round depends on: a row that needs special lines is no step of this history
        conds = [f for f in g if any(a in mentions(f) for a in names.values())]
        line = subseq(whole(base), x, add(add(x, find_atom(rest)), ONE), st)
        special = [f for f in g if f not in conds and f.op in ('eq0', 'seqeq', 'el') or (f.op == 'not' and f.a[0].op not in ('eq0', 'seqeq'))]
        rows.append((conds, v, {a: af.get(a) for a in names.values()}, kept, len(special)))
    if not rows or not env0:
        return
    least = min(r[4] for r in rows)
    rows = [r for r in rows if r[4] == least]
    used, env = set(), dict(env0)
    for step in range(STEPS):
        hit = [r for r in rows if all(truth(f, env) is not False for f in r[0])]
        res = {(value(v, env), tuple(value(w, env) if w is not None else None for w in nx.values()), kept) for _, v, nx, kept, _ in hit}
        if not hit and eng_panics:
            note('no panic', 'ne', 'new line number %d panics: no number is left' % (step + 1))
        if len(res) != 1:
            return
        (v, nx, kept), = res
        if v is None or None in nx:
            return
        if v in used:
            note('a new line gets a number of its own', 'ne', 'new line number %d gets the number %d, which another line has' % (step + 1, v))
            return
        if not kept:
            note('a line met before gets the number it had', 'ne', 'new line number %d gets the number %d, which is not remembered' % (step + 1, v))
            return
        used.add(v)
        env = dict(zip(names.values(), nx))


def shorter(st, key, line):
    """the key is a proper part of the line, which depends on its content"""
    if key.op != 'seq' or len(key.a) != 1 or line.op != 'seq' or len(line.a) != 1 or key.a[0].op != 'sub' or line.a[0].op != 'sub' or key.a[0].a[0] is not line.a[0].a[0]:
        return False
    return st.decide(ge(sub(sub(seqlen(line), seqlen(key)), ONE))) is True


def at_exit(eng, r, rd, x, base, note):
    ll, nn = lists_of(rd)
    n = atom(mk('len', base), 0, MAXLEN)
    k = 'the whole text, nothing before or after'
    for p in r.paths:
        if not feasible(p.st):
            continue
        v = p.val
        if v.op != 'adt' or len(v.a) != 4:
            raise Unsupported('the result')
        used = [rd2 for rd2 in (rd,) if any(t is ll or t is nn for t in mentions(v))]
        if not used:
            continue
        good = v.a[2] is whole(ll) and v.a[3] is whole(nn)
        end = p.st.decide(eq0(sub(n, x)))
        note(k, 'eq' if good and end is True else '?', 'it ends at %s with %s' % (short(eng, x), short(eng, v)))
    # the lists are empty before the first line and the text is untouched
    st0, L = rd.rec.st0, rd.L
    first = rd.L.match(rd.part, {c: st0.cells[c] for c in rd.part.cells if c in st0.cells}) if rd.part is rd.rec.parts[0] else None
    if first:
        for s in (ll, nn):
            note(k, 'eq' if s in first and first[s].op == 'seq' and not first[s].a else '?', 'a list starts as %s' % (short(eng, first[s]) if s in first else '?'))
        px = next((w for a, w in first.items() if atom(a, 0, MAXLEN) is x), None)
        note(k, 'eq' if px is not None and st0.decide(eq0(px)) is True else '?', 'the first line starts at %s' % (short(eng, px) if px is not None else '?'))
