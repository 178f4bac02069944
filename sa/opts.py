"""C04: options mean what their documentation says, and every argument goes where it belongs."""
from sa.obl import *


def call_cut(tag, state=None):
    """summary: an opaque function of its arguments; `state` names a &mut argument that it updates"""
    def f(eng, st, c):
        vals = []
        cell = None
        for i, v in enumerate(c.args):
            if i == state:
                cell = models.target(st, eng, v)
                v = eng.load(st, *cell)
            vals.append(deep(eng, st, v))
        if cell is not None:
            st = st.copy()
            old = eng.load(st, *cell)
            if old.op == 'seq':
                new = whole(mk('call', tag + "'", *vals, -1))
            else:
                ty = eng.tyof(old)
                new = mk('call', tag + "'", *vals, -1 if ty is None else ty)
            eng.store(st, cell[0], cell[1], new)
        return [(st, eng.mat(mk('call', tag, *vals, c.dty), c.dty))]
    return f


def deep(eng, st, v):
    while v.op in ('ref', 'mref'):
        v = v.a[0] if v.op == 'ref' else eng.load(st, v.a[0], v.a[1])
    return strip_refs(v)


def origin(v):
    """the opaque call a value is (a field of)"""
    while True:
        v = dref(v)
        if v.op == 'seq' and len(v.a) == 1 and v.a[0].op == 'sub':
            v = v.a[0].a[0]
        elif v.op == 'fld':
            v = v.a[0]
        elif v.op == 'deref':
            v = v.a[0]
        elif v.op == 'lin' and len(v.a[1]) == 1 and v.a[0] == 0:
            v = v.a[1][0][0]
        elif v.op == 'p':
            v = v.a[0]
        else:
            return v


def whole_of(v):
    """a sequence value that is one whole opaque sequence"""
    return v.op == 'seq' and len(v.a) == 1 and v.a[0].op == 'sub' and v.a[0].a[1] is ZERO and \
        v.a[0].a[2] is atom(mk('len', v.a[0].a[0]), 0, MAXLEN)


def need_call(v, tag):
    c = origin(v)
    if c.op != 'call' or c.a[0] != tag:
        raise Unsupported('not a result of %s' % tag)
    return c.a[1:-1]


def field_no(v):
    """which component of the pair returned by classify_lines"""
    v = dref(v)
    if v.op == 'seq' and len(v.a) == 1 and v.a[0].op == 'sub':
        v = v.a[0].a[0]
    return v.a[2] if v.op == 'fld' else None


def classified(eng, what, v, part, text, res):
    """v are the lines (part 0) or line numbers (part 1) of the given text"""
    a = need_call(v, 'classify')
    if not whole_of(dref(v)):
        raise Unsupported('%s: part of the lines' % what)
    res.append((what, a[1], text))
    if field_no(v) != part:
        raise Unsupported('%s: lines and numbers mixed up' % what)
    return a


CLASSIFY = {('utils::Classifier', 'classify_lines'): call_cut('classify', 0)}


def run_c04(p, rep):
    o = Obl(p, rep)
    defaults(o)
    setters(o)
    accessors(o)
    diff_wiring(o)
    merge_wiring(o)
    o.done()


def one_path(o, key, label, **kw):
    r = o.run(key, label, **kw) if key else None
    if r is None or len(r.paths) != 1:
        if r is not None:
            o.rep.unk('%s: %d paths' % (o.d.name(key), len(r.paths)))
        return None
    return r, r.paths[0]


def cow(eng, v):
    """the text in a (possibly optional) Cow"""
    v = dref(v)
    if v.op == 'adt' and vname(eng, v) in ('Some', 'Borrowed', 'Owned'):
        return cow(eng, v.a[2])
    return v


def field(eng, st, v, *names):
    """a field under any of the names it may have"""
    for n in names:
        try:
            return get(eng, st, v, n)
        except Unsupported:
            continue
    raise Unsupported('field %s' % names[0])


DIFF_FIELDS = ('context_len', 'original_filename', 'modified_filename', 'compact')
MERGE_FIELDS = ('conflict_marker_length', 'style')
FMT_FIELDS = ('with_color', 'with_missing_newline_message', 'suppress_blank_empty')


def defaults(o):
    def diff(eng, p):
        v = p.val
        return [('context lines', field(eng, p.st, v, 'context_len'), num(3)),
                ('name of the old file', cow(eng, field(eng, p.st, v, 'original_filename')), lit(b'original')),
                ('name of the new file', cow(eng, field(eng, p.st, v, 'modified_filename')), lit(b'modified'))]

    def merge(eng, p):
        v = p.val
        return [('conflict marker length', field(eng, p.st, v, 'conflict_marker_length'), num(7)),
                ('conflict style', vname(eng, field(eng, p.st, v, 'style')), 'Diff3')]

    def fmt(eng, p):
        v = p.val
        return [('colour', field(eng, p.st, v, 'with_color'), FALSE),
                ('no-newline message', field(eng, p.st, v, 'with_missing_newline_message'), TRUE),
                ('blank context lines without sign', field(eng, p.st, v, 'suppress_blank_empty'), TRUE)]
    for spec, names in ((diff, ('diff_options_new', 'diff_options_default')), (merge, ('merge_options_new', 'merge_options_default')),
                        (fmt, ('formatter_new', 'formatter_default'))):
        for n in names:
            k = o.root(n)
            if k:
                o.expect(k, 'defaults', spec)


def setters(o):
    table = [('set_context_len', 'context_len', DIFF_FIELDS), ('set_original_filename', 'original_filename', DIFF_FIELDS),
             ('set_modified_filename', 'modified_filename', DIFF_FIELDS),
             ('set_conflict_marker_length', 'conflict_marker_length', MERGE_FIELDS), ('set_conflict_style', 'style', MERGE_FIELDS)]
    for n, fld, all_ in table:
        k = o.root(n)
        if not k:
            continue

        def spec(eng, p, fld=fld, all_=all_):
            v = p.out
            if v is None:
                raise Unsupported('options not found')
            res = [(fld, cow(eng, field(eng, p.st, v, fld)), cow(eng, eng.args[1]))]
            if p.val.op != 'mref' or p.val.a[0] != ('in', 'a0') or p.val.a[1] != ():
                raise Unsupported('does not return the options')
            old = eng.mat(mk('in', 'a0', eng.tyof(v)), eng.tyof(v))
            for f in all_:
                if f != fld:
                    try:
                        res.append(('%s stays' % f, field(eng, p.st, v, f), field(eng, p.st, old, f)))
                    except Unsupported:
                        pass
            return res
        o.expect(k, 'any value', spec)
    for n, fld, want in (('with_color', 'with_color', None), ('missing_newline_message', 'with_missing_newline_message', 1),
                         ('suppress_blank_empty', 'suppress_blank_empty', 1)):
        k = o.root(n)
        if not k:
            continue

        def spec(eng, p, fld=fld, want=want):
            w = TRUE if want is None else eng.args[want]
            old = eng.args[0]
            return [(fld, field(eng, p.st, p.val, fld), w)] + \
                [('%s stays' % f, field(eng, p.st, p.val, f), field(eng, p.st, old, f)) for f in FMT_FIELDS if f != fld]
        o.expect(k, 'any value', spec)


def accessors(o):
    def some_text(eng, p, v, path):
        """Option<Filename> as seen through the accessor"""
        src = field(eng, p.st, v, path)
        d = src.a[1] if src.op == 'adt' else p.st.disc.get(src)
        if d is None:
            raise Unsupported('name not examined')
        s = eng.types[eng.tyof(src)]['variants'][d]['name']
        res = [('present', vname(eng, p.val), s)]
        if vname(eng, p.val) == s == 'Some':
            c = get(eng, p.st, src, '?Some.0')
            c = get(eng, p.st, c, '0') if c.op in ('adt',) and vname(eng, c) == 'Filename' else c
            d2 = p.st.disc.get(c)
            if d2 is None:
                raise Unsupported('name not examined')
            res.append(('the name', dref(p.val.a[2]), dref(eng.expand(p.st, c, d2).a[2])))
        return res
    for n in ('original_str', 'original_u8', 'modified_str', 'modified_u8'):
        k = o.root(n)
        if k:
            o.expect(k, 'any patch', lambda eng, p, n=n: some_text(eng, p, eng.args[0], n.split('_')[0]))
    for n, path in (('hunks_str', 'hunks'), ('hunks_u8', 'hunks'), ('hunk_old_range', 'old_range'), ('hunk_old_range_u8', 'old_range'),
                    ('hunk_new_range', 'new_range'), ('hunk_new_range_u8', 'new_range'), ('hunk_lines', 'lines'),
                    ('hunk_lines_u8', 'lines'), ('hunk_function_context', 'function_context'),
                    ('hunk_function_context_u8', 'function_context'), ('range_start', 'start'), ('range_len', 'len')):
        k = o.root(n)
        if k:
            o.expect(k, 'any value', lambda eng, p, path=path: [(path, dref(p.val), field(eng, p.st, eng.args[0], path))])

    def rng(eng, p):
        return field(eng, p.st, eng.args[0], 'start'), field(eng, p.st, eng.args[0], 'len')
    k = o.root('range_end')
    if k:
        o.expect(k, 'any range', lambda eng, p: [('start + len', p.val, add(*rng(eng, p)))])
    k = o.root('range_range')
    if k:
        o.expect(k, 'any range', lambda eng, p: [('start', field(eng, p.st, p.val, 'start'), rng(eng, p)[0]),
                                                 ('end', field(eng, p.st, p.val, 'end'), add(*rng(eng, p)))])
    k = o.root('range_is_empty')
    if k:
        o.expect(k, 'any range', lambda eng, p: [('len == 0', p.val, eq0(rng(eng, p)[1]))])


def patch_names(eng, p, opts, res):
    for f in ('original', 'modified'):
        got, want = field(eng, p.st, p.val, f), field(eng, p.st, opts, f + '_filename')
        d = want.a[1] if want.op == 'adt' else p.st.disc.get(want)
        if d is None or got.op != 'adt':
            raise Unsupported('names not examined')
        res.append(('%s name present' % f, vname(eng, got), eng.types[eng.tyof(want)]['variants'][d]['name']))
        if vname(eng, got) == 'Some':
            w = get(eng, p.st, want, '?Some.0')
            g = get(eng, p.st, got, '?Some.0.0')
            dw = p.st.disc.get(w) if w.op != 'adt' else w.a[1]
            if dw is not None and g.op == 'adt':
                res.append(('%s name' % f, dref(g.a[2]), dref(eng.expand(p.st, w, dw).a[2] if w.op != 'adt' else w.a[2])))
            else:
                res.append(('%s name' % f, g, w))


def diff_wiring(o):
    cuts = cuts_for(o.p, {**CLASSIFY, ('DiffOptions', 'diff_slice'): call_cut('diff_slice'), ('diff::to_hunks',): call_cut('to_hunks')})
    for n, own in (('diff_options_create_patch', True), ('diff_options_create_patch_bytes', True),
                   ('create_patch_str', False), ('create_patch_u8', False)):
        k = o.root(n)
        if not k:
            continue

        def spec(eng, p, own=own):
            a = eng.args[1:] if own else eng.args
            res = []
            hunks = field(eng, p.st, p.val, 'hunks')
            l1, l2, sol, ctx = need_call(hunks, 'to_hunks')
            c1 = classified(eng, 'lines of the old text', l1, 0, dref(a[0]), res)
            c2 = classified(eng, 'lines of the new text', l2, 0, dref(a[1]), res)
            _, i1, i2 = need_call(sol, 'diff_slice')
            d1 = classified(eng, 'line numbers of the old text', i1, 1, dref(a[0]), res)
            d2 = classified(eng, 'line numbers of the new text', i2, 1, dref(a[1]), res)
            one_classifier([d1, d2], res)
            if own:
                res.append(('context lines', ctx, field(eng, p.st, eng.args[0], 'context_len')))
                patch_names(eng, p, eng.args[0], res)
            else:
                res.append(('context lines', ctx, num(3)))
                for f in ('original', 'modified'):
                    res.append(('%s name' % f, dref(get(eng, p.st, p.val, f + '.?Some.0.0').a[2]), lit(f.encode())))
            return res
        o.expect(k, 'any texts', spec, cuts=cuts)


def one_classifier(ds, res):
    """the numbers of all texts come from one classifier, fed one text after the other"""
    states = [d[0] for d in ds]
    for i, s in enumerate(states):
        if s.op == 'call' and s.a[0] == "classify'":
            continue
        # a fresh classifier: only the first text may meet it
        if any(j != i and t is s for j, t in enumerate(states)):
            res.append(('lines of all texts are numbered by one classifier', False, True))
            return
    res.append(('lines of all texts are numbered by one classifier', True, True))


def merge_wiring(o):
    cuts = cuts_for(o.p, {**CLASSIFY, ('DiffOptions', 'diff_slice'): call_cut('diff_slice'),
                          ('merge::merge_solutions',): call_cut('merge_solutions'),
                          ('merge::diff3_range_to_merge_range',): call_cut('ranges'),
                          ('merge::cleanup_conflicts',): call_cut('cleanup', 0),
                          ('merge::output_result',): call_cut('output')})
    for n, own in (('merge_options_merge', True), ('merge_options_merge_bytes', True), ('merge_str', False), ('merge_u8', False)):
        k = o.root(n)
        if not k:
            continue

        def spec(eng, p, own=own):
            a = [dref(x) for x in (eng.args[1:] if own else eng.args)]
            res = []
            la, lo, lt, mr, ml, style = need_call(p.val, 'output')
            for what, l, i in (('ancestor', la, 0), ('our', lo, 1), ('their', lt, 2)):
                classified(eng, '%s lines' % what, l, 0, a[i], res)
            args = need_call(mr, "cleanup'")
            sols, = need_call(args[0], 'ranges')
            s1, s2 = need_call(sols, 'merge_solutions')
            ids = []
            for what, s, i in (('our', s1, 1), ('their', s2, 2)):
                opts, x, y = need_call(s, 'diff_slice')
                ids.append(classified(eng, '%s changes: the ancestor' % what, x, 1, a[0], res))
                ids.append(classified(eng, '%s changes: the text' % what, y, 1, a[i], res))
            uniq = {d[1]: d for d in ids}
            if len(uniq) == 3:
                one_classifier(list(uniq.values()), res)
            if own:
                res.append(('conflict marker length', ml, field(eng, p.st, eng.args[0], 'conflict_marker_length')))
                res.append(('conflict style', style, field(eng, p.st, eng.args[0], 'style')))
            else:
                res.append(('conflict marker length', ml, num(7)))
                res.append(('conflict style', vname(eng, style), 'Diff3'))
            return res
        o.expect(k, 'any texts', spec, cuts=cuts)
