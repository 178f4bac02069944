"""C05/C06: what the formatter emits, byte by byte, for every patch and every formatter setting."""
from sa.obl import *

MSG = b'\\ No newline at end of file\n'
SIGN = {'Context': b' ', 'Delete': b'-', 'Insert': b'+'}


def no_ansi(s):
    return seq(*[q for q in s.a if not is_ansi(q)])


def is_ansi(q):
    return q.op == 'disp' and any(isinstance(x, T) and x.op == 'ansi' for x in q.a)


def ansi_ok(s):
    """colour sequences come in matching prefix/suffix pairs, and nothing is coloured twice"""
    cur = None
    for q in s.a:
        if is_ansi(q):
            a = next(x for x in q.a if isinstance(x, T) and x.op == 'ansi')
            if a.a[0] == 'prefix':
                if cur is not None:
                    return False
                cur = a.a[1]
            else:
                if cur is not a.a[1]:
                    return False
                cur = None
    return cur is None


def text_of(v):
    while v.op == 'ref':
        v = v.a[0]
    return v


def flag(eng, st, f, name):
    return get(eng, st, f, name)


FLAGS = ('with_color', 'suppress_blank_empty', 'with_missing_newline_message')


def flag_classes(eng, st, f):
    """all settings of the formatter"""
    out = [(st, ())]
    for n in FLAGS:
        b = flag(eng, st, f, n)
        nxt = []
        for s, lab in out:
            for v in (True, False):
                for t in s.assume(b if v else neg(b)):
                    nxt.append((t, lab + ((n, v),)))
        out = nxt
    return out


def line_spec(eng, st, f, line):
    """the plain bytes of a line, or None when the class does not fix them"""
    var = st.disc.get(line) if line.op != 'adt' else line.a[1]
    if var is None:
        return None
    a = eng.expand(st, line, var) if line.op != 'adt' else line
    name = vname(eng, a)
    x = text_of(a.a[2])
    sup = st.decide(flag(eng, st, f, 'suppress_blank_empty'))
    mnm = st.decide(flag(eng, st, f, 'with_missing_newline_message'))
    ew = st.decide(mk('ew', x, b'\n'))
    nl = st.decide(mk('seqeq', x, b'\n'))
    if None in (sup, mnm, ew, nl):
        return None
    sign = b'' if sup and name == 'Context' and nl else SIGN[name]
    tail = b'' if ew else b'\n' + (MSG if mnm else b'')
    return seq(*(lit(sign).a + x.a + lit(tail).a))


def line_classes(eng, st, line):
    """partition of the lines: kind, and how the text ends"""
    t = eng.types[eng.tyof(line)]
    for i, v in enumerate(t['variants']):
        s = st.copy()
        s.disc[line] = i
        a = eng.expand(s, line, i)
        x = text_of(a.a[2])
        for lab, fs in (('"\\n"', [mk('seqeq', x, b'\n')]),
                        ('text ending in \\n', [neg(mk('seqeq', x, b'\n')), mk('ew', x, b'\n')]),
                        ('empty text', [mk('seqeq', x, b'')]),
                        ('text without final \\n', [neg(mk('seqeq', x, b'')), neg(mk('seqeq', x, b'\n')),
                                                    neg(mk('ew', x, b'\n'))])):
            for u in assume_all(s, fs):
                yield u, '%s of %s' % (v['name'], lab)


def line_displays(o):
    ks = o.find('LineDisplay writer', "diffy::patch::format::LineDisplay::<'_, T>::write_into", least=1)
    return ks + o.find('LineDisplay Display', "<diffy::patch::format::LineDisplay<'_, str> as std::fmt::Display>::fmt")


def hunk_displays(o):
    ks = o.find('HunkDisplay writer', "diffy::patch::format::HunkDisplay::<'_, T>::write_into")
    return ks + o.find('HunkDisplay Display', "<diffy::patch::format::HunkDisplay<'_, str> as std::fmt::Display>::fmt")


def patch_displays(o):
    ks = o.find('PatchDisplay writer', "diffy::patch::format::PatchDisplay::<'_, T>::write_into")
    return ks + o.find('PatchDisplay Display', "<diffy::patch::format::PatchDisplay<'_, str> as std::fmt::Display>::fmt")


def fm(eng, st, args):
    return get(eng, st, args[0], 'f')


def check_line(o, key):
    probe = o.d.run(key, budget=60000)
    if probe.error and not probe.paths:
        o.rep.unk('%s: %s' % (o.d.name(key), probe.error))
        return

    def classes(eng, st, args):
        out = []
        f, line = fm(eng, st, args), get(eng, st, args[0], 'line')
        for s, fl in flag_classes(eng, st, f):
            for u, lab in line_classes(eng, s, line):
                out.append((u, fl, lab))
        return out
    # enumerate on a throw-away engine to know the labels, then run class by class
    labels = []
    from sa.engine import Engine
    eng0 = Engine(o.p)
    st0 = St()
    b = o.p.insts[key]['body']
    args0 = [o.d.arg(eng0, st0, 'a%d' % i, b['locals'][i + 1]) for i in range(b['argc'])]
    try:
        n = len(classes(eng0, st0, args0))
    except (Unsupported, KeyError, AttributeError, StopIteration) as e:
        o.rep.unk('%s: formatter state not recognised (%s)' % (o.d.name(key), e))
        return
    for i in range(n):
        lab = [None]

        def setup(eng, st, args, i=i):
            u, fl, l = classes(eng, st, args)[i]
            lab[0] = l + ''.join(', %s' % n for n, v in fl if v)
            return [u]

        def spec(eng, p):
            f, line = fm(eng, p.st, eng.args), get(eng, p.st, eng.args[0], 'line')
            want = line_spec(eng, p.st, f, line)
            color = p.st.decide(flag(eng, p.st, f, 'with_color'))
            if want is None:
                raise Unsupported('class not fixed')
            res = [('bytes apart from colour', no_ansi(p.out), want)]
            if color:
                res.append(('colour sequences paired', ansi_ok(p.out), True))
            else:
                res.append(('no colour sequence', any(is_ansi(q) for q in p.out.a), False))
            return res
        u = classes(eng0, st0, args0)[i]
        o.expect(key, u[2] + ''.join(', %s' % n for n, v in u[1] if v), spec, setup)


def run_c05(p, rep):
    o = Obl(p, rep)
    for k in line_displays(o):
        check_line(o, k)
    for k in hunk_displays(o):
        check_hunk(o, k)
    for k in patch_displays(o):
        check_patch(o, k)
    o.done()


def range_spec(eng, st, r):
    a, n = get(eng, st, r, 'start'), get(eng, st, r, 'len')
    one = st.decide(eq0(sub(n, ONE)))
    if one is None:
        return None
    d = (mk('disp', 'dec', a),)
    return d if one else d + (mk('lit', b','), mk('disp', 'dec', n))


def check_hunk(o, key):
    def spec(eng, p):
        st, out = p.st, p.out
        f, h = fm(eng, st, eng.args), get(eng, st, eng.args[0], 'hunk')
        color = st.decide(flag(eng, st, f, 'with_color'))
        lines = get(eng, st, h, 'lines')
        ro, rn = (range_spec(eng, st, get(eng, st, h, n)) for n in ('old_range', 'new_range'))
        fc = get(eng, st, h, 'function_context')
        if ro is None or rn is None:
            raise Unsupported('the header does not distinguish ranges of length 1')
        want = [mk('lit', b'@@ -'), *ro, mk('lit', b' +'), *rn, mk('lit', b' @@')]
        fcv = fc.a[1] if fc.op == 'adt' else st.disc.get(fc)
        if fcv is None:
            raise Unsupported('function context not examined')
        some = eng.types[eng.tyof(fc)]['variants'][fcv]['name'] == 'Some'
        if some:
            want += [mk('lit', b' '), *text_of(get(eng, st, fc, '?Some.0')).a]
        want += [mk('lit', b'\n')]
        empty = st.decide(eq0(seqlen(lines)))
        comps = [q for q in out.a if q.op == 'comp']
        i = next((i for i, q in enumerate(out.a) if q.op == 'comp'), len(out.a))
        head, tail = seq(*out.a[:i]), out.a[i:]
        res = [('hunk header apart from colour', no_ansi(head), seq(*want))]
        if color:
            res.append(('colour sequences paired', ansi_ok(head), True))
        elif color is False:
            res.append(('no colour sequence', any(is_ansi(q) for q in head.a), False))
        if not comps:
            if empty is not True:
                res.append(('lines of the hunk are written', empty is True, True)
                           if exact(st, out) else ('lines of the hunk are written', mk('unk', 'x', -1), mk('unk', 'y', -1)))
            return res
        if len(tail) != 1 or tail[0].op != 'comp':
            raise Unsupported('shape of the output')
        lo, hi, rows = tail[0].a
        res.append(('first line written', lo, ZERO))
        res.append(('last line written', hi, seqlen(lines)))
        # the element of an arbitrary round
        bv = mk('bv', 0)
        if any(x.op == 'bv' and x.a[0] != 0 for g, e in rows for t in (*g, e) for x in mentions(t)):
            raise Unsupported('nested traversal')
        ety = eng.elem_ty(eng.tyof(lines_base(lines)))
        el = eng.baseget(st, lines_base(lines), atom(bv, 0, MAXLEN), ety)
        for s, fl in flag_classes(eng, st, f):
            for u, lab in line_classes(eng, s, el):
                want = line_spec(eng, u, f, el)
                for g, e in row_at(u, rows):
                    for w in assume_all(u, g):
                        res.append(('a line of the hunk: %s%s' % (lab, ''.join(', ' + n for n, v in fl if v)),
                                    WithState(w, no_ansi(e)), want))
        return res
    o.expect(key, 'any hunk', spec)


def lines_base(s):
    if len(s.a) == 1 and s.a[0].op == 'sub':
        return s.a[0].a[0]
    raise Unsupported('list of lines')


def check_patch(o, key):
    cuts = cuts_for(o.p, {('format::HunkDisplay', 'write_into'): cut_emit('hunk'),
                          ('format::HunkDisplay', 'Display>::fmt'): cut_emit('hunk'),
                          ('patch::Filename', 'write_into'): cut_emit('name'),
                          ('patch::Filename', 'Display>::fmt'): cut_emit('name')})

    def spec(eng, p):
        st, out = p.st, p.out
        f, pt = fm(eng, st, eng.args), get(eng, st, eng.args[0], 'patch')
        color = st.decide(flag(eng, st, f, 'with_color'))
        want = []
        for fld, mark in (('original', b'--- '), ('modified', b'+++ ')):
            v = get(eng, st, pt, fld)
            d = v.a[1] if v.op == 'adt' else st.disc.get(v)
            if d is None:
                raise Unsupported('%s not examined' % fld)
            if eng.types[eng.tyof(v)]['variants'][d]['name'] == 'Some':
                want += [mk('lit', mark), mk('opq', 'name', strip_refs(get(eng, st, v, '?Some.0'))), mk('lit', b'\n')]
        hunks = get(eng, st, pt, 'hunks')
        i = next((i for i, q in enumerate(out.a) if q.op == 'comp'), len(out.a))
        head, tail = seq(*out.a[:i]), out.a[i:]
        res = [('file names apart from colour', no_ansi(head), seq(*want))]
        if color:
            res.append(('colour sequences paired', ansi_ok(head), True))
        elif color is False:
            res.append(('no colour sequence', any(is_ansi(q) for q in head.a), False))
        if not tail:
            if st.decide(eq0(seqlen(hunks))) is not True:
                res.append(('hunks are written', False, True))
            return res
        if len(tail) != 1:
            raise Unsupported('shape of the output')
        lo, hi, rows = tail[0].a
        res.append(('first hunk written', lo, ZERO))
        res.append(('last hunk written', hi, seqlen(hunks)))
        ety = eng.elem_ty(eng.tyof(lines_base(hunks)))
        el = eng.baseget(st, lines_base(hunks), atom(mk('bv', 0), 0, MAXLEN), ety)
        for g, e in row_at(st, rows):
            if len(e.a) != 1 or e.a[0].op != 'opq':
                if not any(q.op == 'opq' for q in no_ansi(e).a):
                    raise Unsupported('hunks not written through HunkDisplay')
                res.append(('one hunk after the other', False, True))
                continue
            hd = e.a[0].a[1]
            res.append(('the hunk written', get(eng, st, hd, 'hunk'), el))
            res.append(('the formatter used for hunks', get(eng, st, hd, 'f'), f))
        return res
    o.expect(key, 'any patch', spec, cuts=cuts)


# ---------------------------------------------------------------- C06: entry points and twins
def run_c06(p, rep):
    o = Obl(p, rep)
    # writer and Display of the same text agree on everything, colour included
    W = "<&mut std::vec::Vec<u8>>"
    hl = {('format::LineDisplay', 'write_into'): cut_emit('line'), ('format::LineDisplay', 'Display>::fmt'): cut_emit('line')}
    nn = {('patch::Filename', 'write_into'): cut_emit('name'), ('patch::Filename', 'Display>::fmt'): cut_emit('name')}
    hh = {**nn, ('format::HunkDisplay', 'write_into'): cut_emit('hunk'), ('format::HunkDisplay', 'Display>::fmt'): cut_emit('hunk')}
    for kind, ks, cuts in (('line', line_displays(o), None), ('hunk', hunk_displays(o), cuts_for(p, hl)),
                           ('patch', patch_displays(o), cuts_for(p, hh))):
        disp = [k for k in ks if 'Display>::fmt' in p.insts[k]['inst']]
        wr = [k for k in ks if 'Display>::fmt' not in p.insts[k]['inst'] and "'_, str>" in p.insts[k]['inst']
              and 'Vec<u8>' in p.insts[k]['inst']]
        if not disp or not wr:
            rep.unk('%s: both ways of writing not recognised' % kind)
            continue
        twins(o, wr[0], disp[0], 'formatting a %s' % kind, view=lambda eng, q: [('bytes', q.out)],
              kwa=dict(cuts=cuts), kwb=dict(cuts=cuts))
    nd = [k for k in o.find('Filename writer', "diffy::patch::Filename::<'_, T>::write_into") if 'str' in p.insts[k]['inst']]
    ndd = o.find('Filename Display', "<diffy::patch::Filename<'_, str> as std::fmt::Display>::fmt")
    if nd and ndd:
        twins(o, nd[0], ndd[0], 'formatting a file name', view=lambda eng, q: [('bytes', q.out)])
    # entry points use one formatter with the documented settings
    cut = cuts_for(p, {('format::PatchDisplay', 'write_into'): cut_emit('patch'),
                       ('format::PatchDisplay', 'Display>::fmt'): cut_emit('patch')})
    fresh = o.run(o.root('formatter_new'), 'PatchFormatter::new')
    for name, pi, own in (('to_bytes_str', 0, True), ('to_bytes_u8', 0, True), ('patch_display', 0, True),
                          ('fmt_patch_display', 1, False), ('write_patch_str', 1, False), ('write_patch_u8', 1, False)):
        k = o.root(name)
        if k is None or fresh is None or len(fresh.paths) != 1:
            continue
        default = strip_refs(fresh.paths[0].val)

        def spec(eng, q, pi=pi, own=own, name=name):
            out = q.val if q.val.op == 'seq' else q.out
            if any(x.op == 'comp' for x in out.a) or not all(x.op in ('opq',) for x in out.a) and out.a:
                if not any(x.op == 'opq' for x in out.a):
                    raise Unsupported('not written through PatchDisplay')
            res = [('exactly one rendering of the patch', num(len(out.a)), ONE)]
            if len(out.a) == 1 and out.a[0].op == 'opq':
                d = out.a[0].a[1]
                res.append(('patch', get(eng, q.st, d, 'patch'), strip_refs(eng.args[pi])))
                f = get(eng, q.st, d, 'f')
                res.append(('formatter', f, default if own else strip_refs(eng.args[0])))
            return res
        o.expect(k, name, spec, cuts=cut)
    o.done()


# ---------------------------------------------------------------- C03: failures of the writer are reported
def run_c03(p, rep):
    o = Obl(p, rep)
    ks = line_displays(o) + hunk_displays(o) + patch_displays(o)
    ks += o.find('Filename writer', "diffy::patch::Filename::<'_, T>::write_into")
    ks += o.find('Filename Display', "<diffy::patch::Filename<'_, str> as std::fmt::Display>::fmt")
    ks += o.find('HunkRange Display', '<diffy::HunkRange as std::fmt::Display>::fmt')
    for n in ('patch_display', 'fmt_patch_display', 'write_patch_str', 'write_patch_u8', 'apply_error_display',
              'parse_error_display'):
        k = o.root(n)
        if k:
            ks.append(k)
    sites = 0
    nested = cuts_for(p, {('format::LineDisplay', 'write_into'): cut_emit('line'), ('format::LineDisplay', 'Display>::fmt'): cut_emit('line'),
                          ('format::HunkDisplay', 'write_into'): cut_emit('hunk'), ('format::HunkDisplay', 'Display>::fmt'): cut_emit('hunk'),
                          ('format::PatchDisplay', 'write_into'): cut_emit('patch'), ('format::PatchDisplay', 'Display>::fmt'): cut_emit('patch'),
                          ('patch::Filename', 'write_into'): cut_emit('name'), ('patch::Filename', 'Display>::fmt'): cut_emit('name'),
                          ('diffy::HunkRange as', 'Display>::fmt'): cut_emit('range')})
    for k in ks:
        own = p.insts[k]['name']
        r = o.run(k, 'a writer that may fail', fail=True, cuts={n: s for n, s in nested.items() if n != own})
        if r is None:
            continue
        name = o.d.name(k)
        lost = {}
        for q in r.paths:
            if q.st.bad:
                lost.setdefault('goes on after a failed write', (q.st.bad[1], q.st.fail))
            if q.st.fail is not None and not is_err(r.eng, q):
                lost.setdefault('a failed write is not reported', (q.st.fail, None))
        for rd in rounds_of(r.eng):
            for i, kind, s2, g in rd.rows:
                if kind == 'back' and s2.fail is not None and rd.hs.fail is None:
                    lost.setdefault('the loop goes on after a failed write', (s2.fail, None))
        for q in r.panics:
            if q.st.fail is not None:
                lost.setdefault('a failed write ends in a panic at %s' % q.where, (q.st.fail, None))
        fs = {str(q.st.fail) for q in r.paths if q.st.fail is not None}
        sites += len(fs)
        for what, (at, first) in lost.items():
            rep.bad('%s|%s' % (name, what), '%s: %s (write at %s)' % (o.where(k), what, at))
        if not lost:
            rep.good('%s: every failed write (%d places) is reported and nothing is written after it' % (name, len(fs)))
    rep.counts['writes that may fail'] = sites
    # buffering writers swallow the error of their last write unless flushed
    seen = p.reach([p.roots[n] for n in ('write_patch_str', 'write_patch_u8') if n in p.roots])
    for k in sorted(seen):
        i = p.insts[k]
        if i['krate'] != 'diffy' or 'body' not in i:
            continue
        names = [p.insts[n]['name'] for n in p.mentions(k) if n in p.insts]
        for t in ('BufWriter', 'LineWriter'):
            if any(t in n and n.endswith(('::new', '::with_capacity')) for n in names):
                flushed = any(n.endswith(('::flush', '::into_inner')) for j in seen for n in
                              (p.insts[m]['name'] for m in p.mentions(j) if m in p.insts and p.insts[j]['krate'] == 'diffy'))
                rep.check(flushed, '%s|%s' % (o.d.name(k), t), '%s: its %s is flushed' % (o.d.name(k), t),
                          '%s: writes through a %s that is never flushed: what fails when it is dropped is not reported' % (o.where(k), t))
    o.done()


def is_err(eng, q):
    v = q.val
    if v.op == 'adt':
        return vname(eng, v) == 'Err'
    d = q.st.disc.get(v)
    return d is None or eng.types[eng.tyof(v)]['variants'][d]['name'] == 'Err'


def rounds_of(eng):
    from sa.rows import rounds
    return rounds(eng)
