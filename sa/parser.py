"""C08/C09: how the parser reads a hunk body, and which patches it turns away."""
from sa.obl import *
from sa.rows import rounds, target

MARK = b'\\ No newline at end of file'


def run_on_parser(o, key, label, pre=None, cuts=None, **kw):
    """analyse a function of a &mut Parser at an arbitrary position of an arbitrary text"""
    b = o.p.insts[key]['body']
    cc = line_cuts(o.p)
    cc.update(cuts or {})

    def setup(eng, st, av):
        args = [parser_arg(eng, st, b['locals'][1], key)]
        args += [eng.fresh('a%d' % i, b['locals'][i + 1]) for i in range(1, b['argc'])]
        eng.args = args
        sts = pre(eng, st, args) if pre else [st]
        return sts, args
    # the driver must not build the parser argument itself
    return o.run(key, label, setup, cuts=cc, args=[], **kw)


LINE_CLASSES = [
    ('a line starting with @', 'stop', [('sw', b'@')]),
    ('a line starting with a space', 'Context', [('sw', b' ')]),
    ('an empty line', 'blank', [('sw', b'\n')]),
    ('a line starting with -', 'Delete', [('sw', b'-')]),
    ('a line starting with +', 'Insert', [('sw', b'+')]),
    ('the no-newline marker', 'mark', [('sw', MARK)]),
    ('a line starting with \\ that is not the marker', 'other', [('sw', b'\\'), ('!sw', MARK)]),
    ('any other line', 'other', [('!sw', b'@'), ('!sw', b' '), ('!sw', b'\n'), ('!sw', b'-'), ('!sw', b'+'), ('!sw', b'\\')]),
]


def at_line(eng, rd):
    """the line a round looks at, and the position atom"""
    sl = [s for s in rd.slices() if s[0].a[1].op == 'seq' and any(x.op == 'lines' for x in mentions(s[0].a[1]))]
    if len(sl) != 1:
        raise Unsupported('%d positions in the text' % len(sl))
    it, h = sl[0]
    v = eng.seqget(rd.hs, it.a[1], it.a[3], it.a[2])
    return it, h, dref(v)


def run_c08(p, rep):
    o = Obl(p, rep)
    for k in o.find('hunk bodies', 'diffy::patch::parse::hunk_lines'):
        try:
            body_automaton(o, k)
        except Unsupported as e:
            rep.unk('%s: %s' % (o.d.name(k), e))
    o.done()


def body_automaton(o, key):
    r = run_on_parser(o, key, 'any position of any text')
    if r is None:
        return
    eng, rep = r.eng, o.rep
    rds = [x for x in rounds(eng) if any(t.op == 'lines' for c in x.part.cells.values() for t in mentions(c))]
    sites = {x.rec.site for x in rds}
    if len(sites) != 1:
        rep.unk('%s: %d loops over the lines' % (o.d.name(key), len(sites)))
        return
    by = {x.part.idx: x for x in rds}
    # the final outcomes of each way out of the loop
    outs = {}
    for q in r.paths:
        for rec, pi, i in q.st.trail:
            if rec is rds[0].rec:
                outs.setdefault((pi, i), []).append(q)
    start = (rds[0].rec.parts[0].idx, (False, False, False))
    seen, todo = {start}, [start]
    verdicts = {}

    def note(what, ok, text=''):
        verdicts.setdefault(what, []).append((ok, text))
    while todo:
        pi, fl = todo.pop()
        rd = by[pi]
        it, h, x = at_line(eng, rd)
        accs = [a for a in rd.seqs()]
        if len(accs) > 1:
            rep.unk('%s: %d lists grow in the loop' % (o.d.name(key), len(accs)))
            return
        acc = accs[0] if accs else None
        accv = seq(mk('sub', acc, ZERO, atom(mk('len', acc), 0, MAXLEN))) if acc is not None else None
        if acc is None:
            # nothing has been read yet in this partition: the list is a constant
            rep.unk('%s: list of lines not recognised' % o.d.name(key))
            return
        after = ''.join(n for f, n in zip(fl, ('context ', 'deleted ', 'inserted ')) if f)
        ctx = 'after an unterminated %s line: ' % ' and '.join(after.split()) if after else ''
        lty = None
        for lab, cls, fs in LINE_CLASSES + [('the end of the text', 'eof', [])]:
            st = rd.hs.copy()
            room = sub(sub(it.a[4], it.a[3]), ONE)
            if cls == 'eof':
                sts = st.assume(neg(ge(room)))
            else:
                sts = st.assume(ge(room))
                sts = [t for s in sts for t in assume_all(s, [mk('sw', x, c) if n == 'sw' else neg(mk('sw', x, c)) for n, c in fs])]
            for s0 in sts:
                for i, kind, s2, g in rd.rows:
                    for s in assume_all(s0, g):
                        what = '%s%s' % (ctx, lab)
                        want = expected(fl, cls)
                        if kind == 'back':
                            m = rd.after(s2)
                            judge_back(o, eng, rd, s, s2, m, acc, accv, x, h, cls, fl, want, what, note)
                            t = target(rd, s2)
                            nf = next_flags(eng, s, m, acc, accv, fl, cls)
                            if t is None or nf is None:
                                note(what, None, 'next state not recognised')
                                continue
                            if want in ('go', 'mark') and (t, nf) not in seen:
                                if len(seen) > 64:
                                    rep.unk('%s: too many states' % o.d.name(key))
                                    return
                                seen.add((t, nf))
                                todo.append((t, nf))
                        else:
                            for q in outs.get((pi, i), []):
                                judge_exit(o, eng, s, q, accv, acc, x, cls, fl, want, what, note)
    o.rep.counts['states of the line automaton (code x specification)'] = len(seen)
    for what, vs in sorted(verdicts.items()):
        bad = [t for ok, t in vs if ok is False]
        unk = [t for ok, t in vs if ok is None]
        name = '%s: %s' % (o.d.name(key), what)
        if bad:
            rep.bad('%s|%s' % (o.d.name(key), what), '%s: %s: %s' % (o.where(key), what, bad[0]))
        elif unk:
            rep.unk('%s: %s' % (name, unk[0]))
        else:
            rep.good(name)


def expected(fl, cls):
    c, d, i = fl
    if cls in ('stop', 'eof'):
        return 'end'
    if c:
        return 'err'
    if cls == 'Delete' and d or cls == 'Insert' and i or cls == 'other':
        return 'err'
    return 'go' if cls != 'mark' else 'mark'


def last_kind(eng, s, acc, accv):
    """the kind of the last line read so far: (variant name, its text) when it is known"""
    n = seqlen(accv)
    if s.decide(ge(sub(n, ONE))) is not True:
        return None
    for t, v in s.disc.items():
        if t.op == 'el' and t.a[0] is acc and s.decide(eq0(sub(t.a[1], sub(n, ONE)))) is True:
            a = eng.expand(s, t, v)
            return vname(eng, a), dref(a.a[2])
    return None


def judge_back(o, eng, rd, s, s2, m, acc, accv, x, h, cls, fl, want, what, note):
    if want in ('end', 'err'):
        note(what, False, 'reading goes on, it must %s' % (
            'stop' if want == 'end' else 'be rejected'))
        return
    d = sub(m[h], lin(0, ((h, 1),)))
    if not isnum(d):
        note(what, None, 'position')
        return
    if cval(d) != 1:
        note(what, False, 'the parser moves on by %s lines' % cval(d))
        return
    got = m[acc]
    if cls == 'mark':
        n = seqlen(accv)
        if s.decide(ge(sub(n, ONE))) is False:
            note(what, False, 'accepted without a line before it')
            return
        lk = last_kind(eng, s, acc, accv)
        if lk is None:
            note(what, None, 'last line not examined')
            return
        kind, txt = lk
        ew = s.decide(mk('ew', txt, b'\n'))
        if ew is False:
            note(what, False, 'accepted although the line before it has no newline to drop')
            return
        if ew is None:
            note(what, None, 'end of the last line not examined')
            return
        keep = subseq(accv, ZERO, sub(n, ONE), s)
        new = subseq(txt, ZERO, sub(seqlen(txt), ONE), s)
    else:
        kind = 'Context' if cls == 'blank' else cls
        keep = accv
        new = x if cls == 'blank' else subseq(x, ONE, seqlen(x), s)
    if got.op != 'seq' or not got.a:
        note(what, None, 'list of lines')
        return
    if got is accv:
        note(what, False, 'the line is dropped')
        return
    last = got.a[-1]
    if last.op != 'el1':
        note(what, None, 'list of lines')
        return
    v1 = same(s, seq(*got.a[:-1]), keep)
    e = last.a[0]
    if e.op != 'adt':
        e = eng.expand(s2, e)
    if e.op != 'adt':
        note(what, None, 'line')
        return
    if vname(eng, e) != kind:
        note(what, False, 'read as %s, not as %s' % (vname(eng, e), kind))
        return
    v2 = same(s, dref(e.a[2]), new)
    if 'ne' in (v1, v2):
        note(what, False, 'read as %s %s, not as %s' % (vname(eng, e), short(eng, e.a[2]), short(eng, new)))
    elif v1 == v2 == 'eq':
        note(what, True)
    else:
        note(what, None, '%s against %s' % (short(eng, got), short(eng, new)))


def next_flags(eng, s, m, acc, accv, fl, cls):
    if cls != 'mark':
        return fl
    lk = last_kind(eng, s, acc, accv)
    if lk is None:
        return None
    c, d, i = fl
    return (c or lk[0] == 'Context', d or lk[0] == 'Delete', i or lk[0] == 'Insert')


def judge_exit(o, eng, s, q, accv, acc, x, cls, fl, want, what, note):
    kind = vname(eng, q.val)
    if want == 'end':
        if kind != 'Ok':
            note(what, False, 'rejected (%s)' % short(eng, q.val))
            return
        v = same(q.st, q.val.a[2], accv)
        note(what, True if v == 'eq' else False if v == 'ne' else None, 'the lines returned are %s' % short(eng, q.val.a[2]))
        return
    if want == 'err':
        note(what, kind == 'Err', 'accepted, and ends the hunk')
        return
    if kind == 'Ok':
        note(what, False, 'ends the hunk')
        return
    # an error on a line that may be valid: only the marker has reasons left
    if cls == 'mark':
        n = seqlen(accv)
        if s.decide(ge(sub(n, ONE))) is False:
            note(what, True)
            return
        if s.decide(ge(sub(n, ONE))) is None:
            note(what, None, 'whether a line precedes is not examined')
            return
        lk = last_kind(eng, s, acc, accv)
        if lk is None:
            note(what, None, 'last line not examined')
            return
        ew = s.decide(mk('ew', lk[1], b'\n'))
        note(what, True if ew is False else False if ew is True else None, 'rejected although a %s line with a newline precedes' % lk[0])
        return
    note(what, False, 'rejected (%s)' % short(eng, q.val))
