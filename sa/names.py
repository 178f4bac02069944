"""C07: a file name survives being written into a header and read back."""
from sa.obl import *
from sa.rows import rounds
from sa.chars import plain, around, CONTENT

PRE = b'--- '


def name_text(eng, st, v):
    """the text inside a Filename"""
    c = get(eng, st, v, '0')
    if c.op != 'adt':
        d = st.disc.get(c)
        if d is None:
            # not examined on this path: either variant holds the same text
            raise Unsupported('the name is not examined')
        c = eng.expand(st, c, d)
    x = c.a[2]
    while x.op == 'ref':
        x = x.a[0]
    return x


def show_byte(b):
    return "%r" % bytes([b])


def writers(o):
    ks = o.find('Filename writer', "diffy::patch::Filename::<'_, T>::write_into")
    return ks + o.find('Filename Display', "<diffy::patch::Filename<'_, str> as std::fmt::Display>::fmt")


def writer_table(o, key):
    """(bytes that force quoting, escape table), or None"""
    r = o.run(key, 'any name')
    if r is None:
        return None
    res = set()
    for p in r.paths:
        try:
            x = name_text(r.eng, p.st, r.args[0])
        except Unsupported as e:
            o.rep.unk('%s: %s' % (o.d.name(key), e))
            return None
        mask = None
        for f, v in p.st.lits.items():
            if f.op == 'any' and f.a[0] is x and isinstance(f.a[1], bytes):
                mask, val = f.a[1], v
            elif f.op == "has" and f.a[0] is x and isinstance(f.a[1], bytes) and len(f.a[1]) == 1:
                mask, val = bytes(int(b == f.a[1][0]) for b in range(256)), v
            elif x in mentions(f) and not any(t.op in ('first', 'find') for t in mentions(f)):
                if not unquoted_anyway(o, key, r):
                    o.rep.unk('%s: quoting depends on %s' % (o.d.name(key), short(r.eng, f)))
                return None
        out = canon(p.st, p.out)
        if out is canon(p.st, x):
            if mask is None:
                res.add((bytes(256), 'raw'))
            elif not val:
                res.add((mask, 'raw'))
            else:
                res.add((mask, 'rawq'))
            continue
        ps = list(out.a)
        if mask is not None and len(ps) == 3 and ps[0].op == ps[2].op == 'lit':
            mid = ps[1]
            if mid.op == 'bytemap' and mid.a[0] is x:
                t = mid.a[1]
            elif seq(mid) is x:
                t = tuple(bytes([b]) for b in range(256))
            else:
                t = None
            if t and val:
                res.add((mask, ps[0].a[0], t, ps[2].a[0]))
                continue
        o.rep.unk('%s: shape of the written name: %s' % (o.d.name(key), short(r.eng, out)))
        return None
    masks = {x[0] for x in res}
    if len(masks) != 1:
        o.rep.unk('%s: several quoting conditions' % o.d.name(key))
        return None
    return masks.pop(), res


def unquoted_anyway(o, key, r):
    """names written as they stand although a tab or a line end may be where nothing looks"""
    for p in r.paths:
        x = name_text(r.eng, p.st, r.args[0])
        if canon(p.st, p.out) is not canon(p.st, x) or not exact(p.st):
            continue
        for b in b'\t\n':
            if may_hold(p.st, x, b):
                o.rep.bad('%s|raw %s' % (o.d.name(key), show_byte(b)),
                          '%s: a name containing %s is written without quotes; the reader takes that byte for the end of the '
                          'name (case: %s)' % (o.where(key), show_byte(b), ' & '.join(facts(r.eng, p.st))[:400]))
                return True
    return False


def may_hold(st, x, b):
    """is there a place in the text x where the byte b changes nothing of what is known?"""
    if plain(x) is None:
        return False
    base, lo, hi = plain(x)
    pins = []
    for t in {t for f in (*st.lits, *st.lin) for t in mentions(f)}:
        if t.op not in CONTENT or base not in mentions(t):
            continue
        q = plain(t.a[0]) if t.op != 'el' and isinstance(t.a[0], T) else None
        if t.op == 'el' and t.a[0] is base:
            pins.append((t.a[1], add(t.a[1], ONE)))
        elif q is None or q[0] is not base or not isinstance(t.a[1], (bytes, tuple)):
            return False
        elif t.op in ('any', 'first'):
            if t.a[1][b]:
                pins.append((q[1], q[2]))
            elif t.op == 'first':
                i = add(q[1], atom(t, 0, MAXLEN))
                pins.append((i, add(i, ONE)))
        elif t.op in ('has', 'find', 'rfind'):
            if b in t.a[1]:
                pins.append((q[1], q[2]))
            elif t.op != 'has':
                i = add(q[1], atom(t, 0, MAXLEN))
                pins.append((i, add(i, num(len(t.a[1])))))
        else:
            return False
    pos = atom(mk('in', 'some byte', -1), 0, MAXLEN)
    return len(pins) <= 8 and around(st, [sub(pos, lo), sub(sub(hi, pos), ONE)], pins, pos, add(pos, ONE))


def reader_rejects(o, key):
    """bytes an unquoted name may not contain"""
    r = o.run(key, 'any name')
    if r is None:
        return None
    mask = None
    for p in r.paths:
        x = r.args[0]
        while x.op == 'ref':
            x = x.a[0]
        okp = vname(r.eng, p.val) == 'Ok'
        ms = [(f.a[1] if f.op == 'any' else bytes(int(b == f.a[1][0]) for b in range(256)), v) for f, v in p.st.lits.items()
              if f.op in ('any', 'has') and f.a[0] is x and isinstance(f.a[1], bytes)]
        if len(ms) > 1 or (ms and ms[0][1] == okp):
            o.rep.unk('%s: rejection condition not recognised' % o.d.name(key))
            return None
        m = ms[0][0] if ms else None
        if okp:
            got = cow_text(r.eng, p.val.a[2])
            v = o.verdict(r.eng, p.st, got, x)
            name = '%s: an unquoted name is taken as it stands' % o.d.name(key)
            if v == 'eq':
                o.rep.good(name)
            elif v == 'ne':
                o.rep.bad('%s|unquoted' % o.d.name(key), '%s: an unquoted name is read as %s' % (o.where(key), short(r.eng, got)))
            else:
                o.rep.unk(name)
            if m is None:
                m = bytes(256)
        if m is not None:
            if mask is not None and mask != m:
                o.rep.unk('%s: several rejection conditions' % o.d.name(key))
                return None
            mask = m
    return mask


def cow_text(eng, v):
    x = v.a[2]
    while x.op == 'ref':
        x = x.a[0]
    return x


def decoder(o, key):
    """decode(token bytes) -> bytes produced, None when rejected or not one token, '?' undecided"""
    r = o.run(key, 'any quoted name')
    if r is None:
        return None
    rs = [x for x in rounds(r.eng) if x.slices() and x.seqs()]
    rs = [x for x in rs if x.rec.st0.cells]
    if len(rs) != 1:
        o.rep.unk('%s: decoding loop not recognised (%d candidates)' % (o.d.name(key), len(rs)))
        return None
    rd = rs[0]
    sl = rd.slices()
    if len(sl) != 1:
        o.rep.unk('%s: decoding loop reads from %d places' % (o.d.name(key), len(sl)))
        return None
    it, h = sl[0]
    hl = lin(0, ((h, 1),))
    eng = r.eng
    accs = rd.seqs()
    for p in r.paths:
        if vname(eng, p.val) == 'Ok':
            got = cow_text(eng, p.val.a[2])
            if not any(got is seq(mk('sub', a, ZERO, atom(mk('len', a), 0, MAXLEN))) for a in accs):
                o.rep.unk('%s: result is not the decoded text' % o.d.name(key))
                return None
    cache = {}

    def step(bs):
        """one round with the next bytes being bs: [(kind, advance, output)]"""
        if bs in cache:
            return cache[bs]
        st = rd.hs.copy()
        sts = [st]
        off = it.a[3]
        known = {}
        for i, b in enumerate(bs):
            e = eng.seqget(st, it.a[1], add(off, num(i)), it.a[2])
            if e.op == 'lin' and len(e.a[1]) == 1 and e.a[1][0][1] == 1:
                known[e.a[1][0][0]] = num(b - e.a[0])
            sts = [t for s in sts for t in s.assume(eq0(sub(e, num(b))))]
        end = sub(it.a[4], add(off, num(len(bs))))
        sts = [t for s in sts for t in s.assume(ge(end))]
        out = set()
        for s in sts:
            for i, kind, s2, g in rd.rows:
                for t in assume_all(s, g):
                    if kind != 'back':
                        out.add(('exit',))
                        continue
                    m = rd.after(s2)
                    d = sub(m[h], hl)
                    gain = [rd.suffix(a, m[a]) for a in accs]
                    if not isnum(d) or any(x is None for x in gain):
                        out.add(('?',))
                        continue
                    gain = [canon(t, subst(x, known)) for x in gain]
                    val = [litval(x) for x in gain]
                    if any(x is None for x in val):
                        out.add(('?',))
                        continue
                    out.add(('back', cval(d), b''.join(val)))
        cache[bs] = out
        return out

    def decode(bs, longest=2):
        res, pos = b'', 0
        while pos < len(bs):
            got = None
            for n in range(1, longest + 1):
                if pos + n > len(bs):
                    break
                s = step(bs[pos:pos + n])
                if len(s) == 1:
                    got = next(iter(s))
                    break
            if got is None or got[0] == '?':
                return '?'
            if got[0] == 'exit':
                return None
            if got[1] <= 0 or pos + got[1] > len(bs):
                return None
            res += got[2]
            pos += got[1]
        return res

    outs = {}
    for q in r.paths:
        for rec, pi, i in q.st.trail:
            if rec is rd.rec and pi == rd.part.idx:
                outs.setdefault(i, set()).add(vname(eng, q.val))

    def first(bs, last=False):
        """what the round that meets bs does: {('exit', result kind) or ('back',)}"""
        sts = [rd.hs.copy()]
        off = it.a[3]
        for i, b in enumerate(bs):
            e = eng.seqget(rd.hs, it.a[1], add(off, num(i)), it.a[2])
            sts = [t for s in sts for t in s.assume(eq0(sub(e, num(b))))]
        end = sub(it.a[4], add(off, num(len(bs))))
        sts = [t for s in sts for t in s.assume(eq0(end) if last else ge(end))]
        out = set()
        for s in sts:
            for i, kind, s2, g in rd.rows:
                if assume_all(s, g):
                    out |= {('back',)} if kind == 'back' else {('exit', k) for k in outs.get(i, {'?'})}
        return out
    decode.first = first
    return decode


ESC = {0: b'0', 9: b't', 10: b'n', 13: b'r', 34: b'"', 92: b'\\'}


def check_rejects(o, key, d):
    """malformed quoted names are turned away"""
    rep, name = o.rep, o.d.name(key)
    cases = [('the bare character %s' % show_byte(b), bytes([b]), False) for b in sorted(ESC) if b != 92]
    cases += [('the escape %r' % (b'\\' + bytes([b])), b'\\' + bytes([b]), False) for b in range(256) if bytes([b]) not in ESC.values()]
    cases.append(('a backslash at the end', b'\\', True))
    for what, bs, last in cases:
        got = d.first(bs, last)
        if got == {('exit', 'Err')}:
            rep.good('%s: a quoted name with %s is rejected' % (name, what))
        elif not got or ('exit', '?') in got or len(got) > 1:
            rep.unk('%s: %s: %s' % (name, what, sorted(got)))
        else:
            rep.bad('%s|%s' % (name, what), '%s: a quoted name with %s is accepted' % (o.where(key), what))


def run_c07(p, rep):
    o = Obl(p, rep)
    ws = [(k, writer_table(o, k)) for k in writers(o)]
    un = o.find('unquoted names', 'diffy::patch::parse::unescaped_filename')
    es = o.find('quoted names', 'diffy::patch::parse::escaped_filename')
    pf = o.find('file names', 'diffy::patch::parse::parse_filename')
    for k in pf:
        check_parse_filename(o, k)
    rej = [(k, reader_rejects(o, k)) for k in un]
    dec = [(k, decoder(o, k)) for k in es]
    for k, d in dec:
        if d is not None:
            check_rejects(o, k, d)
    for k, m in rej:
        for b in sorted(ESC) if m is not None else []:
            name = '%s: an unquoted name with %s is rejected' % (o.d.name(k), show_byte(b))
            rep.check(m[b], '%s|unquoted %s' % (o.d.name(k), show_byte(b)), name,
                      '%s: an unquoted name with %s is accepted' % (o.where(k), show_byte(b)))
    for k, w in ws:
        if w is None:
            continue
        mask, shapes = w
        kinds = {s[1] for s in shapes if len(s) == 2}
        for s in shapes:
            if len(s) == 4:
                _, l, t, rgt = s
                if l != b'"' or rgt != b'"':
                    rep.bad('%s|quotes' % o.d.name(k), '%s: a quoted name is written between %r and %r' % (o.where(k), l, rgt))
                else:
                    rep.good('%s: a quoted name is written between quotes' % o.d.name(k))
                for b in range(256):
                    if t[b] is None:
                        continue
                    if b'\n' in t[b] or b'\t' in t[b]:
                        rep.bad('%s|byte %s ends the name' % (o.d.name(k), show_byte(b)),
                                '%s: the byte %s of a quoted name is written as %r, which ends the name in the header line' % (
                                    o.where(k), show_byte(b), t[b]))
                        continue
                    for dk, d in dec:
                        if d is None:
                            continue
                        got = d(t[b])
                        if got == '?':
                            rep.unk('%s reading %r' % (o.d.name(dk), t[b]))
                        elif got != bytes([b]):
                            rep.bad('%s|byte %s|%s' % (o.d.name(k), show_byte(b), o.d.name(dk)),
                                    '%s writes the byte %s of a quoted name as %r, which %s reads as %s' % (
                                        o.where(k), show_byte(b), t[b], o.where(dk), 'an error' if got is None else repr(got)))
                        else:
                            rep.good('%s / %s: %s' % (o.d.name(k), o.d.name(dk), show_byte(b)))
        if 'rawq' in kinds:
            rep.bad('%s|quotes' % o.d.name(k), '%s: names that need quoting are written as they stand' % o.where(k))
        for b in range(256):
            if mask[b]:
                continue
            if b in b'\t\n"':
                rep.bad('%s|raw %s' % (o.d.name(k), show_byte(b)),
                        '%s: a name containing %s is written without quotes; the reader takes that byte for the end of the '
                        'name or for a quote' % (o.where(k), show_byte(b)))
            for rk, m in rej:
                if m is not None and m[b]:
                    rep.bad('%s|raw %s|%s' % (o.d.name(k), show_byte(b), o.d.name(rk)),
                            '%s: a name containing %s is written without quotes, which %s rejects' % (
                                o.where(k), show_byte(b), o.where(rk)))
        rep.good('%s: bytes written without quotes are accepted without quotes' % o.d.name(k))
    o.done()


def opaque_result(tag):
    """summary of a fallible reader: an unknown Ok or Err, told apart by the argument"""
    def f(eng, st, c):
        a = strip_refs(c.args[-1])
        okty = eng.fields(c.dty, eng.vidx(c.dty, 'Ok'))[0]
        ety = eng.fields(c.dty, eng.vidx(c.dty, 'Err'))[0]
        q = mk('p', mk('call', tag + '?', a, -1))
        good, bad = st.split(q)
        return [(s, eng.variant(c.dty, 'Ok', mk('call', tag, a, okty))) for s in good] + \
            [(s, eng.variant(c.dty, 'Err', mk('call', tag + '!', a, ety))) for s in bad]
    return f


def check_parse_filename(o, key):
    cuts = cuts_for(o.p, {('parse::escaped_filename',): opaque_result('quoted'),
                          ('parse::unescaped_filename',): opaque_result('bare')})
    cuts = {n: (opaque_result('bare') if 'unescaped' in n else opaque_result('quoted')) for n in cuts}

    def mkclasses():
        T_, N_, Q = b'\t', b'\n', b'"'
        for end in ('tab', 'newline', 'none'):
            for q in ('quoted', 'no opening quote', 'no closing quote', 'lone quote'):
                if end == 'none' and q != 'quoted':
                    continue
                yield end, q
        yield 'prefix', None

    for end, q in mkclasses():
        field = [None]

        def setup(eng, st, args, end=end, q=q):
            b = o.p.insts[key]['body']
            line = eng.fresh('line', b['locals'][2])
            x = dref(line)
            pre = mk('ref', lit(PRE))
            if end == 'prefix':
                return st.assume(neg(mk('sw', x, PRE))), [pre, line]
            sts = st.assume(mk('sw', x, PRE))
            rest = subseq(x, num(4), seqlen(x), sts[0])
            out = []
            for s in sts:
                tb, nl = mk('has', rest, b'\t'), mk('has', rest, b'\n')
                if end == 'none':
                    out += assume_all(s, [neg(tb), neg(nl)])
                    continue
                c = b'\t' if end == 'tab' else b'\n'
                for t in assume_all(s, [tb] if end == 'tab' else [neg(tb), nl]):
                    ix = atom(mk('find', rest, c), 0, MAXLEN)
                    t.addlin(sub(sub(seqlen(rest), ix), ONE))
                    f = subseq(rest, ZERO, ix, t)
                    field[0] = f
                    if len(f.a) != 1:
                        raise Unsupported('field')
                    if q == 'quoted':
                        t.addlin(sub(ix, num(2)))
                        out += assume_all(t, [mk('sw', f, b'"'), mk('ew', f, b'"')])
                    elif q == 'no opening quote':
                        out += assume_all(t, [neg(mk('sw', f, b'"'))])
                    elif q == 'lone quote':
                        t.addlin(sub(ix, ONE))
                        t.addlin(sub(ONE, ix))
                        out += assume_all(t, [mk('sw', f, b'"'), mk('ew', f, b'"')])
                    else:
                        t.addlin(sub(ix, num(2)))
                        out += assume_all(t, [mk('sw', f, b'"'), neg(mk('ew', f, b'"'))])
            return out, [pre, line]

        def spec(eng, p, end=end, q=q):
            kind = vname(eng, p.val)
            if end in ('none', 'prefix'):
                return [('rejected', kind, 'Err')]
            v = p.val.a[2]
            if v.op != 'call':
                if kind == 'Ok':
                    raise Unsupported('name not read by escaped_filename or unescaped_filename')
                return [('accepted', kind, 'Ok')]
            want = field[0] if q != 'quoted' else subseq(field[0], ONE, sub(seqlen(field[0]), ONE), p.st)
            return [('read as', v.a[0].rstrip('!'), 'quoted' if q == 'quoted' else 'bare'), ('the name', v.a[1], want)]
        o.expect(key, 'ended by %s%s' % (end, ', ' + q if q else '') if end != 'prefix' else 'without the marker', spec, setup,
                 cuts=cuts)
