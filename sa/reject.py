"""C09: the parser turns inconsistent patches away, reads every header where it is, and reads the whole text."""
from sa.obl import *
from sa.opts import call_cut, deep, origin
from sa.parser import run_on_parser
from sa.rows import rounds, target
from sa.apply import PRE, POST, counts_in, feasible, guarded, base_of
from sa.opts import field


def exact_cuts(o, table):
    """{instance name: summary} for functions of exactly these paths"""
    return {i['name']: s for k, i in o.p.insts.items() for n, s in table.items() if o.d.name(k).split('::<')[0] == n.replace('diffy::', '') or i['name'] == n}


def parser_cut(tag):
    """an opaque step of the parser: a function of the text and of the position, which it may advance"""
    def f(eng, st, c):
        cell, path = models.target(st, eng, c.args[0])
        v = eng.load(st, cell, path)
        its = [x for x in mentions(v) if x.op == 'it' and x.a[0] == 'slice']
        if len(its) != 1:
            return None
        it = its[0]
        new = atom(mk('call', tag + "'", it.a[1], it.a[3], -1), 0, MAXLEN)
        st = st.copy()
        st.addlin(sub(new, it.a[3]))
        st.addlin(sub(it.a[4], new))
        j = mk('it', *it.a[:3], new, *it.a[4:])
        eng.store(st, cell, path, subst(v, {it: j}))
        rest = [deep(eng, st, x) for x in c.args[1:]]
        return [(st, eng.mat(mk('call', tag, it.a[1], it.a[3], *rest, c.dty), c.dty))]
    return f


def ret_ty(o, pats, key):
    """result type of the instance of a helper that belongs to the same kind of text as `key`"""
    mine = '[u8]' if '[u8]' in o.p.insts[key]['inst'] else 'str'
    for k, i in o.p.insts.items():
        if i.get('body') and all(q in i['name'] for q in pats) and '{closure' not in i['name']:
            g = i['inst']
            kind = '[u8]' if '[u8]' in g else 'str' if 'str' in g.split('::')[0] + g.split('::<')[-1] else None
            if kind == mine or kind is None or '<' not in g:
                return i['body']['locals'][0]
    raise Unsupported('helper %s not in this tree' % pats[-1])


def opaque(eng, st, tag, args, dty):
    """the opaque call with these arguments, as the path knows it or new"""
    for t in st.disc:
        if t.op == 'call' and t.a[0] == tag:
            if t.a[1:-1] == tuple(args):
                return t
            if len(t.a) - 2 != len(args):
                raise Unsupported('%s takes other arguments' % tag)
    return mk('call', tag, *args, dty)


def variants(eng, st, t):
    """[(variant name, state)]"""
    ty = eng.types[eng.tyof(t)]
    out = []
    for d, v in enumerate(ty['variants']):
        if st.disc.get(t, d) == d:
            s = st.copy()
            s.disc[t] = d
            out.append((v['name'], s))
    return out


def cases_of(st, f):
    """[(truth, state)] of a formula"""
    return [(True, s) for s in st.assume(f)] + [(False, s) for s in st.assume(neg(f))] if st.decide(f) is None else [(st.decide(f), st)]


class Reject(Exception):
    pass


def walk(spec, eng, st):
    """explore a specification that asks for facts: [(state, 'Err'/'Ok', outputs)]"""
    out = []
    todo = [()]
    while todo:
        pre = todo.pop()
        a = Ask(eng, st, pre)
        try:
            r = spec(a)
            out.append((a.st, 'Ok', r))
        except Reject:
            out.append((a.st, 'Err', None))
        except Fork as f:
            todo += [pre + (i,) for i in range(f.args[0])]
    return out


class Fork(Exception):
    pass


class Ask:
    def __init__(self, eng, st, pre):
        self.eng, self.st, self.pre, self.i = eng, st, pre, 0

    def pick(self, opts):
        if len(opts) != 1:
            if self.i == len(self.pre):
                raise Fork(len(opts))
            o = opts[self.pre[self.i]]
            self.i += 1
        else:
            o = opts[0]
        self.st = o[1]
        return o[0]

    def holds(self, f):
        return self.pick(cases_of(self.st, f))

    def need(self, f):
        if not self.holds(f):
            raise Reject

    def variant(self, t):
        return self.pick(variants(self.eng, self.st, t))

    def ok(self, t):
        """the payload of an opaque Result/Option that must be there"""
        if self.variant(t) not in ('Ok', 'Some'):
            raise Reject
        return get(self.eng, self.st, t, '?%s.0' % self.eng.types[self.eng.tyof(t)]['variants'][self.st.disc[t]]['name'])


def implied(eng, p):
    """the state of a path with the variants that the parts of its result prove"""
    st = p.st.copy()
    for v in (p.val, *p.outs):
        for x in mentions(v):
            if x.op == 'fld' and len(x.a) >= 3 and x.a[0].op in eng.OPAQUE:
                t = eng.types[eng.tyof(x.a[0])]
                if t['k'] == 'adt' and len(t['variants']) > 1:
                    if st.disc.get(x.a[0], x.a[1]) != x.a[1]:
                        return None
                    st.disc[x.a[0]] = x.a[1]
    return st


def against_spec(o, key, label, r, spec, outputs, panics=True):
    """every path of r against the specification; outputs(eng, path) -> values to compare on success"""
    rep, eng = o.rep, r.eng
    nm = o.d.name(key)
    if not r.paths:
        rep.unk('%s [%s]: no completing path' % (nm, label))
        return
    bad, unk, n = {}, [], 0
    for p in r.paths:
        try:
            kind = vname(eng, p.val)
            st0 = implied(eng, p)
            if st0 is None:
                continue
            for st, want, outs in walk(spec, eng, st0):
                if not feasible(st):
                    continue
                n += 1
                case = ' & '.join(facts(eng, st))[:500]
                if kind != want:
                    t = '%s although the property demands %s (case: %s)' % (
                        'accepted' if kind == 'Ok' else 'rejected', 'rejection' if want == 'Err' else 'acceptance', case)
                    if exact(st) and not (p.st.trail and any(t not in st0.disc for t in st.disc)):
                        bad.setdefault('accepted' if kind == 'Ok' else 'rejected', t)
                    else:
                        unk.append(t)
                elif kind == 'Ok':
                    for what, got, w in outputs(eng, st, p, outs):
                        v = o.verdict(eng, st, got, w)
                        if v == 'ne':
                            bad.setdefault(what, '%s is %s, the property demands %s (case: %s)' % (what, short(eng, got), short(eng, w), case))
                        elif v == '?':
                            unk.append('%s is %s, wanted %s' % (what, short(eng, got), short(eng, w)))
        except Unsupported as e:
            unk.append(str(e))
    for x in eng.panics if panics else ():
        st = x.st
        if feasible(st):
            n += 1
            t = 'panic (%s) (case: %s)' % (x.why, ' & '.join(facts(eng, st))[:500])
            if exact(st):
                bad.setdefault('panic', t)
            else:
                unk.append(t)
    for k2, t in bad.items():
        rep.bad('%s|%s|%s' % (nm, label, k2), '%s [%s]: %s' % (o.where(key), label, t))
    if unk:
        rep.unk('%s [%s]: %s' % (nm, label, unk[0]))
    if not bad and not unk:
        rep.good('%s [%s]: %d cases agree with the specification' % (nm, label, n))


def callers(p, name):
    """instances that call a function of this path"""
    out = []
    for k, i in p.insts.items():
        for b in (i.get('body') or {}).get('bb', ()):
            k2 = b['t'].get('f', {}).get('key') if b['t']['k'] == 'call' else None
            if k2 in p.insts and p.insts[k2]['name'] == name:
                out.append(k)
    return out


def run_c09(p, rep):
    o = Obl(p, rep)
    for what, name, f in (('ranges', 'range', a_range), ('hunk headers', 'hunk_header', header), ('hunks', 'hunk', one_hunk),
                          ('order of hunks', 'verify_hunks_in_order', order), ('list of hunks', 'hunks', hunk_list),
                          ('preamble', 'skip_header_preamble', preamble), ('file names', 'patch_header', file_lines)):
        for k in o.find(what, 'diffy::patch::parse::' + name):
            guarded(o, k, f)
    for n in ('from_str', 'from_bytes'):
        k = o.root(n)
        if k:
            guarded(o, k, whole_text)
    o.done()


# ---------------------------------------------------------------- ranges and headers
SPLIT = ('utils::Text>::split_at_exclusive',)


def split_cuts(o):
    return {i['name']: call_cut('split') for k, i in o.p.insts.items() if SPLIT[0] in i['name'] and '{closure' not in i['name']}


def splitter(o, key):
    dty = ret_ty(o, SPLIT, key)

    def split(a, s, by):
        t = opaque(a.eng, a.st, 'split', [s, lit(by)], dty)
        v = a.ok(t)
        return dref(get(a.eng, a.st, v, '0')), dref(get(a.eng, a.st, v, '1'))
    return split, dty


def number(a, s, raw):
    """the number a text stands for"""
    if raw:
        a.need(mk('utf8', s))
    a.need(mk('parses', s, 'usize'))
    ity = [i for i, t in enumerate(a.eng.types) if t['s'] == 'usize'][0]
    return atom(mk('parse', s, ity), *a.eng.bounds(ity))


def is_raw(o, key):
    return '[u8]' in o.p.insts[key]['inst']


def a_range(o, key):
    r = o.run(key, 'any text', cuts=split_cuts(o))
    if r is None:
        return
    split, dty = splitter(o, key)
    s, raw = dref(r.eng.args[0]), is_raw(o, key)

    def spec(a):
        t = opaque(a.eng, a.st, 'split', [s, lit(b',')], dty)
        if a.variant(t) == 'Some':
            x, y = split(a, s, b',')
            n, m = number(a, x, raw), number(a, y, raw)
        else:
            n, m = number(a, s, raw), ONE
        a.need(ge(sub(sub(num(2 ** 64 - 1), n), m)))
        return n, m

    def outputs(eng, st, p, w):
        v = p.val.a[2]
        return [('start', field(eng, st, v, 'start'), w[0]), ('length', field(eng, st, v, 'len'), w[1])]
    against_spec(o, key, 'any text', r, spec, outputs)


def header(o, key):
    cuts = split_cuts(o)
    cuts.update(exact_cuts(o, {'diffy::patch::parse::range': call_cut('range')}))
    r = o.run(key, 'any line', cuts=cuts)
    if r is None:
        return
    split, dty = splitter(o, key)
    rty = ret_ty(o, ('diffy::patch::parse::range',), key)
    s = dref(r.eng.args[0])

    def spec(a):
        a.need(mk('sw', s, b'@@ '))
        x = subseq(s, num(3), seqlen(s), a.st)
        ranges, rest = split(a, x, b' @@')
        one, two = split(a, ranges, b' ')
        out = []
        for t, sign in ((one, b'-'), (two, b'+')):
            a.need(mk('sw', t, sign))
            y = subseq(t, ONE, seqlen(t), a.st)
            out.append(a.ok(opaque(a.eng, a.st, 'range', [y], rty)))
        ctx = None
        if a.holds(mk('sw', rest, b' ')):
            ctx = subseq(rest, ONE, seqlen(rest), a.st)
            if a.holds(mk('ew', ctx, b'\n')):
                ctx = subseq(ctx, ZERO, sub(seqlen(ctx), ONE), a.st)
        return out, ctx

    def outputs(eng, st, p, w):
        v = p.val.a[2]
        (x, y), ctx = w
        res = []
        for i, n, z in ((0, 'old range', x), (1, 'new range', y)):
            for f in ('start', 'len'):
                res.append(('%s of the %s' % (f, n), get(eng, st, v, '%d.%s' % (i, f)), get(eng, st, z, f)))
        c = get(eng, st, v, '2')
        if vname(eng, c) == 'None' or ctx is None:
            res.append(('function context', vname(eng, c), 'Some' if ctx is not None else 'None'))
        else:
            res.append(('function context', dref(c.a[2]), ctx))
        return res
    against_spec(o, key, 'any line', r, spec, outputs)


# ---------------------------------------------------------------- one hunk
def parser_of(v):
    its = {x for x in mentions(v) if x.op == 'it' and x.a[0] == 'slice'}
    if len(its) != 1:
        raise Unsupported('position of the parser')
    return its.pop()


def one_hunk(o, key):
    r = run_on_parser(o, key, 'any position of any text', cuts=exact_cuts(o, {
        'diffy::patch::parse::hunk_header': call_cut('header'), 'diffy::patch::parse::hunk_lines': parser_cut('body')}))
    if r is None:
        return
    eng = r.eng
    hty = ret_ty(o, ('diffy::patch::parse::hunk_header',), key)
    bty = ret_ty(o, ('diffy::patch::parse::hunk_lines',), key)
    st0 = r.paths[0].st if r.paths else None
    pos = atom(mk('in', 'pos', -1), 0, MAXLEN)

    def spec(a):
        it = parser_of(a.st.cells[('in', 'a0')])
        lines, n = it.a[1], it.a[4]
        a.need(ge(sub(sub(n, pos), ONE)))
        ln = dref(a.eng.seqget(a.st, lines, pos, it.a[2]))
        h = a.ok(opaque(a.eng, a.st, 'header', [ln], hty))
        b = a.ok(opaque(a.eng, a.st, 'body', [lines, add(pos, ONE)], bty))
        for i, table in ((0, PRE), (1, POST)):
            want = get(a.eng, a.st, h, '%d.len' % i)
            ns, others = counts_in(a.eng, a.st, b, list(a.st.lin) + list(a.st.lits), table)
            if ns:
                a.need(eq0(sub(want, ns[0])))
            elif any(want.a[1][0][0] in {t for t, _ in f.a[1]} for f in a.st.lin) or any(want.a[1][0][0] in mentions(f) for f in a.st.lits):
                raise Unsupported('the count compared with the header is not recognised')
            else:
                # the length in the header is not looked at: it may be anything
                a.pick([(True, a.st), (False, a.st)]) or reject()
        return h, b, add(pos, ONE)

    def outputs(eng, st, p, w):
        v = p.val.a[2]
        h, b, _ = w
        res = []
        for i, n in ((0, 'old_range'), (1, 'new_range')):
            for f in ('start', 'len'):
                res.append(('%s of the %s' % (f, n), get(eng, st, v, '%s.%s' % (n, f)), get(eng, st, h, '%d.%s' % (i, f))))
        res.append(('lines', dref(get(eng, st, v, 'lines')), dref(b)))
        it = parser_of(st.cells[('in', 'a0')])
        end = atom(mk('call', "body'", it.a[1], add(pos, ONE), -1), 0, MAXLEN)
        res.append(('position after the hunk', it.a[3], end))
        return res
    against_spec(o, key, 'any position of any text', r, spec, outputs)


def reject():
    raise Reject


# ---------------------------------------------------------------- order of the hunks
def order(o, key):
    r = o.run(key, 'any hunks')
    if r is None:
        return
    eng, rep, nm = r.eng, o.rep, o.d.name(key)
    hs = dref(eng.args[0])
    base, off = base_of(hs)
    n = seqlen(hs)
    bad, unk = [], []
    seen = set()
    for p in r.paths:
        t = truth(p.st, p.val)
        anys = {(f, v) for f, v in p.st.lits.items() if f.op == 'any'}
        if t is None or len(anys) > 1:
            unk.append('result %s' % short(eng, p.val))
            continue
        if not anys:
            # without looking at the hunks: fine only for fewer than two of them
            if t and p.st.decide(ge(sub(ONE, n))) is True:
                continue
            s = p.st.copy()
            if exact(s) and s.addlin(sub(n, num(2))) and feasible(s):
                bad.append('%s for two or more hunks that are not compared' % ('accepts' if t else 'rejects'))
            elif not t:
                bad.append('rejects a list of fewer than two hunks') if exact(s) else unk.append('rejects')
            continue
        f, v = anys.pop()
        if f not in seen:
            seen.add(f)
            q, text = overlap(eng, p.st, f, base, n)
            if q == 'ne':
                bad.append(text)
            elif q == '?':
                unk.append(text)
        if v == t:
            bad.append('%s hunks of which %s overlap' % ('accepts' if t else 'rejects', 'some' if v else 'none'))
    if bad:
        rep.bad('%s|order' % nm, '%s: %s' % (o.where(key), bad[0]))
    elif unk:
        rep.unk('%s: %s' % (nm, unk[0]))
    else:
        rep.good('%s: true exactly when each hunk ends, on both sides, no later than the next one starts' % nm)


def truth(st, v):
    if v is TRUE or v is FALSE:
        return v is TRUE
    return st.decide(v)


def overlap(eng, st, f, base, n):
    lo, hi, guards = f.a
    els = {x for g in guards for t in g for x in mentions(t) if x.op == 'el' and x.a[0] is base}
    bvs = {y for x in els for y in mentions(x.a[1]) if y.op == 'bv'}
    if len(bvs) != 1:
        return '?', 'hunks compared are not recognised'
    bv = atom(bvs.pop(), 0, MAXLEN)
    offs = sorted({x.a[1].a[0] for x in els if x.a[1].op == 'lin'})
    ety = [x for x in els][0].a[2]
    for k in (2, 3, 4):
        if len({x.a[1] for x in els}) == 2 and all(isnum(sub(x.a[1], scale(bv, k))) for x in els):
            return 'ne', 'only one pair of every %d neighbours is compared' % k
    if len(offs) > 2 or any(not isnum(sub(x.a[1], bv)) for x in els):
        return '?', 'which hunks are compared is not recognised'
    k = offs[0]
    if len(offs) == 1:
        return '?', 'a hunk compared with itself'
    if offs[1] != k + 1:
        return 'ne', 'hunks that are not neighbours are compared'
    a, b = add(lo, num(k)), add(hi, num(k))
    for got, want, text in ((a, ZERO, 'the first pair compared is number %s'), (b, sub(n, ONE), 'the pairs compared end at %s')):
        d = sub(got, want)
        if st.decide(eq0(d)) is not True:
            return ('ne' if isnum(d) else '?'), text % short(eng, got)
    x, y = (eng.baseget(st, base, add(bv, num(k + i)), ety) for i in (0, 1))
    s0 = St()
    fs = []
    for side in ('old_range', 'new_range'):
        e = add(get(eng, s0, x, side + '.start'), get(eng, s0, x, side + '.len'))
        fs.append(ge(sub(sub(e, get(eng, s0, y, side + '.start')), ONE)))
        s0.addlin(sub(num(2 ** 64 - 1), e))
    spec = [(g,) for g in fs]
    return same_dnf(eng, s0, guards, spec)


def same_dnf(eng, st, D, S):
    """two disjunctions of conjunctions of linear facts"""
    for A, B, what in ((D, S, 'hunks are turned away that do not overlap'), (S, D, 'hunks that overlap or are out of order are accepted')):
        for g in A:
            sts = assume_all(st, g)
            for c in B:
                sts = [u for s in sts for h in c for u in s.assume(neg(h))]
            for s in sts:
                if feasible(s):
                    if exact(s) and all(f.op in ('ge', 'eq0') for f in s.lits):
                        return 'ne', '%s (case: %s)' % (what, ' & '.join(facts(eng, s))[:400])
                    return '?', what
    return 'eq', ''


# ---------------------------------------------------------------- all hunks of a text
def hunk_list(o, key):
    r = run_on_parser(o, key, 'any position of any text', cuts=exact_cuts(o, {
        'diffy::patch::parse::hunk': parser_cut('hunk'), 'diffy::patch::parse::verify_hunks_in_order': call_cut('ordered')}))
    if r is None:
        return
    eng, rep, nm = r.eng, o.rep, o.d.name(key)
    out = []
    rds = [rd for rd in rounds(eng) if any(t.op == 'call' and t.a[0] == 'hunk' for _, _, s2, _ in rd.rows for t in s2.disc)]
    if len({x.rec.site for x in rds}) != 1:
        rep.unk('%s: %d loops over the hunks' % (nm, len({x.rec.site for x in rds})))
        return
    recs = {id(x.rec) for x in rds}
    lists = {}
    for rd in rds:
        it = parser_of(rd.hs.cells[('in', 'a0')])
        n, pos = it.a[4], it.a[3]
        accs = rd.seqs()
        if len(accs) != 1:
            raise Unsupported('%d lists in the loop over the hunks' % len(accs))
        acc = accs[0]
        lists[rd.part.idx] = acc
        m0 = rd.L.match(rd.part, {c: rd.rec.st0.cells[c] for c in rd.part.cells if c in rd.rec.st0.cells}) if len(rd.rec.parts) == 1 else None
        if m0 is None:
            out.append(('?', 'loop of several phases'))
        else:
            v = same(rd.rec.st0, subst(pos, m0), atom(mk('in', 'pos', -1), 0, MAXLEN))
            if v != 'eq':
                out.append((v, 'the hunks are not read from where the parser stands'))
            a0 = m0.get(acc)
            if a0 is None or a0.op != 'seq' or a0.a:
                out.append(('?', 'the list of hunks does not start empty'))
        for i, kind, s2, g in rd.rows:
            calls = [t for t in s2.disc if t.op == 'call' and t.a[0] == 'hunk' and t not in rd.hs.disc]
            more = s2.decide(ge(sub(sub(n, pos), ONE)))
            if kind != 'back':
                continue
            if more is not True or len(calls) != 1:
                out.append(('?', 'a round without a line or with %d hunks' % len(calls)))
                continue
            c = calls[0]
            if c.a[2] is not pos:
                out.append(('ne' if isnum(sub(c.a[2], pos)) else '?', 'lines before a hunk are skipped'))
            if eng.types[eng.tyof(c)]['variants'][s2.disc[c]]['name'] != 'Ok':
                out.append(('ne', 'a malformed hunk is passed over'))
                continue
            a = rd.after(s2)
            gain = rd.suffix(acc, a.get(acc)) if a.get(acc) is not None else None
            want = seq(mk('el1', get(eng, s2, c, '?Ok.0')))
            if gain is None:
                out.append(('?', 'what becomes of a hunk'))
            else:
                v = same(s2, norm(eng, s2, gain), norm(eng, s2, want))
                if v != 'eq':
                    out.append(('ne' if not gain.a else v, 'after a hunk was read the list has gained %s' % short(eng, gain)))
            p2 = subst(pos, a)
            w2 = atom(mk('call', "hunk'", it.a[1], pos, -1), 0, MAXLEN)
            if p2 is not w2:
                out.append(('ne' if isnum(sub(p2, w2)) else '?', 'the next hunk is read at %s' % short(eng, p2)))
    early = False
    elsewhere = {o.p.insts[k]['name'] for k in callers(o.p, 'diffy::patch::parse::verify_hunks_in_order')} - {'diffy::patch::parse::hunks'}
    for p in sorted(r.paths, key=lambda p: vname(eng, p.val) != 'Err'):
        mine = [x for x in p.st.trail if id(x[0]) in recs]
        if not mine:
            out.append(('?', 'a result without reading the hunks'))
            continue
        acc = lists[mine[-1][1]]
        it = parser_of([rd for rd in rds if rd.part.idx == mine[-1][1]][0].hs.cells[('in', 'a0')])
        kind = vname(eng, p.val)
        case = ' & '.join(facts(eng, p.st))[:300]
        calls = [t for t in p.st.disc if t.op == 'call' and t.a[0] == 'hunk']
        if any(eng.types[eng.tyof(t)]['variants'][p.st.disc[t]]['name'] == 'Err' for t in calls):
            if kind != 'Err':
                out.append(('ne', 'a malformed hunk is accepted'))
            continue
        done = p.st.decide(ge(sub(it.a[3], it.a[4])))
        if done is not True:
            out.append(('?' if done is None or kind == 'Err' else 'ne', '%s before the end of the text' % kind))
            early = early or kind == 'Err'
            continue
        arg = whole(acc)
        ords = {f: v for f, v in p.st.lits.items() if f.op == 'p' and f.a[0].op == 'call' and f.a[0].a[0] == 'ordered'}
        other = [x for x in p.st.trail if id(x[0]) not in recs]
        if len(ords) > 1 or other:
            out.append(('?', 'order checked in several places'))
            continue
        if not ords:
            if kind == 'Ok':
                empty = p.st.decide(ge(sub(ONE, seqlen(arg))))
                if empty is not True:
                    out.append(('ne' if not elsewhere and not early and not any(x.op == 'unk' for f in p.st.lits for x in mentions(f)) else '?',
                                'the hunks are accepted without checking their order'))
            else:
                out.append(('?', 'hunks rejected: %s' % case))
            continue
        f, v = list(ords.items())[0]
        if f.a[0].a[1] is not arg:
            out.append(('?', 'the order of other hunks is checked'))
        elif v != (kind == 'Ok'):
            out.append(('ne', 'hunks %s order are %s' % ('in' if v else 'out of', 'accepted' if kind == 'Ok' else 'rejected')))
        elif kind == 'Ok':
            w = same(p.st, p.val.a[2], arg)
            if w != 'eq':
                out.append((w, 'the result is not the list of the hunks'))
    report(o, key, out, 'hunks are read up to the end of the text, each where the one before ended, all of them are kept, and their order is checked')


def norm(eng, st, s):
    """a list element expanded as far as its parts are known"""
    out = []
    for q in s.a:
        if q.op == 'el1':
            x = q.a[0]
            if x.op != 'adt':
                y = eng.expand(st, x)
                x = y if y.op == 'adt' else x
            out.append(mk('el1', deep_expand(eng, st, x)))
        else:
            out.append(q)
    return seq(*out)


def deep_expand(eng, st, x):
    if x.op in ('ref',):
        return deep_expand(eng, st, x.a[0])
    if x.op == 'adt':
        return mk('adt', x.a[0], x.a[1], *[deep_expand(eng, st, y) for y in x.a[2:]])
    if x.op in eng.OPAQUE:
        t = eng.types[eng.tyof(x)]
        if t['k'] == 'adt' and len(t['variants']) == 1:
            y = eng.expand(st, x)
            if y.op == 'adt':
                return deep_expand(eng, st, y)
    return x


def report(o, key, out, good):
    nm = o.d.name(key)
    seen = set()
    for v, text in out:
        if text in seen:
            continue
        seen.add(text)
        if v == 'ne':
            o.rep.bad('%s|%s' % (nm, text[:60]), '%s: %s' % (o.where(key), text))
        else:
            o.rep.unk('%s: %s' % (nm, text))
    if not out:
        o.rep.good('%s: %s' % (nm, good))


# ---------------------------------------------------------------- what stands before the hunks
def preamble(o, key):
    r = run_on_parser(o, key, 'any position of any text')
    if r is None:
        return
    eng, out = r.eng, []
    rds = rounds(eng)
    if len({x.rec.site for x in rds}) != 1 or len(rds) != 1:
        raise Unsupported('%d loops over the preamble' % len(rds))
    rd = rds[0]
    it = parser_of(rd.hs.cells[('in', 'a0')])
    n, pos = it.a[4], it.a[3]
    m0 = rd.L.match(rd.part, {c: rd.rec.st0.cells[c] for c in rd.part.cells})
    if m0 is None or same(rd.rec.st0, subst(pos, m0), atom(mk('in', 'pos', -1), 0, MAXLEN)) != 'eq':
        raise Unsupported('where the preamble starts')
    x = dref(eng.seqget(rd.hs, it.a[1], pos, it.a[2]))
    classes = [('a --- line', True, [('sw', b'--- ')]), ('a +++ line', True, [('sw', b'+++ ')]), ('a hunk line', True, [('sw', b'@@ ')]),
               ('any other line', False, [('!sw', b'--- '), ('!sw', b'+++ '), ('!sw', b'@@ ')])]
    for lab, stop, fs in classes + [('the end of the text', True, None)]:
        st = rd.hs.copy()
        room = sub(sub(n, pos), ONE)
        if fs is None:
            sts = st.assume(neg(ge(room)))
        else:
            sts = [t for s in st.assume(ge(room)) for t in assume_all(s, [mk('sw', x, c) if k == 'sw' else neg(mk('sw', x, c)) for k, c in fs])]
        for s0 in sts:
            for i, kind, s2, g in rd.rows:
                for s in assume_all(s0, g):
                    if not feasible(s):
                        continue
                    only = all(not (f.op in INEXACT) for f in s.lits)
                    if kind == 'back':
                        p2 = subst(pos, rd.after(s2))
                        if stop:
                            out.append(('ne' if only else '?', '%s is skipped' % lab))
                        elif same(s, p2, add(pos, ONE)) != 'eq':
                            out.append(('ne' if isnum(sub(p2, pos)) else '?', 'after %s the parser moves to %s' % (lab, short(eng, p2))))
                    elif not stop:
                        out.append(('ne' if only else '?', 'reading stops at %s' % lab))
    for p in r.paths:
        if vname(eng, p.val) != 'Ok':
            out.append(('?', 'an error in the preamble'))
    report(o, key, out, 'lines are skipped up to the first file name or hunk, which is left to be read')


def file_lines(o, key):
    nty = ret_ty(o, ('diffy::patch::parse::parse_filename',), key)

    def skip(eng, st, c):
        return [(st, eng.variant(c.dty, 'Ok', models.unitv(eng, eng.fields(c.dty, eng.vidx(c.dty, 'Ok'))[0])))]
    if not o.d.find('diffy::patch::parse::skip_header_preamble'):
        raise Unsupported('preamble not skipped by a function of its own')
    cuts = exact_cuts(o, {'diffy::patch::parse::parse_filename': call_cut('name'), 'diffy::patch::parse::skip_header_preamble': skip})
    A, B, O, E = '---', '+++', 'other', 'end'
    seqs = [(E,), (O,)] + [(a, z) for a in (A, B) for z in (E, O)] + [(a, a, z) for a in (A, B) for z in (E, O)] + \
        [(a, b, z) for a, b in ((A, B), (B, A)) for z in (E, O)] + \
        [(a, b, c, E) for a, b in ((A, B), (B, A)) for c in (A, B)]
    pos = atom(mk('in', 'pos', -1), 0, MAXLEN)
    for ss in seqs:
        def pre(eng, st, args, ss=ss):
            it = parser_of(st.cells[('in', 'a0')])
            sts = [st]
            for i, c in enumerate(ss):
                at = add(pos, num(i))
                room = sub(sub(it.a[4], at), ONE)
                if c == E:
                    sts = [t for s in sts for t in s.assume(neg(ge(room)))]
                    continue
                sts = [t for s in sts for t in s.assume(ge(room))]
                x = dref(eng.seqget(st, it.a[1], at, it.a[2]))
                fs = [mk('sw', x, b'--- ')] if c == A else [mk('sw', x, b'+++ ')] if c == B else \
                    [neg(mk('sw', x, b'--- ')), neg(mk('sw', x, b'+++ '))]
                sts = [t for s in sts for t in assume_all(s, fs)]
            return sts
        label = 'lines: ' + ', '.join(ss)
        r = run_on_parser(o, key, label, pre=pre, cuts=cuts, peel=4)
        if r is None:
            continue

        def spec(a, ss=ss):
            it = parser_of(a.st.cells[('in', 'a0')])
            got = {A: None, B: None}
            i = 0
            for c in ss:
                if c in (E, O):
                    break
                if got[c] is not None:
                    raise Reject
                x = dref(a.eng.seqget(a.st, it.a[1], add(pos, num(i)), it.a[2]))
                got[c] = a.ok(opaque(a.eng, a.st, 'name', [lit((c + ' ').encode()), x], nty))
                i += 1
            return got[A], got[B], i

        def outputs(eng, st, p, w):
            v = p.val.a[2]
            res = []
            for i, n in ((0, 'name on the --- line'), (1, 'name on the +++ line')):
                f = get(eng, st, v, str(i))
                if w[i] is None or f.op == 'adt' and vname(eng, f) == 'None':
                    res.append((n, f.op == 'adt' and vname(eng, f) == 'None', w[i] is None))
                else:
                    if f.op != 'adt':
                        raise Unsupported(n)
                    res.append((n, f.a[2], w[i]))
            res.append(('position of the first hunk', parser_of(st.cells[('in', 'a0')]).a[3], add(pos, num(w[2]))))
            return res
        against_spec(o, key, label, r, spec, outputs)


# ---------------------------------------------------------------- the whole text
def whole_text(o, key):
    r = o.run(key, 'any text', cuts={**line_cuts(o.p), **exact_cuts(o, {
        'diffy::patch::parse::patch_header': parser_cut('names'), 'diffy::patch::parse::hunks': parser_cut('hunks')})})
    if r is None:
        return
    raw = any('[u8]' in o.p.types[o.p.insts[key]['body']['locals'][1]]['s'] for _ in (0,))
    fake = [k for k in o.d.find('diffy::patch::parse::hunks') if ('[u8]' in o.p.insts[k]['inst']) == raw]
    if not fake:
        raise Unsupported('list of hunks')
    nty = ret_ty(o, ('diffy::patch::parse::patch_header',), fake[0])
    hty = o.p.insts[fake[0]]['body']['locals'][0]
    lines = whole(mk('lines', dref(r.eng.args[0])))

    def spec(a):
        ns = a.ok(opaque(a.eng, a.st, 'names', [lines, ZERO], nty))
        at = atom(mk('call', "names'", lines, ZERO, -1), 0, MAXLEN)
        hs = a.ok(opaque(a.eng, a.st, 'hunks', [lines, at], hty))
        return ns, hs

    def outputs(eng, st, p, w):
        ns, hs = w
        v = p.val.a[2]
        res = [('hunks', dref(get(eng, st, v, 'hunks')), dref(hs))]
        for f, i in (('original', 0), ('modified', 1)):
            g, x = get(eng, st, v, f), get(eng, st, ns, str(i))
            d = st.disc.get(x)
            if g.op != 'adt' or d is None:
                raise Unsupported('name of the %s file' % f)
            d = eng.types[eng.tyof(x)]['variants'][d]['name']
            res.append(('presence of the %s name' % f, vname(eng, g), d))
            if d == 'Some' == vname(eng, g):
                res.append(('%s name' % f, text_of(eng, st, g.a[2]), text_of(eng, st, get(eng, st, x, '?Some.0'))))
        return res
    # that the names of a str patch are UTF-8 is part of C10
    against_spec(o, key, 'any text', r, spec, outputs, panics=False)


def text_of(eng, st, v):
    """the text in a Filename(Cow(..))"""
    v = dref(v)
    while v.op == 'adt' and len(v.a) == 3:
        v = dref(v.a[2])
    if v.op in eng.OPAQUE and eng.types[eng.tyof(v)]['k'] == 'adt':
        t = eng.types[eng.tyof(v)]
        d = st.disc.get(v)
        if d is not None:
            return text_of(eng, st, get(eng, st, v, '?%s.0' % t['variants'][d]['name']))
        if len(t['variants']) == 1:
            return text_of(eng, st, get(eng, st, v, '0'))
    return v
