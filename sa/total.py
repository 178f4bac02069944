"""C10: reading, printing, reversing and applying never panic."""
import itertools
from sa.obl import *
from sa.apply import feasible
from sa.chars import plain, whole_chars
from sa.names import decoder
from sa import hunks as H

# what the property speaks about, of the public interface (roots/src/lib.rs)
OUT = ('diff_options', 'create_patch', 'merge', 'debug', 'set_', 'diffy_error', 'conflict')
# crate functions that take anything their types allow
ANYTHING = ('diffy::patch::parse::patch_header', 'diffy::patch::parse::hunks', 'diffy::apply::apply_hunk')
MAXU = 2 ** 64 - 1
QUICK = 60000


def run_c10(p, rep):
    o = Obl(p, rep)
    t = Total(o)
    t.text_stays_text()
    t.ends_fit()
    t.all_functions()
    o.done()
    rep.counts['functions that cannot panic whatever they are given'] = len(t.clean)


def unk_result(name, ok):
    """summary of a function that is known not to panic: anything may come back (with ok, only
    what succeeded)"""
    def f(eng, st, c):
        st = st.copy()
        for i, v in enumerate(c.args):
            if v.op != 'mref':
                continue
            cell, path = models.target(st, eng, v)
            old = eng.load(st, cell, path)
            tag = (name, c.path, i)
            if old.op == 'seq':
                eng.store(st, cell, path, whole(mk('unk', tag, -1)))
                continue
            its = [x for x in mentions(old) if x.op == 'it' and x.a[0] == 'slice']
            if len(its) == 1:
                new = atom(mk('unk', tag, -1), 0, MAXLEN)
                st.addlin(sub(new, its[0].a[3]))
                st.addlin(sub(its[0].a[4], new))
                eng.store(st, cell, path, subst(old, {its[0]: mk('it', *its[0].a[:3], new, *its[0].a[4:])}))
                continue
            ty = eng.tyof(old)
            if old.op == 'lin' or ty is None or ty < 0:
                return None
            eng.store(st, cell, path, eng.mat(mk('unk', tag, ty), ty))
        if ok:
            ty = eng.fields(c.dty, eng.vidx(c.dty, 'Ok'))[0]
            return [(st, eng.variant(c.dty, 'Ok', eng.mat(mk('unk', (name, c.path), ty), ty)))]
        return [(st, eng.mat(mk('unk', (name, c.path), c.dty), c.dty))]
    return f


def blamed(st):
    """{function: how much a state depends on its unknown result}"""
    out = {}
    for w, fs in ((9, st.lits), (1, st.lin), (1, st.disc)):
        for f in fs:
            for x in mentions(f):
                if x.op == 'unk' and isinstance(x.a[0], tuple) and isinstance(x.a[0][0], str):
                    out[x.a[0][0]] = out.get(x.a[0][0], 0) + w
    return out


def text_result(eng, st, c):
    """summary of the decoder of quoted names: an error, or some text"""
    if '<str>' not in eng.p.insts[c.key]['inst']:
        return None
    okty = eng.fields(c.dty, eng.vidx(c.dty, 'Ok'))[0]
    ety = eng.fields(c.dty, eng.vidx(c.dty, 'Err'))[0]
    good, bad = st.split(mk('p', mk('call', 'decoded?', strip_refs(c.args[-1]), -1)))
    s = seq(mk('opq', 'text', strip_refs(c.args[-1])))
    return [(t, eng.variant(c.dty, 'Ok', eng.variant(okty, 'Owned', s))) for t in good] + \
        [(t, eng.variant(c.dty, 'Err', mk('call', 'decoded!', strip_refs(c.args[-1]), ety))) for t in bad]


class Total:
    def __init__(self, o):
        self.o, self.p, self.rep = o, o.p, o.rep
        self.keys = self.wanted()
        self.clean = {}
        self.lines = line_cuts(self.p)
        self.decoded = {}
        self.fits = True

    def wanted(self):
        roots = {n: k for n, k in self.p.roots.items() if not any(x in n for x in OUT) and self.p.insts[k].get('body')}
        self.roots = roots
        seen = self.p.reach(roots.values())
        out = []
        for k in seen:
            i = self.p.insts[k]
            if i.get('body') and i['krate'] in ('diffy', 'diffy_roots'):
                out.append(k)
        return sorted(out, key=lambda k: self.p.insts[k]['inst'])

    # ---- what the steps rely on
    def text_stays_text(self):
        """undoing the quoting of a name turns text into text"""
        for k in self.o.find('reader of quoted names', 'diffy::patch::parse::escaped_filename', has=('<str>',)):
            name = self.o.d.name(k)
            try:
                d = decoder(self.o, k)
            except Exception as e:
                self.rep.unk('%s: %s' % (name, e))
                continue
            if d is None:
                continue
            odd = None
            cases = [bytes([b]) for b in range(256) if b != 92] + [b'\\' + bytes([b]) for b in range(128)]
            for bs in cases:
                st = d.first(bs)
                if st and all(x[0] == 'exit' for x in st):
                    continue                                  # turned away
                got = d(bs)
                if bs[0] > 127 and got != bs or bs[0] < 128 and (got in (None, '?') or any(b > 127 for b in got)):
                    odd = (bs, got)
                    break
            # bytes spelled out in numbers
            bad = None
            for bs in (b'\\303', b'\\377', b'\\xc3', b'\\xff', b'\\xC3', b'%C3', b'%c3', '\\\xe9'.encode()):
                got = d(bs, 4)
                if isinstance(got, bytes):
                    try:
                        got.decode()
                    except UnicodeDecodeError:
                        bad = (bs, got)
            if bad:
                self.rep.bad('%s|no text' % name, '%s: the quoted name %r in a text is read as %r, which is no UTF-8: '
                             'making a `str` of it panics' % (self.o.where(k), bad[0].decode(), bad[1]))
            elif odd:
                self.rep.unk('%s: the name %r is read as %r' % (name, odd[0], odd[1]))
            else:
                self.rep.good('%s: every byte above 127 is kept in its place and only ASCII takes the place of an escape: '
                              'text stays text' % name)
                self.decoded[self.p.insts[k]['name']] = text_result

    def ends_fit(self):
        """a range that the parser accepts has an end"""
        ks = self.o.find('reader of a hunk', 'diffy::patch::parse::hunk')
        self.fits = bool(ks)
        for k in ks:
            r = self.run(k, budget=900000)
            name = self.o.d.name(k)
            if r is None or r.error or r.unknown:
                self.rep.unk('%s: %s' % (name, r and (r.error or sorted(r.unknown))))
                self.fits = False
                continue
            verdict, why = self.has_end(r)
            if verdict == '?':
                again = self.run(k, budget=400000, bound=1)
                v, w = self.has_end(again)
                if v == 'ne':
                    verdict, why = v, w
            if verdict == 'eq':
                self.rep.good('%s: start and length of an accepted range add up without overflow' % name)
                continue
            self.fits = False
            r = [x for n, x in self.roots.items() if 'range_end' in n]
            panics = r and [x for x in self.o.d.run(r[0], None).panics if feasible(x.st)]
            if verdict == 'ne' and panics:
                self.rep.bad('%s|the end overflows' % name, '%s: a range whose end overflows is accepted (%s): HunkRange::end panics (%s)' % (
                    self.o.where(k), why, panics[0].where))
            else:
                self.rep.unk('%s: the end of an accepted range may overflow (%s)' % (name, why))

    def has_end(self, r):
        """do the ranges of the hunks that r accepts have an end? ('eq' / 'ne' / '?', which does not)"""
        verdict, why = 'eq', ''
        for q in r.paths:
            if vname(r.eng, q.val) != 'Ok':
                continue
            for which in ('old_range', 'new_range'):
                try:
                    start, n = (get(r.eng, q.st, q.val.a[2], '%s.%s' % (which, x)) for x in ('start', 'len'))
                except Unsupported as e:
                    verdict, why = ('?', str(e)) if verdict == 'eq' else (verdict, why)
                    continue
                over = sub(add(start, n), num(MAXU + 1))
                s = q.st.copy()
                if q.st.entails(sub(num(-1), over)) or not s.addlin(over) or not feasible(s):
                    continue
                if exact(s, start, n):
                    return 'ne', '%s: start %s, length %s' % (which, short(r.eng, start), short(r.eng, n))
                verdict, why = '?', which
        return verdict, why

    # ---- every function
    def run(self, key, budget=QUICK, cuts=None, **kw):
        b = self.p.insts[key]['body']
        locs = b['locals']

        def setup(eng, st, av):
            out = []
            for i in range(b['argc']):
                ty = locs[i + 1]
                t = eng.types[ty]
                if t['k'] == 'ref' and t.get('mut') and eng.types[t['to']].get('name', '').endswith('Parser'):
                    out.append(parser_arg(eng, st, ty, key, 'a%d' % i))
                else:
                    out.append(self.o.d.arg(eng, st, 'a%d' % i, ty))
            eng.args = out
            sts = [st]
            for a in out:
                v = dref(a)
                if v.op in ('in', 'adt', 'deref'):
                    sts = [s for s in sts if self.valid(eng, s, v)]
            return sts, out
        cc = dict(self.decoded)
        if '::LineIter' not in self.p.insts[key]['inst']:
            cc.update(self.lines)
        cc.update(cuts or {})
        return self.o.d.run(key, setup, args=[], cuts=cc, budget=budget, chars=True, **kw)

    def valid(self, eng, st, v):
        """add that the range v has an end"""
        ty = eng.tyof(v)
        if ty is None or ty < 0 or eng.types[ty].get('name', '').split('::')[-1] != 'HunkRange':
            return True
        v = eng.expand(st, v)
        if v.op != 'adt':
            return True
        return st.addlin(sub(num(MAXU), add(v.a[2], v.a[3])))

    def possible(self, eng, st):
        """may this happen, given that ranges have ends?"""
        if not feasible(st):
            return False
        rs = set()
        for f in (*st.lits, *st.lin, *st.disc):
            for x in mentions(f):
                if x.op == 'fld':
                    ty = eng.tyof(x.a[0])
                    if ty is not None and ty >= 0 and eng.types[ty].get('name', '').split('::')[-1] == 'HunkRange':
                        rs.add(x.a[0])
        s = st.copy()
        for v in rs:
            if not self.valid(eng, s, v):
                return False
        return feasible(s)

    def definite(self, eng, q):
        if not exact(q.st) or 'may be' in q.why:
            return False
        hs = set()
        for f in (*q.st.lits, *q.st.lin, *q.st.disc):
            for x in mentions(f):
                if x.op == 'unk' or x.op == 'call':
                    return False
                if x.op == 'fld':
                    ty = eng.tyof(x.a[0])
                    if ty is not None and ty >= 0:
                        t = eng.types[ty]
                        if t.get('name', '').split('::')[-1] == 'Hunk':
                            hs.add((x.a[0], x.a[2]))
                if x.op == 'utf8' and whole_chars(eng, q.st, x.a[0]) != 'no':
                    return False
        # the parts of a hunk belong together: a panic that depends on several of them may be impossible
        return all(len({i for y, i in hs if y is h}) < 2 or self.belong(eng, q.st, h) for h in {h for h, _ in hs})

    def belong(self, eng, st, h):
        """is there a hunk with these facts, whose lines are as many as its ranges say?"""
        part = {n: get(eng, st, h, n) for n in ('old_range', 'new_range', 'lines')}
        lines = dref(part['lines'])
        if plain(lines) is None or plain(lines)[0].op != 'fld':
            return False
        base = plain(lines)[0]
        known = next((n for n in range(4) if st.decide(eq0(sub(seqlen(lines), num(n)))) is True), None)
        return any(self.lines_fit(eng, st, h, base, n) for n in (range(4) if known is None else (known,))
                   if known is not None or st.decide(eq0(sub(seqlen(lines), num(n)))) is not False)

    def lines_fit(self, eng, st, h, base, n):
        """is there such a hunk with n lines?"""
        kinds = [None] * n
        for f in (*st.lits, *st.lin, *st.disc):
            for x in mentions(f):
                if x.op != 'el' or x.a[0] is not base:
                    continue
                if not isnum(x.a[1]) or not 0 <= cval(x.a[1]) < n:
                    return False                              # a line somewhere
                if f in st.disc and x is f:
                    kinds[cval(x.a[1])] = eng.types[eng.tyof(x)]['variants'][st.disc[f]]['name']
                elif n != 1 or any(y.op == 'len' and x in mentions(y) and not st.entails(sub(ONE, atom(y)))
                                   for y in mentions(f)) or not any(y.op == 'len' for y in mentions(f)):
                    return False                              # more than that the last line is short
        s = st.copy()
        if not s.addlin(sub(seqlen(whole(base)), num(n))) or not s.addlin(sub(num(n), seqlen(whole(base)))):
            return False
        for ks in itertools.product(*[[k] if k else ['Context', 'Delete', 'Insert'] for k in kinds]):
            s = st.copy()
            if all(s.addlin(L) for which, not_in in (('old_range', 'Insert'), ('new_range', 'Delete')) for L in (
                    sub(get(eng, st, h, which + '.len'), num(sum(k != not_in for k in ks))),
                    sub(num(sum(k != not_in for k in ks)), get(eng, st, h, which + '.len')))) and feasible(s):
                return True
        return False

    def judge(self, job):
        """(key, 'clean' / 'panics' / 'lost', [(definite, why, where, case)], steps, whether it always succeeds)"""
        key, budget, cuts, kw = job
        cuts = dict(cuts or {})
        for n in range(5):
            r = self.run(key, budget * (1 + 5 * n), cuts, **({'peel': 3, **kw} if n else kw))
            if (r.error or r.unknown) and not kw.get('bound'):
                return key, 'lost', [(False, r.error or 'calls outside the model: %s' % sorted(r.unknown), '', '')], r.eng.steps, False
            out, blame = [], {}
            for q in r.panics:
                if not self.possible(r.eng, q.st):
                    continue
                for x, w in blamed(q.st).items():
                    if x in cuts:
                        blame[x] = blame.get(x, 0) + w
                out.append((self.definite(r.eng, q), q.why, q.where, ' & '.join(facts(r.eng, q.st))[:500]))
            if any(x[0] for x in out) or not blame:
                break
            # look into the function it depends on most
            cuts.pop(max(sorted(blame), key=blame.get))
        out.sort(key=lambda x: not x[0])
        t = r.eng.types[self.p.insts[key]['body']['locals'][0]]
        ok = t.get('name') == 'std::result::Result' and all(p.val.op == 'adt' and vname(r.eng, p.val) == 'Ok' for p in r.paths)
        return key, 'panics' if out else 'lost' if r.error else 'clean', out[:6], r.eng.steps, ok

    def all(self, jobs):
        self.o.n['classes'] += len(jobs)
        return [r for r in H.spread(self.judge, jobs, enough=lambda r: False, most=400) if len(r) == 5]

    def all_functions(self):
        inst = {k: self.p.insts[k] for k in self.keys}
        state = {}
        todo = [k for k in self.keys if '{closure' not in inst[k]['inst']]
        cuts = {}
        for n in range(6):
            # first as they are, then with what cannot panic in place of the longer computations
            for r in self.all([(k, QUICK if n < 4 else 8 * QUICK, cuts, {}) for k in todo]):
                state[r[0]] = r
            before = len(cuts)
            free, held = {}, set()
            for k, r in state.items():
                (free.setdefault(inst[k]['name'], []).append(r) if r[1] == 'clean' else held.add(inst[k]['name']))
            cuts = {n: unk_result(n, all(r[4] for r in x)) for n, x in free.items() if n not in held and max(r[3] for r in x) > 300}
            todo = [k for k in todo if state.get(k, (0, 'lost'))[1] == 'lost']
            if not todo or n < 4 and len(cuts) == before:
                break
        self.clean = {k for k, r in state.items() if r[1] == 'clean'}
        tops = {k for k in state if k in self.roots.values() or inst[k]['name'] in ANYTHING}
        # what is left: follow a few rounds of every loop, without leaving anything out
        again = [k for k in tops - self.clean if not any(x[0] for x in state[k][2])]
        for r in self.all([(k, 6 * QUICK, None, {'bound': n}) for k in again for n in (.5, 1, 2)]):
            if any(x[0] for x in r[2]):
                state[r[0]] = r
        for k in sorted(tops, key=lambda k: inst[k]['inst']):
            name = self.o.d.name(k)
            if k in self.clean:
                self.rep.good('%s: no panic, whatever it is given' % name)
                continue
            for sure, why, where, case in state[k][2]:
                if sure:
                    self.rep.bad('%s|%s' % (where.split(' (')[0], why), '%s: %s, called from %s (case: %s)' % (where, why, name, case))
            if not any(x[0] for x in state[k][2]):
                x = state[k][2][0]
                self.rep.unk('%s: %s %s (%s)' % (name, x[1], x[2], x[3]))
        rest = sorted({inst[k]['inst'] for k in state if k not in self.clean and k not in tops})
        self.rep.notes.append('judged within their callers only: %s' % ', '.join(rest))
        self.rep.counts['functions judged within their callers'] = len(rest)
        self.rep.floor('public functions and parser entries', len(tops), 40)
        self.o.n['functions'] |= {self.o.d.name(k) for k in state}
