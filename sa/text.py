"""More text operations: trimming, character classes, case."""
from sa.models import *
from sa.models import model, sq, deref, pattern, charset, some, none
from sa.loops import mask_pred

WS = {9, 10, 12, 13, 32}
UWS = {9, 10, 11, 12, 13, 32, 0x85, 0xa0}


def charset_of(st, eng, v):
    """the set of byte values a pattern matches, when it is a character, an array of characters or a string of one"""
    cs = charset(st, eng, v)
    if cs is not None and all(x < 128 for x in cs):
        return set(cs)
    p = pattern(st, eng, v)
    if isinstance(p, bytes) and len(p) == 1:
        return set(p)
    return None


def possible(st, s, cs):
    """bytes of cs the facts do not exclude from s altogether"""
    left = set(cs)
    for f, v in st.lits.items():
        if v or not f.a or f.a[0] is not s:
            continue
        if f.op == 'has' and isinstance(f.a[1], bytes) and len(f.a[1]) == 1:
            left -= set(f.a[1])
        elif f.op == 'any' and isinstance(f.a[1], (bytes, tuple)) and len(f.a[1]) == 256:
            left -= {b for b in range(256) if f.a[1][b]}
    return left


def trim_side(eng, st, s, cs, tag, end):
    """[(state, trimmed)] of one side: nothing, exactly one or at least two characters go"""
    b = litval(s)
    if b is not None:
        n = len(b)
        t = bytes(sorted(cs))
        r = b.rstrip(t) if end else b.lstrip(t)
        k = num(n - len(r))
        return [(st, subseq(s, ZERO, sub(seqlen(s), k), st) if end else subseq(s, k, seqlen(s), st))]
    edge = disj(*[pred(st, eng, 'ew' if end else 'sw', s, bytes([c])) for c in sorted(cs) if c < 128])
    y, n = [], []
    rest = [st]
    for c in sorted(cs):
        if c >= 128:
            continue
        f = pred(st, eng, 'ew' if end else 'sw', s, bytes([c]))
        y += [t for x in rest for t in x.assume(f)]
        rest = [t for x in rest for t in x.assume(neg(f))]
    out = [(t, s) for t in rest]
    L = seqlen(s)
    for t in y:
        if t.decide(ge(sub(L, num(2)))) is False:
            out.append((t, subseq(s, ZERO, ZERO, t)))
            continue
        u = mk('p', mk('trimmore', s, tag, end, -1))
        for more in t.assume(u):
            k = atom(mk('trimk' if possible(t, s, cs) else 'unk', s, tag, end, -1), 2, MAXLEN)
            for m in more.assume(ge(sub(L, k))):
                out.append((m, subseq(s, ZERO, sub(L, k), m) if end else subseq(s, k, L, m)))
        for m in t.assume(neg(u)):
            out.append((m, subseq(s, ZERO, sub(L, ONE), m) if end else subseq(s, ONE, L, m)))
    return out


def trim(eng, st, c, cs, sides):
    s = sq(st, eng, c.args[0])
    cur = [(st, s)]
    for end in (True, False):
        if (end and 'e' in sides) or (not end and 's' in sides):
            cur = [r for t, x in cur for r in trim_side(eng, t, x, cs, ''.join(map(chr, sorted(cs))), end)]
    return [(t, mk('ref', x)) for t, x in cur]


def trim_str(eng, st, c, p, sides):
    """the same for a pattern of several characters"""
    cur = [(st, sq(st, eng, c.args[0]))]
    for end in (True, False):
        if not ((end and 'e' in sides) or (not end and 's' in sides)):
            continue
        out = []
        for s0, s in cur:
            b = litval(s)
            if b is not None:
                n = len(b)
                while b.endswith(p) if end else b.startswith(p):
                    b = b[:-len(p)] if end else b[len(p):]
                out.append((s0, subseq(s, ZERO, num(len(b)), s0) if end else subseq(s, num(n - len(b)), num(n), s0)))
                continue
            f = pred(s0, eng, 'ew' if end else 'sw', s, p)
            L = seqlen(s)
            out += [(t, s) for t in s0.assume(neg(f))]
            for t in s0.assume(f):
                u = mk('p', mk('trimmore', s, p, end, -1))
                for more in t.assume(u):
                    k = atom(mk('trimk', s, p, end, -1), 2 * len(p), MAXLEN)
                    for m in more.assume(ge(sub(L, k))):
                        out.append((m, subseq(s, ZERO, sub(L, k), m) if end else subseq(s, k, L, m)))
                for m in t.assume(neg(u)):
                    for m in m.assume(ge(sub(L, num(len(p))))):
                        out.append((m, subseq(s, ZERO, sub(L, num(len(p))), m) if end else subseq(s, num(len(p)), L, m)))
        cur = out
    return [(t, mk('ref', x)) for t, x in cur]


for _n, _s in (('trim', 'se'), ('trim_start', 's'), ('trim_end', 'e'), ('trim_left', 's'), ('trim_right', 'e')):
    model('core::str::<impl str>::' + _n)(lambda eng, st, c, _s=_s: trim(eng, st, c, WS | {11}, _s))
for _n, _s in (('trim_ascii', 'se'), ('trim_ascii_start', 's'), ('trim_ascii_end', 'e')):
    for _p in ('core::str::<impl str>::', 'core::slice::ascii::<impl [u8]>::'):
        model(_p + _n)(lambda eng, st, c, _s=_s: trim(eng, st, c, WS, _s))
for _n, _s in (('trim_matches', 'se'), ('trim_start_matches', 's'), ('trim_end_matches', 'e')):
    def _f(eng, st, c, _s=_s):
        cs = charset_of(st, eng, c.args[1])
        if cs is None:
            p = pattern(st, eng, c.args[1])
            return trim_str(eng, st, c, p, _s) if isinstance(p, bytes) and p else None
        return trim(eng, st, c, cs, _s)
    model('core::str::<impl str>::' + _n)(_f)


def in_set(eng, st, x, cs):
    """formula: the number x is one of cs"""
    k = eng.cv(st, x)
    if k is not None:
        return boolc(k in cs)
    cs = sorted(cs)
    rs = []
    for v in cs:
        if rs and rs[-1][1] == v - 1:
            rs[-1][1] = v
        else:
            rs.append([v, v])
    return disj(*[eq0(sub(x, num(a))) if a == b else conj(ge(sub(x, num(a))), ge(sub(num(b), x))) for a, b in rs])


R = range
CLASSES = {
    'is_ascii_whitespace': WS,
    'is_ascii_digit': set(R(48, 58)), 'is_ascii_lowercase': set(R(97, 123)), 'is_ascii_uppercase': set(R(65, 91)),
    'is_ascii_alphabetic': set(R(65, 91)) | set(R(97, 123)),
    'is_ascii_alphanumeric': set(R(48, 58)) | set(R(65, 91)) | set(R(97, 123)),
    'is_ascii_control': set(R(0, 32)) | {127}, 'is_ascii_graphic': set(R(33, 127)), 'is_ascii': set(R(0, 128)),
    'is_ascii_punctuation': set(R(33, 48)) | set(R(58, 65)) | set(R(91, 97)) | set(R(123, 127)),
    'is_ascii_hexdigit': set(R(48, 58)) | set(R(65, 71)) | set(R(97, 103)),
}
for _n, _cs in CLASSES.items():
    for _p in ('core::num::<impl u8>::', 'core::char::methods::<impl char>::'):
        model(_p + _n)(lambda eng, st, c, _cs=_cs: [(st, in_set(eng, st, deref(st, eng, c.args[0]), _cs))])


def uni(low):
    def f(eng, st, c):
        x = deref(st, eng, c.args[0])
        k = eng.cv(st, x)
        if k is not None and k < 128:
            return [(st, boolc(k in low))]
        out = []
        for t in st.assume(ge(sub(num(127), x))):
            out.append((t, in_set(eng, t, x, low)))
        for t in st.assume(ge(sub(x, num(128)))):
            out.append((t, mk('p', mk('charclass', c.name, x, -1))))
        return out
    return f


model('core::char::methods::<impl char>::is_whitespace')(uni(WS | {11}))
model('core::char::methods::<impl char>::is_control')(uni(set(R(0, 32)) | {127}))
model('core::char::methods::<impl char>::is_numeric')(uni(set(R(48, 58))))
model('core::char::methods::<impl char>::is_alphanumeric')(uni(CLASSES['is_ascii_alphanumeric']))
model('core::char::methods::<impl char>::is_alphabetic')(uni(CLASSES['is_ascii_alphabetic']))


@model('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def m_eqic(eng, st, c):
    a, b = sq(st, eng, c.args[0]), sq(st, eng, c.args[1])
    x, y = litval(a), litval(b)
    if x is not None and y is not None:
        return [(st, boolc(x.lower() == y.lower()))]
    f = seq_eq(st, eng, a, b)
    out = [(t, TRUE) for t in st.assume(f)]
    for t in st.assume(neg(f)):
        n = sub(seqlen(a), seqlen(b))
        for u in t.assume(eq0(n)):
            out.append((u, mk('p', mk('eqic', a, b, -1))))
        out += [(u, FALSE) for u in t.assume(neg(eq0(n)))]
    return out


def cased(fn, tag):
    def f(eng, st, c):
        s = sq(st, eng, c.args[0])
        b = litval(s)
        if b is not None:
            return [(st, lit(fn(b)))]
        return [(st, seq(mk('comp', ZERO, seqlen(s), mk('opq', tag, s))))] if False else \
            [(st, seq(mk('opq', tag, s)))]
    return f


for _t in ('to_ascii_lowercase', 'to_ascii_uppercase', 'to_lowercase', 'to_uppercase'):
    _fn = bytes.lower if 'lower' in _t else bytes.upper
    for _p in ('alloc::str::<impl str>::', 'std::str::<impl str>::', 'core::str::<impl str>::',
               'std::slice::<impl [u8]>::', 'alloc::slice::<impl [u8]>::', 'core::slice::<impl [u8]>::'):
        model(_p + _t)(cased(_fn, _t))
