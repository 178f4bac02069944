"""Transfer functions of the library operations the crate is built from."""
from sa.term import *
from sa.state import *
from sa.chars import boundary, cut, whole_chars
from sa.engine import Unsupported

MODELS = {}
INDEXED = ('slice', 'mslice', 'vals', 'windows', 'chunks', 'range')
PREFIX = []


INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ints(*names, only=INTS):
    return ['core::num::<impl %s>::%s' % (t, n) for n in names for t in only]


# ---------------------------------------------------------------- helpers
def deref(st, eng, v):
    """the value behind any number of references"""
    while v.op in ('ref', 'mref'):
        v = v.a[0] if v.op == 'ref' else eng.load(st, v.a[0], v.a[1])
    return v


def one(st, eng, v):
    return v.a[0] if v.op == 'ref' else eng.load(st, v.a[0], v.a[1]) if v.op == 'mref' else v


def target(st, eng, v):
    """(cell, path) of the place a chain of mutable references ends in"""
    while True:
        if v.op != 'mref':
            raise Unsupported('mutable place expected, %s found' % v.op)
        w = eng.load(st, v.a[0], v.a[1])
        if w.op != 'mref':
            return v.a[0], v.a[1]
        v = w


def some(eng, ty, v):
    return eng.variant(ty, 'Some', v)


def none(eng, ty):
    return eng.variant(ty, 'None')


def ok(eng, ty, v):
    return eng.variant(ty, 'Ok', v)


def opt_inner(eng, ty):
    i = eng.vidx(ty, 'Some')
    return eng.fields(ty, i)[0]


def sq(st, eng, v):
    s = deref(st, eng, v)
    if s.op != 'seq':
        raise Unsupported('sequence expected, %s found' % s.op)
    return s


def bytes_of(st, eng, v):
    return litval(sq(st, eng, v))


def unitv(eng, ty):
    return mk('adt', ty, 0)


# ---------------------------------------------------------------- slices and strings
@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'std::vec::Vec::<T, A>::len',
       'std::string::String::len')
def m_len(eng, st, c):
    return [(st, seqlen(sq(st, eng, c.args[0])))]


@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty',
       'std::vec::Vec::<T, A>::is_empty', 'std::string::String::is_empty')
def m_is_empty(eng, st, c):
    return [(st, eq0(seqlen(sq(st, eng, c.args[0]))))]


@model('core::str::<impl str>::as_bytes', '<std::string::String as std::ops::Deref>::deref',
       '<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<[T] as std::convert::AsRef<[T]>>::as_ref',
       'core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref',
       'core::str::<impl std::convert::AsRef<str> for str>::as_ref',
       'std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow',
       'std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow',
       'std::string::String::as_str', 'std::vec::Vec::<T, A>::as_slice', 'std::string::String::as_bytes',
       'std::string::<impl std::convert::AsRef<[u8]> for std::string::String>::as_ref',
       'std::slice::<impl [T]>::as_ref', 'core::slice::<impl [T]>::as_slice')
def m_view(eng, st, c):
    return [(st, mk('ref', sq(st, eng, c.args[0])))]


@model('<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', '<std::string::String as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_mut_slice')
def m_view_mut(eng, st, c):
    return [(st, mk('mref', *target(st, eng, c.args[0])))]


@model('std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
       'std::slice::<impl [T]>::to_vec', '<std::vec::Vec<T, A> as std::clone::Clone>::clone',
       '<std::string::String as std::clone::Clone>::clone', 'std::string::String::into_bytes',
       '<std::string::String as std::convert::From<&str>>::from', '<str as std::string::ToString>::to_string',
       '<std::vec::Vec<T> as std::convert::From<&[T]>>::from')
def m_owned(eng, st, c):
    return [(st, sq(st, eng, c.args[0]))]


@model('std::string::<impl std::convert::From<&\'a str> for std::borrow::Cow<\'a, str>>::from',
       'std::vec::cow::<impl std::convert::From<&\'a [T]> for std::borrow::Cow<\'a, [T]>>::from')
def m_cow_b(eng, st, c):
    return [(st, eng.variant(c.dty, 'Borrowed', c.args[0]))]


@model('std::string::<impl std::convert::From<std::string::String> for std::borrow::Cow<\'a, str>>::from',
       'std::vec::cow::<impl std::convert::From<std::vec::Vec<T>> for std::borrow::Cow<\'a, [T]>>::from')
def m_cow_o(eng, st, c):
    return [(st, eng.variant(c.dty, 'Owned', c.args[0]))]


def pattern(st, eng, v):
    """a search pattern: bytes, or a set of characters as a mask"""
    w = deref(st, eng, v)
    if w.op == 'lin':
        k = eng.cv(st, w)
        if k is not None:
            return chr(k).encode('utf8')
        return None
    if w.op == 'seq':
        b = litval(w)
        if b is not None:
            return b
        return w
    return None


def charset(st, eng, v):
    w = deref(st, eng, v)
    if w.op == 'seq' and w.a and all(q.op == 'el1' and q.a[0].op == 'lin' and isnum(q.a[0]) for q in w.a):
        return [q.a[0].a[0] for q in w.a]
    return None


def pred(st, eng, op, s, pat):
    if isinstance(pat, bytes):
        if pat == b'' and op in ('sw', 'ew', 'has'):
            return TRUE
        b = litval(s)
        if b is not None:
            return boolc({'sw': b.startswith(pat), 'ew': b.endswith(pat), 'has': pat in b}[op])
        if op == 'ew':
            # the end of a concatenation
            if s.a and s.a[-1].op == 'lit':
                t = s.a[-1].a[0]
                if t.endswith(pat):
                    return TRUE
                if not pat.endswith(t) or len(t) >= len(pat):
                    return FALSE
        if op == 'sw' and s.a and s.a[0].op == 'lit':
            t = s.a[0].a[0]
            if t.startswith(pat):
                return TRUE
            if not pat.startswith(t) or len(t) >= len(pat):
                return FALSE
        return mk(op, s, pat)
    if pat is None:
        return mk('p', mk('unkpat', op, s))
    if op in ('sw', 'ew'):
        n, m = seqlen(s), seqlen(pat)
        part = subseq(s, ZERO, m, st) if op == 'sw' else subseq(s, sub(n, m), n, st)
        return conj(ge(sub(n, m)), seq_eq(st, eng, part, pat))
    return mk(op, s, pat)


@model('core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::starts_with')
def m_sw(eng, st, c):
    return [(st, pred(st, eng, 'sw', sq(st, eng, c.args[0]), pattern(st, eng, c.args[1])))]


@model('core::slice::<impl [T]>::ends_with', 'core::str::<impl str>::ends_with')
def m_ew(eng, st, c):
    return [(st, pred(st, eng, 'ew', sq(st, eng, c.args[0]), pattern(st, eng, c.args[1])))]


def plength(pat):
    return num(len(pat)) if isinstance(pat, bytes) else seqlen(pat)


@model('core::slice::<impl [T]>::strip_prefix', 'core::str::<impl str>::strip_prefix')
def m_strip_prefix(eng, st, c):
    s, pat = sq(st, eng, c.args[0]), pattern(st, eng, c.args[1])
    if pat is None:
        return None
    out = []
    y, n = st.split(pred(st, eng, 'sw', s, pat))
    for t in y:
        out.append((t, some(eng, c.dty, mk('ref', subseq(s, plength(pat), seqlen(s), t)))))
    for t in n:
        out.append((t, none(eng, c.dty)))
    return out


@model('core::slice::<impl [T]>::strip_suffix', 'core::str::<impl str>::strip_suffix')
def m_strip_suffix(eng, st, c):
    s, pat = sq(st, eng, c.args[0]), pattern(st, eng, c.args[1])
    if pat is None:
        return None
    out = []
    y, n = st.split(pred(st, eng, 'ew', s, pat))
    for t in y:
        out.append((t, some(eng, c.dty, mk('ref', subseq(s, ZERO, sub(seqlen(s), plength(pat)), t)))))
    for t in n:
        out.append((t, none(eng, c.dty)))
    return out


def find_in(eng, st, s, pat):
    """[(state, index or None)]"""
    from sa.loops import mask_pred
    out = []
    if isinstance(pat, bytes):
        if pat == b'':
            return [(st, ZERO)]
        f = pred(st, eng, 'has', s, pat)
        ix = atom(mk('find', s, pat), 0, MAXLEN)
        n = num(len(pat))
    elif isinstance(pat, tuple):
        f, ix = mask_pred(s, pat)
        n = ONE
    elif isinstance(pat, T) and pat.op == 'seq':
        f, ix, n = mk('has', s, pat), atom(mk('find', s, pat), 0, MAXLEN), seqlen(pat)
    else:
        return None
    y, no = st.split(f)
    for t in y:
        t = t.copy()
        t.addlin(sub(sub(seqlen(s), n), ix))
        out.append((t, ix))
    for t in no:
        out.append((t, None))
    return out


@model('core::str::<impl str>::find')
def m_find(eng, st, c):
    s = sq(st, eng, c.args[0])
    pat = pattern(st, eng, c.args[1])
    if not isinstance(pat, bytes) and not (pat is not None and pat.op == 'seq'):
        return None
    return [(t, none(eng, c.dty) if i is None else some(eng, c.dty, i))
            for t, i in find_in(eng, st, s, pat)]


def rfind_in(eng, st, s, pat):
    """[(state, index of the last occurrence or None)]"""
    if isinstance(pat, bytes) and pat:
        f, n = pred(st, eng, 'has', s, pat), num(len(pat))
    elif isinstance(pat, T) and pat.op == 'seq':
        f, n = mk('has', s, pat), seqlen(pat)
    else:
        return None
    ix, first = atom(mk('rfind', s, pat), 0, MAXLEN), atom(mk('find', s, pat), 0, MAXLEN)
    y, no = st.split(f)
    out = []
    for t in y:
        t = t.copy()
        t.addlin(sub(sub(seqlen(s), n), ix))
        t.addlin(sub(ix, first))
        out.append((t, ix))
    return out + [(t, None) for t in no]


@model('core::str::<impl str>::rfind')
def m_rfind(eng, st, c):
    s, pat = sq(st, eng, c.args[0]), pattern(st, eng, c.args[1])
    r = rfind_in(eng, st, s, pat)
    return r and [(t, none(eng, c.dty) if i is None else some(eng, c.dty, i)) for t, i in r]


def once(finder):
    def f(eng, st, c):
        s, pat = sq(st, eng, c.args[0]), pattern(st, eng, c.args[1])
        if not isinstance(pat, bytes) and not (isinstance(pat, T) and pat.op == 'seq'):
            return None
        r = finder(eng, st, s, pat)
        if r is None:
            return None
        n = plength(pat)
        ty = eng.fields(c.dty, eng.vidx(c.dty, 'Some'))[0]
        return [(t, none(eng, c.dty) if i is None else some(eng, c.dty, mk(
            'adt', ty, 0, mk('ref', subseq(s, ZERO, i, t)), mk('ref', subseq(s, add(i, n), seqlen(s), t))))) for t, i in r]
    return f


def pieces_of(kind):
    def f(eng, st, c):
        s, pat = sq(st, eng, c.args[0]), pattern(st, eng, c.args[1])
        if not isinstance(pat, bytes) and c.name.startswith('core::slice'):
            pat = one_byte(eng, st, c.args[1], c.path)
        if not isinstance(pat, bytes) or not pat:
            return None
        return [(st, it(kind, s, pat, TRUE))]
    return f


def one_byte(eng, st, f, path):
    """the only byte a predicate holds for"""
    hits = []
    for b in range(256):
        r = callf(eng, st.copy(), f, [mk('ref', num(b))], path)
        if len(r) != 1 or r[0][2] not in (TRUE, FALSE):
            return None
        if r[0][2] is TRUE:
            hits.append(b)
    return bytes(hits) if len(hits) == 1 else None


for _k in ('split', 'rsplit'):
    MODELS['core::str::<impl str>::' + _k] = pieces_of(_k)
    MODELS['core::slice::<impl [T]>::' + _k] = pieces_of(_k)
MODELS['core::str::<impl str>::split_once'] = once(find_in)
MODELS['core::str::<impl str>::rsplit_once'] = once(rfind_in)


@model('core::str::<impl str>::contains')
def m_str_contains(eng, st, c):
    from sa.loops import mask_pred
    s = sq(st, eng, c.args[0])
    cs = charset(st, eng, c.args[1])
    if cs is not None and all(v < 128 for v in cs):
        return [(st, mask_pred(s, tuple(v in cs for v in range(256)))[0])]
    pat = pattern(st, eng, c.args[1])
    if isinstance(pat, bytes):
        return [(st, pred(st, eng, 'has', s, pat))]
    return None


@model('core::slice::<impl [T]>::contains')
def m_contains(eng, st, c):
    s, x = sq(st, eng, c.args[0]), deref(st, eng, c.args[1])
    items = []
    for q in s.a:
        if q.op == 'lit':
            items += [num(b) for b in q.a[0]]
        elif q.op == 'el1':
            items.append(q.a[0])
        else:
            items = None
            break
    if items is not None and x.op == 'lin' and all(i.op == 'lin' for i in items):
        return [(st, disj(*[eq0(sub(x, i)) for i in items]))]
    if x.op == 'lin' and eng.cv(st, x) is not None and 0 <= eng.cv(st, x) < 256:
        return [(st, pred(st, eng, 'has', s, bytes([eng.cv(st, x)])))]
    return None


@model('core::slice::<impl [T]>::split_at', 'core::str::<impl str>::split_at')
def m_split_at(eng, st, c):
    s, m = sq(st, eng, c.args[0]), c.args[1]
    good, bad = st.split(ge(sub(seqlen(s), m)))
    for b in bad:
        eng.panic(c.fr, b, c.name, c.sp)
    for t in good:
        cut(eng, t, c, s, (m,))
    return [(t, mk('adt', c.dty, 0, mk('ref', subseq(s, ZERO, m, t)),
                   mk('ref', subseq(s, m, seqlen(s), t)))) for t in good]


def irange(eng, st, r, n):
    """bounds of a range argument against length n: (lo, hi)"""
    t = eng.types[eng.tyof(r)]
    nm = t['name']
    if nm == 'std::ops::Range':
        return r.a[2], r.a[3]
    if nm == 'std::ops::RangeFrom':
        return r.a[2], n
    if nm == 'std::ops::RangeTo':
        return ZERO, r.a[2]
    if nm == 'std::ops::RangeFull':
        return ZERO, n
    if nm == 'std::ops::RangeInclusive':
        return r.a[2], add(r.a[3], ONE)
    if nm == 'std::ops::RangeToInclusive':
        return ZERO, add(r.a[2], ONE)
    raise Unsupported('index type %s' % nm)


def index_common(eng, st, c, get):
    s, i = sq(st, eng, c.args[0]), c.args[1]
    n = seqlen(s)
    if i.op == 'lin':
        g = conj(ge(i), ge(sub(sub(n, i), ONE)))
        good, bad = st.split(g)
        return good, bad, lambda t: mk('ref', eng.seqget(t, s, i, elem_of_ret(eng, c, get)))
    lo, hi = irange(eng, st, i, n)
    good, bad = st.split(conj(ge(sub(hi, lo)), ge(sub(n, hi))))
    return good, bad, lambda t: mk('ref', subseq(s, lo, hi, t))


def elem_of_ret(eng, c, get):
    t = opt_inner(eng, c.dty) if get else c.dty
    return eng.types[t]['to']


@model('core::slice::<impl [T]>::get', 'core::str::<impl str>::get')
def m_get(eng, st, c):
    good, bad, v = index_common(eng, st, c, True)
    if eng.chars and 'str' in c.name and c.args[1].op != 'lin':
        s = sq(st, eng, c.args[0])
        for t in good:
            if any(boundary(t, s, p) != 'yes' for p in irange(eng, t, c.args[1], seqlen(s))):
                bad = bad + t.assume(mk('p', mk('unkb', ('chars', c.path))))
    return [(t, some(eng, c.dty, v(t))) for t in good] + [(t, none(eng, c.dty)) for t in bad]


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
       'core::str::traits::<impl std::ops::Index<I> for str>::index',
       '<std::string::String as std::ops::Index<I>>::index')
def m_index(eng, st, c):
    good, bad, v = index_common(eng, st, c, False)
    for b in bad:
        eng.panic(c.fr, b, 'index out of range', c.sp)
    if eng.chars and c.args[1].op != 'lin':
        s = sq(st, eng, c.args[0])
        for t in good:
            cut(eng, t, c, s, irange(eng, t, c.args[1], seqlen(s)))
    return [(t, v(t)) for t in good]


@model('<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def m_index_mut(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    s = eng.load(st, cell, path)
    i = c.args[1]
    n = seqlen(s)
    if i.op == 'lin':
        good, bad = st.split(conj(ge(i), ge(sub(sub(n, i), ONE))))
        p2 = path + (('i', i, eng.types[c.dty]['to']),)
    else:
        lo, hi = irange(eng, st, i, n)
        good, bad = st.split(conj(ge(sub(hi, lo)), ge(sub(n, hi))))
        p2 = path + (('ss', lo, hi),)
    for b in bad:
        eng.panic(c.fr, b, 'index out of range', c.sp)
    return [(t, mk('mref', cell, p2)) for t in good]


@model('core::slice::<impl [T]>::swap')
def m_swap(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    s = eng.load(st, cell, path)
    i, j = c.args[1], c.args[2]
    n = seqlen(s)
    ety = eng.types[eng.types[c.f['args'][0]]['k'] and c.f['args'][0]] and c.f['args'][0]
    good, bad = st.split(conj(ge(i), ge(sub(sub(n, i), ONE)), ge(j), ge(sub(sub(n, j), ONE))))
    for b in bad:
        eng.panic(c.fr, b, 'index out of range', c.sp)
    out = []
    for t in good:
        t = t.copy()
        x, y = eng.seqget(t, s, i, ety), eng.seqget(t, s, j, ety)
        w = eng.seqset(t, eng.seqset(t, s, i, y), j, x)
        eng.store(t, cell, path, w)
        out.append((t, unitv(eng, c.dty)))
    return out


def seq_eq(st, eng, a, b):
    if a is b:
        return TRUE
    x, y = litval(a), litval(b)
    if x is not None and y is not None:
        return boolc(x == y)
    if x is not None:
        a, b, x, y = b, a, y, x
    if y is not None:
        if y == b'':
            return eq0(seqlen(a))
        return mk('seqeq', a, y)
    if a.id > b.id:
        a, b = b, a
    return mk('seqeq', a, b)


@model('core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq', 'core::str::traits::<impl std::cmp::PartialEq for str>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq',
       'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq',
       '<std::string::String as std::cmp::PartialEq>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq')
def m_seq_eq(eng, st, c):
    return [(st, seq_eq(st, eng, sq(st, eng, c.args[0]), sq(st, eng, c.args[1])))]


@model('core::str::<impl str>::parse')
def m_parse(eng, st, c):
    s = sq(st, eng, c.args[0])
    ity = eng.fields(c.dty, eng.vidx(c.dty, 'Ok'))[0]
    ety = eng.fields(c.dty, eng.vidx(c.dty, 'Err'))[0]
    f = mk('parses', s, eng.types[ity]['s'])
    y, n = st.split(f)
    y = [t for t in y if t.addlin(sub(seqlen(s), ONE))]          # a number has a digit
    v = mk('parse', s, ity)
    return [(t, ok(eng, c.dty, atom(v, *eng.bounds(ity)))) for t in y] + \
        [(t, eng.variant(c.dty, 'Err', mk('unk', 'parse', ety))) for t in n]


@model('std::str::from_utf8', 'std::string::String::from_utf8')
def m_from_utf8(eng, st, c):
    owned = c.name.startswith('std::string')
    s = sq(st, eng, c.args[0])
    f = mk('utf8', s)
    b = litval(s)
    if b is not None:
        try:
            b.decode('utf8')
            f = TRUE
        except UnicodeDecodeError:
            f = FALSE
    elif eng.chars and whole_chars(eng, st, s) == 'yes':
        f = TRUE
    ety = eng.fields(c.dty, eng.vidx(c.dty, 'Err'))[0]
    y, n = st.split(f)
    return [(t, ok(eng, c.dty, s if owned else mk('ref', s))) for t in y] + \
        [(t, eng.variant(c.dty, 'Err', mk('unk', ('utf8', s), ety))) for t in n]


@model('std::str::Utf8Error::valid_up_to')
def m_valid_up_to(eng, st, c):
    v = deref(st, eng, c.args[0])
    if v.op != 'unk' or not isinstance(v.a[0], tuple) or v.a[0][0] != 'utf8':
        return None
    s = v.a[0][1]
    n = atom(mk('utf8upto', s), 0, MAXLEN)
    st = st.copy()
    st.addlin(sub(sub(seqlen(s), n), ONE))
    out = []
    for t in st.assume(mk('utf8', subseq(s, ZERO, n, st))):
        out.append((t, n))
    return out


# ---------------------------------------------------------------- vectors and strings, mutation
@model('std::vec::Vec::<T>::new', 'std::string::String::new', 'std::vec::Vec::<T>::with_capacity',
       'std::string::String::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default',
       '<std::string::String as std::default::Default>::default')
def m_new(eng, st, c):
    return [(st, seq())]


def modify(eng, st, ref, fn):
    cell, path = target(st, eng, ref)
    st = st.copy()
    eng.store(st, cell, path, fn(eng.load(st, cell, path), st))
    return st


@model('std::vec::Vec::<T, A>::push')
def m_push(eng, st, c):
    v = c.args[1]
    byte = eng.types[c.f['args'][0]]['s'] == 'u8'
    return [(modify(eng, st, c.args[0], lambda s, t: seq(*(s.a + (one_part(eng, t, v, byte),)))), unitv(eng, c.dty))]


def one_part(eng, st, v, byte):
    if byte and v.op == 'lin':
        k = eng.cv(st, v)
        if k is not None:
            return mk('lit', bytes([k]))
    return mk('el1', v)


def chr_part(eng, st, v):
    k = eng.cv(st, v)
    if k is not None:
        return mk('lit', chr(k).encode('utf8'))
    return mk('chr', v)


@model('std::string::String::push')
def m_spush(eng, st, c):
    return [(modify(eng, st, c.args[0], lambda s, t: seq(*(s.a + (chr_part(eng, t, c.args[1]),)))), unitv(eng, c.dty))]


@model('std::string::String::push_str', 'std::vec::Vec::<T, A>::extend_from_slice')
def m_append(eng, st, c):
    x = sq(st, eng, c.args[1])
    return [(modify(eng, st, c.args[0], lambda s, t: seq(*(s.a + x.a))), unitv(eng, c.dty))]


@model('std::vec::Vec::<T, A>::append')
def m_append_vec(eng, st, c):
    x = sq(st, eng, c.args[1])
    st = modify(eng, st, c.args[0], lambda s, t: seq(*(s.a + x.a)))
    return [(modify(eng, st, c.args[1], lambda s, t: seq()), unitv(eng, c.dty))]


@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def m_clear(eng, st, c):
    return [(modify(eng, st, c.args[0], lambda s, t: seq()), unitv(eng, c.dty))]


@model('std::vec::Vec::<T, A>::truncate', 'std::string::String::truncate')
def m_truncate(eng, st, c):
    out = []
    cell, path = target(st, eng, c.args[0])
    n = seqlen(eng.load(st, cell, path))
    y, no = st.split(ge(sub(n, c.args[1])))
    for t in y:
        cut(eng, t, c, eng.load(t, cell, path), (c.args[1],))
        out.append((modify(eng, t, c.args[0], lambda s, u: subseq(s, ZERO, c.args[1], u)), unitv(eng, c.dty)))
    return out + [(t, unitv(eng, c.dty)) for t in no]


@model('std::vec::Vec::<T, A>::pop')
def m_pop(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    s = eng.load(st, cell, path)
    n = seqlen(s)
    y, no = st.split(ge(sub(n, ONE)))
    out = []
    for t in y:
        v = eng.seqget(t, s, sub(n, ONE), opt_inner(eng, c.dty))
        w = subseq(s, ZERO, sub(n, ONE), t)
        t = t.copy()
        eng.store(t, cell, path, w)
        out.append((t, some(eng, c.dty, v)))
    return out + [(t, none(eng, c.dty)) for t in no]


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first')
def m_last(eng, st, c):
    s = sq(st, eng, c.args[0])
    n = seqlen(s)
    y, no = st.split(ge(sub(n, ONE)))
    i = ZERO if c.name.endswith('first') else sub(n, ONE)
    ety = eng.types[opt_inner(eng, c.dty)]['to']
    return [(t, some(eng, c.dty, mk('ref', eng.seqget(t, s, i, ety)))) for t in y] + \
        [(t, none(eng, c.dty)) for t in no]


@model('core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
def m_last_mut(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    s = eng.load(st, cell, path)
    n = seqlen(s)
    y, no = st.split(ge(sub(n, ONE)))
    i = ZERO if 'first' in c.name else sub(n, ONE)
    ety = eng.types[opt_inner(eng, c.dty)]['to']
    return [(t, some(eng, c.dty, mk('mref', cell, path + (('i', i, ety),)))) for t in y] + \
        [(t, none(eng, c.dty)) for t in no]


@model('std::vec::Vec::<T, A>::insert')
def m_insert(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    s, i = eng.load(st, cell, path), c.args[1]
    n = seqlen(s)
    y, no = st.split(conj(ge(i), ge(sub(n, i))))
    for t in no:
        eng.panic(c.fr, t, 'insert out of range', c.sp)
    out = []
    for t in y:
        t = t.copy()
        eng.store(t, cell, path, seq(*(subseq(s, ZERO, i, t).a + (mk('el1', c.args[2]),) + subseq(s, i, n, t).a)))
        out.append((t, unitv(eng, c.dty)))
    return out


@model('std::vec::Vec::<T, A>::remove')
def m_remove(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    s, i = eng.load(st, cell, path), c.args[1]
    n = seqlen(s)
    y, no = st.split(conj(ge(i), ge(sub(sub(n, i), ONE))))
    for t in no:
        eng.panic(c.fr, t, 'remove out of range', c.sp)
    out = []
    for t in y:
        t = t.copy()
        v = eng.seqget(t, s, i, c.dty)
        eng.store(t, cell, path, seq(*(subseq(s, ZERO, i, t).a + subseq(s, add(i, ONE), n, t).a)))
        out.append((t, v))
    return out


@model('std::vec::Vec::<T, A>::splice')
def m_splice(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    s = eng.load(st, cell, path)
    n = seqlen(s)
    lo, hi = irange(eng, st, c.args[1], n)
    y, no = st.split(conj(ge(sub(hi, lo)), ge(sub(n, hi))))
    for t in no:
        eng.panic(c.fr, t, 'splice out of range', c.sp)
    out = []
    for t in y:
        for u, it in into_iter(eng, t, c.args[2], c):
            for w, r in collect(eng, u, it, c.path, 'sp', False):
                w = w.copy()
                cur = eng.load(w, cell, path)
                eng.store(w, cell, path, seq(*(subseq(cur, ZERO, lo, w).a + r.a + subseq(cur, hi, seqlen(cur), w).a)))
                w2 = w
                out.append((w2, mk('adt', c.dty, 0)))
    return out


@model('std::vec::from_elem')
def m_from_elem(eng, st, c):
    return [(st, seq(mk('fill', c.args[0], c.args[1])))]


# ---------------------------------------------------------------- numbers
@model(*ints('saturating_sub'))
def m_satsub(eng, st, c):
    return clamped(eng, st, c, sub(c.args[0], c.args[1]))


def clamped(eng, st, c, d):
    lo, hi = eng.bounds(c.dty)
    out = [(t, d) for t in st.assume(conj(ge(sub(d, num(lo))), ge(sub(num(hi), d))))]
    out += [(t, num(lo)) for t in st.assume(ge(sub(num(lo - 1), d)))]
    return out + [(t, num(hi)) for t in st.assume(ge(sub(d, num(hi + 1))))]



@model(*ints('saturating_add'))
def m_satadd(eng, st, c):
    return clamped(eng, st, c, add(c.args[0], c.args[1]))


def checked(eng, st, c, v):
    lo, hi = eng.bounds(opt_inner(eng, c.dty))
    y, n = st.split(conj(ge(sub(v, num(lo))), ge(sub(num(hi), v))))
    return [(t, some(eng, c.dty, v)) for t in y] + [(t, none(eng, c.dty)) for t in n]


@model(*ints('wrapping_add', 'wrapping_sub'))
def m_wrapping(eng, st, c):
    d = (add if c.name.endswith('add') else sub)(c.args[0], c.args[1])
    lo, hi = eng.bounds(c.dty)
    out = []
    for t in st.assume(conj(ge(sub(d, num(lo))), ge(sub(num(hi), d)))):
        out.append((t, d))
    for t in st.assume(ge(sub(num(lo - 1), d))):
        out.append((t, add(d, num(hi - lo + 1))))
    for t in st.assume(ge(sub(d, num(hi + 1)))):
        out.append((t, sub(d, num(hi - lo + 1))))
    return out


@model(*ints('wrapping_mul'))
def m_wmul(eng, st, c):
    lo, hi = eng.bounds(c.dty)
    x, y = [cval(v) if v.op == 'lin' else None for v in c.args[:2]]
    if x is None or y is None:
        return [(st, atom(mk('unkn', 'mul', c.args[0], c.args[1]), lo, hi))]
    return [(st, num((x * y - lo) % (hi - lo + 1) + lo))]


@model(*ints('checked_add'))
def m_cadd(eng, st, c):
    return checked(eng, st, c, add(c.args[0], c.args[1]))


@model(*ints('checked_sub'))
def m_csub(eng, st, c):
    return checked(eng, st, c, sub(c.args[0], c.args[1]))


@model('core::num::<impl isize>::abs', 'core::num::<impl i64>::abs')
def m_abs(eng, st, c):
    y, n = st.split(ge(c.args[0]))
    return [(t, c.args[0]) for t in y] + [(t, scale(c.args[0], -1)) for t in n]


@model('std::intrinsics::integer_min', 'std::cmp::min', 'std::cmp::Ord::min', 'core::intrinsics::integer_min')
def m_min(eng, st, c):
    a, b = c.args
    if a.op != 'lin' or b.op != 'lin':
        return None
    y, n = st.split(ge(sub(b, a)))
    return [(t, a) for t in y] + [(t, b) for t in n]


@model('std::intrinsics::integer_max', 'std::cmp::max', 'std::cmp::Ord::max')
def m_max(eng, st, c):
    a, b = c.args
    if a.op != 'lin' or b.op != 'lin':
        return None
    y, n = st.split(ge(sub(a, b)))
    return [(t, a) for t in y] + [(t, b) for t in n]


@model('std::char::convert::<impl std::convert::From<u8> for char>::from',
       'std::char::convert::<impl std::convert::From<char> for u32>::from',
       'std::char::convert::<impl std::convert::From<char> for u64>::from',
       *['std::convert::num::<impl std::convert::From<%s> for %s>::from' % (a, b) for a in INTS for b in INTS])
def m_widen(eng, st, c):
    return [(st, c.args[0])] if c.args[0].op == 'lin' else None


@model('std::char::convert::<impl std::convert::TryFrom<char> for u8>::try_from',
       *['std::convert::num::<impl std::convert::TryFrom<%s> for %s>::try_from' % (a, b) for a in INTS for b in INTS],
       *['std::convert::num::ptr_try_from_impls::<impl std::convert::TryFrom<%s> for %s>::try_from' % (a, b) for a in INTS for b in INTS])
def m_try_narrow(eng, st, c):
    x = c.args[0]
    if x.op != 'lin':
        return None
    okty = eng.fields(c.dty, eng.vidx(c.dty, 'Ok'))[0]
    ety = eng.fields(c.dty, eng.vidx(c.dty, 'Err'))[0]
    lo, hi = eng.bounds(okty)
    y, n = st.split(conj(ge(sub(x, num(lo))), ge(sub(num(hi), x))))
    return [(t, ok(eng, c.dty, x)) for t in y] + [(t, eng.variant(c.dty, 'Err', mk('unk', 'no such number', ety))) for t in n]


@model(*['std::convert::num::<impl std::convert::From<bool> for %s>::from' % b for b in INTS])
def m_from_bool(eng, st, c):
    y, n = st.split(c.args[0])
    return [(t, ONE) for t in y] + [(t, ZERO) for t in n]


@model('std::hint::must_use', 'core::hint::must_use', 'std::hint::black_box', 'std::convert::identity', 'core::convert::identity')
def m_identity(eng, st, c):
    return [(st, c.args[0])]


@model(*['std::clone::impls::<impl std::clone::Clone for %s>::clone' % t for t in INTS + ('bool', 'char')],
       '<std::ops::Range<Idx> as std::clone::Clone>::clone', '<std::ops::RangeFrom<Idx> as std::clone::Clone>::clone',
       '<std::ops::RangeTo<Idx> as std::clone::Clone>::clone', '<std::ops::RangeFull as std::clone::Clone>::clone',
       'std::clone::impls::<impl std::clone::Clone for &T>::clone')
def m_clone(eng, st, c):
    return [(st, one(st, eng, c.args[0]))]


# ---------------------------------------------------------------- iterators
def it(kind, *f):
    return mk('it', kind, *f)


@model('core::slice::<impl [T]>::iter', '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
       'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter')
def m_iter(eng, st, c):
    s = sq(st, eng, c.args[0])
    ty = eng.types[c.dty]['args']
    return [(st, slice_it(s, ety_of_iter(eng, c)))]


def ety_of_iter(eng, c):
    for a in eng.types[c.dty]['args']:
        return a
    return None


@model('core::slice::<impl [T]>::iter_mut', "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def m_iter_mut(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    n = seqlen(eng.load(st, cell, path))
    return [(st, it('mslice', cell, path, ety_of_iter(eng, c), ZERO, n))]


def slice_it(s, ety):
    return it('slice', s, ety, ZERO, seqlen(s))


@model('core::str::<impl str>::chars')
def m_chars(eng, st, c):
    s = sq(st, eng, c.args[0])
    cty = next(i for i, t in enumerate(eng.types) if t['k'] == 'char')
    x = mk('chars', s)
    return [(st, it('vals', whole(x), cty, ZERO, atom(mk('len', x), 0, MAXLEN)))]


@model('core::str::<impl str>::bytes')
def m_bytes(eng, st, c):
    s = sq(st, eng, c.args[0])
    return [(st, it('vals', s, eng.u8(), ZERO, seqlen(s)))]


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def m_vec_into_iter(eng, st, c):
    return [(st, it('vals', sq(st, eng, c.args[0]), eng.types[c.dty]['args'][0], ZERO, seqlen(sq(st, eng, c.args[0]))))]


@model('core::slice::<impl [T]>::windows')
def m_windows(eng, st, c):
    s = sq(st, eng, c.args[0])
    n = c.args[1]
    ety = ety_of_iter(eng, c)
    m = sub(seqlen(s), sub(n, ONE))
    y, no = st.split(ge(sub(n, ONE)))
    for b in no:
        eng.panic(c.fr, b, c.name, c.sp)
    if not y:
        return []
    st = y[0]
    y, no = st.split(ge(m))
    return [(t, it('windows', s, ety, n, ZERO, m)) for t in y] + \
        [(t, it('windows', s, ety, n, ZERO, ZERO)) for t in no]


@model('core::slice::<impl [T]>::chunks_exact')
def m_chunks(eng, st, c):
    s = sq(st, eng, c.args[0])
    n = cval(c.args[1])
    if not n:
        return None
    m = atom(mk('call', 'chunks', s, num(n), -1), 0, MAXLEN)
    L = seqlen(s)
    out = []
    for t in st.assume(ge(sub(L, scale(m, n)))):
        for t in t.assume(ge(sub(scale(m, n), sub(L, num(n - 1))))):
            out.append((t, it('chunks', s, ety_of_iter(eng, c), n, ZERO, m)))
    return out


@model('core::slice::<impl [T]>::chunks')
def m_chunks_all(eng, st, c):
    s = sq(st, eng, c.args[0])
    r = m_chunks(eng, st, c)
    if r is None:
        return None
    n, L = cval(c.args[1]), seqlen(s)
    out = []
    for t, i in r:
        rest = sub(L, scale(i.a[-1], n))
        for u in t.assume(eq0(rest)):
            out.append((u, i))
        for u in t.assume(ge(sub(rest, ONE))):
            out.append((u, it('chain', i, it('once', mk('ref', subseq(s, scale(i.a[-1], n), L, u)), TRUE), TRUE)))
    return out


@model('std::iter::Iterator::map')
def m_map(eng, st, c):
    return into_then(eng, st, c, lambda i: it('map', i, c.args[1]))


@model('std::iter::Iterator::filter_map')
def m_filter_map(eng, st, c):
    return into_then(eng, st, c, lambda i: it('filter_map', i, c.args[1]))


@model('std::iter::Iterator::filter')
def m_filter(eng, st, c):
    return into_then(eng, st, c, lambda i: it('filter', i, c.args[1]))


@model('std::iter::Iterator::take_while', 'std::iter::Iterator::map_while')
def m_take_while(eng, st, c):
    return into_then(eng, st, c, lambda i: it(c.f['decl'].split('::')[-1], i, c.args[1], FALSE))


@model('std::iter::Iterator::flat_map')
def m_flat_map(eng, st, c):
    return into_then(eng, st, c, lambda i: it('flatten', it('map', i, c.args[1])))


@model('std::iter::Iterator::flatten')
def m_flatten(eng, st, c):
    out = []
    for s, i in into_then(eng, st, c, lambda i: it('flatten', i)):
        j = i.a[1]
        if j.op == 'it' and j.a[0] == 'once':       # an optional collection: the collection itself
            out += into_iter(eng, s, j.a[1], None) if j.a[2] is TRUE else [(s, j)]
        else:
            out.append((s, i))
    return out


@model('std::iter::Iterator::enumerate')
def m_enumerate(eng, st, c):
    return into_then(eng, st, c, lambda i: it('enumerate', i, ZERO))


@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def m_copied(eng, st, c):
    return into_then(eng, st, c, lambda i: it('copied', i))


@model('std::iter::Iterator::rev')
def m_rev(eng, st, c):
    return into_then(eng, st, c, lambda i: it('rev', i))


@model('std::iter::Iterator::fuse')
def m_fuse(eng, st, c):
    return into_then(eng, st, c, lambda i: it('fuse', i, FALSE))


@model('std::iter::Iterator::peekable')
def m_peekable(eng, st, c):
    return into_then(eng, st, c, lambda i: it('peekable', i))


@model('std::iter::Iterator::by_ref')
def m_by_ref(eng, st, c):
    return [(st, c.args[0])]


@model('std::iter::Iterator::skip')
def m_skip(eng, st, c):
    def f(i):
        if i.a[0] in ('slice', 'vals', 'range'):
            return None
    i = norm_it(eng, st, c.args[0], c)
    if i.op == 'it' and i.a[0] in INDEXED:
        lo, hi = i.a[-2], i.a[-1]
        y, n = st.split(ge(sub(sub(hi, lo), c.args[1])))
        return [(t, mk('it', *(i.a[:-2] + (add(lo, c.args[1]), hi)))) for t in y] + \
            [(t, mk('it', *(i.a[:-2] + (hi, hi)))) for t in n]
    k = cval(c.args[1])
    if k is not None and k <= 3:
        cur = into_iter(eng, st, i, c)
        for n in range(k):
            cur = [(u, j) for t, v in cur for u, j, x in next_of(eng, t, v, c.path + (('sk', n),))]
        return cur
    return None


@model('std::iter::Iterator::take')
def m_take(eng, st, c):
    i = norm_it(eng, st, c.args[0], c)
    if i.op == 'it' and i.a[0] in INDEXED:
        lo, hi = i.a[-2], i.a[-1]
        y, n = st.split(ge(sub(sub(hi, lo), c.args[1])))
        return [(t, mk('it', *(i.a[:-2] + (lo, add(lo, c.args[1]))))) for t in y] + [(t, i) for t in n]
    return into_then(eng, st, c, lambda i: it('take', i, c.args[1]))


@model('std::iter::Iterator::step_by')
def m_step_by(eng, st, c):
    return into_then(eng, st, c, lambda i: it('step_by', i, c.args[1], TRUE))


@model('std::iter::Iterator::zip')
def m_zip(eng, st, c):
    out = []
    for t, a in into_iter(eng, st, c.args[0], c):
        for u, b in into_iter(eng, t, c.args[1], c):
            out.append((u, it('zip', a, b)))
    return out


@model('std::iter::Iterator::chain')
def m_chain(eng, st, c):
    out = []
    for t, a in into_iter(eng, st, c.args[0], c):
        for u, b in into_iter(eng, t, c.args[1], c):
            out.append((u, it('chain', a, b, TRUE)))
    return out


@model('std::iter::once')
def m_once(eng, st, c):
    return [(st, it('once', c.args[0], TRUE))]


@model('std::iter::empty')
def m_empty(eng, st, c):
    return [(st, it('once', mk('nothing'), FALSE))]


@model('std::iter::repeat')
def m_repeat(eng, st, c):
    return [(st, it('repeat', c.args[0]))]


@model('std::ops::RangeInclusive::<Idx>::new')
def m_rinc(eng, st, c):
    return [(st, it('range', c.args[0], add(c.args[1], ONE)))]


def bounds(eng, st, v):
    while v.op in ('ref', 'mref'):
        v = v.a[0] if v.op == 'ref' else eng.load(st, v.a[0], v.a[1])
    if v.op == 'it' and v.a[0] == 'range':
        return v.a[1], v.a[2]
    lo, hi = v.a[2], v.a[3]
    if lo.op != 'lin' or hi.op != 'lin':
        raise Unsupported('a range of %s' % lo.op)
    return lo, hi


def truth(st, c, f):
    yes, no = st.split(f)
    return [(t, boolc(True)) for t in yes] + [(t, boolc(False)) for t in no]


@model('std::ops::Range::<Idx>::is_empty')
def m_range_empty(eng, st, c):
    lo, hi = bounds(eng, st, c.args[0])
    return truth(st, c, ge(sub(lo, hi)))


@model('std::ops::Range::<Idx>::contains')
def m_range_contains(eng, st, c):
    lo, hi = bounds(eng, st, c.args[0])
    x = c.args[1]
    while x.op in ('ref', 'mref'):
        x = x.a[0] if x.op == 'ref' else eng.load(st, x.a[0], x.a[1])
    if x.op != 'lin':
        return None
    return truth(st, c, conj(ge(sub(x, lo)), ge(sub(sub(hi, x), ONE))))


@model('std::ops::RangeInclusive::<Idx>::contains')
def m_range_incl_contains(eng, st, c):
    lo, hi = bounds(eng, st, c.args[0])
    x = c.args[1]
    while x.op in ('ref', 'mref'):
        x = x.a[0] if x.op == 'ref' else eng.load(st, x.a[0], x.a[1])
    if x.op != 'lin':
        return None
    return truth(st, c, conj(ge(sub(x, lo)), ge(sub(hi, x))))


def norm_it(eng, st, v, c):
    """library iterator values in `it` form where they are plain structs"""
    if v.op == 'adt':
        t = eng.types[v.a[0]]
        if t['k'] == 'adt':
            if t['name'] == 'std::ops::Range':
                y = st.decide(ge(sub(v.a[3], v.a[2])))
                if y is True:
                    return it('range', v.a[2], v.a[3])
                return it('range', v.a[2], v.a[3])
            if t['name'] == 'std::ops::RangeInclusive':
                return it('range', v.a[2], add(v.a[3], ONE))
    return v


def into_then(eng, st, c, k):
    return [(t, k(i)) for t, i in into_iter(eng, st, c.args[0], c)]


def item_ty(eng, s):
    """the type of the items of a list, from its parts"""
    for q in s.a if s.op == 'seq' else ():
        b = q.a[0] if q.op == 'sub' else None
        while b is not None and b.op == 'upd':
            b = b.a[0]
        if b is None:
            continue
        if b.op == 'seq':
            t = item_ty(eng, b)
        else:
            t = eng.tyof(b)
            t = eng.elem_ty(t) if isinstance(t, int) and t >= 0 else None
        if t is not None:
            return t
    return None


def into_iter(eng, st, v, c):
    """[(state, iterator value)] for an IntoIterator argument"""
    v = norm_it(eng, st, v, c)
    if v.op == 'it':
        if v.a[0] == 'range':
            lo, hi = v.a[-2], v.a[-1]
            y, n = st.split(ge(sub(hi, lo)))
            return [(t, v) for t in y] + [(t, it('range', lo, lo)) for t in n]
        return [(st, v)]
    if v.op == 'seq':
        return [(st, it('vals', v, item_ty(eng, v), ZERO, seqlen(v)))]
    if v.op == 'ref' and v.a[0].op == 'seq':
        return [(st, it('slice', v.a[0], item_ty(eng, v.a[0]), ZERO, seqlen(v.a[0])))]
    if v.op == 'adt':
        t = eng.types[v.a[0]]
        if t['k'] == 'adt' and t['name'] == 'std::option::Option':
            if eng.types[v.a[0]]['variants'][v.a[1]]['name'] == 'Some':
                return [(st, it('once', v.a[2], TRUE))]
            return [(st, it('once', mk('nothing'), FALSE))]
        return [(st, v)]
    if v.op == 'mref':
        return [(st, v)]
    if v.op in eng.OPAQUE:
        t = eng.types[v.a[-1]]
        if t['k'] == 'adt' and t['name'] == 'std::option::Option':
            out = []
            for s, var, x in eng.cases(st, v):
                out += into_iter(eng, s, x, c)
            return out
        return [(st, v)]
    raise Unsupported('iterator expected, %s found' % v.op)


@model('<std::option::Option<T> as std::iter::IntoIterator>::into_iter')
def m_opt_iter(eng, st, c):
    return into_iter(eng, st, c.args[0], c)


@model('std::option::Option::<T>::iter')
def m_opt_iter_ref(eng, st, c):
    out = []
    v = one(st, eng, c.args[0])
    for s, var, x in eng.cases(st, v):
        if len(x.a) > 2:
            out.append((s, it('once', mk('ref', x.a[2]), TRUE)))
        else:
            out.append((s, it('once', mk('nothing'), FALSE)))
    return out


@model('std::iter::IntoIterator::into_iter')
def m_into_iter(eng, st, c):
    inst = eng.p.insts.get(c.key)
    if inst and inst['krate'].startswith('diffy'):
        return None
    return [(t, i) for t, i in into_iter(eng, st, c.args[0], c)]


def has_user_next(eng, v):
    if v.op == 'adt':
        t = eng.types[v.a[0]]
        return t['k'] == 'adt' and 'next' in t and eng.p.body(t['next']) is not None and \
            eng.p.insts[t['next']]['krate'].startswith('diffy')
    return False


def next_of(eng, st, i, path):
    """[(state, iterator', item or None)]"""
    if i.op == 'mref':
        out = []
        v = eng.load(st, i.a[0], i.a[1])
        for t, j, x in next_of(eng, st, v, path):
            t = t.copy()
            eng.store(t, i.a[0], i.a[1], j)
            out.append((t, i, x))
        return out
    i = norm_it(eng, st, i, None)
    if i.op == 'adt' and has_user_next(eng, i):
        key = eng.types[i.a[0]]['next']
        t = st.copy()
        cell = eng.tmp(t, i, ('nx', eng.fid(path)))
        out = []
        r = eng.exec_fn(t, key, [mk('mref', cell, ())], path + (('nx', 0),))
        if r is None:
            raise Unsupported('recursive next')
        for u, v in r:
            for w, var, x in eng.cases(u, v):
                w = w.copy()
                j = w.cells.pop(cell)
                out.append((w, j, x.a[2] if len(x.a) > 2 else None))
        return out
    if i.op != 'it':
        raise Unsupported('next of %s' % i.op)
    k, f = i.a[0], i.a[1:]
    if k in INDEXED:
        lo, hi = f[-2], f[-1]
        y, n = st.split(ge(sub(sub(hi, lo), ONE)))
        out = []
        for t in y:
            j = it(k, *(f[:-2] + (add(lo, ONE), hi)))
            out.append((t, j, item_at(eng, t, k, f, lo)))
        return out + [(t, i, None) for t in n]
    if k == 'rev':
        return next_back(eng, st, f[0], path, lambda j: it('rev', j))
    if k == 'map':
        out = []
        for t, j, x in next_of(eng, st, f[0], path + (('m', 0),)):
            if x is None:
                out.append((t, it('map', j, f[1]), None))
                continue
            for u, fn, y in callf(eng, t, f[1], [x], path):
                out.append((u, it('map', j, fn), y))
        return out
    if k == 'copied':
        return [(t, it('copied', j), None if x is None else (x.a[0] if x.op == 'ref' else one(t, eng, x)))
                for t, j, x in next_of(eng, st, f[0], path)]
    if k == 'enumerate':
        return [(t, it('enumerate', j, f[1] if x is None else add(f[1], ONE)),
                 None if x is None else mk('adt', tuple2(eng, f[1], x), 0, f[1], x))
                for t, j, x in next_of(eng, st, f[0], path)]
    if k == 'zip':
        out = []
        for t, j, x in next_of(eng, st, f[0], path + (('z', 0),)):
            if x is None:
                out.append((t, it('zip', j, f[1]), None))
                continue
            for u, j2, y in next_of(eng, t, f[1], path + (('z', 1),)):
                out.append((u, it('zip', j, j2), None if y is None else mk('adt', tuple2(eng, x, y), 0, x, y)))
        return out
    if k == 'once':
        if f[1] is TRUE:
            return [(st, it('once', f[0], FALSE), f[0])]
        return [(st, i, None)]
    if k == 'repeat':
        return [(st, i, f[0])]
    if k == 'chain':
        if f[2] is TRUE:
            out = []
            for t, j, x in next_of(eng, st, f[0], path + (('c', 0),)):
                if x is not None:
                    out.append((t, it('chain', j, f[1], TRUE), x))
                else:
                    for u, j2, y in next_of(eng, t, f[1], path + (('c', 1),)):
                        out.append((u, it('chain', j, j2, FALSE), y))
            return out
        return [(u, it('chain', f[0], j2, FALSE), y) for u, j2, y in next_of(eng, st, f[1], path + (('c', 1),))]
    if k == 'fuse':
        if f[1] is TRUE:
            return [(st, i, None)]
        return [(t, it('fuse', j, boolc(x is None)), x) for t, j, x in next_of(eng, st, f[0], path)]
    if k == 'peekable':
        return [(t, it('peekable', j), x) for t, j, x in next_of(eng, st, f[0], path)]
    if k == 'step_by' and f[0].op == 'it' and f[0].a[0] in ('range',):
        lo, hi = f[0].a[1], f[0].a[2]
        y, n = st.split(ge(sub(sub(hi, lo), ONE)))
        out = []
        for t in y:
            out.append((t, it('step_by', it('range', add(lo, f[1]), hi), f[1], f[2]), lo))
        return out + [(t, i, None) for t in n]
    if k == 'step_by' and f[0].op == 'it' and f[0].a[0] == 'rev' and f[0].a[1].op == 'it' \
            and f[0].a[1].a[0] == 'range':
        r = f[0].a[1]
        lo, hi = r.a[1], r.a[2]
        y, n = st.split(ge(sub(sub(hi, lo), ONE)))
        out = []
        for t in y:
            out.append((t, it('step_by', it('rev', it('range', lo, sub(hi, f[1]))), f[1], f[2]), sub(hi, ONE)))
        return out + [(t, i, None) for t in n]
    if k == 'flatten' and f[0].op == 'it' and f[0].a[0] == 'once':
        # flattening an optional collection: the collection itself
        if f[0].a[2] is FALSE:
            return [(st, i, None)]
        x = f[0].a[1]
        out = []
        for t, j in into_iter(eng, st, x, None):
            for u, j2, y in next_of(eng, t, j, path):
                out.append((u, it('flatten', it('once', j2, TRUE)), y))
        return out
    if k in ('filter_map', 'filter', 'flatten'):
        if k == 'flatten':
            raise Unsupported('next of %s' % k)
        # look for the next item: a search loop
        t = st.copy()
        cell = eng.tmp(t, i, ('nf', eng.fid(path)))

        def hit(s2, ids, x):
            s2 = s2.copy()
            s2.cells[ids[0]] = x
            return [(s2, 'hit')]
        out = []
        for u, tg, av in drain(eng, t, mk('mref', cell, ()), path, 'nf', [mk('nothing')], hit):
            u = u.copy()
            j = u.cells.pop(cell)
            out.append((u, j, av[0] if tg == 'hit' else None))
        return out
    if k in ('take_while', 'map_while') and f[2].op in 'TF':
        if f[2] is TRUE:
            return [(st, i, None)]
        out = []
        for t, j, x in next_of(eng, st, f[0], path + (('tw', 0),)):
            if x is None:
                out.append((t, it(k, j, f[1], FALSE), None))
                continue
            for u, fn, y in callf(eng, t, f[1], [x if k == 'map_while' else mk('ref', x)], path):
                if k == 'map_while':
                    for w, _, o in eng.cases(u, y):
                        out.append((w, it(k, j, fn, FALSE), o.a[2] if len(o.a) > 2 else None))
                    continue
                a, b = u.split(y)
                out += [(w, it(k, j, fn, FALSE), x) for w in a] + [(w, it(k, j, fn, TRUE), None) for w in b]
        return out
    if k == 'step_by' and cval(f[1]) is not None and 0 < cval(f[1]) <= 4 and f[2].op in 'TF':
        cur, out = [(st, f[0])], []
        for n in range(1 if f[2] is TRUE else cval(f[1])):
            nxt = []
            for t, j in cur:
                for u, j2, x in next_of(eng, t, j, path + (('sb', n),)):
                    if x is None:
                        out.append((u, it('step_by', j2, f[1], FALSE), None))
                    else:
                        nxt.append((u, j2, x))
            if n + 1 == (1 if f[2] is TRUE else cval(f[1])):
                return out + [(u, it('step_by', j2, f[1], FALSE), x) for u, j2, x in nxt]
            cur = [(u, j2) for u, j2, x in nxt]
    if k in ('split', 'rsplit'):
        s, pat, more = f
        if more is FALSE:
            return [(st, i, None)]
        out = []
        for t, ix in (find_in if k == 'split' else rfind_in)(eng, st, s, pat):
            if ix is None:
                out.append((t, it(k, s, pat, FALSE), mk('ref', s)))
                continue
            a, b = subseq(s, ZERO, ix, t), subseq(s, add(ix, plength(pat)), seqlen(s), t)
            out.append((t, it(k, b if k == 'split' else a, pat, TRUE), mk('ref', a if k == 'split' else b)))
        return out
    if k == 'take':
        y, n = st.split(ge(sub(f[1], ONE)))
        return [(t, it('take', j, sub(f[1], ONE)), x) for s in y for t, j, x in next_of(eng, s, f[0], path)] + \
            [(t, i, None) for t in n]
    raise Unsupported('next of %s' % k)


def tuple2(eng, x, y):
    """a tuple type with two elements; the element types are not needed"""
    if not hasattr(eng, '_tup2'):
        eng._tup2 = next((n for n, t in enumerate(eng.types) if t['k'] == 'tuple' and len(t['elems']) == 2), None)
    return eng._tup2


def item_at(eng, t, k, f, i):
    if k == 'mslice':
        return mk('mref', f[0], f[1] + (('i', i, f[2]),))
    if k == 'range':
        return i
    if k == 'chunks':
        return mk('ref', subseq(f[0], scale(i, f[2]), add(scale(i, f[2]), num(f[2])), t))
    if k == 'windows':
        return mk('ref', subseq(f[0], i, add(i, f[2]), t))
    v = eng.seqget(t, f[0], i, f[1]) if f[1] is not None else eng.seqget(t, f[0], i, -1)
    return mk('ref', v) if k == 'slice' else v


def exact_len(i):
    if i.op == 'it' and i.a[0] in INDEXED:
        return sub(i.a[-1], i.a[-2])
    if i.op == 'it' and i.a[0] in ('rev', 'map', 'copied', 'enumerate'):
        return exact_len(i.a[1])
    return None


def next_back(eng, st, i, path, wrap):
    i = norm_it(eng, st, i, None)
    if i.op != 'it':
        raise Unsupported('next_back of %s' % i.op)
    k, f = i.a[0], i.a[1:]
    if k in INDEXED:
        lo, hi = f[-2], f[-1]
        y, n = st.split(ge(sub(sub(hi, lo), ONE)))
        out = []
        for t in y:
            h2 = sub(hi, ONE)
            out.append((t, wrap(it(k, *(f[:-2] + (lo, h2)))), item_at(eng, t, k, f, h2)))
        return out + [(t, wrap(i), None) for t in n]
    if k == 'rev':
        return [(t, wrap(it('rev', j)), x) for t, j, x in next_of(eng, st, f[0], path)]
    if k == 'copied':
        return next_back(eng, st, f[0], path, lambda j: wrap(it('copied', j))) if False else \
            [(t, j, None if x is None else one(t, eng, x)) for t, j, x in
             next_back(eng, st, f[0], path, lambda j: wrap(it('copied', j)))]
    if k == 'map':
        out = []
        for t, j, x in next_back(eng, st, f[0], path, lambda j: j):
            if x is None:
                out.append((t, wrap(it('map', j, f[1])), None))
                continue
            for u, fn, y in callf(eng, t, f[1], [x], path):
                out.append((u, wrap(it('map', j, fn)), y))
        return out
    if k == 'enumerate':
        n = exact_len(f[0])
        if n is not None:
            return [(t, wrap(it('enumerate', j, f[1])),
                     None if x is None else mk('adt', tuple2(eng, f[1], x), 0, add(f[1], sub(n, ONE)), x))
                    for t, j, x in next_back(eng, st, f[0], path, lambda j: j)]
    if k == 'once':
        return [(t, wrap(j), x) for t, j, x in next_of(eng, st, i, path)]
    raise Unsupported('next_back of %s' % k)


def callf(eng, st, fn, args, path, dty=None):
    """call a function value kept by an iterator: [(state, function value', result)]"""
    st = st.copy()
    cell = eng.tmp(st, fn, ('fn', eng.fid(path)))
    arg = mk('mref', cell, ()) if fn.op == 'adt' else fn
    out = []
    for u, y in eng.call_value(st, arg, args, dty_of(eng, fn) if dty is None else dty, path):
        u = u.copy()
        f2 = u.cells.pop(cell, fn)
        out.append((u, f2, y))
    return out


def dty_of(eng, fn):
    ty = eng.tyof(fn)
    if ty is None:
        return None
    t = eng.types[ty]
    if t['k'] == 'closure':
        b = eng.p.insts[t['key']].get('body')
        return b['locals'][0] if b else None
    if t['k'] == 'fndef':
        cl = t['callee']
        r = eng.retty(cl)
        if r is not None:
            return r
        # constructors: the ADT whose variant carries this name
        inst = eng.p.insts.get(cl.get('key'))
        nm = (inst['name'] if inst else cl['decl'])
        want = cl.get('ret')
        if want is not None:
            return want
        base = '::'.join(nm.split('::')[:-1])
        cands = [n for n, x in enumerate(eng.types) if x['k'] == 'adt' and x['name'].endswith(base.split('::')[-1].split('<')[0] or '-')
                 and nm.split('::')[-1] in [v['name'] for v in x['variants']]]
        if cands:
            return cands[0]
    return None


# one step of any iterator: [(state, iterator', 'item', x) | (.., 'skip', None) | (.., 'end', None)]
def steps(eng, st, i, path):
    i = norm_it(eng, st, i, None)
    if i.op == 'mref':
        out = []
        for t, j, kind, x in steps(eng, st, eng.load(st, i.a[0], i.a[1]), path):
            t = t.copy()
            eng.store(t, i.a[0], i.a[1], j)
            out.append((t, i, kind, x))
        return out
    if i.op == 'it':
        k, f = i.a[0], i.a[1:]
        if k in ('filter_map', 'filter'):
            out = []
            for t, j, kind, x in steps(eng, st, f[0], path + (('s', 0),)):
                if kind != 'item':
                    out.append((t, it(k, j, f[1]), kind, None))
                    continue
                arg = x if k == 'filter_map' else mk('ref', x)
                for u, fn, y in callf(eng, t, f[1], [arg], path):
                    if k == 'filter_map':
                        for w, var, z in eng.cases(u, y):
                            if len(z.a) > 2:
                                out.append((w, it(k, j, fn), 'item', z.a[2]))
                            else:
                                out.append((w, it(k, j, fn), 'skip', None))
                    else:
                        a, b = u.split(y)
                        out += [(w, it(k, j, fn), 'item', x) for w in a]
                        out += [(w, it(k, j, fn), 'skip', None) for w in b]
            return out
        if k in ('map', 'copied', 'enumerate', 'peekable') and needs_steps(f[0]):
            out = []
            for t, j, kind, x in steps(eng, st, f[0], path + (('s', 0),)):
                if kind != 'item':
                    out.append((t, mk('it', k, j, *f[1:]), kind, None))
                elif k == 'map':
                    for u, fn, y in callf(eng, t, f[1], [x], path):
                        out.append((u, it(k, j, fn), 'item', y))
                elif k == 'copied':
                    out.append((t, it(k, j), 'item', one(t, eng, x)))
                elif k == 'peekable':
                    out.append((t, it(k, j), 'item', x))
                else:
                    out.append((t, it(k, j, add(f[1], ONE)), 'item', mk('adt', tuple2(eng, f[1], x), 0, f[1], x)))
            return out
    return [(t, j, 'end' if x is None else 'item', x) for t, j, x in next_of(eng, st, i, path)]


def needs_steps(i):
    return i.op == 'it' and (i.a[0] in ('filter_map', 'filter') or
                             (i.a[0] in ('map', 'copied', 'enumerate', 'peekable') and needs_steps(i.a[1])))


def drain(eng, st, i, path, tag, accs, step):
    """run `step(state, acc cells, item)` -> [(state, 'go'|exit tag)] for every item of i.
    returns [(state, tag, acc values)]; tag 'end' at the end of the iterator"""
    i = norm_it(eng, st, i, None)
    if i.op == 'it' and i.a[0] in ('map', 'copied') and i.a[1].op == 'it' and i.a[1].a[0] == 'flatten':
        # push the adaptor below the flattening
        inner = i.a[1].a[1]
        if i.a[0] == 'copied':
            i = it('flatten', it('each', inner, ('copied',)))
        else:
            i = it('flatten', it('each', inner, ('map', i.a[2])))
    if i.op == 'it' and i.a[0] == 'flatten':
        inner = i.a[1]
        wrap = ()
        while inner.op == 'it' and inner.a[0] == 'each':
            wrap = (inner.a[2],) + wrap
            inner = inner.a[1]

        def outer(s, ids, x):
            res = []
            for t, j in into_iter(eng, s, x, None):
                for w in wrap[::-1]:
                    j = it('copied', j) if w[0] == 'copied' else it('map', j, w[1])
                vals = [t.cells[a] for a in ids]
                for u, tg, av in drain(eng, t, j, path + (('in', 0),), tag, vals, step):
                    u = u.copy()
                    for a, v in zip(ids, av):
                        u.cells[a] = v
                    res.append((u, 'go' if tg == 'end' else tg))
            return res
        return drain(eng, st, inner, path + (('out', 0),), tag, accs, outer)
    if i.op == 'it' and i.a[0] == 'chain' and i.a[3] is TRUE and False:
        pass
    if i.op == 'it' and i.a[0] == 'once':
        st = st.copy()
        fid = eng.fid(path)
        ids = [('k', fid, tag, n) for n in range(len(accs))]
        for c, v in zip(ids, accs):
            st.cells[c] = v
        outs = [(st, 'go')] if i.a[2] is FALSE else step(st, ids, i.a[1])
        res = []
        for t, tg in outs:
            t = t.copy()
            av = [t.cells.pop(c) for c in ids]
            res.append((t, 'end' if tg == 'go' else tg, av))
        return res

    def body(s, ids):
        outs = []
        for t, j, kind, x in steps(eng, s, s.cells[ids[0]], path + (('nx', 0),)):
            t = t.copy()
            t.cells[ids[0]] = j
            if kind == 'end':
                outs.append(('exit', t, 'end'))
            elif kind == 'skip':
                outs.append(('back', t))
            else:
                for u, tg in step(t, ids[1:], x):
                    outs.append(('back', u) if tg == 'go' else ('exit', u, tg))
        return outs
    ids, outs = eng.consume(st, path, tag, [i] + list(accs), body)
    res = []
    for o in outs:
        t = o[1].copy()
        vals = [t.cells.pop(c, None) for c in ids]
        res.append((t, o[2], vals))
    return [(t, tg, v[1:]) if True else None for t, tg, v in res]


def item_parts(eng, st, x, text):
    """the parts an item adds to a collection; `text`: String / byte concatenation"""
    if text:
        v = deref(st, eng, x)
        if v.op == 'seq':
            return v.a
        if v.op == 'lin':
            return (chr_part(eng, st, v),)
        v2 = eng.expand(st, v)
        raise Unsupported('text item %s' % v.op)
    return (mk('el1', x),)


def collect(eng, st, i, path, tag, text, init=None, byte=False):
    def step(s, ids, x):
        s = s.copy()
        v = s.cells[ids[0]]
        if text:
            w = deref(s, eng, x)
            if w.op in eng.OPAQUE or (w.op == 'adt'):
                # Cow items
                out = []
                for t, var, z in eng.cases(s, w):
                    t = t.copy()
                    t.cells[ids[0]] = seq(*(v.a + deref(t, eng, z.a[2]).a))
                    out.append((t, 'go'))
                return out
        ps = item_parts(eng, s, x, text)
        if byte and not text:
            ps = (one_part(eng, s, x, True),)
        s.cells[ids[0]] = seq(*(v.a + ps))
        return [(s, 'go')]
    return [(t, av[0]) for t, tg, av in drain(eng, st, i, path, tag, [init or seq()], step)]


def is_text(eng, ty):
    return eng.types[ty]['k'] == 'adt' and eng.types[ty]['name'] == 'std::string::String'


def is_bytes(eng, ty):
    t = eng.types[ty]
    return t['k'] == 'adt' and t['name'] == 'std::vec::Vec' and eng.types[t['args'][0]]['s'] == 'u8'


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(eng, st, c):
    t = eng.types[c.dty]
    if t['k'] == 'adt' and t['name'] in ('std::vec::Vec', 'std::string::String'):
        out = []
        for s, i in into_iter(eng, st, c.args[0], c):
            out += collect(eng, s, i, c.path, 'co', is_text(eng, c.dty), byte=is_bytes(eng, c.dty))
        return out
    if t['k'] == 'adt' and t['name'] in ('std::result::Result', 'std::option::Option'):
        good, badn = ('Ok', 'Err') if t['name'].endswith('Result') else ('Some', 'None')
        gi = eng.vidx(c.dty, good)
        inner = eng.fields(c.dty, gi)[0]
        if eng.types[inner].get('name') not in ('std::vec::Vec', 'std::string::String'):
            return None
        text = is_text(eng, inner)

        def step(s, ids, x):
            out = []
            for u, var, z in eng.cases(s, x):
                u = u.copy()
                if eng.types[z.a[0]]['variants'][var]['name'] == good:
                    u.cells[ids[0]] = seq(*(u.cells[ids[0]].a + item_parts(eng, u, z.a[2], text)))
                    out.append((u, 'go'))
                else:
                    u.cells[ids[1]] = mk('adt', c.dty, eng.vidx(c.dty, badn), *z.a[2:])
                    out.append((u, 'bad'))
            return out
        res = []
        for s, i in into_iter(eng, st, c.args[0], c):
            for u, tg, av in drain(eng, s, i, c.path, 'cr', [seq(), mk('nothing')], step):
                res.append((u, av[1] if tg == 'bad' else mk('adt', c.dty, gi, av[0])))
        return res
    return None


@model('<std::string::String as std::iter::Extend<&\'a str>>::extend', '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend',
       '<std::vec::Vec<T, A> as std::iter::Extend<&\'a T>>::extend', '<std::string::String as std::iter::Extend<char>>::extend')
def m_extend(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    text = 'String' in c.name
    byref = "&'a T" in c.name
    out = []
    for s, i in into_iter(eng, st, c.args[1], c):
        if byref:
            i = it('copied', i)
        cur = eng.load(s, cell, path)
        for u, v in collect(eng, s, i, c.path, 'ex', text):
            u = u.copy()
            eng.store(u, cell, path, seq(*(cur.a + v.a)))
            out.append((u, unitv(eng, c.dty)))
    return out


@model('std::iter::Iterator::unzip')
def m_unzip(eng, st, c):
    def step(s, ids, x):
        s = s.copy()
        for n in (0, 1):
            s.cells[ids[n]] = seq(*(s.cells[ids[n]].a + (mk('el1', x.a[2 + n]),)))
        return [(s, 'go')]
    out = []
    for s, i in into_iter(eng, st, c.args[0], c):
        for u, tg, av in drain(eng, s, i, c.path, 'uz', [seq(), seq()], step):
            out.append((u, mk('adt', c.dty, 0, av[0], av[1])))
    return out


@model('std::iter::Iterator::count')
def m_count(eng, st, c):
    def step(s, ids, x):
        s = s.copy()
        s.cells[ids[0]] = add(s.cells[ids[0]], ONE)
        return [(s, 'go')]
    out = []
    for s, i in into_iter(eng, st, c.args[0], c):
        for u, tg, av in drain(eng, s, i, c.path, 'ct', [ZERO], step):
            u = u.copy()
            out.append((u, av[0]))
    return out


@model('std::iter::Iterator::sum')
def m_sum(eng, st, c):
    def step(s, ids, x):
        s = s.copy()
        s.cells[ids[0]] = add(s.cells[ids[0]], deref(s, eng, x))
        return [(s, 'go')]
    if not eng.bounds(c.dty):
        return None
    out = []
    for s, i in into_iter(eng, st, c.args[0], c):
        for u, tg, av in drain(eng, s, i, c.path, 'su', [ZERO], step):
            out.append((u, av[0]))
    return out


@model('std::iter::Iterator::fold', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::fold')
def m_fold(eng, st, c):
    fn = c.args[2]

    def step(s, ids, x):
        out = []
        for u, f2, y in callf(eng, s, s.cells[ids[1]], [s.cells[ids[0]], x], c.path, dty=c.dty):
            u = u.copy()
            u.cells[ids[0]] = y
            u.cells[ids[1]] = f2
            out.append((u, 'go'))
        return out
    out = []
    for s, i in into_iter(eng, st, c.args[0], c):
        for u, tg, av in drain(eng, s, i, c.path, 'fo', [c.args[1], fn], step):
            out.append((u, av[0]))
    return out


@model('std::iter::Iterator::for_each', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::for_each')
def m_for_each(eng, st, c):
    def step(s, ids, x):
        out = []
        for u, f2, y in callf(eng, s, s.cells[ids[0]], [x], c.path, dty=c.dty):
            u = u.copy()
            u.cells[ids[0]] = f2
            out.append((u, 'go'))
        return out
    out = []
    for s, i in into_iter(eng, st, c.args[0], c):
        for u, tg, av in drain(eng, s, i, c.path, 'fe', [c.args[1]], step):
            out.append((u, unitv(eng, c.dty)))
    return out


def bool_ty(eng):
    return next(n for n, t in enumerate(eng.types) if t['k'] == 'bool')


def search(eng, st, c, src, tag, want, acc=()):
    """any / all / find / position: drains until the predicate is `want`"""
    byref = tag in ('find',)

    def step(s, ids, x):
        out = []
        arg = mk('ref', x) if byref else x
        for u, f2, y in callf(eng, s, s.cells[ids[0]], [arg], c.path, dty=bool_ty(eng)):
            u = u.copy()
            u.cells[ids[0]] = f2
            a, b = u.split(y if want else neg(y))
            for w in a:
                w = w.copy()
                w.cells[ids[2]] = x
                out.append((w, 'hit'))
            for w in b:
                w = w.copy()
                w.cells[ids[1]] = add(w.cells[ids[1]], ONE)
                out.append((w, 'go'))
        return out
    res = []
    srcs = [(st, src, None)] if src.op != 'mref' else []
    if src.op == 'mref':
        v = eng.load(st, src.a[0], src.a[1])
        srcs = [(st, v, src)]
    for s0, v, back in srcs:
        for s, i in into_iter(eng, s0, v, c):
            # keep the iterator itself as an accumulator-free drain; the mref source is advanced
            if back is not None:
                s = s.copy()
                eng.store(s, back.a[0], back.a[1], i)
                i2 = back
                # drain through the reference
                i = i2
            for u, tg, av in drain(eng, s, i, c.path, tag, [c.args[1], ZERO, mk('nothing')], step):
                res.append((u, tg, av[1], av[2]))
    return res


@model('std::iter::Iterator::any', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::any')
def m_any(eng, st, c):
    return [(u, boolc(tg == 'hit')) for u, tg, n, x in search(eng, st, c, c.args[0], 'any', True)]


@model('std::iter::Iterator::all', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::all')
def m_all(eng, st, c):
    return [(u, boolc(tg != 'hit')) for u, tg, n, x in search(eng, st, c, c.args[0], 'all', False)]


@model('std::iter::Iterator::position', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::position')
def m_position(eng, st, c):
    return [(u, some(eng, c.dty, n) if tg == 'hit' else none(eng, c.dty))
            for u, tg, n, x in search(eng, st, c, c.args[0], 'position', True)]


def last_byte(eng, st, c, s):
    """the last byte of s that the predicate accepts, when it asks for one particular byte"""
    yes = []
    for v in range(256):
        try:
            rs = callf(eng, st, c.args[1], [mk('ref', num(v))], c.path, dty=bool_ty(eng))
        except (Unsupported, KeyError, AttributeError, IndexError):
            return None
        if len(rs) != 1 or rs[0][2] not in (TRUE, FALSE):
            return None
        if rs[0][2] is TRUE:
            yes.append(v)
            if len(yes) > 1:
                return None
    return rfind_in(eng, st, s, bytes(yes)) if yes else None


@model('std::iter::Iterator::rposition', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::rposition')
def m_rposition(eng, st, c):
    src = c.args[0]
    back = src if src.op == 'mref' else None
    v = eng.load(st, src.a[0], src.a[1]) if back is not None else src
    out = []
    for s, i in into_iter(eng, st, v, c):
        if i.op != 'it' or i.a[0] != 'slice':
            return None
        n = sub(i.a[4], i.a[3])
        if back is not None:
            s = s.copy()
            eng.store(s, back.a[0], back.a[1], mk('unk', ('rposition', c.path), eng.tyof(v) if v.op != 'it' else -1))
        r = last_byte(eng, s, c, subseq(i.a[1], i.a[3], i.a[4], s))
        if r is not None:
            out += [(t, none(eng, c.dty) if x is None else some(eng, c.dty, x)) for t, x in r]
            continue
        for u, tg, k, x in search(eng, s, c, it('rev', i), 'rposition', True):
            out.append((u, some(eng, c.dty, sub(sub(n, k), ONE)) if tg == 'hit' else none(eng, c.dty)))
    return out


@model('std::iter::Iterator::find', '<std::iter::Chain<A, B> as std::iter::Iterator>::find',
       '<std::slice::Iter<\'a, T> as std::iter::Iterator>::find')
def m_it_find(eng, st, c):
    return [(u, some(eng, c.dty, x) if tg == 'hit' else none(eng, c.dty))
            for u, tg, n, x in search(eng, st, c, c.args[0], 'find', True)]


@model('std::iter::Iterator::find_map')
def m_find_map(eng, st, c):
    def step(s, ids, x):
        out = []
        for u, f2, y in callf(eng, s, s.cells[ids[0]], [x], c.path, dty=c.dty):
            u = u.copy()
            u.cells[ids[0]] = f2
            for w, var, z in eng.cases(u, y):
                w = w.copy()
                if eng.types[c.dty]['variants'][var]['name'] == 'Some':
                    w.cells[ids[1]] = z.a[2]
                    out.append((w, 'hit'))
                else:
                    out.append((w, 'go'))
        return out
    src = c.args[0]
    srcs = [(st, src)]
    if src.op == 'mref':
        srcs = []
        for s, i in into_iter(eng, st, eng.load(st, src.a[0], src.a[1]), c):
            s = s.copy()
            eng.store(s, src.a[0], src.a[1], i)
            srcs.append((s, src))
    res = []
    for s0, v in srcs:
        for s, i in ([(s0, v)] if v.op == 'mref' else into_iter(eng, s0, v, c)):
            for u, tg, av in drain(eng, s, i, c.path, 'fm', [c.args[1], mk('nothing')], step):
                res.append((u, some(eng, c.dty, av[1]) if tg == 'hit' else none(eng, c.dty)))
    return res


@model('std::iter::Iterator::eq')
def m_it_eq(eng, st, c):
    out = []
    for s, a in into_iter(eng, st, c.args[0], c):
        for t, b in into_iter(eng, s, c.args[1], c):
            for u, x in collect(eng, t, a, c.path, 'e1', False):
                for w, y in collect(eng, u, b, c.path, 'e2', False):
                    out.append((w, seq_eq(w, eng, x, y)))
    return out


def next_model(eng, st, c):
    inst = eng.p.insts.get(c.key)
    if inst and inst.get('body') and inst['krate'].startswith('diffy'):
        return None
    cell, path = target(st, eng, c.args[0])
    v = eng.load(st, cell, path)
    out = []
    for s, i in into_iter(eng, st, v, c):
        if needs_steps(i):
            # look for the next item: a search loop
            def step(s2, ids, x):
                s2 = s2.copy()
                s2.cells[ids[0]] = x
                return [(s2, 'hit')]
            s = s.copy()
            eng.store(s, cell, path, i)
            for u, tg, av in drain(eng, s, mk('mref', cell, path), c.path, 'nx', [mk('nothing')], step):
                out.append((u, some(eng, c.dty, av[0]) if tg == 'hit' else none(eng, c.dty)))
            continue
        for t, j, x in next_of(eng, s, i, c.path):
            t = t.copy()
            eng.store(t, cell, path, j)
            out.append((t, none(eng, c.dty) if x is None else some(eng, c.dty, x)))
    return out


MODELS['std::iter::Iterator::next'] = next_model


@model('std::iter::Peekable::<I>::peek')
def m_peek(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    v = eng.load(st, cell, path)
    out = []
    for t, j, x in next_of(eng, st, v, c.path):
        # the iterator is not advanced: its `next` is a function of its value
        out.append((t, none(eng, c.dty) if x is None else some(eng, c.dty, mk('ref', x))))
    return out


@model('std::iter::Peekable::<I>::next_if')
def m_next_if(eng, st, c):
    return None


@model('std::iter::DoubleEndedIterator::next_back')
def m_next_back(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    v = eng.load(st, cell, path)
    out = []
    for t, j, x in next_back(eng, st, v, c.path, lambda q: q):
        t = t.copy()
        eng.store(t, cell, path, j)
        out.append((t, none(eng, c.dty) if x is None else some(eng, c.dty, x)))
    return out


# ---------------------------------------------------------------- formatting and writing
def emit(eng, st, ref, parts, path):
    """append parts to the sink; in error propagation mode the write may fail"""
    cell, p = target(st, eng, ref)
    st = st.copy()
    if eng.fail and st.fail is not None:
        st.bad = st.bad or ('written after a failed write', eng.path_where(path))
    cur = eng.load(st, cell, p)
    if cur.op != 'seq':
        raise Unsupported('sink %s' % cur.op)
    eng.store(st, cell, p, seq(*(cur.a + tuple(parts))))
    outs = [(st, True)]
    if eng.fail and st.fail is None and parts:
        f = st.copy()
        f.fail = eng.path_where(path)
        outs.append((f, False))
    return outs


def result_of(eng, ty, good):
    if good:
        okty = eng.fields(ty, eng.vidx(ty, 'Ok'))[0]
        return ok(eng, ty, unitv(eng, okty))
    ety = eng.fields(ty, eng.vidx(ty, 'Err'))[0]
    return eng.variant(ty, 'Err', mk('unk', 'ioerr', ety))


@model('core::io::impls::<impl std::io::Write for &mut W>::write_all', 'std::io::Write::write_all',
       '<std::fmt::Formatter<\'_> as std::fmt::Write>::write_str', 'std::fmt::Formatter::<\'a>::write_str',
       '<std::string::String as std::fmt::Write>::write_str')
def m_write_all(eng, st, c):
    s = sq(st, eng, c.args[1])
    return [(t, result_of(eng, c.dty, g)) for t, g in emit(eng, st, c.args[0], s.a, c.path)]


@model('<std::fmt::Formatter<\'_> as std::fmt::Write>::write_char', 'std::fmt::Write::write_char')
def m_write_char(eng, st, c):
    return [(t, result_of(eng, c.dty, g)) for t, g in
            emit(eng, st, c.args[0], (chr_part(eng, st, c.args[1]),), c.path)]


@model('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::from_str_nonconst')
def m_args_str(eng, st, c):
    return [(st, mk('fargs', sq(st, eng, c.args[0]), ()))]


@model('std::fmt::Arguments::<\'a>::new')
def m_args(eng, st, c):
    t = bytes_of(st, eng, c.args[0])
    a = sq(st, eng, c.args[1])
    if t is None:
        return None
    return [(st, mk('fargs', t, tuple(q.a[0] for q in a.a)))]


def m_argument(eng, st, c):
    if not c.name.startswith("core::fmt::rt::Argument::<'_>::new_"):
        return None
    key = None
    b = eng.p.body(c.key)
    how = c.name.split('new_')[-1]
    if b:
        for o in eng.p.operands(b):
            if 'ty' in o and eng.types[o['ty']]['k'] == 'fndef':
                cl = eng.types[o['ty']]['callee']
                if cl['decl'].endswith('::fmt'):
                    key = cl
        for t in b['locals']:
            if eng.types[t]['k'] == 'fndef' and eng.types[t]['callee']['decl'].endswith('::fmt'):
                key = eng.types[t]['callee']
    return [(st, mk('farg', how, key.get('key') if key else None, key['decl'] if key else None, c.args[0]))]


PREFIX.append(("core::fmt::rt::Argument::", m_argument))


def pieces(t):
    """decode a format template: bytes | ('arg', index, flags, width, prec)"""
    i, n, nxt = 0, len(t), 0
    while i < n:
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            yield t[i:i + b]
            i += b
        elif b == 0x80:
            k = t[i] | t[i + 1] << 8
            i += 2
            yield t[i:i + k]
            i += k
        else:
            flags = width = prec = None
            if b & 1:
                flags = int.from_bytes(t[i:i + 4], 'little')
                i += 4
            if b & 2:
                width = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            if b & 4:
                prec = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            if b & 8:
                nxt = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            yield ('arg', nxt, flags, width, prec)
            nxt += 1


STRLIKE = {'<str as std::fmt::Display>::fmt', '<std::string::String as std::fmt::Display>::fmt'}


def render(eng, st, fa, ref, path):
    """[(state, ok)] after writing formatted arguments to the sink behind ref"""
    if fa.op != 'fargs':
        raise Unsupported('format arguments %s' % fa.op)
    if isinstance(fa.a[0], T):
        return emit(eng, st, ref, fa.a[0].a, path)
    cur = [(st, True)]
    for n, p in enumerate(pieces(fa.a[0])):
        nxt = []
        for s, good in cur:
            if not good:
                nxt.append((s, good))
                continue
            if isinstance(p, bytes):
                nxt += emit(eng, s, ref, (mk('lit', p),), path)
            else:
                nxt += render_arg(eng, s, fa.a[1][p[1]], p[2:], ref, path + (('fa', n),))
        cur = nxt
    return cur


def render_arg(eng, st, arg, opts, ref, path):
    how, key, decl, val = arg.a
    inst = eng.p.insts.get(key)
    name = inst['name'] if inst else decl
    if any(o is not None for o in opts):
        return emit(eng, st, ref, (mk('disp', 'opts%r' % (opts,), deref(st, eng, val)),), path)
    if how == 'display':
        while name == '<&T as std::fmt::Display>::fmt' or name.startswith('std::fmt::<impl std::fmt::Display for &') \
                or (name or '').startswith('<&') and (name or '').endswith('std::fmt::Display>::fmt'):
            # references format as their referent
            v = one(st, eng, val)
            inner = None
            b = eng.p.body(key)
            if b:
                for bb in b['bb']:
                    t = bb['t']
                    if t['k'] == 'call' and 'f' in t and t['f']['decl'].endswith('Display::fmt'):
                        inner = t['f']
            if inner is None:
                w = deref(st, eng, val)
                if w.op == 'seq':
                    return emit(eng, st, ref, w.a, path)
                break
            key, val = inner.get('key'), v
            inst = eng.p.insts.get(key)
            name = inst['name'] if inst else inner['decl']
        if name in STRLIKE:
            return emit(eng, st, ref, sq(st, eng, val).a, path)
        v = deref(st, eng, val)
        if name == '<char as std::fmt::Display>::fmt':
            return emit(eng, st, ref, (chr_part(eng, st, v),), path)
        if v.op == 'lin' and 'Display for' in name or v.op == 'lin' and name.startswith('core::fmt::num'):
            k = cval(v)
            return emit(eng, st, ref, (mk('lit', str(k).encode()) if k is not None else mk('disp', 'dec', v),), path)
        if v.op == 'seq':
            return emit(eng, st, ref, v.a, path)
        if inst and inst.get('body') and (inst['krate'].startswith('diffy') or inst['name'].startswith('<std::borrow::Cow')):
            # user Display: runs with a formatter writing to the same sink
            r = None
            sm = eng.summaries.get(inst['name'])
            if sm:
                from sa.engine import Call
                c = Call(eng, {'decl': decl, 'key': key}, name, key, [val, mk('mref', *target(st, eng, ref))],
                         eng.p.body(key)['locals'][0], path, None, None)
                r = sm(eng, st, c)
            if r is None:
                r = eng.exec_fn(st, key, [val, mk('mref', *target(st, eng, ref))], path)
            if r is not None:
                out = []
                for s, v in r:
                    for t, var, x in eng.cases(s, v):
                        out.append((t, eng.types[x.a[0]]['variants'][var]['name'] == 'Ok'))
                return out
    return emit(eng, st, ref, (mk('disp', how, name, deref(st, eng, val)),), path)


@model('std::fmt::Formatter::<\'a>::write_fmt', 'core::io::impls::<impl std::io::Write for &mut W>::write_fmt',
       'std::io::Write::write_fmt', 'std::fmt::Write::write_fmt')
def m_write_fmt(eng, st, c):
    return [(t, result_of(eng, c.dty, g)) for t, g in render(eng, st, c.args[1], c.args[0], c.path)]


@model('std::fmt::Display::fmt')
def m_display_fmt(eng, st, c):
    inst = eng.p.insts.get(c.key)
    if inst and inst.get('body') and inst['krate'].startswith('diffy'):
        return None
    v = deref(st, eng, c.args[0])
    if v.op == 'seq':
        return [(t, result_of(eng, c.dty, g)) for t, g in emit(eng, st, c.args[1], v.a, c.path)]
    if v.op == 'lin':
        k = cval(v)
        isch = c.name == '<char as std::fmt::Display>::fmt'
        p = chr_part(eng, st, v) if isch else mk('lit', str(k).encode()) if k is not None else mk('disp', 'dec', v)
        return [(t, result_of(eng, c.dty, g)) for t, g in emit(eng, st, c.args[1], (p,), c.path)]
    return None


@model('std::fmt::format', 'std::fmt::format::format_inner', 'std::string::ToString::to_string')
def m_format(eng, st, c):
    st = st.copy()
    cell = eng.tmp(st, seq(), ('fmt', eng.fid(c.path)))
    ref = mk('mref', cell, ())
    out = []
    if c.args[0].op == 'fargs':
        rs = render(eng, st, c.args[0], ref, c.path)
    else:
        v = deref(st, eng, c.args[0])
        if v.op != 'seq':
            return None
        rs = emit(eng, st, ref, v.a, c.path)
    for t, g in rs:
        t = t.copy()
        v = t.cells.pop(cell)
        if g:
            out.append((t, v))
    return out


@model('nu_ansi_term::ansi::<impl nu_ansi_term::style::Style>::prefix')
def m_prefix(eng, st, c):
    return [(st, mk('ansi', 'prefix', deref(st, eng, c.args[0])))]


@model('nu_ansi_term::ansi::<impl nu_ansi_term::style::Style>::suffix')
def m_suffix(eng, st, c):
    return [(st, mk('ansi', 'suffix', deref(st, eng, c.args[0])))]


@model('nu_ansi_term::style::Style::new')
def m_style_new(eng, st, c):
    return [(st, mk('style', 'plain', 'new'))]


@model('nu_ansi_term::style::Style::bold')
def m_style_bold(eng, st, c):
    return [(st, mk('style', 'bold', deref(st, eng, c.args[0])))]


@model('nu_ansi_term::style::Color::normal')
def m_color_normal(eng, st, c):
    return [(st, mk('style', 'color', c.args[0]))]
