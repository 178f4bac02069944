"""Character boundaries of text: may a `str` be cut at this place?"""
from sa.term import *
from sa.state import *

CONTENT = {'sw', 'ew', 'has', 'any', 'seqeq', 'utf8', 'same', 'find', 'rfind', 'first', 'el', 'p'}


def offsets(b):
    """the character boundaries inside a constant"""
    try:
        b.decode('utf8')
    except UnicodeDecodeError:
        return None
    return [i for i in range(len(b) + 1) if i == len(b) or b[i] & 0xC0 != 0x80]


def plain(s):
    """(base, lo, hi) of a sequence that is one stretch of one text"""
    if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub':
        return s.a[0].a
    return None


def about(base, f):
    """the content of base is mentioned (not just its length)"""
    return any(x.op in CONTENT and base in mentions(x) for x in mentions(f))


def knowledge(st, base, extra):
    """what is known of the content of base: (places that are boundaries, stretches [lo, hi) that
    are pinned to constants, whether there is more that is not understood)"""
    at, pins, more = [], [], False
    fs = list(st.lits.items()) + [(L, True) for L in (*st.lin, extra)]
    seen = set()

    def pin(lo, pat):
        o = offsets(pat)
        if o is not None:
            at.extend(add(lo, num(i)) for i in o)
        pins.append((lo, add(lo, num(len(pat)))))

    def others(x):
        """what x says is about stretches of base: take them as pinned, whatever it is"""
        todo = list(x.a)
        while todo:
            y = todo.pop()
            if y is base:
                return True
            if not isinstance(y, T) or base not in mentions(y):
                continue
            if y.op == 'sub' and y.a[0] is base:
                if (y.a[1], y.a[2]) not in pins:
                    pins.append((y.a[1], y.a[2]))
            elif not (y.op == 'len' and y.a[0] is base):
                todo.extend(y.a)
        return False
    for f, v in fs:
        if not about(base, f):
            continue
        for x in mentions(f):
            if x in seen or x.op not in CONTENT or base not in mentions(x):
                continue
            seen.add(x)
            q = plain(x.a[0]) if x.a and isinstance(x.a[0], T) else None
            if x.op == 'el' and x.a[0] is base:
                i = x.a[1]
                e = atom(x, 0, 255)
                if st.decide(ge(sub(num(127), e))) is True:
                    at.extend((i, add(i, ONE)))
                elif st.decide(ge(sub(e, num(192)))) is True:
                    at.append(i)
                pins.append((i, add(i, ONE)))
            elif q is None or q[0] is not base:
                more = more or others(x)
            elif x.op in ('find', 'rfind') and isinstance(x.a[1], bytes):
                pin(add(q[1], atom(x, 0, MAXLEN)), x.a[1])
            elif x.op in ('find', 'rfind') and isinstance(x.a[1], T) and x.a[1].op == 'seq':
                i = add(q[1], atom(x, 0, MAXLEN))
                at.extend((i, add(i, seqlen(x.a[1]))))
                pins.append((i, add(i, seqlen(x.a[1]))))
                more = True
            elif x.op == 'first':
                i = add(q[1], atom(x, 0, MAXLEN))
                if not any(x.a[1][128:]):
                    at.extend((i, add(i, ONE)))
                pins.append((i, add(i, ONE)))
            elif x.op == 'sw' and isinstance(x.a[1], bytes) and f is x:
                if v:
                    pin(q[1], x.a[1])
                elif max(x.a[1], default=0) > 127:
                    more = True
            elif x.op == 'ew' and isinstance(x.a[1], bytes) and f is x:
                if v:
                    pin(sub(q[2], num(len(x.a[1]))), x.a[1])
                elif max(x.a[1], default=0) > 127:
                    more = True
            elif x.op == 'has' and isinstance(x.a[1], bytes) and f is x:
                if v:
                    i = add(q[1], atom(mk('find', x.a[0], x.a[1]), 0, MAXLEN))
                    pins.append((i, add(i, num(len(x.a[1])))))
                elif max(x.a[1], default=0) > 127:
                    more = True
            elif x.op == 'any' and f is x and not any(x.a[1][128:]):
                if v:
                    i = add(q[1], atom(mk('first', x.a[0], x.a[1]), 0, MAXLEN))
                    pins.append((i, add(i, ONE)))
            else:
                more = more or others(x)
    return at, pins, more


def boundary(st, s, p):
    """'yes', 'no' (some text with these facts has a character across p) or '?'"""
    n = seqlen(s)
    if p is ZERO or p is n or st.decide(eq0(p)) is True or st.decide(eq0(sub(p, n))) is True:
        return 'yes'
    q = plain(s)
    if q is None:
        off = ZERO
        for x in s.a:
            if x.op == 'lit' and isnum(sub(p, off)) and 0 <= cval(sub(p, off)) <= len(x.a[0]):
                return 'yes' if cval(sub(p, off)) in (offsets(x.a[0]) or ()) else '?'
            if st.decide(eq0(sub(p, off))) is True:
                return 'yes'
            off = add(off, partlen(x))
        return '?'
    base, lo, hi = q
    pos = add(lo, p)
    at, pins, more = knowledge(st, base, pos)
    if any(st.decide(eq0(sub(pos, k))) is True for k in at):
        return 'yes'
    if more or len(pins) > 12:
        return '?'
    # there is a byte on either side, and neither is pinned
    return 'no' if around(st, [sub(sub(pos, lo), ONE), sub(sub(hi, pos), ONE)], pins, sub(pos, ONE), add(pos, ONE)) else '?'


def cut(eng, st, c, s, places):
    """record the panics of cutting a str at the given places"""
    if not eng.chars or 'str' not in c.name.split('::<')[0] and 'string::String' not in c.name:
        return
    for p in places:
        v = boundary(st, s, p)
        if v != 'yes':
            eng.panic(c.fr, st, 'a text is cut inside a character' if v == 'no' else 'a text may be cut inside a character', c.sp)


def free_byte(st, s):
    """is there a byte of this stretch that may have any value?"""
    base, lo, hi = s.a[0].a
    t = st.copy()
    for f in list(t.lits):
        if f.op == 'utf8' and f.a[0] is s or not st.lits[f] and f.op == 'eq0' and len(f.a[0].a[1]) == 1 \
                and f.a[0].a[1][0][0].op == 'el' and abs(f.a[0].a[0]) < 128:
            del t.lits[f]                                     # (any byte above 127 will do)
    at, pins, more = knowledge(t, base, lo)
    pos = atom(mk('in', 'some byte', -1), 0, MAXLEN)
    if more or len(pins) > 12:
        return False
    return around(t, [sub(pos, lo), sub(sub(hi, pos), ONE)], pins, pos, add(pos, ONE))


def around(st, facts, pins, lo, hi):
    """may [lo, hi) lie beside every pinned stretch?"""
    from sa.apply import feasible
    sts = [st.copy()]
    for L in facts:
        sts = [t for t in sts if t.addlin(L)]
    for a, b in dict.fromkeys(pins):
        nxt = []
        for t in sts:
            for L in (sub(lo, b), sub(a, hi)):
                u = t.copy()
                if u.addlin(L):
                    nxt.append(u)
        sts = nxt
    return any(feasible(t) for t in sts)


def whole_chars(eng, st, s):
    """'yes' when the bytes of s are known to be UTF-8: whole characters of text"""
    for x in s.a:
        if x.op == 'lit':
            if offsets(x.a[0]) is None:
                return '?'
        elif x.op == 'sub':
            base, lo, hi = x.a
            ty = eng.tyof(base) if base.op != 'lines' else None
            if ty is None or eng.types[ty]['s'] not in ('str', 'std::string::String'):
                return 'no' if len(s.a) == 1 and free_byte(st, s) else '?'
            w = seq(mk('sub', base, ZERO, atom(mk('len', base), 0, MAXLEN)))
            for p in (lo, hi):
                v = boundary(st, w, p)
                if v != 'yes':
                    return v
        elif x.op == 'chr':
            pass
        elif x.op == 'el1':
            if st.decide(ge(sub(num(127), x.a[0]))) is not True:
                return '?'
        elif x.op == 'opq' and x.a and x.a[0] == 'text':
            pass
        else:
            return '?'
    return 'yes'
