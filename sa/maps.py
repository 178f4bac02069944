"""Maps from texts to numbers: a map is a term, `has(map, key)` and `val(map, key)` are what is known of it."""
from sa.models import *
from sa.models import model, target, sq, deref, some, none, opt_inner, unitv, callf, seq_eq

P = ('std::collections::HashMap::<K, V, S, A>::', 'std::collections::HashMap::<K, V, S>::', 'std::collections::BTreeMap::<K, V, A>::')
Q = ("std::collections::hash_map::%s::<'a, K, V, A>::", "std::collections::hash_map::%s::<'a, K, V>::", "std::collections::btree_map::%s::<'a, K, V, A>::")


def on_map(*names):
    return model(*[p + n for p in P for n in names])


def on_entry(kind, *names):
    return model(*[q % kind + n for q in Q for n in names])


@model('<std::collections::HashMap<K, V, S> as std::default::Default>::default', 'std::collections::HashMap::<K, V>::new',
       'std::collections::HashMap::<K, V>::with_capacity', 'std::collections::BTreeMap::<K, V>::new',
       '<std::collections::BTreeMap<K, V> as std::default::Default>::default')
def m_hm_new(eng, st, c):
    return [(st, mk('hmnew'))]


def key_of(st, eng, v):
    while v.op in ('ref', 'mref'):
        v = v.a[0] if v.op == 'ref' else eng.load(st, *v.a)
    return v


def has(st, eng, m, k):
    """is the key in the map: a formula"""
    if m.op == 'hmnew':
        return FALSE
    if m.op == 'hmins':
        if m.a[1] is k:
            return TRUE
        return disj(seq_eq(st, eng, m.a[1], k), has(st, eng, m.a[0], k))
    return ge(sub(atom(mk('hmhas', m, k), 0, 1), ONE))


def val(st, eng, m, k, ety):
    while m.op == 'hmins':
        if m.a[1] is k:
            return m.a[2]
        d = st.decide(seq_eq(st, eng, m.a[1], k))
        if d is True:
            return m.a[2]
        if d is None:
            return mk('unk', 'value in a map', ety)
        m = m.a[0]
    b = eng.types[ety]
    x = mk('hmval', m, k)
    return atom(x, 0, 2 ** 64 - 1) if b['k'] in ('int', 'uint') or b['s'] in INTS else eng.mat(mk('call', 'hmval', m, k, ety), ety)


def value_ty(eng, ty):
    """the value type of a map type or of an entry type"""
    a = [x for x in eng.types[ty].get('args', []) if isinstance(x, int)]
    return a[1] if len(a) > 1 else None


def vty_of(eng, c):
    t = eng.types[c.f['args'][1]] if len(c.f['args']) > 1 and isinstance(c.f['args'][1], int) else None
    return c.f['args'][1] if t else None


@on_map('entry')
def m_entry(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    k = key_of(st, eng, c.args[1])
    m = eng.load(st, cell, path)
    vty = vty_of(eng, c)
    names = [v['name'] for v in eng.types[c.dty]['variants']]
    y, n = st.split(has(st, eng, m, k))
    if 'Occupied' not in names:
        return None
    return [(s, eng.variant(c.dty, v, mk('hment', mk('mref', cell, path), k, vty))) for ss, v in ((y, 'Occupied'), (n, 'Vacant')) for s in ss]


def ent(st, eng, v):
    v = key_of(st, eng, v)
    if v.op != 'hment':
        raise Unsupported('map entry %s' % v.op)
    (cell, path), k, vty = v.a[0].a, v.a[1], v.a[2]
    return cell, path, k, vty


@on_entry('OccupiedEntry', 'get', 'get_mut', 'into_mut')
def m_occ_get(eng, st, c):
    cell, path, k, vty = ent(st, eng, c.args[0])
    return [(st, mk('ref', val(st, eng, eng.load(st, cell, path), k, vty)))]


def insert(eng, st, cell, path, k, v):
    st = st.copy()
    eng.store(st, cell, path, mk('hmins', eng.load(st, cell, path), k, v))
    return st


@on_entry('OccupiedEntry', 'insert')
def m_occ_insert(eng, st, c):
    cell, path, k, vty = ent(st, eng, c.args[0])
    old = val(st, eng, eng.load(st, cell, path), k, vty)
    return [(insert(eng, st, cell, path, k, c.args[1]), old)]


@on_entry('VacantEntry', 'insert')
def m_vac_insert(eng, st, c):
    cell, path, k, vty = ent(st, eng, c.args[0])
    return [(insert(eng, st, cell, path, k, c.args[1]), mk('ref', c.args[1]))]


@on_entry('OccupiedEntry', 'key')
def m_occ_key(eng, st, c):
    cell, path, k, vty = ent(st, eng, c.args[0])
    return [(st, mk('ref', mk('ref', k)))]


@on_entry('VacantEntry', 'key')
def m_vac_key(eng, st, c):
    return m_occ_key(eng, st, c)


@on_entry('Entry', 'or_insert', 'or_insert_with')
def m_or_insert(eng, st, c):
    out = []
    lazy = c.name.endswith('with') if hasattr(c, 'name') else None
    for s, va, x in eng.cases(st, c.args[0]):
        cell, path, k, vty = ent(s, eng, x.a[2])
        if eng.types[eng.tyof(x)]['variants'][va]['name'] == 'Occupied':
            out.append((s, mk('ref', val(s, eng, eng.load(s, cell, path), k, vty))))
        elif c.args[1].op == 'lin':
            out.append((insert(eng, s, cell, path, k, c.args[1]), mk('ref', c.args[1])))
        else:
            for u, _, y in callf(eng, s, c.args[1], [], c.path, dty=vty):
                out.append((insert(eng, u, cell, path, k, y), mk('ref', y)))
    return out


@on_map('get')
def m_hm_get(eng, st, c):
    m, k = key_of(st, eng, c.args[0]), key_of(st, eng, c.args[1])
    vty = vty_of(eng, c)
    y, n = st.split(has(st, eng, m, k))
    return [(s, some(eng, c.dty, mk('ref', val(s, eng, m, k, vty)))) for s in y] + [(s, none(eng, c.dty)) for s in n]


@on_map('contains_key')
def m_hm_contains(eng, st, c):
    m, k = key_of(st, eng, c.args[0]), key_of(st, eng, c.args[1])
    return [(st, has(st, eng, m, k))]


@on_map('insert')
def m_hm_insert(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    k = key_of(st, eng, c.args[1])
    m = eng.load(st, cell, path)
    y, n = st.split(has(st, eng, m, k))
    return [(insert(eng, s, cell, path, k, c.args[2]), some(eng, c.dty, val(s, eng, m, k, opt_inner(eng, c.dty)))) for s in y] + \
        [(insert(eng, s, cell, path, k, c.args[2]), none(eng, c.dty)) for s in n]


@on_map('len')
def m_hm_len(eng, st, c):
    m = key_of(st, eng, c.args[0])
    n, extra = m, ZERO
    while n.op == 'hmins':
        d = st.decide(has(st, eng, n.a[0], n.a[1]))
        if d is None:
            return None
        extra = extra if d else add(extra, ONE)
        n = n.a[0]
    base = ZERO if n.op == 'hmnew' else atom(mk('hmlen', n), 0, MAXLEN)
    return [(st, add(base, extra))]


@on_map('is_empty')
def m_hm_empty(eng, st, c):
    m = key_of(st, eng, c.args[0])
    if m.op == 'hmins':
        return [(st, FALSE)]
    r = m_hm_len(eng, st, c)
    return None if r is None else [(st, eq0(r[0][1]))]


@on_map('clear')
def m_hm_clear(eng, st, c):
    cell, path = target(st, eng, c.args[0])
    st = st.copy()
    eng.store(st, cell, path, mk('hmnew'))
    return [(st, unitv(eng, c.dty))]
