"""Effect analysis over the whole call graph: no ambient input, no hidden state, no dependence on
hash order or on addresses."""
import re

AMBIENT = [
    (r'^(std|core)::time::(Instant|SystemTime)', 'reads the clock'),
    (r'^std::env::', 'reads the environment'),
    (r'^std::fs::|^std::net::|^std::process::|^std::os::', 'touches the outside world'),
    (r'^std::thread::(?!panicking)', 'depends on threads'),
    (r'^std::io::(stdin|stdout|stderr|_print|_eprint)|^std::io::stdio::', 'uses the standard streams'),
    (r'thread::local|LocalKey', 'thread-local state'),
    (r'hash_map::RandomState|random::RandomState|BuildHasher>?::(build_hasher|hash_one)', 'a randomly keyed hash value'),
    (r'ptr::(eq|addr_eq|hash)$|ptr::(const_ptr|mut_ptr)::.*::(addr|expose_provenance|expose_addr)$', 'an address'),
    (r'^std::any::(type_name|TypeId)|^std::panic::Location', 'build-dependent data'),
    (r'sync::atomic::|cell::(Cell|RefCell|OnceCell|LazyCell|UnsafeCell)|sync::(Mutex|RwLock|OnceLock|LazyLock|Once)\b',
     'shared mutable state'),
    (r'^std::panic::catch_unwind|panicking::(take_hook|set_hook)|^std::panic::(take_hook|set_hook)', 'the panic machinery'),
    (r'^std::alloc::(alloc|set_alloc)', 'the allocator'),
]
ITER = re.compile(r'(HashMap|HashSet|hash_map|hash_set)')
ITERM = re.compile(r'::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|into_iter|drain|retain|extract_if|next|fmt|'
                   r'union|intersection|difference|symmetric_difference|hasher)$')
CELLTY = re.compile(r'Atomic|Cell<|Mutex|RwLock|Once|Lazy')


def run(p, rep):
    seen = p.reach(p.roots.values())
    nb = nc = 0
    entries = 0
    for k in sorted(seen):
        i = p.insts[k]
        if not i['krate'] in ('diffy', 'diffy_roots') or 'body' not in i:
            continue
        nb += 1
        b = i['body']
        fn = re.sub(r'::<.*', '', i['inst'])
        bad = False
        for n in sorted(p.mentions(k)):
            c = p.insts.get(n)
            if not c or c['krate'] in ('diffy', 'diffy_roots'):
                continue
            nc += 1
            nm, ins = c['name'], c['inst']
            for pat, why in AMBIENT:
                if re.search(pat, nm):
                    bad = True
                    rep.bad('%s -> %s' % (fn, nm), '%s calls %s, which is %s; reached by %s'
                            % (p.where(k), ins, why, p.chain(seen, k)))
            if (ITER.search(nm) or ITER.search(ins.split(' as ')[0].split('::<')[0])) and ITERM.search(nm) \
                    and 'Entry' not in nm:
                bad = True
                rep.bad('%s -> %s' % (fn, nm), '%s iterates a hash table by %s: its order differs from run to run; reached by %s'
                        % (p.where(k), ins, p.chain(seen, k)))
            if ITER.search(nm) and nm.endswith('::entry'):
                entries += 1
        for bb in b['bb']:
            for s in bb['s']:
                if s[0] != '=':
                    continue
                r = s[2]
                if r[0] == 'cast' and re.search(r'Expose|PtrToInt|Transmute', r[1]):
                    src = r[2]
                    st = src.get('ty')
                    if st is None:
                        pl = src.get('cp') or src.get('mv')
                        st = b['locals'][pl[0]] if pl and len(pl) == 1 else None
                    if st is not None and p.types[st]['k'] in ('ref', 'ptr', 'fnptr') and p.types[r[3]]['k'] in ('uint', 'int'):
                        bad = True
                        rep.bad('%s ptr-to-int' % fn, '%s turns a pointer into an integer (line %s)' % (p.where(k), s[3][1]))
                if r[0] == 'bin' and r[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                    for o in r[2:4]:
                        pl = o.get('cp') or o.get('mv')
                        if pl and len(pl) == 1 and p.types[b['locals'][pl[0]]]['k'] in ('ptr', 'fnptr'):
                            bad = True
                            rep.bad('%s ptr-cmp' % fn, '%s compares raw pointers (line %s)' % (p.where(k), s[3][1]))
        for o in p.operands(b):
            c = o.get('c')
            if c and c[0] == 'static':
                t = p.types[o['ty']]
                tgt = p.ts(t['to']) if t['k'] in ('ref', 'ptr') else ''
                if t['k'] == 'ptr' or CELLTY.search(tgt):
                    bad = True
                    rep.bad('%s static %s' % (fn, c[1]), '%s uses the static %s of type %s' % (p.where(k), c[1], tgt))
        if not bad:
            rep.good('%s: no ambient effect' % fn)
    rep.floor('functions (monomorphic) of diffy', nb, 250)
    rep.counts['external callees classified'] = nc
    # the matcher must be alive: the hash table of the classifier is in view
    rep.floor('hash-table uses in view (none of them iterates)', entries, 1)
