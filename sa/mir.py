"""The monomorphic program: types, function instances, call graph."""
import re


class Program:
    def __init__(self, m):
        self.types = m['types']
        self.insts = m['insts']
        self.roots = {k.split('::')[-1]: v for k, v in m['roots'].items()
                      if not k.startswith('<')}
        self.adt = {}
        for i, t in enumerate(self.types):
            if t.get('k') == 'adt':
                self.adt.setdefault(t['name'], []).append(i)

    def ts(self, t):
        return self.types[t]['s']

    def body(self, key):
        i = self.insts.get(key)
        return i.get('body') if i else None

    def where(self, key):
        i = self.insts[key]
        f, l = i['span']
        return '%s (%s:%s)' % (i['inst'], f.replace('/repo/', ''), l)

    # every instance a body mentions: calls, function values, closures, drop and display glue
    def mentions(self, key):
        out = set()
        b = self.body(key)
        if not b:
            return out
        tys = set(b['locals'])

        def ty(t, seen):
            if t in seen or not isinstance(t, int):
                return
            seen.add(t)
            x = self.types[t]
            if x['k'] == 'fndef' and 'key' in x['callee']:
                out.add(x['callee']['key'])
            if x['k'] == 'closure' and 'key' in x:
                out.add(x['key'])
            if x['k'] == 'adt':
                for n in ('next',):
                    if n in x:
                        out.add(x[n])
                for a in x['args']:
                    ty(a, seen)
            if x['k'] in ('ref', 'ptr'):
                ty(x['to'], seen)
            if x['k'] in ('slice', 'array'):
                ty(x['elem'], seen)
            if x['k'] == 'tuple':
                for a in x['elems']:
                    ty(a, seen)

        seen = set()
        for t in tys:
            ty(t, seen)
        for o in self.operands(b):
            if 'ty' in o:
                ty(o['ty'], seen)
        for bb in b['bb']:
            t = bb['t']
            if t['k'] == 'call' and 'f' in t:
                if 'key' in t['f']:
                    out.add(t['f']['key'])
                for a in t['f']['args']:
                    ty(a, seen)
        return out

    @staticmethod
    def operands(b):
        def rv(r):
            k = r[0]
            if k in ('use', 'repeat'):
                yield r[1]
            elif k == 'cast':
                yield r[2]
            elif k in ('bin', 'chk'):
                yield r[2]
                yield r[3]
            elif k == 'un':
                yield r[2]
            elif k == 'agg':
                for o in r[2]:
                    yield o
        for bb in b['bb']:
            for s in bb['s']:
                if s[0] == '=':
                    for o in rv(s[2]):
                        yield o
            t = bb['t']
            if t['k'] == 'switch':
                yield t['d']
            elif t['k'] == 'assert':
                yield t['c']
            elif t['k'] == 'call':
                for o in t['a']:
                    yield o

    def reach(self, keys):
        seen, todo = {}, [(k, None) for k in keys]
        while todo:
            k, p = todo.pop()
            if k in seen or k not in self.insts:
                continue
            seen[k] = p
            for n in self.mentions(k):
                todo.append((n, k))
        return seen

    def chain(self, seen, k, n=8):
        out = []
        while k is not None and len(out) < n:
            out.append(re.sub(r'::<.*', '', self.insts[k]['inst']))
            k = seen[k]
        return ' <- '.join(out)
