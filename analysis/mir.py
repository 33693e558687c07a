"""Loading of the extracted MIR: types, instances, constants, control-flow facts."""
import json


class Body:
    __slots__ = ('inst', 'locals', 'argc', 'blocks', 'names', 'span', 'spread', 'loops', 'livein', 'taken')

    def __init__(self, inst, b):
        self.inst = inst
        self.locals = b['locals']
        self.argc = b['argc']
        self.blocks = b['blocks']
        self.names = {l: n for l, n in b['names']}
        self.span = b['span']
        self.spread = b['spread']
        self.loops = None
        self.livein = None
        self.taken = None

    # ---- control flow -------------------------------------------------
    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b for _, b in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []

    def analyse(self):
        """Loop heads with their natural loops (unwind edges excluded)."""
        n = len(self.blocks)
        succ = [self.succs(b[1]) for b in self.blocks]
        color = [0] * n
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                if color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                stack.pop()
        preds = [[] for _ in range(n)]
        for u in range(n):
            if color[u]:
                for v in succ[u]:
                    preds[v].append(u)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds[x])
        self.loops = loops
        self._liveness(succ)

    def _liveness(self, succ):
        """Locals read (or borrowed) later on some path; borrowed locals stay live until StorageDead."""
        n = len(self.blocks)
        taken = set()
        use = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]

        def op(o, u, d):
            if o[0] in ('copy', 'move'):
                place(o[1], u, d)

        def place(p, u, d, write=False):
            if write and len(p) == 1:
                d.add(p[0])
                return
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if e[0] == '[]' and e[1] not in d:
                    u.add(e[1])

        def rv(r, u, d):
            k = r[0]
            if k in ('ref', 'addr'):
                p = r[2]
                if not any(e[0] == '*' for e in p[1:]):
                    taken.add(p[0])
                place(p, u, d)
            elif k == 'agg':
                for o in r[3]:
                    op(o, u, d)
            elif k in ('bin', 'cbin'):
                op(r[2], u, d)
                op(r[3], u, d)
            elif k in ('un', 'cast'):
                op(r[2], u, d)
            elif k in ('use', 'repeat'):
                op(r[1], u, d)
            elif k in ('discr', 'len'):
                place(r[1], u, d)

        for i, (st, t, _) in enumerate(self.blocks):
            u, d = use[i], defs[i]
            for s in st:
                if s[0] == '=':
                    rv(s[2], u, d)
                    place(s[1], u, d, True)
                elif s[0] in ('dead', 'live'):
                    d.add(s[1])
                elif s[0] == 'assume':
                    op(s[1], u, d)
                elif s[0] == 'copynon':
                    for o in s[1:4]:
                        op(o, u, d)
                elif s[0] == 'setdiscr':
                    place(s[1], u, d)
            k = t[0]
            if k == 'switch':
                op(t[1], u, d)
            elif k == 'drop':
                pass
            elif k == 'call':
                if 'ptr' in t[1]:
                    op(t[1]['ptr'], u, d)
                for o in t[2]:
                    op(o, u, d)
                place(t[3], u, d, True)
            elif k == 'assert':
                op(t[1], u, d)
            elif k == 'return':
                u.add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in succ[i]:
                    out |= live[s]
                new = use[i] | (out - defs[i])
                if new != live[i]:
                    live[i] = new
                    changed = True
        self.livein = live
        self.taken = taken


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.insts = d['insts']
        self.files = d['files']
        self.roots = {n: i for n, i in d['roots']}
        self.crate = d['crate']
        self.fns = d['fns']
        self._bodies = {}
        self._by_s = {}
        for i, t in enumerate(self.types):
            self._by_s.setdefault(t['s'], i)
        for t in self.types:
            if t['k'] == 'float':
                t['bits'] = t['layout']['size'] * 8

    def body(self, i):
        b = self._bodies.get(i)
        if b is None:
            raw = self.insts[i]['body']
            if raw is None:
                return None
            b = Body(i, raw)
            b.analyse()
            self._bodies[i] = b
        return b

    def ty_named(self, s):
        return self._by_s.get(s)

    def ts(self, i):
        return self.types[i]['s']

    def loc(self, span):
        f = self.files[span[0]]
        return '%s:%d' % (f.replace('/repo/', ''), span[1])

    def field_tys(self, ty, var=0):
        t = self.types[ty]
        k = t['k']
        if k in ('struct', 'enum', 'union'):
            return [f[1] for f in t['variants'][var]['fields']]
        if k == 'tuple':
            return t['elems']
        if k == 'closure':
            return t['upvars']
        if k == 'array':
            return [t['elem']] * t['len']
        raise KeyError(k)

    def int_info(self, ty):
        """(bits, signed) of an integer-like type, or None."""
        t = self.types[ty]
        k = t['k']
        if k == 'uint':
            return (t['bits'], False)
        if k == 'int':
            return (t['bits'], True)
        if k == 'bool':
            return (1, False)
        if k == 'char':
            return (32, False)
        return None

    def is_vec(self, ty):
        t = self.types[ty]
        return t['k'] == 'struct' and t['name'] in ('std::vec::Vec', 'alloc::vec::Vec')

    def is_string(self, ty):
        t = self.types[ty]
        return t['k'] == 'struct' and t['name'] in ('std::string::String', 'alloc::string::String')
