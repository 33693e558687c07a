"""Call graph of the extracted program, and containment of types."""


class Graph:
    def __init__(self, p):
        self.p = p
        self._succ = {}
        self._impl = None

    def virtual(self, d):
        """Workspace implementations of a method that is called through a trait object."""
        if self._impl is None:
            self._impl = {}
            for i, I in enumerate(self.p.insts):
                if I and I['body'] is not None and self.ours(i) and I['def'].startswith('<') and ' as ' in I['def']:
                    tr = I['def'].split(' as ', 1)[1]
                    k = tr.rfind('>::')
                    self._impl.setdefault((tr[:k].split('<')[0], tr[k + 3:]), []).append(i)
        k = d.rfind('::')
        return self._impl.get((d[:k].split('<')[0], d[k + 2:]), [])

    def ours(self, i):
        return self.p.insts[i]['crate'] in ('whasm', 'parser')

    def name(self, i):
        I = self.p.insts[i]
        return I['name'] if I else '?'

    def callees(self, i):
        """[(instance, definition path, span or None)] of everything a body calls, drops or refers to."""
        if i in self._succ:
            return self._succ[i]
        out = []
        I = self.p.insts[i]
        body = I and I['body']

        def ref(c, sp):
            if c.get('inst') is not None:
                out.append((c['inst'], c.get('def'), sp))
            if c.get('kind') == 'virtual':
                out.extend((j, c['def'], sp) for j in self.virtual(c['def']))
            # functions handed to code whose body is not analysed
            for a in c.get('args', ()):
                if isinstance(a, int):
                    fn(a, sp)

        def fn(t, sp, d=0):
            t = self.p.types[t]
            if t['k'] == 'fndef':
                c = t['callee']
                if c.get('inst') is not None:
                    out.append((c['inst'], c['def'], sp))
            elif t['k'] == 'closure' and t.get('inst') is not None:
                out.append((t['inst'], t['name'], sp))
            elif t['k'] in ('ref', 'ptr') and d < 3:
                fn(t['to'], sp, d + 1)

        if body:
            for st, t, sp in body['blocks']:
                for s in st:
                    if s[0] == '=' and s[2][0] == 'cast' and s[2][4]:
                        ref(s[2][4], s[3])
                if t[0] == 'call' and 'ptr' not in t[1]:
                    ref(t[1], sp)
                elif t[0] == 'drop' and t[3] is not None:
                    out.append((t[3], None, sp))
        self._succ[i] = out
        return out

    def reach(self, roots):
        """Instance -> (caller, span) for everything reachable."""
        seen = {r: None for r in roots}
        work = list(roots)
        while work:
            i = work.pop(0)
            for j, d, sp in self.callees(i):
                if j not in seen and self.p.insts[j]:
                    seen[j] = (i, sp)
                    work.append(j)
        return seen

    def path(self, seen, i):
        """Chain of workspace functions from a root to an instance."""
        out = []
        while i is not None:
            c = seen[i]
            if self.ours(i) or not out:
                out.append(self.p.insts[i]['def'])
            i = c[0] if c else None
        return list(reversed(out))

    def site(self, seen, i):
        """Innermost workspace call that leads to an instance."""
        while seen.get(i):
            c, sp = seen[i]
            if self.ours(c):
                return (self.p.insts[c]['def'], self.p.loc(sp))
            i = c
        return (self.p.insts[i]['def'], '')

    def sccs(self, nodes, succ):
        """Strongly connected components that contain a cycle."""
        return cycles(nodes, succ)


def cycles(nodes, succ):
    index, low, on, order, out = {}, {}, set(), [], []
    n = 0
    for r in nodes:
        if r in index:
            continue
        work = [(r, iter(succ(r)))]
        index[r] = low[r] = n
        n += 1
        order.append(r)
        on.add(r)
        while work:
            u, it = work[-1]
            for v in it:
                if v not in nodes:
                    continue
                if v not in index:
                    index[v] = low[v] = n
                    n += 1
                    order.append(v)
                    on.add(v)
                    work.append((v, iter(succ(v))))
                    break
                if v in on:
                    low[u] = min(low[u], index[v])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        v = order.pop()
                        on.discard(v)
                        comp.append(v)
                        if v == u:
                            break
                    if len(comp) > 1 or u in succ(u):
                        out.append(comp)
    return out


def parts_of(p, t):
    """Types of which values are owned by a value of the type."""
    x = p.types[t]
    k = x['k']
    out = []
    if k in ('struct', 'enum', 'union'):
        for v in x['variants']:
            out += [f[1] for f in v['fields']]
        out += [a for a in x['args'] if isinstance(a, int)]
    elif k == 'tuple':
        out += x['elems']
    elif k == 'closure':
        out += x['upvars']
    elif k in ('array', 'slice'):
        out.append(x['elem'])
    elif k in ('ref', 'ptr'):
        out.append(x['to'])
    return out


def contained(p, t):
    seen = {t}
    work = [t]
    while work:
        for u in parts_of(p, work.pop()):
            if u not in seen:
                seen.add(u)
                work.append(u)
    return seen
