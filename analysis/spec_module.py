"""The rules for whole modules (core specification 1.0, section 3.4), stated one by one.

Every rule speaks about one element of a component list of the module, or about the module as such. A
path of the validator that accepts must have established every rule for every element; a path that
rejects must have found an element that breaks one. Rules look only at what a path knows (its facts, the
loops it completed, the sub-expressions it had checked), not at the order of the checks.
"""
from dom import *
from interp import late, Infeasible, LEN_MAX, NeedSplit, Unsupported
from oracle import *
from spec_valid import I32, Mach
from valid import Skip, VCur

KINDS = {'Func': 'funcs', 'Table': 'tables', 'Mem': 'mems', 'Global': 'globals'}


class Mod:
    """The module under validation and its index spaces, over abstract values."""

    def __init__(self, W, M, E, mod):
        self.W, self.M, self.E = W, M, E
        self.mod = E.expand(mod) if isinstance(mod, Sym) else mod
        names = [f[0] for f in E.ty(self.mod.ty)['variants'][0]['fields']]
        self.f = dict(zip(names, self.mod.f))
        self.found = None
        self.memo = {}

    def seq(self, name):
        if name not in self.f:
            raise Undecided('no %s in a module' % name)
        return self.E.as_seq(self.f[name])

    def fld(self, v, name):
        E = self.E
        fs = E.ty(v.ty)['variants'][0]['fields']
        i = next((i for i, f in enumerate(fs) if f[0] == name), None)
        if i is None:
            raise Undecided('no field %s in %s' % (name, E.ty(v.ty)['s']))
        return (E.expand(v) if isinstance(v, Sym) else v).f[i]

    def payload(self, v, name):
        E = self.E
        k = next(i for i, x in enumerate(E.ty(v.ty)['variants']) if x['name'] == name)
        return (E.expand(v, k) if isinstance(v, Sym) else v).f[0]

    def number(self, i):
        E = self.E
        for _ in range(3):
            if isinstance(i, SCALAR) and not (isinstance(i, Sym) and E.p.int_info(i.ty) is None):
                return i
            i = (E.expand(i) if isinstance(i, Sym) else i).f[0]
        raise Undecided('index')

    # -- index spaces
    def type_at(self, k, i, reject=False):
        E = self.E
        i = self.number(i)
        q = self.seq('types')
        if not k.test(E.mk_lt(i, E.seq_len(k.view, q))):
            raise Reject('index out of range of the types') if reject else Skip()
        return E.seq_get(k.view, q, i)

    def imported(self, kind):
        """What an import adds to the index space of this kind."""
        def f(k, el):
            d = self.fld(el, 'desc')
            if not k.is_var(d, kind):
                return []
            p = self.payload(d, kind)
            return [self.type_at(k, p)] if kind == 'Func' else [p]
        return (self.seq('imports'), f, 'imported ' + kind)

    def defined(self, kind):
        def f(k, el):
            t = self.fld(el, 'ty')
            return [self.type_at(k, t)] if kind == 'Func' else [t]
        return (self.seq(KINDS[kind]), f, 'defined ' + kind)

    def types(self):
        return (self.seq('types'), lambda k, el: [el], 'types')

    def space(self, kind):
        return [self.imported(kind), self.defined(kind)]

    def filters(self):
        """Loops of the validator that collect the imports of one kind: kind -> [(loop, slot)]."""
        if self.found is None:
            self.found = {}
            for kind in KINDS:
                q, f, _ = self.imported(kind)
                l = self.found[kind] = []
                for uid, lp in sorted(self.E.loops.items()):
                    if lp.kind != 'ind' or not lp.conts:
                        continue
                    for slot in lp.seqslots:
                        if not emitted(self, None, lp, slot, q, 0, f):
                            l.append((uid, slot))
        return self.found

    def canon(self, v, n):
        """All sequences known to be the imports of one kind are the same sequence."""
        if not isinstance(v, V):
            return v
        m = {}
        for kind, l in self.filters().items():
            for u, s in l[1:]:
                m[T('comp', u, s)] = T('comp', *l[0])
                m[T('complen', u, s, n)] = T('complen', l[0][0], l[0][1], n, rng=(0, LEN_MAX))
        return subst(v, m) if m else v

    def count(self, k, kind):
        """Number of imports of a kind."""
        E = self.E
        n = E.seq_len(k.view, self.seq('imports'))
        l = self.filters()[kind]
        if not l:
            if k.test(E.mk_le(n, 0)):
                return 0
            raise Undecided('imports of kind %s are not collected' % kind)
        c = E.part_len(k.view, ('c', l[0][0], l[0][1], n))
        for u, s in l[1:]:
            o = E.part_len(k.view, ('c', u, s, n))
            if o != c:
                k.F.assume(E.mk_eq(o, c))
        return c

    def lookup(self, k, kind, i, what=''):
        """The entity an index denotes; a reference for imports, a value for definitions."""
        E = self.E
        i = self.number(i)
        n = self.count(k, kind)
        defs, f, _ = self.defined(kind)
        if not k.test(E.mk_lt(i, add(n, E.seq_len(k.view, defs)))):
            raise Reject('%sindex out of range of the %s' % (what, KINDS[kind]))
        if k.test(E.mk_lt(i, n)):
            l = self.filters()[kind]
            q = E.part_elem(k.view, ('c', l[0][0], l[0][1], E.seq_len(k.view, self.seq('imports'))), i)
            return self.target(k, q)
        return f(k, E.seq_get(k.view, defs, k.norm(sub(i, n))))[0]

    def target(self, k, ref):
        E, w = self.E, k.view
        if isinstance(ref, Ptr) or isinstance(ref, Sym) and E.ty(ref.ty)['k'] == 'ref':
            p = E.deref(w, ref)
            if isinstance(p, SRef):
                return E.seq_slice(w, E.as_seq(E.read(w, p.ptr.cell, p.ptr.path)), p.lo, p.n)
            return E.read(w, p.cell, p.path)
        return ref

    # -- comparison
    def same(self, k, exp, act):
        """Difference between an expected value and what the program has (a value or a reference to it)."""
        n = self.E.seq_len(k.view, self.seq('imports'))
        if isinstance(exp, Adt):
            t = self.E.ty(act.ty)
            if not k.is_var(act, exp.var):
                return '%s instead of %s' % (k.vname(act), exp.var)
            act, exp = self.payload(act, exp.var), exp.fields[0]
        act = self.canon(self.target(k, act), n)
        exp = self.canon(self.target(k, exp), n)
        return k.same(exp, act)

    def listed(self, c, act, sources):
        """Difference between a sequence and the concatenation of mapped component lists."""
        E = self.E
        parts = [p for p in E.as_seq(act).parts if not (p[0] in ('s', 'c') and c.F.norm(E.part_len(c.view, p)) == 0)]
        for q, f, name in sources:
            n, o = E.seq_len(c.view, q), 0
            while True:
                left = c.norm(sub(n, o))
                p = parts[0] if parts else None
                if not (p and p[0] == 'c' and c.norm(sub(p[3], left)) == 0) and c.test(E.mk_le(left, 0)):
                    break
                if p is None:
                    # nothing may be left in the source either
                    x = f(c, E.seq_get(c.view, q, o))
                    if x:
                        return 'entries are missing'
                    o = add(o, 1)
                    if isinstance(o, int) and o > 3:
                        raise Undecided('list of unknown length')
                    continue
                if p[0] == 'e':
                    x = f(c, E.seq_get(c.view, q, o))
                    o = add(o, 1)
                    if not x:
                        continue
                    d = self.same(c, x[0], p[1]) if len(x) == 1 else 'number of entries'
                    if d:
                        return d
                    parts.pop(0)
                elif p[0] == 'c':
                    if not c.test(E.mk_le(p[3], left)):
                        return 'additional entries'
                    key = (p[1], p[2], o, name, q)
                    if name is None or key not in self.memo:
                        self.memo[key] = emitted(self, c, E.loops[p[1]], p[2], q, o, f)
                    d = self.memo[key]
                    if d:
                        return d
                    o = c.norm(add(o, p[3]))
                    parts.pop(0)
                elif p[0] == 's':
                    ln = E.part_len(c.view, p)
                    if not c.test(E.mk_le(ln, left)):
                        return 'additional entries'
                    i = Sym(('i', 'list'), E.usize, (0, LEN_MAX))
                    F = c.F.copy()
                    F.assume(E.mk_lt(i, ln))

                    def at(k):
                        x = f(k, E.seq_get(k.view, q, add(o, i)))
                        return self.same(k, x[0], E.part_elem(k.view, p, i)) if len(x) == 1 else 'number of entries'
                    for d in c.guarded(c.st, F, at):
                        return d[0]
                    o = c.norm(add(o, ln))
                    parts.pop(0)
                else:
                    raise Undecided('sequence part ' + p[0])
        for p in parts:
            if p[0] == 'e' or not c.test(E.mk_eq(E.part_len(c.view, p), 0)):
                return 'additional entries'
        return None


def emitted(D, c, lp, slot, q, o, f):
    """Difference between what the iterations of a loop append and the mapped elements of q from o on."""
    E = D.E
    for cont in lp.conts:
        em = cont['emits'].get(slot)
        if em is None:
            return 'elements not stored'
        i = add(o, lp.kappa)

        def one(k):
            if k.F.decide(E.mk_lt(i, E.seq_len(k.view, q))) is not True:
                if c is None:
                    return 'another loop'
                k.F.assume(E.mk_lt(i, E.seq_len(k.view, q)))
            x = f(k, E.seq_get(k.view, q, i))
            es = [p[1] for p in em if p[0] == 'e']
            if len(es) != len(em) or len(x) != len(em):
                return 'an entry is %s' % ('missing' if len(x) > len(em) else 'added')
            for a, b in zip(x, es):
                d = D.same(k, a, b) if c is not None else k.same(D.target(k, a), D.target(k, b)) if isinstance(a, V) else 'shape'
                if d:
                    return d
        base = c or VCur(E, cont['state'], cont['facts'], [])
        try:
            for d in base.guarded(cont['state'], cont['facts'], one, cont['events']):
                return d[0]
        except (Undecided, Unsupported):
            if c is None:
                return 'another loop'
            raise
    return None


# ---------------------------------------------------------------- rules
class Rule:
    def __init__(self, name, props, over, pred):
        self.name, self.props, self.over, self.pred = name, props, over, pred


class k_mach:
    """Just enough of a machine to look behind references."""
    def __init__(self, D, k):
        self.E, self.c, self.M = D.E, k, D.M


def check_event(D, k, expr, what):
    """The event that has this expression checked."""
    for n, e in enumerate(k.ev):
        if e[0] not in ('check', 'invalid'):
            continue
        t = D.target(k, e[2])
        if t is expr or (getattr(t, 'ty', None) == getattr(expr, 'ty', 0) and not k.same(expr, t)):
            k.last = e[6] if e[0] == 'check' else e[5]
            k.pos = n + 1
            return e
    if looked_at(D, k, expr, k.ev):
        raise Undecided('%s is checked in place' % what)
    raise Mismatch('%s is not checked' % what, k.last)


def looked_at(D, k, expr, evs):
    """Does a loop of the path run over the instructions of this expression?"""
    E = D.E
    n = E.seq_len(k.view, Mach.types(k_mach(D, k), expr))
    return any(e[0] == 'loop' and e[1].kind == 'ind' and k.F.decide(E.mk_lt(e[1].kappa, n)) is not None for e in evs) or \
        any(e[0] in ('check', 'invalid') and D.W.instr == e[1] for e in evs)


def checked(D, k, expr, what, results, spaces, func=None):
    """The expression is checked in a context with exactly these spaces and one fresh frame, and leaves the results."""
    M, E = D.M, D.E
    e = check_event(D, k, expr, what)
    if (e[1] == M.const_expr) != (func is None):
        raise Mismatch('%s is checked as another kind of expression' % what, k.last)
    k.cell = e[7] if e[0] == 'check' else e[6]
    before = E.expand(e[4]) if isinstance(e[4], Sym) else e[4]
    for n, src in spaces:
        d = D.listed(k, VecV(Mach.types(k_mach(D, k), before.f[M.cf[n]])), src)
        if d:
            raise Mismatch('%s is checked with other %s: %s' % (what, n, d), k.last)
    m = Mach(k, M, before)
    res = m.types(results)
    if func is not None and 'ret' in M.cf:
        r = before.f[M.cf['ret']]
        if not k.is_var(r, 'Some'):
            raise Mismatch('%s is checked without a return type' % what, k.last)
        d = k.same_seq(SeqX([('v', VecV(res))]), m.types(D.payload(r, 'Some')))
        if d:
            raise Mismatch('%s is checked with another return type: %s' % (what, d), k.last)
    m.ops, m.frames = Seq(()), Seq(())
    m.enter(VecV(res))
    d = m.differs(before, only=())
    if d:
        raise Mismatch('%s is checked with %s' % (what, d), k.last)
    if e[0] == 'invalid':
        raise Failed()
    m.load(e[5])
    m.leave()


def limits(D, k, lim, top, what):
    E = D.E
    lo, hi = D.fld(lim, 'min'), D.fld(lim, 'max')
    if k.is_var(hi, 'Some'):
        hi = D.payload(hi, 'Some')
        if not k.test(E.mk_le(lo, hi)):
            raise Reject('%s with a minimum above the maximum' % what)
        if not k.test(E.mk_le(hi, top)):
            raise Reject('%s with a maximum that is too large' % what)
    elif not k.test(E.mk_le(lo, top)):
        raise Reject('%s that is too large' % what)


TABLE_MAX, MEM_MAX = 2 ** 32 - 1, 65536


def rules(D):
    E, M = D.E, D.M
    out = []

    def rule(name, props, over=None):
        def put(f):
            out.append(Rule(name, props, over, f))
            return f
        return put

    @rule('function types', 'C21', 'types')
    def _(k, t):
        if not k.test(E.mk_le(E.seq_len(k.view, E.as_seq(D.fld(t, 'results'))), 1)):
            raise Reject('function type with several results')

    @rule('type of an imported function', 'C17 C21', 'imports')
    def _(k, i):
        d = D.fld(i, 'desc')
        if k.is_var(d, 'Func'):
            D.type_at(k, D.payload(d, 'Func'), reject=True)

    @rule('imported table', 'C21', 'imports')
    def _(k, i):
        d = D.fld(i, 'desc')
        if k.is_var(d, 'Table'):
            limits(D, k, D.fld(D.payload(d, 'Table'), 'lim'), TABLE_MAX, 'imported table')

    @rule('imported memory', 'C21', 'imports')
    def _(k, i):
        d = D.fld(i, 'desc')
        if k.is_var(d, 'Mem'):
            limits(D, k, D.fld(D.payload(d, 'Mem'), 'lim'), MEM_MAX, 'imported memory')

    @rule('type of a function', 'C17 C21', 'funcs')
    def _(k, f):
        D.type_at(k, D.fld(f, 'ty'), reject=True)

    @rule('function body', 'C13 C16 C18 C19 C21', 'funcs')
    def _(k, f):
        t = D.type_at(k, D.fld(f, 'ty'))
        vals = lambda v: (E.as_seq(v), lambda k, el: [el], None)
        spaces = [('types', [D.types()])] + [(KINDS[n], D.space(n)) for n in KINDS]
        spaces.append(('locals', [vals(D.fld(t, 'params')), vals(D.fld(f, 'locals'))]))
        checked(D, k, D.fld(f, 'body'), 'the body of a function', D.fld(t, 'results'), spaces, func=f)

    @rule('table', 'C21', 'tables')
    def _(k, t):
        limits(D, k, D.fld(D.fld(t, 'ty'), 'lim'), TABLE_MAX, 'table')

    @rule('memory', 'C21', 'mems')
    def _(k, t):
        limits(D, k, D.fld(D.fld(t, 'ty'), 'lim'), MEM_MAX, 'memory')

    @rule('initialiser of a global', 'C13 C16 C18 C19 C20 C21', 'globals')
    def _(k, g):
        checked(D, k, D.fld(g, 'init'), 'the initialiser of a global', VecV(Seq((('e', D.fld(D.fld(g, 'ty'), 'val')),))),
                [('globals', [D.imported('Global')])])

    i32 = VecV(Seq((('e', Agg(M.val, M.vals[I32], ())),)))

    @rule('table of an element segment', 'C17 C21', 'elem')
    def _(k, s):
        t = D.lookup(k, 'Table', D.fld(s, 'table'))
        if not k.is_var(D.fld(t, 'elem'), 'FuncRef'):
            raise Reject('element segment for another kind of table')

    @rule('offset of an element segment', 'C13 C16 C18 C19 C20 C21', 'elem')
    def _(k, s):
        checked(D, k, D.fld(s, 'offset'), 'the offset of an element segment', i32, [('globals', D.space('Global'))])

    @rule('functions of an element segment', 'C17 C21', 'elem')
    def _(k, s):
        def one(j, i):
            D.lookup(j, 'Func', i, 'element ')
        k.forall(E.as_seq(D.fld(s, 'init')), one)

    @rule('memory of a data segment', 'C17 C21', 'data')
    def _(k, s):
        D.lookup(k, 'Mem', D.fld(s, 'mem'))

    @rule('offset of a data segment', 'C13 C16 C18 C19 C20 C21', 'data')
    def _(k, s):
        checked(D, k, D.fld(s, 'offset'), 'the offset of a data segment', i32, [('globals', D.space('Global'))])

    @rule('start function', 'C17 C21')
    def _(k):
        s = D.f['start']
        if not k.is_var(s, 'Some'):
            return
        t = D.lookup(k, 'Func', D.fld(D.payload(s, 'Some'), 'func'), 'start ')
        for n in ('params', 'results'):
            if not k.test(E.mk_eq(E.seq_len(k.view, E.as_seq(D.fld(t, n))), 0)):
                raise Reject('start function with ' + n)

    @rule('export', 'C17 C21', 'exports')
    def _(k, x):
        d = D.fld(x, 'desc')
        for n in KINDS:
            if k.is_var(d, n):
                D.lookup(k, n, D.payload(d, n), 'export ')

    for n, what in (('Table', 'table'), ('Mem', 'memory')):
        @rule('at most one ' + what, 'C21')
        def _(k, n=n, what=what):
            if not k.test(E.mk_le(add(D.count(k, n), E.seq_len(k.view, D.seq(KINDS[n]))), 1)):
                raise Reject('several of kind ' + what)

    @rule('export names', 'C21')
    def _(k):
        distinct(D, k)
    return out


def distinct(D, k):
    """The names of the exports are pairwise distinct."""
    E = D.E
    q = D.seq('exports')
    n = E.seq_len(k.view, q)

    def names(s):
        return not D.listed(k, s, [(q, lambda j, el: [D.fld(el, 'name')], 'names')])

    # the number of different names compared with the number of exports
    for t in terms(k):
        if t.op == 'len' and isinstance(t.args[0], T) and t.args[0].op == 'dedup':
            s = E.as_seq(t.args[0].args[0])
            inner, grouped = None, False
            if len(s.parts) == 1 and s.parts[0][0] == 'o' and isinstance(s.parts[0][1], T) and s.parts[0][1].op in ('sorted', 'permuted'):
                inner = E.as_seq(s.parts[0][1].args[0])
                grouped = s.parts[0][1].op == 'sorted'
            if names(inner if inner is not None else s):
                # there are never more different names than exports
                few = k.F.decide(E.mk_lt(t, n))
                if few or few is None and not k.test(E.mk_eq(t, n)):
                    raise Reject('duplicate export name')
                if not grouped and not k.test(E.mk_le(n, 2)):
                    raise Reject('duplicate export name (only neighbours compared)')
                return
    # names entered into a set one after the other
    for e in k.ev:
        if e[0] != 'loop' or e[1].kind != 'ind' or not e[1].conts:
            continue
        lp = e[1]
        full = k.F.decide(E.mk_eq(lp.kappa, n))
        if full and all(any(fresh(D, k, lp, c, b, v) for b, v in c['facts'].assumptions()) for c in lp.conts):
            return
        if k.F.decide(E.mk_lt(lp.kappa, n)):
            for b, v in k.F.assumptions():
                if isinstance(b, T) and b.op == 'pred' and b.args[0] == 'newin' and not v and is_name(D, k, b.args[2], q, lp.kappa):
                    raise Reject('duplicate export name')
    # the sorted names compared with their neighbours
    for e in k.ev:
        if e[0] != 'loop' or e[1].kind != 'ind' or not e[1].conts:
            continue
        lp = e[1]
        offs = [[o for b, v in c['facts'].assumptions() for o in (neighbours(D, b, lp, names),) if o is not None and not v] for c in lp.conts]
        if all(offs) and offs[0][0] <= 0 and k.F.decide(E.mk_le(sub(n, 1), add(lp.kappa, offs[0][0]))):
            return
        for b, v in k.F.assumptions():
            o = neighbours(D, b, lp, names) if v else None
            if o is not None and k.F.decide(E.mk_lt(add(lp.kappa, o + 1), n)):
                raise Reject('duplicate export name')
    if k.test(E.mk_le(n, 1)):
        return
    if pairwise(D, k, n):
        return
    if any(about_names(D, k, b) for b, v in k.F.assumptions()) or any(about_names(D, k, b) for lp in nested_loops(k.ev) for c in lp.conts for b, v in c['facts'].assumptions()):
        raise Undecided('comparison of export names')
    raise Reject('duplicate export name')


def nested_loops(events, seen=None):
    """Loops of a path, also those inside others."""
    seen = set() if seen is None else seen
    for e in events:
        if e[0] == 'loop' and e[1].kind == 'ind' and e[1] not in seen:
            seen.add(e[1])
            for c in e[1].conts:
                nested_loops(c['events'], seen)
    return seen


def name_index(D, s):
    """The position of the export whose name a symbol is."""
    E = D.E
    if not (isinstance(s, Sym) and isinstance(s.name, tuple)):
        return None
    if s.name[0] == 'fld':
        o = s.name[1]
        if isinstance(o, Sym) and isinstance(o.name, tuple) and o.name[0] == 'elem' and o.name[1] is D.f['exports']:
            if E.ty(o.ty)['variants'][0]['fields'][s.name[3]][0] == 'name':
                return o.name[2]
        return None
    # a list of references to the names, filled by a loop over the exports
    if s.name[0] == 'deref':
        o = s.name[1]
        if isinstance(o, Sym) and isinstance(o.name, tuple) and o.name[0] == 'elem' and isinstance(o.name[1], T) and o.name[1].op == 'comp':
            lp = E.loops.get(o.name[1].args[0])
            off = set()
            for c in lp.conts if lp is not None else ():
                em = c['emits'].get(o.name[1].args[1])
                if not em or len(em) != 1 or em[0][0] != 'e' or not isinstance(em[0][1], Ptr):
                    return None
                try:
                    i = name_index(D, E.read(c['state'], em[0][1].cell, em[0][1].path))
                except Unsupported:
                    return None
                off.add(sub(i, lp.kappa) if i is not None else None)
            if len(off) == 1 and isinstance(next(iter(off)), int):
                return add(o.name[2], next(iter(off)))
    return None


def compared(D, b):
    """The positions of two exports whose names a condition compares, and whether completely."""
    if not isinstance(b, T):
        return None
    if b.op == 'eq0' and isinstance(b.args[0], Lin) and b.args[0].c == 0 and sorted(x[1] for x in b.args[0].t) == [-1, 1]:
        xs = [x.name[1] if isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == 'len' else None for x, _ in b.args[0].t]
        whole = False
    elif b.op == 'seqeq' and all(isinstance(q, Seq) and len(q.parts) == 1 and q.parts[0][0] == 's' and q.parts[0][2] == 0 for q in b.args):
        xs = [q.parts[0][1] for q in b.args]
        whole = len({q.parts[0][3] for q in b.args}) == 1 and any(q.parts[0][3] is D.E.len_sym(q.parts[0][1]) for q in b.args)
    else:
        return None
    i, j = (name_index(D, x) for x in xs)
    return None if i is None or j is None else (i, j, whole)


def pairwise(D, k, n):
    """The names compared with each other in nested loops over the exports."""
    E = D.E

    def apart(F, i, j):
        return F.decide(E.mk_lt(i, j)) or F.decide(E.mk_lt(j, i))

    def equal(F):
        """Two exports are known to have the same name."""
        for b, v in F.assumptions():
            x = compared(D, b) if v else None
            if x and x[2] and apart(F, x[0], x[1]) and all(F.decide(E.mk_lt(i, n)) for i in x[:2]):
                return True
        return False
    if equal(k.F):
        raise Reject('duplicate export name')
    for e in k.ev:
        if e[0] != 'loop' or e[1].kind != 'ind' or not e[1].conts:
            continue
        lp = e[1]
        if all(any(covers(D, k, lp, c, d[1], n, apart) for d in c['events'] if d[0] == 'loop' and d[1].kind == 'ind') for c in lp.conts):
            return True
    # comparisons over a fixed distance leave the others open
    far = set()
    for F in [k.F] + [c['facts'] for lp in nested_loops(k.ev) for c in lp.conts]:
        if F is not k.F and equal(F):
            raise Reject('duplicate export name')
        for b, v in F.assumptions():
            if about_names(D, k, b) or compared(D, b):
                x = compared(D, b)
                far.add(F.norm(sub(x[0], x[1])) if x else None)
    if far and all(isinstance(d, int) for d in far):
        if not k.test(E.mk_le(n, max(abs(d) for d in far) + 1)):
            raise Reject('duplicate export name (only exports at a fixed distance are compared)')
    return False


def covers(D, k, lp, c, lq, n, apart):
    """Do the iterations of two nested loops compare all pairs of exports?"""
    E = D.E
    pos = set()
    for d in lq.conts:
        F = d['facts']
        found = None
        for b, v in F.assumptions():
            x = compared(D, b) if not v else None
            if x:
                i, j = x[:2] if mentions(x[1], {lq.kappa}) else (x[1], x[0])
                if mentions(j, {lq.kappa}) and not mentions(i, {lq.kappa}) and mentions(i, {lp.kappa}):
                    found = i, j
        if found is None:
            return False
        pos.add(found)
    if len(pos) != 1:
        return False
    i, j = pos.pop()
    if sub(i, lp.kappa) != sub(subst(i, {lp.kappa: 0}), 0) or sub(j, lq.kappa) != subst(j, {lq.kappa: 0}):
        return False
    F, first = c['facts'], subst(j, {lq.kappa: 0})
    i0 = subst(i, {lp.kappa: 0})
    if not isinstance(i0, int):
        return False
    # all before it
    if F.decide(E.mk_le(first, 0)) and F.decide(E.mk_le(i, j)) and i0 <= 1 and k.F.decide(E.mk_le(n, i)):
        return True
    # all after it
    return bool(F.decide(E.mk_le(first, add(i, 1))) and F.decide(E.mk_le(n, j)) and i0 <= 0 and k.F.decide(E.mk_le(sub(n, 1), i)))


def neighbours(D, b, lp, names):
    """The distance from the iteration of the first of two neighbours in a sorted list of the names
    that a condition compares."""
    if not (isinstance(b, T) and b.op == 'eq0' and isinstance(b.args[0], Lin)):
        return None
    t = b.args[0]
    if t.c != 0 or len(t.t) != 2 or sorted(x[1] for x in t.t) != [-1, 1]:
        return None
    idx = []
    for x, _ in t.t:
        if not (isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == 'elem' and isinstance(x.name[1], T) and x.name[1].op == 'sorted'):
            return None
        if not names(D.E.as_seq(x.name[1].args[0])):
            return None
        idx.append(sub(x.name[2], lp.kappa))
    if not all(isinstance(i, int) for i in idx) or abs(idx[0] - idx[1]) != 1:
        return None
    return min(idx)


def is_name(D, k, v, q, i):
    E = D.E
    try:
        t = D.target(k, v)
        return t is D.fld(E.seq_get(k.view, q, i), 'name') or not k.same(D.fld(E.seq_get(k.view, q, i), 'name'), t)
    except (Undecided, Unsupported, NeedSplit, Fork, Infeasible):
        return False


def fresh(D, k, lp, c, b, v):
    """The iteration entered the name of its export into a set that did not contain it."""
    if not (isinstance(b, T) and b.op == 'pred' and b.args[0] == 'newin' and v):
        return False
    s = k.sub(c['state'], c['facts'].copy())
    q = D.seq('exports')
    s.F.assume(D.E.mk_lt(lp.kappa, D.E.seq_len(s.view, q)))
    if not is_name(D, s, b.args[2], q, lp.kappa):
        return False
    # the set holds the names entered by this loop
    return any(p[0] == 'c' and p[1] == lp.uid for p in b.args[1].parts)


def about_names(D, k, b):
    """Does a condition mention the name of an export?"""
    syms = set()
    all_syms(b, syms)
    root = D.f['exports']
    for s in syms:
        if not (isinstance(s, Sym) and isinstance(s.name, tuple) and s.name[0] in ('fld', 'len')):
            continue
        f = s.name[1] if s.name[0] == 'len' else s
        if not (isinstance(f, Sym) and isinstance(f.name, tuple) and f.name[0] == 'fld'):
            continue
        o = f.name[1]
        if isinstance(o, Sym) and isinstance(o.name, tuple) and o.name[0] == 'elem' and o.name[1] is root:
            if D.E.ty(o.ty)['variants'][0]['fields'][f.name[3]][0] == 'name':
                return True
    return False


def terms(k):
    """All terms in the facts of a cursor."""
    seen, out = set(), []

    def walk(v):
        if isinstance(v, tuple):
            for x in v:
                walk(x)
            return
        if not isinstance(v, V) or v in seen:
            return
        seen.add(v)
        if isinstance(v, T):
            out.append(v)
            for x in v.args:
                walk(x)
        elif isinstance(v, Lin):
            for a, _ in v.t:
                walk(a)
        elif isinstance(v, Seq):
            walk(v.parts)
        elif isinstance(v, VecV):
            walk(v.seq)
    for b, v in k.F.assumptions():
        walk(b)
    return out


def result(D, k, val):
    """Difference between the reported imports and exports and the module."""
    E = D.E

    def imp(j, el):
        d = D.fld(el, 'desc')
        for n in KINDS:
            if j.is_var(d, n):
                p = D.payload(d, n)
                return [Adt(n, [D.type_at(j, p) if n == 'Func' else p])]
        raise Infeasible()

    def exp(j, el):
        d = D.fld(el, 'desc')
        for n in KINDS:
            if j.is_var(d, n):
                try:
                    return [Adt(n, [D.lookup(j, n, D.payload(d, n))])]
                except Reject:
                    raise Skip()
        raise Infeasible()
    for name, f in (('imports', imp), ('exports', exp)):
        d = D.listed(k, D.fld(val, name), [(D.seq(name), f, 'reported ' + name)])
        if d:
            return 'reported %s: %s' % (name, d)
    return None


def judge_module(E, D, st):
    """Verdicts of one path of the validator: (rule or None, kind, message, site)."""
    if st.done[0] != 'ret':
        return [(None, {'unsup': 'und'}.get(st.done[0], st.done[0]), st.done[1], st.done[2] if len(st.done) > 2 else None)]
    kind, val = ret_of(E, st)
    events = st.events()
    out = []
    if kind == 'ok':
        for r in rules(D):
            def f(c, r=r):
                if r.over is None:
                    r.pred(c)
                else:
                    c.forall(D.seq(r.over), r.pred, r.name)
            out += [(r.name,) + v for v in accept(E, st, events, f)]
        out += [('reported types',) + v for v in accept(E, st, events, lambda c: result(D, c, val))]
        for e in events:
            if e[0] == 'invalid':
                out.append(('invalid constituent', 'bad', 'succeeds although a constituent is invalid', e[5]))
        return sure(events, out)
    out += [(None,) + v for v in reject(E, D, st, events)]
    return sure(events, out)


def cases(E, st, events, f):
    work = [st.facts.copy()]
    n = 0
    while work:
        F = work.pop()
        n += 1
        if n > 4000 or late():
            yield None, 'too many cases'
            return
        c = VCur(E, st, F, events)
        try:
            try:
                yield c, f(c)
            except NeedSplit as k:
                raise Fork(k.cond)
            except (Infeasible, Skip):
                pass
        except Fork as k:
            for v in (True, False):
                G = F.copy()
                if G.assume(k.cond, v):
                    work.append(G)


def accept(E, st, events, f):
    """A rule on a path that accepts."""
    def g(c):
        try:
            d = f(c)
            return ('bad', d, c.last or site(events)) if d else ('ok', None, None)
        except Reject as r:
            return ('bad', 'accepts what the specification rejects' + (': ' + r.args[0] if r.args else ''), c.last or site(events))
        except Failed:
            return ('bad', 'succeeds although a constituent is invalid', c.last or site(events))
        except Mismatch as m:
            return ('bad', m.msg, m.site or c.last or site(events))
        except (Undecided, Unsupported) + BUGS as u:
            return ('und', why(u), c.last or site(events))
    return [v if c is not None else ('und', v, None) for c, v in cases(E, st, events, g)]


def reject(E, D, st, events):
    """A path that rejects breaks some rule."""
    loops = [e[1] for e in events if e[0] == 'loop' and e[1].kind == 'ind']
    tries, places = [], []
    for r in rules(D):
        if r.over is None:
            tries.append((len(loops), r, None))
            continue
        c = VCur(E, st, st.facts.copy(), events)
        n = E.seq_len(c.view, D.seq(r.over))
        for i, lp in enumerate(loops):
            if c.F.decide(E.mk_lt(lp.kappa, n)):
                tries.append((i, r, lp.kappa))
                places.append((i, r.over, lp.site))
        for i in range(3):
            if c.F.decide(E.mk_lt(i, n)):
                tries.append((-1, r, i))
                if i == 0:
                    places.append((-1, r.over, site(events)))
    # the last list that was looked at comes first
    tries.sort(key=lambda t: -t[0] if t[2] is not None else 1)
    und = None

    def breaks(c, r, i):
        c.err = True
        if i is None:
            r.pred(c)
        else:
            r.pred(c, E.seq_get(c.view, D.seq(r.over), i))

    left = [st.facts.copy()]
    work = 0
    for split in (False, True):
        for _, r, at in tries:
            rest = []
            if work > 3000 or len(left) > 100 or late():
                return [('und', 'too many cases', None)]
            for F in left:
                open_, hit, todo, n = [], False, [F.copy()], 0
                while todo:
                    G = todo.pop()
                    n += 1
                    work += 1
                    c = VCur(E, st, G.copy(), events)
                    try:
                        try:
                            breaks(c, r, at)
                            open_.append(G)
                        except (Reject, Failed):
                            hit = True
                        except (Mismatch, Skip):
                            open_.append(G)
                        except (Undecided, Unsupported) + BUGS as u:
                            und = und or why(u)
                            open_.append(G)
                        except Infeasible:
                            pass
                        except NeedSplit as k:
                            raise Fork(k.cond)
                    except Fork as k:
                        if not split:
                            open_.append(G)
                        elif n > 500 or late():
                            und = 'too many cases'
                            open_ += todo + [G]
                            break
                        else:
                            for v in (True, False):
                                H = G.copy()
                                if H.assume(k.cond, v):
                                    todo.append(H)
                # a rule that never applies leaves the case as it was
                rest += open_ if hit or not open_ else [F]
            left = rest
            if not left:
                return [('ok', None, None)]
    if und:
        return [('und', und, None)]
    where = max(places)[1:] if places else (None, site(events))
    return [('bad', 'rejects what the specification accepts%s' % (' (%s)' % where[0] if where[0] else ''), where[1])]


def site(events):
    for e in reversed(events):
        if e[0] == 'check':
            return e[6]
        if e[0] == 'loop':
            return e[1].site
    return None
