"""Running of the validation entry points over a symbolic module and context.

The context of a check is made symbolic: the index spaces are arbitrary sequences, the control stack is
an arbitrary sequence of frames with a known innermost frame, the operand stack consists of the part
below that frame's height and an arbitrary part above it.
"""
import hooks
from dom import *
from interp import late, Budget, Engine, Infeasible, NeedSplit, State, Unsupported, LEN_MAX
from natives import NATIVES
from oracle import *


# roles of the fields of the validator's state: (type, what a name for it may contain)
CONTEXT = {'types': ('vec ref Func', ('ty', 'sig')), 'funcs': ('vec ref Func', ('f',)), 'tables': ('vec ref Table', ()),
           'mems': ('vec ref Mem', ()), 'globals': ('vec ref Global', ()), 'locals': ('vec ref Val', ()),
           'ret': ('opt', ()), 'stacks': ('struct', ())}
STACKS = {'operands': ('vec enum', ()), 'frames': ('vec struct', ())}
FRAME = {'label': ('slice', ('label', 'br', 'target', 'jump')), 'out': ('slice', ('out', 'end', 'res', 'ret')), 'height': ('int', ()),
         'unreachable': ('flag', ('reach', 'dead', 'live', 'poly', 'bottom')), 'loop': ('flag', ('loop', 'kind', 'block', 'form'))}
# values of a flag: unreachable, or a loop
DEAD = ('unreach', 'dead', 'poly', 'bottom', 'stop')
LIVE = ('reach', 'live')


def kind(p, ty, want):
    """Does a type have the given form?"""
    t = p.types[ty]
    w = want.split()
    if w[0] == 'vec':
        if w[1] == 'ref' and t['k'] == 'ref':
            ty, t = t['to'], p.types[t['to']]
        if t['k'] == 'slice' and w[1] == 'ref':
            a = p.types[t['to']]
        elif p.is_vec(ty):
            a = p.types[t['args'][0]]
        else:
            return False
        if w[1] == 'ref':
            return (p.ts(a['to']) if a['k'] == 'ref' else a['s']).split('::')[-1] == w[2]
        return a['k'] == w[1]
    if w[0] == 'opt':
        return t['s'].startswith('std::option::Option<')
    if w[0] == 'slice':
        return t['k'] == 'ref' and p.types[t['to']]['k'] == 'slice' or p.is_vec(ty)
    if w[0] == 'struct':
        return t['k'] == 'struct' and not p.is_vec(ty)
    if w[0] == 'flag':
        return t['s'] == 'bool' or t['k'] == 'enum' and all(not v['fields'] for v in t['variants'])
    return t['s'] == {'int': 'usize'}[w[0]]


class Model:
    """Where the analysed program keeps things: positions of fields and variants, found by name and type."""

    def __init__(self, W):
        self.W, self.p = W, W.p
        p = W.p
        i = p.roots['v_instr']
        b = p.body(i)
        self.ctx_ref = next(l for l in b.locals[1:b.argc + 1] if 'Context' in p.ts(l))
        self.ctx = p.types[self.ctx_ref]['to']
        self.cf = self.roles(self.ctx, CONTEXT)
        self.stacks = p.field_tys(self.ctx)[self.cf['stacks']]
        self.sf = self.roles(self.stacks, STACKS)
        st = p.field_tys(self.stacks)
        self.ops_vec, self.frames_vec = st[self.sf['operands']], st[self.sf['frames']]
        self.operand = p.types[self.ops_vec]['args'][0]
        self.frame = p.types[self.frames_vec]['args'][0]
        self.ff = self.roles(self.frame, FRAME)
        self.dead = self.flag('unreachable', DEAD, LIVE)
        self.loop = self.flag('loop', ('loop',), ()) if 'label' not in self.ff else None
        vs = p.types[self.operand]['variants']
        self.unknown = next(k for k, v in enumerate(vs) if not v['fields'])
        self.known = next(k for k, v in enumerate(vs) if len(v['fields']) == 1)
        self.val = p.field_tys(self.operand, self.known)[0]
        self.vals = {v['name']: k for k, v in enumerate(p.types[self.val]['variants'])}
        self.spaces = [n for n in ('types', 'funcs', 'tables', 'mems', 'globals', 'locals', 'ret') if n in self.cf]
        self.const_expr = W.result_ty('p_const_expr')
        self.instr = p.types[next(l for l in b.locals[1:b.argc + 1] if l != self.ctx_ref)]['to']

    def flag(self, role, yes, no):
        """Type of a flag of a frame and the value that means yes; for more than one other value, None stands for them."""
        p = self.p
        if role not in self.ff:
            return None
        ty = p.field_tys(self.frame)[self.ff[role]]
        t = p.types[ty]
        if t['s'] == 'bool':
            name = next(n for n, k in self.fields(self.frame).items() if k == self.ff[role]).lower()
            y = not (any(x in name for x in no) and not any(x in name for x in yes))
            return ty, int(y), int(not y)
        names = [v['name'].lower() for v in t['variants']]
        ys = [k for k, n in enumerate(names) if any(x in n for x in yes)]
        if len(ys) != 1 and len(names) == 2:
            ys = [1 - k for k, n in enumerate(names) if any(x in n for x in no)]
        if len(ys) != 1:
            return None
        return ty, Agg(ty, ys[0], ()), Agg(ty, 1 - ys[0], ()) if len(names) == 2 else None

    def is_set(self, flag, v):
        """The condition that a flag has the value for yes."""
        ty, y, _ = flag
        if isinstance(y, int):
            return v if y else Not(v) if isinstance(v, (int, T)) else T('not', v)
        if isinstance(v, Agg):
            return int(v.var == y.var)
        return T('isv', v, y.var, len(self.p.types[ty]['variants']))

    def fields(self, ty, var=0):
        return {f[0]: k for k, f in enumerate(self.p.types[ty]['variants'][var]['fields'])}

    def roles(self, ty, table):
        """Position of the field for every role: by name, else by type (and what the name resembles, then order)."""
        p = self.p
        have = self.fields(ty)
        tys = p.field_tys(ty)
        out = {n: k for n, k in have.items() if n in table or not any(kind(p, tys[k], t) for t, _ in table.values())}
        left = [(n, k) for n, k in have.items() if n not in out]
        for near in (True, False):
            for role, (t, like) in table.items():
                if role in out:
                    continue
                for n, k in left:
                    if kind(p, tys[k], t) and (not near or any(x in n.lower() for x in like)):
                        out[role] = k
                        left.remove((n, k))
                        break
        for n, k in left:
            out.setdefault(n, k)
        return out


class VEngine(Engine):
    """Lists of result types have at most one element (function types with more are rejected as such)."""
    model = None

    def len_sym(self, s):
        m = self.model
        n = s.name
        if m is not None and isinstance(n, tuple):
            if n[0] == 'deref' and isinstance(n[1], Sym) and isinstance(n[1].name, tuple) and n[1].name[0] == 'short':
                return Sym(('len', s), self.usize, (0, 1))
            if n[0] == 'deref':
                n = n[1].name if isinstance(n[1], Sym) else ()
            if n and n[0] == 'fld':
                o = n[1]
                t = self.ty(o.ty)
                if t['k'] == 'struct':
                    f = t['variants'][0]['fields'][n[3]][0]
                    if o.ty == m.frame and n[3] in (m.ff.get('label'), m.ff['out']) or f == 'results' or t['s'].endswith('RetVal'):
                        return Sym(('len', s), self.usize, (0, 1))
                if t['s'].startswith('std::option::Option<&'):
                    return Sym(('len', s), self.usize, (0, 1))
        return Engine.len_sym(self, s)


class ValidateBoundary:
    """Treat validation of the given types on an unknown receiver as atomic events."""

    def __init__(self, M, types, havoc=True, skip=1):
        self.M, self.types, self.havoc, self.skip = M, types, havoc, skip

    def __call__(self, E, st, callee, args, dty):
        if not callee['def'].endswith('Validate::validate') or not callee['args'] or len(args) != 2:
            return None
        t = E.ty(callee['args'][0])['s']
        if not self.types(t) or len(st.frames) <= self.skip:
            return None
        M = self.M
        who = args[0]
        v = E.read(st, who.cell, who.path) if isinstance(who, Ptr) else who
        if isinstance(v, Agg) and E.ty(v.ty)['k'] == 'enum':
            return None         # a marker made up on the way
        ctx = E.deref(st, args[1])
        before = E.read(st, ctx.cell, ctx.path)
        new = None
        if self.havoc and t in (M.W.expr, M.W.instr, M.const_expr):
            new = self.after(E, st, before, t)
        inner = E.p.field_tys(dty, 0)[0]
        err = E.p.field_tys(dty, 1)[0]
        a = st.copy()
        r = E.fresh(a, 'V:' + t, inner)
        a.emit('check', t, who, r, before, new, E.site(a), (ctx.cell, ctx.path))
        if new is not None:
            E.write(a, ctx.cell, ctx.path, new)
        x = E.fresh(st, 'E:' + t, err)
        st.emit('invalid', t, who, x, before, E.site(st), (ctx.cell, ctx.path))
        return [(a, Agg(dty, 0, (r,))), (st, Agg(dty, 1, (x,)))]

    def after(self, E, st, c, t):
        """The context after a valid instruction sequence: operands above the innermost frame's height and
        that frame's flag are unknown, everything else is unchanged."""
        M = self.M
        stk = field(E, field(E, c, M.cf['stacks']), None)
        ops = E.as_seq(field(E, stk, M.sf['operands']))
        fr = E.as_seq(field(E, stk, M.sf['frames']))
        fresh = E.fresh(st, 'ops:' + t, M.ops_vec)
        tail = ('s', fresh, 0, E.len_sym(fresh))
        r = E.seq_pop(st, fr)
        if r is None:
            nops = VecV(Seq(ops.parts + (tail,)))
            nfr = VecV(fr)
        else:
            rest, top = r
            if isinstance(top, Sym):
                top = E.expand(top)
            low = E.seq_slice(st, ops, 0, top.f[M.ff['height']])
            nops = VecV(Seq(low.parts + (tail,)))
            f = list(top.f)
            f[M.ff['unreachable']] = E.fresh(st, 'unreachable:' + t, M.dead[0])
            nfr = VecV(Seq(rest.parts + (('e', Agg(M.frame, 0, tuple(f))),)))
        ns = list(stk.f)
        ns[M.sf['operands']] = nops
        ns[M.sf['frames']] = nfr
        nc = list(E.expand(c).f if isinstance(c, Sym) else c.f)
        nc[M.cf['stacks']] = Agg(M.stacks, 0, tuple(ns))
        return Agg(M.ctx, 0, tuple(nc))


def field(E, v, i):
    if isinstance(v, Sym):
        v = E.expand(v)
    return v if i is None else v.f[i]


def sym_ctx(E, M, body=None):
    """An arbitrary context inside some block; with body inside some function, in its outermost block ('outer') or not."""
    c = list(E.expand(E.sym('ctx', M.ctx)).f)
    ops0, opsx = E.sym('ops below', M.ops_vec), E.sym('ops', M.ops_vec)
    h = E.len_sym(ops0)
    ops = VecV(Seq((('s', ops0, 0, h), ('s', opsx, 0, E.len_sym(opsx)))))
    fr0 = E.sym('outer frames', M.frames_vec)
    top = list(E.expand(E.sym('frame', M.frame)).f)
    top[M.ff['height']] = h
    low = (('s', fr0, 0, E.len_sym(fr0)),)
    if body:
        # the outermost block is that of the function: its results are what the function returns
        first = top if body == 'outer' else list(E.expand(E.sym('first frame', M.frame)).f)
        if 'label' in M.ff:
            first[M.ff['label']] = first[M.ff['out']]
        elif M.loop is not None and M.loop[2] is not None:
            first[M.ff['loop']] = M.loop[2]
        if 'ret' in M.cf:
            ty = E.p.field_tys(M.ctx)[M.cf['ret']]
            k = next((i for i, v in enumerate(E.ty(ty).get('variants', ())) if v['name'] == 'Some'), None)
            if k is not None and E.ty(E.p.field_tys(ty, k)[0])['s'] == E.ty(E.p.field_tys(M.frame)[M.ff['out']])['s']:
                c[M.cf['ret']] = Agg(ty, k, (first[M.ff['out']],))
        low = () if body == 'outer' else (('e', Agg(M.frame, 0, tuple(first))),) + low
    frames = VecV(Seq(low + (('e', Agg(M.frame, 0, tuple(top))),)))
    s = [None] * len(M.sf)
    s[M.sf['operands']], s[M.sf['frames']] = ops, frames
    for n, i in M.sf.items():
        if s[i] is None:
            s[i] = E.sym(('stacks', n), E.p.field_tys(M.stacks)[i])
    c[M.cf['stacks']] = Agg(M.stacks, 0, tuple(s))
    return Agg(M.ctx, 0, tuple(c))


def run(W, M, root, types, ctx=None, facts=(), self_val=None, havoc=True, short=True, **kw):
    """All abstract paths of a validation root; returns engine, paths, receiver and context symbols."""
    inst = W.p.roots[root]
    E = VEngine(W.p, dict(NATIVES), [ValidateBoundary(M, types, havoc)], **kw)
    E.model = M if short else None
    E.merge = False
    b = W.p.body(inst)
    args = [E.sym('self', b.locals[1])] + [E.sym('arg%d' % i, b.locals[i]) for i in range(2, b.argc + 1)]
    st = E.start(inst, args)
    if ctx is not None and b.argc > 1:
        st.mem[('*', args[1])] = ctx(E, M)
    if self_val is not None:
        st.mem[('*', args[0])] = self_val(E, E.load(st, ('*', args[0])))
    try:
        out = E.run(st)
    except Budget:
        s = State()
        s.done = ('unsup', 'analysis budget exceeded', None)
        out = [s]
    return E, out, args


class Skip(Exception):
    """This case is the subject of another rule."""


_shadow = {}


def congruent(F, c):
    """Decide a condition after replacing what is known to be equal inside names and indices as well."""
    if not F.solved:
        return None
    hit = _shadow.get(id(F.log))
    if hit is None or hit[0] is not F.log:
        m = {a: F.norm(v) for a, v in F.solved.items()}
        G = Facts()
        for b, v in F.assumptions():
            b2 = subst(b, m)
            if b2 is not b and not isinstance(b2, int):
                G.assume(b2, v)
        for a, v in F.solved.items():
            n = {k: x for k, x in m.items() if k is not a}
            b2 = subst(a, n)
            if b2 is not a and isinstance(b2, (Sym, T)):
                G.assume(T('eq0', sub(b2, m[a])) if not isinstance(sub(b2, m[a]), int) else 1)
        if len(_shadow) > 2000:
            _shadow.clear()
        hit = _shadow[id(F.log)] = (F.log, m, G)
    _, m, G = hit
    d = subst(c, m)
    if isinstance(d, int):
        return bool(d)
    r = G.decide(d)
    return F.decide(d) if r is None and d is not c else r


class VCur(Cur):
    """Position in a path of the validator."""

    def __init__(self, E, st, facts, events, cell=None, ctx0=None):
        Cur.__init__(self, E, st, facts, events)
        self.cell, self.ctx0 = cell, ctx0
        self.err = False        # on a path that ends with an error

    def test(self, c):
        r = self.F.decide(c)
        if r is None:
            r = congruent(self.F, c)
        if r is None:
            raise Fork(c)
        return r

    def sub(self, st, facts, events=()):
        return VCur(self.E, st, facts, list(events), self.cell, self.ctx0)

    def head_ctx(self, lp, st=None):
        if st is None:
            if not lp.conts:
                return None
            st = lp.conts[0]['head']
        return self.E.read(st, *self.cell)

    def peek_loop(self, n):
        """The next summarised loop that runs over n elements."""
        for e in self.ev[self.pos:]:
            if e[0] != 'loop':
                return None
            lp = e[1]
            if lp.kind == 'ind' and lp.conts and self.F.decide(self.E.mk_lt(lp.kappa, n)) is not None:
                return lp
        return None

    def peek_loops(self, n):
        """All summarised loops over n elements that follow."""
        out = []
        for e in self.ev[self.pos:]:
            if e[0] != 'loop':
                break
            lp = e[1]
            if lp.kind == 'ind' and lp.conts and self.F.decide(self.E.mk_lt(lp.kappa, n)) is not None:
                out.append(lp)
        return out

    def skip_loop(self, lp):
        while self.ev[self.pos][1] is not lp:
            self.pos += 1
        self.pos += 1

    def guarded(self, st, facts, f, events=()):
        """Differences f finds, over every case; a rejection by the rules counts as a difference."""
        out = []
        work = [facts.copy()]
        n = 0
        und = None
        while work:
            F = work.pop()
            n += 1
            if n > 4000 or late():
                raise Undecided('too many cases')
            c = self.sub(st, F, events)
            try:
                try:
                    d = f(c)
                    if d:
                        out.append((d, c.last))
                except (Undecided, Unsupported) as u:
                    und = u
                except BUGS as u:
                    und = Undecided(why(u))
                except Reject as r:
                    out.append(('accepts what the specification rejects' + (': ' + r.args[0] if r.args else ''), c.last))
                except Failed:
                    out.append(('goes on although a constituent is invalid', c.last))
                except Mismatch as m:
                    out.append((m.msg, m.site or c.last))
                except (Skip, Infeasible):
                    pass
                except NeedSplit as k:
                    raise Fork(k.cond)
            except Fork as k:
                for val in (True, False):
                    G = F.copy()
                    if G.assume(k.cond, val):
                        work.append(G)
        if und and not out:
            raise und
        return out

    def forall(self, q, pred, key=None):
        """Every element of the sequence satisfies the predicate (which may raise Reject)."""
        E = self.E
        n = E.seq_len(self.view, q)
        why = []
        for e in (reversed(self.ev) if self.err else self.ev):
            if e[0] != 'loop' or e[1].kind != 'ind':
                continue
            lp = e[1]
            if self.F.decide(E.mk_eq(lp.kappa, n)):
                memo = lp.__dict__.setdefault('judged', {})
                res = memo.get((q, key))
                if res is None:
                    res = []
                    for cont in lp.conts:
                        def one(k):
                            k.F.assume(E.mk_lt(lp.kappa, E.seq_len(k.view, q)))
                            return pred(k, E.seq_get(k.view, q, lp.kappa))
                        res += self.guarded(cont['state'], cont['facts'], one, cont['events'])
                    memo[q, key] = res
                if not res:
                    return
                why.append((res[0][0], res[0][1] or lp.site))
            elif self.err and self.F.decide(E.mk_lt(lp.kappa, n)):
                pred(self, E.seq_get(self.view, q, lp.kappa))
                why.append(('rejects an element that satisfies the rules', lp.site))
        if self.err:
            # only what the path has looked at can have made it reject
            i = 0
            while i < 4 and not why and self.F.decide(E.mk_lt(i, n)):
                pred(self, E.seq_get(self.view, q, i))
                i += 1
            return
        # the loop that comes closest
        why.sort(key=lambda w: w[0].endswith('not checked'))
        if why and not self.F.prove_le(self.norm(sub(n, 4))):
            raise Mismatch(*why[0])
        i = 0
        while not self.test(E.mk_le(n, i)):
            if i >= 4:
                if why:
                    raise Mismatch(*why[0])
                raise Undecided('not every element is looked at on this path')
            try:
                d = pred(self, E.seq_get(self.view, q, i))
            except (Mismatch, Reject):
                if any('opaque' in repr(b) for b, _ in self.F.assumptions()):
                    raise Undecided('acceptance depends on a loop that could not be described')
                if why and not isinstance(self.norm(n), int):
                    raise Mismatch(*why[0])
                raise
            if d:
                raise Mismatch(d, self.last)
            i += 1

    def induct(self, q, step, M):
        """The path treats the elements of q one after the other, each as step(machine, element) says."""
        from spec_valid import Mach
        E = self.E
        n = E.seq_len(self.view, q)
        lps = self.peek_loops(n)
        if not lps:
            m = Mach(self, M, self.ctx0)
            for x in m.listed(q):
                step(m, x)
            return m

        def pure(lp):
            # an iteration that leaves the stacks alone only checks its element
            for cont in lp.conts:
                def one(k, cont=cont):
                    return Mach(k, M, k.head_ctx(lp, cont['head'])).differs(k.head_ctx(lp, cont['state']))
                if self.guarded(cont['state'], cont['facts'], one, cont['events']):
                    return False
            return True

        main = lps[0]
        if len(lps) > 1:
            main = next((lp for lp in lps if not pure(lp)), lps[-1])
        for lp in lps:
            if not self.test(E.mk_le(n, lp.kappa)) and (lp is not main or pure(lp)):
                # stopped by a loop that checks the elements one by one
                self.skip_loop(lp)
                step(Mach(self, M, self.head_ctx(lp)), E.seq_get(self.view, q, lp.kappa))
                raise Mismatch('stops before everything was looked at', lp.site)
        lp = main
        for cont in lp.conts:
            def one(k, cont=cont):
                m = Mach(k, M, k.head_ctx(lp, cont['head']))
                k.F.assume(E.mk_lt(lp.kappa, E.seq_len(k.view, q)))
                step(m, E.seq_get(k.view, q, lp.kappa))
                e = k.peek()
                if e is not None:
                    return 'goes on to %s' % e[0]
                return m.differs(k.head_ctx(lp, cont['state']))
            for facts in self.combined(cont['facts'], lp, [x for x in lps if x is not lp]):
                for d in self.guarded(cont['state'], facts, one, cont['events']):
                    raise Mismatch(d[0], d[1] or lp.site)
        self.skip_loop(lps[-1])
        m = Mach(self, M, self.head_ctx(lp))
        if self.test(E.mk_le(n, lp.kappa)):
            return m
        step(m, E.seq_get(self.view, q, lp.kappa))
        raise Mismatch('stops before everything was looked at', lp.site)

    def combined(self, facts, lp, others):
        """What an iteration knows together with what other loops found out about the same element."""
        if not others:
            yield facts
            return
        for cont in others[0].conts:
            F = facts.copy()
            if all(F.assume(b, v) for b, v in others[0].holds(cont, lp.kappa)):
                yield from self.combined(F, lp, others[1:])

    def same_shape(self, x, a):
        return self.E.seq_norm(self.view, x) == self.E.seq_norm(self.view, a)


def vjudge(E, st, spec, cell, ctx0, final=True, check=None):
    """Verdicts of one path of the validator against the typing rules."""
    if st.done[0] != 'ret':
        return [({'unsup': 'und'}.get(st.done[0], st.done[0]), st.done[1], st.done[2] if len(st.done) > 2 else None)]
    try:
        kind, val = ret_of(E, st)
    except Undecided as e:
        return [('und', e.msg, None)]
    out = []
    events = st.events()
    work = [st.facts.copy()]
    n = 0
    while work:
        F = work.pop()
        n += 1
        if n > 4000 or late():
            out.append(('und', 'too many cases', None))
            break
        c = VCur(E, st, F, events, cell, ctx0)
        c.err = kind == 'err'
        try:
            try:
                m = spec(c)
                e = c.peek()
                if kind is None:
                    raise Fork(T('isv', val, 0, 2))
                if kind == 'err':
                    out.append(('bad', 'rejects what the specification accepts', c.last or site_of(events)))
                    continue
                if e is not None:
                    out.append(('bad', 'goes on to %s' % e[0], e[6] if e[0] == 'check' else None))
                    continue
                d = m.differs(E.read(c.view, *cell)) if final else None
                if not d and check is not None:
                    d = check(c, m, val)
                out.append(('bad', d, c.last) if d else ('ok', None, None))
            except (Reject, Failed) as r:
                if kind == 'ok':
                    what = 'accepts what the specification rejects' if isinstance(r, Reject) else 'succeeds although a constituent is invalid'
                    out.append(('bad', what + (': ' + r.args[0] if r.args else ''), c.last))
                elif kind is None:
                    raise Fork(T('isv', val, 0, 2))
                else:
                    out.append(('ok', None, None))
            except Mismatch as x:
                if kind == 'err' and x.msg.startswith('stops where'):
                    out.append(('bad', 'rejects before ' + x.msg[12:].replace(' is expected', ''), x.site or c.last))
                else:
                    out.append(('bad', x.msg, x.site or c.last))
            except (Undecided, Unsupported) + BUGS as u:
                out.append(('und', why(u), c.last))
            except Infeasible:
                pass
            except NeedSplit as k:
                raise Fork(k.cond)
        except Fork as k:
            for v in (True, False):
                G = F.copy()
                if G.assume(k.cond, v):
                    work.append(G)
    return sure(events, out)


def site_of(events):
    for e in reversed(events):
        if e[0] == 'check':
            return e[6]
        if e[0] == 'invalid':
            return e[5]
    return None
