"""The typing rules of WebAssembly 1.0 (core specification, chapter 3 and the algorithm of its appendix),
evaluated over the abstract values of a path."""
import re

from dom import *
from interp import Unsupported, NeedSplit
from oracle import *

I32, I64, F32, F64 = 'I32', 'I64', 'F32', 'F64'
INT = ('Clz', 'Ctz', 'Popcnt')
IBIN = ('Add', 'Sub', 'Mul', 'DivS', 'DivU', 'RemS', 'RemU', 'And', 'Or', 'Xor', 'Shl', 'ShrS', 'ShrU', 'Rotl', 'Rotr')
IREL = ('Eq', 'Ne', 'LtS', 'LtU', 'GtS', 'GtU', 'LeS', 'LeU', 'GeS', 'GeU')
FUN = ('Abs', 'Neg', 'Ceil', 'Floor', 'Trunc', 'Nearest', 'Sqrt')
FBIN = ('Add', 'Sub', 'Mul', 'Div', 'Min', 'Max', 'Copysign')
FREL = ('Eq', 'Ne', 'Lt', 'Gt', 'Le', 'Ge')


def signatures():
    """Instruction name -> (operand types, result types), for instructions typed without context."""
    s = {}
    for t in (I32, I64):
        for o in INT:
            s[t + o] = ([t], [t])
        for o in IBIN:
            s[t + o] = ([t, t], [t])
        s[t + 'Eqz'] = ([t], [I32])
        for o in IREL:
            s[t + o] = ([t, t], [I32])
        s['Const' + t] = ([], [t])
    for t in (F32, F64):
        for o in FUN:
            s[t + o] = ([t], [t])
        for o in FBIN:
            s[t + o] = ([t, t], [t])
        for o in FREL:
            s[t + o] = ([t, t], [I32])
        s['Const' + t] = ([], [t])
    s['I32WrapI64'] = ([I64], [I32])
    for x in 'SU':
        s['I64ExtendI32' + x] = ([I32], [I64])
        for i in (I32, I64):
            for f in (F32, F64):
                s['%sTrunc%s%s' % (i, f, x)] = ([f], [i])
                s['%sConvert%s%s' % (f, i, x)] = ([i], [f])
    s['F32DemoteF64'] = ([F64], [F32])
    s['F64PromoteF32'] = ([F32], [F64])
    for a, b in ((I32, F32), (I64, F64), (F32, I32), (F64, I64)):
        s['%sReinterpret%s' % (a, b)] = ([b], [a])
    s['Nop'] = ([], [])
    return s


def accesses():
    """Memory access -> (type, width in bits, is a store)."""
    a = {}
    for t, w in ((I32, 32), (I64, 64), (F32, 32), (F64, 64)):
        a[t + 'Load'] = (t, w, False)
        a[t + 'Store'] = (t, w, True)
    for t, ws in ((I32, (8, 16)), (I64, (8, 16, 32))):
        for w in ws:
            for x in 'SU':
                a['%sLoad%d%s' % (t, w, x)] = (t, w, False)
            a['%sStore%d' % (t, w)] = (t, w, True)
    return a


SIG = signatures()
MEM = accesses()
PLAIN = set(SIG) | set(MEM) | {'Drop', 'Select', 'LocalGet', 'LocalSet', 'LocalTee', 'GlobalGet', 'GlobalSet', 'MemSize', 'MemGrow'}
CONTROL = {'Unreachable', 'Block', 'Loop', 'If', 'Br', 'BrIf', 'BrTable', 'Return', 'Call', 'CallIndirect', 'Nop'}
MARKERS = {'Else', 'End'}


class Frame(dict):
    """The fields of an open block by role; the types of its label follow from the kind of block where they are not stored."""

    def __init__(self, m, d):
        dict.__init__(self, d)
        self.m = m

    def loops(self):
        M = self.m.M
        if M.loop is None:
            raise Undecided('kind of a block')
        v = self['loop']
        return False if v is None else self.m.c.test(M.is_set(M.loop, v))

    def __missing__(self, n):
        if n != 'label':
            raise Undecided('an open block has no ' + n)
        return VecV(Seq(())) if self.loops() else self['out']


class Mach:
    """The context and stacks the typing rules work on."""

    def __init__(self, c, M, ctx):
        self.c, self.M, self.E = c, M, c.E
        self.load(ctx)

    def load(self, ctx):
        E, M = self.E, self.M
        ctx = E.expand(ctx) if isinstance(ctx, Sym) else ctx
        self.ctx = ctx
        stk = ctx.f[M.cf['stacks']]
        self.stk = E.expand(stk) if isinstance(stk, Sym) else stk
        self.ops = E.as_seq(self.stk.f[M.sf['operands']])
        self.frames = E.as_seq(self.stk.f[M.sf['frames']])

    def value(self):
        M = self.M
        s = list(self.stk.f)
        s[M.sf['operands']], s[M.sf['frames']] = VecV(self.ops), VecV(self.frames)
        f = list(self.ctx.f)
        f[M.cf['stacks']] = Agg(M.stacks, 0, tuple(s))
        return Agg(M.ctx, 0, tuple(f))

    # -- values
    def unknown(self):
        return Agg(self.M.operand, self.M.unknown, ())

    def known(self, t):
        if isinstance(t, str):
            t = Agg(self.M.val, self.M.vals[t], ())
        return Agg(self.M.operand, self.M.known, (t,))

    def is_unknown(self, v):
        if isinstance(v, Agg):
            return v.var == self.M.unknown
        return self.c.test(T('isv', v, self.M.unknown, len(self.E.ty(self.M.operand)['variants'])))

    def type_of(self, v):
        return v.f[0] if isinstance(v, Agg) else self.E.expand(v, self.M.known).f[0]

    def same_type(self, a, b):
        E, w = self.E, self.c.view
        return self.c.test(E.eq_scalar(w, E.discr(w, a, self.M.val), E.discr(w, b, self.M.val)))

    def listed(self, q, limit=12):
        """The elements of a short list."""
        E, out = self.E, []
        n = E.seq_len(self.c.view, q)
        while not self.c.test(E.mk_le(n, len(out))):
            if len(out) >= limit:
                raise Undecided('list of unknown length')
            out.append(E.seq_get(self.c.view, q, len(out)))
        return out

    def types(self, ref):
        """The sequence behind a reference to a list of value types."""
        E, w = self.E, self.c.view
        if isinstance(ref, (Ptr, SRef)) or isinstance(ref, Sym) and E.ty(ref.ty)['k'] == 'ref':
            p = E.deref(w, ref)
            if isinstance(p, SRef):
                return E.seq_slice(w, E.as_seq(E.read(w, p.ptr.cell, p.ptr.path)), p.lo, p.n)
            ref = E.read(w, p.cell, p.path)
        while isinstance(ref, (Sym, Agg)) and not E.p.is_vec(ref.ty) and E.ty(ref.ty)['k'] == 'struct' and len(E.p.field_tys(ref.ty)) == 1:
            ref = (E.expand(ref) if isinstance(ref, Sym) else ref).f[0]
        return E.as_seq(ref)

    def target(self, ref):
        """What a reference points to."""
        E, w = self.E, self.c.view
        if isinstance(ref, Ptr) or isinstance(ref, Sym) and E.ty(ref.ty)['k'] == 'ref':
            p = E.deref(w, ref)
            return E.read(w, p.cell, p.path)
        return ref

    def field(self, v, name):
        E = self.E
        t = E.ty(v.ty)
        i = next((i for i, f in enumerate(t['variants'][0]['fields']) if f[0] == name), None)
        if i is None:
            raise Undecided('no field %s in %s' % (name, t['s']))
        return (E.expand(v) if isinstance(v, Sym) else v).f[i]

    # -- stacks
    def top(self):
        r = self.E.seq_pop(self.c.view, self.frames)
        if r is None:
            raise Reject('no enclosing block')
        return self.frame(r[1])

    def frame(self, f):
        f = self.E.expand(f) if isinstance(f, Sym) else f
        return Frame(self, {n: f.f[i] for n, i in self.M.ff.items()})

    def push(self, *ts):
        for t in ts:
            self.ops = Seq(self.ops.parts + (('e', self.known(t)),))

    def push_op(self, v):
        self.ops = Seq(self.ops.parts + (('e', v),))

    def pop_op(self, want):
        """Pop one operand; want is an operand, the unknown one meaning any type."""
        E, c = self.E, self.c
        f = self.top()
        if c.test(E.mk_le(E.seq_len(c.view, self.ops), f['height'])):
            if c.test(self.M.is_set(self.M.dead, f['unreachable'])):
                return want
            raise Reject('operand missing')
        r = E.seq_pop(c.view, self.ops)
        if r is None:
            raise Reject('operand missing')
        self.ops, v = r
        if self.is_unknown(v):
            return want
        if self.is_unknown(want):
            return v
        if not self.same_type(self.type_of(v), self.type_of(want)):
            raise Reject('operand of another type')
        return v

    def pop(self, *ts):
        for t in reversed(ts):
            self.pop_op(self.known(t))

    def pop_list(self, q):
        """Pop a list of types, last first; follows a summarised loop of the path by induction."""
        E, c = self.E, self.c
        n = E.seq_len(c.view, q)
        if c.norm(n) == 0:
            return
        lp = c.peek_loop(n)
        if lp is None:
            return self.pop_each(q)
        head = c.head_ctx(lp)
        if head is None:
            raise Undecided('loop over operands')
        for cont in lp.conts:
            def step(k, cont=cont):
                m = Mach(k, self.M, c.head_ctx(lp, cont['head']))
                total = E.seq_len(k.view, q)
                if not k.F.assume(E.mk_lt(lp.kappa, total)):
                    return None
                m.pop_op(m.known(E.seq_get(k.view, q, k.norm(sub(sub(total, 1), lp.kappa)))))
                return m.differs(c.head_ctx(lp, cont['state']))
            for d in c.guarded(cont['state'], cont['facts'], step):
                if isinstance(c.norm(n), int):
                    return self.pop_each(q)     # this loop is about something else
                raise Mismatch('one operand after another: ' + d[0], d[1] or lp.site)
        c.skip_loop(lp)
        self.load(head)
        if c.test(E.mk_le(n, lp.kappa)):
            return
        self.pop_op(self.known(E.seq_get(c.view, q, c.norm(sub(sub(n, 1), lp.kappa)))))
        raise Mismatch('stops before all operands were taken', lp.site)

    def pop_each(self, q):
        for t in reversed(self.listed(q)):
            self.pop_op(self.known(t))

    def unreachable(self):
        E, c = self.E, self.c
        r = E.seq_pop(c.view, self.frames)
        if r is None:
            raise Reject('no enclosing block')
        rest, f = r
        f = self.E.expand(f) if isinstance(f, Sym) else f
        h = f.f[self.M.ff['height']]
        self.ops = E.seq_slice(c.view, self.ops, 0, h)
        g = list(f.f)
        g[self.M.ff['unreachable']] = self.M.dead[1]
        self.frames = Seq(rest.parts + (('e', Agg(self.M.frame, 0, tuple(g))),))

    def enter(self, out, loop=False):
        label = VecV(Seq(())) if loop else out
        g = [None] * len(self.M.ff)
        ff = self.M.ff
        if 'label' in ff:
            g[ff['label']] = label
        elif self.M.loop is not None:
            g[ff['loop']] = self.M.loop[1 if loop else 2]
        g[ff['out']] = out
        g[ff['height']] = self.E.seq_len(self.c.view, self.ops)
        g[ff['unreachable']] = self.M.dead[2]
        self.frames = Seq(self.frames.parts + (('e', Agg(self.M.frame, 0, tuple(g))),))

    def leave(self):
        """End of a block: exactly its results are on the stack."""
        E, c = self.E, self.c
        f = self.top()
        self.pop_list(self.types(f['out']))
        if not c.test(E.mk_eq(E.seq_len(c.view, self.ops), f['height'])):
            raise Reject('operands left at the end of a block')
        self.frames = E.seq_pop(c.view, self.frames)[0]
        return f['out']

    # -- context
    def space(self, name):
        if name not in self.M.cf:
            raise Undecided('no %s in the context' % name)
        return self.types(self.ctx.f[self.M.cf[name]])

    def index(self, i):
        """The number in an index value."""
        E = self.E
        for _ in range(3):
            if isinstance(i, SCALAR) and not (isinstance(i, Sym) and E.p.int_info(i.ty) is None):
                return i
            i = (E.expand(i) if isinstance(i, Sym) else i).f[0]
        raise Undecided('index')

    def lookup(self, name, i):
        E, c = self.E, self.c
        q, i = self.space(name), self.index(i)
        if not c.test(E.mk_lt(i, E.seq_len(c.view, q))):
            raise Reject('index out of range of the %s' % name)
        return self.target(E.seq_get(c.view, q, i))

    def label(self, i):
        E, c = self.E, self.c
        i = self.index(i)
        n = E.seq_len(c.view, self.frames)
        if not c.test(E.mk_lt(i, n)):
            raise Reject('label out of range')
        return self.frame(E.seq_get(c.view, self.frames, c.norm(sub(sub(n, 1), i))))

    # -- sub-expressions
    def body(self, expr, what):
        """The path checks this expression now, in this context."""
        c = self.c
        e = c.next('the check of ' + what)
        if e[0] not in ('check', 'invalid'):
            raise Mismatch('%s instead of the check of %s' % (e[0], what), c.last)
        c.last = e[6] if e[0] == 'check' else e[5]
        if self.target(e[2]) is not expr:
            d = c.same(expr, self.target(e[2]))
            if d:
                raise Mismatch('checks another expression than ' + what, c.last)
        d = self.differs(e[4])
        if d:
            raise Mismatch('checks %s with %s' % (what, d), c.last)
        if e[0] == 'invalid':
            raise Failed()
        self.load(e[5])

    def differs(self, act, only=None):
        """Difference between the state of the rules and a context of the program."""
        M, c, E = self.M, self.c, self.E
        act = E.expand(act) if isinstance(act, Sym) else act
        s = act.f[M.cf['stacks']]
        s = E.expand(s) if isinstance(s, Sym) else s
        d = c.same_seq(SeqX([('v', VecV(self.ops))]), s.f[M.sf['operands']])
        if d:
            return 'operand stack: ' + d
        d = self.frames_differ(E.as_seq(s.f[M.sf['frames']]))
        if d:
            return 'control stack: ' + d
        for n in M.spaces:
            i = M.cf[n]
            if (only is None or n in only) and act.f[i] is not self.ctx.f[i]:
                d = c.same(self.ctx.f[i], act.f[i])
                if d:
                    return '%s: %s' % (n, d)
        return None

    def frames_differ(self, act):
        c, E = self.c, self.E
        x, a = self.frames, act
        for _ in range(4):
            if c.same_shape(x, a):
                return None
            p, q = E.seq_pop(c.view, x), E.seq_pop(c.view, a)
            if p is None and q is None:
                return None
            if p is None or q is None:
                return 'number of open blocks'
            x, a = p[0], q[0]
            f, g = self.frame(p[1]), self.frame(q[1])
            for n in ('label', 'out', 'height', 'unreachable', 'loop'):
                if n == 'loop':
                    d = None
                    if self.M.loop is not None and (f[n] is None or g[n] is not f[n]):
                        d = 'kind' if f.loops() != g.loops() else None
                elif n == 'label' and 'label' not in self.M.ff:
                    d = None
                elif n in ('label', 'out'):
                    d = c.same_seq(SeqX([('v', self.types(f[n]))]), self.types(g[n])) if f[n] is not g[n] else None
                else:
                    d = c.same(f[n], g[n])
                if d:
                    return '%s of the block: %s' % (n, d)
        return c.same_seq(SeqX([('v', x)]), a)


def rule(name, M, self_val):
    """The specification of one instruction as a function of a path cursor; self_val is the instruction."""
    def spec(c):
        m = Mach(c, M, c.ctx0)
        f = self_val.f
        if name in SIG:
            a, r = SIG[name]
            m.pop(*a)
            m.push(*r)
        elif name in MEM:
            t, w, store = MEM[name]
            m.lookup('mems', 0)
            if not c.test(c.E.mk_le(f[0], (w // 8).bit_length() - 1)):
                raise Reject('alignment above the natural one')
            if store:
                m.pop(I32, t)
            else:
                m.pop(I32)
                m.push(t)
        elif name == 'MemSize':
            m.lookup('mems', f[0])
            m.push(I32)
        elif name == 'MemGrow':
            m.lookup('mems', f[0])
            m.pop(I32)
            m.push(I32)
        elif name == 'Drop':
            m.pop_op(m.unknown())
        elif name == 'Select':
            m.pop(I32)
            t = m.pop_op(m.unknown())
            m.push_op(m.pop_op(t))
        elif name in ('LocalGet', 'LocalSet', 'LocalTee'):
            t = m.lookup('locals', f[0])
            if name != 'LocalGet':
                m.pop(t)
            if name != 'LocalSet':
                m.push(t)
        elif name in ('GlobalGet', 'GlobalSet'):
            g = m.lookup('globals', f[0])
            if name == 'GlobalSet':
                if not c.is_var(m.field(g, 'mt'), 'Var'):
                    raise Reject('immutable global')
                m.pop(m.field(g, 'val'))
            else:
                m.push(m.field(g, 'val'))
        elif name == 'Unreachable':
            m.unreachable()
        elif name in ('Block', 'Loop'):
            t = m.types(f[0])
            m.enter(VecV(t), name == 'Loop')
            m.body(f[1], 'the body')
            m.leave()
            m.push(*m.listed(t))
        elif name == 'If':
            t = m.types(f[0])
            m.pop(I32)
            m.enter(VecV(t))
            m.body(f[1], 'the then-part')
            m.leave()
            m.enter(VecV(t))
            m.body(f[2], 'the else-part')
            m.leave()
            m.push(*m.listed(t))
        elif name == 'Br':
            l = m.label(f[0])
            m.pop_list(m.types(l['label']))
            m.unreachable()
        elif name == 'BrIf':
            l = m.label(f[0])
            m.pop(I32)
            t = m.types(l['label'])
            m.pop_list(t)
            m.push(*m.listed(t))
        elif name == 'BrTable':
            l = m.label(f[1])
            t = m.types(l['label'])

            def agrees(k, x):
                n = Mach(k, M, m.value())
                u = n.types(n.label(x)['label'])
                if k.same_seq(SeqX([('v', VecV(n.types(n.label(f[1])['label'])))]), u):
                    raise Reject('targets of different types')
            c.forall(c.E.as_seq(f[0]), agrees, t)
            m.pop(I32)
            m.pop_list(t)
            m.unreachable()
        elif name == 'Return':
            m.pop_list(m.types(m.frame(c.E.seq_get(c.view, m.frames, 0))['out']))
            m.unreachable()
        elif name in ('Call', 'CallIndirect'):
            if name == 'Call':
                t = m.lookup('funcs', f[0])
            else:
                tb = m.lookup('tables', f[1])
                t = m.lookup('types', f[0])
                if not c.is_var(m.field(tb, 'elem'), 'FuncRef'):
                    raise Reject('not a table of functions')
                m.pop(I32)
            m.pop_list(m.types(m.field(t, 'params')))
            m.push(*m.listed(m.types(m.field(t, 'results'))))
        else:
            raise Undecided('instruction %s is not in WebAssembly 1.0' % name)
        return m
    return spec
