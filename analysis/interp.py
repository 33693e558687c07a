"""Interprocedural abstract interpreter over MIR.

Every path is followed with abstract values only; undecided conditions partition the trace, loops are
closed either by reaching an already covered state or by generalising what an iteration changes
(induction variables, sequences built element by element, small control states), and calls named as
boundaries by the caller become events.
"""
import json
import os
import time

from dom import *

DEBUG = bool(os.environ.get('VERIF_DEBUG'))
USIZE_MAX = (1 << 64) - 1
LEN_MAX = (1 << 63) - 1


class Unsupported(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.msg = msg


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Beyond(Unsupported):
    """An index past the end of a sequence."""


class Infeasible(Exception):
    pass


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


START = time.time()
TIME = float(os.environ.get('VERIF_TIME', '480'))


def late():
    """Has this run used up its time? What is left is then reported as undecided."""
    return time.time() - START > TIME


class Budget(Exception):
    pass


class Frame:
    __slots__ = ('fid', 'body', 'bb', 'si', 'dest', 'retbb', 'cspan')

    def __init__(self, fid, body, dest, retbb, cspan=None):
        self.fid = fid
        self.body = body
        self.bb = 0
        self.si = -1
        self.dest = dest
        self.retbb = retbb
        self.cspan = cspan

    def copy(self):
        f = Frame.__new__(Frame)
        f.fid, f.body, f.bb, f.si, f.dest, f.retbb, f.cspan = self.fid, self.body, self.bb, self.si, self.dest, self.retbb, self.cspan
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'trace', 'nev', 'nfid', 'done', 'ctx', 'skip', 'numsplit', 'outer')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.trace = ()
        self.nev = 0
        self.nfid = 0
        self.done = None
        self.ctx = ()        # enclosing generalised loops: (loop uid, iteration atom)
        self.skip = None     # loop head that must not be summarised again on entry
        self.numsplit = False
        self.outer = None    # the enclosing loop and its head state while nothing else has happened

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.trace = self.trace
        s.nev = self.nev
        s.nfid = self.nfid
        s.done = self.done
        s.ctx = self.ctx
        s.skip = self.skip
        s.numsplit = self.numsplit
        s.outer = self.outer
        return s

    def emit(self, *e):
        self.trace = (self.trace, e)
        self.nev += 1

    def events(self, since=None):
        out = []
        t = self.trace
        while t and t is not since:
            t, e = t
            out.append(e)
        out.reverse()
        return out

    def where(self):
        return [(f.body.inst, f.bb) for f in self.frames]


class Loop:
    """Summary of a generalised loop."""

    def __init__(self, uid, site, kappa):
        self.uid = uid
        self.site = site
        self.kappa = kappa
        self.kind = 'ind'
        self.conts = []      # continuing iterations: dict(facts, events, emits{slot:[values]}, writes{slot:(idx,value)}, deltas)
        self.seqslots = {}
        self.rate = {}
        self.trans = []
        self.phis = {}
        self.lost = False    # some iterations could not be followed

    def uniform(self, slot):
        """The single element added per iteration, if every iteration adds exactly one, the same term."""
        u = None
        for c in self.conts:
            ps = c['emits'].get(slot, ())
            if len(ps) != 1 or ps[0][0] != 'e' or (u is not None and ps[0][1] is not u):
                return None
            u = ps[0][1]
        return u

    def holds(self, cont, i):
        """What a continuing iteration knows of element i, leaving out the state it started from."""
        memo = self.__dict__.setdefault('about', {})
        if id(cont) not in memo:
            memo[id(cont)] = [(b, v) for b, v in cont['facts'].assumptions() if not any(
                isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] in ('cnt', 'opaque', 'phi') and x.name[1] == self.uid
                for x in all_syms(b))]
        return [(subst(b, {self.kappa: i}), v) for b, v in memo[id(cont)]]

    def per_iteration(self, slot):
        """Number of elements added by every iteration, or None when it varies."""
        if not self.conts:
            return self.rate.get(slot)
        n = set()
        for c in self.conts:
            ps = c['emits'].get(slot, ())
            n.add(len(ps) if all(p[0] == 'e' for p in ps) else None)
        return n.pop() if len(n) == 1 else None


BOOL_OPS = ('le0', 'eq0', 'bs', 'isv', 'not', 'and', 'or', 'xor', 'eqd', 'eqv', 'seqeq', 'pred')


class Engine:
    def __init__(self, prog, natives, hooks=None, unroll_first=False, max_steps=400000, watch=()):
        self.p = prog
        self.natives = natives
        self.hooks = hooks or {}
        self.unroll_first = unroll_first
        self.merge = True     # join paths that reach a loop head in the same state
        self.max_steps = max_steps
        self.steps = 0
        self.usize = prog.ty_named('usize')
        self.u8 = prog.ty_named('u8')
        self.loops = {}
        self.consts = {}
        self.nloop = 0
        self.sites = {}       # panic-capable site -> [times decided safe, times undecided]
        self.fns = set()      # instances entered
        self.unresolved = set()
        self.inits = {}
        self.stats = {'paths': 0, 'loops': 0, 'calls': 0}
        self.fnbounds = 0
        self.watch = watch    # functions whose activations are events and that are not entered again
        self.again = []       # (function, state) where one would be

    # ------------------------------------------------------------ types and symbols
    def ty(self, i):
        return self.p.types[i]

    def sym(self, name, ty):
        return Sym(name, ty, self.ty_range(ty))

    def ty_range(self, ty):
        if ty is None:
            return None
        ii = self.p.int_info(ty)
        if ii:
            b, s = ii
            if self.ty(ty)['k'] == 'char':
                return (0, 0x10FFFF)
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        return None

    def fresh(self, st, tag, ty):
        return self.sym(('new', tag, st.nev, tuple(x for c in st.ctx for x in c)), ty)

    def len_sym(self, s):
        return Sym(('len', s), self.usize, (0, LEN_MAX))

    def elem_ty(self, ty):
        t = self.ty(ty)
        if t['k'] in ('slice', 'array'):
            return t['elem']
        if self.p.is_vec(ty):
            return t['args'][0]
        if t['k'] == 'str' or self.p.is_string(ty):
            return self.u8
        if t['k'] == 'struct' and t['name'].split('::')[-1] in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap'):
            return t['args'][0]
        raise Unsupported('element type of ' + t['s'])

    def expand(self, s, var=0):
        """A symbol as an aggregate of field symbols."""
        tys = self.p.field_tys(s.ty, var)
        return Agg(s.ty, var, tuple(self.sym(('fld', s, var, i), t) for i, t in enumerate(tys)))

    def seq_of_sym(self, s):
        t = self.ty(s.ty)
        if t['k'] == 'array':
            return Seq((('s', s, 0, t['len']),))
        return Seq((('s', s, 0, self.len_sym(s)),))

    def as_seq(self, v):
        """The sequence behind a Vec, String buffer, slice or array value."""
        if isinstance(v, VecV):
            return v.seq
        if isinstance(v, Seq):
            return v
        if isinstance(v, Agg):
            if v.ty is not None and self.ty(v.ty)['k'] == 'array':
                return Seq(tuple(('e', x) for x in v.f))
            if len(v.f) == 1:
                return self.as_seq(v.f[0])
        if isinstance(v, Sym):
            return self.seq_of_sym(v)
        raise Unsupported('not a sequence: %r' % (v,))

    # ------------------------------------------------------------ sequences
    def part_len(self, st, p):
        k = p[0]
        if k == 'e':
            return 1
        if k == 's':
            return st.facts.norm(sub(p[3], p[2]))
        if k == 'c':
            lp = self.loops[p[1]]
            n = st.facts.norm(p[3])
            k = lp.per_iteration(p[2])
            if k is not None:
                return scale(n, k)
            if isinstance(n, int) and n == 0:
                return 0
            return T('complen', p[1], p[2], n, rng=(0, LEN_MAX))
        if k == 'w':
            return self.part_len(st, p[1])
        if k == 'mw':
            return self.part_len(st, p[3])
        if k == 'o':
            if isinstance(p[1], T) and p[1].op in ('sorted', 'reversed', 'permuted'):
                return self.seq_len(st, p[1].args[0])
            return T('len', p[1], rng=(0, LEN_MAX))
        raise Unsupported('part ' + k)

    def seq_len(self, st, q):
        n = 0
        for p in q.parts:
            n = add(n, self.part_len(st, p))
        return st.facts.norm(n)

    def seq_norm(self, st, q):
        """Drop parts known to be empty and join adjacent ranges."""
        out = []
        for p in q.parts:
            if p[0] == 's':
                lo, hi = st.facts.norm(p[2]), st.facts.norm(p[3])
                if lo == hi:
                    continue
                if out and out[-1][0] == 's' and out[-1][1] is p[1] and out[-1][3] == lo:
                    out[-1] = ('s', p[1], out[-1][2], hi)
                    continue
                out.append(('s', p[1], lo, hi))
            elif p[0] == 'c':
                n = st.facts.norm(p[3])
                if n == 0:
                    continue
                lp = self.loops[p[1]]
                u = lp.uniform(p[2])
                if isinstance(u, Sym) and isinstance(u.name, tuple) and u.name[0] == 'elem' and isinstance(u.name[1], Sym):
                    c = sub(u.name[2], lp.kappa)
                    if not mentions(c, {lp.kappa}) and not mentions(u.name[1], {lp.kappa}):
                        out.append(('s', u.name[1], c, add(c, n)))
                        continue
                out.append(('c', p[1], p[2], n))
            else:
                out.append(p)
        return Seq(tuple(out))

    def need(self, st, cond):
        r = st.facts.decide(cond)
        if r is None:
            raise NeedSplit(cond)
        return r

    def part_elem(self, st, p, i):
        k = p[0]
        if k == 'e':
            return p[1]
        if k == 's':
            idx = st.facts.norm(add(p[2], i))
            return self.sym(('elem', p[1], idx), self.elem_ty(p[1].ty))
        if k == 'c':
            lp = self.loops[p[1]]
            u = lp.uniform(p[2])
            if u is not None:
                return subst(u, {lp.kappa: i})
            return self.sym(('elem', T('comp', p[1], p[2]), i), lp.seqslots.get(p[2]))
        if k == 'w':
            if self.need(st, self.mk_eq(p[2], i)):
                return p[3]
            return self.part_elem(st, p[1], i)
        if k == 'mw':
            lp, slot, base, n = self.loops[p[1]], p[2], p[3], p[4]
            w = lp.phis[slot]   # (index offset, value templates with their conditions) filled once known
            if w is None:
                if self.need(st, self.mk_le(n, sub(i, 0))):
                    return self.part_elem(st, base, i)
                raise Unsupported('read of an element rewritten earlier in the loop')
            off, vals = w
            if self.need(st, self.mk_lt(sub(i, off), n)):
                at = {lp.kappa: sub(i, off)}
                for val, conds in vals:
                    if val is vals[-1][0] or all(self.need(st, subst(b, at)) == v for b, v in conds):
                        return subst(val, at)
            return self.part_elem(st, base, i)
        if k == 'o':
            return self.sym(('elem', p[1], i), None)
        raise Unsupported('element of ' + k)

    def seq_find(self, st, q, i):
        """(part index, offset within the part) of element i."""
        off = 0
        i = st.facts.norm(i)
        for n, p in enumerate(q.parts):
            ln = self.part_len(st, p)
            end = add(off, ln)
            if self.need(st, self.mk_lt(i, end)):
                return n, sub(i, off)
            off = end
        raise Beyond('element beyond the end of a sequence')

    def seq_get(self, st, q, i):
        n, o = self.seq_find(st, q, i)
        return self.part_elem(st, q.parts[n], o)

    def seq_set(self, st, q, i, v):
        n, o = self.seq_find(st, q, i)
        p = q.parts[n]
        if p[0] == 'e':
            np = ('e', v)
        else:
            if p[0] == 'w' and p[2] == o:
                p = p[1]
            np = ('w', p, o, v)
        return Seq(q.parts[:n] + (np,) + q.parts[n + 1:])

    def seq_pop(self, st, q):
        """(remaining, last element) or None when empty."""
        q = self.seq_norm(st, q)
        parts = q.parts
        while parts:
            p = parts[-1]
            ln = self.part_len(st, p)
            if self.need(st, self.mk_eq(ln, 0)):
                parts = parts[:-1]
                continue
            i = st.facts.norm(sub(ln, 1))
            e = self.part_elem(st, p, i)
            if p[0] == 'e':
                return Seq(parts[:-1]), e
            if p[0] == 's':
                return Seq(parts[:-1] + (('s', p[1], p[2], st.facts.norm(sub(p[3], 1))),)), e
            if p[0] == 'c' and self.loops[p[1]].uniform(p[2]) is not None:
                return Seq(parts[:-1] + (('c', p[1], p[2], sub(p[3], 1)),)), e
            raise Unsupported('pop from part ' + p[0])
        return None

    def seq_slice(self, st, q, lo, n):
        """Elements lo..lo+n."""
        out = []
        off = 0
        hi = add(lo, n)
        if lo == 0 and st.facts.norm(n) == self.seq_len(st, q):
            return q
        for p in q.parts:
            ln = self.part_len(st, p)
            end = add(off, ln)
            # overlap of [off,end) with [lo,hi)
            if self.need(st, self.mk_le(end, lo)):
                off = end
                continue
            if self.need(st, self.mk_le(hi, off)):
                break
            a = sub(lo, off) if self.need(st, self.mk_lt(off, lo)) else 0
            b = sub(hi, off) if self.need(st, self.mk_lt(hi, end)) else ln
            if a == 0 and b == ln:
                out.append(p)
            elif p[0] == 's':
                out.append(('s', p[1], add(p[2], a), add(p[2], b)))
            elif p[0] == 'e':
                out.append(p)
            else:
                raise Unsupported('range of part ' + p[0])
            off = end
        return Seq(tuple(out))

    # ------------------------------------------------------------ boolean terms
    @staticmethod
    def mk_le(a, b):
        L = sub(a, b)
        return int(L <= 0) if isinstance(L, int) else T('le0', L)

    @staticmethod
    def mk_lt(a, b):
        L = add(sub(a, b), 1)
        return int(L <= 0) if isinstance(L, int) else T('le0', L)

    @staticmethod
    def mk_eq(a, b):
        L = sub(a, b)
        if isinstance(L, int):
            return int(L == 0)
        c, d = lin_parts(L)
        if next(iter(sorted(d.items(), key=lambda x: x[0].uid)))[1] < 0:
            L = scale(L, -1)
        return T('eq0', L)

    # ------------------------------------------------------------ memory
    def load(self, st, cell):
        v = st.mem.get(cell)
        if v is not None:
            return v
        k = cell[0]
        if k == '*':
            s = cell[1]
            to = self.ty(s.ty)['to']
            d = self.sym(('deref', s), to)
            if self.ty(to)['k'] in ('slice', 'str'):
                return self.seq_of_sym(d)
            return d
        if k == 'const':
            return self.consts[cell]
        if k == 'init':
            return self.inits[cell]
        if isinstance(k, int):
            return UNINIT
        raise Unsupported('load of ' + repr(cell))

    def proj(self, st, v, e):
        if e == 'buf':
            return self.as_seq(v)
        k = e[0]
        if k == 'f':
            i = e[1]
            if isinstance(v, Agg):
                return v.f[i]
            if isinstance(v, Sym):
                if isinstance(v.name, tuple) and v.name[0] == 'dc':
                    s, var = v.name[1], v.name[2]
                    return self.expand(s, var).f[i]
                return self.expand(v).f[i]
            if isinstance(v, VecV):
                if i == 1:
                    return self.seq_len(st, v.seq)
                raise Unsupported('raw buffer of a Vec')
            if v is UNINIT:
                return UNINIT
            raise Unsupported('field of %r' % (v,))
        if k == 'v':
            if isinstance(v, Agg):
                if v.var != e[1]:
                    raise Infeasible()
                return v
            if isinstance(v, Sym):
                return Sym(('dc', v, e[1]), v.ty)
            if v is UNINIT:
                return v
            raise Unsupported('downcast of %r' % (v,))
        if k == 'i':
            if isinstance(v, Agg) and self.ty(v.ty)['k'] == 'array':
                i = st.facts.norm(e[1])
                if isinstance(i, int):
                    return v.f[i]
                for n in range(len(v.f)):
                    if self.need(st, self.mk_eq(i, n)):
                        return v.f[n]
                raise Infeasible()
            try:
                return self.seq_get(st, self.as_seq(v), e[1])
            except Beyond:
                raise Infeasible()      # the reference was made to an existing element
        raise Unsupported('projection ' + str(e))

    def read(self, st, cell, path):
        v = self.load(st, cell)
        for n, e in enumerate(path):
            if isinstance(v, Sym) and e != 'buf' and e[0] == 'f' and self.p.is_vec(v.ty):
                v = VecV(self.as_seq(v))
            if isinstance(v, VecV) and e == ('f', 0) and all(x == ('f', 0) for x in path[n:]):
                # the pointer kept in a Vec
                return Ptr(cell, tuple(path[:n]) + (('i', 0),))
            v = self.proj(st, v, e)
        return v

    def set_path(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e == 'buf':
            q = self.set_path(st, self.as_seq(v), path[1:], new)
            if isinstance(v, Agg) and self.ty(v.ty)['k'] != 'array':
                return Agg(v.ty, v.var, (self.set_path(st, v.f[0], path, new),) + v.f[1:])
            return VecV(q)
        k = e[0]
        if k == 'f':
            i = e[1]
            if isinstance(v, Sym):
                if isinstance(v.name, tuple) and v.name[0] == 'dc':
                    v = self.expand(v.name[1], v.name[2])
                else:
                    v = self.expand(v)
            if v is UNINIT:
                v = Agg(None, 0, (UNINIT,) * (i + 1))
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= i:
                    f.append(UNINIT)
                f[i] = self.set_path(st, f[i], path[1:], new)
                return Agg(v.ty, v.var, tuple(f))
            raise Unsupported('field write into %r' % (v,))
        if k == 'v':
            if isinstance(v, Sym):
                v = self.expand(v, e[1])
            if v is UNINIT:
                v = Agg(None, e[1], ())
            if isinstance(v, Agg) and v.var != e[1]:
                raise Infeasible()
            return self.set_path(st, v, path[1:], new)
        if k == 'i':
            if isinstance(v, Agg):
                i = st.facts.norm(e[1])
                if not isinstance(i, int):
                    for n in range(len(v.f)):
                        if self.need(st, self.mk_eq(i, n)):
                            i = n
                            break
                f = list(v.f)
                f[i] = self.set_path(st, f[i], path[1:], new)
                return Agg(v.ty, v.var, tuple(f))
            q = self.as_seq(v)
            if len(path) > 1:
                new = self.set_path(st, self.seq_get(st, q, e[1]), path[1:], new)
            return self.seq_set(st, q, e[1], new)
        raise Unsupported('write through ' + str(e))

    def write(self, st, cell, path, new):
        if cell[0] == 'const':
            raise Unsupported('write to a constant')
        st.mem[cell] = new if not path else self.set_path(st, self.load(st, cell), path, new)

    def deref(self, st, v, ty=None):
        """Place denoted by a pointer value: Ptr, SRef or BPtr."""
        if isinstance(v, (Ptr, SRef, BPtr)):
            return v
        if isinstance(v, Sym):
            t = self.ty(v.ty)
            if t['k'] in ('ref', 'ptr'):
                cell = ('*', v)
                if self.ty(t['to'])['k'] in ('slice', 'str'):
                    return SRef(Ptr(cell), 0, self.seq_len(st, self.load(st, cell)))
                return Ptr(cell)
            if t['k'] == 'struct':
                return self.deref(st, self.expand(v), ty)
        if isinstance(v, Agg):
            # Box / NonNull / Unique wrappers
            for x in v.f:
                if isinstance(x, (Ptr, SRef, BPtr, Agg)) and not (isinstance(x, Agg) and not x.f):
                    return self.deref(st, x, ty)
                if isinstance(x, Sym) and self.ty(x.ty)['k'] in ('ref', 'ptr', 'struct', 'other'):
                    if self.ty(x.ty)['k'] == 'other':
                        cell = ('box', x, ty)
                        if cell not in st.mem and cell not in self.inits:
                            self.inits[cell] = self.sym(('box', x), ty)
                        return Ptr(('init',) + cell) if False else self._boxptr(cell)
                    return self.deref(st, x, ty)
        if isinstance(v, T) and v.op == 'dyn':
            return self.deref(st, v.args[0], ty)
        raise Unsupported('deref of %r' % (v,))

    def _boxptr(self, cell):
        c = ('init', cell)
        if c not in self.inits:
            self.inits[c] = self.inits[cell]
        return Ptr(c)

    def place(self, st, fr, p):
        """Evaluate a MIR place to (Ptr | SRef | BPtr, type)."""
        ty = fr.body.locals[p[0]]
        cell, path = (fr.fid, p[0]), ()
        sl = None
        for e in p[1:]:
            k = e[0]
            if k == '*':
                v = self.read(st, cell, path) if sl is None else None
                pt = self.ty(ty)
                to = pt.get('to')
                if to is None and pt['k'] == 'struct' and pt.get('args'):
                    to = pt['args'][0]
                d = self.deref(st, v, to)
                ty = to
                if isinstance(d, SRef):
                    sl = d
                elif isinstance(d, BPtr):
                    return d, ty
                else:
                    cell, path = d.cell, d.path
                    sl = None
            elif k == '.':
                if self.ty(ty)['k'] != 'union':
                    path = path + (('f', e[1]),)
                ty = e[2]
            elif k == 'v':
                path = path + (('v', e[1]),)
            elif k in ('[]', 'c'):
                if k == '[]':
                    i = self.read(st, (fr.fid, e[1]), ())
                else:
                    i = e[1]
                if sl is not None:
                    if k == 'c' and e[3]:
                        i = sub(sl.n, i)
                    cell, path = sl.ptr.cell, sl.ptr.path + (('i', st.facts.norm(add(sl.lo, i))),)
                    sl = None
                else:
                    if k == 'c' and e[3]:
                        i = sub(self.ty(ty)['len'], i)
                    path = path + (('i', i),)
                ty = self.elem_ty(ty)
            elif k == 's':
                fr_, to_, fe = e[1], e[2], e[3]
                if sl is None:
                    sl = SRef(Ptr(cell, path), 0, self.ty(ty)['len'])
                n = sub(sub(sl.n, to_), fr_) if fe else to_ - fr_
                sl = SRef(sl.ptr, add(sl.lo, fr_), n)
            else:
                pass
        if sl is not None:
            return sl, ty
        return Ptr(cell, path), ty

    def read_place(self, st, fr, p):
        if len(p) == 1:
            v = st.mem.get((fr.fid, p[0]))
            return (UNINIT if v is None else v), fr.body.locals[p[0]]
        pl, ty = self.place(st, fr, p)
        if isinstance(pl, SRef):
            return self.seq_slice(st, self.as_seq(self.read(st, pl.ptr.cell, pl.ptr.path)), pl.lo, pl.n), ty
        if isinstance(pl, BPtr):
            return self.read_bytes(st, pl, ty), ty
        return self.read(st, pl.cell, pl.path), ty

    def write_ptr(self, st, pl, v, ty=None):
        if isinstance(pl, BPtr):
            return self.write_bytes(st, pl, v)
        self.write(st, pl.cell, pl.path, v)

    # bytes inside a scalar
    def read_bytes(self, st, bp, ty):
        v = self.read(st, bp.base.cell, bp.base.path)
        off = st.facts.norm(bp.off)
        if not isinstance(off, int):
            raise Unsupported('byte access at unknown offset')
        n = self.size_of(ty)
        b = self.to_bits(st, v, bp.size * 8)
        if b is None or off + n > bp.size:
            raise Unsupported('byte access')
        return self.from_bits(b[off * 8:(off + n) * 8], False)

    def write_bytes(self, st, bp, v):
        old = self.read(st, bp.base.cell, bp.base.path)
        off = st.facts.norm(bp.off)
        if not isinstance(off, int):
            raise Unsupported('byte access at unknown offset')
        b = self.to_bits(st, old, bp.size * 8)
        nb = self.to_bits(st, v, 8)
        if b is None or nb is None:
            raise Unsupported('byte write')
        if off < 0 or off + 1 > bp.size:
            raise Panic('raw pointer write outside the object')
        b = b[:off * 8] + nb + b[off * 8 + 8:]
        self.write(st, bp.base.cell, bp.base.path, self.from_bits(b, False))

    def size_of(self, ty):
        t = self.ty(ty)
        if 'layout' in t and t['layout']:
            return t['layout']['size']
        ii = self.p.int_info(ty)
        if ii:
            return max(1, ii[0] // 8)
        if t['k'] in ('ref', 'ptr'):
            to = self.ty(t['to'])['k']
            return 16 if to in ('slice', 'str', 'dyn') else 8
        if t['k'] in ('fnptr',):
            return 8
        raise Unsupported('size of ' + t['s'])

    # ------------------------------------------------------------ constants
    def const(self, ty, k):
        t = self.ty(ty)
        if k == 'zst':
            return self.zst(ty)
        if isinstance(k, dict) and 'usize' in k:
            return k['usize']
        if isinstance(k, dict) and 'bytes' in k:
            return self.decode(ty, k, 0)
        if isinstance(k, dict) and 'uneval' in k:
            return T('uneval', k['uneval'])
        raise Unsupported('constant %s of %s' % (k, t['s']))

    def zst(self, ty):
        t = self.ty(ty)
        k = t['k']
        if k == 'fndef':
            f = Fn(('def', t['callee']['inst'], t['callee']['def']))
            f.info = t['callee']
            return f
        if k in ('tuple', 'struct', 'closure', 'array'):
            return Agg(ty, 0, tuple(self.zst(x) for x in self.p.field_tys(ty)))
        if k == 'union':
            return UNINIT
        if k == 'enum':
            return Agg(ty, 0, ())
        return T('zst', ty)

    def decode(self, ty, m, off):
        t = self.ty(ty)
        by = m['bytes']
        k = t['k']
        ii = self.p.int_info(ty)
        if ii or k == 'float':
            n = ii[0] // 8 if ii and ii[0] > 1 else (1 if ii else t['bits'] // 8)
            raw = by[off:off + n]
            if None in raw:
                return UNINIT
            x = int.from_bytes(bytes(raw), 'little')
            return wrap(x, ii[0], True) if ii and ii[1] else x
        if k in ('ref', 'ptr'):
            prov = [g for o, g in m['prov'] if o == off]
            to = self.ty(t['to'])
            if not prov:
                return T('rawaddr', int.from_bytes(bytes(x or 0 for x in by[off:off + 8]), 'little'))
            g = prov[0]
            if 'mem' in g:
                inner = int.from_bytes(bytes(by[off:off + 8]), 'little')
                mem = g['mem']
                if to['k'] == 'str':
                    n = int.from_bytes(bytes(by[off + 8:off + 16]), 'little')
                    cell = ('const', 'str', bytes(mem['bytes'][inner:inner + n]))
                    self.consts[cell] = Seq(tuple(('e', x) for x in mem['bytes'][inner:inner + n]))
                    return SRef(Ptr(cell), 0, n)
                if to['k'] == 'slice':
                    n = int.from_bytes(bytes(by[off + 8:off + 16]), 'little')
                    sz = self.size_of(to['elem'])
                    cell = ('const', 'slice', t['to'], json.dumps(mem), inner)
                    if cell not in self.consts:
                        self.consts[cell] = Seq(tuple(('e', self.decode(to['elem'], mem, inner + i * sz)) for i in range(n)))
                    return SRef(Ptr(cell), 0, n)
                if to['k'] == 'dyn':
                    return T('dynconst', json.dumps(g)[:200])
                cell = ('const', 'mem', t['to'], json.dumps(mem), inner)
                if cell not in self.consts:
                    self.consts[cell] = self.decode(t['to'], mem, inner)
                return Ptr(cell)
            if 'fn' in g:
                return Fn(('inst', g['fn']))
            if 'static' in g:
                return T('static', g['static'])
            return T('prov', json.dumps(g)[:200])
        if k == 'fnptr':
            prov = [g for o, g in m['prov'] if o == off]
            if prov and 'fn' in prov[0]:
                return Fn(('inst', prov[0]['fn']))
            return T('fnptr', off)
        lay = t.get('layout')
        if k in ('struct', 'tuple', 'closure'):
            if k == 'struct' and self.p.is_vec(ty):
                return VecV(Seq(()))
            return Agg(ty, 0, tuple(self.decode(ft, m, off + lay['fields'][i]) for i, ft in enumerate(self.p.field_tys(ty))))
        if k == 'array':
            sz = self.size_of(t['elem'])
            return Agg(ty, 0, tuple(self.decode(t['elem'], m, off + i * sz) for i in range(t['len'])))
        if k == 'union':
            return UNINIT
        if k == 'enum':
            v = lay['variants']
            if v['k'] == 'single':
                var = v['idx']
                offs = lay['fields']
            elif v['k'] == 'multi':
                raw = by[off + v['tag_off']:off + v['tag_off'] + v['tag_size']]
                isptr = any(o == off + v['tag_off'] for o, _ in m['prov'])
                tag = int.from_bytes(bytes(x or 0 for x in raw), 'little')
                if v['enc'] == 'direct':
                    msk = (1 << (8 * v['tag_size'])) - 1
                    var = next((i for i, x in enumerate(t['variants']) if (x['discr'] & msk) == tag), None)
                    if var is None:
                        return UNINIT
                else:
                    en = v['enc']
                    rel = (tag - en['start']) & ((1 << (8 * v['tag_size'])) - 1)
                    if not isptr and rel <= en['hi'] - en['lo']:
                        var = en['lo'] + rel
                    else:
                        var = en['untagged']
                offs = v['vs'][var]
            else:
                return UNINIT
            return Agg(ty, var, tuple(self.decode(ft, m, off + offs[i]) for i, ft in enumerate(self.p.field_tys(ty, var))))
        return T('const', t['s'], json.dumps(m)[:100])

    # ------------------------------------------------------------ integers
    def atom_info(self, a):
        if isinstance(a, Sym) and a.ty is not None:
            ii = self.p.int_info(a.ty)
            if ii:
                return ii
            t = self.ty(a.ty)
            if t['k'] == 'float':
                return (t['bits'], False)
        r = getattr(a, 'rng', None)
        if r and r[0] is not None and r[0] >= 0 and r[1] is not None:
            return (max(1, r[1].bit_length()), False)
        if isinstance(a, T) and a.op in BOOL_OPS:
            return (1, False)
        return None

    def to_bits(self, st, v, bits):
        if isinstance(v, int):
            return tuple((v >> i) & 1 for i in range(bits))
        if isinstance(v, Bits):
            b = v.b
            if len(b) < bits:
                b = b + (0,) * (bits - len(b))
            return b[:bits]
        if isinstance(v, T) and v.op == 'cast' and isinstance(v.args[4], Bits) and v.args[0] == v.args[1] == len(v.args[4].b):
            b = v.args[4].b
            if len(b) < bits:
                b = b + ((b[-1] if v.args[2] else 0),) * (bits - len(b))
            return b[:bits]
        if isinstance(v, Agg) and self.ty(v.ty)['k'] == 'array':
            w = bits // max(1, len(v.f))
            out = ()
            for x in v.f:
                b = self.to_bits(st, x, w)
                if b is None:
                    return None
                out += b
            return out
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.to_bits(st, v.f[0], bits)
        if isinstance(v, (Sym, T)):
            ii = self.atom_info(v)
            if ii is None:
                return None
            w, s = ii
            b = tuple((v, i, 0) for i in range(w))
            if w < bits:
                b = b + (((v, w - 1, 0) if s else 0),) * (bits - w)
            return b[:bits]
        return None

    def from_bits(self, b, signed):
        if all(isinstance(x, int) for x in b):
            return wrap(sum(x << i for i, x in enumerate(b)), len(b), signed)
        x = b[0]
        if not isinstance(x, int) and x[1] == 0 and not x[2]:
            a = x[0]
            ii = self.atom_info(a)
            if ii and ii[0] <= len(b):
                w = ii[0]
                if all(b[i] == (a, i, 0) for i in range(w)) and ((not ii[1] and all(y == 0 for y in b[w:]) and not (signed and w == len(b)))
                                                               or (ii[1] and signed and all(y == (a, w - 1, 0) for y in b[w:]))):
                    return a
        return Bits(tuple(b))

    def num(self, v, info):
        """Numeric view of a bit vector of a signed type."""
        if isinstance(v, Bits):
            n, s = info
            if s and v.b[-1] != 0:
                return T('cast', n, n, True, 0, v, rng=(-(1 << (n - 1)), (1 << (n - 1)) - 1))
            # a plain bit test or zero-extended atom keeps its own form
        return v

    def in_range(self, st, v, info):
        b, s = info
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        l, h = st.facts.bounds(st.facts.norm(v))
        ok1 = l is not None and l >= lo or st.facts.prove_le(sub(lo, v))
        return bool(ok1 and (h is not None and h <= hi or st.facts.prove_le(sub(v, hi))))

    def type_rng(self, info):
        b, s = info
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

    def arith(self, st, op, a, b, info, shinfo=None):
        if isinstance(a, int) and isinstance(b, int):
            return binop(op, info[0], info[1], a, b)
        bits, signed = info
        if bits == 1 and op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.boolop(op, a, b)
        if op in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked', 'Mul', 'MulUnchecked'):
            a, b = self.num(a, info), self.num(b, info)
            if op.startswith('Mul'):
                if isinstance(b, int):
                    r = scale(a, b)
                elif isinstance(a, int):
                    r = scale(b, a)
                else:
                    return T('bin', op, bits, signed, a, b, rng=self.type_rng(info))
            else:
                r = add(a, b) if op.startswith('Add') else sub(a, b)
            if self.in_range(st, r, info):
                return r
            return T('bin', op, bits, signed, a, b, rng=self.type_rng(info))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = self.to_bits(st, a, bits), self.to_bits(st, b, bits)
            if x is not None and y is not None:
                r = []
                for p, q in zip(x, y):
                    z = self.bitop(op, p, q)
                    if z is None:
                        break
                    r.append(z)
                else:
                    return self.from_bits(tuple(r), signed)
            rng = self.type_rng(info)
            if op == 'BitAnd' and isinstance(b, int) and b >= 0:
                rng = (0, b)
            return T('bin', op, bits, signed, a, b, rng=rng)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            n = st.facts.norm(b)
            if isinstance(n, int):
                n &= bits - 1
                x = self.to_bits(st, a, bits)
                if x is not None:
                    if op.startswith('Shl'):
                        r = (0,) * n + x[:bits - n]
                    else:
                        r = x[n:] + ((x[-1] if signed else 0),) * n
                    return self.from_bits(r, signed)
            return T('bin', op, bits, signed, a, b, rng=self.type_rng(info))
        if op in ('Div', 'Rem'):
            rng = self.type_rng(info)
            lo, hi = st.facts.bounds(a)
            if isinstance(b, int) and b > 0 and lo is not None and lo >= 0:
                rng = (lo // b, hi // b) if op == 'Div' else (0, b - 1)
            return T('bin', op, bits, signed, a, b, rng=rng)
        raise Unsupported('operation ' + op)

    @staticmethod
    def bitop(op, p, q):
        if isinstance(p, int) and isinstance(q, int):
            return {'BitAnd': p & q, 'BitOr': p | q, 'BitXor': p ^ q}[op]
        if isinstance(p, int):
            p, q = q, p
        if isinstance(q, int):
            if op == 'BitAnd':
                return p if q else 0
            if op == 'BitOr':
                return 1 if q else p
            return (p[0], p[1], 1 - p[2]) if q else p
        if p == q:
            return 0 if op == 'BitXor' else p
        if p[0] is q[0] and p[1] == q[1]:
            return {'BitAnd': 0, 'BitOr': 1, 'BitXor': 1}[op]
        return None

    @staticmethod
    def boolop(op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                if op == 'BitAnd':
                    return y if x else 0
                if op == 'BitOr':
                    return 1 if x else y
                return Not(y) if x else y
        if a is b:
            return 0 if op == 'BitXor' else a
        return T({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], a, b, rng=(0, 1))

    def truth(self, b):
        return b

    def simplify_cmp(self, st, pred, L):
        """A comparison that depends on one small atom, as a set of its values."""
        at = set()
        base_atoms(L, at)
        if len(at) != 1:
            return None
        a = next(iter(at))
        m = st.facts.get_mask(a)
        if m is None:
            return None
        t, f = st.facts._enum(a, pred, L)
        if not f:
            return 1
        if not t:
            return 0
        return T('bs', a, t)

    def cmp(self, st, op, a, b, info):
        if isinstance(a, int) and isinstance(b, int):
            return int({'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
        if op in ('Eq', 'Ne'):
            r = self.eq_scalar(st, a, b, info)
            return r if op == 'Eq' else Not(r)
        a, b = self.num(a, info), self.num(b, info)
        if op == 'Gt':
            a, b, op = b, a, 'Lt'
        elif op == 'Ge':
            a, b, op = b, a, 'Le'
        L = sub(a, b)
        if op == 'Lt':
            L = add(L, 1)
        L = st.facts.norm(L)
        if isinstance(L, int):
            return int(L <= 0)
        s = self.simplify_cmp(st, lambda v: v <= 0, L)
        if s is not None:
            return s
        # 2^x compared with a constant
        c, d = lin_parts(L)
        if len(d) == 1:
            (x, k), = d.items()
            if isinstance(x, T) and x.op == 'bin' and x.args[0] in ('Shl', 'ShlUnchecked') and x.args[3] == 1:
                sh = x.args[4]
                l, h = st.facts.bounds(sh)
                if l is not None and l >= 0 and h is not None and h < x.args[1] - (1 if x.args[2] else 0):
                    return self.simplify_cmp(st, lambda v: v <= 0, L) or T('le0', L)
        return T('le0', L)

    def eq_scalar(self, st, a, b, info=None):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op == 'discr':
                s = x.args[0]
                nv = len(self.ty(s.ty)['variants'])
                if isinstance(y, int):
                    for k, v in enumerate(self.ty(s.ty)['variants']):
                        if v['discr'] is not None and wrap(v['discr'], 64, True) == wrap(y, 64, True) or v['discr'] == y:
                            return T('isv', s, k, nv)
                    return 0
                if isinstance(y, T) and y.op == 'discr':
                    o = y.args[0]
                    if o is s:
                        return 1
                    p, q = sorted((s, o), key=lambda z: z.uid)
                    return T('eqd', p, q)
        if a is b:
            return 1
        if info is not None and info[0] == 1:
            # booleans
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return a if b else Not(a)
            return T('not', T('xor', a, b))
        if info is not None:
            a, b = self.num(a, info), self.num(b, info)
        if not isinstance(a, SCALAR) or not isinstance(b, SCALAR):
            return T('eqv', *sorted((a, b), key=lambda z: getattr(z, 'uid', -1)))
        if info is None and (isinstance(a, Bits) or isinstance(b, Bits)) is False:
            pass
        L = st.facts.norm(sub(a, b))
        if isinstance(L, int):
            return int(L == 0)
        s = self.simplify_cmp(st, lambda v: v == 0, L)
        if s is not None:
            return s
        if isinstance(a, Bits) or isinstance(b, Bits):
            n = len(a.b) if isinstance(a, Bits) else len(b.b)
            x, y = self.to_bits(st, a, n), self.to_bits(st, b, n)
            if x is not None and y is not None:
                if x == y:
                    return 1
                if any(isinstance(p, int) and isinstance(q, int) and p != q for p, q in zip(x, y)):
                    return 0
        return self.mk_eq(a, b)

    def cast_int(self, st, v, fi, ti):
        if isinstance(v, int):
            return wrap(v, ti[0], ti[1])
        if isinstance(v, T) and v.op == 'discr':
            return v
        if isinstance(v, Bits):
            b = v.b
            if len(b) < fi[0]:
                b = b + (0,) * (fi[0] - len(b))
            if ti[0] <= len(b):
                b = b[:ti[0]]
            else:
                b = b + ((b[-1] if fi[1] else 0),) * (ti[0] - len(b))
            return self.from_bits(b, ti[1])
        if self.in_range(st, v, ti):
            return v
        b = self.to_bits(st, v, fi[0])
        if b is not None and ti[0] <= fi[0]:
            return self.from_bits(b[:ti[0]], ti[1])
        return T('cast', fi[0], ti[0], ti[1], 0, v, rng=self.type_rng(ti))

    # ------------------------------------------------------------ operands and rvalues
    def operand(self, st, fr, o):
        k = o[0]
        if k == 'copy' or k == 'move':
            return self.read_place(st, fr, o[1])[0]
        if k == 'const':
            return self.const(o[1], o[2])
        if k == 'rt':
            return 1 if 'Overflow' in o[1] else 0
        raise Unsupported('operand ' + k)

    def operand_ty(self, st, fr, o):
        if o[0] == 'const':
            return o[1]
        if o[0] == 'rt':
            return self.p.ty_named('bool')
        p = o[1]
        ty = fr.body.locals[p[0]]
        for e in p[1:]:
            k = e[0]
            if k == '*':
                t = self.ty(ty)
                ty = t.get('to') if t.get('to') is not None else t['args'][0]
            elif k == '.':
                ty = e[2]
            elif k in ('[]', 'c'):
                ty = self.elem_ty(ty)
        return ty

    def rvalue(self, st, fr, r, dest_ty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'addr'):
            p = r[2]
            # reborrow of the pointee keeps the pointer value
            pl, ty = self.place(st, fr, p)
            return pl
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[3])
            kk = r[1][0]
            ty = r[2]
            if kk == 'adt':
                if self.ty(ty)['k'] == 'union':
                    return ops[0]
                return Agg(ty, r[1][1], ops)
            if kk == 'rawptr':
                if isinstance(ops[1], Agg):
                    return ops[0]
                p = self.deref(st, ops[0])
                if isinstance(p, Ptr) and p.path and p.path[-1] != 'buf' and p.path[-1][0] == 'i':
                    return SRef(Ptr(p.cell, p.path[:-1]), p.path[-1][1], ops[1])
                if isinstance(p, Ptr) and self.ty(ty).get('to') is not None and self.ty(self.ty(ty)['to'])['k'] == 'slice':
                    # a pointer to the storage of an array, or of nothing at all
                    return SRef(p, 0, ops[1])
                raise Unsupported('raw slice %r' % (p,))
            return Agg(ty, 0, ops)
        if k == 'discr':
            v, ty = self.read_place(st, fr, r[1])
            return self.discr(st, v, ty)
        if k in ('bin', 'cbin'):
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            op = r[1]
            ta = self.operand_ty(st, fr, r[2])
            info = self.p.int_info(ta)
            if info is None:
                return self.nonint_op(st, op, a, b, ta)
            if k == 'cbin' or op.endswith('WithOverflow'):
                return self.checked(st, op.replace('WithOverflow', ''), a, b, info, dest_ty)
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.cmp(st, op, a, b, info)
            if op == 'Cmp':
                return self.three_way(st, a, b, info, dest_ty)
            return self.arith(st, op, a, b, info)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            ta = self.operand_ty(st, fr, r[2])
            if r[1] == 'PtrMetadata':
                if isinstance(a, SRef):
                    return st.facts.norm(a.n)
                if isinstance(a, Sym):
                    d = self.deref(st, a)
                    if isinstance(d, SRef):
                        return d.n
                return Agg(dest_ty, 0, ())
            info = self.p.int_info(ta)
            if r[1] == 'Not':
                if info[0] == 1:
                    return Not(self.truth(a))
                if isinstance(a, int):
                    return wrap(~a, *info)
                b = self.to_bits(st, a, info[0])
                if b is None:
                    return T('un', 'Not', info[0], info[1], a, rng=self.type_rng(info))
                return self.from_bits(tuple(1 - x if isinstance(x, int) else (x[0], x[1], 1 - x[2]) for x in b), info[1])
            if r[1] == 'Neg':
                if info is None:
                    return T('fneg', a)
                if isinstance(a, int):
                    return wrap(-a, *info)
                r_ = scale(a, -1)
                return r_ if self.in_range(st, r_, info) else T('un', 'Neg', info[0], info[1], a, rng=self.type_rng(info))
            raise Unsupported('unary ' + r[1])
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'len':
            v, ty = self.read_place(st, fr, r[1])
            return self.seq_len(st, self.as_seq(v))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if r[2] is None or r[2] > 4096:
                raise Unsupported('large array')
            return Agg(dest_ty, 0, (v,) * r[2])
        if k == 'tls':
            st.emit('tls', r[1])
            return T('tls', r[1])
        raise Unsupported('rvalue ' + k)

    def discr(self, st, v, ty):
        t = self.ty(ty)
        if isinstance(v, Agg):
            if t['k'] != 'enum':
                return 0
            return t['variants'][v.var]['discr'] if v.var is not None else 0
        if isinstance(v, Sym):
            if t['k'] != 'enum':
                return 0
            k = st.facts.variant(v)
            if k is not None:
                return t['variants'][k]['discr']
            if len(t['variants']) == 1:
                return t['variants'][0]['discr']
            if isinstance(v.name, tuple) and v.name[0] == 'elem' and isinstance(v.name[1], Sym):
                k = self.established(st, v, len(t['variants']))
                if k is not None:
                    return t['variants'][k]['discr']
            return T('discr', v)
        if v is UNINIT and t['k'] == 'enum':
            # a value without content: the only variant that can exist
            live = [x for x in t['variants'] if not any(self.empty(f[1]) for f in x['fields'])]
            if len(live) == 1:
                return live[0]['discr']
        raise Unsupported('discriminant of %r' % (v,))

    def established(self, st, v, n):
        """Restrict an element to the variants that earlier, completed loops over the same list let pass."""
        base = v.name[1]
        t = st.trace
        while t:
            t, e = t
            if e[0] != 'loop' or e[1].kind != 'ind' or not e[1].conts:
                continue
            lp = e[1]
            memo = lp.__dict__.setdefault('passed', {})
            if base not in memo:
                at = self.sym(('elem', base, lp.kappa), v.ty)
                seen = set()
                for c in lp.conts:
                    F = c['facts']
                    k = F.variant(at)
                    seen |= {k} if k is not None else set(range(n)) - F.nvar.get(at, frozenset())
                memo[base] = seen if len(seen) < n else None
            if memo[base] is None or st.facts.decide(self.mk_le(self.len_sym(base), lp.kappa)) is not True:
                continue
            for k in range(n):
                if k not in memo[base] and not st.facts.assume(T('isv', v, k, n), False):
                    raise Infeasible()
        return st.facts.variant(v)

    def refuted(self, st):
        """Did an earlier, completed loop over a list stop at every element like those of this path?"""
        t, loops = st.trace, []
        while t:
            t, e = t
            if e[0] == 'loop' and e[1].kind == 'ind' and e[1].conts:
                loops.append(e[1])
        if not loops:
            return False
        syms = set()
        for b, _ in st.facts.assumptions():
            all_syms(b, syms)
        for v in syms:
            if not (isinstance(v, Sym) and isinstance(v.name, tuple) and v.name[0] == 'elem' and isinstance(v.name[1], Sym)):
                continue
            for lp in loops:
                if v.name[2] is lp.kappa or st.facts.decide(self.mk_le(self.len_sym(v.name[1]), lp.kappa)) is not True:
                    continue
                for c in lp.conts:
                    F = st.facts.copy()
                    if all(F.assume(b, x) for b, x in lp.holds(c, v.name[2])):
                        break
                else:
                    return True
        return False

    def empty(self, ty):
        """A type without values."""
        t = self.ty(ty)
        return t['k'] == 'never' or t['s'] == '!' or t['k'] == 'enum' and not t['variants']

    def nonint_op(self, st, op, a, b, ty):
        t = self.ty(ty)
        if op in ('Eq', 'Ne'):
            if a is b:
                r = 0 if t['k'] == 'float' else 1
                if t['k'] == 'float':
                    r = T('feq', a, b)
            elif t['k'] == 'float':
                r = T('feq', a, b)
            else:
                r = T('eqv', *sorted((a, b), key=lambda z: getattr(z, 'uid', -1)))
            return r if op == 'Eq' else Not(r)
        if op == 'Offset':
            return self.ptr_offset(st, a, b)
        return T('op', op, a, b)

    def ptr_offset(self, st, p, n):
        if isinstance(p, BPtr):
            return BPtr(p.base, st.facts.norm(add(p.off, n)), p.size)
        if isinstance(p, Ptr) and p.path and p.path[-1] != 'buf' and p.path[-1][0] == 'i':
            return Ptr(p.cell, p.path[:-1] + (('i', st.facts.norm(add(p.path[-1][1], n))),))
        if isinstance(n, int) and n == 0:
            return p
        raise Unsupported('pointer offset')

    def checked(self, st, op, a, b, info, dest_ty):
        bits, signed = info
        lo, hi = self.type_rng(info)
        if op in ('Shl', 'Shr'):
            raise Unsupported('checked shift')
        if isinstance(a, int) and isinstance(b, int):
            r = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[op]
            return Agg(dest_ty, 0, (wrap(r, bits, signed), int(not lo <= r <= hi)))
        a, b = self.num(a, info), self.num(b, info)
        if op == 'Add':
            r = add(a, b)
        elif op == 'Sub':
            r = sub(a, b)
        elif isinstance(a, int):
            r = scale(b, a)
        elif isinstance(b, int):
            r = scale(a, b)
        else:
            r = T('mul', a, b)
            return Agg(dest_ty, 0, (r, T('ovf', 'Mul', a, b)))
        over = st.facts.decide(self.mk_lt(hi, r))
        under = st.facts.decide(self.mk_lt(r, lo))
        if over is False and under is False:
            return Agg(dest_ty, 0, (st.facts.norm(r), 0))
        if over is False:
            return Agg(dest_ty, 0, (r, self.mk_lt(r, lo)))
        if under is False:
            return Agg(dest_ty, 0, (r, self.mk_lt(hi, r)))
        return Agg(dest_ty, 0, (r, T('or', self.mk_lt(hi, r), self.mk_lt(r, lo))))

    def three_way(self, st, a, b, info, dest_ty):
        if self.need(st, self.cmp(st, 'Lt', a, b, info)):
            return Agg(dest_ty, 0, ())
        if self.need(st, self.cmp(st, 'Eq', a, b, info)):
            return Agg(dest_ty, 1, ())
        return Agg(dest_ty, 2, ())

    def cast(self, st, fr, r):
        kind, ty, reify = r[1], r[3], r[4]
        v = self.operand(st, fr, r[2])
        fty = self.operand_ty(st, fr, r[2])
        if kind == 'IntToInt':
            fi, ti = self.p.int_info(fty), self.p.int_info(ty)
            if fi is None:
                # fieldless enum to integer
                return self.discr(st, v, fty)
            return self.cast_int(st, v, fi, ti)
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                return self.unsize(st, v, fty, ty)
            if reify is not None:
                f = Fn(('def', reify['inst'], reify.get('def')))
                f.info = reify
                return f
            return v
        if kind in ('PtrToPtr',):
            return self.ptr_cast(st, v, fty, ty)
        if kind == 'Transmute':
            return self.transmute(st, v, fty, ty)
        if kind == 'BoxDerefTransmute':
            return self.deref(st, v)
        if kind in ('FnPtrToPtr', 'PointerExposeAddress', 'PointerWithExposedProvenance'):
            return T('addr', v)
        return T('fcast', kind, self.ty(ty)['s'], v)

    def unsize(self, st, v, fty, ty):
        f, t = self.ty(fty), self.ty(ty)
        if 'to' in f and 'to' in t:
            ft, tt = self.ty(f['to']), self.ty(t['to'])
            if ft['k'] == 'array' and tt['k'] == 'slice':
                p = self.deref(st, v)
                return SRef(p, 0, ft['len'])
            return T('dyn', v, f['to'])
        if isinstance(v, Agg) and len(v.f) >= 1:
            # Box<[T; N]> -> Box<[T]> and similar wrappers
            ft = self.p.field_tys(fty)
            tt = self.p.field_tys(ty)
            return Agg(ty, v.var, (self.unsize(st, v.f[0], ft[0], tt[0]),) + v.f[1:])
        if isinstance(v, Ptr):
            return v
        return T('dyn', v, fty)

    def ptr_cast(self, st, v, fty, ty):
        f, t = self.ty(fty), self.ty(ty)
        fk, tk = self.ty(f['to']), self.ty(t['to'])
        if isinstance(v, SRef):
            if tk['k'] in ('slice', 'str'):
                return v
            return Ptr(v.ptr.cell, v.ptr.path + (('i', v.lo),))
        if isinstance(v, Ptr):
            if f['to'] == t['to']:
                return v
            fi = self.p.int_info(f['to']) or (fk['k'] == 'float') or (fk['k'] == 'array' and self.p.int_info(fk['elem']))
            if self.p.int_info(t['to']) == (8, False) and fi:
                return BPtr(v, 0, self.size_of(f['to']))
            if fk['k'] == 'array' and fk['elem'] == t['to']:
                return Ptr(v.cell, v.path + (('i', 0),))
            # the only content of a wrapper, as in a Cell
            if fk['k'] == 'struct' and self.p.field_tys(f['to'], 0) == [t['to']]:
                return Ptr(v.cell, v.path + (('f', 0),))
            return v
        if isinstance(v, BPtr):
            return v
        if isinstance(v, Sym):
            return self.ptr_cast(st, self.deref(st, v), fty, ty)
        return v

    def transmute(self, st, v, fty, ty):
        f, t = self.ty(fty), self.ty(ty)
        if fty == ty:
            return v
        fi, ti = self.p.int_info(fty), self.p.int_info(ty)
        if (ti or t['k'] == 'float') and (fi or f['k'] in ('float', 'array')):
            n = ti[0] if ti else t['bits']
            if isinstance(v, int):
                return wrap(v, n, bool(ti and ti[1]))
            b = self.to_bits(st, v, n)
            if b is not None:
                return self.from_bits(b, bool(ti and ti[1]))
        if t['k'] == 'array' and self.p.int_info(t['elem']) == (8, False) and (fi or f['k'] == 'float'):
            b = self.to_bits(st, v, 8 * t['len'])
            if b is not None:
                return Agg(ty, 0, tuple(self.from_bits(b[i * 8:i * 8 + 8], False) for i in range(t['len'])))
        if ti and f['k'] in ('ptr', 'ref'):
            return T('addr', v, rng=(0, USIZE_MAX))
        if t['k'] in ('ptr', 'ref', 'fnptr', 'other') or f['k'] == 'other':
            x = v
            while isinstance(x, Agg) and x.f:
                x = x.f[0]
            if t['k'] in ('ptr', 'ref', 'fnptr', 'other'):
                return x
            v = x
        if t['k'] in ('struct', 'union') and isinstance(v, (Ptr, SRef, BPtr, Sym, T)):
            if t['k'] == 'union':
                return v
            ft = self.p.field_tys(ty)
            nz = [i for i, x in enumerate(ft) if not (self.ty(x).get('layout') and self.ty(x)['layout']['size'] == 0)]
            if len(nz) == 1:
                return Agg(ty, 0, tuple(self.transmute(st, v, fty, x) if i == nz[0] else self.zst(x) for i, x in enumerate(ft)))
            return v
        if t['k'] in ('struct',) and isinstance(v, Agg) and len(self.p.field_tys(ty)) == len(v.f):
            return Agg(ty, v.var, v.f)
        if isinstance(v, VecV):
            return v
        if isinstance(v, Agg) and len(v.f) == 1 and f['k'] == 'struct':
            return self.transmute(st, v.f[0], self.p.field_tys(fty)[0], ty)
        if fi and t['k'] == 'enum' and t['name'].endswith('::Option') and 'NonZero' in t['s']:
            if self.need(st, self.mk_eq(v, 0)):
                return Agg(ty, 0, ())
            return Agg(ty, 1, (Agg(self.p.field_tys(ty, 1)[0], 0, (v,)),))
        if ti and 'NonZero' in f['s'] and not isinstance(v, Agg):
            return v
        raise Unsupported('transmute %s -> %s' % (f['s'], t['s']))

    # ------------------------------------------------------------ running
    def start(self, inst, args, st=None):
        st = st or State()
        self.push_frame(st, inst, args, None, None)
        return st

    def push_frame(self, st, inst, args, dest, retbb, cspan=None):
        b = self.p.body(inst)
        if b is None:
            raise Unsupported('no body for ' + self.p.insts[inst]['name'])
        if len(st.frames) > 60 or sum(f.body is b for f in st.frames) > 3:
            raise Unsupported('call depth')
        if inst in self.watch:
            if any(f.body is b for f in st.frames):
                self.again.append((inst, st.copy()))
                raise Infeasible()
            st.emit('enter', inst)
        self.fns.add(inst)
        fr = Frame(st.nfid, b, dest, retbb, cspan)
        st.nfid += 1
        if b.spread is not None and len(args) != b.argc:
            args = args[:b.spread - 1] + [Agg(b.locals[b.spread], 0, tuple(args[b.spread - 1:]))]
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        st.frames.append(fr)

    def run(self, st, stop=None):
        """All abstract paths from st up to completion or up to where stop(state) is not None."""
        work = [st]
        out = []
        while work:
            s = work.pop()
            try:
                while True:
                    if s.done is not None:
                        out.append(s)
                        break
                    fr = s.frames[-1]
                    if fr.si == -1:
                        if stop is not None and s.skip is None:
                            tag = stop(s)
                            if tag is not None:
                                s.done = None
                                out.append((tag, s))
                                break
                        if fr.bb in fr.body.loops and s.skip != (fr.fid, fr.bb):
                            if s.outer is not None and stop is not None:
                                again = self.fuse(s)
                                if again is not None:
                                    out.extend(('cont', x) for x in again[0])
                                    work.extend(again[1])
                                    break
                            res = self.loop(s)
                            work.extend(res)
                            break
                        s.skip = None
                    self.steps += 1
                    if self.steps > self.max_steps or not self.steps & 255 and late():
                        raise Budget()
                    nxt = self.block(s)
                    if nxt is not None:
                        work.extend(nxt)
                        break
            except Infeasible:
                continue
        return out

    def split(self, st, cond):
        out = []
        a = st.copy()
        if not self.is_byteish(cond):
            a.numsplit = st.numsplit = True
        if a.facts.assume(cond, True):
            out.append(a)
        if st.facts.assume(cond, False):
            out.append(st)
        return out

    @staticmethod
    def is_byteish(c):
        while isinstance(c, T) and c.op == 'not':
            c = c.args[0]
        return not (isinstance(c, T) and c.op in ('le0', 'eq0', 'or', 'and'))

    def fail(self, st, kind, msg):
        if kind == 'panic' and any('opaque' in repr(c) for c, *_ in st.facts.assumptions()[-2:]):
            # the condition is about a loop-carried value that could not be described
            kind, msg = 'unsup', 'cannot exclude a panic (%s)' % msg
        st.done = (kind, msg, self.site(st))
        return [st]

    def site(self, st):
        """Innermost position inside the analysed workspace, with the function it is in."""
        for fr in reversed(st.frames):
            i = self.p.insts[fr.body.inst]
            if i['crate'] in ('whasm', 'parser') and not i['def'].endswith('WasmBinary::parse'):
                return (i['def'], self.p.loc(self.cur_span(fr)))
        fr = st.frames[-1]
        return (self.p.insts[fr.body.inst]['def'], self.p.loc(self.cur_span(fr)))

    def cur_span(self, fr):
        b = fr.body.blocks[fr.bb]
        if 0 <= fr.si < len(b[0]):
            s = b[0][fr.si]
            return s[3] if s[0] == '=' else b[2]
        return b[2]

    def block(self, st):
        """Execute from the current position; None to continue with the same state, else successors."""
        fr = st.frames[-1]
        stmts, term, span = fr.body.blocks[fr.bb]
        if fr.si < 0:
            fr.si = 0
        try:
            while fr.si < len(stmts):
                self.stmt(st, fr, stmts[fr.si])
                fr.si += 1
            return self.terminator(st, fr, term, span)
        except NeedSplit as e:
            return self.split(st, e.cond)
        except Panic as e:
            if self.refuted(st):
                return []
            return self.fail(st, 'panic', e.msg)
        except Unsupported as e:
            return self.fail(st, 'unsup', e.msg)
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, StopIteration) as e:
            if DEBUG:
                raise
            return self.fail(st, 'unsup', 'internal: %r' % (e,))

    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            p = s[1]
            dty = self.operand_ty(st, fr, ['copy', p])
            v = self.rvalue(st, fr, s[2], dty)
            if len(p) == 1:
                st.mem[(fr.fid, p[0])] = v
            else:
                pl, _ = self.place(st, fr, p)
                self.write_ptr(st, pl, v)
        elif k == 'dead':
            st.mem.pop((fr.fid, s[1]), None)
        elif k == 'setdiscr':
            pl, ty = self.place(st, fr, s[1])
            v = self.read(st, pl.cell, pl.path)
            f = v.f if isinstance(v, Agg) else ()
            self.write_ptr(st, pl, Agg(ty, s[2], f))
        elif k == 'assume':
            c = self.operand(st, fr, s[1])
            if not st.facts.assume(self.truth(c), True):
                raise Infeasible()
        elif k == 'copynon':
            raise Unsupported('raw copy')

    def goto(self, st, bb):
        fr = st.frames[-1]
        fr.bb = bb
        fr.si = -1

    def terminator(self, st, fr, t, span):
        k = t[0]
        if k == 'goto':
            fr.bb, fr.si = t[1], -1
            return None
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'drop':
            fr.bb, fr.si = t[2], -1
            return None
        if k == 'return':
            return self.ret(st, fr)
        if k == 'call':
            return self.call(st, fr, t, span)
        if k == 'assert':
            if t[3] in ('misaligned', 'null'):
                # compiler-inserted checks on raw pointer accesses; raw pointers are confined (see C11)
                fr.bb, fr.si = t[5], -1
                return None
            c = self.truth(self.operand(st, fr, t[1]))
            r = st.facts.decide(c)
            key = (fr.body.inst, fr.bb)
            if r is None:
                return self.split(st, c)
            e = self.sites.setdefault(key, [0, 0])
            if r == t[2]:
                e[0] += 1
                fr.bb, fr.si = t[5], -1
                return None
            e[1] += 1
            return self.fail(st, 'panic', t[3])
        if k == 'unreachable':
            raise Infeasible()
        if k in ('resume', 'abort'):
            raise Infeasible()
        raise Unsupported('terminator ' + k)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        branches, other = t[2], t[3]
        ii = self.p.int_info(t[4]) if t[4] is not None else None
        if isinstance(v, int):
            m = (1 << ii[0]) - 1 if ii and ii[0] > 1 else USIZE_MAX
            for k, b in branches:
                if (k & m) == (v & m):
                    fr.bb, fr.si = b, -1
                    return None
            fr.bb, fr.si = other, -1
            return None
        if isinstance(v, T) and v.op == 'discr':
            s = v.args[0]
            vs = self.ty(s.ty)['variants']
            out = []
            rest = st.copy()
            for k, b in branches:
                var = next((i for i, x in enumerate(vs) if x['discr'] == k or (x['discr'] is not None and ii and (x['discr'] ^ k) & ((1 << ii[0]) - 1) == 0)), None)
                if var is None:
                    continue
                c = T('isv', s, var, len(vs))
                a = st.copy()
                if a.facts.assume(c, True):
                    a.frames[-1].bb, a.frames[-1].si = b, -1
                    out.append(a)
                if not rest.facts.assume(c, False):
                    rest = None
                    break
            if rest is not None:
                rest.frames[-1].bb, rest.frames[-1].si = other, -1
                out.append(rest)
            return out
        if ii and ii[0] == 1:
            c = self.truth(v)
            r = st.facts.decide(c)
            if r is not None:
                b = next((b for k, b in branches if k == int(r)), other)
                fr.bb, fr.si = b, -1
                return None
            return self.split(st, c)
        # integers
        out = []
        rest = st
        for k, b in branches:
            kk = wrap(k, *ii) if ii else k
            c = self.eq_scalar(rest, v, kk, ii)
            if isinstance(c, T) and c.op in ('eq0',):
                pass
            a = rest.copy()
            if a.facts.assume(c, True):
                a.frames[-1].bb, a.frames[-1].si = b, -1
                if not self.is_byteish(c):
                    a.numsplit = True
                out.append(a)
            r2 = rest.copy()
            if not r2.facts.assume(c, False):
                return out
            rest = r2
        rest.frames[-1].bb, rest.frames[-1].si = other, -1
        out.append(rest)
        return out

    def ret(self, st, fr):
        v = st.mem.get((fr.fid, 0), UNINIT)
        if v is UNINIT and self.ty(fr.body.locals[0])['k'] == 'tuple' and not self.ty(fr.body.locals[0])['elems']:
            v = Agg(fr.body.locals[0], 0, ())
        for l in range(len(fr.body.locals)):
            st.mem.pop((fr.fid, l), None)
        st.frames.pop()
        if not st.frames:
            st.done = ('ret', v)
            self.stats['paths'] += 1
            return [st]
        self.finish_call(st, fr.dest, fr.retbb, v)
        return None

    def finish_call(self, st, dest, retbb, v):
        if retbb is None:
            raise Infeasible()
        self.write_ptr(st, dest, v)
        self.goto(st, retbb)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t, span):
        callee = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        if 'ptr' in callee:
            f = self.operand(st, fr, callee['ptr'])
            if not isinstance(f, Fn):
                raise Unsupported('call through an unknown function pointer')
            callee = {'def': '', 'args': [], 'inst': f.inst[1], 'kind': 'item'}
        dest, dty = self.place(st, fr, t[3])
        self.stats['calls'] += 1
        return self.invoke(st, callee, args, dest, dty, t[4])

    def invoke(self, st, callee, args, dest, dty, retbb):
        name = callee['def']
        inst = callee.get('inst')
        I = self.p.insts[inst] if inst is not None else None
        idef = I['def'] if I else name
        for h in self.hooks:
            r = h(self, st, callee, args, dty)
            if r is not None:
                return self.conclude(r, dest, retbb)
        nat = self.natives.get(idef) or self.natives.get(name)
        if nat is None and I and I['intrinsic']:
            nat = self.natives.get('intrinsic:' + I['intrinsic'])
        if nat is None:
            for pre, fn in self.natives.get('prefix', ()):
                if idef.startswith(pre) or name.startswith(pre):
                    nat = fn
                    break
        if nat is not None:
            snap = (dict(st.mem), st.trace, st.nev)
            try:
                r = nat(self, st, callee, args, dty)
            except NeedSplit:
                st.mem, st.trace, st.nev = snap
                raise
            if r is not None:
                if r is NEVER:
                    raise Infeasible()
                if not isinstance(r, list):
                    r = [(st, r)]
                return self.conclude(r, dest, retbb)
        if inst is None:
            raise Unsupported('unresolved call ' + name)
        if I.get('ctor') is not None:
            return self.conclude([(st, Agg(dty, I['ctor'], tuple(args)))], dest, retbb)
        if I['body'] is None:
            raise Unsupported('call to %s' % I['name'])
        # trait calls of closures pass their arguments as a tuple
        if name in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call',
                    'core::ops::FnOnce::call_once', 'core::ops::FnMut::call_mut', 'core::ops::Fn::call'):
            b = self.p.body(inst)
            if b.spread is None and len(args) == 2:
                tup = args[1]
                if isinstance(tup, Sym):
                    tup = self.expand(tup)
                if '{closure' in I['def'] or b.argc != 2:
                    args = [args[0]] + list(tup.f) if '{closure' in I['def'] else list(tup.f)
        self.push_frame(st, inst, args, dest, retbb)
        return None

    def conclude(self, results, dest, retbb):
        out = []
        for s, v in results:
            if s.done is not None:
                out.append(s)
                continue
            try:
                self.finish_call(s, dest, retbb, v)
            except Infeasible:
                continue
            except NeedSplit:
                raise Unsupported('split while storing a result')
            out.append(s)
        return out

    # ------------------------------------------------------------ loops
    def fuse(self, st):
        """A loop entered at the very start of an enclosing loop, as in iterators that skip elements."""
        from loops import fuse
        run, head = st.outer
        st.outer = None
        if st.trace is not head.trace or st.facts.log is not head.facts.log:
            return None
        return fuse(self, st, run, head)

    def loop(self, st):
        """All states after the loop whose head st has just reached."""
        from loops import close_loop
        return close_loop(self, st)


NEVER = object()
