"""Abstract values and the fact base.

Values are hash-consed, so equality is identity:
  int            constants (bool and char included)
  Sym(name, ty)  an unknown value of a type; fields, variants and elements are derived symbols
  Lin            linear integer term over atoms
  Bits           bit vector, least significant bit first; each bit is 0, 1 or (atom, index, negated)
  T(op, args)    any other term
  Agg            struct, tuple, array, closure or enum value
  Ptr / SRef     reference to a place / to a range of a sequence
  VecV / Seq     growable sequence / its contents as a list of parts
Facts is a conjunction of what is known on the current path: variant of a symbol, value sets of
small atoms, intervals, linear inequalities and truth of opaque terms.
"""

_tab = {}
_n = [0]


class V:
    __slots__ = ()

    def __repr__(self):
        return show(self)


def _mk(cls, key):
    k = (cls, key)
    o = _tab.get(k)
    if o is None:
        o = object.__new__(cls)
        _n[0] += 1
        o.uid = _n[0]
        _tab[k] = o
        return o, True
    return o, False


class Sym(V):
    __slots__ = ('uid', 'name', 'ty', 'rng')

    def __new__(cls, name, ty, rng=None):
        o, new = _mk(cls, (name, ty))
        if new:
            o.name = name
            o.ty = ty
            o.rng = rng
        return o


class Lin(V):
    __slots__ = ('uid', 'c', 't')

    def __new__(cls, c, t):
        o, new = _mk(cls, (c, t))
        if new:
            o.c = c
            o.t = t
        return o


class Bits(V):
    __slots__ = ('uid', 'b')

    def __new__(cls, b):
        o, new = _mk(cls, b)
        if new:
            o.b = b
        return o

    @property
    def rng(self):
        return (0, (1 << len(self.b)) - 1)


class T(V):
    __slots__ = ('uid', 'op', 'args', 'rng')

    def __new__(cls, op, *args, rng=None):
        o, new = _mk(cls, (op, args))
        if new:
            o.op = op
            o.args = args
            o.rng = rng
        return o


class Agg(V):
    __slots__ = ('uid', 'ty', 'var', 'f')

    def __new__(cls, ty, var, f):
        o, new = _mk(cls, (ty, var, f))
        if new:
            o.ty = ty
            o.var = var
            o.f = f
        return o


class Ptr(V):
    __slots__ = ('uid', 'cell', 'path')

    def __new__(cls, cell, path=()):
        o, new = _mk(cls, (cell, path))
        if new:
            o.cell = cell
            o.path = path
        return o


class BPtr(V):
    """A raw pointer to bytes inside a scalar or array: base place plus byte offset."""
    __slots__ = ('uid', 'base', 'off', 'size')

    def __new__(cls, base, off, size):
        o, new = _mk(cls, (base, off, size))
        if new:
            o.base = base
            o.off = off
            o.size = size
        return o


class SRef(V):
    """Reference to n elements of the sequence place ptr, starting at lo."""
    __slots__ = ('uid', 'ptr', 'lo', 'n')

    def __new__(cls, ptr, lo, n):
        o, new = _mk(cls, (ptr, lo, n))
        if new:
            o.ptr = ptr
            o.lo = lo
            o.n = n
        return o


class Seq(V):
    __slots__ = ('uid', 'parts')

    def __new__(cls, parts):
        o, new = _mk(cls, parts)
        if new:
            o.parts = parts
        return o


class VecV(V):
    __slots__ = ('uid', 'seq')

    def __new__(cls, seq):
        o, new = _mk(cls, seq)
        if new:
            o.seq = seq
        return o


class Fn(V):
    __slots__ = ('uid', 'inst', 'info')

    def __new__(cls, inst):
        o, new = _mk(cls, inst)
        if new:
            o.inst = inst
        return o


class Uninit(V):
    __slots__ = ('uid',)

    def __new__(cls):
        o, _ = _mk(cls, 0)
        return o


UNINIT = Uninit()
SCALAR = (int, Sym, Lin, Bits, T)


# ---------------------------------------------------------------- printing
def show(v, d=0):
    if isinstance(v, int):
        return str(v)
    if d > 12:
        return '..'
    if isinstance(v, Sym):
        return sname(v.name, d)
    if isinstance(v, Lin):
        s = '+'.join((('%d*' % k) if k != 1 else '') + show(a, d + 1) for a, k in v.t)
        if v.c:
            s += '%+d' % v.c
        return '(%s)' % s.replace('+-', '-')
    if isinstance(v, Bits):
        return 'bits<%s>' % ' '.join(str(x) if isinstance(x, int) else ('!' if x[2] else '') + show(x[0], d + 1) + '.' + str(x[1]) for x in v.b)
    if isinstance(v, T):
        if v.op == 'bs':
            return '%s in %s' % (show(v.args[0], d + 1), mask_str(v.args[1]))
        return '%s(%s)' % (v.op, ', '.join(show(a, d + 1) if isinstance(a, V) else str(a) for a in v.args))
    if isinstance(v, Agg):
        return '{%s%s}' % ('' if v.var in (0, None) else 'v%d ' % v.var, ', '.join(show(x, d + 1) for x in v.f))
    if isinstance(v, Ptr):
        return '&%s%s' % (cname(v.cell, d), pname(v.path, d))
    if isinstance(v, SRef):
        return '&[%s; %s..+%s]' % (show(v.ptr, d + 1), show(v.lo, d + 1), show(v.n, d + 1))
    if isinstance(v, Seq):
        return '[%s]' % ' ++ '.join(part_str(p, d) for p in v.parts)
    if isinstance(v, VecV):
        return 'vec' + show(v.seq, d)
    if isinstance(v, Fn):
        return 'fn#%s' % (v.inst,)
    if isinstance(v, BPtr):
        return 'bytes(%s+%s)' % (show(v.base, d + 1), show(v.off, d + 1))
    if v is UNINIT:
        return '?'
    return repr(v)


def part_str(p, d=0):
    return p[0] + ':' + ','.join(show(x, d + 1) if isinstance(x, V) else str(x) for x in p[1:])


def cname(c, d=0):
    if isinstance(c, tuple):
        return '/'.join(show(x, d + 1) if isinstance(x, V) else str(x) for x in c)
    return str(c)


def pname(p, d=0):
    s = ''
    for e in p:
        if e == 'buf':
            s += ''
        elif e[0] == 'f':
            s += '.%d' % e[1]
        elif e[0] == 'v':
            s += '@%d' % e[1]
        elif e[0] == 'i':
            s += '[%s]' % (show(e[1], d + 1) if isinstance(e[1], V) else e[1])
        else:
            s += str(e)
    return s


def sname(n, d=0):
    if not isinstance(n, tuple):
        return str(n)
    k = n[0]
    if k == 'fld':
        return '%s%s.%s' % (show(n[1], d + 1), '' if n[2] == 0 else '@%d' % n[2], n[3])
    if k == 'deref':
        return '*' + show(n[1], d + 1)
    if k == 'elem':
        return '%s[%s]' % (show(n[1], d + 1), show(n[2], d + 1))
    if k == 'len':
        return '|%s|' % show(n[1], d + 1)
    return '_'.join(show(x, d + 1) if isinstance(x, V) else str(x) for x in n)


def mask_str(m):
    vs = [i for i in range(256) if m >> i & 1]
    if len(vs) > 128:
        return 'not ' + mask_str(~m & ((1 << 256) - 1))
    out = []
    for v in vs:
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return '{%s}' % ','.join('%#x' % a if a == b else '%#x-%#x' % (a, b) for a, b in out)


# ---------------------------------------------------------------- linear terms
def lin_parts(v):
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Lin):
        return v.c, dict(v.t)
    return 0, {v: 1}


def mk_lin(c, d):
    t = [(a, k) for a, k in d.items() if k]
    if not t:
        return c
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    t.sort(key=lambda x: x[0].uid)
    return Lin(c, tuple(t))


def add(a, b, k=1):
    """a + k*b"""
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    c, d = lin_parts(a)
    c2, d2 = lin_parts(b)
    c += k * c2
    for x, y in d2.items():
        d[x] = d.get(x, 0) + k * y
    return mk_lin(c, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: y * k for x, y in d.items()})


# ---------------------------------------------------------------- substitution
def subst(v, m, memo=None):
    """Replace atoms (Sym) by scalar values everywhere, including inside symbol names."""
    if memo is None:
        memo = {}
    if isinstance(v, int) or v is None or isinstance(v, str):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, m, memo) for x in v)
    if not isinstance(v, V):
        return v
    r = m.get(v) if isinstance(v, (Sym, T)) else None
    if r is not None:
        return r
    r = memo.get(v)
    if r is not None:
        return r
    if isinstance(v, Sym):
        n = subst(v.name, m, memo) if isinstance(v.name, tuple) else v.name
        r = v if n == v.name else Sym(n, v.ty, v.rng)
    elif isinstance(v, Lin):
        r = v.c
        for a, k in v.t:
            r = add(r, subst(a, m, memo), k)
    elif isinstance(v, Bits):
        nb = tuple(x if isinstance(x, int) else (subst(x[0], m, memo), x[1], x[2]) for x in v.b)
        r = v if nb == v.b else Bits(tuple((x if isinstance(x, int) or not isinstance(x[0], int) else ((x[0] >> x[1]) & 1) ^ x[2]) for x in nb))
    elif isinstance(v, T):
        a = tuple(subst(x, m, memo) for x in v.args)
        if a == v.args:
            r = v
        elif v.op == 'le0' and isinstance(a[0], int):
            r = int(a[0] <= 0)
        elif v.op == 'eq0' and isinstance(a[0], int):
            r = int(a[0] == 0)
        elif v.op in ('eqd', 'eqv'):
            a = sorted(a, key=lambda z: getattr(z, 'uid', -1))
            r = 1 if a[0] is a[1] else T(v.op, *a)
        elif v.op == 'complen' and a[2] == 0:
            r = 0
        else:
            r = T(v.op, *a, rng=v.rng)
    elif isinstance(v, Agg):
        r = Agg(v.ty, v.var, tuple(subst(x, m, memo) for x in v.f))
    elif isinstance(v, Ptr):
        r = Ptr(subst(v.cell, m, memo), subst(v.path, m, memo))
    elif isinstance(v, SRef):
        r = SRef(subst(v.ptr, m, memo), subst(v.lo, m, memo), subst(v.n, m, memo))
    elif isinstance(v, Seq):
        r = Seq(subst(v.parts, m, memo))
    elif isinstance(v, VecV):
        r = VecV(subst(v.seq, m, memo))
    elif isinstance(v, BPtr):
        r = BPtr(subst(v.base, m, memo), subst(v.off, m, memo), v.size)
    else:
        r = v
    memo[v] = r
    return r


def mentions(v, atoms, memo=None):
    """Does the value mention any of the given atoms (also inside names)?"""
    if memo is None:
        memo = {}
    if isinstance(v, (int, str)) or v is None:
        return False
    if isinstance(v, tuple):
        return any(mentions(x, atoms, memo) for x in v)
    if not isinstance(v, V):
        return False
    if v in atoms:
        return True
    r = memo.get(v)
    if r is not None:
        return r
    memo[v] = False
    if isinstance(v, Sym):
        r = mentions(v.name, atoms, memo)
    elif isinstance(v, Lin):
        r = any(mentions(a, atoms, memo) for a, _ in v.t)
    elif isinstance(v, Bits):
        r = any(not isinstance(x, int) and mentions(x[0], atoms, memo) for x in v.b)
    elif isinstance(v, T):
        r = mentions(v.args, atoms, memo)
    elif isinstance(v, Agg):
        r = mentions(v.f, atoms, memo)
    elif isinstance(v, Ptr):
        r = mentions(v.cell, atoms, memo) or mentions(v.path, atoms, memo)
    elif isinstance(v, SRef):
        r = mentions((v.ptr, v.lo, v.n), atoms, memo)
    elif isinstance(v, Seq):
        r = mentions(v.parts, atoms, memo)
    elif isinstance(v, VecV):
        r = mentions(v.seq, atoms, memo)
    elif isinstance(v, BPtr):
        r = mentions((v.base, v.off), atoms, memo)
    else:
        r = False
    memo[v] = r
    return r


def all_syms(v, out=None, memo=None):
    """Every Sym and T occurring in a value (also inside names)."""
    if out is None:
        out = set()
    if memo is None:
        memo = set()
    if isinstance(v, tuple):
        for x in v:
            all_syms(x, out, memo)
        return out
    if not isinstance(v, V) or v in memo:
        return out
    memo.add(v)
    if isinstance(v, Sym):
        out.add(v)
        all_syms(v.name, out, memo)
    elif isinstance(v, Lin):
        for a, _ in v.t:
            all_syms(a, out, memo)
    elif isinstance(v, Bits):
        for x in v.b:
            if not isinstance(x, int):
                all_syms(x[0], out, memo)
    elif isinstance(v, T):
        out.add(v)
        all_syms(v.args, out, memo)
    elif isinstance(v, Agg):
        all_syms(v.f, out, memo)
    elif isinstance(v, Ptr):
        all_syms(v.cell, out, memo)
        all_syms(v.path, out, memo)
    elif isinstance(v, SRef):
        all_syms((v.ptr, v.lo, v.n), out, memo)
    elif isinstance(v, Seq):
        all_syms(v.parts, out, memo)
    elif isinstance(v, VecV):
        all_syms(v.seq, out, memo)
    elif isinstance(v, BPtr):
        all_syms((v.base, v.off), out, memo)
    return out


# ---------------------------------------------------------------- evaluation over one small atom
def base_atoms(v, out):
    """Atoms a scalar depends on, looking through evaluable operations."""
    if isinstance(v, int):
        return
    if isinstance(v, Sym):
        out.add(v)
    elif isinstance(v, Lin):
        for a, _ in v.t:
            base_atoms(a, out)
    elif isinstance(v, Bits):
        for x in v.b:
            if not isinstance(x, int):
                base_atoms(x[0], out)
    elif isinstance(v, T):
        if v.op in EVALOPS:
            for a in v.args[EVALOPS[v.op]:]:
                base_atoms(a, out)
        elif v.op == 'bs':
            out.add(v.args[0])
        else:
            out.add(v)
    else:
        out.add(v)


# op -> index of the first value argument
EVALOPS = {'bin': 3, 'un': 3, 'cast': 4, 'le0': 0, 'eq0': 0, 'not': 0, 'and': 0, 'or': 0, 'xor': 0, 'ctz': 1, 'clz': 1, 'popc': 1}


def wrap(x, bits, signed):
    x &= (1 << bits) - 1
    if signed and x >> (bits - 1):
        x -= 1 << bits
    return x


def ev(v, env):
    if isinstance(v, int):
        return v
    if isinstance(v, Sym):
        return env[v]
    if isinstance(v, Lin):
        return v.c + sum(k * ev(a, env) for a, k in v.t)
    if isinstance(v, Bits):
        r = 0
        for i, x in enumerate(v.b):
            if isinstance(x, int):
                r |= x << i
            else:
                r |= (((ev(x[0], env) >> x[1]) & 1) ^ x[2]) << i
        return r
    if isinstance(v, T):
        o, a = v.op, v.args
        if o == 'le0':
            return int(ev(a[0], env) <= 0)
        if o == 'eq0':
            return int(ev(a[0], env) == 0)
        if o == 'bs':
            return (a[1] >> env[a[0]]) & 1
        if o == 'not':
            return 1 - ev(a[0], env)
        if o == 'and':
            return ev(a[0], env) & ev(a[1], env)
        if o == 'or':
            return ev(a[0], env) | ev(a[1], env)
        if o == 'xor':
            return ev(a[0], env) ^ ev(a[1], env)
        if o == 'cast':
            fb, tb, ts = a[0], a[1], a[2]
            return wrap(ev(a[4], env), tb, ts)
        if o == 'bin':
            return binop(a[0], a[1], a[2], ev(a[3], env), ev(a[4], env))
        if o == 'un':
            x = ev(a[3], env)
            return wrap(~x if a[0] == 'Not' else -x, a[1], a[2])
        if o == 'ctz':
            x = ev(a[1], env)
            return a[0] if x == 0 else (x & -x).bit_length() - 1
        if o == 'clz':
            return a[0] - (ev(a[1], env) & ((1 << a[0]) - 1)).bit_length()
        if o == 'popc':
            return bin(ev(a[1], env) & ((1 << a[0]) - 1)).count('1')
    raise KeyError(v)


def binop(op, bits, signed, a, b):
    if op in ('Add', 'AddUnchecked'):
        r = a + b
    elif op in ('Sub', 'SubUnchecked'):
        r = a - b
    elif op in ('Mul', 'MulUnchecked'):
        r = a * b
    elif op == 'BitAnd':
        r = a & b
    elif op == 'BitOr':
        r = a | b
    elif op == 'BitXor':
        r = a ^ b
    elif op in ('Shl', 'ShlUnchecked'):
        r = a << (b & (bits - 1))
    elif op in ('Shr', 'ShrUnchecked'):
        r = a >> (b & (bits - 1))
    elif op == 'Div':
        r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else 0
    elif op == 'Rem':
        r = abs(a) % abs(b) * (-1 if a < 0 else 1) if b else 0
    else:
        raise KeyError(op)
    return wrap(r, bits, signed)


FULL = (1 << 256) - 1
BOOLS = ('le0', 'eq0', 'bs', 'isv', 'not', 'and', 'or', 'xor', 'eqd', 'eqv', 'seqeq', 'pred')


def Not(b):
    if isinstance(b, int):
        return 1 - b
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le0':
        return T('le0', sub(1, b.args[0]))
    return T('not', b)


_inside = {}


def inside(v, a):
    """Does the atom occur in the name of a symbol or in a term?"""
    k = (v, a)
    r = _inside.get(k)
    if r is None:
        r = _inside[k] = mentions(v, {a})
    return r


# ---------------------------------------------------------------- facts
class Facts:
    __slots__ = ('var', 'nvar', 'mask', 'rng', 'le', 'ne', 'solved', 'bools', 'log')

    def __init__(self):
        self.var = {}
        self.nvar = {}
        self.mask = {}
        self.rng = {}
        self.le = ()
        self.ne = frozenset()
        self.solved = {}
        self.bools = {}
        self.log = ()

    def copy(self):
        f = Facts.__new__(Facts)
        f.var = dict(self.var)
        f.nvar = dict(self.nvar)
        f.mask = dict(self.mask)
        f.rng = dict(self.rng)
        f.le = self.le
        f.ne = self.ne
        f.solved = dict(self.solved)
        f.bools = dict(self.bools)
        f.log = self.log
        return f

    # -- ranges
    def range(self, a):
        m = self.mask.get(a)
        if m is not None:
            return ((m & -m).bit_length() - 1, m.bit_length() - 1)
        r = self.rng.get(a)
        if r is not None:
            return r
        r = getattr(a, 'rng', None)
        if r is not None:
            return r
        if isinstance(a, T) and a.op in BOOLS:
            return (0, 1)
        return (None, None)

    def get_mask(self, a):
        """Value set of a small atom, or None when its range is not within 0..255."""
        m = self.mask.get(a)
        if m is not None:
            return m
        lo, hi = self.range(a)
        if lo is not None and hi is not None and lo >= 0 and hi <= 255:
            m = ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
            for L in self.ne:
                c, d = lin_parts(L)
                if len(d) == 1:
                    (x, k), = d.items()
                    if x is a and c % k == 0 and 0 <= -c // k <= 255:
                        m &= ~(1 << (-c // k))
            return m
        return None

    def norm(self, L):
        """Apply solved equalities to a scalar."""
        if isinstance(L, int) or not self.solved:
            return L
        for _ in range(8):
            c, d = lin_parts(L)
            hit = [(a, self.solved[a]) for a in d if a in self.solved]
            for a in d:
                if type(a) is T and a.op == 'complen':
                    n = self.norm(a.args[2])
                    if n is not a.args[2] and n != a.args[2]:
                        hit.append((a, T('complen', a.args[0], a.args[1], n, rng=a.rng) if n != 0 else 0))
            if not hit:
                return L
            for a, v in hit:
                L = add(L, sub(v, a), d[a])
            if isinstance(L, int):
                return L
        return L

    def bounds(self, L):
        if isinstance(L, int):
            return L, L
        c, d = lin_parts(L)
        lo = hi = c
        for a, k in d.items():
            l, h = self.range(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def prove_le(self, L, depth=4):
        """Can L <= 0 be derived?"""
        L = self.norm(L)
        return self._prove(L, depth, None)

    def _prove(self, L, depth, used):
        lo, hi = self.bounds(L)
        if hi is not None and hi <= 0:
            return True
        if isinstance(L, int):
            return False
        if depth == 0:
            return False
        c, d = lin_parts(L)
        for F in self.le:
            if used and F in used:
                continue
            fc, fd = lin_parts(F)
            for a, k in fd.items():
                dk = d.get(a)
                if dk and (dk > 0) == (k > 0) and dk % k == 0:
                    m = dk // k
                    if self._prove(add(L, F, -m), depth - 1, (used or frozenset()) | {F}):
                        return True
                    break
        return False

    # -- deciding
    def decide(self, b):
        if isinstance(b, int):
            return bool(b)
        op = b.op if isinstance(b, T) else None
        if op == 'not':
            r = self.decide(b.args[0])
            return None if r is None else not r
        if op == 'le0':
            L = self.norm(b.args[0])
            s = self._single(L)
            if s is not None:
                t, f = self._enum(s, lambda v: v <= 0, L)
                return True if not f else False if not t else None
            if self.prove_le(L):
                return True
            if self.prove_le(sub(1, L)):
                return False
            return None
        if op == 'eq0':
            L = self.norm(b.args[0])
            if isinstance(L, int):
                return L == 0
            s = self._single(L)
            if s is not None:
                t, f = self._enum(s, lambda v: v == 0, L)
                return True if not f else False if not t else None
            if L in self.ne or scale(L, -1) in self.ne:
                return False
            a = self.prove_le(L)
            z = self.prove_le(scale(L, -1))
            if a and z:
                return True
            if self.prove_le(add(L, 1)) or self.prove_le(sub(1, L)):
                return False
            return None
        if op == 'bs':
            m = self.get_mask(b.args[0])
            if m is None:
                return self.bools.get(b)
            if not m & ~b.args[1]:
                return True
            if not m & b.args[1]:
                return False
            return None
        if op == 'isv':
            s, k = b.args[0], b.args[1]
            v = self.variant(s)
            if v is not None:
                return v == k
            if k in self.nvar.get(s, ()):
                return False
            return None
        if op == 'and':
            x, y = self.decide(b.args[0]), self.decide(b.args[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return self.bools.get(b)
        if op == 'or':
            x, y = self.decide(b.args[0]), self.decide(b.args[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
            return self.bools.get(b)
        if op == 'xor':
            x, y = self.decide(b.args[0]), self.decide(b.args[1])
            if x is None or y is None:
                return self.bools.get(b)
            return x != y
        if op == 'eqd':
            x, y = b.args
            vx, vy = self.variant(x), self.variant(y)
            if vx is not None and vy is not None:
                return vx == vy
            if vx is not None and vx in self.nvar.get(y, ()):
                return False
            if vy is not None and vy in self.nvar.get(x, ()):
                return False
            return self.bools.get(b)
        r = self.bools.get(b)
        if r is not None:
            return r
        if isinstance(b, (Sym, Lin, Bits)):
            # boolean-typed scalar
            m = self.get_mask(b)
            if m == 1:
                return False
            if m == 2:
                return True
            nb = self.norm(b)
            if isinstance(nb, int):
                return bool(nb)
        return None

    def variant(self, s):
        if isinstance(s, Agg):
            return s.var
        v = self.var.get(s)
        if v is None and self.bools:
            for t, val in self.bools.items():
                if val and isinstance(t, T) and t.op == 'eqd':
                    if t.args[0] is s and t.args[1] in self.var:
                        return self.var[t.args[1]]
                    if t.args[1] is s and t.args[0] in self.var:
                        return self.var[t.args[0]]
        return v

    def _single(self, L):
        if isinstance(L, int):
            return None
        at = set()
        base_atoms(L, at)
        if len(at) == 1:
            a = next(iter(at))
            if self.get_mask(a) is not None:
                return a
        return None

    def _enum(self, a, pred, L):
        m = self.get_mask(a)
        t = f = 0
        x = m
        while x:
            low = x & -x
            v = low.bit_length() - 1
            x ^= low
            if pred(ev(L, {a: v}) if isinstance(a, Sym) else ev_t(L, a, v)):
                t |= low
            else:
                f |= low
        return t, f

    # -- assuming
    def assume(self, b, val=True):
        """Add b == val. Returns False when that contradicts what is known."""
        d = self.decide(b)
        if d is not None:
            return d == val
        op = b.op if isinstance(b, T) else None
        if op == 'not':
            return self.assume(b.args[0], not val)
        self.log = (self.log, (b, val))
        if op == 'le0':
            L = self.norm(b.args[0])
            if not val:
                L = sub(1, L)
            return self._add_le(L)
        if op == 'eq0':
            L = self.norm(b.args[0])
            return self._add_eq(L) if val else self._add_ne(L)
        if op == 'bs':
            m = self.get_mask(b.args[0])
            if m is None:
                self.bools[b] = val
                return True
            m &= b.args[1] if val else ~b.args[1]
            self.mask[b.args[0]] = m
            a = b.args[0]
            if m & (m - 1) == 0 and isinstance(a, Sym) and isinstance(a.name, tuple) and a.name[0] == 'len':
                return self._solve(a, m.bit_length() - 1)
            return True
        if op == 'isv':
            s, k, n = b.args
            if val:
                self.var[s] = k
            else:
                ex = self.nvar.get(s, frozenset()) | {k}
                self.nvar[s] = ex
                if n is not None and len(ex) == n - 1:
                    self.var[s] = next(i for i in range(n) if i not in ex)
            return True
        if op == 'and':
            if val:
                return self.assume(b.args[0]) and self.assume(b.args[1])
            if self.decide(b.args[0]):
                return self.assume(b.args[1], False)
            if self.decide(b.args[1]):
                return self.assume(b.args[0], False)
            self.bools[b] = val
            return True
        if op == 'or':
            if not val:
                return self.assume(b.args[0], False) and self.assume(b.args[1], False)
            if self.decide(b.args[0]) is False:
                return self.assume(b.args[1])
            if self.decide(b.args[1]) is False:
                return self.assume(b.args[0])
            self.bools[b] = val
            return True
        if op == 'eqd':
            self.bools[b] = val
            x, y = b.args
            for p, q in ((x, y), (y, x)):
                v = self.variant(p)
                if v is not None and not isinstance(q, Agg):
                    if val:
                        self.var[q] = v
                    else:
                        self.nvar[q] = self.nvar.get(q, frozenset()) | {v}
            return True
        if isinstance(b, Sym) and self.get_mask(b) is not None:
            self.mask[b] = 2 if val else 1
            return True
        self.bools[b] = val
        return True

    def _add_le(self, L):
        if isinstance(L, int):
            return L <= 0
        s = self._single(L)
        if s is not None:
            t, _ = self._enum(s, lambda v: v <= 0, L)
            self.mask[s] = t
            if t and t & (t - 1) == 0:
                return self._solve(s, t.bit_length() - 1)
            return t != 0
        c, d = lin_parts(L)
        if len(d) == 1:
            (a, k), = d.items()
            lo, hi = self.range(a)
            if k > 0:
                nh = (-c) // k
                hi = nh if hi is None else min(hi, nh)
            else:
                # k<0: c + k a <= 0  =>  a >= c/(-k)
                nl = -((-c) // (-k))
                lo = nl if lo is None else max(lo, nl)
            if lo is not None and hi is not None:
                if lo > hi:
                    return False
                if lo == hi:
                    return self._solve(a, lo)
                if lo >= 0 and hi <= 255:
                    self.rng[a] = (lo, hi)
                    m = self.get_mask(a)
                    if not m:
                        return False
                    self.mask[a] = m
                    return True
            self.rng[a] = (lo, hi)
            return self._trim(a)
        if self.prove_le(scale(L, -1)):
            return self._add_eq(L)
        if L in self.ne or scale(L, -1) in self.ne:
            L = add(L, 1)
        self.le = self.le + (L,)
        return True

    def _trim(self, a):
        """Tighten an interval whose end points are excluded."""
        lo, hi = self.rng.get(a, (None, None))
        ex = set()
        for L in self.ne:
            c, d = lin_parts(L)
            if len(d) == 1 and a in d and c % d[a] == 0:
                ex.add(-c // d[a])
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        if lo is not None and hi is not None:
            if lo > hi:
                return False
            if lo == hi:
                return self._solve(a, lo)
        self.rng[a] = (lo, hi)
        return True

    def _solve(self, a, val):
        if isinstance(val, int):
            m = self.get_mask(a)
            if m is not None:
                if not (0 <= val <= 255 and m >> val & 1):
                    return False
                self.mask[a] = 1 << val
            lo, hi = self.range(a)
            if (lo is not None and val < lo) or (hi is not None and val > hi):
                return False
            self.rng[a] = (val, val)
        self.solved[a] = val
        # re-normalise stored inequalities
        old = self.le
        self.le = ()
        for L in old:
            L = self.norm(L)
            if isinstance(L, int):
                if L > 0:
                    return False
                continue
            if not self._add_le(L):
                return False
        for L in self.ne:
            if self.norm(L) == 0:
                return False
        self.ne = frozenset(self.norm(L) for L in self.ne)
        return self._congruence(a, val)

    def _congruence(self, a, val):
        """What is known of x[a] also holds for x[val]."""
        m = {a: val}
        for d in (self.var, self.nvar, self.mask, self.bools):
            for k in [k for k in d if k is not a and inside(k, a)]:
                n = subst(k, m)
                if n is k:
                    continue
                if d is self.bools:
                    if not self.assume(n, d[k]):
                        return False
                elif isinstance(n, Sym):
                    v = d[k]
                    if d is self.var:
                        if d.get(n, v) != v or v in self.nvar.get(n, ()):
                            return False
                    elif d is self.nvar:
                        v = v | d.get(n, frozenset())
                        if self.var.get(n) in v:
                            return False
                    else:
                        o = self.get_mask(n)
                        v = v & o if o is not None else v
                        if not v:
                            return False
                    d[n] = v
        return True

    def name(self, v):
        """The same value with solved equalities applied inside symbol names."""
        for _ in range(4):
            n = subst(v, self.solved) if self.solved else v
            if n is v:
                break
            v = n
        return v

    def _add_eq(self, L):
        if isinstance(L, int):
            return L == 0
        s = self._single(L)
        if s is not None:
            t, _ = self._enum(s, lambda v: v == 0, L)
            if not t:
                return False
            self.mask[s] = t
            if t & (t - 1) == 0:
                return self._solve(s, t.bit_length() - 1)
            return True
        c, d = lin_parts(L)
        # prefer the newest unit-coefficient atom
        for a, k in sorted(d.items(), key=lambda x: -x[0].uid):
            if abs(k) == 1:
                rest = mk_lin(c, {x: y for x, y in d.items() if x is not a})
                val = scale(rest, -1) if k == 1 else rest
                lo, hi = self.range(a)
                if not isinstance(val, int):
                    # keep the range of the eliminated atom as facts about its value
                    self.solved[a] = val
                    if lo is not None and not self.prove_le(sub(lo, val)) and not self._add_le(sub(lo, val)):
                        return False
                    if hi is not None and not self.prove_le(sub(val, hi)) and not self._add_le(sub(val, hi)):
                        return False
                return self._solve(a, val)
        self.le = self.le + (L, scale(L, -1))
        return True

    def _add_ne(self, L):
        s = self._single(L)
        if s is not None:
            _, f = self._enum(s, lambda v: v == 0, L)
            self.mask[s] = f
            if f and f & (f - 1) == 0:
                return self._solve(s, f.bit_length() - 1)
            return f != 0
        self.ne = self.ne | {L}
        c, d = lin_parts(L)
        if len(d) == 1:
            a = next(iter(d))
            lo, hi = self.range(a)
            if lo is not None or hi is not None:
                self.rng[a] = (lo, hi)
                return self._trim(a)
            return True
        # strengthen a matching non-strict inequality
        if self.prove_le(L):
            return self._add_le(add(L, 1))
        if self.prove_le(scale(L, -1)):
            return self._add_le(sub(1, L))
        return True

    def assumptions(self):
        out = []
        l = self.log
        while l:
            l, x = l
            out.append(x)
        out.reverse()
        return out


def ev_t(L, a, v):
    """Evaluate a scalar whose only atom is the opaque term a."""
    if L is a:
        return v
    if isinstance(L, int):
        return L
    if isinstance(L, Lin):
        return L.c + sum(k * ev_t(x, a, v) for x, k in L.t)
    if isinstance(L, T):
        args = tuple(x if not isinstance(x, V) else ev_t(x, a, v) for x in L.args)
        return ev(T(L.op, *args), {})
    if isinstance(L, Bits):
        r = 0
        for i, x in enumerate(L.b):
            r |= (x if isinstance(x, int) else ((ev_t(x[0], a, v) >> x[1]) & 1) ^ x[2]) << i
        return r
    raise KeyError(L)
