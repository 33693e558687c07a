"""Comparison of abstract paths with a specification.

A specification is a Python function that walks the events of one path (bytes read, constituents
decoded, loops) the way the WebAssembly binary format prescribes and returns the expected value.
It is evaluated over the abstract values of the path; where the path leaves something open that the
specification depends on, both cases are looked at (the path is partitioned further).
"""
from dom import *
from interp import late, Unsupported, NeedSplit, DEBUG, LEN_MAX
import loops

NOISE = ('push', 'alloc', 'box', 'intoiter', 'phase', 'utf8', 'tls', 'shape')


class Reject(Exception):
    """The specification rejects the input at this point."""


class Failed(Exception):
    """A constituent could not be decoded, or the input ended."""


class Mismatch(Exception):
    def __init__(self, msg, site=None):
        self.msg = msg
        self.site = site


BUGS = () if DEBUG else (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, RecursionError)


def why(e):
    return getattr(e, 'msg', None) or 'internal: %r' % (e,)


class Undecided(Exception):
    def __init__(self, msg):
        self.msg = msg


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Adt:
    """Expected struct or enum value."""

    def __init__(self, var, fields):
        self.var = var
        self.fields = fields

    def __repr__(self):
        return '%s%r' % (self.var or '', self.fields)


class SeqX:
    """Expected sequence: ('e', x) one element; ('c', lp, [x per iteration kind]) one per iteration;
    ('r', n, x) n copies of x; ('v', value) all elements of an abstract sequence value;
    ('cs', lp, [SeqX per iteration kind]) a subsequence per iteration."""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'Seq%r' % (self.parts,)


class Any:
    def __repr__(self):
        return '_'


ANY = Any()


def vague(events, seen=None):
    """Does a path pass a loop of which some iterations could not be followed?"""
    seen = set() if seen is None else seen
    for e in events:
        if e[0] == 'loop' and e[1] not in seen:
            seen.add(e[1])
            if e[1].lost or any(vague(c['events'], seen) for c in e[1].conts):
                return True
    return False


def sure(events, out):
    """Verdicts of a path; an alarm needs a path that is followed completely."""
    if any(v[-3] == 'bad' for v in out) and vague(events):
        return [v if v[-3] != 'bad' else v[:-3] + ('und', 'depends on a loop that could not be followed: %s' % v[-2], v[-1]) for v in out]
    return out


class Cur:
    """Position in the event list of a path under its facts."""

    def __init__(self, E, st, facts, events):
        self.E, self.st, self.F = E, st, facts
        self.ev = [e for e in events if e[0] not in NOISE or e[0] == 'utf8']
        self.pos = 0
        self.view = st.copy()
        self.view.facts = facts
        self.last = None

    # -- events
    def peek(self):
        while self.pos < len(self.ev):
            e = self.ev[self.pos]
            if e[0] == 'loop' and quiet(e[1]):
                self.pos += 1
                continue
            if e[0] == 'utf8':
                return e
            return e
        return None

    def next(self, want):
        e = self.peek()
        if e is None:
            raise Mismatch('stops where %s is expected' % want, self.last)
        self.pos += 1
        if e[0] in ('parse', 'fail'):
            self.last = e[4] if e[0] == 'parse' else e[3]
            if e[0] == 'parse' and len(e) > 5 and e[5]:
                raise Undecided('%s is decoded from %s' % (short(e[1]), e[5]))
        return e

    def finish(self):
        e = self.peek()
        while e is not None and e[0] == 'utf8':
            self.pos += 1
            e = self.peek()
        if e is not None:
            raise Mismatch('reads %s beyond the end of the construct' % ev_str(e), e[4] if e[0] == 'parse' else None)

    # -- conditions
    def test(self, c):
        r = self.F.decide(c)
        if r is None:
            raise Fork(c)
        return r

    def norm(self, x):
        return self.F.norm(x)

    # -- matching of values
    def same(self, exp, act):
        """None when act is what exp describes, else a description of the difference."""
        E = self.E
        if exp is ANY or exp is act:
            return None
        if isinstance(exp, Adt):
            return self.same_adt(exp, act)
        if isinstance(exp, SeqX):
            return self.same_seq(exp, act)
        if isinstance(exp, SCALAR) and isinstance(act, SCALAR):
            return self.same_scalar(exp, act)
        if isinstance(exp, Sym) and isinstance(act, Agg) and act.ty is not None and E.p.is_string(act.ty):
            return self.same_seq(SeqX([('v', exp)]), act)
        if isinstance(exp, Sym) and isinstance(act, Agg):
            k = self.variant(exp)
            if k is None and E.ty(exp.ty)['k'] == 'enum':
                raise Fork(T('isv', exp, act.var, len(E.ty(exp.ty)['variants'])))
            exp = E.expand(exp, k or 0)
        if isinstance(act, Sym) and isinstance(exp, Agg):
            return self.same(act, exp)
        if isinstance(exp, Agg) and isinstance(act, Agg):
            if exp.var != act.var or len(exp.f) != len(act.f):
                return '%s instead of %s' % (self.vname(act), self.vname(exp))
            for i, (x, y) in enumerate(zip(exp.f, act.f)):
                d = self.same(x, y)
                if d:
                    return 'field %d: %s' % (i, d)
            return None
        if isinstance(exp, (VecV, Seq)) or isinstance(act, (VecV, Seq)):
            return self.same_seq(SeqX([('v', exp)]), act)
        if exp == act:
            return None
        return '%s instead of %s' % (brief(act), brief(exp))

    def same_scalar(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a is b or a == b:
            return None
        E = self.E
        ta = getattr(a, 'ty', None)
        if isinstance(a, Sym) and isinstance(b, Sym):
            a, b = self.F.name(a), self.F.name(b)
            if a is b:
                return None
            if ta is not None and E.p.int_info(ta) is None:
                if E.ty(ta)['k'] == 'enum' and a.ty == b.ty:
                    va, vb = self.variant(a), self.variant(b)
                    if va is not None and va == vb and not E.p.field_tys(ta, va):
                        return None
                    if not any(v['fields'] for v in E.ty(ta)['variants']):
                        if not self.test(E.eq_scalar(self.view, E.discr(self.view, a, ta), E.discr(self.view, b, ta))):
                            return '%s instead of %s' % (brief(b), brief(a))
                        return None
                return '%s instead of %s' % (brief(b), brief(a))
        n = max([len(x.b) for x in (a, b) if isinstance(x, Bits)] or [0])
        if n:
            x, y = E.to_bits(self.view, a, n), E.to_bits(self.view, b, n)
            if x is not None and y is not None:
                if x == y:
                    return None
                return self.same_bits(x, y)
        r = self.F.decide(E.mk_eq(a, b))
        if r:
            return None
        return '%s instead of %s' % (brief(b), brief(a))

    def same_bits(self, x, y):
        for i, (p, q) in enumerate(zip(x, y)):
            if p == q:
                continue
            p, q = self.bit(p), self.bit(q)
            if p == q:
                continue
            # a condition on one byte decides the bit
            for z in (p, q):
                if not isinstance(z, int):
                    m = 0
                    for v in range(256):
                        if v >> z[1] & 1:
                            m |= 1 << v
                    if self.F.get_mask(z[0]) is not None:
                        raise Fork(T('bs', z[0], m))
            return 'bit %d is %s instead of %s' % (i, bit_str(q), bit_str(p))
        return None

    def bit(self, x):
        if isinstance(x, int):
            return x
        m = self.F.get_mask(x[0])
        if m is None:
            return x
        vals = set(((v >> x[1]) & 1) ^ x[2] for v in range(256) if m >> v & 1)
        return vals.pop() if len(vals) == 1 else x

    def canon(self, v):
        return loops.canon(self.E, self.view, v)

    def variant(self, v):
        if isinstance(v, Agg):
            return v.var
        return self.F.variant(v)

    def vname(self, v):
        t = self.E.ty(v.ty) if getattr(v, 'ty', None) is not None else None
        if t and t['k'] == 'enum' and isinstance(v, Agg):
            return t['variants'][v.var]['name']
        return brief(v)

    def is_var(self, v, name):
        """Is the enum value of this variant? (may partition)"""
        t = self.E.ty(v.ty)
        k = next((i for i, x in enumerate(t['variants']) if x['name'] == name), None)
        if k is None:
            raise Undecided('no variant %s in %s' % (name, t['s']))
        if isinstance(v, Agg):
            return v.var == k
        return len(t['variants']) == 1 or self.test(T('isv', v, k, len(t['variants'])))

    def same_adt(self, exp, act):
        E = self.E
        if not isinstance(act, (Agg, Sym)) or act.ty is None:
            return '%s instead of %r' % (brief(act), exp)
        t = E.ty(act.ty)
        k = 0
        if t['k'] == 'enum' and exp.var is not None:
            if not self.is_var(act, exp.var):
                return '%s instead of %s' % (self.vname(act), exp.var)
            k = next(i for i, x in enumerate(t['variants']) if x['name'] == exp.var)
        a = E.expand(act, k) if isinstance(act, Sym) else act
        if t['k'] in ('struct', 'enum', 'union'):
            names = [f[0] for f in t['variants'][k]['fields']]
        else:
            names = [str(i) for i in range(len(a.f))]
        if isinstance(exp.fields, dict):
            for n, x in exp.fields.items():
                if n not in names:
                    raise Undecided('no field %s in %s' % (n, t['s']))
                d = self.same(x, a.f[names.index(n)])
                if d:
                    return 'field %s: %s' % (n, d)
            return None
        if len(exp.fields) != len(a.f):
            raise Undecided('%s has %d fields, %d expected' % (t['s'], len(a.f), len(exp.fields)))
        for n, x, y in zip(names, exp.fields, a.f):
            d = self.same(x, y)
            if d:
                return 'operand %s of %s: %s' % (n, exp.var or t['s'].split('::')[-1], d)
        return None

    def same_seq(self, exp, act):
        E = self.E
        try:
            if isinstance(act, Agg) and E.p.is_string(act.ty):
                act = act.f[0]
            q = E.seq_norm(self.view, E.as_seq(act))
            parts = []
            for p in exp.parts:
                if p[0] == 'v':
                    v = p[1]
                    if isinstance(v, Agg) and v.ty is not None and E.p.is_string(v.ty):
                        v = v.f[0]
                    parts += [('q', x) for x in E.seq_norm(self.view, E.as_seq(v)).parts]
                elif p[0] in ('c', 'cs') and self.F.norm(p[1].kappa) == 0:
                    continue
                elif p[0] == 'r' and self.F.norm(p[1]) == 0:
                    continue
                else:
                    parts.append(p)
            return self.cmp_parts(parts, list(q.parts))
        except Unsupported as e:
            raise Undecided(e.msg)
        except NeedSplit as e:
            raise Fork(e.cond)

    def cmp_parts(self, exp, act):
        E = self.E
        n = 0
        exp = list(exp)
        act = [p for p in act if not (p[0] in ('s', 'c') and self.F.norm(E.part_len(self.view, p)) == 0)]
        while exp and act:
            x, a = exp[0], act[0]
            if x[0] == 'q' and x[1] == a:
                pass
            elif x[0] == 'q' and 's' in (x[1][0], a[0]) and (x[1][0], a[0]) != ('s', 's') and 'e' in (x[1][0], a[0]):
                # one element against the first of a range
                r = x[1] if x[1][0] == 's' else a
                rest = []
                if self.test(E.mk_le(E.part_len(self.view, r), 0)):
                    (exp if r is x[1] else act).pop(0)
                    continue
                if not self.test(E.mk_eq(E.part_len(self.view, r), 1)):
                    rest = [('s', r[1], self.F.norm(add(r[2], 1)), r[3])]
                el = E.part_elem(self.view, r, 0)
                d = self.same(el, a[1]) if r is x[1] else self.same(x[1][1], el)
                if d:
                    return 'element %d: %s' % (n, d)
                if r is x[1]:
                    exp[:1] = [('q', y) for y in rest]
                    act.pop(0)
                else:
                    act[:1] = rest
                    exp.pop(0)
                n += 1
                continue
            elif x[0] == 'q' and x[1][0] == 's' and a[0] == 's' and x[1][1] is a[1] and self.F.norm(sub(x[1][2], a[2])) == 0 \
                    and self.F.norm(sub(x[1][3], a[3])) != 0:
                # the same range, ending at different places
                xs, rx, ra = x[1], [], []
                if not self.test(E.mk_eq(xs[3], a[3])):
                    if self.test(E.mk_lt(xs[3], a[3])):
                        ra = [('s', a[1], xs[3], a[3])]
                    else:
                        rx = [('q', ('s', a[1], a[3], xs[3]))]
                exp[:1] = rx
                act[:1] = ra
                n += 1
                continue
            elif x[0] == 'q' and x[1][0] == 'e' and a[0] == 'e':
                d = self.same(x[1][1], a[1])
                if d:
                    return 'element %d: %s' % (n, d)
            elif x[0] == 'e' and a[0] == 'e':
                d = self.same(x[1], a[1])
                if d:
                    return 'element %d: %s' % (n, d)
            elif x[0] == 'c' and a[0] == 'c' and a[1] == x[1].uid:
                d = self.cmp_loop(x[1], x[2], a)
                if d:
                    return d
            elif x[0] == 'cs' and a[0] == 'c' and a[1] == x[1].uid:
                d = self.cmp_loop(x[1], x[2], a)
                if d:
                    return d
            elif x[0] == 'r' and a[0] in ('c', 's', 'e'):
                ln = E.part_len(self.view, a)
                if not self.F.decide(E.mk_eq(ln, x[1])):
                    return '%s copies instead of %s' % (brief(ln), brief(x[1]))
                i = Sym(('i', 'rep'), E.usize, (0, LEN_MAX))
                d = self.same(x[2], E.part_elem(self.view, a, i))
                if d:
                    return 'repeated element: ' + d
            else:
                d = self.cmp_any(x, a)
                if d:
                    return d
            exp.pop(0)
            act.pop(0)
            n += 1
        if exp:
            return self.left(exp, 'missing')
        if act:
            return self.left([('q', p) for p in act], 'additional')
        return None

    def left(self, parts, what):
        E = self.E
        for p in parts:
            if p[0] == 'q' and p[1][0] in ('s', 'c'):
                z = E.mk_eq(E.part_len(self.view, p[1]), 0)
            elif p[0] in ('c', 'cs'):
                z = E.mk_eq(p[1].kappa, 0)
            elif p[0] == 'r':
                z = E.mk_eq(p[1], 0)
            else:
                return '%s element %s' % (what, brief(p[1]))
            if not self.test(z):
                return '%s elements %s' % (what, brief(p[1]) if p[0] != 'q' else part_str(p[1])[:120])
        return None

    def cmp_any(self, x, a):
        """Element by element at an arbitrary position."""
        E = self.E
        if x[0] == 'q':
            nx = E.part_len(self.view, x[1])
        elif x[0] == 'c':
            nx = x[1].kappa
        elif x[0] == 'e':
            nx = 1
        else:
            raise Undecided('sequence shape')
        na = E.part_len(self.view, a)
        if not self.test(E.mk_eq(nx, na)):
            return 'length %s instead of %s' % (brief(na), brief(nx))
        i = Sym(('i', 'any'), E.usize, (0, LEN_MAX))
        F = self.F.copy()
        F.assume(E.mk_lt(i, na))
        c = Cur(E, self.st, F, [])
        if x[0] == 'q':
            ex = E.part_elem(c.view, x[1], i)
        elif x[0] == 'e':
            ex = x[1]
        else:
            if len(x[2]) != 1:
                raise Undecided('iterations differ in kind')
            ex = x[2][0]
            ex = subst_spec(ex, {x[1].kappa: i})
        return c.same(ex, E.part_elem(c.view, a, i))

    def cmp_loop(self, lp, exps, a):
        if self.F.decide(self.E.mk_eq(a[3], lp.kappa)) is not True:
            return 'keeps %s of %s elements' % (brief(a[3]), brief(lp.kappa))
        for cont, x in zip(lp.conts, exps):
            em = cont['emits'].get(a[2])
            if em is None:
                return 'elements not stored'

            def f(c, em=em, x=x):
                if isinstance(x, SeqX):
                    return c.cmp_parts(list(x.parts), list(em))
                return c.cmp_parts([('e', x)], list(em))
            for d in self.forked(cont['state'], cont['facts'], f):
                if d:
                    return d
        return None

    def forked(self, st, facts, f):
        """Results of f(cursor) over every case it distinguishes."""
        out = []
        work = [facts.copy()]
        n = 0
        while work:
            F = work.pop()
            n += 1
            if n > 4000 or late():
                raise Undecided('too many cases')
            c = Cur(self.E, st, F, [])
            try:
                out.append(f(c))
            except Fork as k:
                for val in (True, False):
                    G = F.copy()
                    if G.assume(k.cond, val):
                        work.append(G)
        return out


def subst_spec(x, m):
    """Substitution in an expected value."""
    if isinstance(x, Adt):
        f = {k: subst_spec(v, m) for k, v in x.fields.items()} if isinstance(x.fields, dict) else [subst_spec(v, m) for v in x.fields]
        return Adt(x.var, f)
    if isinstance(x, V) or type(x) is int:
        return subst(x, m)
    raise Undecided('element shape')


def quiet(lp):
    """A loop that touches none of the input."""
    if lp.kind != 'ind':
        return False
    return all(all(e[0] in NOISE or (e[0] == 'loop' and quiet(e[1])) for e in c['events']) for c in lp.conts)


def short(t):
    import re
    return re.sub(r'\b[a-z_]+::', '', t)


def ev_str(e):
    if e[0] == 'parse':
        return short(e[1])
    if e[0] == 'byte':
        return 'a byte'
    if e[0] == 'loop':
        return 'a loop'
    return e[0]


def brief(v):
    s = show(v) if isinstance(v, V) else repr(v)
    return s if len(s) < 160 else s[:157] + '...'


def bit_str(b):
    return str(b) if isinstance(b, int) else 'bit %d of %s' % (b[1], brief(b[0]))


def ret_of(E, st):
    """('ok', value) / ('err', value) of a path returning a Result."""
    v = st.done[1]
    t = E.ty(v.ty)
    names = [x['name'] for x in t['variants']] if t['k'] == 'enum' else None
    if names != ['Ok', 'Err']:
        raise Undecided('not a Result')
    k = v.var if isinstance(v, Agg) else st.facts.variant(v)
    if k is None:
        return None, v
    return ('ok', 'err')[k], (v.f[0] if isinstance(v, Agg) else E.expand(v, k).f[0])


def judge(E, st, spec, result=None):
    """Verdicts of one path: list of (kind, message, site); kinds ok, bad, und."""
    if st.done[0] == 'unsup':
        return [('und', st.done[1], st.done[2])]
    if st.done[0] == 'panic':
        return [('panic', st.done[1], st.done[2])]
    if st.done[0] == 'repeat':
        return [('repeat', None, st.done[1])]
    try:
        kind, val = result or ret_of(E, st)
    except Undecided as e:
        return [('und', e.msg, None)]
    out = []
    work = [st.facts.copy()]
    events = st.events()
    n = 0
    while work:
        F = work.pop()
        n += 1
        if n > 4000 or late():
            out.append(('und', 'too many cases', None))
            break
        c = Cur(E, st, F, events)
        try:
            try:
                exp = spec(c)
                c.finish()
                if kind is None:
                    k = T('isv', val, 0, 2)
                    raise Fork(k)
                if kind == 'err':
                    out.append(('bad', 'rejects what the specification accepts', c.last))
                    continue
                d = c.same(exp, val)
                if d:
                    out.append(('bad', 'decodes to ' + d, c.last))
                else:
                    out.append(('ok', None, None))
            except (Reject, Failed) as r:
                if kind == 'ok':
                    what = 'accepts what the specification rejects' if isinstance(r, Reject) else 'succeeds although a constituent failed to decode'
                    out.append(('bad', what + (': ' + r.args[0] if r.args else ''), c.last))
                else:
                    out.append(('ok', None, None))
            except Mismatch as m:
                if kind == 'err' and m.msg.startswith('stops'):
                    out.append(('bad', 'rejects although %s' % m.msg.replace('stops where ', '').replace('is expected', 'may follow'), m.site or c.last))
                elif kind == 'err' and c.peek() is None and c.ev and c.ev[-1][0] in ('fail', 'eof'):
                    out.append(('bad', m.msg, m.site or c.last))
                else:
                    out.append(('bad', m.msg, m.site or c.last))
            except (Undecided, Unsupported) + BUGS as u:
                out.append(('und', why(u), c.last))
            except NeedSplit as k:
                raise Fork(k.cond)
        except Fork as k:
            more = False
            for v in (True, False):
                G = F.copy()
                if G.assume(k.cond, v):
                    work.append(G)
                    more = True
    return sure(events, out)
