"""Comparing and printing decoded data (C26)."""
import natives
from dom import *
from interp import Unsupported
from oracle import *
from parse_checks import key, self_names, where

PRIM = ('uint', 'int', 'bool', 'char')
EQ = ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', 'std::iter::Iterator::eq', 'std::iter::Iterator::ne')


def peel(E, t):
    while E.ty(t)['k'] == 'ref':
        t = E.ty(t)['to']
    return t


def plain(E, st, v):
    """The value behind references."""
    for _ in range(6):
        if isinstance(v, T) and v.op == 'dyn':
            v = v.args[0]
        if isinstance(v, Sym) and E.ty(v.ty)['k'] == 'ref':
            v = E.deref(st, v)
        if not isinstance(v, Ptr):
            break
        v = E.read(st, v.cell, v.path)
    return natives.seq_val(E, st, v) if isinstance(v, SRef) else v


def content(E, v):
    """Vectors, text and slices as the sequence they hold."""
    if isinstance(v, (Seq, VecV)):
        return E.as_seq(v)
    if isinstance(v, (Sym, Agg)) and v.ty is not None:
        s = E.ty(v.ty)['s']
        if s.startswith(('std::vec::Vec<', 'std::string::String')) or E.ty(v.ty)['k'] == 'array':
            return E.as_seq(v)
    return v


def lengths(x):
    """A relation between lengths only."""
    L = x.args[0] if isinstance(x, T) and x.op in ('eq0', 'le0') else None
    if L is None:
        return False
    return all(isinstance(a, Sym) and isinstance(a.name, tuple) and a.name[0] == 'len' for a in lin_parts(L)[1])


class Comparisons:
    """Comparisons of parts are events with a free outcome."""

    def __init__(self, top):
        self.top = top

    def __call__(self, E, st, callee, args, dty):
        if callee['def'].endswith('<impl str>::eq_ignore_ascii_case'):
            other = st.copy()
            other.emit('cmp', *(content(E, plain(E, st, x)) for x in args), 0)
            return [(st, 1), (other, 0)]
        if callee['def'] not in EQ or len(args) != 2:
            return None
        t = peel(E, callee['args'][0])
        if E.ty(t)['k'] in PRIM + ('tuple',) or t in self.top or E.ty(t)['s'].startswith('std::option::Option<'):
            return None
        a, b = (content(E, plain(E, st, x)) for x in args)
        ne = callee['def'].endswith('ne')
        other = st.copy()
        st.emit('cmp', a, b, 1)
        other.emit('cmp', a, b, 0)
        return [(st, 1 - ne), (other, int(ne))]


class Parts:
    """What a path knows about the equality of two values: True, False, or None with the part not known."""

    def __init__(self, E, st, F):
        self.E, self.st, self.F = E, st, F
        self.cmp = {}
        for e in st.events():
            if e[0] == 'cmp':
                for k in ((e[1], e[2]), (e[2], e[1])):
                    self.cmp.setdefault(k, []).append(e[3])

    def truth(self, b):
        return bool(b) if isinstance(b, int) else self.F.decide(b)

    def event(self, a, b):
        for r in self.cmp.get((content(self.E, a), content(self.E, b)), ()):
            d = self.truth(r)
            if d is not None:
                return d
        return None

    def join(self, pairs, name):
        unknown = None
        for n, (x, y) in pairs:
            d, w = self.same(x, y, name + '.' + n if name else n)
            if d is False:
                return False, w
            if d is None:
                unknown = unknown or w
        return (None, unknown) if unknown else (True, None)

    def same(self, a, b, name=''):
        E, F = self.E, self.F
        if a is b and isinstance(a, (int, VecV)):
            return True, None
        if isinstance(a, int) and isinstance(b, int):
            return a == b, name
        d = self.event(a, b)
        if d is not None:
            return d, name
        ty = a.ty if hasattr(a, 'ty') else getattr(b, 'ty', None)
        t = E.ty(ty) if ty is not None else None
        if t is None or t['k'] in PRIM:
            return self.truth(E.mk_eq(a, b)), name
        if t['k'] == 'float':
            for x in (T('feq', a, b), T('feq', b, a)):
                d = self.truth(x)
                if d is not None:
                    return d, name
            return self.other(a, b, name)
        std = t['s'].split('<')[0] in ('std::vec::Vec', 'std::string::String', 'std::boxed::Box')
        if t['k'] == 'struct' and not std:
            fs = t['variants'][0]['fields']
            x, y = (v if isinstance(v, Agg) else E.expand(v) for v in (a, b))
            return self.join([(f[0], (p, q)) for f, p, q in zip(fs, x.f, y.f)], name)
        if t['k'] == 'enum':
            return self.enum(a, b, t, name)
        for q in (T('eqv', a, b), T('eqv', b, a)):
            d = self.truth(q)
            if d is not None:
                return d, name
        return self.other(a, b, name)

    def other(self, a, b, name):
        """Compared by something else than equality?"""
        for x, _ in self.F.assumptions():
            if mentions(x, {a}) and mentions(x, {b}) and not lengths(x):
                raise Undecided('%s is compared by other means' % name)
        for x, y in self.cmp:
            if (mentions(x, {a}) or mentions(x, {content(self.E, a)})) and (mentions(y, {b}) or mentions(y, {content(self.E, b)})) and (x, y) != (a, b):
                raise Undecided('%s is compared by other means' % name)
        return None, name

    def enum(self, a, b, t, name):
        E, F = self.E, self.F
        ka, kb = F.variant(a), F.variant(b)
        if ka is None or kb is None:
            if not (isinstance(a, Agg) or isinstance(b, Agg)):
                d = self.truth(T('eqd', *sorted((a, b), key=lambda z: z.uid)))
            else:
                s, k = (a, kb) if ka is None else (b, ka)
                d = self.truth(T('isv', s, k, len(t['variants'])))
            if d is False:
                return False, name
            if len(t['variants']) == 1:
                ka = kb = 0
            elif d is None:
                return None, name + ' (which of its kinds)' if name else 'which kind it is'
            else:
                ka = kb = ka if ka is not None else kb
        if ka is not None and ka != kb:
            return False, name
        unknown = None
        for k, v in enumerate(t['variants']):
            if ka is not None and k != ka or ka is None and k in (F.nvar.get(a) or frozenset()) | (F.nvar.get(b) or frozenset()):
                continue
            if not v['fields']:
                continue
            x, y = (z if isinstance(z, Agg) else E.expand(z, k) for z in (a, b))
            d, w = self.join([(f[0], (p, q)) for f, p, q in zip(v['fields'], x.f, y.f)], (name + '.' if name else '') + v['name'])
            if d is False and ka is not None:
                return False, w
            if d is not True:
                unknown = unknown or w
        return (None, unknown) if unknown else (True, None)


def strip(E, a, b):
    """Both sides without the wrapper only one of them has."""
    def kind(v):
        return E.ty(v.ty)['s'] if hasattr(v, 'ty') and v.ty is not None else None
    if kind(a) != kind(b) and isinstance(a, (Sym, Agg)) and E.ty(a.ty)['k'] == 'struct':
        v = a if isinstance(a, Agg) else E.expand(a)
        if len(v.f) == 1:
            return v.f[0], b
    return a, b


def run(C, root, hook):
    """All paths, with the values of the arguments behind references."""
    W = C.W
    inst = root if isinstance(root, int) else W.p.roots[root]
    E, out = W.run(inst, lambda s: False, extra=[hook])
    b = W.p.body(inst)
    return E, out, [E.sym('arg%d' % i, b.locals[i]) for i in range(1, b.argc + 1)]


def looped(st):
    return any(e[0] in ('loop', 'repeat', 'shape') for e in st.events())


def compares(C, R, inst, name, negate=False):
    b = C.W.p.body(inst)
    E0 = C.W.p
    top = set()
    for i in (1, 2):
        t = b.locals[i]
        while E0.types[t]['k'] == 'ref':
            t = E0.types[t]['to']
        top.add(t)
    E, out, args = run(C, inst, Comparisons(top))
    R.fns |= self_names(E)
    R.count('paths', len(out))
    for st in out:
        if st.done[0] != 'ret':
            R.undecided('equality', '%s: %s' % (name, st.done[1]))
            continue
        r = st.done[1]
        a, o = strip(E, *(plain(E, st, x) for x in args))
        for want in (True, False):
            F = st.facts.copy()
            if isinstance(r, int):
                if bool(r) != want:
                    continue
            elif not F.assume(r, want):
                continue
            try:
                d, part = Parts(E, st, F).same(a, o)
            except (Undecided, Unsupported, Fork) + BUGS as u:
                R.undecided('equality', '%s: %s' % (name, why(u)))
                continue
            says = want != negate
            if d is says:
                R.ok('equality', name)
            elif d is None and (looped(st) or not says and part is None):
                R.undecided('equality', '%s: compared by other means' % name)
            elif says:
                R.violate('equality', 'equality/' + name, '%s compares equal %s' % (name, 'although %s differs' % (part or 'it') if d is False else 'without comparing %s' % (part or 'it')), name)
            else:
                R.violate('equality', 'equality/' + name, '%s compares unequal although no part is known to differ' % name, name)


def equality(C, R):
    p = C.W.p
    seen = 0
    for i, I in enumerate(p.insts):
        if not I or not I.get('body') or I['crate'] != 'whasm' or 'std::cmp::PartialEq' not in I['def']:
            continue
        m = I['def'].rsplit('::', 1)[-1]
        if m not in ('eq', 'ne'):
            continue
        seen += 1
        b = p.body(i)
        ts = []
        for k in (1, 2):
            t = b.locals[k]
            while p.types[t]['k'] == 'ref':
                t = p.types[t]['to']
            ts.append(p.ts(t).replace('whasm::', ''))
        compares(C, R, i, ts[0] + ('' if ts[0] == ts[1] else ' and ' + ts[1]), m == 'ne')
    if not seen:
        R.undecided('equality', 'no comparison of decoded values')


def conversions(C, R):
    """Unwrapping and converting yield what is wrapped."""
    for root in sorted(C.W.p.roots):
        if not root.startswith('x_into_'):
            continue
        E, out, args = run(C, root, lambda *a: None)
        R.fns |= self_names(E)
        R.count('paths', len(out))
        for st in out:
            if st.done[0] != 'ret':
                R.undecided('conversion', '%s: %s' % (root, st.done[1]))
                continue
            v = args[0]
            f = E.expand(v).f
            if len(f) != 1:
                R.undecided('conversion', '%s: wrapper with several fields' % root)
                continue
            r = st.done[1]
            same = r is f[0] or isinstance(r, SCALAR) and isinstance(f[0], SCALAR) and E.ty(f[0].ty)['k'] in PRIM and st.facts.decide(E.mk_eq(r, f[0])) is True
            if same:
                R.ok('conversion', root)
            elif looped(st):
                R.undecided('conversion', '%s: computed by a loop' % root)
            else:
                R.violate('conversion', 'conversion/' + root, '%s of %s yields another value than the one wrapped' % ('unwrap' if 'inner' in root else 'From', E.ty(v.ty)['s']), root)


class Printing:
    """Calls into the formatting machinery: what is handed over counts as shown."""

    def __init__(self, top):
        self.top = top

    def __call__(self, E, st, callee, args, dty):
        d = callee['def']
        if not d.startswith(('std::fmt::', 'core::fmt::')) and 'std::fmt::Formatter' not in d:
            return None
        if d.endswith('::fmt') and callee['args'] and peel(E, callee['args'][0]) in self.top:
            return None
        for a in args:
            self.show(E, st, a, 0)
        return [(st, E.fresh(st, 'printed', dty))]

    def show(self, E, st, a, depth):
        try:
            v = plain(E, st, a)
        except (Unsupported, KeyError):
            return
        st.emit('shown', v)
        if depth < 4:
            if isinstance(v, Agg):
                for x in v.f:
                    self.show(E, st, x, depth + 1)
            elif isinstance(v, (Seq, VecV)):
                for q in E.as_seq(v).parts:
                    if q[0] == 'e' and isinstance(q[1], V):
                        self.show(E, st, q[1], depth + 1)


def single(E, ty):
    """Does the type have one value only?"""
    t = E.ty(ty)
    return t['s'] == '()' or t['k'] in ('struct', 'enum') and len(t['variants']) == 1 and all(single(E, f[1]) for f in t['variants'][0]['fields'])


def printed(E, F, v, shown):
    if v in shown or content(E, v) in shown:
        return True
    if isinstance(v, Sym) and E.ty(v.ty)['k'] == 'struct':
        f = E.expand(v).f
        return bool(f) and all(printed(E, F, x, shown) for x in f)
    if isinstance(v, Sym) and E.ty(v.ty)['k'] == 'enum' and F.variant(v) is not None:
        # printed by kind; that the kinds look different is compared over the paths
        return all(printed(E, F, x, shown) for x in E.expand(v, F.variant(v)).f)
    return any(bits_of(s) >= set((v, i) for i in range(width(E, v))) for s in shown)


def width(E, v):
    i = E.p.int_info(v.ty) if isinstance(v, Sym) and E.ty(v.ty)['k'] in PRIM else None
    return i[0] if i else 1


def bits_of(s):
    return set((x[0], x[1]) for x in s.b if not isinstance(x, int)) if isinstance(s, Bits) else set()


def loses(E, v, s):
    """Does s certainly not determine v?"""
    if isinstance(s, Bits):
        return True
    return isinstance(s, Sym) and isinstance(s.name, tuple) and s.name[0] == 'len'


def kinds(E, F, v, depth=2):
    """The kinds of the parts a path has looked at."""
    if not isinstance(v, Sym) or E.ty(v.ty)['k'] not in ('struct', 'enum') or depth < 0:
        return ()
    k = 0 if E.ty(v.ty)['k'] == 'struct' else F.variant(v)
    if k is None or E.ty(v.ty)['s'].startswith('std::vec'):
        return ()
    return (k,) + tuple(kinds(E, F, x, depth - 1) for x in E.expand(v, k).f)


def literal(v):
    if isinstance(v, Seq):
        return all(q[0] == 'e' and isinstance(q[1], int) for q in v.parts)
    return isinstance(v, Agg) and len(v.f) > 1 and all(isinstance(x, int) for x in v.f)


def shown_parts(st, v):
    out = []
    for e in st.events():
        if e[0] == 'shown' and isinstance(e[1], Sym) and mentions(e[1], {v}):
            out.append(e[1])
    return out


def printing(C, R):
    p = C.W.p
    for root in sorted(p.roots):
        if not root.startswith(('x_dbg_', 'x_dsp_')):
            continue
        t = p.types[p.body(p.roots[root]).locals[1]]['to']
        name = p.ts(t).replace('whasm::', '')
        E, out, args = run(C, root, Printing({t}))
        R.fns |= self_names(E)
        R.count('paths', len(out))
        looks = {}
        for st in out:
            if st.done[0] != 'ret':
                R.undecided('printing', '%s: %s' % (name, st.done[1]))
                continue
            if ret_of(E, st)[0] == 'err':
                continue
            v = plain(E, st, args[0])
            ty = E.ty(t)
            shown = set(e[1] for e in st.events() if e[0] == 'shown')
            text = tuple(e[1] for e in st.events() if e[0] == 'shown' and literal(e[1]))
            k = 0 if ty['k'] == 'struct' else st.facts.variant(v)
            if k is None and len(ty['variants']) == 1:
                k = 0
            if k is None:
                R.undecided('printing', '%s: which kind is printed is not known' % name)
                continue
            var = ty['variants'][k]
            what = name + ('::' + var['name'] if ty['k'] == 'enum' else '')
            for (n, ft), x in zip(((f[0], f[1]) for f in var['fields']), E.expand(v, k).f):
                if single(E, ft) or printed(E, st.facts, x, shown):
                    R.ok('printing', what)
                elif looped(st) or any(mentions(s, {x}) and not loses(E, x, s) for s in shown):
                    R.undecided('printing', '%s: %s is printed by other means' % (what, n))
                else:
                    R.violate('printing', 'printing/' + what, '%s is printed without its %s' % (what, n), name)
            sig = (text, tuple(E.ty(s.ty)['s'] for s in shown_parts(st, v)))
            me = kinds(E, st.facts, v)
            other, oname = looks.setdefault(sig, (me, what))
            if other != me:
                R.violate('printing', 'printing/%s/kinds' % name, 'different kinds of %s are printed alike' % name if oname == what else '%s and %s are printed alike' % (oname, what), name)
            else:
                R.ok('printing', what)


def c26(C, R):
    equality(C, R)
    conversions(C, R)
    printing(C, R)
