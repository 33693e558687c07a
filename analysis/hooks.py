"""Boundaries: calls that become events instead of being entered."""
from dom import *
from interp import Unsupported

PARSE = ('whasm::binary::WasmBinaryParse::parse', 'whasm::binary::traits::WasmBinaryParse::parse',
         'whasm::binary::core::traits::WasmBinaryParse::parse')


def fork(E, st, cond):
    """Copies of the state for both outcomes of an external event."""
    return st.copy(), st


def src_next(E, st, callee, args, dty):
    """One byte of the input, or its end."""
    I = E.p.insts[callee['inst']] if callee.get('inst') is not None else None
    if I is None or not I['def'].endswith('<verif_harness::Src as std::iter::Iterator>::next') and not I['def'].endswith('<Src as std::iter::Iterator>::next'):
        return None
    a = st.copy()
    b = E.fresh(a, 'byte', E.u8)
    a.emit('byte', b)
    tick(a, 'read')
    st.emit('eof')
    tick(st, 'eof')
    return [(a, Agg(dty, 1, (b,))), (st, Agg(dty, 0, ()))]


class AnySource:
    """Reading from an opaque source of another type, given by the type of the reference to it."""

    def __init__(self, ref):
        self.ref = ref

    def __call__(self, E, st, callee, args, dty):
        if not callee['def'].endswith('Iterator::next') or not callee['args'] or E.ty(self.ref).get('to') != callee['args'][0]:
            return None
        a = st.copy()
        b = E.fresh(a, 'byte', E.u8)
        a.emit('byte', b)
        st.emit('eof')
        return [(a, Agg(dty, 1, (b,))), (st, Agg(dty, 0, ()))]


def tick(st, name):
    """Count on a ghost cell, if the check set one up."""
    c = ('ghost', name)
    if c in st.mem:
        st.mem[c] = add(st.mem[c], 1)


def source(E, st, v, depth=0):
    """None when reading from v reads the input itself, else a description."""
    try:
        for _ in range(12):
            if isinstance(v, Sym):
                t = E.ty(v.ty)
                if t['k'] == 'ref':
                    v = E.deref(st, v)
                    continue
                return None
            if isinstance(v, Ptr):
                v = E.read(st, v.cell, v.path)
                continue
            if isinstance(v, Agg):
                t = E.ty(v.ty)['s']
                if t.startswith('std::iter::Peekable<'):
                    if not (isinstance(v.f[1], Agg) and v.f[1].var == 0):
                        return 'a source with a byte already taken from it'
                    v = v.f[0]
                    continue
                return t.split('<')[0]
            return None
    except Unsupported:
        pass
    return None


class ParseBoundary:
    """Treat parsing of the given types (by printed name) as atomic events."""

    def __init__(self, types, skip=1):
        self.types = types
        self.skip = skip

    def __call__(self, E, st, callee, args, dty):
        if not callee['def'].endswith('WasmBinaryParse::parse') or not callee['args']:
            return None
        t = E.ty(callee['args'][0])['s']
        if not self.types(t):
            return None
        if len(st.frames) <= self.skip:
            return None
        inner = E.p.field_tys(dty, 0)[0]
        err = E.p.field_tys(dty, 1)[0]
        a = st.copy()
        v = E.fresh(a, 'P:' + t, inner)
        a.emit('parse', t, v, args[0], E.site(a), source(E, a, args[0]))
        x = E.fresh(st, 'E:' + t, err)
        st.emit('fail', t, x, E.site(st))
        return [(a, Agg(dty, 0, (v,))), (st, Agg(dty, 1, (x,)))]


def client(E, st, callee, args, dty):
    """The most general consumer of the harness: free choices, observations, some error."""
    d = callee['def'].split('::')[-1] if 'verif_harness' in callee['def'] or '::' not in callee['def'] else ''
    if d == 'choose':
        a = st.copy()
        a.emit('choose', 1)
        st.emit('choose', 0)
        return [(a, 1), (st, 0)]
    if d == 'got':
        v = args[0]
        st.emit('got', v)
        if isinstance(v, Agg) and v.var == 1:
            tick(st, 'given')
        return [(st, Agg(dty, 0, ()))]
    if d == 'some_error':
        x = E.fresh(st, 'client error', dty)
        st.emit('clienterr', x)
        return [(st, x)]
    return None
