"""Abstract semantics of the standard library functions that work on raw memory."""
from dom import *
from interp import Unsupported, Panic, Infeasible, NEVER, LEN_MAX, USIZE_MAX


def some(E, ty, v):
    return Agg(ty, 1, (v,))


def none(ty):
    return Agg(ty, 0, ())


def unit(E, dty):
    return Agg(dty, 0, ())


def vec_at(E, st, p):
    """(pointer, sequence) behind a &Vec / &mut Vec argument."""
    p = E.deref(st, p)
    if not isinstance(p, Ptr):
        raise Unsupported('vector pointer')
    return p, E.as_seq(E.read(st, p.cell, p.path))


def set_vec(E, st, p, q):
    E.write(st, p.cell, p.path, VecV(q))


def sref(E, st, p):
    """A slice-like argument (&[T], &Vec, &[T; N]) as SRef."""
    p = E.deref(st, p)
    if isinstance(p, SRef):
        return p
    v = E.read(st, p.cell, p.path)
    if isinstance(v, Agg) and E.ty(v.ty)['k'] == 'array':
        return SRef(p, 0, len(v.f))
    if isinstance(v, Sym) and E.ty(v.ty)['k'] == 'array':
        return SRef(p, 0, E.ty(v.ty)['len'])
    if isinstance(v, (VecV,)) or (isinstance(v, Sym) and (E.p.is_vec(v.ty) or E.p.is_string(v.ty))):
        return SRef(Ptr(p.cell, p.path + ('buf',)), 0, E.seq_len(st, E.as_seq(v)))
    if isinstance(v, Seq):
        return SRef(p, 0, E.seq_len(st, v))
    raise Unsupported('slice argument %r' % (v,))


def elem_ptr(E, st, s, i):
    return Ptr(s.ptr.cell, s.ptr.path + (('i', st.facts.norm(add(s.lo, i))),))


def seq_val(E, st, s):
    return E.seq_slice(st, E.as_seq(E.read(st, s.ptr.cell, s.ptr.path)), s.lo, s.n)


# ---------------------------------------------------------------- Vec
def vec_new(E, st, c, a, dty):
    return VecV(Seq(()))


def vec_with_capacity(E, st, c, a, dty):
    st.emit('alloc', a[0], E.site(st))
    return VecV(Seq(()))


THROUGH = ('Map', 'Enumerate', 'Copied', 'Cloned', 'Rev', 'Inspect', 'Fuse', 'Peekable')


def promised(E, st, v):
    """What an iterator over a range promises to yield, None when it does not."""
    for _ in range(12):
        if isinstance(v, Ptr):
            v = E.read(st, v.cell, v.path)
        if not isinstance(v, Agg):
            return None
        n = E.ty(v.ty).get('name', '').split('::')[-1]
        if n in ('Range', 'RangeInclusive') and len(v.f) >= 2 and (isinstance(v.f[1], (int, Lin)) or E.atom_info(v.f[1]) is not None):
            return sub(v.f[1], v.f[0])
        if n not in THROUGH or not v.f:
            return None
        v = v.f[0]
    return None


def prealloc(E, st, c, a, dty):
    n = promised(E, st, E.deref(st, a[0]))
    if n is not None:
        st.emit('alloc', n, E.site(st))
    return unit(E, dty)


def vec_reserve(E, st, c, a, dty):
    st.emit('alloc', a[1], E.site(st))
    return unit(E, dty)


def vec_push(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    q = Seq(q.parts + (('e', a[1]),))
    st.emit('push', p, E.site(st))
    set_vec(E, st, p, q)
    if E.ty(dty)['k'] in ('ref', 'ptr'):
        return Ptr(p.cell, p.path + ('buf', ('i', sub(E.seq_len(st, q), 1))))
    return unit(E, dty)


def vec_pop(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    r = E.seq_pop(st, q)
    if r is None:
        set_vec(E, st, p, Seq(()))
        return none(dty)
    set_vec(E, st, p, r[0])
    return some(E, dty, r[1])


def vec_len(E, st, c, a, dty):
    p = E.deref(st, a[0])
    if isinstance(p, SRef):
        return st.facts.norm(p.n)
    n = E.seq_len(st, E.as_seq(E.read(st, p.cell, p.path)))
    if isinstance(n, Lin) and len(n.t) > 1 and not st.facts.prove_le(st.facts.norm(sub(n, LEN_MAX))):
        # no list is longer than the address space allows, however many parts it was put together from
        st.facts._add_le(st.facts.norm(sub(n, LEN_MAX)))
    return n


def vec_is_empty(E, st, c, a, dty):
    return E.cmp(st, 'Eq', vec_len(E, st, c, a, None), 0, (64, False))


def vec_truncate(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    n = E.seq_len(st, q)
    if E.need(st, E.mk_lt(a[1], n)):
        r = E.seq_pop(st, q) if st.facts.norm(sub(n, add(a[1], 1))) == 0 else None
        set_vec(E, st, p, r[0] if r else E.seq_norm(st, E.seq_slice(st, q, 0, a[1])))
    return unit(E, dty)


def vec_clear(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    set_vec(E, st, p, Seq(()))
    return unit(E, dty)


def vec_dedup(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    set_vec(E, st, p, Seq((('o', T('dedup', q)),)))
    return unit(E, dty)


def vec_sort(E, st, c, a, dty):
    s = sref(E, st, a[0])
    q = seq_val(E, st, s)
    path = s.ptr.path
    E.write(st, s.ptr.cell, path, Seq((('o', T('sorted', q)),)))
    return unit(E, dty)


def any_index(E, st, c, a, dty):
    i = E.fresh(st, 'index', dty)
    st.emit('index', i)
    st.facts.assume(E.mk_lt(i, a[0]))
    return i


def arrange(E, st, c, a, dty):
    """Sorted when the comparison is that of the elements; in an unknown order when it finds different elements equal."""
    s = sref(E, st, a[0])
    q = seq_val(E, st, s)
    o = a[3]
    op = 'sorted'
    if isinstance(o, Sym) and isinstance(o.name, tuple) and o.name[0] == 'cmp':
        es = [str_seq(E, st, E.seq_get(st, q, i)) for i in (a[1], a[2])]
        if list(o.name[1:]) not in (es, es[::-1]):
            raise Unsupported('order of a sorted list')
    elif isinstance(o, Agg) and E.ty(o.ty)['variants'][o.var]['name'] == 'Equal':
        op = 'permuted'
    elif not isinstance(o, Agg):
        raise Unsupported('order of a sorted list')
    E.write(st, s.ptr.cell, s.ptr.path, Seq((('o', T(op, q)),)))
    return unit(E, dty)


def str_cmp(E, st, c, a, dty):
    qs = [str_seq(E, st, x) for x in a]
    return E.sym(('cmp',) + tuple(qs), dty)


def str_partial_cmp(E, st, c, a, dty):
    return Agg(dty, 1, (str_cmp(E, st, c, a, E.p.field_tys(dty, 1)[0]),))


def vec_deref(E, st, c, a, dty):
    p = E.deref(st, a[0])
    if isinstance(p, SRef):
        return p
    return sref(E, st, p)


def cut(E, st, q, lo, hi):
    return E.seq_slice(st, q, lo, st.facts.norm(sub(hi, lo))).parts


def vec_insert(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    n = E.seq_len(st, q)
    ok = E.need(st, E.mk_le(a[1], n))
    note(E, st, ok)
    if not ok:
        raise Panic('insertion index out of bounds')
    st.emit('push', p, E.site(st))
    set_vec(E, st, p, Seq(cut(E, st, q, 0, a[1]) + (('e', a[2]),) + cut(E, st, q, a[1], n)))
    if E.ty(dty)['k'] in ('ref', 'ptr'):
        return Ptr(p.cell, p.path + ('buf', ('i', a[1])))
    return unit(E, dty)


def vec_remove(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    n = E.seq_len(st, q)
    ok = E.need(st, E.mk_lt(a[1], n))
    note(E, st, ok)
    if not ok:
        raise Panic('removal index out of bounds')
    r = E.seq_pop(st, q) if st.facts.norm(sub(n, add(a[1], 1))) == 0 else None
    if r:
        set_vec(E, st, p, r[0])
        return r[1]
    x = E.seq_get(st, q, a[1])
    set_vec(E, st, p, Seq(cut(E, st, q, 0, a[1]) + cut(E, st, q, add(a[1], 1), n)))
    return x


def vec_swap_remove(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    n = E.seq_len(st, q)
    ok = E.need(st, E.mk_lt(a[1], n))
    note(E, st, ok)
    if not ok:
        raise Panic('removal index out of bounds')
    x = E.seq_get(st, q, a[1])
    rest, last = E.seq_pop(st, q)
    if not E.need(st, E.mk_eq(add(a[1], 1), n)):
        rest = E.seq_set(st, rest, a[1], last)
    set_vec(E, st, p, rest)
    return x


def vec_split_off(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    n = E.seq_len(st, q)
    ok = E.need(st, E.mk_le(a[1], n))
    note(E, st, ok)
    if not ok:
        raise Panic('split index out of bounds')
    set_vec(E, st, p, Seq(cut(E, st, q, 0, a[1])))
    return VecV(Seq(cut(E, st, q, a[1], n)))


def vec_drain(E, st, c, a, dty):
    """The drained elements move to a private sequence at once; a leaked iterator is not modelled."""
    p, q = vec_at(E, st, a[0])
    n = E.seq_len(st, q)
    r = sub_slice(E, st, SRef(Ptr(p.cell, p.path + ('buf',)), 0, n), a[1])
    note(E, st, r is not None)
    if r is None:
        raise Panic('range out of bounds')
    hi = add(r.lo, r.n)
    out = Seq(cut(E, st, q, r.lo, hi))
    set_vec(E, st, p, Seq(cut(E, st, q, 0, r.lo) + cut(E, st, q, hi, n)))
    return vec_into_iter(E, st, c, [VecV(out)], dty)


def set_slice(E, st, s, q):
    """Overwrite the elements of a slice."""
    if s.lo == 0:
        whole = E.as_seq(E.read(st, s.ptr.cell, s.ptr.path))
        n = E.seq_len(st, whole)
        if st.facts.norm(s.n) != n:
            q = Seq(q.parts + cut(E, st, whole, s.n, n))
        E.write(st, s.ptr.cell, s.ptr.path, q)
        return
    raise Unsupported('writing part of a slice')


def slice_swap(E, st, c, a, dty):
    s = sref(E, st, a[0])
    ok = E.need(st, E.mk_lt(a[1], s.n)) and E.need(st, E.mk_lt(a[2], s.n))
    note(E, st, ok)
    if not ok:
        raise Panic('index out of bounds')
    p, q = elem_ptr(E, st, s, a[1]), elem_ptr(E, st, s, a[2])
    x, y = E.read(st, p.cell, p.path), E.read(st, q.cell, q.path)
    E.write_ptr(st, p, y)
    E.write_ptr(st, q, x)
    return unit(E, dty)


def slice_reverse(E, st, c, a, dty):
    s = sref(E, st, a[0])
    q = E.seq_norm(st, seq_val(E, st, s))
    if all(p[0] == 'e' for p in q.parts):
        set_slice(E, st, s, Seq(q.parts[::-1]))
    elif E.need(st, E.mk_le(s.n, 1)):
        pass
    else:
        set_slice(E, st, s, Seq((('o', T('reversed', q)),)))
    return unit(E, dty)


def slice_split_first(back=False, mut=False):
    def f(E, st, c, a, dty):
        s = sref(E, st, a[0])
        if not E.need(st, E.mk_lt(0, s.n)):
            return none(dty)
        m = st.facts.norm(sub(s.n, 1))
        one = elem_ptr(E, st, s, m if back else 0)
        rest = SRef(s.ptr, s.lo if back else st.facts.norm(add(s.lo, 1)), m)
        return some(E, dty, Agg(E.p.field_tys(dty, 1)[0], 0, (one, rest)))
    return f


def slice_split_at(checked=False):
    def f(E, st, c, a, dty):
        s = sref(E, st, a[0])
        ok = E.need(st, E.mk_le(a[1], s.n))
        if not checked:
            note(E, st, ok)
        if not ok:
            if checked:
                return none(dty)
            raise Panic('split index out of bounds')
        x = SRef(s.ptr, s.lo, a[1])
        y = SRef(s.ptr, st.facts.norm(add(s.lo, a[1])), st.facts.norm(sub(s.n, a[1])))
        if checked:
            return some(E, dty, Agg(E.p.field_tys(dty, 1)[0], 0, (x, y)))
        return Agg(dty, 0, (x, y))
    return f


def array_to_vec(E, st, c, a, dty):
    return VecV(E.as_seq(a[0]))


# ---------------------------------------------------------------- iterators over slices
def base_iter(E, v):
    """(slice, from the back, by value, rebuild) behind adaptors that only turn around or copy."""
    if isinstance(v, SRef):
        return v, False, False, lambda s: s
    if isinstance(v, Agg) and v.f:
        n = E.ty(v.ty).get('name', '').split('::')[-1]
        if n in ('Rev', 'Copied'):
            b = base_iter(E, v.f[0])
            if b is not None:
                s, back, val, mk = b
                return s, back != (n == 'Rev'), val or n == 'Copied', lambda x: Agg(v.ty, v.var, (mk(x),) + v.f[1:])
    return None


def model_nth(E, st, c, a, dty):
    p = E.deref(st, a[0])
    if not isinstance(p, Ptr):
        return None
    b = base_iter(E, E.read(st, p.cell, p.path))
    if b is None:
        return None
    s, back, val, mk = b
    n = a[1]
    if not E.need(st, E.mk_lt(n, s.n)):
        E.write(st, p.cell, p.path, mk(SRef(s.ptr, s.lo if back else st.facts.norm(add(s.lo, s.n)), 0)))
        return none(dty)
    rest = st.facts.norm(sub(sub(s.n, n), 1))
    i = rest if back else n
    e = elem_ptr(E, st, s, i)
    E.write(st, p.cell, p.path, mk(SRef(s.ptr, s.lo if back else st.facts.norm(add(s.lo, add(n, 1))), rest)))
    return some(E, dty, E.read(st, e.cell, e.path) if val or by_value(E, dty) else e)


def by_value(E, dty):
    return E.ty(E.p.field_tys(dty, 1)[0])['k'] not in ('ref', 'ptr')


def model_count(E, st, c, a, dty):
    b = base_iter(E, a[0])
    return None if b is None else st.facts.norm(b[0].n)


def model_last(E, st, c, a, dty):
    b = base_iter(E, a[0])
    if b is None:
        return None
    s, back, val, mk = b
    if not E.need(st, E.mk_lt(0, s.n)):
        return none(dty)
    e = elem_ptr(E, st, s, 0 if back else sub(s.n, 1))
    return some(E, dty, E.read(st, e.cell, e.path) if val or by_value(E, dty) else e)


# ---------------------------------------------------------------- sets
# A set is the sequence of everything that was entered into it.
def set_insert(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    st.emit('push', p, E.site(st))
    set_vec(E, st, p, Seq(q.parts + (('e', a[1]),)))
    return newin(E, st, q, a[1])


def newin(E, st, q, x):
    q = E.seq_norm(st, q)
    return T('pred', 'newin', q, x) if q.parts else 1


def set_contains(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    x = E.deref(st, a[1])
    if isinstance(x, Ptr):
        x = E.read(st, x.cell, x.path)
    return Not(newin(E, st, q, x))


def map_insert(E, st, c, a, dty):
    """Maps are the set of their keys; a value that is replaced is not known."""
    p, q = vec_at(E, st, a[0])
    new = E.need(st, newin(E, st, q, a[1]))
    st.emit('push', p, E.site(st))
    set_vec(E, st, p, Seq(q.parts + (('e', a[1]),)))
    return Agg(dty, 0, ()) if new else Agg(dty, 1, (E.fresh(st, 'replaced', E.p.field_tys(dty, 1)[0]),))


def set_len(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    q = E.seq_norm(st, q)
    if len(q.parts) == 1 and q.parts[0][0] == 'o' and isinstance(q.parts[0][1], T) and q.parts[0][1].op == 'dedup':
        return E.seq_len(st, q)
    if not E.need(st, E.mk_lt(1, E.seq_len(st, q))):
        return E.seq_len(st, q)
    return E.seq_len(st, Seq((('o', T('dedup', Seq((('o', T('sorted', q)),)))),)))


def vec_extend_seq(E, st, c, a, dty):
    """extend_from_slice(&mut Vec, &[T])"""
    p, q = vec_at(E, st, a[0])
    s = seq_val(E, st, sref(E, st, a[1]))
    st.emit('push', p, E.site(st))
    set_vec(E, st, p, Seq(q.parts + s.parts))
    return unit(E, dty)


def vec_append(E, st, c, a, dty):
    p, q = vec_at(E, st, a[0])
    p2, q2 = vec_at(E, st, a[1])
    st.emit('push', p, E.site(st))
    set_vec(E, st, p, Seq(q.parts + q2.parts))
    set_vec(E, st, p2, Seq(()))
    return unit(E, dty)


def to_vec(E, st, c, a, dty):
    return VecV(seq_val(E, st, sref(E, st, a[0])))


def vec_clone(E, st, c, a, dty):
    p = E.deref(st, a[0])
    return VecV(E.as_seq(E.read(st, p.cell, p.path)))


def vec_into_iter(E, st, c, a, dty):
    """By-value iteration over a Vec: the elements are moved out of a private sequence cell."""
    q = E.as_seq(a[0])
    cell = ('heap', 'into_iter', st.nfid, st.nev)
    st.emit('intoiter')
    st.mem[cell] = VecV(q)
    return SRef(Ptr(cell, ('buf',)), 0, E.seq_len(st, q))


def vit_next(E, st, c, a, dty, back=False):
    p = E.deref(st, a[0])
    s = as_iter(E, st, E.read(st, p.cell, p.path))
    if not E.need(st, E.mk_lt(0, s.n)):
        return none(dty)
    i = sub(s.n, 1) if back else 0
    ep = elem_ptr(E, st, s, i)
    v = E.read(st, ep.cell, ep.path)
    E.write(st, p.cell, p.path, SRef(s.ptr, s.lo if back else st.facts.norm(add(s.lo, 1)), st.facts.norm(sub(s.n, 1))))
    return some(E, dty, v)


def box_new_uninit(E, st, c, a, dty):
    cell = ('heap', 'box', st.nfid, st.nev)
    st.emit('box')
    st.mem[cell] = UNINIT
    return wrap_ptr(E, dty, Ptr(cell))


def wrap_ptr(E, ty, p):
    t = E.ty(ty)
    if t['k'] in ('ptr', 'ref', 'other'):
        return p
    fs = E.p.field_tys(ty)
    out = []
    done = False
    for f in fs:
        if not done and not (E.ty(f).get('layout') and E.ty(f)['layout']['size'] == 0):
            out.append(wrap_ptr(E, f, p))
            done = True
        else:
            out.append(E.zst(f))
    return Agg(ty, 0, tuple(out))


def box_into_vec(E, st, c, a, dty):
    p = E.deref(st, a[0])
    if isinstance(p, SRef):
        return VecV(seq_val(E, st, p))
    v = E.read(st, p.cell, p.path)
    return VecV(E.as_seq(v))


def box_new(E, st, c, a, dty):
    cell = ('heap', 'box', st.nfid, st.nev)
    st.emit('box')
    st.mem[cell] = a[0]
    return wrap_ptr(E, dty, Ptr(cell))


# ---------------------------------------------------------------- slices
def slice_iter(E, st, c, a, dty):
    s = sref(E, st, a[0])
    return s


def iter_next(E, st, c, a, dty):
    p = E.deref(st, a[0])
    s = E.read(st, p.cell, p.path)
    s = as_iter(E, st, s)
    if not E.need(st, E.mk_lt(0, s.n)):
        return none(dty)
    E.write(st, p.cell, p.path, SRef(s.ptr, st.facts.norm(add(s.lo, 1)), st.facts.norm(sub(s.n, 1))))
    return some(E, dty, elem_ptr(E, st, s, 0))


def iter_next_back(E, st, c, a, dty):
    p = E.deref(st, a[0])
    s = as_iter(E, st, E.read(st, p.cell, p.path))
    if not E.need(st, E.mk_lt(0, s.n)):
        return none(dty)
    E.write(st, p.cell, p.path, SRef(s.ptr, s.lo, st.facts.norm(sub(s.n, 1))))
    return some(E, dty, elem_ptr(E, st, s, sub(s.n, 1)))


def as_iter(E, st, v):
    if isinstance(v, SRef):
        return v
    raise Unsupported('slice iterator %r' % (v,))


def iter_len(E, st, c, a, dty):
    p = E.deref(st, a[0])
    return E.read(st, p.cell, p.path).n


def iter_clone(E, st, c, a, dty):
    p = E.deref(st, a[0])
    return E.read(st, p.cell, p.path)


def slice_last(E, st, c, a, dty):
    s = sref(E, st, a[0])
    if not E.need(st, E.mk_lt(0, s.n)):
        return none(dty)
    return some(E, dty, elem_ptr(E, st, s, sub(s.n, 1)))


def slice_first(E, st, c, a, dty):
    s = sref(E, st, a[0])
    if not E.need(st, E.mk_lt(0, s.n)):
        return none(dty)
    return some(E, dty, elem_ptr(E, st, s, 0))


def is_range(E, v, what):
    return isinstance(v, Agg) and v.ty is not None and E.ty(v.ty).get('name', '').split('::')[-1] == what


def sub_slice(E, st, s, r):
    """Range indexing; None when out of bounds."""
    n = E.ty(r.ty).get('name', '').split('::')[-1] if isinstance(r, Agg) and r.ty is not None else ''
    if n == 'RangeFull':
        return s
    if n == 'Range':
        lo, hi = r.f[0], r.f[1]
    elif n == 'RangeFrom':
        lo, hi = r.f[0], s.n
    elif n == 'RangeTo':
        lo, hi = 0, r.f[0]
    elif n == 'RangeInclusive':
        lo, hi = r.f[0], add(r.f[1], 1)
    elif n == 'RangeToInclusive':
        lo, hi = 0, add(r.f[0], 1)
    else:
        raise Unsupported('index by %s' % n)
    if not E.need(st, E.mk_le(lo, hi)) or not E.need(st, E.mk_le(hi, s.n)):
        return None
    return SRef(s.ptr, st.facts.norm(add(s.lo, lo)), st.facts.norm(sub(hi, lo)))


def note(E, st, ok):
    fr = st.frames[-1]
    e = E.sites.setdefault((fr.body.inst, fr.bb), [0, 0])
    e[0 if ok else 1] += 1


def index(E, st, c, a, dty):
    s = sref(E, st, a[0])
    i = a[1]
    if isinstance(i, Agg):
        r = sub_slice(E, st, s, i)
        note(E, st, r is not None)
        if r is None:
            raise Panic('slice range out of bounds')
        return r
    ok = E.need(st, E.cmp(st, 'Lt', i, s.n, (64, False)))
    note(E, st, ok)
    if not ok:
        raise Panic('index out of bounds')
    return elem_ptr(E, st, s, i)


def index_sliceindex(E, st, c, a, dty):
    return index(E, st, c, [a[1], a[0]], dty)


def get_sliceindex(E, st, c, a, dty):
    return get(E, st, c, [a[1], a[0]], dty)


def get(E, st, c, a, dty):
    s = sref(E, st, a[0])
    i = a[1]
    if isinstance(i, Agg):
        r = sub_slice(E, st, s, i)
        return none(dty) if r is None else some(E, dty, r)
    if E.need(st, E.cmp(st, 'Lt', i, s.n, (64, False))):
        return some(E, dty, elem_ptr(E, st, s, i))
    return none(dty)


def from_ref(E, st, c, a, dty):
    p = E.deref(st, a[0])
    # a one-element view of a place
    v = E.read(st, p.cell, p.path)
    cell = ('heap', 'from_ref', p)
    st.mem[cell] = Seq((('e', v),))
    return SRef(Ptr(cell), 0, 1)


def mat(E, st, v, d=0):
    """A value with references replaced by what they point to, for comparisons."""
    if isinstance(v, (Ptr, SRef)) and d < 4:
        if isinstance(v, SRef):
            return mat_seq(E, st, seq_val(E, st, v), d + 1)
        return mat(E, st, E.read(st, v.cell, v.path), d + 1)
    if isinstance(v, Sym) and v.ty is not None and E.ty(v.ty)['k'] == 'ref' and d < 4:
        return mat(E, st, E.deref(st, v), d)
    if isinstance(v, VecV):
        return mat_seq(E, st, v.seq, d + 1)
    if isinstance(v, Seq):
        return mat_seq(E, st, v, d + 1)
    if isinstance(v, Sym) and v.ty is not None and (E.p.is_vec(v.ty) or E.p.is_string(v.ty)):
        return mat_seq(E, st, E.as_seq(v), d + 1)
    if isinstance(v, Agg) and v.ty is not None and E.p.is_string(v.ty):
        return mat_seq(E, st, E.as_seq(v), d + 1)
    return v


def mat_seq(E, st, q, d):
    q = E.seq_norm(st, q)
    return Seq(tuple(('e', mat(E, st, p[1], d)) if p[0] == 'e' else p for p in q.parts))


def eq_values(E, st, a, b):
    """Boolean term for structural equality of two fully dereferenced values."""
    a, b = mat(E, st, a), mat(E, st, b)
    if a is b:
        return 1
    if isinstance(a, Seq) or isinstance(b, Seq):
        a, b = E.as_seq(a), E.as_seq(b)
        la, lb = E.seq_len(st, a), E.seq_len(st, b)
        if not E.need(st, E.mk_eq(la, lb)):
            return 0
        a, b = mat_seq(E, st, a, 0), mat_seq(E, st, b, 0)
        if a is b:
            return 1
        n = st.facts.norm(la)
        top = st.facts.bounds(n)[1]
        if not isinstance(n, int) and top is not None and top <= 2:
            n = next(k for k in range(top + 1) if k == top or E.need(st, E.mk_le(n, k)))
        if isinstance(n, int) and n <= 8:
            for i in range(n):
                r = eq_values(E, st, E.seq_get(st, a, i), E.seq_get(st, b, i))
                if not E.need(st, r):
                    return 0
            return 1
        x, y = sorted((a, b), key=lambda z: z.uid)
        return T('seqeq', x, y)
    if isinstance(a, SCALAR) and isinstance(b, SCALAR):
        ty = a.ty if isinstance(a, Sym) else b.ty if isinstance(b, Sym) else None
        if ty is not None and E.ty(ty)['k'] == 'enum':
            return E.eq_scalar(st, E.discr(st, a, ty), E.discr(st, b, ty)) if fieldless(E, ty) else T('eqv', *sorted((a, b), key=lambda z: z.uid))
        if ty is not None and E.ty(ty)['k'] not in ('uint', 'int', 'bool', 'char'):
            return T('eqv', *sorted((a, b), key=lambda z: getattr(z, 'uid', -1)))
        return E.eq_scalar(st, a, b, E.p.int_info(ty) if ty is not None else None)
    if isinstance(a, Agg) or isinstance(b, Agg):
        ty = a.ty if isinstance(a, Agg) else b.ty
        if ty is not None and E.ty(ty)['k'] == 'enum':
            va, vb = E.discr(st, a, ty), E.discr(st, b, ty)
            r = E.eq_scalar(st, va, vb) if not (isinstance(va, int) and isinstance(vb, int)) else int(va == vb)
            if not E.need(st, r):
                return 0
            k = a.var if isinstance(a, Agg) else b.var
            fa = a if isinstance(a, Agg) else E.expand(a, k)
            fb = b if isinstance(b, Agg) else E.expand(b, k)
        else:
            fa = a if isinstance(a, Agg) else E.expand(a)
            fb = b if isinstance(b, Agg) else E.expand(b)
        for x, y in zip(fa.f, fb.f):
            if not E.need(st, eq_values(E, st, x, y)):
                return 0
        return 1
    return T('eqv', *sorted((a, b), key=lambda z: getattr(z, 'uid', -1)))


def fieldless(E, ty):
    return all(not v['fields'] for v in E.ty(ty)['variants'])


def seq_eq(E, st, c, a, dty):
    if len(c['args']) >= 2 and isinstance(c['args'][0], int) and isinstance(c['args'][1], int):
        # element types that compare across types do so by code of their own
        t, u = (E.elem_ty(x) if E.ty(x)['k'] in ('array', 'slice') else x for x in c['args'][:2])
        if t != u:
            return None
    x = seq_val(E, st, sref(E, st, a[0]))
    y = seq_val(E, st, sref(E, st, a[1]))
    return eq_values(E, st, x, y)


def seq_ne(E, st, c, a, dty):
    r = seq_eq(E, st, c, a, dty)
    return None if r is None else Not(r)


def str_eq(E, st, c, a, dty):
    return eq_values(E, st, a[0], a[1])


def str_ne(E, st, c, a, dty):
    return Not(eq_values(E, st, a[0], a[1]))


def text_eq(E, st, c, a, dty):
    return eq_values(E, st, str_seq(E, st, a[0]), str_seq(E, st, a[1]))


def text_ne(E, st, c, a, dty):
    return Not(text_eq(E, st, c, a, dty))


# ---------------------------------------------------------------- strings
def from_utf8(E, st, c, a, dty):
    """Valid bytes become the string with exactly these bytes; anything else is an error."""
    q = E.as_seq(a[0])
    ok = T('pred', 'utf8', q)
    if E.need(st, ok):
        ty = E.p.field_tys(dty, 0)[0]
        st.emit('utf8', q, True)
        return Agg(dty, 0, (Agg(ty, 0, (VecV(q),)),))
    st.emit('utf8', q, False)
    return Agg(dty, 1, (E.fresh(st, 'utf8err', E.p.field_tys(dty, 1)[0]),))


def from_utf8_lossy(E, st, c, a, dty):
    """Valid bytes are borrowed as they are, others become some other text."""
    q = str_seq(E, st, a[0])
    ok = T('pred', 'utf8', q)
    if E.need(st, ok):
        st.emit('utf8', q, True)
        return Agg(dty, 0, (a[0],))
    st.emit('utf8', q, False)
    return Agg(dty, 1, (E.fresh(st, 'replaced text', E.p.field_tys(dty, 1)[0]),))


def other_text(E, st, c, a, dty):
    """Some text that depends on the given one."""
    return E.fresh(st, 'text', dty)


def str_seq(E, st, v):
    """The bytes behind a reference to a string or str."""
    for _ in range(6):
        if isinstance(v, SRef):
            return seq_val(E, st, v)
        if isinstance(v, Ptr) or isinstance(v, Sym) and E.ty(v.ty)['k'] in ('ref', 'ptr'):
            p = E.deref(st, v)
            v = p if isinstance(p, SRef) else E.read(st, p.cell, p.path)
            continue
        return E.as_seq(v)
    raise Unsupported('string argument')


def to_string(E, st, c, a, dty):
    if not E.p.is_string(dty):
        return None
    return Agg(dty, 0, (VecV(str_seq(E, st, a[0])),))


def string_index(E, st, c, a, dty):
    """Part of a string; cutting a character in two panics."""
    s = sref_string(E, st, a[0])
    r = a[1]
    if E.ty(r.ty)['name'].split('::')[-1] == 'RangeFull':
        return s
    r = sub_slice(E, st, s, r)
    if r is None or not E.need(st, T('pred', 'boundary', seq_val(E, st, s), r.lo, r.n)):
        raise Panic('string index out of bounds')
    return r


def string_new(E, st, c, a, dty):
    return Agg(dty, 0, (VecV(Seq(())),))


def string_at(E, st, a):
    """Where the bytes of a string are kept, and the bytes."""
    p = E.deref(st, a)
    v = E.read(st, p.cell, p.path)
    if isinstance(v, Agg):
        p, v = Ptr(p.cell, p.path + (('f', 0),)), v.f[0]
    return p, E.as_seq(v)


def string_push_str(E, st, c, a, dty):
    x = str_seq(E, st, a[1])
    p, q = string_at(E, st, a[0])
    set_vec(E, st, p, Seq(q.parts + x.parts))
    return unit(E, dty)


def string_len(E, st, c, a, dty):
    return E.seq_len(st, str_seq(E, st, a[0]))


def string_is_empty(E, st, c, a, dty):
    return E.cmp(st, 'Eq', string_len(E, st, c, a, None), 0, (64, False))


def string_as_str(E, st, c, a, dty):
    return sref_string(E, st, a[0])


def sref_string(E, st, p):
    p = E.deref(st, p)
    if isinstance(p, SRef):
        return p
    v = E.read(st, p.cell, p.path)
    q = E.as_seq(v)
    path = p.path + ((('f', 0),) if isinstance(v, Agg) else ()) + ('buf',)
    return SRef(Ptr(p.cell, path), 0, E.seq_len(st, q))


# ---------------------------------------------------------------- misc
def panic(msg):
    def f(E, st, c, a, dty):
        raise Panic(msg)
    return f


def ident(E, st, c, a, dty):
    return a[0]


def size_of(E, st, c, a, dty):
    return E.size_of(c['args'][0])


def nop(E, st, c, a, dty):
    return unit(E, dty)


def write_through(E, st, c, a, dty):
    p = E.deref(st, a[0])
    E.write_ptr(st, p, a[1])
    return unit(E, dty)


def read_through(E, st, c, a, dty):
    p = E.deref(st, a[0])
    if isinstance(p, BPtr):
        return E.read_bytes(st, p, dty)
    return E.read(st, p.cell, p.path)


def ptr_cast(E, st, c, a, dty):
    p = a[0]
    if isinstance(p, Sym):
        p = E.deref(st, p)
    src = c['args'][0]
    dst = E.ty(dty)['to'] if 'to' in E.ty(dty) else None
    if isinstance(p, Ptr) and dst is not None:
        st_ = E.ty(src)
        if E.p.int_info(dst) == (8, False) and (E.p.int_info(src) not in (None, (8, False)) or st_['k'] == 'float'):
            return BPtr(p, 0, E.size_of(src))
        if st_['k'] == 'array' and E.p.int_info(st_['elem']) == (8, False) and E.p.int_info(dst) == (8, False):
            return Ptr(p.cell, p.path + (('i', 0),))
    return p


def ptr_offset(E, st, c, a, dty):
    return E.ptr_offset(st, a[0], a[1])


def mem_replace(E, st, c, a, dty):
    p = E.deref(st, a[0])
    old = E.read(st, p.cell, p.path)
    E.write_ptr(st, p, a[1])
    return old


def mem_take(E, st, c, a, dty):
    p = E.deref(st, a[0])
    old = E.read(st, p.cell, p.path)
    ty = c['args'][0]
    if E.p.is_vec(ty):
        new = VecV(Seq(()))
    elif E.ty(ty)['k'] == 'enum' and E.ty(ty)['name'].endswith('Option'):
        new = none(ty)
    elif E.p.int_info(ty):
        new = 0
    else:
        return None
    E.write_ptr(st, p, new)
    return old


def mem_swap(E, st, c, a, dty):
    p, q = E.deref(st, a[0]), E.deref(st, a[1])
    x, y = E.read(st, p.cell, p.path), E.read(st, q.cell, q.path)
    E.write_ptr(st, p, y)
    E.write_ptr(st, q, x)
    return unit(E, dty)


def intr_cttz(E, st, c, a, dty):
    n = E.p.int_info(c['args'][0])[0]
    x = a[0]
    if isinstance(x, int):
        return n if x == 0 else (x & -x).bit_length() - 1
    return T('ctz', n, x, rng=(0, n))


def intr_ctlz(E, st, c, a, dty):
    n = E.p.int_info(c['args'][0])[0]
    x = a[0]
    if isinstance(x, int):
        return n - (x & ((1 << n) - 1)).bit_length()
    return T('clz', n, x, rng=(0, n))


def intr_ctpop(E, st, c, a, dty):
    n = E.p.int_info(c['args'][0])[0]
    x = a[0]
    if isinstance(x, int):
        return bin(x & ((1 << n) - 1)).count('1')
    return T('popc', n, x, rng=(0, n))


def intr_discr(E, st, c, a, dty):
    p = E.deref(st, a[0])
    v = E.read(st, p.cell, p.path)
    return E.discr(st, v, c['args'][0])


def with_overflow(op):
    def f(E, st, c, a, dty):
        info = E.p.int_info(c['args'][0])
        return E.checked(st, op, a[0], a[1], info, dty)
    return f


def wrapping(op):
    def f(E, st, c, a, dty):
        info = E.p.int_info(dty)
        return E.arith(st, op, a[0], a[1], info)
    return f


def saturating(op):
    def f(E, st, c, a, dty):
        info = E.p.int_info(dty)
        lo, hi = E.type_rng(info)
        r = add(a[0], a[1]) if op == 'Add' else sub(a[0], a[1])
        if E.need(st, E.mk_lt(r, lo)):
            return lo
        if E.need(st, E.mk_lt(hi, r)):
            return hi
        return r
    return f


def checked_op(op):
    """checked_add and friends on primitive integers."""
    def f(E, st, c, a, dty):
        ity = E.p.field_tys(dty, 1)[0]
        info = E.p.int_info(ity)
        r = E.checked(st, op, a[0], a[1], info, None)
        if E.need(st, r.f[1]):
            return none(dty)
        return some(E, dty, r.f[0])
    return f


def bitview(E, st, c, a, dty):
    """to_bits / from_bits / to_le_bytes style conversions on a little-endian host."""
    v = a[0]
    fty = None
    if isinstance(v, Sym):
        fty = v.ty
    t = E.ty(dty)
    if t['k'] == 'array':
        b = E.to_bits(st, v, 8 * t['len'])
        if b is None:
            raise Unsupported('bytes of %r' % (v,))
        return Agg(dty, 0, tuple(E.from_bits(b[i * 8:i * 8 + 8], False) for i in range(t['len'])))
    ii = E.p.int_info(dty)
    n = ii[0] if ii else t['bits']
    b = E.to_bits(st, v, n)
    if b is None:
        raise Unsupported('bits of %r' % (v,))
    return E.from_bits(b, bool(ii and ii[1]))


def from_be(E, st, c, a, dty):
    t = E.ty(dty)
    ii = E.p.int_info(dty)
    n = ii[0] if ii else t['bits']
    b = E.to_bits(st, a[0], n)
    if b is None:
        raise Unsupported('bits')
    out = ()
    for i in range(n // 8 - 1, -1, -1):
        out += b[i * 8:i * 8 + 8]
    return E.from_bits(out, bool(ii and ii[1]))


NATIVES = {
    'std::vec::Vec::<T>::new': vec_new,
    'std::vec::Vec::<T, A>::new_in': vec_new,
    '<std::vec::Vec<T> as std::default::Default>::default': vec_new,
    'std::vec::Vec::<T>::with_capacity': vec_with_capacity,
    'std::vec::Vec::<T, A>::reserve': vec_reserve,
    'std::vec::Vec::<T, A>::reserve_exact': vec_reserve,
    'std::vec::Vec::<T, A>::push': vec_push,
    'std::vec::Vec::<T, A>::push_mut': vec_push,
    'std::vec::Vec::<T, A>::pop': vec_pop,
    'std::vec::Vec::<T, A>::len': vec_len,
    'std::vec::Vec::<T, A>::is_empty': vec_is_empty,
    'std::vec::Vec::<T, A>::truncate': vec_truncate,
    'std::vec::Vec::<T, A>::clear': vec_clear,
    'std::vec::Vec::<T, A>::dedup': vec_dedup,
    'std::vec::Vec::<T, A>::insert': vec_insert,
    'std::vec::Vec::<T, A>::insert_mut': vec_insert,
    'std::vec::Vec::<T, A>::remove': vec_remove,
    'std::vec::Vec::<T, A>::swap_remove': vec_swap_remove,
    'std::vec::Vec::<T, A>::split_off': vec_split_off,
    'std::vec::Vec::<T, A>::drain': vec_drain,
    "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next": vit_next,
    "<std::vec::Drain<'_, T, A> as std::iter::DoubleEndedIterator>::next_back": lambda E, st, c, a, d: vit_next(E, st, c, a, d, True),
    '<std::vec::Vec<T> as std::convert::From<[T; N]>>::from': array_to_vec,
    '<std::vec::Vec<T> as std::convert::From<&[T]>>::from': to_vec,
    'core::slice::<impl [T]>::swap': slice_swap,
    'core::slice::<impl [T]>::reverse': slice_reverse,
    'core::slice::<impl [T]>::split_first': slice_split_first(),
    'core::slice::<impl [T]>::split_first_mut': slice_split_first(),
    'core::slice::<impl [T]>::split_last': slice_split_first(True),
    'core::slice::<impl [T]>::split_last_mut': slice_split_first(True),
    'core::slice::<impl [T]>::split_at': slice_split_at(),
    'core::slice::<impl [T]>::split_at_mut': slice_split_at(),
    'core::slice::<impl [T]>::split_at_checked': slice_split_at(True),
    'core::slice::<impl [T]>::split_at_mut_checked': slice_split_at(True),
    'std::vec::Vec::<T, A>::as_slice': vec_deref,
    'std::vec::Vec::<T, A>::as_mut_slice': vec_deref,
    'std::vec::Vec::<T, A>::extend_from_slice': vec_extend_seq,
    'std::vec::Vec::<T, A>::append': vec_append,
    '<std::vec::Vec<T, A> as std::ops::Deref>::deref': vec_deref,
    '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut': vec_deref,
    '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref': vec_deref,
    '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow': vec_deref,
    '<std::vec::Vec<T, A> as std::ops::Index<I>>::index': index,
    '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut': index,
    '<std::vec::Vec<T, A> as std::clone::Clone>::clone': vec_clone,
    'std::slice::<impl [T]>::to_vec': to_vec,
    '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter': vec_into_iter,
    "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": slice_iter,
    "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": slice_iter,
    '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next': vit_next,
    '<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back': lambda E, st, c, a, d: vit_next(E, st, c, a, d, True),
    'std::boxed::box_new_uninit': box_new_uninit,
    'std::boxed::Box::<T>::new_uninit': box_new_uninit,
    'std::boxed::Box::<T>::new': box_new,
    'std::boxed::box_assume_init_into_vec_unsafe': box_into_vec,
    'std::slice::<impl [T]>::into_vec': box_into_vec,
    'core::slice::<impl [T]>::iter': slice_iter,
    'core::slice::<impl [T]>::iter_mut': slice_iter,
    "std::slice::Iter::<'a, T>::new": slice_iter,
    "std::slice::IterMut::<'a, T>::new": slice_iter,
    "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter": slice_iter,
    "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter": slice_iter,
    "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter": slice_iter,
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::next": iter_next,
    "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next": iter_next,
    "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back": iter_next_back,
    "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back": iter_next_back,
    "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len": iter_len,
    "<std::slice::Iter<'_, T> as std::clone::Clone>::clone": iter_clone,
    'core::slice::<impl [T]>::last': slice_last,
    'core::slice::<impl [T]>::last_mut': slice_last,
    'core::slice::<impl [T]>::first': slice_first,
    'core::slice::<impl [T]>::first_mut': slice_first,
    'core::slice::<impl [T]>::len': vec_len,
    'core::slice::<impl [T]>::is_empty': vec_is_empty,
    'core::slice::<impl [T]>::get': get,
    'core::slice::<impl [T]>::get_mut': get,
    'core::slice::index::<impl std::ops::Index<I> for [T]>::index': index,
    'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut': index,
    'std::array::<impl std::ops::Index<I> for [T; N]>::index': index,
    '<usize as std::slice::SliceIndex<[T]>>::index': index_sliceindex,
    '<usize as std::slice::SliceIndex<[T]>>::index_mut': index_sliceindex,
    '<usize as std::slice::SliceIndex<[T]>>::get': get_sliceindex,
    '<usize as std::slice::SliceIndex<[T]>>::get_mut': get_sliceindex,
    'std::slice::<impl [T]>::sort': vec_sort,
    'core::slice::<impl [T]>::sort_unstable': vec_sort,
    'std::slice::from_ref': from_ref,
    'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq': seq_eq,
    'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne': seq_ne,
    'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq': seq_eq,
    'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::ne': seq_ne,
    'std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq': seq_eq,
    'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq': seq_eq,
    'std::string::String::new': string_new,
    'std::string::String::with_capacity': lambda E, st, c, a, d: (st.emit('alloc', a[0], E.site(st)), string_new(E, st, c, a, d))[1],
    'std::string::String::push_str': string_push_str,
    'std::string::String::len': string_len,
    'std::string::String::is_empty': string_is_empty,
    'core::str::<impl str>::len': string_len,
    'core::str::<impl str>::is_empty': string_is_empty,
    'core::str::<impl str>::as_bytes': string_as_str,
    'std::string::String::as_bytes': string_as_str,
    'std::str::<impl std::borrow::ToOwned for str>::to_owned': to_string,
    'std::str::<impl str>::to_owned': to_string,
    '<std::string::String as std::convert::From<&str>>::from': to_string,
    '<std::string::String as std::clone::Clone>::clone': to_string,
    '<str as std::string::ToString>::to_string': to_string,
    '<str as std::string::SpecToString>::spec_to_string': to_string,
    '<std::string::String as std::string::SpecToString>::spec_to_string': to_string,
    '<std::string::String as std::string::ToString>::to_string': to_string,
    '<std::string::String as std::convert::AsRef<str>>::as_ref': string_as_str,
    '<std::string::String as std::ops::Index<I>>::index': string_index,
    '<std::string::String as std::cmp::PartialEq<&str>>::eq': text_eq,
    '<std::string::String as std::cmp::PartialEq<str>>::eq': text_eq,
    '<&str as std::cmp::PartialEq<std::string::String>>::eq': text_eq,
    '<str as std::cmp::PartialEq<std::string::String>>::eq': text_eq,
    '<std::string::String as std::cmp::PartialEq<&str>>::ne': text_ne,
    '<std::string::String as std::cmp::PartialEq<str>>::ne': text_ne,
    'verif_harness::model::prealloc': prealloc,
    'verif_harness::model::any_index': any_index,
    'parser::model::any_index': any_index,
    'verif_harness::model::arrange': arrange,
    'parser::model::arrange': arrange,
    '<std::string::String as std::cmp::Ord>::cmp': str_cmp,
    '<std::string::String as std::cmp::PartialOrd>::partial_cmp': str_partial_cmp,
    'core::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp': str_partial_cmp,
    'std::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp': str_partial_cmp,
    'core::str::traits::<impl std::cmp::Ord for str>::cmp': str_cmp,
    'std::str::traits::<impl std::cmp::Ord for str>::cmp': str_cmp,
    'parser::model::prealloc': prealloc,
    'std::string::String::from_utf8': from_utf8,
    'std::string::String::from_utf8_lossy': from_utf8_lossy,
    '<std::string::String as std::cmp::PartialEq>::eq': str_eq,
    '<std::string::String as std::cmp::PartialEq>::ne': str_ne,
    '<std::string::String as std::ops::Deref>::deref': string_as_str,
    'std::string::String::as_str': string_as_str,
    'core::str::traits::<impl std::cmp::PartialEq for str>::eq': str_eq,
    'std::ptr::mut_ptr::<impl *mut T>::cast': ptr_cast,
    'std::ptr::const_ptr::<impl *const T>::cast': ptr_cast,
    'std::ptr::mut_ptr::<impl *mut T>::offset': ptr_offset,
    'std::ptr::mut_ptr::<impl *mut T>::add': ptr_offset,
    'std::ptr::const_ptr::<impl *const T>::add': ptr_offset,
    'std::ptr::mut_ptr::<impl *mut T>::write_unaligned': write_through,
    'std::ptr::mut_ptr::<impl *mut T>::write': write_through,
    'std::ptr::write_unaligned': write_through,
    'std::ptr::write': write_through,
    'std::char::convert::<impl std::convert::From<u8> for char>::from': ident,
    'std::ptr::read': read_through,
    'std::ptr::read_unaligned': read_through,
    'std::mem::replace': mem_replace,
    'std::mem::take': mem_take,
    'std::mem::swap': mem_swap,
    'std::mem::drop': nop,
    'std::mem::size_of': size_of,
    'std::intrinsics::size_of_val': size_of,
    'intrinsic:size_of': size_of,
    'intrinsic:cttz': intr_cttz,
    'intrinsic:ctlz': intr_ctlz,
    'intrinsic:ctpop': intr_ctpop,
    'intrinsic:discriminant_value': intr_discr,
    'intrinsic:cold_path': nop,
    'intrinsic:black_box': ident,
    'intrinsic:likely': ident,
    'intrinsic:unlikely': ident,
    'intrinsic:add_with_overflow': with_overflow('Add'),
    'intrinsic:sub_with_overflow': with_overflow('Sub'),
    'intrinsic:mul_with_overflow': with_overflow('Mul'),
    'intrinsic:wrapping_add': wrapping('Add'),
    'intrinsic:wrapping_sub': wrapping('Sub'),
    'intrinsic:wrapping_mul': wrapping('Mul'),
    'intrinsic:saturating_add': saturating('Add'),
    'intrinsic:saturating_sub': saturating('Sub'),
    'std::option::unwrap_failed': panic('unwrap on None'),
    'std::option::expect_failed': panic('expect on None'),
    'std::result::unwrap_failed': panic('unwrap on Err'),
    'core::panicking::panic': panic('panic'),
    'core::panicking::panic_fmt': panic('panic'),
    'std::rt::panic_fmt': panic('panic'),
    'std::rt::begin_panic': panic('panic'),
    'core::panicking::panic_nounwind': panic('violated precondition of an unsafe operation'),
    'core::panicking::panic_nounwind_fmt': panic('violated precondition of an unsafe operation'),
    'core::panicking::unreachable_display': panic('unreachable code'),
    'core::panicking::assert_failed': panic('assertion failed'),
    'core::panicking::panic_explicit': panic('panic'),
    'core::slice::index::slice_index_fail': panic('slice range out of bounds'),
}
for _t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    _p = 'core::num::<impl %s>::' % _t
    for _o in ('Add', 'Sub', 'Mul'):
        NATIVES[_p + 'checked_' + _o.lower()] = checked_op(_o)
        NATIVES[_p + 'wrapping_' + _o.lower()] = wrapping(_o)
        NATIVES[_p + 'overflowing_' + _o.lower()] = with_overflow(_o)
    for _o in ('Add', 'Sub'):
        NATIVES[_p + 'saturating_' + _o.lower()] = saturating(_o)
    NATIVES[_p + 'from_le_bytes'] = bitview
    NATIVES[_p + 'from_ne_bytes'] = bitview
    NATIVES[_p + 'to_le_bytes'] = bitview
    NATIVES[_p + 'to_ne_bytes'] = bitview
    NATIVES[_p + 'from_be_bytes'] = from_be
    NATIVES[_p + 'swap_bytes'] = from_be
    NATIVES[_p + 'to_le'] = ident
    NATIVES[_p + 'from_le'] = ident
for _t in ('f32', 'f64'):
    for _p in ('core::f32::<impl %s>::', 'core::f64::<impl %s>::', 'std::f32::<impl %s>::', 'std::f64::<impl %s>::', 'core::num::<impl %s>::'):
        for _m in ('from_bits', 'to_bits', 'from_le_bytes', 'from_ne_bytes', 'to_le_bytes'):
            NATIVES[_p % _t + _m] = bitview
        NATIVES[_p % _t + 'from_be_bytes'] = from_be
for _p in ('verif_harness::model::', 'parser::model::'):
    NATIVES[_p + 'nth'] = model_nth
    NATIVES[_p + 'count'] = model_count
    NATIVES[_p + 'last'] = model_last
for _p in ('std::collections::HashSet::<T', 'std::collections::BTreeSet::<T'):
    for _a in ('>', ', S>', ', A>', ', S, A>'):
        for _m, _f in (('new', vec_new), ('with_capacity', vec_with_capacity), ('insert', set_insert), ('contains', set_contains), ('len', set_len), ('is_empty', vec_is_empty), ('clear', vec_clear)):
            NATIVES[_p + _a + '::' + _m] = _f
for _p in ('std::collections::HashMap::<K, V', 'std::collections::BTreeMap::<K, V'):
    for _a in ('>', ', S>', ', A>', ', S, A>'):
        for _m, _f in (('new', vec_new), ('with_capacity', vec_with_capacity), ('insert', map_insert), ('contains_key', set_contains), ('len', set_len), ('is_empty', vec_is_empty), ('clear', vec_clear)):
            NATIVES[_p + _a + '::' + _m] = _f
for _t in ('HashMap<K, V, S>', 'BTreeMap<K, V>', 'HashMap<K, V>', 'HashMap<K, V, S, A>', 'BTreeMap<K, V, A>'):
    NATIVES['<std::collections::%s as std::default::Default>::default' % _t] = vec_new
for _t in ('HashSet<T, S>', 'BTreeSet<T>', 'HashSet<T>', 'HashSet<T, S, A>'):
    NATIVES['<std::collections::%s as std::default::Default>::default' % _t] = vec_new
NATIVES['prefix'] = [(_p, panic('panic')) for _p in ('core::panicking::', 'std::panicking::', 'std::rt::panic', 'std::rt::begin_panic')]
for _m in ('trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'to_lowercase', 'to_uppercase',
           'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen', 'repeat'):
    for _p in ('core::str::<impl str>::', 'std::str::<impl str>::', 'alloc::str::<impl str>::'):
        NATIVES[_p + _m] = other_text


def precondition(E, st, c, a, dty):
    return None
