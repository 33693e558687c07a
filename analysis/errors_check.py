"""Which error a failing decoder returns (C25)."""
import natives
from dom import *
from modcheck import PREAMBLE
from oracle import *
from parse_checks import key, self_names, where
from safety import decoder_runs
from spec_binary import INTS

ANYERR = object()


def variant(E, F, v):
    """Name and fields of an error value; None if it is not known which one it is."""
    t = E.ty(v.ty)
    if t['k'] != 'enum':
        return None, ()
    k = v.var if isinstance(v, Agg) else F.variant(v)
    if k is None:
        return None, ()
    return t['variants'][k]['name'], (v.f if isinstance(v, Agg) else E.expand(v, k).f)


def mismatch(F, bytes_):
    """Position of a preamble byte that certainly differs; the magic number counts first."""
    for b, want in zip(bytes_, PREAMBLE):
        if not F.get_mask(b) & 1 << want:
            return bytes_.index(b)
    return None


def expected(C, E, root, st):
    """(name, number the error has to carry or None), the constituent's error, or None if not prescribed."""
    W = C.W
    F = st.facts
    byte = W.result_ty('p_byte')
    evs = [e for e in st.events() if e[0] not in NOISE or e[0] == 'utf8']
    last = evs[-1] if evs else None
    while last and last[0] in ('loop', 'index', 'choose'):
        evs = evs[:-1]
        last = evs[-1] if evs else None
    if last is None:
        raise Undecided('fails without having read anything')
    k = last[0]
    if k in ('fail', 'clienterr'):
        return last[2] if k == 'fail' else last[1]
    if root.startswith('p_sized'):
        return 'SizeMissmatch', None
    if k == 'utf8':
        return 'InvalidUtf8Encoding', None
    if root == 'p_module':
        front = [e[1] for e in evs if e[0] == 'byte'][:8]
        looped = any(e[0] == 'loop' for e in st.events())
        if not looped:
            n = mismatch(F, front)
            if k == 'eof' and n is None:
                return 'UnexpectedEndOfFile', None
            if n is None:
                raise Undecided('the preamble')
            return ('InvalidPreambleMagic', 'InvalidPreambleVersion')[n >= 4], None
        if k == 'byte':
            m = F.get_mask(last[1])
            if not m & (1 << 12) - 1:
                return 'InvalidSectionId', last[1]
            if m >> 12:
                raise Undecided('a section id that may or may not exist')
            return 'UnexpectedSectionId', last[1]
        # declarations without bodies, or the reverse: no particular error is prescribed
        return ANYERR
    if k == 'eof':
        return 'UnexpectedEndOfFile', None
    if root[2:] in INTS:
        return ('OutOfRangeUnsignedInteger', 'OutOfRangeSignedInteger')[root[2] == 'i'], None
    if k == 'byte':
        return 'InvalidVariantId', last[1]
    if k == 'parse':
        if last[1] == W.instr or last[1] == W.expr:
            return 'UnexpectedOpcode', None
        if last[1] == byte:
            return 'InvalidVariantId', last[2]
    raise Undecided('fails after %s' % (short(last[1]) if k == 'parse' else k))


def number(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


def c25(C, R):
    messages(C, R)
    for root, E, out in decoder_runs(C, R):
        if not root.startswith('p_') and root != 'custom section':
            continue
        R.fns |= self_names(E)
        R.count('paths', len(out))
        for st in out:
            if st.done[0] == 'unsup':
                R.undecided('errors', '%s: %s' % (root, st.done[1]))
            if st.done[0] != 'ret':
                continue
            try:
                kind, val = ret_of(E, st)
                if kind is None:
                    raise Undecided('success or failure is not known')
                if kind != 'err':
                    continue
                want = expected(C, E, root, st)
                name, fields = variant(E, st.facts, val)
                judge_error(C, R, E, st, root, want, val, name, fields)
            except Undecided as u:
                R.undecided('errors', '%s: %s' % (root, u.msg))


def judge_error(C, R, E, st, root, want, val, name, fields):
    F = st.facts
    site = None
    for e in st.events():
        if e[0] in ('parse', 'fail'):
            site = e[-1] if e[0] == 'fail' else e[4]
    site = site or (root, root)
    if want is ANYERR:
        R.ok('no particular error prescribed')
    elif not isinstance(want, tuple):
        if val == want:
            R.ok('error of a constituent')
        elif name is None:
            raise Undecided('the error of a constituent is replaced by one that is not known')
        else:
            R.violate('constituent', key(site, root), '%s reports %s instead of the error its constituent reported' % (root, name), where(site))
    else:
        if name is None or want[0] not in [x['name'] for x in E.ty(val.ty)['variants']]:
            raise Undecided('the error is not known where %s is expected' % want[0])
        if name != want[0]:
            R.violate('kind', key(site, root), '%s reports %s where %s is the reason' % (root, name, want[0]), where(site))
            return
        if want[1] is not None:
            ids = [number(f) for f in fields]
            ids = [f for f in ids if getattr(f, 'ty', None) is None or E.ty(f.ty)['k'] != 'ref']
            want_n = number(want[1])
            if not any(same_number(E, F, f, want_n) for f in ids[:1]):
                R.violate('id', key(site, root), '%s reports %s with another number than the byte read' % (root, name), where(site))
                return
        R.ok('error states the reason: ' + name)


def same_number(E, F, a, b):
    return a == b or F.decide(E.mk_eq(a, b)) is True



def printing(E, st, callee, args, dty):
    """Pieces of a message: templates, values shown, and their output."""
    d = callee['def']
    name = d.rsplit('::', 1)[-1]

    def plain(v):
        while isinstance(v, Ptr):
            v = E.read(st, v.cell, v.path)
        return natives.seq_val(E, st, v) if isinstance(v, SRef) else v
    if 'fmt::rt::Argument' in d and name.startswith('new_'):
        st.emit('shown', plain(args[0]))
        return [(st, T('shown', plain(args[0])))]
    if d.startswith("std::fmt::Arguments::<'a>::"):
        st.emit('text', plain(args[0]))
        return [(st, T('text', plain(args[0])))]
    if d in ("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'a>::write_str", 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_str'):
        if name == 'write_str':
            st.emit('text', plain(args[1]))
        return [(st, E.fresh(st, 'printed', dty))]
    return None


def messages(C, R):
    """Different reasons have different messages, and the number of the offending byte is part of them."""
    W = C.W
    if 'x_show_error' not in W.p.roots:
        R.undecided('messages', 'errors cannot be displayed')
        return
    E, out = W.run('x_show_error', extra=[printing])
    R.fns |= self_names(E)
    R.count('paths', len(out))
    arg = None
    seen = {}
    for st in out:
        if st.done[0] != 'ret':
            R.undecided('messages', '%s' % (st.done[1],))
            continue
        arg = E.deref(st, E.sym('arg1', W.p.body(W.p.roots['x_show_error']).locals[1]))
        v = plain_arg(E, st, arg)
        name, fields = variant(E, st.facts, v)
        if name is None:
            R.undecided('messages', 'one message for several errors')
            continue
        text = tuple(e[1] for e in st.events() if e[0] == 'text')
        shown = [e[1] for e in st.events() if e[0] == 'shown']
        other = seen.setdefault(text, name)
        if other != name:
            R.violate('message', 'message/%s' % max(name, other), 'the errors %s and %s have the same message' % (other, name), 'Display of Error')
            continue
        lost = [f for f in fields if E.ty(f.ty)['s'] != '&str' and not any(number(s) == number(f) for s in shown)]
        if lost:
            R.violate('message', 'message/%s/number' % name, 'the message of %s does not contain its number' % name, 'Display of Error')
            continue
        R.ok('message of its own')


def plain_arg(E, st, v):
    while isinstance(v, Ptr):
        v = E.read(st, v.cell, v.path)
    return v
