"""The command line tool (C23): all paths of main for every shape of a short argument list."""
import itertools

import build
import natives
from dom import *
from graph import Graph
from interp import Budget, Engine, State, Unsupported
from mir import Prog
from oracle import BUGS, why
from parse_checks import key, where

OPTIONS = ('-p', '--print')
LENGTH = 3
PARTIAL = ('Take', 'Skip', 'StepBy', 'Filter', 'FilterMap', 'SkipWhile', 'TakeWhile', 'MapWhile', 'Rev', 'Chain', 'Cycle')


def last(d):
    return d.rsplit('::', 1)[-1]


def text(ty, s):
    return Agg(ty, 0, (VecV(Seq(tuple(('e', b) for b in s.encode()))),))


class World:
    def __init__(self):
        with build.Lock():
            path = build.parser_dump()
        self.p = Prog(path)


class Outside:
    """The process environment: arguments, files, output, exit."""

    def __init__(self, E, args):
        self.E = E
        self.args = args        # values of type String

    def __call__(self, E, st, callee, a, dty):
        name = callee['def']
        I = E.p.insts[callee['inst']] if callee.get('inst') is not None else None
        d = I['def'] if I else name
        f = getattr(self, 'do_' + last(d), None)
        if f is not None:
            r = f(st, callee, d, name, a, dty)
            if r is not None:
                return r
        if d.startswith(('std::fs::', 'std::io::', '<std::fs::', '<std::io::')) and not (I and I['body']):
            raise Unsupported('call to ' + d)
        return None

    # ---- arguments
    def do_args(self, st, callee, d, name, a, dty):
        if d != 'std::env::args':
            return None
        cell = ('heap', 'args', st.nfid, st.nev)
        st.emit('intoiter')
        st.mem[cell] = VecV(Seq(tuple(('e', x) for x in self.args)))
        return [(st, SRef(Ptr(cell, ('buf',)), 0, len(self.args)))]

    def do_next(self, st, callee, d, name, a, dty):
        if d != '<std::env::Args as std::iter::Iterator>::next':
            return None
        return [(st, natives.vit_next(self.E, st, callee, a, dty))]

    def do_next_back(self, st, callee, d, name, a, dty):
        if d != '<std::env::Args as std::iter::DoubleEndedIterator>::next_back':
            return None
        return [(st, natives.vit_next(self.E, st, callee, a, dty, True))]

    def do_len(self, st, callee, d, name, a, dty):
        if d != '<std::env::Args as std::iter::ExactSizeIterator>::len':
            return None
        p = self.E.deref(st, a[0])
        return [(st, self.E.read(st, p.cell, p.path).n)]

    # ---- files
    def both(self, st, dty, good, bad):
        """Success and failure of something outside."""
        E = self.E
        ok = st.copy()
        r = [(ok, Agg(dty, 0, (good(ok, E.p.field_tys(dty, 0)[0]),)))]
        err = E.p.field_tys(dty, 1)[0]
        st.emit(*bad)
        return r + [(st, Agg(dty, 1, (E.fresh(st, 'io error', err),)))]

    def path_of(self, st, v):
        """The bytes of a file name."""
        for _ in range(8):
            if isinstance(v, Ptr) or isinstance(v, Sym) and self.E.ty(v.ty)['k'] == 'ref':
                p = self.E.deref(st, v)
                if isinstance(p, SRef):
                    v = p
                    continue
                v = self.E.read(st, p.cell, p.path)
            elif isinstance(v, SRef):
                return natives.seq_val(self.E, st, v)
            elif isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            else:
                break
        return self.E.as_seq(v)

    def do_open(self, st, callee, d, name, a, dty):
        if d != 'std::fs::File::open':
            return None
        q = self.path_of(st, a[0])

        def good(s, ty):
            f = self.E.fresh(s, 'file', ty)
            s.emit('open', q, f)
            return f
        return self.both(st, dty, good, ('failed', 'opening the file'))

    def do_read_to_end(self, st, callee, d, name, a, dty):
        E = self.E
        if 'std::io::Read' not in d + name:
            return None
        f = self.file(st, a[0])

        def good(s, ty):
            c = E.fresh(s, 'content', E.p.ty_named('std::vec::Vec<u8>'))
            p, q = natives.vec_at(E, s, a[1])
            natives.set_vec(E, s, p, Seq(q.parts + E.as_seq(c).parts))
            s.emit('part' if isinstance(f, T) else 'content', f, c)
            return E.seq_len(s, E.as_seq(c))
        return self.both(st, dty, good, ('failed', 'reading the file'))

    def file(self, st, v):
        while isinstance(v, Ptr):
            v = self.E.read(st, v.cell, v.path)
        return v

    def do_by_ref(self, st, callee, d, name, a, dty):
        return [(st, a[0])] if name == 'std::io::Read::by_ref' else None

    def do_take(self, st, callee, d, name, a, dty):
        return [(st, T('limited', self.file(st, a[0])))] if name == 'std::io::Read::take' else None

    def do_starts_with(self, st, callee, d, name, a, dty):
        try:
            x, y = natives.str_seq(self.E, st, a[0]), natives.str_seq(self.E, st, a[1])
        except Unsupported:
            return None
        if self.const(x) is not None and self.const(y) is not None:
            return [(st, int(self.const(x).startswith(self.const(y))))]
        return [(st, T('pred', 'starts', x, y))]

    def do_read(self, st, callee, d, name, a, dty):
        E = self.E
        if d == 'std::fs::read':
            q = self.path_of(st, a[0])

            def good(s, ty):
                f = E.fresh(s, 'file', E.u8)
                s.emit('open', q, f)
                c = E.fresh(s, 'content', ty)
                s.emit('content', f, c)
                return c
            return self.both(st, dty, good, ('failed', 'reading the file'))
        return None

    # ---- the library
    def do_parse(self, st, callee, d, name, a, dty):
        E = self.E
        if not name.endswith('WasmBinaryParse::parse') or not callee['args'] or not E.ty(callee['args'][0])['s'].endswith('structure::module::Module'):
            return None
        src = self.remaining(st, a[0])

        def good(s, ty):
            m = E.fresh(s, 'module', ty)
            s.emit('decoded', src, m)
            return m
        return self.both(st, dty, good, ('failed', 'decoding the module'))

    def remaining(self, st, v):
        """What an iterator over a buffer still has to yield."""
        E = self.E
        found = []

        def walk(v, d=0):
            if d > 12:
                return
            if isinstance(v, Ptr):
                walk(E.read(st, v.cell, v.path), d + 1)
            elif isinstance(v, SRef):
                found.append(natives.seq_val(E, st, v))
            elif isinstance(v, T):
                for x in v.args:
                    walk(x, d + 1)
            elif isinstance(v, Agg):
                n = E.ty(v.ty).get('name', '').split('::')[-1]
                if n in PARTIAL:
                    part.append(n)
                for x in v.f:
                    walk(x, d + 1)
        part = []
        walk(v)
        if part:
            return T('part', *part)
        if len(found) != 1:
            raise Unsupported('source of the decoder')
        return E.seq_norm(st, found[0])

    def do_validate(self, st, callee, d, name, a, dty):
        if 'ValidationEntry' not in name and 'ValidationEntry' not in d:
            return None
        p = self.E.deref(st, a[0])
        m = self.E.read(st, p.cell, p.path)

        def good(s, ty):
            s.emit('valid', m)
            return self.E.fresh(s, 'types', ty)
        return self.both(st, dty, good, ('failed', 'validating the module'))

    # ---- output
    def argument(self, st, callee, d, name, a, dty):
        if 'fmt::rt::Argument' not in d:
            return None
        v = a[0]
        while isinstance(v, Ptr):
            v = self.E.read(st, v.cell, v.path)
        return [(st, T('shown', last(d), v))]

    do_new_debug = do_new_display = argument

    def fmt_new(self, st, callee, d, name, a, dty):
        if d.startswith('std::io::BufReader') and len(a) == 1:
            return [(st, self.file(st, a[0]))]
        if not d.startswith("std::fmt::Arguments::<'a>::"):
            return None
        xs = []
        for v in a:
            while isinstance(v, Ptr):
                v = self.E.read(st, v.cell, v.path)
            if isinstance(v, SRef):
                v = natives.seq_val(self.E, st, v)
            xs.append(v)
        return [(st, T('text', *xs))]

    do_new = do_from_str = do_new_const = do_new_v1 = do_from_str_nonconst = fmt_new

    def out(self, st, callee, d, name, a, dty):
        if d not in ('std::io::_print', 'std::io::_eprint'):
            return None
        st.emit('output', a[0], self.E.site(st))
        return [(st, natives.unit(self.E, dty))]

    do__print = do__eprint = out

    def do_exit(self, st, callee, d, name, a, dty):
        if d != 'std::process::exit':
            return None
        st.done = ('exit', a[0], self.E.site(st))
        return [(st, None)]

    def do_eq(self, st, callee, d, name, a, dty, neg=False):
        """Comparison of an argument with a constant."""
        if not ('str' in d or 'String' in d):
            return None
        try:
            x, y = self.path_of(st, a[0]), self.path_of(st, a[1])
        except Unsupported:
            return None
        for u, v in ((x, y), (y, x)):
            k = self.symbolic(u)
            c = self.const(v)
            if k is not None and c is not None:
                r = T('pred', 'is', k, c)
                return [(st, Not(r) if neg else r)]
        x, y = self.const(x), self.const(y)
        if x is not None and y is not None:
            return [(st, int((x == y) != neg))]
        return None

    def do_ne(self, *a):
        return self.do_eq(*a, neg=True)

    def symbolic(self, q):
        if len(q.parts) == 1 and q.parts[0][0] == 's' and isinstance(q.parts[0][1], Sym) and q.parts[0][2] == 0:
            return q.parts[0][1]
        return None

    @staticmethod
    def const(q):
        if all(p[0] == 'e' and isinstance(p[1], int) for p in q.parts):
            return bytes(p[1] for p in q.parts)
        return None


ERRORS = ('std::error::', '<std::boxed::Box<dyn std::error::Error', 'std::boxed::convert::<impl std::convert::From<&\'a str> for std::boxed::Box<dyn std::error::Error',
          'std::io::Error', 'std::fmt::', 'std::string::ToString', 'std::fmt::format')


def opaque(E, st, callee, args, dty):
    """Error values and formatted text: nothing depends on them."""
    I = E.p.insts[callee['inst']] if callee.get('inst') is not None else None
    if last(callee['def']) == 'to_string' and callee['args'] and E.ty(callee['args'][0])['s'] in ('str', 'std::string::String'):
        return [(st, natives.to_string(E, st, callee, args, dty))]
    for d in (callee['def'], I['def'] if I else ''):
        if d.startswith(ERRORS) or 'dyn std::error::Error' in d or last(d) in ('to_string', 'format'):
            return [(st, E.fresh(st, 'text', dty))]
    t = E.ty(dty)['s'] if dty is not None else ''
    if 'dyn std::error::Error' in t and t.startswith('std::boxed::Box') and last(callee['def']) in ('from', 'into'):
        return [(st, E.fresh(st, 'error', dty))]
    return None


def run(W, shape):
    """All paths of main for one argument list; shape: option text or None for a file name."""
    p = W.p
    inst = p.roots['main']
    E = Engine(p, dict(natives.NATIVES), [], unroll_first=True)
    string = p.ty_named('std::string::String')
    args = [E.sym('program', string)]
    for i, s in enumerate(shape):
        args.append(E.sym('file%d' % i, string) if s is None else text(string, s))
    out = Outside(E, args)
    E.hooks = [out, opaque]
    st = E.start(inst, [])
    for x in args[1:]:
        if isinstance(x, Sym):
            for o in OPTIONS:
                st.facts.assume(T('pred', 'is', x, o.encode()), False)
    try:
        res = E.run(st)
    except Budget:
        s = State()
        s.done = ('unsup', 'analysis budget exceeded', None)
        res = [s]
    return E, res, args


def status(E, st):
    """Exit status of a finished path, None when unknown."""
    d = st.done
    if d[0] == 'panic':
        return 101
    v = d[1]
    if d[0] == 'exit':
        v = st.facts.norm(v)
        return v if isinstance(v, int) else None
    t = E.ty(E.p.body(E.p.roots['main']).locals[0])
    if t['k'] == 'tuple':
        return 0
    if isinstance(v, Agg) and t.get('name', '').endswith('Result'):
        if v.var:
            return 1
        v = v.f[0]
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Agg) and not v.f:
        return 0
    return v if isinstance(v, int) else None


def shows(v, m):
    if isinstance(v, T) and v.op == 'shown' and v.args[0] == 'new_debug' and v.args[1] is m:
        return True
    if isinstance(v, T):
        return any(shows(x, m) for x in v.args)
    if isinstance(v, Seq):
        return any(shows(x, m) for p in v.parts for x in p[1:])
    if isinstance(v, Agg):
        return any(shows(x, m) for x in v.f)
    return False


def judge(E, st, shape, args):
    """None when the path is as specified, else (rule, message)."""
    evs = list(st.events())
    code = status(E, st)
    if code is None:
        return 'und', 'exit status unknown'
    F = st.facts
    files = [x for x, s in zip(args[1:], shape) if s is None]
    empty = any(F.decide(T('pred', 'is', x, b'')) or F.decide(E.mk_eq(E.seq_len(st, E.as_seq(x)), 0)) for x in files)
    failed = [e[1] for e in evs if e[0] == 'failed']
    output = [(i, e[1]) for i, e in enumerate(evs) if e[0] == 'output']
    dec = [e for e in evs if e[0] == 'decoded']
    val = [(i, e[1]) for i, e in enumerate(evs) if e[0] == 'valid']
    shown = [i for i, v in output if any(shows(v, e[2]) for e in dec)]
    if code == 0:
        if failed:
            return 'exit status', 'succeeds although %s failed' % failed[0]
        opened = [e for e in evs if e[0] == 'open']
        if not opened:
            return 'exit status', 'succeeds without reading a file'
        if not any(o[1] == E.as_seq(x) for x in files for o in opened):
            return 'exit status', 'opens another file than the one named'
        content = [e for e in evs if e[0] == 'content' and any(e[1] is o[2] for o in opened)]
        if not content:
            return 'exit status', 'succeeds without reading the file completely'
        if not dec:
            return 'exit status', 'succeeds without decoding the file'
        if not any(d[1] == E.seq_norm(st, E.as_seq(c[2])) for d in dec for c in content):
            return 'exit status', 'decodes something else than the content of the file'
        if not val:
            return 'exit status', 'succeeds without validation'
        if not any(m is d[2] for _, m in val for d in dec):
            return 'exit status', 'validates another module than the decoded one'
        want = any(s is not None for s in shape)
        if want and not shown:
            return 'printing', 'does not print the module although asked to'
        if shown and not want:
            return 'printing', 'prints the module without being asked to'
        if shown and shown[0] < val[0][0]:
            return 'printing', 'prints the module before it is validated'
        return None
    if not failed and files and not empty:
        return 'exit status', 'fails although nothing failed'
    if shown:
        return 'printing', 'prints a module that is not valid'
    if st.done[0] == 'exit' and not output:
        return 'explanation', 'fails without an explanation'
    if st.done[0] == 'ret' and not output and not E.ty(E.p.body(E.p.roots['main']).locals[0]).get('name', '').endswith('Result'):
        return 'explanation', 'fails without an explanation'
    return None


WRITES = ('std::fs::write', 'std::fs::remove', 'std::fs::rename', 'std::fs::copy', 'std::fs::create', 'std::fs::hard_link', 'std::fs::set_permissions',
          'std::fs::OpenOptions', 'std::fs::File::create', 'std::fs::File::set_', 'std::fs::File::options', 'std::fs::DirBuilder', 'std::os::', 'std::process::Command',
          '<std::fs::File as std::io::Write>', '<&std::fs::File as std::io::Write>', 'std::fs::soft_link', 'std::net::', 'std::env::set_', 'std::env::remove_')


def c23(C, R):
    W = World()
    p = W.p
    if 'main' not in p.roots:
        R.undecided('tool', 'no main')
        return
    for n in range(LENGTH + 1):
        for shape in itertools.product((None,) + OPTIONS, repeat=n):
            E, res, args = run(W, shape)
            what = ' '.join(s or 'FILE' for s in shape) or 'no arguments'
            R.fns |= {p.insts[i]['def'] for i in E.fns if p.insts[i] and p.insts[i]['crate'] == 'parser' and '::model::' not in p.insts[i]['def']}
            R.count('argument_lists')
            R.count('paths', len(res))
            for st in res:
                if st.done[0] == 'unsup':
                    R.undecided('tool', '%s %s' % (st.done[1], where(st.done[2]) or ''))
                    continue
                if st.done[0] not in ('ret', 'exit', 'panic'):
                    R.undecided('tool', '%s' % (st.done[0],))
                    continue
                try:
                    v = judge(E, st, shape, args)
                except (Unsupported,) + BUGS as u:
                    v = ('und', why(u))
                site = st.done[2] if len(st.done) > 2 else ('parser::main', 'parser/src/main.rs')
                if v is None:
                    R.ok('paths of the tool', what)
                elif v[0] == 'und':
                    R.undecided('tool', '%s: %s' % (what, v[1]))
                else:
                    R.violate(v[0], '%s/%s' % (v[1], site[0]), 'with %s: %s' % (what, v[1]), where(site))
    G = Graph(p)
    seen = G.reach([p.roots['main']])
    for i in seen:
        if not G.ours(i):
            continue
        for j, d, sp in G.callees(i):
            names = [x for x in (d, p.insts[j]['def']) if x]
            if any(x.startswith(WRITES) for x in names):
                R.violate('modifies files', '%s %s' % (p.insts[i]['def'], names[0]), '%s can modify files' % names[0], p.loc(sp))
            else:
                R.ok('calls that modify no file')
