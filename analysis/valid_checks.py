"""Checks of the validator (C14 to C22, and its part of C13)."""
import spec_module
import spec_valid
import valid
from dom import *
from oracle import *
from parse_checks import all_events, key, put, self_names, where
from spec_valid import CONTROL, MARKERS, MEM, PLAIN, Mach

INDEXING = {'LocalGet', 'LocalSet', 'LocalTee', 'GlobalGet', 'GlobalSet', 'Br', 'BrIf', 'BrTable', 'Call', 'CallIndirect', 'MemSize', 'MemGrow'}
STACK = {'Drop', 'Select', 'LocalSet', 'LocalTee', 'I32Add', 'I64Add', 'F32Add', 'F64Add', 'I32Store', 'I64Store'}
SPACES = {'type': 'types', 'func': 'funcs', 'table': 'tables', 'mem': 'mems', 'global': 'globals', 'local': 'locals'}


class VCtx:
    """What was already analysed of the validator in this run."""

    def __init__(self, C):
        self.W = C.W
        self.M = valid.Model(C.W)
        self.names = [v['name'] for v in C.W.p.types[self.M.instr]['variants']]
        self._instr, self._mod = {}, None

    def atoms(self, t):
        return t in (self.W.expr, self.W.instr, self.M.const_expr)

    def runs(self, name):
        """Engine, paths and verdicts of one instruction, for every kind of context."""
        for body in ('outer', 'inner') if name == 'Return' else (None,):
            yield self.instr(name, body)

    def instr(self, name, body=None):
        if (name, body) not in self._instr:
            M = self.M
            k = self.names.index(name)
            box = []

            def self_val(E, s):
                box.append(E.expand(s, k))
                return box[-1]

            def ctx(E, M):
                box.append(valid.sym_ctx(E, M, body))
                return box[-1]
            E, out, args = valid.run(self.W, M, 'v_instr', self.atoms, ctx, self_val=self_val, unroll_first=True)
            ctx0, val = box
            spec = spec_valid.rule(name, M, val)
            self._instr[name, body] = E, out, [v for st in out for v in valid.vjudge(E, st, spec, (('*', args[1]), ()), ctx0)]
        return self._instr[name, body]

    def module(self):
        """Engine, paths and verdicts of the whole-module entry point."""
        if self._mod is None:
            E, out, args = valid.run(self.W, self.M, 'entry_validate', self.atoms, short=False)
            D = spec_module.Mod(self.W, self.M, E, E.load(out[0], ('*', args[0])))
            self._mod = E, out, [v for st in out for v in spec_module.judge_module(E, D, st)]
        return self._mod


def vctx(C):
    if getattr(C, '_v', None) is None:
        C._v = VCtx(C)
    return C._v


def instructions(C, R, names, group, only=None):
    V = vctx(C)
    for n in names:
        if n not in V.names:
            R.undecided(group, 'no instruction ' + n)
            continue
        R.count('instructions')
        for E, out, vs in V.runs(n):
            R.fns |= self_names(E)
            R.count('paths', len(out))
            for v in vs:
                if v[0] == 'bad' and only is not None and not only(v[1]):
                    continue
                put(R, group, n, v)


def c14(C, R):
    instructions(C, R, sorted(PLAIN), 'typing of plain instructions')


def c15(C, R):
    instructions(C, R, sorted(CONTROL), 'typing of control instructions')
    expression(C, R)


def c16(C, R):
    instructions(C, R, sorted(STACK), 'operands of plain instructions')
    instructions(C, R, sorted(CONTROL), 'operands of control instructions')
    module(C, R, 'C16')


def c17(C, R):
    indices(C, R)
    instructions(C, R, sorted(INDEXING), 'indices in instructions')
    instructions(C, R, sorted(MEM), 'memory of accesses', lambda msg: 'index out of range' in msg)
    module(C, R, 'C17')


def c18(C, R):
    module(C, R, 'C18')


def c19(C, R):
    module(C, R, 'C19')


def c20(C, R):
    const_expression(C, R)
    module(C, R, 'C20')


def c21(C, R):
    module(C, R, 'C21')


def c22(C, R):
    module(C, R, 'C22')


def run_root(C, R, root, types, group, **kw):
    V = vctx(C)
    if root not in C.W.p.roots:
        R.undecided(group, 'entry point %s does not compile any more' % root)
        return None
    box = []

    def ctx(E, M):
        box.append(valid.sym_ctx(E, M))
        return box[-1]
    E, out, args = valid.run(C.W, V.M, root, types, ctx, **kw)
    R.fns |= self_names(E)
    R.count('paths', len(out))
    return E, out, args, box[0] if box else None


def indices(C, R):
    """Each index type resolves in its own space."""
    V = vctx(C)
    for n in list(SPACES) + ['label']:
        r = run_root(C, R, 'v_idx_' + n, V.atoms, 'index resolution')
        if r is None:
            continue
        E, out, args, ctx0 = r
        cell = (('*', args[1]), ())
        found = []

        def spec(c):
            m = Mach(c, V.M, c.ctx0)
            i = E.read(c.view, ('*', args[0]), ())
            found[:] = [m.label(i) if n == 'label' else m.lookup(SPACES[n], i)]
            return m

        def check(c, m, val):
            if n == 'label':
                got = m.frame(m.target(val))
                for f in found[0]:
                    d = None if got[f] is found[0][f] else c.same(found[0][f], got[f])
                    if d:
                        return 'another label: ' + d
                return None
            got = m.target(val)
            d = None if got is found[0] else c.same(found[0], got)
            return 'another entry: ' + d if d else None
        for st in out:
            for v in valid.vjudge(E, st, spec, cell, ctx0, check=check):
                put(R, 'index resolution', 'v_idx_' + n, v)


def expression(C, R):
    """A sequence checks its instructions one after the other in the same context."""
    V = vctx(C)
    r = run_root(C, R, 'v_expr', V.atoms, 'instruction sequence', havoc=False)
    if r is None:
        return
    E, out, args, ctx0 = r

    def step(m, el):
        c = m.c
        e = c.next('the check of an instruction')
        if e[0] not in ('check', 'invalid'):
            raise Mismatch('%s instead of the check of an instruction' % e[0], c.last)
        c.last = e[6] if e[0] == 'check' else e[5]
        got = m.target(e[2])
        if got is not el and c.same(el, got):
            raise Mismatch('checks another instruction than the next one', c.last)
        d = m.differs(e[4])
        if d:
            raise Mismatch('checks an instruction with ' + d, c.last)
        if e[0] == 'invalid':
            raise Failed()

    def spec(c):
        q = k_types(E, V.M, c, E.read(c.view, ('*', args[0]), ()))
        return c.induct(q, step, V.M)
    for st in out:
        for v in valid.vjudge(E, st, spec, (('*', args[1]), ()), ctx0):
            put(R, 'instruction sequence', 'v_expr', v)


def k_types(E, M, c, v):
    return Mach.types(spec_module.k_mach(type('D', (), {'E': E, 'M': M}), c), v)


CONST = {'ConstI32': 'I32', 'ConstI64': 'I64', 'ConstF32': 'F32', 'ConstF64': 'F64'}


def const_expression(C, R):
    """A constant expression has only constants and reads of immutable globals."""
    V = vctx(C)
    r = run_root(C, R, 'v_const_expr', lambda t: t == C.W.expr, 'constant expression')
    if r is None:
        return
    E, out, args, ctx0 = r

    def step(m, el):
        c = m.c
        for n, t in CONST.items():
            if c.is_var(el, n):
                return m.push(t)
        if not c.is_var(el, 'GlobalGet'):
            raise Reject('not a constant instruction')
        k = V.names.index('GlobalGet')
        g = m.lookup('globals', (E.expand(el, k) if isinstance(el, Sym) else el).f[0])
        if not c.is_var(m.field(g, 'mt'), 'Const'):
            raise Reject('mutable global')
        m.push(m.field(g, 'val'))

    def spec(c):
        q = k_types(E, V.M, c, E.read(c.view, ('*', args[0]), ()))
        return c.induct(q, step, V.M)
    for st in out:
        for v in valid.vjudge(E, st, spec, (('*', args[1]), ()), ctx0):
            put(R, 'constant expression', 'v_const_expr', v)


def concerns(rule, msg):
    """Which properties a difference found by a module rule is about."""
    out = {'C21'}
    if rule == 'reported types':
        return {'C22'}
    if rule == 'invalid constituent' or 'constituent is invalid' in msg:
        return {'C13', 'C21'}
    if 'index out of range' in msg or msg.startswith('panics'):
        out |= {'C17'}
    if rule in ('function body',) or rule and rule.startswith(('initialiser', 'offset')):
        const = rule != 'function body'
        if any(' other %s:' % s in msg for s in ('types', 'funcs', 'tables', 'mems', 'globals')):
            return {'C18'} | ({'C20'} if const else set())
        out |= {'C19'}
        if const:
            out |= {'C20'}
        if 'operand' in msg or 'end of a block' in msg:
            out |= {'C16'}
    if rule is None:
        if '(funcs)' in msg:
            out |= {'C17', 'C19'}
        if any('(%s)' % s in msg for s in ('globals', 'elem', 'data')):
            out |= {'C17', 'C18', 'C19', 'C20'}
        if any('(%s)' % s in msg for s in ('exports', 'start', 'imports')):
            out |= {'C17', 'C18'}
    return out


RULES = {
    'C13': ('function body', 'initialiser', 'offset', 'invalid'),
    'C16': ('function body', 'initialiser', 'offset'),
    'C17': ('type of', 'table of', 'functions of', 'memory of', 'start', 'export'),
    'C18': ('function body', 'initialiser', 'offset'),
    'C19': ('function body', 'initialiser', 'offset', None),
    'C20': ('initialiser', 'offset', None),
    'C22': ('reported types',),
}


def module(C, R, prop):
    """The whole-module entry point against the module rules."""
    V = vctx(C)
    if 'entry_validate' not in C.W.p.roots:
        R.undecided('module', 'entry point does not compile any more')
        return
    E, out, vs = V.module()
    R.fns |= self_names(E)
    R.count('paths', len(out))
    R.count('loops_closed', len(E.loops))
    for rule, kind, msg, site in vs:
        group = rule or 'rejection is justified'
        if kind == 'panic':
            kind, msg = 'bad', 'panics (%s)' % msg
        if kind == 'bad':
            if prop in concerns(rule, msg):
                R.violate(group, key(site, 'module'), msg, where(site))
            continue
        if prop in RULES and not any(rule is None if r is None else rule and rule.startswith(r) for r in RULES[prop]):
            if kind == 'ok' or rule is not None:
                continue
        put(R, group, 'module', (kind, msg, site))


def failing(C, R):
    """Failure of any constituent fails the whole (validation part of C13)."""
    V = vctx(C)
    W = C.W
    for root in sorted(W.p.roots):
        if not root.startswith('v_'):
            continue
        r = run_root(C, R, root, lambda t: True, 'propagation', short=False)
        E, out = r[0], r[1]
        for st in out:
            if st.done[0] == 'unsup' and not st.done[1].startswith('cannot exclude a panic'):
                R.undecided('propagation', '%s: %s' % (root, st.done[1]))
            if st.done[0] != 'ret':
                continue
            try:
                kind, val = ret_of(E, st)
            except Undecided:
                continue
            bad = None
            for e, depth in all_events(st.events()):
                if e[0] == 'invalid':
                    bad = (e, depth)
                    if depth or kind != 'err':
                        break
            if bad is None:
                R.ok('nothing invalid')
            elif kind == 'err' and not bad[1]:
                R.ok('an invalid constituent is reported')
            elif kind is None:
                R.undecided('propagation', root)
            else:
                e = bad[0]
                R.violate('propagation', key(e[5], root), '%s goes on although %s is invalid' % (root, e[1]), where(e[5]))
    module(C, R, 'C13')
