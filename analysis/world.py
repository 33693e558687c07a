"""What the analysed program calls things: containers, leaf types, roots; and running of roots."""
import json
import re
import sys

sys.setrecursionlimit(200000)

import build
import hooks
from dom import *
from interp import Engine, Budget, Unsupported, State
from mir import Prog
from natives import NATIVES

LEAF = ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64')


def targs(s):
    """Outer name and arguments of a printed type."""
    i = s.find('<')
    if i < 0 or not s.endswith('>'):
        return s, []
    out, d, cur = [], 0, ''
    for ch in s[i + 1:-1]:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return s[:i], out


class World:
    def __init__(self, path=None, lost=()):
        if path is None:
            with build.Lock():
                path, lost = build.harness_dump()
        self.p = Prog(path)
        self.lost = list(lost)
        self.lint = json.load(open(path + '.lint'))
        self.names = {}
        for root, kind in (('p_vec', 'vec'), ('p_compact_vec', 'compact'), ('p_unwrapping_vec', 'unwrapping'), ('p_sized', 'sized')):
            t = self.result_ty(root)
            if t:
                self.names[targs(t)[0]] = kind
        self.string = self.result_ty('p_string') or 'std::string::String'
        self.instr = self.result_ty('p_instr')
        self.expr = self.result_ty('p_expr')
        self.consume = self.result_ty('p_consume')
        r = self.result_ty
        self.decodes = {
            'byte': [r('p_byte')], 'valtype': [r('p_val')], 'labelidx': [r('p_idx_label')], 'funcidx': [r('p_idx_func')],
            'typeidx': [r('p_idx_type')], 'functype': [r('p_func_ty')], 'import': [r('p_import')], 'table': [r('p_table')],
            'mem': [r('p_mem')], 'global': [r('p_global')], 'export': [r('p_export')], 'start': [r('p_start')],
            'elem': [r('p_elem')], 'data': [r('p_data')], 'code': [r('p_func')],
            'custom': ['(%s, %s)' % (self.string, self.consume)],
        }
        self._pay = {}
        self._cache = {}

    def result_ty(self, root):
        """T of a root returning Result<T>."""
        i = self.p.roots.get(root)
        if i is None:
            return None
        b = self.p.body(i)
        t = self.p.types[b.locals[0]]
        return self.p.ts(self.p.field_tys(b.locals[0], 0)[0]) if t['k'] == 'enum' else None

    def container(self, t):
        return self.names.get(targs(t)[0])

    def arg(self, t):
        return targs(t)[1][0]

    def payload(self, E, v, kind):
        """What unwrapping a container value yields."""
        k = self._pay.get(kind)
        if k is None:
            root = {'compact': 'u_compact_vec', 'unwrapping': 'u_unwrapping_vec', 'sized': 'u_sized'}[kind]
            i = self.p.roots.get(root)
            k = 0
            if i is not None:
                E2, out = self.run(root, lambda s: False)
                if len(out) == 1 and out[0].done[0] == 'ret':
                    r = out[0].done[1]
                    if isinstance(r, Sym) and isinstance(r.name, tuple) and r.name[0] == 'fld':
                        k = r.name[3]
            self._pay[kind] = k
        return E.expand(v).f[k]

    def bound(self, t):
        return t in LEAF or t in (self.string, self.instr, self.expr) or self.container(t) is not None

    def run(self, root, bound=None, extra=(), skip=1, ghost=(), **kw):
        """All abstract paths of a root."""
        inst = root if isinstance(root, int) else self.p.roots[root]
        E = Engine(self.p, dict(NATIVES), list(extra) + [hooks.src_next, hooks.ParseBoundary(bound or self.bound, skip)], **kw)
        b = self.p.body(inst)
        args = [E.sym('arg%d' % i, b.locals[i]) for i in range(1, b.argc + 1)]
        st = E.start(inst, args)
        for g in ghost:
            st.mem[('ghost', g)] = 0
        try:
            out = E.run(st)
        except Budget:
            s = State()
            s.done = ('unsup', 'analysis budget exceeded', None)
            out = [s]
        return E, out

    def parse_inst(self, t):
        """An instance of the decoder of a type, by printed name."""
        for i, I in enumerate(self.p.insts):
            if I and I.get('body') and 'WasmBinaryParse' in I['def'] and I['def'].endswith('>::parse') and 'Proxy' not in I['def']:
                r = self.p.body(i).locals[0]
                if self.p.types[r]['k'] == 'enum' and self.p.ts(self.p.field_tys(r, 0)[0]) == t:
                    return i
        return None

    def decodes_as(self, t, want):
        """Does another type decode the wanted construct? True, a difference, or None when unknown."""
        k = (t, want)
        if k not in self._cache:
            self._cache[k] = None       # while looking at it
            self._cache[k] = self._decodes_as(t, want)
        return self._cache[k]

    def _decodes_as(self, t, want):
        from oracle import judge
        from spec_binary import Spec
        inst = self.parse_inst(t)
        spec = Spec(self).named(want, self.p.types[self.p.body(inst).locals[0]] if inst is not None else None, self.p)
        if inst is None or spec is None:
            return None
        src = self.p.body(inst).locals[1]
        hook = hooks.AnySource(src)
        E, out = self.run(inst, lambda s: s != t and self.bound(s) or s == self.consume, extra=[hook], skip=0)
        vs = [v for st in out for v in judge(E, st, spec)]
        bad = [v[1] for v in vs if v[0] == 'bad']
        if bad:
            return bad[0]
        return None if any(v[0] in ('und', 'repeat') for v in vs) else True
