"""Checks of the decoder (C04 to C13)."""
import hooks
import modcheck
from dom import *
from oracle import *
from spec_binary import INTS, Spec
from world import LEAF, World


class Ctx:
    """The program and what was already analysed in this run."""

    def __init__(self):
        self.W = World()
        self.S = Spec(self.W)
        self._mod = None

    def module(self):
        if self._mod is None:
            self._mod = modcheck.ModuleCheck(self.W, self.S)
        return self._mod

    def paths(self, R, root, bound=None, group=None):
        """All paths of a root; counts them once per check."""
        if root not in self.W.p.roots:
            R.undecided(group or root, 'entry point %s does not compile any more' % root)
            return None, []
        E, out = self.W.run(root, bound)
        R.fns |= self_names(E)
        R.count('paths', len(out))
        R.count('loops_closed', len(E.loops))
        return E, out


def self_names(E):
    """Names of the analysed functions of the repository."""
    out = set()
    for i in E.fns:
        I = E.p.insts[i]
        if I and I['crate'] in ('whasm', 'parser'):
            out.add(I['def'])
    return out


def key(site, root):
    return '%s/%s' % (root, site[0] if site else '?')


def where(site):
    return '%s (%s)' % (site[1], site[0]) if site else None


def put(R, group, root, v, repeat=None):
    """Record a verdict of the comparison."""
    kind, msg, site = v
    if kind == 'ok':
        R.ok(group, root)
    elif kind == 'bad':
        R.violate(group, key(site, root), '%s: %s' % (root, msg), where(site))
    elif kind == 'panic':
        R.violate(group, key(site, root), '%s: panics (%s)' % (root, msg), where(site))
    elif kind == 'repeat' and repeat:
        R.ok(group + ' (covered loop state)')
    else:
        R.undecided(group, '%s: %s %s' % (root, msg or kind, where(site) or ''))


def against(C, R, root, spec, group, bound=None, only=None, repeat=None):
    """Every path of the root against its specification."""
    W = C.W
    if bound is None and root not in ('p_expr', 'p_instr'):
        t = W.result_ty(root)
        bound = lambda s: s != t and W.bound(s)
    E, out = C.paths(R, root, bound, group)
    for st in out:
        if only is not None and not only(st):
            continue
        for v in judge(E, st, spec):
            put(R, group, root, v, repeat and repeat(st))


def opcode(st):
    """Mask of the first byte of a path."""
    for e in st.events():
        if e[0] == 'byte':
            return st.facts.get_mask(e[1])
    return None


def c04(C, R):
    against(C, R, 'p_instr', C.S.instr, 'instruction')


def c05(C, R):
    blocks = 1 << 2 | 1 << 3 | 1 << 4 | 1 << 5 | 1 << 0xB
    against(C, R, 'p_instr', C.S.instr, 'block', only=lambda st: opcode(st) is None or opcode(st) & blocks)
    against(C, R, 'p_expr', C.S.expr, 'expression')
    against(C, R, 'p_const_expr', C.S.constexpr, 'expression')
    against(C, R, 'p_func', C.S.code, 'function body')


def c06(C, R):
    sized(C, R)
    against(C, R, 'p_consume', lambda c: (C.S.rest(c), ANY)[1], 'skipping', bound=lambda s: s in LEAF)
    M = C.module()
    R.fns |= self_names(M.E)
    n = 0
    for g, kind, msg, site in M.res:
        if g == 'size prefix' and kind == 'bad':
            R.violate(g, key(site, 'p_module'), msg, where(site))
        elif g in ('sections',) and kind == 'ok':
            n += 1
        elif g in ('sections', 'module') and kind == 'und':
            R.undecided('sections', msg)
    R.ok('sections and bodies are read through a size prefix', n=n)


def sized(C, R):
    """The region adapter under the most general consumer, with ghost counters of bytes read and given."""
    W = C.W
    if 'p_sized' not in W.p.roots:
        R.undecided('region', 'entry point p_sized does not compile any more')
        return
    E, out = W.run('p_sized', lambda t: t in LEAF, extra=[hooks.client], ghost=('read', 'eof', 'given'))
    R.fns |= self_names(E)
    R.count('paths', len(out))
    good = 0
    site = ('p_sized', 'size-prefixed region')

    def bad(msg, s=None):
        R.violate('region', key(s or site, 'p_sized'), msg, where(s or site))

    def eq(F, a, b):
        return F.decide(E.mk_eq(a, b)) is True
    for st in out:
        if st.done[0] == 'panic':
            bad('panics (%s)' % st.done[1], st.done[2])
            continue
        if st.done[0] != 'ret':
            R.undecided('region', '%s %s' % (st.done[0], where(st.done[-1])))
            continue
        try:
            kind, val = ret_of(E, st)
        except Undecided as u:
            R.undecided('region', u.msg)
            continue
        evs = [e for e in st.events() if e[0] not in NOISE]
        F = st.facts
        if not evs or evs[0][0] not in ('parse', 'fail') or evs[0][1] != 'u32':
            R.undecided('region', 'does not start with a 32-bit size')
            continue
        if evs[0][0] == 'fail':
            if kind == 'ok':
                bad('succeeds although the size could not be decoded')
            else:
                R.ok('region: failure of the size')
            continue
        n = evs[0][2]
        read, eof, given = (st.mem[('ghost', k)] for k in ('read', 'eof', 'given'))
        flow = []
        for e in evs[1:]:
            if e[0] == 'loop':
                for c in e[1].conts:
                    flow.append(([x for x in c['events'] if x[0] not in NOISE], c['facts'], c['head']))
        flow.append((evs[1:], F, None))
        for es, G, head in flow:
            m = follow(E, R, es, G, head, n, st)
            if m == 'und':
                R.undecided('region', 'bytes are buffered between source and content')
            elif m:
                bad(m)
            else:
                R.ok('region: bytes passed through')
        failed = any(e[0] in ('clienterr', 'fail') for e in evs)
        if failed:
            if kind == 'ok':
                bad('succeeds although the content failed to decode')
            else:
                R.ok('region: failure of the content')
        elif kind == 'ok':
            if not eq(F, given, n):
                bad('succeeds when the content did not use exactly the declared size')
            elif not eq(F, read, n):
                bad('leaves the input at another place than the end of the region')
            else:
                good += 1
                R.ok('region: success consumes exactly the size')
        else:
            if F.decide(E.mk_eq(given, n)) is False:
                R.ok('region: failure means another number of bytes')
            else:
                bad('fails although the content used exactly the declared size')
    if not good and not any(u.startswith('region') for u in R.und):
        bad('never succeeds')


def follow(E, R, es, F, head, n, st):
    """Each byte read is given to the content at once; it sees the end only at the end of region or input."""
    pend = None
    ended = False
    for e in es:
        if e[0] == 'byte':
            if pend is not None:
                return 'und'
            pend = e[1]
        elif e[0] == 'eof':
            ended = True
        elif e[0] == 'got':
            v = e[1]
            if not isinstance(v, Agg):
                return 'und'
            if v.var == 1:
                if pend is None:
                    return 'gives the content a byte that was not read'
                if v.f[0] is not pend and F.decide(E.mk_eq(v.f[0], pend)) is not True:
                    return 'gives the content another byte than the one read'
                pend = None
            else:
                if pend is not None:
                    return 'drops a byte of the region'
                if not ended:
                    s = head or st
                    g, x = s.mem[('ghost', 'given')], s.mem[('ghost', 'eof')]
                    if not F.prove_le(F.norm(sub(n, add(g, x)))):
                        return 'ends the region early'
        elif e[0] in ('parse', 'fail'):
            return 'und'
    if pend is not None:
        return 'drops a byte of the region'
    return None


def fold_module(C, R, groups):
    M = C.module()
    R.fns |= self_names(M.E)
    R.count('paths', len(M.out))
    R.count('section_states', sum(len(v) for v in M.reach.values()))
    for g, kind, msg, site in M.res:
        if g not in groups:
            continue
        if kind == 'ok':
            R.ok(g)
        elif kind == 'bad':
            R.violate(g, key(site, 'p_module'), msg, where(site))
        else:
            R.undecided(g, '%s %s' % (msg, where(site) or ''))


def c07(C, R):
    fold_module(C, R, ('preamble', 'sections', 'content', 'size prefix', 'module'))
    custom(C, R)
    # the public entry decodes a module and nothing else
    t = C.W.result_ty('p_module')
    if 'entry_parse' in C.W.p.roots and t:
        E, out = C.W.run('entry_parse', lambda s: s == t, skip=0)
        for st in out:
            for v in judge(E, st, lambda c: C.S.atom(c, t)):
                put(R, 'entry point', 'entry_parse', v)


def custom(C, R):
    r = C.W.decodes_as(C.W.decodes['custom'][0], 'custom')
    if r is True:
        R.ok('custom section: name, then skipped')
    elif r is None:
        R.undecided('custom section', 'decoder not found')
    else:
        R.violate('custom section', 'custom', r, 'custom section')


def c08(C, R):
    fold_module(C, R, ('pairing', 'module'))


def c09(C, R):
    W, S = C.W, C.S
    a = [W.result_ty(r) for r in ('p_vec', 'p_compact_vec', 'p_unwrapping_vec')]
    el = [W.arg(t) if t else None for t in a]

    def leaf(s):
        return s in LEAF or s in el

    def at(t):
        return lambda c: S.atom(c, t)

    def unw(c):
        v = S.atom(c, el[2])
        return Adt(None, [c.E.expand(v).f[0]])

    against(C, R, 'p_vec', lambda c: S.vec(c, at(el[0]), None), 'vector', leaf)
    against(C, R, 'p_compact_vec', lambda c: Adt(None, [S.counted(c, S.int(c, 'u32'), lambda k: S.run(k, at(el[1])))]), 'local runs', leaf)
    against(C, R, 'p_unwrapping_vec', lambda c: Adt(None, [S.vec(c, unw, None)]), 'vector of wrapped elements', leaf)
    for i in range(9):
        against(C, R, 'p_arr%d' % i, lambda c, i=i: SeqX([('e', S.atom(c, el[0])) for _ in range(i)]), 'fixed vector', leaf)
    against(C, R, 'p_string', S.name, 'name')
    against(C, R, 'p_func', S.code, 'function locals')
    for kind, root in (('compact', 'u_compact_vec'), ('unwrapping', 'u_unwrapping_vec'), ('sized', 'u_sized')):
        unwrap(C, R, root)


def unwrap(C, R, root):
    """Unwrapping yields the stored value."""
    if root not in C.W.p.roots:
        R.undecided('unwrap', root)
        return
    E, out = C.W.run(root, lambda s: False)
    R.fns |= self_names(E)
    for st in out:
        if st.done[0] == 'ret':
            v = st.done[1]
            if isinstance(v, Sym) and isinstance(v.name, tuple) and v.name[0] == 'fld':
                R.ok('unwrap', root)
                continue
            R.violate('unwrap', root, 'unwrapping yields %s' % brief(v), root)
        else:
            R.undecided('unwrap', '%s %s' % (root, st.done))


def c10(C, R):
    for k, (bits, sg) in INTS.items():
        # a loop state met again is only a proof once every bit of the value has been placed
        def rep(st, bits=bits):
            return sum(1 for e in st.events() if e[0] == 'byte') >= (bits + 6) // 7 + 1
        against(C, R, 'p_' + k, lambda c, b=bits, s=sg: C.S.leb(c, b, s), k, bound=lambda s: False, repeat=rep)


def c11(C, R):
    for k in ('f32', 'f64'):
        against(C, R, 'p_' + k, lambda c, k=k: C.S.float(c, k), k, bound=lambda s: False)
    unsafe_use(C, R)


def unsafe_use(C, R):
    """Unsafe code: only in functions that serve the float decoders and nothing else."""
    W = C.W

    def fns(roots):
        out = set()
        for r in roots:
            if r in W.p.roots:
                E, _ = C.paths(R, r, lambda s: False)
                out |= E.fns
        return set((W.p.files[W.p.body(i).span[0]], W.p.body(i).span[1]) for i in out if W.p.insts[i] and W.p.insts[i].get('body'))
    mine = fns(('p_f32', 'p_f64')) - fns(('p_byte', 'p_u32', 'p_i64', 'p_string'))
    for u in W.lint['sites']:
        if u['what'] == 'mutable static':
            continue
        if any(f.endswith(rel(u['file'])) and l == u['fnline'] for f, l in mine) and u['what'] in ('unsafe block', 'unsafe function'):
            R.ok('unsafe code inside the float conversion', u['fn'])
        else:
            R.violate('unsafe', '%s in %s' % (u['what'], u['fn'] or rel(u['file'])), '%s outside of the float conversion' % u['what'], '%s:%d' % (rel(u['file']), u['line']))
    R.ok('functions without unsafe code', n=W.lint['bodies'])


def rel(f):
    i = f.find('whasm/src')
    return f[i:] if i >= 0 else f


def c12(C, R):
    S = C.S
    tab = [('p_byte', S.byte_el)]
    for k in 'type func table mem global local label'.split():
        tab.append(('p_idx_' + k, S.idx))
    tab += [('p_limits', S.limits), ('p_val', S.valtype), ('p_elem_ty', S.reftype), ('p_retval', S.blocktype),
            ('p_func_ty', S.functype), ('p_table_ty', S.tabletype), ('p_mem_ty', S.memtype), ('p_mut', S.mut),
            ('p_global_ty', S.globaltype), ('p_const_expr', S.constexpr), ('p_func', S.code), ('p_table', S.table), ('p_mem', S.mem),
            ('p_global', S.global_), ('p_elem', S.elem), ('p_data', S.data), ('p_start', S.start),
            ('p_import_desc', S.importdesc), ('p_export_desc', S.exportdesc), ('p_import', S.import_), ('p_export', S.export)]
    for r, sp in tab:
        against(C, R, r, sp, r[2:])


def all_events(evs, depth=0):
    """Events including those of the iterations of closed loops, with the iterations marked."""
    for e in evs:
        yield e, depth
        if e[0] == 'loop':
            lp = e[1]
            for c in lp.conts:
                yield from all_events(c['events'], depth + 1)
            if lp.kind == 'auto':
                for shp, nxt, st, h in lp.trans:
                    if nxt is not None:
                        yield from all_events(st.events(h.trace), depth + 1)


def c13(C, R):
    W = C.W
    for root in sorted(W.p.roots):
        if not root.startswith('p_'):
            continue
        t = W.result_ty(root)
        el = [W.arg(x) for x in (W.result_ty(r) for r in ('p_vec', 'p_compact_vec', 'p_unwrapping_vec')) if x]
        bound = None if root in ('p_expr', 'p_instr') else lambda s: s != t and (W.bound(s) or s in el)
        if root == 'p_sized':
            continue
        E, out = C.paths(R, root, bound)
        for st in out:
            if st.done[0] == 'unsup':
                R.undecided('propagation', '%s: %s' % (root, st.done[1]))
            if st.done[0] != 'ret':
                continue
            try:
                kind, val = ret_of(E, st)
            except Undecided:
                continue
            failed = None
            for e, depth in all_events(st.events()):
                if e[0] == 'fail':
                    failed = (e, depth)
                    if depth or kind != 'err':
                        break
                elif e[0] == 'eof' and root not in ('p_module', 'p_consume', 'p_sized_consume'):
                    failed = (e, depth)
                    if depth or kind != 'err':
                        break
            if failed is None:
                R.ok('nothing failed')
            elif kind == 'err' and not failed[1]:
                R.ok('failure of a constituent is passed on')
            elif kind is None:
                R.undecided('propagation', root)
            else:
                e = failed[0]
                R.violate('propagation', key(e[3] if e[0] == 'fail' else None, root),
                          '%s goes on after %s failed' % (root, short(e[1]) if e[0] == 'fail' else 'reading a byte'), where(e[3]) if e[0] == 'fail' else root)
    sized(C, R)
