"""Checks that look at the whole program: recursion (C03) and effects (C24)."""
import re

from dom import Agg, Sym
from graph import Graph, contained, cycles, parts_of
from report import Report

DECODE = ('entry_parse', 'p_module')
VALIDATE = ('entry_validate', 'v_module')


def graph(C):
    if getattr(C, '_g', None) is None:
        C._g = Graph(C.W.p)
    return C._g


def roots(C, names):
    return [C.W.p.roots[n] for n in names if n in C.W.p.roots]


def nest(p, t):
    """Types through which instructions contain instructions, and what directly wraps one of them."""
    if t is None:
        return set(), set()
    core = next((set(c) for c in cycles(contained(p, t), lambda x: parts_of(p, x)) if t in c), {t})
    wrap = {x for x in range(len(p.types)) if p.types[x]['k'] in ('struct', 'enum', 'tuple') and any(y in core for y in parts_of(p, x))}
    return core, core | wrap


def strip(p, t):
    """A type without references, slices, Option, Result and Box around it."""
    while True:
        x = p.types[t]
        if x['k'] in ('ref', 'ptr'):
            t = x['to']
        elif x['k'] in ('slice', 'array'):
            t = x['elem']
        elif x['k'] in ('struct', 'enum') and x['name'].split('::')[-1] in ('Option', 'Result', 'Box', 'Vec', 'Iter', 'IntoIter') and x['args'] and isinstance(x['args'][0], int):
            t = x['args'][0]
        else:
            return t


def c03(C, R):
    W, G = C.W, graph(C)
    p = W.p
    t = p.ty_named(W.instr)
    core, wrap = nest(p, t)

    def kind(i):
        """How a function works on nested instructions, if it does."""
        b = p.insts[i]['body']
        if not b or not G.ours(i):
            return None
        if 'PartialEq' in p.insts[i]['def'] and strip(p, b['locals'][1]) in core:
            return 'comparison'
        if strip(p, b['locals'][0]) in wrap:
            return 'decoding'
        if any(strip(p, x) in core for x in b['locals'][1:b['argc'] + 1]):
            return 'validation'
        return None
    def method(i):
        """Is it the decoder, validator or comparison of the instruction type itself?"""
        d = p.insts[i]['def']
        b = p.insts[i]['body']
        if not b:
            return False
        if d.endswith('::parse'):
            return 'WasmBinaryParse' in d and strip(p, b['locals'][0]) == t
        return d.endswith(('::validate', '::eq', '::ne')) and b['argc'] > 0 and p.types[b['locals'][1]].get('to') == t
    for what, names in (('decoding', DECODE), ('validation', VALIDATE), ('comparison', ('x_eq_module',))):
        rs = roots(C, names)
        if not rs:
            R.undecided('recursion', 'no entry point for ' + what)
            continue
        seen = G.reach(rs)
        ours = [i for i in seen if G.ours(i)]
        R.fns |= {p.insts[i]['def'] for i in ours}
        R.count('functions_reached', len(seen))
        R.count('call_edges', sum(len(G.callees(i)) for i in seen))

        def succ(i):
            return [j for j, d, sp in G.callees(i)]
        nested, others = set(), set()
        for comp in cycles(set(seen), succ):
            if not any(G.ours(i) for i in comp):
                continue        # bounded recursion inside std (sorting)
            nested |= {kind(i) for i in comp}
            others |= {i for c in cycles({i for i in comp if kind(i) and not method(i)}, succ) for i in c}
            for c in cycles({i for i in comp if kind(i) is None}, succ):
                fs = sorted({p.insts[i]['def'] for i in c if G.ours(i)})
                if fs:
                    R.violate('recursion', '%s %s' % (what, fs[0]), '%s recurses without a bound: %s' % (what, ' -> '.join(fs[:6])), '%s %s' % G.site(seen, c[0]))
        if others and what != 'comparison':
            repeated(C, R, what, others)
        for k in nested - {None}:
            R.violate('recursion', '%s of nested instructions' % k, 'call depth of %s grows with the nesting of blocks' % k, W.instr)
        R.ok('acyclic besides nesting of instructions', what, len(ours))
    # dropping and printing follow the structure of the values
    m = W.result_ty('p_module')
    mt = p.ty_named(m) if m else None
    if mt is None:
        R.undecided('recursion', 'type of modules')
        return
    ts = contained(p, mt)
    R.count('types', len(ts))
    deep = False
    for comp in cycles(ts, lambda x: parts_of(p, x)):
        if not any(p.types[x].get('local') for x in comp):
            continue
        free = {x for x in comp if x != t}
        deep |= len(free) < len(comp)
        for c in cycles(free, lambda x: parts_of(p, x)):
            ns = sorted(p.types[x]['s'] for x in c if p.types[x].get('local'))
            if ns:
                R.violate('recursion', 'values of ' + ns[0], 'values of %s nest without a bound, dropping or printing them recurses' % ', '.join(ns), ns[0])
    if deep:
        R.violate('recursion', 'drop and print of nested instructions', 'dropping and printing recurse over the nesting of blocks', W.instr)
    R.ok('types without unbounded nesting', m, len([x for x in ts if p.types[x].get('local')]))


BLOCKS = (0x02, 0x03, 0x04)


def opens_block(F, v):
    """Is it a byte that must be the opcode of a nested block?"""
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, int):
        return v in BLOCKS
    m = F.get_mask(v) if isinstance(v, Sym) else None
    return bool(m) and not m & ~sum(1 << b for b in BLOCKS)


def repeated(C, R, what, fs):
    """Recursion over instruction sequences on paths that do not enter a nested block."""
    import valid
    from valid_checks import vctx
    W = C.W
    p = W.p
    defs = {p.insts[i]['def'] for i in fs}
    fs = {i for i, I in enumerate(p.insts) if I and I['def'] in defs}
    runs = []
    if what == 'decoding':
        runs = [(r,) + W.run(r, watch=fs) for r in ('p_instr', 'p_expr') if r in p.roots]
    else:
        V = vctx(C)
        for r in ('v_expr', 'v_const_expr'):
            if r in p.roots:
                runs.append((r,) + valid.run(W, V.M, r, V.atoms, valid.sym_ctx, short=False, watch=fs)[:2])
    entered = set()
    for r, E, out in runs:
        entered |= E.fns
        for i, st in E.again:
            F = st.facts
            fr = next(f for f in st.frames if f.body.inst == i)
            nests = any(opens_block(F, st.mem.get((fr.fid, k))) for k in range(1, fr.body.argc + 1) if p.types[fr.body.locals[k]]['s'] == 'u8')
            for e in reversed(st.events()):
                if e == ('enter', i):
                    break
                nests |= e[0] == 'byte' and opens_block(F, e[1]) or e[0] == 'parse' and opens_block(F, e[2])
            if what == 'validation':
                t = p.ty_named(W.instr)
                ns = [v['name'] for v in p.types[t]['variants']]
                nests = any(getattr(s, 'ty', None) == t and ns[k] in ('Block', 'Loop', 'If') for s, k in F.var.items() if isinstance(k, int))
            d = p.insts[i]['def']
            if nests:
                R.ok('recursion only into nested blocks', d)
            else:
                R.violate('recursion', '%s of sequences %s' % (what, d), '%s calls itself again for instructions of the same block' % d, p.loc(p.insts[i]['body']['span']) if hasattr(p, 'loc') else d)
    for d in defs - {p.insts[i]['def'] for i in entered}:
        R.undecided('recursion', '%s: %s not reached' % (what, d))


EFFECT = (
    ('std::fs::', 'accesses the file system'), ('std::net::', 'accesses the network'), ('std::env::', 'reads the environment'),
    ('std::time::', 'reads the clock'), ('std::process::', 'controls processes'), ('std::io::', 'performs I/O'),
    ('std::thread::', 'uses threads or thread-local state'), ('std::os::', 'calls the operating system'), ('std::random::', 'reads random numbers'),
    ('std::sync::', 'uses shared state'), ('std::sys::', 'calls the operating system'),
)
HARMLESS = ('std::process::abort', 'std::thread::panicking', 'std::io::Error', 'std::sync::Arc', 'std::sync::Weak')
ORDER = ('hash_map::', 'hash_set::', 'hash::map::', 'hash::set::', 'HashMap::', 'HashSet::')
ITER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'retain', 'into_keys', 'into_values', 'next', 'into_iter', 'extract_if')
ADDRESS = ('std::ptr::eq', 'std::ptr::addr_eq', 'std::ptr::fn_addr_eq', 'std::ptr::hash', 'std::sync::Arc::<T, A>::ptr_eq', 'std::rc::Rc::<T, A>::ptr_eq')


def effect(d):
    """What calling a std function does to or learns from the outside."""
    if d is None or d.startswith(HARMLESS):
        return None
    for k, what in EFFECT:
        if d.startswith(k) or d.startswith('<' + k) or d.startswith('<&' + k) or ' as ' + k in d and not d.startswith('<'):
            return what
    if 'RandomState' in d:
        return 'reads random numbers'
    last = d.rsplit('::', 1)[-1]
    if any(o in d for o in ORDER) and last in ITER:
        return 'depends on the iteration order of a hash table'
    if d in ADDRESS or d.endswith('>::addr') and 'ptr' in d or d.endswith('::expose_provenance'):
        return 'depends on addresses'
    return None


def c24(C, R):
    W, G = C.W, graph(C)
    p = W.p
    rs = {n: i for n, i in p.roots.items() if n.startswith(('p_', 'v_', 'u_', 'entry_', 'x_eq'))}
    seen = G.reach(list(rs.values()))
    R.count('functions_reached', len(seen))
    R.fns |= {p.insts[i]['def'] for i in seen if G.ours(i)}
    for i in seen:
        I = p.insts[i]
        for j, d, sp in G.callees(i):
            if d is None or I['crate'] in STD:
                continue
            R.count('call_sites')
            w = effect(d) or effect(p.insts[j]['def'])
            if w:
                site = (I['def'], p.loc(sp))
                R.violate('effects', '%s %s' % (site[0], d), '%s: %s' % (' -> '.join(G.path(seen, i)), w), '%s %s' % site)
            else:
                R.ok('calls without effects')
        if not G.ours(i) or not I['body']:
            continue
        for st, t, sp in I['body']['blocks']:
            for s in st:
                if s[0] != '=':
                    continue
                r = s[2]
                if r[0] == 'tls':
                    R.violate('effects', '%s thread local' % I['def'], 'uses thread-local state', p.loc(s[3]))
                if r[0] == 'cast' and 'Expose' in r[1]:
                    R.violate('effects', '%s address' % I['def'], 'turns an address into a number', p.loc(s[3]))
                if r[0] == 'bin' and r[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and pointer(p, I, r[2]):
                    R.violate('effects', '%s address' % I['def'], 'compares addresses', p.loc(s[3]))
                R.ok('statements without effects')
    for s in W.lint['sites']:
        if s['what'] in ('mutable static', 'foreign functions', 'assembly'):
            R.violate('global state', '%s %s' % (s['fn'] or s['file'], s['what']), s['what'], '%s:%d' % (s['file'], s['line']))
    R.ok('no global state', 'crate whasm', W.lint['bodies'])
    # validation gets the module by shared reference; without interior mutability it cannot change it
    m = W.result_ty('p_module')
    mt = p.ty_named(m) if m else None
    if mt is None:
        R.undecided('immutability', 'type of modules')
    else:
        for x in contained(p, mt):
            if p.types[x].get('name') in ('std::cell::UnsafeCell', 'core::cell::UnsafeCell'):
                R.violate('immutability', 'interior mutability', 'a module contains a cell that can change behind a shared reference', m)
            else:
                R.ok('types without interior mutability')
    for n in sorted(p.roots):
        if n.startswith('v_') or n == 'entry_validate':
            b = p.insts[p.roots[n]]['body']
            a = p.types[b['locals'][1]]
            if a['k'] == 'ref' and not a['mut']:
                R.ok('validated by shared reference', n)
            else:
                R.violate('immutability', n, 'validation can change what it validates', n)
    forward(C, R)


STD = ('core', 'alloc', 'std', 'hashbrown', 'verif_harness')
AHEAD = re.compile(r'beyond|reads more|past the end|already taken')


def forward(C, R):
    """No decoder takes a byte that the grammar does not give it."""
    import parse_checks as P
    S = Report(R.prop, '')
    for f in (P.c04, P.c05, P.c06, P.c07, P.c09, P.c10, P.c11, P.c12):
        f(C, S)
    for k, (what, where) in S.viol.items():
        if AHEAD.search(what):
            R.violate('forward reading', k, what, where)
    R.ok('reads no byte too many', 'decoders', sum(S.done.values()))
    for u in S.und:
        R.undecided('forward reading', u)


def pointer(p, I, o):
    if o[0] not in ('copy', 'move') or len(o[1]) != 1:
        return False
    return p.types[I['body']['locals'][o[1][0]]]['k'] == 'ptr'
