"""Absence of panics (C01) and of allocations that the input does not pay for (C02)."""
import hooks
import valid
from dom import *
from global_checks import graph, roots
from oracle import brief
from parse_checks import all_events, key, self_names, where
from valid_checks import vctx
from world import LEAF


def decoder_runs(C, R):
    """(name, engine, paths) of every decoder; constituents with an entry point of their own are atomic."""
    W = C.W
    el = [W.arg(x) for x in (W.result_ty(r) for r in ('p_vec', 'p_compact_vec', 'p_unwrapping_vec')) if x]
    for root in sorted(W.p.roots):
        if not root.startswith(('p_', 'u_')) or root == 'p_module':
            continue
        t = W.result_ty(root) if root[0] == 'p' else None
        if root == 'p_sized':
            E, out = W.run(root, lambda s: s in LEAF, extra=[hooks.client])
        elif root[2:] in LEAF:
            E, out = W.run(root, lambda s: False)
        elif root in ('p_expr', 'p_instr'):
            E, out = W.run(root)
        else:
            E, out = W.run(root, lambda s, t=t: s != t and (W.bound(s) or s in el))
        yield root, E, out
    t = W.decodes['custom'][0]
    i = W.parse_inst(t)
    if i is not None:
        yield ('custom section',) + W.run(i, lambda s: s != t and W.bound(s) or s == W.consume, extra=[hooks.AnySource(W.p.body(i).locals[1])], skip=0)
    if 'p_module' in W.p.roots:
        M = C.module()
        yield 'p_module', M.E, M.out


def validator_runs(C, R):
    """(name, engine, paths) of the validator: whole modules, expressions, single instructions."""
    V = vctx(C)
    W = C.W
    if 'entry_validate' in W.p.roots:
        yield ('entry_validate',) + V.module()[:2]
    for root, types in (('v_expr', V.atoms), ('v_const_expr', lambda t: t == W.expr)):
        if root in W.p.roots:
            yield (root,) + valid.run(W, V.M, root, types, valid.sym_ctx, short=False)[:2]
    if 'v_instr' in W.p.roots:
        for n in V.names:
            for r in V.runs(n):
                yield ('v_instr ' + n,) + r[:2]


def can_panic(p, i):
    I = p.insts[i]
    if not I:
        return True
    if 'panic_nounwind' in I['def']:
        return False        # std checking its own unsafe code
    return 'panicking' in I['def'] or bool(I['body']) and any(t[0] == 'assert' for st, t, sp in I['body']['blocks'])


def c01(C, R):
    W, G = C.W, graph(C)
    p = W.p
    entered = set()
    for run in (decoder_runs, validator_runs):
        for name, E, out in run(C, R):
            R.fns |= self_names(E)
            R.count('paths', len(out))
            R.count('loops_closed', len(E.loops))
            R.count('guarded_operations', len(E.sites))
            entered |= {p.insts[i]['def'] for i in E.fns if p.insts[i]}
            for st in out:
                d = st.done
                if d[0] == 'panic':
                    R.violate('panic', key(d[2], name), '%s can panic: %s' % (name, d[1]), where(d[2]))
                elif d[0] == 'unsup':
                    R.undecided('panic', '%s: %s %s' % (name, d[1], where(d[2]) or ''))
                else:
                    R.ok('paths that end without panic', name)
            for (i, bb), (safe, open_) in E.sites.items():
                if not open_:
                    R.ok('operations that could panic but cannot')
    for name in ('entry_parse', 'entry_validate', 'v_instr', 'p_module'):
        if name not in p.roots:
            R.undecided('panic', 'entry point %s does not compile any more' % name)
    # every function of the repository that these entry points can reach was looked at
    seen = G.reach(roots(C, ('entry_parse', 'entry_validate')))
    for i in seen:
        I = p.insts[i]
        if not G.ours(i) or not I['body']:
            continue
        if I['def'] in entered:
            R.ok('reachable functions that were analysed')
        elif not any(can_panic(p, j) for j in G.reach([i])):
            R.ok('reachable functions without an operation that could panic')
        else:
            R.undecided('panic', '%s is reachable but was not analysed' % I['def'])


SMALL = 1 << 16
GROW = ('push', 'grow')


class Cost:
    """Whether an amount is covered by data that exists: constants and lengths are, values of the input are not."""

    def __init__(self, E):
        self.E = E
        self.busy = set()

    def debt(self, F, x):
        """None when x is covered, else the term that is not."""
        x = F.norm(x)
        if F.prove_le(sub(x, SMALL)):
            return None
        c, d = lin_parts(x)
        for a, k in d.items():
            if k > 0 and not self.covered(F, a) and not F.prove_le(sub(a, SMALL)):
                return a
        return None

    def covered(self, F, a):
        if isinstance(a, T):
            if a.op in ('len', 'complen'):
                return True
            if a.op in ('min',):
                return any(self.debt(F, x) is None for x in a.args)
            return False
        if not isinstance(a, Sym) or not isinstance(a.name, tuple):
            return False
        if a.name[0] in ('len', 'cnt'):
            return True
        if a.name[0] == 'iter':
            lp = self.E.loops.get(a.name[1])
            if lp is None or a in self.busy:
                return False
            self.busy.add(a)
            ok = all(paid(c['events']) or self.bound(lp, c) is None for c in lp.conts)
            self.busy.discard(a)
            return ok
        return False

    def bound(self, lp, c):
        """None when the number of iterations is covered, else what it depends on."""
        worst = 'nothing that limits it'
        F = c['facts']
        for t, v in F.assumptions():
            if not v or not isinstance(t, T) or t.op not in ('le0', 'eq0'):
                continue
            k, d = lin_parts(t.args[0])
            n = d.get(lp.kappa)
            if n is None or n < 0 and t.op == 'le0':
                continue
            x = sub(lp.kappa, t.args[0]) if n > 0 else add(lp.kappa, t.args[0])
            if mentions(x, {lp.kappa}):
                continue
            b = self.debt(c['base'], x)
            if b is None:
                return None
            worst = b
        return worst


def paid(events):
    """Does an iteration read input or work off an element of a module?"""
    return any(e[0] in ('byte', 'parse', 'check') for e in events)


def consumes(C, t, memo):
    """Does every successful decoding of a type read at least one byte? None when unknown."""
    if t in LEAF or t == C.W.string or t == C.W.instr:
        return True
    if t not in memo:
        memo[t] = True      # while looking at it
        memo[t] = _consumes(C, t, memo)
    return memo[t]


def _consumes(C, t, memo):
    W = C.W
    if W.container(t) and W.container(t) != 'sized' or t.startswith(('std::vec::Vec<', 'alloc::vec::Vec<')):
        return True         # the count, see c09
    i = W.parse_inst(t)
    if i is None:
        return None
    E, out = W.run(i, lambda s: s != t and W.bound(s), extra=[hooks.AnySource(W.p.body(i).locals[1])], skip=0)
    for st in out:
        if st.done[0] == 'unsup':
            return None
        if st.done[0] != 'ret':
            continue
        v = st.done[1]
        if isinstance(v, Agg) and v.var == 1:
            continue
        if not any(e[0] == 'byte' or e[0] == 'parse' and consumes(C, e[1], memo) for e in st.events()):
            return False
    return True


RUNS = ('p_compact_vec', 'p_func')     # decoders of lists of runs: the locals of a function


def amounts(R, name, E, out, decoding):
    cost = Cost(E)
    seen = set()

    def bad(group, site, what):
        R.violate(group, name if group == 'growth' else key(site, name), '%s: %s' % (name, what), where(site))

    def run_of(x, before=None):
        """Is it the length of a run in a list of runs whose repeated element has been read?"""
        if name not in RUNS or not isinstance(x, Sym) or not isinstance(x.name, tuple):
            return False
        if x.name[0] == 'new' and (len(x.name) < 4 or not x.name[3]):
            return False
        if before is not None:
            k = next((i for i, e in enumerate(before) if e[0] == 'parse' and e[2] is x), None)
            return k is None or any(e[0] == 'parse' for e in before[k + 1:])
        return True

    def look(events, facts):
        for k, e in enumerate(events):
            if e[0] == 'alloc':
                x = cost.debt(facts, e[1])
                if x is None:
                    R.ok('allocations of a size that is covered', name)
                elif run_of(x, events[:k]):
                    R.violate('growth', RUNS[0], '%s: a run is expanded to %s elements' % (name, brief(x)), where(e[2]))
                else:
                    bad('allocation', e[2], 'memory is claimed for %s elements before they exist' % brief(x))
            elif e[0] == 'loop':
                loop(e[1])

    def loop(lp):
        if lp in seen:
            return
        seen.add(lp)
        for c in lp.conts:
            look(c['events'], c['facts'])
            grows = any(e[0] in GROW for e in c['events']) or any(c['emits'].values())
            if not grows:
                R.ok('loops that do not grow anything')
            elif decoding and paid(c['events']):
                R.ok('loops that read input for what they add', name)
            else:
                x = cost.bound(lp, c)
                if x is None:
                    R.ok('loops that add no more than already exists', name)
                elif isinstance(x, str) or 'opaque' in repr(x):
                    R.undecided('growth', '%s: no bound for the loop %s' % (name, where(lp.site)))
                elif run_of(x):
                    R.violate('growth', RUNS[0], '%s: a run is expanded to %s elements' % (name, brief(x)), where(lp.site))
                else:
                    bad('growth', lp.site, 'adds an element per iteration without reading input, as often as %s says' % brief(x))
        for shp, nxt, st, h in lp.trans if lp.kind == 'auto' else ():
            ev = st.events(h.trace) if nxt is not None else []
            look(ev, st.facts)
            if any(e[0] in GROW for e in ev) and not paid(ev):
                R.undecided('growth', '%s: grows without reading input %s' % (name, where(lp.site)))
            elif nxt is not None:
                R.ok('section loop reads input in each iteration')

    for st in out:
        R.count('paths')
        if st.done[0] == 'unsup':
            R.undecided('memory', '%s: %s %s' % (name, st.done[1], where(st.done[2]) or ''))
            continue
        look(st.events(), st.facts)
        R.ok('paths looked at', name)


def c02(C, R):
    W, G = C.W, graph(C)
    p = W.p
    for run in (decoder_runs, validator_runs):
        for name, E, out in run(C, R):
            R.fns |= self_names(E)
            R.count('loops_closed', len(E.loops))
            amounts(R, name, E, out, run is decoder_runs)
    # counted containers pay for an element with at least one byte
    defs = {}
    for r in ('p_vec', 'p_compact_vec', 'p_unwrapping_vec'):
        t = W.result_ty(r)
        i = W.parse_inst(t) if t else None
        if i is None:
            R.undecided('element sizes', 'decoder of %s' % r)
        else:
            defs[p.insts[i]['def']] = r
    memo = {}
    for i in G.reach(roots(C, ('entry_parse',))):
        I = p.insts[i]
        if I['def'] in defs and I['args'] and isinstance(I['args'][0], int):
            t = p.ts(I['args'][0])
            k = consumes(C, t, memo)
            if k:
                R.ok('counted elements take at least one byte', t)
            elif k is None:
                R.undecided('element sizes', t)
            else:
                R.violate('element sizes', t, 'a counted list of %s costs no input per element' % t, I['def'])
