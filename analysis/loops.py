"""Closing of loops.

unroll      follow iterations until every path left the loop or reached a state already covered
generalise  express what an iteration changes as a function of the number of iterations done:
            linear integers, sequences extended element by element, elements rewritten one by one;
            values that cannot be expressed become unknowns, small control values are enumerated
"""
from dom import *
from interp import Loop, Unsupported, Budget, Infeasible, DEBUG, LEN_MAX

UNROLL_STATES = 48


def close_loop(E, st):
    E.stats['loops'] += 1
    fr = st.frames[-1]
    L = LoopRun(E, st)
    outer_num = st.numsplit
    probe = st.copy()
    probe.numsplit = False
    conts, exits = L.body(probe)
    if not conts:
        for s in exits:
            s.numsplit = s.numsplit or outer_num
        return exits
    num = any(s.numsplit for s in conts + exits)
    grew = L.grew(conts)
    order = ['u', 'g']
    if (num or grew) and not E.unroll_first:
        order = ['g', 'u']
    err = None
    for o in order:
        try:
            if o == 'u':
                r = L.unroll()
            else:
                r = L.generalise(conts)
                if order[0] == 'g' and lost(r):
                    # a few iterations may be followed one by one where no summary was found
                    try:
                        x = L.unroll()
                        r = x if not lost(x) else r
                    except Unsupported:
                        pass
            for s in r:
                s.numsplit = s.numsplit or outer_num
            return r
        except Unsupported as e:
            err = err or e
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
            if DEBUG:
                raise
            err = err or Unsupported('internal: %r' % (e,))
    s = st
    s.done = ('unsup', 'loop not closed: ' + err.msg, E.site(s))
    return [s]


def lost(states):
    return any(s.done is not None and s.done[0] == 'unsup' for s in states)


def fuse(E, st, run, head):
    """(continuing, leaving) states when repeating the inner loop is the same as repeating the outer one:
    an iteration of the inner loop changes nothing but what was there before the outer loop started its
    iteration. None when that is not so."""
    inner = LoopRun(E, st)
    n = E.nloop
    conts, exits = inner.body(st.copy())
    if not conts or any(x.done is not None and x.done[0] == 'unsup' for x in exits):
        E.nloop = n
        return None
    out = []
    for s in conts:
        t = head.copy()
        for c in inner.live_cells(st, s):
            a, b = st.mem.get(c), s.mem.get(c)
            if c not in head.mem:
                if isinstance(c[0], int) and a is not b:
                    return None
                if not isinstance(c[0], int) and b is not None:
                    t.mem[c] = b
            elif a is head.mem[c]:
                t.mem[c] = b
            elif a is not b:
                return None
        t.facts, t.trace, t.nev, t.nfid, t.numsplit = s.facts, s.trace, s.nev, s.nfid, s.numsplit
        t.skip = t.outer = t.done = None
        # starting over must lead to where the inner loop goes on
        probe = t.copy()
        probe.skip, probe.nfid = (run.fid, run.head), head.nfid
        r = E.run(probe, lambda x: 'at' if len(x.frames) == inner.depth and x.frames[-1].bb == inner.head else run.stop(x))
        if len(r) != 1 or not isinstance(r[0], tuple) or r[0][0] != 'at':
            return None
        r = r[0][1]
        if r.trace is not s.trace or r.facts.log is not s.facts.log or r.frames[-1].fid != s.frames[-1].fid:
            return None
        for c in inner.live_cells(s, r):
            if c not in s.mem or c not in r.mem or s.mem[c] is not r.mem[c] and s.mem[c] != r.mem[c]:
                return None
        out.append(t)
    for s in exits:
        s.outer = None
    return out, exits


class LoopRun:
    def __init__(self, E, st):
        self.E = E
        self.st = st
        fr = st.frames[-1]
        self.fid, self.head = fr.fid, fr.bb
        self.body_ = fr.body
        self.blocks = fr.body.loops[fr.bb]
        self.depth = len(st.frames)

    def stop(self, s):
        n = len(s.frames)
        if n < self.depth:
            return 'exit'
        if n == self.depth:
            f = s.frames[-1]
            if f.bb == self.head:
                return 'cont'
            if f.bb not in self.blocks:
                return 'exit'
        return None

    def body(self, s):
        s.skip = (self.fid, self.head)
        s.outer = (self, s.copy())
        conts, exits = [], []
        for r in self.E.run(s, self.stop):
            (r[1] if isinstance(r, tuple) else r).outer = None
            if isinstance(r, tuple):
                (conts if r[0] == 'cont' else exits).append(r[1])
            else:
                exits.append(r)
        return conts, exits

    def live_cells(self, *states):
        b = self.body_
        live = b.livein[self.head] | b.taken
        out = []
        seen = set()
        for s in states:
            for c in s.mem:
                if c in seen:
                    continue
                seen.add(c)
                if c[0] == self.fid and c[1] not in live:
                    continue
                if isinstance(c[0], int) and c not in states[0].mem:
                    continue
                out.append(c)
        return out

    def cell_ty(self, c):
        if isinstance(c[0], int):
            for f in self.st.frames:
                if f.fid == c[0]:
                    return f.body.locals[c[1]]
        if c[0] == '*':
            return self.E.ty(c[1].ty)['to']
        return None

    # ------------------------------------------------------------ unrolling
    def key(self, s):
        E = self.E
        items = []
        syms = set()
        for c in self.live_cells(s):
            v = s.mem[c]
            v = canon(E, s, v)
            items.append((repr(c), getattr(v, 'uid', ('i', v))))
            all_syms(v, syms)
        items.sort()
        f = s.facts
        fl = []
        for x in syms:
            m = f.mask.get(x)
            if m is not None or x in f.var or x in f.rng or x in f.bools:
                fl.append((x.uid, m, f.var.get(x), f.rng.get(x), f.bools.get(x)))
        fl.sort(key=lambda z: z[0])
        return (tuple(items), tuple(fl))

    def unroll(self):
        E = self.E
        work = [(self.st.copy(), ())]
        seen = set()
        exits = []
        n = 0
        while work:
            s, back = work.pop()
            k = self.key(s)
            if k in (seen if E.merge else back):
                s.emit('repeat', self.body_.inst, self.head)
                s.done = ('repeat', E.site(s))
                exits.append(s)
                continue
            seen.add(k)
            n += 1
            if n > UNROLL_STATES:
                raise Unsupported('too many loop states')
            c, e = self.body(s)
            work.extend((x, back + (k,)) for x in c)
            exits.extend(e)
        return exits

    def grew(self, conts):
        E = self.E
        for c in self.live_cells(self.st):
            v0 = self.st.mem[c]
            for s in conts:
                if seq_size(s.mem.get(c)) > seq_size(v0):
                    return True
        return False

    # ------------------------------------------------------------ generalisation
    def generalise(self, conts0):
        E, S0 = self.E, self.st
        E.nloop += 1
        uid = ('L', E.nloop)
        site = E.site(S0)
        kappa = Sym(('iter', uid), E.usize, (0, LEN_MAX))
        self.kappa, self.uid = kappa, uid
        self.kinds = {}
        self.auto = False
        inv = []
        Sg, conts = S0, conts0
        gvals = {}
        for rnd in range(9):
            new = self.classify(Sg, conts, gvals)
            if rnd and new == self.kinds and not self.new_inv(Sg, conts, inv):
                break
            if new.get('auto'):
                return self.automaton(conts)
            self.kinds = new
            if rnd:
                pass
            Sg, gvals, lp = self.build(inv, site)
            conts, exits = self.body(Sg.copy())
            conts, out = self.in_phase(conts)
            exits = exits + out
            if not conts:
                # the generalised body never repeats; everything leaves
                pass
        else:
            raise Unsupported('loop does not stabilise')
        # fill in the summary
        for s in conts:
            em, wr, de = {}, {}, {}
            for key, kd in self.kinds.items():
                if kd[0] == 'seq':
                    g, v = self.at(Sg, key), self.at(s, key)
                    g = E.as_seq(g)
                    em[key] = list(self.trim(E.as_seq(v), g, s).parts[len(g.parts):])
                elif kd[0] == 'mw':
                    p = E.as_seq(self.at(s, key)).parts[kd[2]]
                    off = sub(p[2], kappa) if p[0] == 'w' else None
                    if off is None or mentions(off, {kappa}) or (lp.phis[key] is not None and lp.phis[key][0] != off):
                        raise Unsupported('irregular element rewriting')
                    old = lp.phis[key][1] if lp.phis[key] else ()
                    if len(old) != 1 or old[0][0] != p[3]:
                        lp.phis[key] = (off, old + ((p[3], tuple(s.facts.assumptions()[len(Sg.facts.assumptions()):])),))
            lp.conts.append({'facts': s.facts, 'base': Sg.facts, 'events': s.events(Sg.trace), 'emits': em, 'state': s, 'head': Sg})
        E.loops[uid] = lp
        lp.lost = lost(exits)
        exits = self.searched(conts, exits)
        for s in exits:
            s.ctx = S0.ctx
        return exits

    def in_phase(self, conts):
        """Separate iterations that keep the control shape from those that enter another phase."""
        keep, out = [], []
        for s in conts:
            same = True
            for key, kd in self.kinds.items():
                if kd[0] == 'shape' and self.shape_at(s, key) != kd[1]:
                    same = False
            (keep if same else out).append(s)
        for s in out:
            s.ctx = self.st.ctx
            n = sum(1 for e in s.events() if e[0] == 'phase' and e[1] == (self.fid, self.head))
            if n > 5:
                raise Unsupported('too many loop phases')
            s.emit('phase', (self.fid, self.head))
        return keep, out

    def shape_at(self, s, key):
        return shape_of(self.folded(self.at(s, key), s))

    def folded(self, v, s):
        """The value with every scalar in it that has only one possible value replaced by that value."""
        if isinstance(v, SCALAR):
            return self.fold(v, s)
        if isinstance(v, Agg) and v.f and len(v.f) <= 4:
            f = tuple(self.folded(x, s) for x in v.f)
            return v if all(x is y for x, y in zip(f, v.f)) else Agg(v.ty, v.var, f)
        return v

    def searched(self, conts, exits):
        """A loop that leaves as soon as its counter equals some value has not passed that value."""
        E = self.E
        common = None
        for s in conts:
            ts = set()
            for b, v in s.facts.assumptions():
                while isinstance(b, T) and b.op == 'not':
                    b, v = b.args[0], not v
                if v or not isinstance(b, T) or b.op != 'eq0' or not isinstance(b.args[0], Lin):
                    continue
                c = dict(b.args[0].t).get(self.kappa)
                if c in (1, -1):
                    t = sub(self.kappa, b.args[0]) if c == 1 else add(self.kappa, b.args[0])
                    if not mentions(t, {self.kappa} | set(self.atoms.values())) and (isinstance(t, int) or all(self.outer(x) for x in syms_of(t))):
                        ts.add(t)
            common = ts if common is None else common & ts
        out = []
        for s in exits:
            ok = True
            for t in common or ():
                lo = t if isinstance(t, int) else s.facts.bounds(t)[0]
                if lo is not None and lo >= 0 and s.facts.decide(E.mk_le(self.kappa, t)) is None:
                    ok = ok and s.facts.assume(E.mk_le(self.kappa, t))
            if ok:
                out.append(s)
        return out

    def at(self, s, key):
        cell, path = key
        v = self.E.load(s, cell)
        for e in path:
            if e[0] == 'f':
                if isinstance(v, Sym):
                    v = self.E.expand(v, s.facts.variant(v) or 0)
                if not isinstance(v, Agg) or e[1] >= len(v.f):
                    return None
                v = v.f[e[1]]
            elif e[0] == 'seq':
                v = self.E.as_seq(v)
            elif e[0] == 'part':
                v = v.parts[e[1]][e[2]] if e[1] < len(v.parts) else None
            elif e[0] == 'lo':
                v = v.lo
            elif e[0] == 'n':
                v = v.n
            elif e[0] == 'pidx':
                v = v.path[e[1]][1]
        return v

    # -- which slots change and how
    def classify(self, Sg, conts, gvals):
        kinds = {}
        self.vec = {}
        for c in self.live_cells(self.st, *conts):
            try:
                g = self.E.load(Sg, c)
                v0 = self.E.load(self.st, c)
                vs = [self.E.load(s, c) for s in conts]
            except Unsupported:
                continue
            self.walk((c, ()), self.cell_ty(c), v0, g, vs, conts, kinds)
        # keep the classification of slots known before (they may look constant in one round)
        for k, kd in self.kinds.items():
            if k not in kinds and k != 'auto':
                if kd[0] == 'int':
                    vs = [self.at(s, k) for s in conts]
                    if conts and not any(v is None for v in vs):
                        kinds[k] = ('int', tuple(delta(v, self.at(Sg, k), s) for v, s in zip(vs, conts)), kd[2])
                    else:
                        kinds[k] = kd
                else:
                    kinds[k] = kd
        shapes = set()
        keys = [k for k, kd in kinds.items() if kd[0] == 'shape']
        for s in conts:
            shapes.add(tuple(self.shape_at(s, k) for k in keys))
        if keys and len(shapes | {tuple(self.shape_at(self.st, k) for k in keys)}) > 3:
            kinds['auto'] = True
        return kinds

    def walk(self, key, ty, v0, g, vs, conts, kinds):
        E = self.E
        if all(v is g for v in vs) and v0 is g:
            return
        if key in self.kinds and self.kinds[key][0] == 'phi':
            kinds[key] = self.kinds[key]
            return
        if key in self.kinds and self.kinds[key][0] == 'shape':
            kinds[key] = self.kinds[key]
            # data below an enum shape still has to be followed
            same = [(v, s) for v, s in zip(vs, conts) if shape_of(self.folded(v, s)) == self.kinds[key][1]]
            if isinstance(g, Agg) and g.f:
                tys = self.tys(g)
                for i in range(len(g.f)):
                    self.walk((key[0], key[1] + (('f', i),)), tys[i], v0.f[i], g.f[i], [v.f[i] for v, _ in same], [s for _, s in same], kinds)
            return
        if all(v is g for v in vs):
            return
        known = self.kinds.get(key)
        isint = lambda v: isinstance(v, (int, Lin)) or (isinstance(v, (Sym, T, Bits)) and E.atom_info(v) is not None)
        isbool = ty is not None and E.ty(ty)['k'] == 'bool'
        if isint(g) and isint(v0) and all(isint(v) for v in vs):
            if isbool:
                if all(isinstance(v, int) for v in vs + [v0]):
                    kinds[key] = ('shape', shape_of(v0))
                else:
                    kinds[key] = ('phi', ty)
                return
            ds = tuple(delta(v, g, s) for v, s in zip(vs, conts))
            if all(isinstance(d, int) for d in ds):
                kinds[key] = ('int', ds, ty)
                return
            if all(isinstance(self.fold(v, s), int) for v, s in zip(vs, conts)) and isinstance(v0, int):
                kinds[key] = ('shape', shape_of(v0))
                return
            kinds[key] = ('phi', ty)
            return
        if isinstance(v0, Sym) and any(isinstance(v, Agg) for v in vs) and ty is not None and E.ty(ty)['k'] in ('struct', 'tuple'):
            v0 = E.expand(v0)
            g = E.expand(g) if isinstance(g, Sym) else g
            vs = [E.expand(v) if isinstance(v, Sym) else v for v in vs]
        if isinstance(g, Agg) and isinstance(v0, Agg) and all(isinstance(v, Agg) for v in vs):
            if all(v.var == g.var and len(v.f) == len(g.f) for v in vs):
                tys = self.tys(g)
                for i in range(len(g.f)):
                    self.walk((key[0], key[1] + (('f', i),)), tys[i], v0.f[i], g.f[i], [v.f[i] for v in vs], conts, kinds)
                return
            if ty is not None and E.ty(ty)['k'] == 'enum':
                kinds[key] = ('shape', shape_of(v0))
                same = [(v, s) for v, s in zip(vs, conts) if shape_of(v) == shape_of(v0)]
                tys = self.tys(g)
                for i in range(len(g.f)):
                    self.walk((key[0], key[1] + (('f', i),)), tys[i], v0.f[i], g.f[i], [v.f[i] for v, _ in same], [s for _, s in same], kinds)
                return
        if isinstance(g, (VecV, Seq)) or (ty is not None and (E.p.is_vec(ty))):
            try:
                q0, qg = E.as_seq(v0), E.as_seq(g)
                qs = [self.trim(E.as_seq(v), qg, s) for v, s in zip(vs, conts)]
            except Unsupported:
                kinds[key] = ('phi', ty)
                return
            ng = len(qg.parts)
            if all(q.parts == qg.parts for q in qs):
                return
            if known and known[0] == 'seq' or all(q.parts[:ng] == qg.parts for q in qs):
                if all(q.parts[:ng] == qg.parts for q in qs):
                    rates = set(len(q.parts) - ng if all(p[0] == 'e' for p in q.parts[ng:]) else None for q in qs)
                    kinds[key] = ('seq', ty, rates.pop() if len(rates) == 1 else None)
                    return
                kinds[key] = ('phi', ty)
                return
            # shrinking: same parts up to range ends
            if all(len(q.parts) == ng for q in qs) and all(p[0] == 's' and r[0] == 's' and p[1] is r[1] or p == r for q in qs for p, r in zip(q.parts, qg.parts)) and len(q0.parts) == ng:
                for n in range(ng):
                    if qg.parts[n][0] == 's':
                        for j in (2, 3):
                            k2 = (key[0], key[1] + (('seq',), ('part', n, j)))
                            self.walk(k2, E.usize, q0.parts[n][j], qg.parts[n][j], [q.parts[n][j] for q in qs], conts, kinds)
                return
            # one element rewritten per iteration
            if all(len(q.parts) == ng for q in qs):
                hit = None
                for q in qs:
                    for n, (p, r) in enumerate(zip(q.parts, qg.parts)):
                        if p != r:
                            if p[0] == 'w' and p[1] == r and hit in (None, n):
                                hit = n
                            else:
                                hit = -1
                if hit is not None and hit >= 0:
                    kinds[key] = ('mw', ty, hit)
                    return
            kinds[key] = ('phi', ty)
            return
        if isinstance(g, SRef) and all(isinstance(v, SRef) and v.ptr is g.ptr for v in vs) and isinstance(v0, SRef):
            self.walk((key[0], key[1] + (('lo',),)), E.usize, v0.lo, g.lo, [v.lo for v in vs], conts, kinds)
            self.walk((key[0], key[1] + (('n',),)), E.usize, v0.n, g.n, [v.n for v in vs], conts, kinds)
            return
        if isinstance(g, Ptr) and isinstance(v0, Ptr) and all(isinstance(v, Ptr) and v.cell == g.cell and len(v.path) == len(g.path) for v in vs):
            diff = set(i for v in vs for i in range(len(g.path)) if v.path[i] != g.path[i])
            if len(diff) == 1:
                i = diff.pop()
                if all(v.path[i] != 'buf' and v.path[i][0] == 'i' for v in vs + [g, v0]):
                    self.walk((key[0], key[1] + (('pidx', i),)), E.usize, v0.path[i][1], g.path[i][1], [v.path[i][1] for v in vs], conts, kinds)
                    return
        if all(const_like(v) for v in vs + [v0]):
            kinds[key] = ('shape', shape_of(v0))
            return
        kinds[key] = ('phi', ty)

    def trim(self, q, g, s):
        """Without the added ranges that are known to be empty."""
        if len(q.parts) <= len(g.parts):
            return q
        le = self.E.mk_le
        return Seq(tuple(p for p in q.parts if p in g.parts or p[0] != 's' or s.facts.decide(le(p[3], p[2])) is not True))

    def fold(self, v, s):
        """Constant value of a scalar under the facts of a state, if it has one."""
        if isinstance(v, int):
            return v
        n = s.facts.norm(v)
        if isinstance(n, int):
            return n
        m = s.facts.get_mask(n) if isinstance(n, (Sym, T, Bits)) else None
        if m is not None and m & (m - 1) == 0:
            return m.bit_length() - 1
        return v

    def tys(self, g):
        try:
            t = self.E.p.field_tys(g.ty, g.var or 0)
            if len(t) == len(g.f):
                return t
        except Exception:
            pass
        return [None] * len(g.f)

    # -- the generalised head state
    def build(self, inv, site, phi_all=False, shape=None):
        E, S0 = self.E, self.st
        lp = Loop(self.uid, site, self.kappa)
        E.loops[self.uid] = lp
        Sg = S0.copy()
        Sg.ctx = S0.ctx + ((self.uid, self.kappa),)
        Sg.emit('loop', lp)
        # integer slots: group by delta vector
        atoms = {}
        vecs = {}
        for key, kd in self.kinds.items():
            if kd == True or kd[0] != 'int':
                continue
            ds = kd[1]
            if len(set(ds)) > 1:
                s = next((x for x in ds if x), 1)
                nv = tuple(x if s > 0 else -x for x in ds)
                gg = 0
                from math import gcd
                for x in nv:
                    gg = gcd(gg, abs(x))
                nv = tuple(x // gg for x in nv)
                vecs[key] = (nv, gg if s > 0 else -gg)
        for key, (nv, c) in sorted(vecs.items(), key=lambda z: repr(z[0])):
            if nv not in atoms:
                atoms[nv] = Sym(('cnt', self.uid, len(atoms)), E.usize, (0 if min(nv) >= 0 else -LEN_MAX, LEN_MAX))
        self.atoms = atoms
        upd = []
        gv = {}
        for key, kd in self.kinds.items():
            if kd == True:
                continue
            k = kd[0]
            v0 = self.at(S0, key)
            if k == 'int':
                if key in vecs:
                    nv, c = vecs[key]
                    g = add(v0, atoms[nv], c)
                else:
                    g = add(v0, self.kappa, kd[1][0] if kd[1] else 0)
                gv[key] = g
            elif k == 'seq':
                q = E.as_seq(v0)
                g = VecV(Seq(q.parts + (('c', self.uid, key, self.kappa),)))
                lp.seqslots[key] = E.elem_ty(kd[1]) if kd[1] is not None else None
                lp.rate[key] = kd[2]
            elif k == 'mw':
                q = E.as_seq(v0)
                n = kd[2]
                g = VecV(Seq(q.parts[:n] + (('mw', self.uid, key, q.parts[n], self.kappa),) + q.parts[n + 1:]))
                lp.phis[key] = None
            elif k == 'phi':
                if kd[1] is None:
                    raise Unsupported('untyped loop value')
                t = E.ty(kd[1])
                if t['k'] in ('ref', 'ptr', 'closure'):
                    raise Unsupported('loop-carried reference')
                g = E.sym(('opaque', self.uid, key), kd[1])
            else:
                continue
            upd.append((key, g))
        for key, g in upd:
            self.put(Sg, key, g)
        # what is known about the counters
        F = Sg.facts
        for a, av in ((a, v) for v, a in atoms.items()):
            if max(av) <= 1:
                F._add_le(F.norm(sub(a, self.kappa)))
            for v2, a2 in atoms.items():
                if a2 is not a and all(x <= y for x, y in zip(av, v2)):
                    F._add_le(F.norm(sub(a, a2)))
            for v2, a2 in atoms.items():
                v3 = tuple(x - y for x, y in zip(av, v2))
                a3 = atoms.get(v3)
                if a3 is not None and a2.uid < a3.uid:
                    F._add_le(F.norm(sub(a, add(a2, a3))))
                    F._add_le(F.norm(sub(add(a2, a3), a)))
        for key, g in gv.items():
            r = E.ty_range(self.kinds[key][2]) if self.kinds[key][2] is not None else None
            if r and not isinstance(g, int):
                F._add_le(F.norm(sub(g, r[1])))
                F._add_le(F.norm(sub(r[0], g)))
        for L in inv:
            F._add_le(F.norm(L))
        self.Sg = Sg
        return Sg, gv, lp

    def put(self, s, key, g):
        cell, path = key
        v = self.E.load(s, cell)
        s.mem[cell] = self.put_at(s, v, path, g)

    def put_at(self, s, v, path, g):
        if not path:
            return g
        e = path[0]
        if e[0] == 'f':
            if isinstance(v, Sym):
                v = self.E.expand(v)
            f = list(v.f)
            f[e[1]] = self.put_at(s, f[e[1]], path[1:], g)
            return Agg(v.ty, v.var, tuple(f))
        if e[0] == 'seq':
            q = self.E.as_seq(v)
            q = self.put_at(s, q, path[1:], g)
            return VecV(q) if isinstance(v, VecV) or not isinstance(v, Seq) else q
        if e[0] == 'part':
            p = list(v.parts[e[1]])
            p[e[2]] = g
            return Seq(v.parts[:e[1]] + (tuple(p),) + v.parts[e[1] + 1:])
        if e[0] == 'lo':
            return SRef(v.ptr, g, v.n)
        if e[0] == 'n':
            return SRef(v.ptr, v.lo, g)
        if e[0] == 'pidx':
            i = e[1]
            return Ptr(v.cell, v.path[:i] + (('i', g),) + v.path[i + 1:])
        raise Unsupported('slot')

    def new_inv(self, Sg, conts, inv):
        """Inequalities every continuing iteration re-establishes; True when some were added."""
        E = self.E
        if not conts:
            return False
        loopatoms = {self.kappa} | set(self.atoms.values())
        old = set(Sg.facts.le)
        steps = []
        for i, s in enumerate(conts):
            step = {self.kappa: add(self.kappa, 1)}
            for nv, a in self.atoms.items():
                step[a] = add(a, nv[i]) if i < len(nv) else a
            steps.append(step)
        base_syms = set()
        for c in self.live_cells(self.st):
            all_syms(self.st.mem[c], base_syms)
        for L in self.st.facts.le:
            all_syms(L, base_syms)
        cands = []
        for i, s in enumerate(conts):
            fs = [L for L in s.facts.le if L not in old]
            for a in loopatoms:
                lo, hi = s.facts.range(a)
                if (lo, hi) != Sg.facts.range(a):
                    if hi is not None:
                        fs.append(sub(a, hi))
                    if lo is not None:
                        fs.append(sub(lo, a))
            for L in fs:
                if not mentions(L, loopatoms):
                    continue
                back = {k: sub(k, sub(v, k)) for k, v in steps[i].items()}
                C = subst(L, back)
                at = set()
                all_syms(C, at)
                if any(not (x in loopatoms or x in base_syms or self.outer(x)) for x in at):
                    continue
                cands.append(C)
        zero = {a: 0 for a in loopatoms}
        added = False
        for C in cands:
            if C in inv or isinstance(C, int):
                continue
            if Sg.facts.prove_le(C):
                continue
            if not self.st.facts.prove_le(subst(C, zero)):
                continue
            if all(s.facts.prove_le(subst(C, steps[i])) for i, s in enumerate(conts)):
                inv.append(C)
                added = True
        return added

    def outer(self, x):
        """A symbol that does not belong to the current iteration."""
        return not mentions(x, {self.kappa}) and not (isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == 'new' and self.uid in x.name[3])

    # ------------------------------------------------------------ control automaton
    def automaton(self, conts0):
        """Every control shape is analysed once, all other changed values being unknown."""
        E, S0 = self.E, self.st
        self.kinds = {}
        slots = {}        # key -> 'shape' | ('phi', ty)
        first = self.classify(S0, conts0, {})
        for k, kd in first.items():
            if k == 'auto':
                continue
            slots[k] = 'shape' if kd[0] == 'shape' else ('phi', kd[2] if kd[0] == 'int' else kd[1])
        for rnd in range(6):
            res = self.explore(slots)
            if isinstance(res, dict):
                slots = res
                continue
            lp, exits = res
            for s in exits:
                s.ctx = S0.ctx
            return exits
        raise Unsupported('control automaton does not stabilise')

    def explore(self, slots):
        E, S0 = self.E, self.st
        # a slot that starts constant and takes constants stays exact
        exact = [k for k, v in slots.items() if v == 'shape']
        lp = Loop(self.uid, E.site(S0), self.kappa)
        lp.kind = 'auto'
        E.loops[self.uid] = lp
        base = S0.copy()
        base.ctx = S0.ctx + ((self.uid, self.kappa),)
        base.emit('loop', lp)
        for k, v in slots.items():
            if v != 'shape':
                if v[1] is None or E.ty(v[1])['k'] in ('ref', 'ptr', 'closure'):
                    raise Unsupported('loop-carried reference')
                g = E.sym(('phi', self.uid, k), v[1])
                self.put(base, k, g)
                lp.phis[k] = g
        init = tuple(self.at(S0, k) for k in exact)
        todo, seen, exits = [init], {init}, []
        lp.exact = exact
        lp.init = init
        lp.S0 = S0
        lp.slots = slots
        while todo:
            shp = todo.pop()
            s = base.copy()
            for k, v in zip(exact, shp):
                self.put(s, k, v)
            s.emit('shape', lp, shp)
            h = s.copy()
            conts, ex = self.body(s)
            for c in ex:
                exits.append(c)
                lp.trans.append((shp, None, c, h))
            for c in conts:
                # anything else that changed?
                for cell in self.live_cells(S0, c):
                    bad = {}
                    try:
                        self.diff((cell, ()), self.cell_ty(cell), E.load(base, cell), E.load(c, cell), slots, bad, c)
                    except Unsupported:
                        continue
                    if bad:
                        ns = dict(slots)
                        for k, v in bad.items():
                            for old in [o for o in ns if o[0] == k[0] and o[1][:len(k[1])] == k[1]]:
                                del ns[old]
                            ns[k] = v
                        return ns
                nxt = []
                for k in exact:
                    nxt.append(self.folded(self.at(c, k), c))
                if any(not const_like(v) for v in nxt):
                    ns = dict(slots)
                    for k, v in zip(exact, nxt):
                        if not const_like(v):
                            ns[k] = ('phi', self.slot_ty(k))
                    return ns
                nxt = tuple(nxt)
                lp.trans.append((shp, nxt, c, h))
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append(nxt)
                    if len(seen) > 80:
                        raise Unsupported('too many control shapes')
        return lp, exits

    def slot_ty(self, key):
        cell, path = key
        ty = self.cell_ty(cell)
        v = self.E.load(self.st, cell)
        for e in path:
            if e[0] != 'f':
                return self.E.usize
            if isinstance(v, Sym):
                v = self.E.expand(v)
            ty = self.tys(v)[e[1]]
            v = v.f[e[1]]
        return ty

    def diff(self, key, ty, a, b, slots, bad, c):
        if key in slots:
            return
        if a is b:
            return
        if any(k[0] == key[0] and k[1][:len(key[1])] == key[1] for k in slots) or (isinstance(a, Agg) and isinstance(b, Agg)):
            if isinstance(a, Sym):
                a = self.E.expand(a)
            if isinstance(b, Sym):
                b = self.E.expand(b)
            if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.f) == len(b.f):
                tys = self.tys(a)
                for i in range(len(a.f)):
                    self.diff((key[0], key[1] + (('f', i),)), tys[i], a.f[i], b.f[i], slots, bad, c)
                return
        if const_like(a) and const_like(self.folded(b, c)):
            bad[key] = 'shape'
            return
        bad[key] = ('phi', ty)


def delta(v, g, s):
    d = sub(v, g)
    return d if isinstance(d, int) else s.facts.norm(d)


def shape_of(v):
    if isinstance(v, Agg):
        return ('var', v.var) if v.f and not const_like(v) else ('c', v.uid)
    if isinstance(v, int):
        return ('i', v)
    return ('o', getattr(v, 'uid', None))


def syms_of(v):
    out = set()
    all_syms(v, out)
    return out


def const_like(v):
    if isinstance(v, int):
        return True
    if isinstance(v, Agg):
        return all(const_like(x) for x in v.f)
    return False


def seq_size(v, d=0):
    if isinstance(v, VecV):
        return len(v.seq.parts)
    if isinstance(v, Agg) and d < 6:
        return sum(seq_size(x, d + 1) for x in v.f)
    return 0


def canon(E, s, v):
    """Normal form of a value under the facts of a state, for comparing loop states."""
    if isinstance(v, int):
        return v
    if isinstance(v, Bits):
        out = []
        for x in v.b:
            if not isinstance(x, int):
                m = s.facts.get_mask(x[0])
                if m is not None:
                    bits = set()
                    y = m
                    while y and len(bits) < 2:
                        low = y & -y
                        bits.add(((low.bit_length() - 1) >> x[1]) & 1)
                        y ^= low
                    if len(bits) == 1:
                        x = bits.pop() ^ x[2]
            out.append(x)
        return E.from_bits(tuple(out), False)
    if isinstance(v, (Sym, Lin, T)):
        n = s.facts.norm(v)
        return n
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, tuple(canon(E, s, x) for x in v.f))
    if isinstance(v, VecV):
        return VecV(E.seq_norm(s, v.seq))
    return v
