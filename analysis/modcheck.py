"""The module decoder against the section grammar.

The section loop is summarised by the interpreter as a control automaton: one node per reachable
combination of control values, one transition per abstract iteration. Its product with the automaton
of the specification (last section seen, function/code sections seen, counts equal) is explored; every
transition and every way out of the loop is compared with what the specification prescribes there.
"""
from dom import *
from interp import Unsupported, NeedSplit, LEN_MAX
from oracle import *
import loops

PREAMBLE = (0x00, 0x61, 0x73, 0x6D, 0x01, 0x00, 0x00, 0x00)
FIELDS = {1: 'types', 2: 'imports', 4: 'tables', 5: 'mems', 6: 'globals', 7: 'exports', 8: 'start', 9: 'elem', 10: 'funcs', 11: 'data'}
WANT = {0: 'custom', 1: ('vec', 'functype'), 2: ('vec', 'import'), 3: ('vec', 'typeidx'), 4: ('vec', 'table'), 5: ('vec', 'mem'),
        6: ('vec', 'global'), 7: ('vec', 'export'), 8: 'start', 9: ('vec', 'elem'), 10: ('vec', ('sized', 'code')), 11: ('vec', 'data')}


class ModuleCheck:
    def __init__(self, W, S):
        self.W, self.S = W, S
        self.res = []           # (group, kind, message, site); kind ok | bad | und
        self.paths = 0
        self.reach = {}
        self.E, self.out = W.run('p_module')
        self.fns = self.E.fns
        self.run()

    def add(self, group, kind, msg, site=None):
        self.res.append((group, kind, msg, site))

    def lack(self, group, msg, site=None):
        """Something that no path does: only a violation if every path is understood."""
        self.add(group, 'und' if self.partial or any(r[1] == 'und' for r in self.res) else 'bad', msg, site)

    def run(self):
        E = self.E
        lps = []
        self.partial = any(st.done[0] == 'unsup' for st in self.out)
        for st in self.out:
            if st.done[0] in ('unsup',):
                self.add('module', 'und', st.done[1], st.done[2])
            for e in st.events():
                if e[0] == 'loop' and e[1].kind == 'auto' and e[1] not in lps:
                    lps.append(e[1])
        self.preamble()
        if len(lps) != 1:
            # no section loop whose control values could be enumerated
            self.add('sections', 'und', 'the section loop was not recognised')
            return
        self.lp = lps[0]
        self.site = self.lp.site
        self.at = loops.LoopRun.at
        self.changes = {}
        self.explore(False)
        self.meanings()
        self.explore(True)
        self.exits()

    # -- the eight bytes in front
    def preamble(self):
        E, S = self.E, self.S
        for st in self.out:
            if st.done[0] == 'unsup':
                continue
            if st.done[0] == 'panic':
                continue

            def spec(c):
                for n, k in enumerate(PREAMBLE):
                    b = S.byte(c)
                    if not c.test(T('bs', b, 1 << k)):
                        raise Reject('byte %d of the preamble' % n)
                raise StopIteration
            for F in self.cases(st):
                c = Cur(E, st, F[0], st.events())
                try:
                    try:
                        spec(c)
                    except StopIteration:
                        if c.peek() is None and st.done[0] == 'ret' and ret_of(E, st)[0] == 'err':
                            self.add('preamble', 'bad', 'a correct preamble is rejected', self.where(st))
                        else:
                            self.add('preamble', 'ok', None)
                    except (Reject, Failed) as r:
                        k = ret_of(E, st)[0] if st.done[0] == 'ret' else None
                        if k == 'err':
                            self.add('preamble', 'ok', None)
                        elif any(e[0] == 'loop' for e in c.ev[c.pos:]) or k == 'ok':
                            self.add('preamble', 'bad', 'accepts a wrong preamble: %s' % (r.args[0] if r.args else 'too short'), self.where(st))
                        else:
                            self.add('preamble', 'und', 'preamble')
                    except Mismatch as m:
                        self.add('preamble', 'bad', m.msg, m.site or self.where(st))
                    except NeedSplit as k:
                        raise Fork(k.cond)
                except Fork as k:
                    F[1](k.cond)
                except (Undecided, Unsupported) + BUGS as u:
                    self.add('preamble', 'und', why(u))

    def cases(self, st, facts=None):
        """Facts of a path, partitioned on demand: yields (facts, split(cond))."""
        work = [(facts or st.facts).copy()]
        n = 0
        while work:
            F = work.pop()
            n += 1
            if n > 3000:
                return

            def split(cond, F=F):
                for v in (True, False):
                    G = F.copy()
                    if G.assume(cond, v):
                        work.append(G)
            yield F, split

    def where(self, st):
        i = self.W.p.roots['p_module']
        s = None
        for e in st.events():
            if e[0] == 'parse':
                s = e[4]
        return s or ('module decoding', 'p_module')

    # -- product with the specification
    def section(self, c, q):
        """One section read by the cursor in specification state q: (id, payload)."""
        S = self.S
        b = S.byte(c)
        for k in range(12):
            if c.test(T('bs', b, 1 << k)):
                if k and k <= q[0]:
                    raise Reject('section %d after section %d' % (k, q[0]))
                return k, S.sized(c, WANT[k])
        raise Reject('section id')

    def step(self, c, q, final):
        k, p = self.section(c, q)
        last, has3, has10, rel = q
        if k == 3:
            has3 = True
        if k == 10:
            has10 = True
            if final and self.slot3 is not None:
                E = self.E
                pay = self.code(p)
                n10 = E.seq_len(c.view, E.as_seq(pay))
                n3 = E.seq_len(c.view, E.as_seq(self.lp.phis[self.slot3])) if has3 else 0
                rel = 'eq' if c.test(E.mk_eq(n10, n3)) else 'ne'
        return k, p, (k or last, has3, has10, rel)

    def code(self, p):
        """The functions inside the payload of the code section."""
        t = self.E.ty(p.ty)['s']
        if self.W.container(t) == 'unwrapping':
            return self.W.payload(self.E, p, 'unwrapping')
        return p

    def head(self, q, F):
        """What the specification state says about the counts when an iteration starts."""
        E = self.E
        if self.slot3 is None or self.slot10 is None:
            return True
        v = self.view0
        n3 = E.seq_len(v, E.as_seq(self.lp.phis[self.slot3]))
        n10 = E.seq_len(v, E.as_seq(self.lp.phis[self.slot10]))
        ok = True
        if not q[1]:
            ok = ok and F.assume(E.mk_eq(n3, 0))
        if not q[2]:
            ok = ok and F.assume(E.mk_eq(n10, 0))
        elif q[3] == 'eq':
            ok = ok and F.assume(E.mk_eq(n3, n10))
        elif q[3] == 'ne':
            ok = ok and F.assume(E.mk_eq(n3, n10), False)
        return ok

    def slot_value(self, st, key):
        return loops.LoopRun.at(self.runner(), st, key)

    def runner(self):
        r = loops.LoopRun.__new__(loops.LoopRun)
        r.E, r.st = self.E, self.lp.S0
        return r

    def explore(self, final):
        E, lp = self.E, self.lp
        init = (0, False, False, None)
        reach = {lp.init: {init}}
        todo = [(lp.init, init)]
        if not final:
            self.slot3 = self.slot10 = None
        self.view0 = lp.S0
        while todo:
            shp, q = todo.pop()
            for a, nxt, st, h in lp.trans:
                if a != shp or nxt is None:
                    continue
                self.paths += final
                for F, split in self.cases(st):
                    if not self.head(q, F):
                        continue
                    c = Cur(E, st, F, st.events(h.trace))
                    try:
                        try:
                            if q == 'dead':
                                q2 = 'dead'
                            else:
                                k, p, q2 = self.step(c, q, final)
                                c.finish()
                                if not final:
                                    self.note(c, st, k, p)
                                else:
                                    self.content(c, st, k, p, q2)
                        except Reject as r:
                            # may still be rejected at the end of the input
                            q2 = 'dead'
                            self.dead_site = (r.args[0], c.last)
                        except Failed:
                            q2 = 'dead'
                            self.dead_site = ('a section that failed to decode', c.last)
                        except NeedSplit as n:
                            raise Fork(n.cond)
                    except Fork as f:
                        split(f.cond)
                        continue
                    except Mismatch as m:
                        if final:
                            g = 'size prefix' if 'size prefix' in m.msg else 'sections'
                            self.add(g, 'bad', 'section reached in state %s: %s' % (self.qs(q), m.msg), m.site or c.last or self.site)
                        continue
                    except (Undecided, Unsupported) + BUGS as u:
                        if final:
                            self.add('sections', 'und', why(u), c.last)
                        continue
                    if q2 not in reach.setdefault(nxt, set()):
                        reach[nxt].add(q2)
                        todo.append((nxt, q2))
        self.reach = reach

    def qs(self, q):
        return 'rejected' if q == 'dead' else 'after section %d' % q[0] if q[0] else 'start'

    def note(self, c, st, k, p):
        for key, g in self.lp.phis.items():
            v = self.slot_value(st, key)
            if v is not g:
                self.changes.setdefault(key, []).append((k, v, p, c))

    # -- which loop-carried value stands for which section
    def meanings(self):
        E = self.E
        self.slot3 = self.slot10 = None
        self.mean = {}
        for key, ch in self.changes.items():
            ids = set(k for k, _, _, _ in ch)
            for k, v, p, c in ch:
                self.mean.setdefault(key, set()).add(k)
            if ids == {3} and all(self.payload_is(3, v, p, c) for _, v, p, c in ch):
                self.slot3 = key
        # fields of the returned module
        self.field = {}
        for st in self.out:
            if st.done[0] != 'ret' or ret_of(E, st)[0] != 'ok':
                continue
            v = ret_of(E, st)[1]
            if not isinstance(v, Agg):
                continue
            names = [f[0] for f in E.ty(v.ty)['variants'][0]['fields']]
            for n, x in zip(names, v.f):
                self.field.setdefault(n, set()).add(x)
        rev = {g: k for k, g in self.lp.phis.items()}
        self.fslot = {}
        for n, xs in self.field.items():
            if len(xs) == 1:
                x = next(iter(xs))
                if x in rev:
                    self.fslot[n] = rev[x]
        s = self.fslot.get('funcs')
        if s is not None:
            self.slot10 = s
        else:
            for key, ch in self.changes.items():
                if set(k for k, _, _, _ in ch) == {10}:
                    self.slot10 = key

    def payload_is(self, k, v, p, c):
        exp = Adt('Some', [p]) if k == 8 else (self.code(p) if k == 10 else self.plain(p))
        try:
            return c.same(exp, v) is None
        except (Undecided, Fork, Unsupported, NeedSplit) + BUGS:
            return None

    def plain(self, p):
        t = self.E.ty(p.ty)['s']
        if self.W.container(t) == 'unwrapping':
            return self.W.payload(self.E, p, 'unwrapping')
        return p

    def content(self, c, st, k, p, q2):
        """One transition reading section k: exactly the right parts may change, to the right values."""
        E = self.E
        done = set()
        for key, g in self.lp.phis.items():
            v = self.slot_value(st, key)
            fld = [n for n, s in self.fslot.items() if s == key]
            if not fld:
                if key == self.slot10 and k == 10 and q2[3] != 'ne':
                    d = c.same(self.code(p), v)
                    self.add('pairing', 'bad' if d else 'ok', 'section 10 is kept as %s' % d, c.last)
                continue
            f = fld[0]
            mine = FIELDS.get(k) == f
            group = 'pairing' if f == 'funcs' else 'content'
            if not mine:
                if v is not g and c.same(g, v) is not None:
                    self.add(group, 'bad', 'section %d changes the %s of the module' % (k, f), c.last)
                else:
                    self.add(group, 'ok', None)
                continue
            done.add(f)
            if k == 10:
                if q2[3] == 'ne':
                    continue
                d = self.paired(c, v, self.code(p))
            else:
                d = c.same(Adt('Some', [p]) if k == 8 else self.plain(p), v)
            if d:
                self.add(group, 'bad', 'section %d is stored as %s' % (k, d) if v is not g else 'the content of section %d is dropped' % k, c.last)
            else:
                self.add(group, 'ok', None)
        if k == 3 and self.slot3 is not None:
            self.add('pairing', 'ok', None)

    def paired(self, c, v, code):
        """Difference between v and the functions made of declared types and bodies."""
        E = self.E
        if self.slot3 is None:
            raise Undecided('declared function types are not kept in one place')
        decl = self.lp.phis[self.slot3]
        if v is self.lp.phis.get(self.slot10):
            return 'nothing'
        q, t, b = E.as_seq(v), E.as_seq(decl), E.as_seq(code)
        n = E.seq_len(c.view, q)
        if not c.test(E.mk_eq(n, E.seq_len(c.view, b))):
            return '%s functions instead of %s' % (brief(n), brief(E.seq_len(c.view, b)))
        i = Sym(('i', 'pair'), E.usize, (0, LEN_MAX))
        F = c.F.copy()
        if not F.assume(E.mk_lt(i, E.seq_len(c.view, b))):
            return None
        k = Cur(E, c.st, F, [])
        el = E.seq_get(k.view, b, i)
        fl = E.expand(el) if isinstance(el, Sym) else el
        names = [f[0] for f in E.ty(el.ty)['variants'][0]['fields']]
        exp = {nm: x for nm, x in zip(names, fl.f)}
        exp['ty'] = E.seq_get(k.view, t, i)
        return k.same(Adt(None, exp), E.seq_get(k.view, q, i))

    # -- ways out of the loop
    def exits(self):
        E, lp, S = self.E, self.lp, self.S
        # absent sections
        for f, key in self.fslot.items():
            v0 = self.slot_value(lp.S0, key)
            empty = (isinstance(v0, VecV) and not v0.seq.parts) or (isinstance(v0, Agg) and v0.var == 0 and not v0.f)
            self.add('pairing' if f == 'funcs' else 'content', 'ok' if empty else 'bad', None if empty else 'absent section leaves %s in %s' % (brief(v0), f), self.site)
        for k, f in FIELDS.items():
            if f not in self.fslot and not (k == 10 and self.slot10 is not None):
                xs = self.field.get(f, ())
                if not xs:
                    self.add('content', 'und', 'no successful path', self.site)
                elif all(isinstance(x, (VecV, Agg)) and not mentions(x, set(lp.phis.values())) for x in xs):
                    self.lack('pairing' if k == 10 else 'content', 'the content of section %d never reaches %s of the module' % (k, f), self.site)
                else:
                    self.add('pairing' if k == 10 else 'content', 'und', 'the %s of the module are not one loop-carried value' % f, self.site)
        if self.slot3 is None:
            if not any(3 in s for s in self.mean.values()):
                self.lack('pairing', 'the type indices of the function section are not kept', self.site)
            else:
                self.add('pairing', 'und', 'declared function types are not kept in one place', self.site)
        for st in self.out:
            evs = st.events()
            pos = None
            for i, e in enumerate(evs):
                if e[0] == 'shape' and e[1] is lp:
                    pos = i
            if pos is None or st.done[0] not in ('ret',):
                continue
            shp = evs[pos][2]
            self.paths += 1
            for q in self.reach.get(shp, ()):
                self.leave(st, evs[pos + 1:], q)

    def leave(self, st, evs, q):
        E = self.E
        kind, val = ret_of(E, st)
        for F, split in self.cases(st):
            if q != 'dead' and not self.head(q, F):
                continue
            c = Cur(E, st, F, evs)
            try:
                try:
                    if q == 'dead':
                        if kind == 'ok':
                            self.add('sections', 'bad', 'accepts a module with %s' % self.dead_site[0], self.dead_site[1] or self.site)
                        else:
                            self.add('sections', 'ok', None)
                        continue
                    e = c.peek()
                    if e is None:
                        self.add('sections', 'bad', '%s without looking for a further section (%s)' % ('stops' if kind == 'ok' else 'fails', self.qs(q)), c.last or self.site)
                        continue
                    if e[0] == 'eof':
                        c.pos += 1
                        while c.peek() is not None and c.peek()[0] == 'eof':
                            c.pos += 1
                        c.finish()
                        self.end(c, st, q, kind, val)
                        continue
                    k, p, q2 = self.step(c, q, True)
                    if k == 10 and q2[3] == 'ne':
                        if kind == 'ok':
                            self.add('pairing', 'bad', 'accepts different numbers of declared and defined functions', c.last)
                        else:
                            self.add('pairing', 'ok', None)
                        continue
                    # the section itself was fine
                    c.finish()
                    self.lack('pairing' if k == 10 else 'sections', '%s after a well-formed section %d (%s)' % ('stops' if kind == 'ok' else 'fails', k, self.qs(q)), c.last)
                except (Reject, Failed) as r:
                    if kind == 'ok':
                        self.add('sections', 'bad', 'accepts a module with %s' % (r.args[0] if r.args else 'a section that failed to decode'), c.last or self.site)
                    else:
                        self.add('sections', 'ok', None)
                except NeedSplit as n:
                    raise Fork(n.cond)
            except Fork as f:
                split(f.cond)
            except Mismatch as m:
                g = 'size prefix' if 'size prefix' in m.msg else 'sections'
                self.add(g, 'bad', m.msg, m.site or c.last or self.site)
            except (Undecided, Unsupported) + BUGS as u:
                self.add('sections', 'und', why(u), c.last)

    def end(self, c, st, q, kind, val):
        """The input ends at a section boundary."""
        E, lp = self.E, self.lp
        bad = False
        if q[2] and q[3] == 'ne':
            bad = True
        elif not q[2] and q[1]:
            if self.slot3 is None:
                raise Undecided('declared function types are not kept in one place')
            n3 = E.seq_len(c.view, E.as_seq(lp.phis[self.slot3]))
            bad = not c.test(E.mk_eq(n3, 0))
        if bad:
            if kind == 'ok':
                self.add('pairing', 'bad', 'accepts different numbers of declared and defined functions (%s)' % self.qs(q), self.site)
            else:
                self.add('pairing', 'ok', None)
            return
        if kind == 'err':
            self.lack('sections', 'rejects at the end of the input %s' % self.qs(q), self.site)
            return
        self.add('sections', 'ok', None)
        if not isinstance(val, Agg):
            raise Undecided('module value')
        names = [f[0] for f in E.ty(val.ty)['variants'][0]['fields']]
        for n, x in zip(names, val.f):
            if n in self.fslot:
                d = c.same(lp.phis[self.fslot[n]], x)
                self.add('content', 'bad' if d else 'ok', '%s of the module: %s' % (n, d), self.site)
            elif n == 'funcs' and self.slot10 is not None:
                if not q[2]:
                    n = E.seq_len(c.view, E.as_seq(x))
                    d = None if c.test(E.mk_eq(n, 0)) else '%s functions without a code section' % brief(n)
                else:
                    d = self.paired(c, x, lp.phis[self.slot10])
                self.add('pairing', 'bad' if d else 'ok', 'functions of the module: %s' % d, self.site)
