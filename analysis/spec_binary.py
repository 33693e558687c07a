"""The WebAssembly 1.0 binary format, as a specification over abstract events."""
from dom import *
from oracle import *

VAL = {0x7F: 'I32', 0x7E: 'I64', 0x7D: 'F32', 0x7C: 'F64'}


def load_ops():
    """opcode -> (instruction, immediates). Immediates: names of the readers below."""
    t = {0x00: ('Unreachable', []), 0x01: ('Nop', []), 0x05: ('Else', []), 0x0B: ('End', []),
         0x02: ('Block', ['blocktype', 'expr']), 0x03: ('Loop', ['blocktype', 'expr']), 0x04: ('If', 'if'),
         0x0C: ('Br', ['idx']), 0x0D: ('BrIf', ['idx']), 0x0E: ('BrTable', ['labels', 'idx']), 0x0F: ('Return', []),
         0x10: ('Call', ['idx']), 0x11: ('CallIndirect', ['idx', 'reserved']),
         0x1A: ('Drop', []), 0x1B: ('Select', []),
         0x20: ('LocalGet', ['idx']), 0x21: ('LocalSet', ['idx']), 0x22: ('LocalTee', ['idx']),
         0x23: ('GlobalGet', ['idx']), 0x24: ('GlobalSet', ['idx']),
         0x3F: ('MemSize', ['reserved']), 0x40: ('MemGrow', ['reserved']),
         0x41: ('ConstI32', ['i32']), 0x42: ('ConstI64', ['i64']), 0x43: ('ConstF32', ['f32']), 0x44: ('ConstF64', ['f64'])}
    mem = '''I32Load I64Load F32Load F64Load I32Load8S I32Load8U I32Load16S I32Load16U I64Load8S I64Load8U I64Load16S
        I64Load16U I64Load32S I64Load32U I32Store I64Store F32Store F64Store I32Store8 I32Store16 I64Store8 I64Store16
        I64Store32'''.split()
    for i, n in enumerate(mem):
        t[0x28 + i] = (n, ['u32', 'u32'])
    irel = 'Eqz Eq Ne LtS LtU GtS GtU LeS LeU GeS GeU'.split()
    frel = 'Eq Ne Lt Gt Le Ge'.split()
    iop = 'Clz Ctz Popcnt Add Sub Mul DivS DivU RemS RemU And Or Xor Shl ShrS ShrU Rotl Rotr'.split()
    fop = 'Abs Neg Ceil Floor Trunc Nearest Sqrt Add Sub Mul Div Min Max Copysign'.split()
    seq = ['I32' + x for x in irel] + ['I64' + x for x in irel] + ['F32' + x for x in frel] + ['F64' + x for x in frel]
    seq += ['I32' + x for x in iop] + ['I64' + x for x in iop] + ['F32' + x for x in fop] + ['F64' + x for x in fop]
    seq += '''I32WrapI64 I32TruncF32S I32TruncF32U I32TruncF64S I32TruncF64U I64ExtendI32S I64ExtendI32U I64TruncF32S
        I64TruncF32U I64TruncF64S I64TruncF64U F32ConvertI32S F32ConvertI32U F32ConvertI64S F32ConvertI64U F32DemoteF64
        F64ConvertI32S F64ConvertI32U F64ConvertI64S F64ConvertI64U F64PromoteF32 I32ReinterpretF32 I64ReinterpretF64
        F32ReinterpretI32 F64ReinterpretI64'''.split()
    for i, n in enumerate(seq):
        t[0x45 + i] = (n, [])
    assert 0x45 + len(seq) - 1 == 0xBF and len(t) == 172
    return t


OPS = load_ops()
INTS = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False),
        'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True)}


NAMED = {'valtype': 'valtype', 'labelidx': 'idx', 'funcidx': 'idx', 'typeidx': 'idx', 'functype': 'functype', 'import': 'import_',
         'table': 'table', 'mem': 'mem', 'global': 'global_', 'export': 'export', 'start': 'start', 'elem': 'elem', 'data': 'data',
         'code': 'code', 'custom': 'custom'}


class Spec:
    """Readers for every construct; world gives the container types in use."""

    def __init__(self, world):
        self.w = world

    def named(self, want, ret, prog):
        """Reader of a construct by name; ret is the type of the decoder's result."""
        if want == 'byte':
            t = prog.types[prog.field_tys(prog.types.index(ret), 0)[0]] if ret and ret['k'] == 'enum' else None
            return self.byte_el if t and t['k'] == 'struct' else self.byte
        return getattr(self, NAMED[want]) if want in NAMED else None

    # -- leaves
    def byte(self, c):
        e = c.next('a byte')
        if e[0] == 'byte':
            return e[1]
        if e[0] == 'eof':
            raise Failed()
        if e[0] == 'fail':
            raise Failed()
        raise Mismatch('reads %s instead of a byte' % ev_str(e), c.last)

    def pick(self, c, b, table):
        """Entry of table for the byte, or rejection."""
        for k, v in table.items():
            if c.test(T('bs', b, 1 << k)):
                return v
        raise Reject('tag byte')

    def atom(self, c, name):
        """A constituent decoded as an atomic event of that type."""
        e = c.next(name)
        if e[0] == 'parse' and e[1] == name:
            return e[2]
        if e[0] == 'fail' and e[1] == name:
            raise Failed()
        raise Mismatch('reads %s instead of %s' % (ev_str(e) if e[0] != 'fail' else short(e[1]), short(name)), c.last)

    def int(self, c, name):
        e = c.peek()
        if e is not None and e[0] in ('byte', 'eof'):
            return self.leb(c, *INTS[name])
        return self.atom(c, name)

    def leb(self, c, bits, signed):
        out = []
        pos = 0
        while True:
            b = self.byte(c)
            top = ((1 << 256) - 1) ^ ((1 << 128) - 1)
            more = c.test(T('bs', b, top))
            for i in range(7):
                if pos + i < bits:
                    out.append((b, i, 0))
                else:
                    want = 0
                    if signed:
                        want = self.bitval(c, out[bits - 1])
                    if self.bitval(c, (b, i, 0)) != want:
                        raise Reject('value out of range')
            pos += 7
            if not more:
                break
        if pos < bits:
            out = out + [out[-1] if signed else 0] * (bits - pos)
        return c.E.from_bits(tuple(out[:bits]), signed)

    def bitval(self, c, bit):
        a, i, _ = bit
        m = 0
        for v in range(256):
            if v >> i & 1:
                m |= 1 << v
        return int(c.test(T('bs', a, m)))

    def float(self, c, name):
        e = c.peek()
        if e is not None and e[0] in ('byte', 'eof'):
            n = int(name[1:]) // 8
            bits = []
            for _ in range(n):
                b = self.byte(c)
                bits += [(b, i, 0) for i in range(8)]
            return c.E.from_bits(tuple(bits), False)
        return self.atom(c, name)

    # -- containers
    def vec(self, c, elem, want):
        """A count and that many elements; want is the element's specification name."""
        e = c.peek()
        if e is not None and e[0] in ('parse', 'fail') and self.w.container(e[1]) == 'vec':
            t = e[1]
            self.elem_type(c, self.w.arg(t), want)
            v = self.atom(c, t)
            return SeqX([('v', v)])
        if e is not None and e[0] in ('parse', 'fail') and self.w.container(e[1]) == 'unwrapping':
            t = e[1]
            self.elem_type(c, self.w.arg(t), want)
            v = self.atom(c, t)
            return SeqX([('v', self.w.payload(c.E, v, 'unwrapping'))])
        n = self.int(c, 'u32')
        return self.counted(c, n, elem)

    def counted(self, c, n, elem):
        E = c.E
        m = 0
        parts = []
        while True:
            e = c.peek()
            if e is not None and e[0] == 'loop':
                c.pos += 1
                kind, xs = self.each(c, e[1], elem)
                parts.append((kind, e[1], xs))
                m = add(m, e[1].kappa)
                continue
            if c.test(E.mk_eq(m, n)):
                return SeqX(parts)
            if not c.test(E.mk_lt(m, n)):
                raise Mismatch('reads more elements than its count', c.last)
            x = elem(c)
            parts += list(x.parts) if isinstance(x, SeqX) else [('e', x)]
            m = add(m, 1)

    def each(self, c, lp, elem):
        """Every continuing iteration must decode exactly one element."""
        if lp.kind != 'ind':
            raise Undecided('loop of another kind')
        xs = []
        for cont in lp.conts:
            got = []

            def f(k, cont=cont):
                k2 = Cur(c.E, cont['state'], k.F, cont['events'])
                x = elem(k2)
                k2.finish()
                return x
            try:
                rs = c.forked(cont['state'], cont['facts'], f)
            except (Reject, Failed):
                raise Mismatch('continues after an element that is not well-formed', lp.site)
            except Mismatch as m:
                raise Mismatch('an iteration ' + m.msg, m.site or lp.site)
            if any(repr(r) != repr(rs[0]) for r in rs):
                raise Undecided('iteration with several element forms')
            xs.append(rs[0])
        return ('cs' if xs and isinstance(xs[0], SeqX) else 'c'), xs

    def elem_type(self, c, t, want):
        """Is the element type of a container one that decodes the wanted construct?"""
        if t in self.w.decodes.get(want, ()):
            return
        r = self.w.decodes_as(t, want)
        if r is None:
            raise Undecided('elements of type %s' % short(t))
        if r is not True:
            raise Mismatch('a vector of %s where %s are expected: %s' % (short(t), want, r), c.last)

    def sized(self, c, want):
        e = c.next('a size-prefixed region')
        if e[0] in ('parse', 'fail') and self.w.container(e[1]) == 'sized':
            if e[0] == 'fail':
                t = self.w.arg(e[1])
                self.region(c, t, want)
                raise Failed()
            t = self.w.arg(e[1])
            self.region(c, t, want)
            return self.w.payload(c.E, e[2], 'sized')
        if e[0] in ('parse', 'fail') and 'sized' in self.w.names.values():
            raise Mismatch('reads %s without its size prefix' % short(e[1]), c.last)
        raise Undecided('size-prefixed region decoded by other means')

    def region(self, c, t, want):
        k = self.w.container(t)
        if want[0] == 'vec' and k in ('vec', 'unwrapping'):
            a = self.w.arg(t)
            if isinstance(want[1], tuple) and want[1][0] == 'sized':
                if 'sized' not in self.w.names.values():
                    raise Undecided('entries of type %s' % short(a))
                if self.w.container(a) != 'sized':
                    raise Mismatch('entries are read without their size prefix', c.last)
                return self.region(c, self.w.arg(a), want[1][1])
            return self.elem_type(c, a, want[1])
        if want[0] in ('vec', 'sized') and k is not None:
            raise Mismatch('%s where %s is expected' % (short(t), want), c.last)
        name = want if isinstance(want, str) else want[0]
        self.elem_type(c, t, name)

    # -- composite constructs
    def name(self, c):
        """Text: a byte vector that is well-formed UTF-8."""
        e = c.peek()
        if e is not None and e[0] in ('parse', 'fail') and e[1] == self.w.string:
            return self.atom(c, e[1])
        q = self.vec(c, self.byte_el, 'byte')
        e = c.peek()
        if e is None:
            raise Mismatch('text is not checked to be UTF-8', c.last)
        if e[0] != 'utf8':
            raise Mismatch('text is not checked to be UTF-8', c.last)
        c.pos += 1
        d = c.same_seq(q, VecV(e[1]))
        if d:
            raise Mismatch('checks other text than it read: ' + d, c.last)
        if not e[2]:
            raise Reject('not UTF-8')
        return Adt(None, [SeqX([('v', VecV(e[1]))])])

    def byte_el(self, c):
        return Adt(None, [self.byte(c)])

    def idx(self, c):
        return Adt(None, [self.int(c, 'u32')])

    def reserved(self, c):
        """A zero byte; an index encoding that yields it is accepted as well."""
        e = c.peek()
        if e is not None and e[0] == 'byte':
            b = self.byte(c)
            return Adt(None, [b])
        return self.idx(c)

    def valtype(self, c):
        return Adt(self.pick(c, self.byte(c), VAL), [])

    def reftype(self, c):
        self.pick(c, self.byte(c), {0x70: 1})
        return Adt('FuncRef', [])

    def blocktype(self, c):
        b = self.byte(c)
        v = self.pick(c, b, {**VAL, 0x40: ''})
        return Adt(None, [SeqX([('e', Adt(v, []))] if v else [])])

    def functype(self, c):
        self.pick(c, self.byte(c), {0x60: 1})
        p = self.vec(c, self.valtype, 'valtype')
        r = self.vec(c, self.valtype, 'valtype')
        return Adt(None, {'params': p, 'results': r})

    def limits(self, c):
        k = self.pick(c, self.byte(c), {0: 1, 1: 2})
        mn = self.int(c, 'u32')
        mx = Adt('Some', [self.int(c, 'u32')]) if k == 2 else Adt('None', [])
        return Adt(None, {'min': mn, 'max': mx})

    def tabletype(self, c):
        e = self.reftype(c)
        l = self.limits(c)
        return Adt(None, {'elem': e, 'lim': l})

    def memtype(self, c):
        return Adt(None, {'lim': self.limits(c)})

    def mut(self, c):
        return Adt(self.pick(c, self.byte(c), {0: 'Const', 1: 'Var'}), [])

    def globaltype(self, c):
        v = self.valtype(c)
        m = self.mut(c)
        return Adt(None, {'val': v, 'mt': m})

    # -- instructions
    def one(self, c):
        return self.atom(c, self.w.instr)

    def seq(self, c):
        """Instructions up to an end or else marker: (instructions, marker)."""
        parts = []
        while True:
            e = c.peek()
            if e is not None and e[0] == 'loop':
                c.pos += 1

                def el(k):
                    v = self.one(k)
                    if k.is_var(v, 'End') or k.is_var(v, 'Else'):
                        raise Mismatch('continues past the end of the block')
                    return v
                kind, xs = self.each(c, e[1], el)
                parts.append((kind, e[1], xs))
                continue
            v = self.one(c)
            for m in ('End', 'Else'):
                if c.is_var(v, m):
                    return SeqX(parts), m
            parts.append(('e', v))

    def expr(self, c):
        e = c.peek()
        if e is not None and e[0] in ('parse', 'fail') and e[1] == self.w.expr:
            return self.atom(c, e[1])
        q, m = self.seq(c)
        if m == 'Else':
            raise Reject('else outside of an if')
        return Adt(None, [q])

    def constexpr(self, c):
        e = c.peek()
        if e is not None and e[0] in ('parse', 'fail') and e[1] == self.w.expr:
            v = self.atom(c, e[1])
            return Adt(None, [SeqX([('v', c.E.expand(v).f[0])])])
        return self.expr(c)

    def instr(self, c):
        b = self.byte(c)
        name, imm = self.pick(c, b, OPS)
        if imm == 'if':
            rt = self.blocktype(c)
            t, m = self.seq(c)
            f = SeqX([])
            if m == 'Else':
                e = c.peek()
                if e is not None and e[0] in ('parse', 'fail') and e[1] == self.w.expr:
                    v = self.atom(c, e[1])
                    return Adt('If', [rt, Adt(None, [t]), v])
                f, m = self.seq(c)
                if m == 'Else':
                    raise Reject('second else')
            return Adt('If', [rt, Adt(None, [t]), Adt(None, [f])])
        args = []
        for k in imm:
            if k == 'labels':
                args.append(self.vec(c, self.idx, 'labelidx'))
            elif k in INTS:
                args.append(self.int(c, k))
            elif k in ('f32', 'f64'):
                args.append(self.float(c, k))
            else:
                args.append(getattr(self, k)(c))
        return Adt(name, args)

    # -- module entries
    def importdesc(self, c):
        k = self.pick(c, self.byte(c), {0: 'Func', 1: 'Table', 2: 'Mem', 3: 'Global'})
        x = {'Func': self.idx, 'Table': self.tabletype, 'Mem': self.memtype, 'Global': self.globaltype}[k](c)
        return Adt(k, [x])

    def exportdesc(self, c):
        k = self.pick(c, self.byte(c), {0: 'Func', 1: 'Table', 2: 'Mem', 3: 'Global'})
        return Adt(k, [self.idx(c)])

    def import_(self, c):
        m = self.name(c)
        n = self.name(c)
        d = self.importdesc(c)
        return Adt(None, {'module': m, 'name': n, 'desc': d})

    def export(self, c):
        n = self.name(c)
        d = self.exportdesc(c)
        return Adt(None, {'name': n, 'desc': d})

    def table(self, c):
        return Adt(None, {'ty': self.tabletype(c)})

    def mem(self, c):
        return Adt(None, {'ty': self.memtype(c)})

    def global_(self, c):
        t = self.globaltype(c)
        i = self.constexpr(c)
        return Adt(None, {'ty': t, 'init': i})

    def elem(self, c):
        t = self.idx(c)
        o = self.constexpr(c)
        i = self.vec(c, self.idx, 'funcidx')
        return Adt(None, {'table': t, 'offset': o, 'init': i})

    def data(self, c):
        m = self.idx(c)
        o = self.constexpr(c)
        i = self.vec(c, self.byte, 'byte')
        return Adt(None, {'mem': m, 'offset': o, 'init': i})

    def start(self, c):
        return Adt(None, {'func': self.idx(c)})

    def locals_(self, c):
        """Runs of (count, type), expanded."""
        e = c.peek()
        if e is not None and e[0] in ('parse', 'fail') and self.w.container(e[1]) == 'compact':
            self.elem_type(c, self.w.arg(e[1]), 'valtype')
            v = self.atom(c, e[1])
            return SeqX([('v', self.w.payload(c.E, v, 'compact'))])
        n = self.int(c, 'u32')
        return self.counted(c, n, lambda k: self.run(k, self.valtype))

    def run(self, c, elem):
        n = self.int(c, 'u32')
        x = elem(c)
        return SeqX([('r', n, x)])

    def code(self, c):
        l = self.locals_(c)
        b = self.expr(c)
        return Adt(None, {'locals': l, 'body': b})

    def custom(self, c):
        self.name(c)
        self.rest(c)
        return ANY

    def rest(self, c):
        """Everything up to the end of the input."""
        e = c.peek()
        if e is not None and e[0] == 'parse' and e[1] == self.w.consume:
            c.pos += 1
            return
        if e is not None and e[0] == 'fail' and e[1] == self.w.consume:
            raise Failed()
        while True:
            e = c.next('the rest of the input')
            if e[0] == 'loop':
                for cont in e[1].conts:
                    if [x[0] for x in cont['events'] if x[0] not in NOISE] != ['byte']:
                        raise Mismatch('does not skip byte by byte', e[1].site)
                continue
            if e[0] == 'byte':
                continue
            if e[0] == 'eof':
                return
            raise Mismatch('reads %s while skipping' % ev_str(e), c.last)
