"""Contracts of the code generator, checked on the traces the real functions emit.

contract of genExpr(asm, e, takeAddr, fn), used at every call site and proved for every kind of expression:
  requires  fn.sp = number of slots between rbp and rsp; fn.reg's top = types of the argument registers in use,
            fn.gcRoots = the initialised pointer slots
  ensures   rax = value (address, if takeAddr) of e in the world on entry, world = world after e evaluated once,
            argument registers in use, rbp, rsp and everything pushed are unchanged,
            fn.sp, fn.reg and fn.gcRoots are unchanged
contract of genStmtList(asm, stmts, fn): the world becomes the world after the statements; nothing else lives in
            registers; or the function returned.
"""
import z3
from .ssa import *
from .x86 import *

_gcache = {}


def interp(p, ctx):
    I = Interp(p, ctx)
    if id(p) not in _gcache:
        J = Interp(p, ctx)
        J.init_globals()
        _gcache[id(p)] = J.g
    I.g = _gcache[id(p)]
    return I


class NumStr(SStr):
    """text of an integer that is not known: the numeral of num"""
    __slots__ = ('num',)


PTR_KINDS = ['Array', 'Struct', 'String', 'Function', 'Enum', 'Parameter', 'Bytes']
NONPTR = ['Integer', 'Boolean', 'Pointer', 'Nothing']


def mnemonics(I, rec):
    """an instruction is what is written for it"""
    try:
        m = I.gget('main.instNames')
        out = {k: I.maplookup(m, k)[0] for k in rec.insn}
        return {k: v for k, v in out.items() if isinstance(v, str)} or rec.insn
    except Exception:
        return rec.insn


class CG:
    def __init__(self, obs, p, ctx, m=0, regtypes=None, sect=''):
        self.obs, self.p, self.ctx, self.sect = obs, p, ctx, sect
        self.I = I = interp(p, ctx)
        self.rec = Recorder(p)
        self.rec.insn = mnemonics(I, self.rec)
        self.rec.onaddr = self.gcaddr
        self.ids = {}
        self.lits = {}
        self.real = set()
        self.kinds = {p.const('main.' + k): k for k in PTR_KINDS + NONPTR}
        self.sp0 = z3.Int(ctx.fresh('sp0'))
        ctx.assume(self.sp0 >= 2)
        ctx.assume(self.sp0 <= 1000)
        # entry GC roots: two initialised slots of the frame
        self.rt = self.type('Struct')
        o1, o2 = z3.Int(ctx.fresh('root')), z3.Int(ctx.fresh('root'))
        ctx.assume(z3.And(o1 >= 1, o1 <= self.sp0, o2 >= 1, o2 <= self.sp0, o1 != o2))
        groot = p.by_name['main.GcRoot']
        self.roots0 = [(o1 * 8, self.rt), (o2 * 8, self.rt)]
        self.gs = I.new('main.GcState', roots=I.slice([StructV([o, t], groot) for o, t in self.roots0]))
        self.m = m
        self.regtypes = regtypes if regtypes is not None else [self.gtype('intType')] * m
        self.fn = I.new('main.function', gcRoots=self.gs, sp=self.sp0, gcMaps=MapV(None), AstName='f', id=7,
                        reg=I.slice([I.slice(self.regtypes)]) if m else None)
        I.stubs['main.genExpr'] = self.stub_genExpr
        I.stubs['main.genStmtList'] = self.stub_stmts
        I.ext['strconv.Itoa'] = self.itoa
        self.nums = {}
        self.evalcount = 0

    # ---------------------------------------------------------------- building inputs
    def type(self, kind, data=None):
        I = self.I
        if data is None:
            dn = {'Array': 'ArrayType', 'Struct': 'StructType', 'Function': 'FunctionType', 'Enum': 'EnumType',
                  'Parameter': 'ParameterType', 'Integer': 'IntType', 'Boolean': 'BoolType', 'String': 'StringType',
                  'Bytes': 'BytesType', 'Nothing': 'NothingType', 'Pointer': 'IntType'}[kind]
            data = I.new('main.' + dn)
            if kind == 'Array':
                I.setf(data, 'Elem', self.gtype('intType'))
            elif kind == 'Function':
                I.setf(data, 'ret', self.gtype('nothingType'))
            elif kind in ('Struct', 'Enum', 'Parameter'):
                I.setf(data, 'Name', {'Struct': 'st', 'Enum': 'en', 'Parameter': 'T'}[kind])
        tid = self.p.ptr_to[data.c[data.k].tid]
        return I.new('main.Type', Kind=self.p.const('main.' + kind), Data=IfaceV(tid, data))

    def gtype(self, n):
        return self.I.gget('main.' + n)

    def kind(self, t):
        return self.kinds.get(self.I.getf(t, 'Kind'))

    def node(self, op, **kw):
        return self.I.new('main.Node', op=self.p.const('main.' + op), **kw)

    def child(self, name, typ, nosym=False):
        """an arbitrary expression"""
        # its operation is any that yields the type; looking further into it is outside the contract
        ops = ['opFuncCall', 'opArray', 'opDot', 'opTernary']
        if not nosym:
            ops += ['opIdentifier']
        k = self.kind(typ)
        if k == 'Integer':
            ops += ['opLit', 'opAdd', 'opSub', 'opMul', 'opDiv', 'opBAnd', 'opBOr', 'opBXor', 'opBLeft', 'opBRight', 'opNeg', 'opBNot']
        elif k == 'Boolean':
            ops += ['opLit', 'opNot', 'opAnd', 'opOr', 'opEq', 'opGt', 'opGte', 'opLt', 'opLte']
        elif k == 'String':
            ops += ['opLit']
        elif k == 'Array':
            ops += ['opArrayLit']
        op = z3.Int(self.ctx.fresh('op_' + name))
        self.ctx.assume(z3.Or([op == self.p.const('main.' + o) for o in ops]))

        lit = []

        def text():
            # a literal operand has a text, and the value that text denotes
            if k not in ('Integer', 'Boolean') or not self.ctx.decide(op == self.p.const('main.opLit')):
                raise Unsupported('the code looks into an operand')
            if not lit:
                lit.append(self.ctx.pick(['0', '1', '2', '8', '1000003', '4611686018427387903'] if k == 'Integer' else ['true', 'false']))
                self.lits[name] = bv(2 * int(lit[0]) + 1) if k == 'Integer' else bv(int(lit[0] == 'true'))
            return lit[0]

        def deep(f):
            if f == 'sym' and k in ('Integer', 'Boolean') and self.ctx.decide(op == self.p.const('main.opLit')):
                return self.I.new('main.Symbol', Name=text(), Type=typ, IsLiteral=True)
            if f == 'token':
                v = text()
                tn = [q for q in self.p.by_name if q.endswith('lex.Token')][0]
                return self.I.new(tn, Val=v, Kind=self.p.const('lex.' + {'true': 'True', 'false': 'False'}.get(v, 'Integer')))
            raise Unsupported('the code looks into an operand')
        n = self.I.new('main.Node', op=op, typ=typ)
        st = n.c[n.k]
        for i, f in enumerate(self.p.fields(st.tid)):
            if f['n'] not in ('op', 'typ') and not (nosym and f['n'] == 'sym'):
                st[i] = Lazy(lambda f=f['n']: deep(f))
        self.ids[id(n.c)] = name
        n.c.append(name)   # keep the container alive and unique
        self.keep = getattr(self, 'keep', []) + [n]
        return n

    def opaque_text(self, n, num):
        s = NumStr(z3.Int(self.ctx.fresh(n)))
        s.num = num
        return s

    def itoa(self, I, a):
        v = a[0]
        if isinstance(v, int):
            return str(v)
        s = NumStr(z3.Int(self.ctx.fresh('itoa')))
        s.num = v
        return s

    def numlit(self, s):
        if isinstance(s, NumStr):
            return s.num if z3.is_bv(s.num) else z3.Int2BV(s.num, 64)
        return None

    # ---------------------------------------------------------------- contracts at call sites
    def state(self):
        I = self.I
        regs = I.items(I.getf(self.fn, 'reg'))
        return (I.getf(self.fn, 'sp'), [I.items(x) for x in regs], self.rootlist(I.getf(self.fn, 'gcRoots')))

    def rootlist(self, gs):
        out = []
        rs = self.I.getf(gs, 'roots')
        for r in self.I.items(rs):
            ix = lambda n: force(r, self.p.fidx(r.tid, n))
            out.append((ix('off'), ix('typ')))
        return out

    def gcaddr(self, I, o):
        if o[0] != 'lab':
            return ('other', o)
        m = I.getf(self.fn, 'gcMaps')
        v, ok = I.maplookup(m, o[1])
        if ok is False:
            nogc = I.gget('main.noGc')
            if nogc == o[1]:
                return ('map', [])
            return ('other', o)
        out = []
        for r in I.items(v):
            ix = lambda n: force(r, self.p.fidx(r.tid, n))
            out.append((ix('off'), ix('typ')))
        return ('map', out)

    def stub_genExpr(self, I, args):
        asm, e, ta, fn = args
        if id(e.c) not in self.ids:
            f = I.p.funcs['main.genExpr']
            return I.run(f, args, ())
        self.obs.contracts.add('main.genExpr')
        self.flushpeep(asm)
        self.rec.ev.append(('eval', self.ids[id(e.c)], ta, self.state(), I.getf(e, 'typ')))
        return None

    def stub_stmts(self, I, args):
        asm, st, fn = args
        self.obs.contracts.add('main.genStmtList')
        self.rec.ev.append(('stmts', self.stmtname(st), None, self.state(), None))
        return None

    def flushpeep(self, asm):
        if asm is not self.rec:
            raise Unsupported('asm writer replaced')

    def stmtname(self, st):
        for n, s in getattr(self, 'lists', []):
            if s is st or (isinstance(s, SliceV) and isinstance(st, SliceV) and s.a is st.a):
                return n
        raise Unsupported('unknown statement list')

    # ---------------------------------------------------------------- machine callbacks
    def ob(self, group, name, cond, info=''):
        want = getattr(self.obs, 'want', None)
        if want is not None and group not in want:
            return
        self.obs.prove(self.ctx, '%s#%s:%s' % (self.sect, group, name), cond, info)

    def is_ptr(self, t):
        return self.kind(t) in PTR_KINDS

    def check_state(self, M, st, what):
        """fn.sp agrees with the machine; live pointers are roots; only valid roots are listed"""
        sp, regs, roots = st
        self.ob('stack', what + '/sp-tracked', sp == self.sp0 + M.k)
        self.check_roots(M, roots, what)

    def check_roots(self, M, roots, what):
        req, allowed = list(self.roots0), list(self.roots0)
        for j, v in M.slots.items():
            t = M.ty(v)
            if t is None:
                continue
            off = (self.sp0 + j) * 8
            if self.is_ptr(t):
                req.append((off, t))
                allowed.append((off, t))
            elif self.kind(t) == 'Integer':
                allowed.append((off, t))
        for off, t in req:
            self.ob('gc', what + '/live-pointer-is-root', orl([self.I.eq(off, o) for o, _ in roots]),
                    'slot %s' % off)
        for o, _ in roots:
            self.ob('gc', what + '/root-is-initialised-pointer', orl([self.I.eq(off, o) for off, _ in allowed]),
                    'root %s' % o)

    def assume_typed(self, v, t):
        k = self.kind(t)
        # an int is any word: its value is v >> 1 (elements of a fresh array are untagged zeros)
        if k == 'Boolean':
            self.ctx.assume(z3.Or(v == bv(0), v == bv(1)))

    def on_eval(self, M, e):
        kind, name, ta, st, typ = e
        self.check_state(M, st, '%s %s' % ('before', name if kind == 'eval' else 'stmts'))
        if kind == 'stmts':
            M.log.append(('stmts', name, M.mem, M.x))
            ret = z3.Function('ret_' + name, MEM, XS, z3.BoolSort())(M.mem, M.x)
            if self.ctx.decide(ret):
                return ('returned', name)
            mem, x = M.mem, M.x
            M.mem, M.x = postm(name)(mem, x), postx(name)(mem, x)
            for r in CALLER:
                M.havoc(r)
            return None
        n = name + ('_addr' if ta else '')
        top = st[1][-1] if st[1] else []
        if len(top) > 6:
            raise Bad('registers', 'more than six registers in use')
        for i, t in enumerate(top):
            ty = M.ty(M.r[ARGS[i]])
            if ty is not None:
                self.ob('gc', 'register-type-tracked', self.is_ptr(ty) == self.is_ptr(t))
        v = valf(n)(M.mem, M.x)
        M.log.append(('eval', n, M.mem, M.x))
        mem, x = M.mem, M.x
        self.literal(name, mem, x)
        M.mem, M.x = postm(name)(mem, x), postx(name)(mem, x)
        if not ta:
            self.assume_typed(v, typ)
            M.setty(v, typ)
        for r in CALLER:
            if r not in ARGS[:len(top)]:
                M.havoc(r)
        M.r['rax'] = v
        return None

    def machine(self):
        M = Machine(self.ctx, self.rec.ev, self.numlit)
        M.on_eval, M.on_call = self.on_eval, self.on_call
        self.in0 = {}
        for i in range(self.m):
            v = M.r[ARGS[i]]
            M.setty(v, self.regtypes[i])
            self.assume_typed(v, self.regtypes[i])
            self.in0[ARGS[i]] = v
        self.mem0, self.x0, self.rbp = M.mem, M.x, M.r['rbp']
        self.M = M
        return M

    def on_call(self, M, tgt, gm):
        self.ob('align', 'stack-aligned-at-call', (self.sp0 + M.k) % 2 == 0)
        M.log.append(('call', tgt, dict(M.r), M.mem, M.x, gm))
        if gm is not None:
            if gm[2] is None or gm[2][0] != 'map':
                self.ob('gc', 'gc-word-is-a-map', False, str(gm[1]))
            else:
                self.check_roots(M, gm[2][1], 'at call')
        t = tgt[1] if tgt[0] == 'val' else z3.BitVec('symbol:%s' % tgt[1], 64)
        f = z3.Function('ret', BV, MEM, XS, BV)
        v = f(t, M.mem, M.x)
        mem, x = M.mem, M.x
        M.mem = z3.Function('memcall', BV, MEM, XS, MEM)(t, mem, x)
        M.x = z3.Function('wrlcall', BV, MEM, XS, XS)(t, mem, x)
        for r in CALLER:
            M.havoc(r)
        M.r['rax'] = v
        return None

    def finish(self, M, what=''):
        """the part of the contract common to all expressions"""
        st = self.state()
        self.ob('stack', 'stack-restored', M.k == 0 and M.base == 0)
        self.ob('stack', 'sp-tracking-restored', self.I.eq(st[0], self.sp0))
        for r, v in self.in0.items():
            self.ob('regs', 'argument-registers-preserved', M.r[r] == v, r)
        self.ob('regs', 'frame-pointer-preserved', M.r['rbp'] == self.rbp)
        self.ob('regs', 'register-tracking-restored', len(st[1]) == (1 if self.m else 0) and
                (not self.m or [id(x.c) for x in st[1][0]] == [id(t.c) for t in self.regtypes]))
        rs = st[2]
        self.ob('gc', 'roots-restored', len(rs) == len(self.roots0) and
                andl([self.I.eq(a[0], b[0]) for a, b in zip(rs, self.roots0)]))

    def world(self, chain):
        """world after evaluating the named expressions in order"""
        mem, x = self.mem0, self.x0
        for n in chain:
            self.literal(n, mem, x)
            mem, x = postm(n)(mem, x), postx(n)(mem, x)
        return mem, x

    def literal(self, name, mem, x):
        """a literal has its value and does nothing"""
        if name in self.lits:
            self.ctx.assume(z3.And(valf(name)(mem, x) == self.lits[name], postm(name)(mem, x) == mem, postx(name)(mem, x) == x))

    def v(self, name, chain=(), ta=False):
        mem, x = self.world(chain)
        self.literal(name, mem, x)
        return valf(name + ('_addr' if ta else ''))(mem, x)

    def gen(self, n, ta=False):
        self.I.call('main.genExpr', [self.rec, n, ta, self.fn])


def untag(v):
    return v >> bv(1)


def tagv(v):
    return (v << bv(1)) | bv(1)


def guarded(fn):
    """turn Bad into a refuted obligation of the section"""
    def run(ctx, obs, p, sect, *a, **kw):
        try:
            fn(ctx, obs, p, sect, *a, **kw)
        except Bad as b:
            if ctx.feasible():
                obs.rec('%s#code-is-sane:%s' % (sect, b.name), 'refuted', b.detail)
    return run


INTOPS = {
    'opAdd': lambda a, b: a + b, 'opSub': lambda a, b: a - b, 'opMul': lambda a, b: a * b,
    'opBOr': lambda a, b: a | b, 'opBAnd': lambda a, b: a & b, 'opBXor': lambda a, b: a ^ b,
    'opDiv': lambda a, b: a / b,
    'opBLeft': lambda a, b: a << (b & bv(63)), 'opBRight': lambda a, b: a >> (b & bv(63)),
}
CMPOPS = {'opGt': lambda a, b: a > b, 'opGte': lambda a, b: a >= b, 'opLt': lambda a, b: a < b,
          'opLte': lambda a, b: a <= b, 'opEq': lambda a, b: a == b}
BOOLOPS = {'opAnd': lambda a, b: a & b, 'opOr': lambda a, b: a | b}


def inuse(cg_types, ctx):
    return ctx.pick([0, 6])


@guarded
def binary(ctx, obs, p, sect, op):
    m = ctx.pick([0, 6])
    c = CG(obs, p, ctx, m, sect=sect)
    ty = c.gtype('boolType') if op in BOOLOPS else c.gtype('intType')
    rt = c.gtype('intType') if op in INTOPS else c.gtype('boolType')
    a, b = c.child('a', ty), c.child('b', ty)
    n = c.node(op, left=a, right=b, typ=rt)
    c.gen(n)
    M = c.machine()
    out = M.run()
    va, vb = c.v('a'), c.v('b', ['a'])
    if op == 'opDiv':
        if out == ('trap',):
            c.ob('res', 'traps-only-on-zero-divisor', untag(vb) == bv(0))
            return
        c.ob('res', 'zero-divisor-traps', untag(vb) != bv(0))
    c.ob('res', 'runs-to-the-end', out == ('end',))
    if op in INTOPS:
        spec = tagv(INTOPS[op](untag(va), untag(vb)))
    elif op in CMPOPS:
        spec = z3.If(CMPOPS[op](untag(va), untag(vb)), bv(1), bv(0))
    else:
        spec = BOOLOPS[op](va, vb)
    c.ob('res', 'value', M.r['rax'] == spec)
    mem, x = c.world(['a', 'b'])
    c.ob('order', 'operands-left-to-right-once', z3.And(M.mem == mem, M.x == x))
    c.finish(M)


@guarded
def unary(ctx, obs, p, sect, op):
    c = CG(obs, p, ctx, ctx.pick([0, 6]), sect=sect)
    ty = c.gtype('boolType') if op == 'opNot' else c.gtype('intType')
    n = c.node(op, left=c.child('a', ty), typ=ty)
    c.gen(n)
    M = c.machine()
    out = M.run()
    va = c.v('a')
    spec = {'opNot': z3.If(va == bv(0), bv(1), bv(0)), 'opBNot': tagv(~untag(va)), 'opNeg': tagv(-untag(va))}[op]
    c.ob('res', 'runs-to-the-end', out == ('end',))
    c.ob('res', 'value', M.r['rax'] == spec)
    mem, x = c.world(['a'])
    c.ob('order', 'operand-once', z3.And(M.mem == mem, M.x == x))
    c.finish(M)


@guarded
def literal(ctx, obs, p, sect, kind):
    c = CG(obs, p, ctx, ctx.pick([0, 6]), sect=sect)
    if kind == 'int':
        i = z3.Int(ctx.fresh('lit'))
        ctx.assume(z3.And(i >= -2**62, i < 2**62))
        bvi = z3.BitVec(ctx.fresh('litbits'), 64)
        text = c.opaque_text('text', bvi)
        ctx.assume(z3.BV2Int(bvi, True) == i)

        def parse(I, a):
            if a[0] is not text:
                raise Unsupported('ParseInt of another text')
            return (i, None)
        c.I.ext['strconv.ParseInt'] = parse
        c.I.stubs['strconv.ParseInt'] = parse
        sym = c.I.new('main.Symbol', Name=text, Type=c.gtype('intType'), IsLiteral=True)
        c.gen(c.node('opLit', sym=sym, typ=c.gtype('intType')))
        M = c.machine()
        out = M.run()
        c.ob('res', 'value', M.r['rax'] == tagv(bvi))
    elif kind == 'bool':
        b = ctx.pick(['true', 'false'])
        sym = c.I.new('main.Symbol', Name=b, Type=c.gtype('boolType'), IsLiteral=True)
        c.gen(c.node('opLit', sym=sym, typ=c.gtype('boolType')))
        M = c.machine()
        out = M.run()
        c.ob('res', 'value', M.r['rax'] == bv(1 if b == 'true' else 0))
    else:
        s = ctx.str('text')
        sym = c.I.new('main.Symbol', Name=s, Type=c.gtype('stringType'), IsLiteral=True)
        c.gen(c.node('opLit', sym=sym, typ=c.gtype('stringType')))
        M = c.machine()
        out = M.run()
        c.ob('res', 'one-literal-requested', len(c.rec.lits) == 1 and c.rec.lits[0][0] is s)
        c.ob('res', 'value', M.r['rax'] == z3.BitVec('label:.LIT0+8', 64))
    c.ob('res', 'runs-to-the-end', out == ('end',))
    c.ob('order', 'no-effect', z3.And(M.mem == c.mem0, M.x == c.x0))
    c.finish(M)


@guarded
def ident(ctx, obs, p, sect):
    c = CG(obs, p, ctx, ctx.pick([0, 6]), sect=sect)
    what = ctx.pick(['stack', 'global', 'field'])
    ta = ctx.pick([False, True]) if what == 'stack' else False
    addr = z3.Int(ctx.fresh('Addr'))
    ctx.assume(z3.And(addr >= 0, addr <= 32000))
    ty = c.type(ctx.pick(['Integer', 'Boolean', 'Struct', 'Array', 'Function', 'String']))
    if what == 'global':
        ft = c.I.new('main.FunctionType', ret=c.gtype('intType'), Params=c.I.slice([c.gtype('intType')]))
        ty = c.type('Function', ft)
    sym = c.I.new('main.Symbol', Name='nm', Addr=addr, IsStack=what == 'stack', IsGlobal=what == 'global', Type=ty)
    c.gen(c.node('opIdentifier', sym=sym, typ=ty), ta)
    M = c.machine()
    out = M.run()
    a = c.rbp - z3.Int2BV(addr, 64)
    if what == 'stack':
        ctx.assume(z3.Int2BV(0 - addr, 64) == -z3.Int2BV(addr, 64))
        spec = a if ta else z3.Select(c.mem0, a)
    elif what == 'global':
        nm = c.I.call('(*main.FunctionType).AsmName', [ft, 'nm'])
        spec = z3.BitVec('symbol:%s' % nm, 64)
    else:
        spec = z3.Int2BV(addr, 64)
    c.ob('res', 'runs-to-the-end', out == ('end',))
    c.ob('var', what + '-value', M.r['rax'] == spec)
    c.ob('order', 'no-effect', z3.And(M.mem == c.mem0, M.x == c.x0))
    c.finish(M)


@guarded
def ternary(ctx, obs, p, sect):
    c = CG(obs, p, ctx, ctx.pick([0, 6]), sect=sect)
    ty = c.type(ctx.pick(['Integer', 'Struct']))
    n = c.node('opTernary', left=c.child('c', c.gtype('boolType')), stmts=c.I.slice([c.child('x', ty), c.child('y', ty)]), typ=ty)
    c.gen(n)
    M = c.machine()
    out = M.run()
    vc = c.v('c')
    c.ob('flow', 'runs-to-the-end', out == ('end',))
    c.ob('flow', 'value', M.r['rax'] == z3.If(vc == bv(1), c.v('x', ['c']), c.v('y', ['c'])))
    m1, x1 = c.world(['c', 'x'])
    m2, x2 = c.world(['c', 'y'])
    c.ob('flow', 'only-the-chosen-branch-runs', z3.If(vc == bv(1), z3.And(M.mem == m1, M.x == x1), z3.And(M.mem == m2, M.x == x2)))
    c.finish(M)


@guarded
def index(ctx, obs, p, sect):
    ta = ctx.pick([False, True])
    c = CG(obs, p, ctx, ctx.pick([0, 6]), sect=sect)
    et = c.gtype('intType') if ctx.choose(2) else c.type(ctx.pick(['Boolean', 'Struct', 'String', 'Array', 'Function', 'Parameter']))
    at = c.type('Array', c.I.new('main.ArrayType', Elem=et))
    n = c.node('opArray', left=c.child('a', at), right=c.child('i', c.gtype('intType')), typ=et)
    c.gen(n, ta)
    M = c.machine()
    out = M.run()
    a, i = c.v('a'), untag(c.v('i', ['a']))
    mem, x = c.world(['a', 'i'])
    length = untag(z3.Select(mem, a))
    # an array's length word is a tagged, non-negative number (property C11, last sentence)
    ctx.assume(length >= 0)
    inb = z3.And(i >= 0, i < length)
    if out[0] == 'exit':
        c.ob('bounds', 'stops-only-outside', z3.Not(inb))
        c.ob('bounds', 'goes-to-the-trampoline', out[1] == 'ioob')
        c.ob('bounds', 'panic-reports-index-and-array', z3.And(M.r['rbx'] == i, M.r['rax'] == a))
        c.ob('bounds', 'nothing-touched-before', z3.And(M.mem == mem, M.x == x))
        return
    c.ob('bounds', 'runs-to-the-end', out == ('end',))
    c.ob('bounds', 'continues-only-inside', inb)
    el = a + bv(8) + bv(8) * i
    c.ob('bounds', 'element-address', M.r['rax'] == (el if ta else z3.Select(mem, el)))
    c.ob('order', 'array-then-index-once', z3.And(M.mem == mem, M.x == x))
    c.finish(M)


@guarded
def dot(ctx, obs, p, sect):
    ta = ctx.pick([False, True])
    c = CG(obs, p, ctx, ctx.pick([0, 6]), sect=sect)
    addr = z3.Int(ctx.fresh('Addr'))
    ctx.assume(z3.And(addr >= 0, addr <= 32000))
    ft = c.type(ctx.pick(['Integer', 'Struct', 'Function']))
    sym = c.I.new('main.Symbol', Name='fld', Addr=addr, Type=ft)
    right = c.node('opIdentifier', sym=sym, typ=ft)
    n = c.node('opDot', left=c.child('a', c.type('Struct')), right=right, typ=ft)
    c.gen(n, ta)
    M = c.machine()
    out = M.run()
    a = c.v('a')
    mem, x = c.world(['a'])
    ad = a + z3.Int2BV(addr, 64)
    c.ob('field', 'runs-to-the-end', out == ('end',))
    c.ob('field', 'field-address', M.r['rax'] == (ad if ta else z3.Select(mem, ad)))
    c.ob('order', 'object-once', z3.And(M.mem == mem, M.x == x))
    c.finish(M)


TPAT = [
    lambda i: 'Integer', lambda i: 'Struct', lambda i: ['Integer', 'String'][i % 2],
    lambda i: ['Array', 'Boolean', 'Bytes', 'Pointer', 'Function', 'Enum', 'Parameter'][i % 7],
]
CALLEES = ['named', 'stack', 'expr', 'extern', 'raw', 'rawvariadic']


@guarded
def call(ctx, obs, p, sect, callee, thorough=False):
    nmax = 6 if callee not in ('expr', 'stack') else 5
    na = ctx.choose(nmax + 1)
    m = ctx.choose(7) if thorough else ctx.pick([0, 2, 6])
    rot = lambda i, r=3 * na + m: TPAT[3](i + r)
    pa = (TPAT[:3] + [rot])[ctx.choose(4)] if na else TPAT[0]
    pr = (TPAT[:3] + [rot])[ctx.choose(4)] if m and thorough else ([TPAT[1], TPAT[2], rot][ctx.choose(3)] if m else TPAT[2])
    c = CG(obs, p, ctx, 0, sect=sect)
    rtys = [c.type(pr(i)) for i in range(m)]
    c2 = CG(obs, p, ctx, m, rtys, sect=sect)
    c = c2
    I = c.I
    atys = [c.type(pa(i)) for i in range(na)]
    args = [c.child('arg%d' % i, atys[i]) for i in range(na)]
    ext = callee in ('extern', 'raw', 'rawvariadic')
    raw = callee in ('raw', 'rawvariadic')
    # the result has any type
    KS = ('Integer', 'Struct', 'Nothing', 'Boolean', 'String', 'Array', 'Bytes', 'Pointer', 'Function', 'Enum', 'Parameter')
    rk = z3.Int(ctx.fresh('result_kind'))
    ctx.assume(z3.Or([rk == p.const('main.' + k) for k in KS]))
    rty = c.type('Integer')
    I.setf(rty, 'Kind', rk)
    I.setf(rty, 'Data', Lazy(lambda: (_ for _ in ()).throw(Unsupported('the code looks into the result type'))))
    ft = I.new('main.FunctionType', Kind=p.const('main.External') if ext else p.const('main.Normal'), ret=rty,
               RawValues=raw, isVariadic=callee == 'rawvariadic', Params=I.slice(atys))
    fty = c.type('Function', ft)
    addr = z3.Int(ctx.fresh('Addr'))
    ctx.assume(z3.And(addr >= 8, addr <= 8 * c.sp0))
    if callee == 'expr':
        left = c.child('callee', fty, nosym=True)
    else:
        sym = I.new('main.Symbol', Name='callee', Type=fty, IsStack=callee == 'stack', IsGlobal=callee != 'stack',
                    Addr=addr if callee == 'stack' else 0)
        left = c.node('opIdentifier', sym=sym, typ=fty)
    n = c.node('opFuncCall', left=left, stmts=I.slice(args) if args else None, typ=rty)
    c.gen(n)
    M = c.machine()
    out = M.run()
    chain = (['callee'] if callee == 'expr' else []) + ['arg%d' % i for i in range(na)]
    calls = [e for e in M.log if e[0] == 'call']
    c.ob('call', 'exactly-one-call', len(calls) == 1 and out == ('end',), '%s %s' % (len(calls), out))
    if len(calls) != 1:
        return
    _, tgt, regs, mem, x, gm = calls[0]
    wm, wx = c.world(chain)
    c.ob('order', 'arguments-left-to-right-once', z3.And(mem == wm, x == wx))
    for i in range(na):
        pre = chain[:len(chain) - na + i]
        v = c.v('arg%d' % i, pre)
        if raw:
            k = c.kind(atys[i])
            if k in ('String', 'Array', 'Bytes'):
                v = v + bv(8)
            elif k == 'Integer':
                v = untag(v)
        c.ob('call', 'argument-delivered', regs[ARGS[i]] == v, 'argument %d of %d (%s)' % (i, na, pa(i)))
    if callee == 'expr':
        c.ob('call', 'callee-value-called', tgt[0] == 'val' and tgt[1] == c.v('callee'))
    elif callee == 'stack':
        ctx.assume(z3.Int2BV(0 - addr, 64) == -z3.Int2BV(addr, 64))
        c.ob('call', 'callee-variable-called', tgt[0] == 'val' and tgt[1] == z3.Select(wm, c.rbp - z3.Int2BV(addr, 64)))
    else:
        nm = I.call('(*main.FunctionType).AsmName', [ft, 'callee'])
        c.ob('call', 'named-function-called', tgt == ('name', nm))
    if callee == 'rawvariadic':
        c.ob('call', 'variadic-no-float-registers', regs['rax'] == bv(0))
    c.ob('gc', 'gc-word-after-clara-calls-only', (gm is None) == ext)
    t = tgt[1] if tgt[0] == 'val' else z3.BitVec('symbol:%s' % tgt[1], 64)
    r = z3.Function('ret', BV, MEM, XS, BV)(t, wm, wx)
    if raw:
        r = z3.If(rk == p.const('main.Integer'), tagv(r), r)
    c.ob('call', 'result-delivered', z3.Implies(rk != p.const('main.Nothing'), M.r['rax'] == r))
    c.ob('order', 'nothing-evaluated-after-the-call',
         z3.And(M.mem == z3.Function('memcall', BV, MEM, XS, MEM)(t, wm, wx), M.x == z3.Function('wrlcall', BV, MEM, XS, XS)(t, wm, wx)))
    c.finish(M)


# -------------------------------------------------------------------------------------------- statements
@guarded
def assign(ctx, obs, p, sect):
    op = ctx.pick(['opAs', 'opDas'])
    c = CG(obs, p, ctx, 0, sect=sect)
    ty = c.type(ctx.pick(['Integer', 'Struct']))
    addr = z3.Int(ctx.fresh('Addr'))
    ctx.assume(z3.And(addr >= 8, addr <= 8 * c.sp0))
    ctx.assume(z3.Int2BV(0 - addr, 64) == -z3.Int2BV(addr, 64))
    for o, _ in c.roots0:
        ctx.assume(o != addr)
    if op == 'opDas':
        sym = c.I.new('main.Symbol', Name='x', Addr=addr, IsStack=True, Type=ty)
        left = c.node('opIdentifier', sym=sym, typ=ty)
    else:
        left = c.child('t', ty)
    n = c.node(op, left=left, right=c.child('v', ty), typ=ty)
    c.I.call('main.genAssignStmt', [c.rec, n, c.fn])
    M = c.machine()
    out = M.run()
    c.ob('assign', 'runs-to-the-end', out == ('end',))
    if op == 'opAs':
        mem, x = c.world(['v', 't'])
        c.ob('assign', 'stores-value-at-target-only', z3.And(M.mem == z3.Store(mem, c.v('t', ['v'], ta=True), c.v('v')), M.x == x))
    else:
        mem, x = c.world(['v'])
        c.ob('assign', 'stores-value-at-target-only', z3.And(M.mem == z3.Store(mem, c.rbp - z3.Int2BV(addr, 64), c.v('v')), M.x == x))
        st = c.state()
        inroots = orl([c.I.eq(o, addr) for o, _ in st[2]])
        c.ob('gc', 'declared-pointer-becomes-root', inroots if c.is_ptr(ty) else notl(inroots))
        c.ob('gc', 'other-roots-kept', andl([orl([c.I.eq(o, q) for q, _ in st[2]]) for o, _ in c.roots0]))
        c.roots0 = c.roots0 + ([(addr, ty)] if c.is_ptr(ty) else [])
    c.finish(M)


@guarded
def ifchain(ctx, obs, p, sect):
    nb = 1 + ctx.choose(3)
    els = ctx.pick([False, True])
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    c.lists = []
    nxt = None
    if els:
        s = I.slice([None])
        c.lists.append(('else', s))
        nxt = c.node('opElse', stmts=s)
    for i in reversed(range(nb)):
        s = I.slice([None])
        c.lists.append(('s%d' % i, s))
        nxt = c.node('opIf' if i == 0 else 'opElseIf', left=c.child('c%d' % i, c.gtype('boolType')), stmts=s, right=nxt)
    I.call('main.genIfElseIfElseStmts', [c.rec, nxt, c.fn])
    M = c.machine()
    out = M.run()
    # specification: first true condition
    chain = []
    mem, x = c.mem0, c.x0
    for i in range(nb):
        v = valf('c%d' % i)(mem, x)
        mem, x = postm('c%d' % i)(mem, x), postx('c%d' % i)(mem, x)
        if ctx.decide(v == bv(1)):
            chain = 's%d' % i
            break
    else:
        chain = 'else' if els else None
    done = [e[1:] for e in M.log if e[0] == 'stmts']
    if chain is None:
        c.ob('flow', 'no-branch-runs', len(done) == 0 and out == ('end',), str(done))
        c.ob('flow', 'conditions-evaluated-in-order', z3.And(M.mem == mem, M.x == x))
    else:
        c.ob('flow', 'exactly-the-first-true-branch-runs', [d[0] for d in done] == [chain], '%s instead of %s' % (done, chain))
        if len(done) == 1:
            c.ob('flow', 'conditions-evaluated-in-order', z3.And(done[0][1] == mem, done[0][2] == x))
        if out[0] != 'returned':
            c.ob('flow', 'continues-after-the-chain', z3.And(M.mem == postm(chain)(mem, x), M.x == postx(chain)(mem, x)) if out == ('end',) else False)
        else:
            return
    c.finish(M)


@guarded
def whileloop(ctx, obs, p, sect):
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    s = I.slice([None])
    c.lists = [('body', s)]
    n = c.node('opWhile', left=c.child('c', c.gtype('boolType')), stmts=s)
    I.call('main.genWhileStmt', [c.rec, n, c.fn])
    M = c.machine()
    # entry must reach the head unchanged, then one arbitrary iteration from the head
    heads = [i for i, e in enumerate(c.rec.ev) if e[0] == 'label' and any(
        j > i and f[0] == 'ins' and f[1] in ('jmp', 'jne', 'je', 'jae') and f[2][0] == ('lab', e[1]) for j, f in enumerate(c.rec.ev))]
    if len(heads) != 1:
        raise Unsupported('while loop without a single head')
    h = heads[0]
    out = M.run(0, stop=lambda M, pc, e: pc == h and M.log != [] or pc == h and False)
    # run() continues through the head; the back edge is reported as a cut
    mem, x = c.mem0, c.x0
    vc = valf('c')(mem, x)
    m1, x1 = postm('c')(mem, x), postx('c')(mem, x)
    if out[0] == 'cut':
        c.ob('flow', 'repeats-only-when-true', vc == bv(1))
        c.ob('flow', 'condition-then-body-once', z3.And(M.mem == postm('body')(m1, x1), M.x == postx('body')(m1, x1)))
    elif out[0] == 'returned':
        c.ob('flow', 'repeats-only-when-true', vc == bv(1))
        return
    else:
        c.ob('flow', 'leaves-only-when-false', z3.And(vc != bv(1), out == ('end',)))
        c.ob('flow', 'body-not-run-after-exit', z3.And(M.mem == m1, M.x == x1))
    c.finish(M)


@guarded
def stmtlist(ctx, obs, p, sect):
    """each kind of statement is generated by its own generator, in order, each in the block's scope"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    del I.stubs['main.genStmtList']
    order = []
    kinds = {'opReturn': 'main.genReturnStmt', 'opIf': 'main.genIfElseIfElseStmts', 'opDas': 'main.genAssignStmt',
             'opAs': 'main.genAssignStmt', 'opWhile': 'main.genWhileStmt', 'opFuncCall': 'main.genExpr', 'opBlock': 'main.genStmtList'}
    ks = [ctx.pick(list(kinds)) for _ in range(2)]
    nodes = []
    val = c.child('retval', c.gtype('intType'))
    for k in ks:
        nodes.append(c.node(k, left=val if k == 'opReturn' else None, stmts=I.slice([]) if k == 'opBlock' else None))

    def stub(fname):
        def f(I, a):
            order.append((fname, a[1], [o for o, _ in c.state()[2]]))
            if fname == 'main.genAssignStmt':
                # Das adds a root
                pass
            return None
        return f
    for f in set(kinds.values()):
        if f not in ('main.genStmtList',):
            I.stubs[f] = stub(f)
    depth = [0]

    def sl(I, a):
        if depth[0]:
            order.append(('main.genStmtList', a[1], None))
            return None
        depth[0] += 1
        return I.run(I.p.funcs['main.genStmtList'], a, ())
    I.stubs['main.genStmtList'] = sl
    I.call('main.genStmtList', [c.rec, I.slice(nodes), c.fn])
    c.ob('flow', 'every-statement-generated-in-order', len(order) == 2 and [o[0] for o in order] == [kinds[k] for k in ks], str([o[0] for o in order]))
    for o, n, k in zip(order, nodes, ks):
        want = val if k == 'opReturn' else n
        if k != 'opBlock':
            c.ob('flow', 'with-its-own-node', o[1] == want)
        else:
            c.ob('flow', 'with-its-own-statements', isinstance(o[1], SliceV) and o[1].a is I.getf(n, 'stmts').a)
    st = c.state()
    c.ob('gc', 'scope-closed', len(st[2]) == 2 and andl([c.I.eq(a[0], b[0]) for a, b in zip(st[2], c.roots0)]))
    c.ob('gc', 'scope-stack-restored', len(I.items(I.getf(c.gs, 'scopes'))) == 0)


@guarded
def gcstate(ctx, obs, p, sect):
    """GcState is a stack of scopes over a list of roots"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    groot = p.by_name['main.GcRoot']
    offs = [z3.Int(ctx.fresh('o')) for _ in range(4)]
    ctx.assume(z3.Distinct(*offs))
    pt, it = c.type(ctx.pick(PTR_KINDS)), c.type(ctx.pick(NONPTR))
    pt2 = c.type('Struct')
    for o in offs:
        for q, _ in c.roots0:
            ctx.assume(o != q)
    G = lambda m, *a: I.call('(*main.GcState).' + m, [c.gs] + list(a))
    cur = lambda: [o for o, _ in c.rootlist(c.gs)]
    base = [o for o, _ in c.roots0]

    def same(name, want):
        got = cur()
        c.ob('gc', name, len(got) == len(want) and andl([I.eq(a, b) for a, b in zip(got, want)]), '%s / %s' % (got, want))
    G('OpenScope')
    G('Add', offs[0], pt)
    G('Add', offs[1], it)
    same('pointer-added-non-pointer-not', base + [offs[0]])
    snap = G('Snapshot')
    G('OpenScope')
    G('Add', offs[2], pt2)
    G('Add', offs[3], pt2)
    same('nested-scope-adds', base + [offs[0], offs[2], offs[3]])
    G('Remove', offs[2], pt2)
    same('remove-removes-one', base + [offs[0], offs[3]])
    G('Add', offs[2], pt2)
    G('Remove', offs[1], it)
    same('non-pointer-not-removed', base + [offs[0], offs[3], offs[2]])
    G('CloseScope')
    same('inner-close-drops-inner-only', base + [offs[0]])
    G('CloseScope')
    same('outer-close-drops-outer', base)
    got = [force(r, p.fidx(r.tid, 'off')) for r in I.items(snap)]
    c.ob('gc', 'snapshot-unaffected-by-later-changes', len(got) == 3 and andl([I.eq(a, b) for a, b in zip(got, base + [offs[0]])]))
    # labels of maps are distinct and hold the roots of their call
    a = I.call('(*main.function).NewGcMap', [c.fn])
    G('OpenScope')
    G('Add', offs[0], pt)
    b = I.call('(*main.function).NewGcMap', [c.fn])
    m = I.getf(c.fn, 'gcMaps')
    c.ob('gc', 'map-labels-distinct', notl(I.eq(a, b)))
    va, oka = I.maplookup(m, a.v)
    vb, okb = I.maplookup(m, b.v)
    c.ob('gc', 'map-holds-the-roots-of-its-call', oka is True and okb is True and len(I.items(va)) == 2 and len(I.items(vb)) == 3)
    # however many there are
    G('OpenScope')
    many = [100000 + 8 * j for j in range(70)]
    for o in offs:
        ctx.assume(z3.And(o >= 1, o < 100000))
    for q, _ in c.roots0:
        ctx.assume(q < 100000)
    for o in many:
        G('Add', o, pt)
    same('many-roots', base + [offs[0]] + many)
    d = I.call('(*main.function).NewGcMap', [c.fn])
    vd, okd = I.maplookup(m, d.v)
    got = [force(r, p.fidx(r.tid, 'off')) for r in I.items(vd)] if okd is True else []
    c.ob('gc', 'map-holds-all-the-roots', len(got) == 73 and andl([I.eq(a, b) for a, b in zip(got, base + [offs[0]] + many)]))
    G('Remove', many[3], pt)
    same('remove-among-many', base + [offs[0]] + many[:3] + many[4:])
    G('CloseScope')
    same('close-drops-many', base + [offs[0]])
