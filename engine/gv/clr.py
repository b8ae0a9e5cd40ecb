"""Symbolic execution of the Clara library. The functions are the ones of /repo/install/lib as the compiler under test parses, resolves and
types them (harness/zz_typed.go dumps that tree on every run, before lowering); nothing is rewritten by hand. What the compiler does with the
tree from there on (closure conversion, lowering, code generation) is decided by C08-C15.

Integers are mathematical integers with the 63-bit wrap-around of the language made explicit (a path of its own whenever a result can leave the
range). Loops whose number of rounds is not fixed are cut: variables that change by a constant are put in closed form in the round k, stores of
one byte or element per round are put in closed form as a function of the position, everything else is forgotten except for candidate invariants
that are checked to hold on entry and to be preserved (Houdini); the round k is then executed once, for every k. Recursive calls go by contract."""
import json, os, subprocess
import z3
from . import tools
from .ssa import Ctx, Infeasible, StopPath, Unsupported

LO, HI = -2 ** 62, 2 ** 62 - 1
SPAN = 2 ** 63
MAXLEN = 2 ** 40      # objects are smaller than the address space


class Panic(Exception):
    pass


class OutOfMemory(Panic):
    """an allocation larger than any address space: the run time panics"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Lib:
    def __init__(self, work, progs=()):
        h = os.path.join(tools.VERIF, 'engine', 'harness', 'zz_typed.go')
        exe = tools.compiler(work, overlay={os.path.join(tools.REPO, 'zz_typed.go'): h}, name='clarac-typed')
        env = tools.goenv()
        m = os.path.join(work, 'typed-main.clara')
        with open(m, 'w') as f:
            f.write('fn main() {}\n')
        env['CLARA_VERIF_TYPED'] = os.path.join(tools.REPO, 'install', 'lib')
        env['CLARA_VERIF_PROG'] = m
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
        d = json.loads(r.stdout)
        if 'stmts' not in d:
            raise Unsupported('the library does not compile: %s' % (d.get('errors') or d.get('panic')))
        self.syms = d['syms']
        self.funcs, self.bysym, self.structs, self.cons, self.enums = [], {}, {}, {}, {}
        for n in d['stmts']:
            if n['op'] in ('blockfn', 'exprfn', 'externfn'):
                self.funcs.append(n)
                self.bysym[n['sym']] = n
            elif n['op'] == 'struct':
                self.structs[n['val']] = [f['val'] for f in n.get('s', [])]
            elif n['op'] == 'cons':
                s = self.syms[n['sym']]
                self.cons[n['sym']] = n
                if s['fkind'] == 4:
                    self.enums.setdefault(base(s['ret']), []).append((n['val'], s['tag'], [p['val'] for p in n.get('p', [])], [p.get('typ') for p in n.get('p', [])]))
        for n in self.funcs:
            n['_key'] = '%s(%s)' % (n['val'], ','.join(p.get('typ', '?') for p in n.get('p', [])))

    def fn(self, name, *first, n=None):
        """the function called name whose parameter types start as given ('list' matches list«T»); None if there is none"""
        for f in self.funcs:
            ps = [p.get('typ', '?') for p in f.get('p', [])]
            if f['val'] == name and f['op'] != 'externfn' and (n is None or len(ps) == n) and len(ps) >= len(first) and all(x is None or base(t) == x for t, x in zip(ps, first)):
                return f
        raise Unsupported('no function %s%r in the library' % (name, first))


def base(t):
    if t is None:
        return ''
    return t.split('«')[0].split('(')[0] if not t.startswith('[]') else '[]'


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, z3.ArithRef)


def isbool(v):
    return isinstance(v, (bool, z3.BoolRef))


def simp(v):
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def NOT(a):
    return not a if isinstance(a, bool) else z3.Not(a)


def AND(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    return True if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    return False if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)


def IMP(a, b):
    return OR(NOT(a), b)


def ITE(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return OR(AND(c, a), AND(NOT(c), b))
    return z3.If(c, a if isinstance(a, z3.ExprRef) else z3.IntVal(a), b if isinstance(b, z3.ExprRef) else z3.IntVal(b))


class Raw:
    """an untagged machine word; tagged(n) is the word of the int n, 2n+1"""
    def __init__(self, w):
        self.w = w


class Tagged:
    def __init__(self, n):
        self.n = n


class Ptr:
    def __init__(self, o, off):
        self.o, self.off = o, off


class Obj:
    def snap(self):
        return dict(self.__dict__)


class Mem(Obj):
    """a block holding a length word and then bytes (get: position -> signed byte) or words (word: index -> value)"""
    def __init__(self, size, w0=0, get=None, word=None, ro=False, name=''):
        self.size, self.w0, self.get, self.word, self.ro, self.name = size, w0, get, word, ro, name
        self.stores = ()      # since the last loop head
        self.typ = None

    @property
    def cap(self):
        return simp(self.size - 8)


class StructO(Obj):
    def __init__(self, typ, fields):
        self.typ, self.f = typ, fields

    def snap(self):
        return {'typ': self.typ, 'f': dict(self.f)}

    def getf(self, X, name):
        return self.f[name]

    def setf(self, X, name, v):
        self.f[name] = v


class SymRef:
    """a struct at a symbolic address; its fields live in X.heap"""
    def __init__(self, typ, a):
        self.typ, self.a = typ, a

    def getf(self, X, name):
        return X.loadf(self, name)

    def setf(self, X, name, v):
        X.storef(self, name, v)


class EnumV:
    def __init__(self, enum, case, fields):
        self.enum, self.case, self.f = enum, case, list(fields)


class FnV:
    def __init__(self, sym):
        self.sym = sym


class CloV(Obj):
    def __init__(self, decl, cap):
        self.decl, self.cap = decl, cap

    def snap(self):
        return {'decl': self.decl, 'cap': dict(self.cap)}


class UFn:
    """a function value nothing is known about: call(X, args) -> result"""
    def __init__(self, call, name='f'):
        self.call, self.name = call, name


W = z3.DeclareSort('World')
L = z3.Datatype('List')
L.declare('nil')
L.declare('cons', ('hd', z3.IntSort()), ('tl', L))
L = L.create()
BAnd = z3.Function('band', z3.IntSort(), z3.IntSort(), z3.IntSort())
BOr = z3.Function('bor', z3.IntSort(), z3.IntSort(), z3.IntSort())
BXor = z3.Function('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())


def byteval(b):
    return b - 256 if b > 127 else b


class X:
    def __init__(self, lib, ctx, obs=None, sec='', unroll=0, cands=None, merge=False, cache=None):
        self.lib, self.ctx, self.obs, self.sec = lib, ctx, obs, sec
        self.unroll, self.cands, self.merge = unroll, cands, merge
        self.contracts = {}      # key of function -> f(X, args)
        self.objs = []
        self.world = z3.Const('w0', W)
        self.heap = {}           # name -> z3 array
        self.g = {}              # other state of the run time, name -> value
        self.depth = 0
        self.qf = []             # facts about all earlier rounds of loops: functions of the round
        self.bases = []
        self.quiet = 0
        self.ran = set()
        self.cache = {} if cache is None else cache
        self.merges = 0
        self.lits = {}
        self.stubs = dict(STUBS)
        self.listmode = False    # lists as terms
        self.enumhook = None
        self.wrapelem = None
        self.nullelem = 0
        self.loophook = None
        self.sp = 0
        self.cuts = 0
        self.memo = {}

    # ---------------------------------------------------------------- obligations
    def ob(self, name, cond, info=''):
        if self.obs is not None and not self.quiet:
            cond = simp(cond)
            if self.cuts and cond is not True:
                # past a loop cut a failed proof may be the fault of the abstraction: the bounded section decides
                if cond is False and not self.ctx.feasible():
                    cond = True
                elif cond is False or self.ctx.valid(cond)[0] is not True:
                    raise Unsupported('not proved: %s %s' % (name, str(info)[:100]))
            self.obs.prove(self.ctx, self.sec + '/' + name, cond, info)

    def prove(self, name, goal, skolems=(), info=''):
        for t in skolems:
            self.inst(t)
        self.ob(name, goal, info)

    def inst(self, t):
        for k, f, bases in self.qf:
            for i in [t] + [t - b for b in bases if not (isinstance(b, int) and b == 0)] + [b - t for b in bases]:
                c = f(simp(i) if isinstance(i, z3.ExprRef) else i)
                if c is not True:
                    self.ctx.assume(z3.Implies(z3.And(i >= 0, i < k), c))

    def new(self, o):
        self.objs.append(o)
        return o

    # ---------------------------------------------------------------- state
    def snapshot(self):
        return ([(o, o.snap()) for o in self.objs], len(self.objs), self.world, dict(self.heap), dict(self.g), list(self.qf), dict(self.memo))

    def restore(self, s):
        del self.objs[s[1]:]
        for o, d in s[0]:
            o.__dict__.update({k: (dict(v) if k in ('f', 'cap') else v) for k, v in d.items()})
        self.world, self.heap, self.g, self.qf = s[2], dict(s[3]), dict(s[4]), list(s[5])
        self.memo = dict(s[6])

    def sub(self, fn):
        """explore fn() from the present state in every way; the state is restored. -> [(result, constraints added)]"""
        outer, work, out, n = self.ctx, [[]], [], 0
        s = self.snapshot()
        env = self.env
        self.quiet += 1
        self.depth += 1
        try:
            while work:
                p = work.pop()
                n += 1
                if n > 400:
                    raise Unsupported('too many paths through a loop body')
                c = Ctx(p, outer.stats, 10000)
                c.n = outer.n + 10000 * self.depth
                for a in outer.pc:
                    c.solver.add(a)
                c.pc = list(outer.pc)
                nb = len(c.pc)
                self.ctx = c
                self.env = env.copy()
                try:
                    r = fn()
                    out.append((r, c.pc[nb:]))
                except (Infeasible, Ret, Panic, StopPath):
                    pass
                finally:
                    self.restore(s)
                work.extend(c.alts)
        finally:
            self.quiet -= 1
            self.depth -= 1
            self.ctx = outer
            self.env = env
        return out

    # ---------------------------------------------------------------- integers
    def rng(self, t):
        self.ctx.assume(z3.And(t >= LO, t <= HI))
        return t

    def int(self, name='i', lo=LO, hi=HI):
        t = self.ctx.int(name)
        self.ctx.assume(z3.And(t >= lo, t <= hi))
        return t

    def wrap(self, r):
        if isinstance(r, int):
            return (r - LO) % SPAN + LO
        r = simp(r)
        if isinstance(r, int):
            return self.wrap(r)
        if self.ctx.decide(z3.And(r >= LO, r <= HI)):
            return r
        for k in (1, -1, 2, -2):
            if self.ctx.decide(z3.And(r - k * SPAN >= LO, r - k * SPAN <= HI)):
                return simp(r - k * SPAN)
        q = self.ctx.int('wrap')
        v = r - SPAN * q
        self.ctx.assume(z3.And(v >= LO, v <= HI))
        return v

    def divmod(self, a, c):
        """floor division by a positive constant"""
        if isinstance(a, int):
            return a // c, a % c
        key = (a.get_id(), c)
        if key in self.memo:
            return self.memo[key][1:]
        q, r = self.ctx.int('q'), self.ctx.int('r')
        self.ctx.assume(z3.And(a == c * q + r, r >= 0, r < c))
        self.memo[key] = (a, q, r)
        return q, r

    def div(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                raise Panic('division by zero')
            q = abs(a) // abs(b)
            return self.wrap(q if (a < 0) == (b < 0) else -q)
        if self.ctx.decide(simp(b == 0)):
            raise Panic('division by zero')
        q, r = self.ctx.int('q'), self.ctx.int('r')
        ab = ITE(b < 0, -b, b) if not isinstance(b, int) else abs(b)
        ar, aa = z3.If(r < 0, -r, r), (abs(a) if isinstance(a, int) else z3.If(a < 0, -a, a))
        aq = z3.If(q < 0, -q, q)
        self.ctx.assume(z3.And(a == b * q + r, ar < ab, ar <= aa, aq <= aa, z3.Implies(r > 0, a > 0), z3.Implies(r < 0, a < 0)))
        self.lastrem = r
        return self.wrap(q)

    def band(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return self.mask(a, b)
        r = BAnd(a, b)
        self.rng(r)
        self.ctx.assume(r == BAnd(b, a))
        return r

    def mask(self, a, m):
        """a & m for a constant m: sum over the runs of ones"""
        if m == 0:
            return 0
        neg = m < 0
        bits = m % SPAN
        out, lo = 0, 0
        while lo < 63:
            if not bits >> lo & 1:
                lo += 1
                continue
            hi = lo
            while hi < 63 and bits >> hi & 1:
                hi += 1
            q = self.divmod(a, 1 << lo)[0] if lo else a
            if hi < 63:
                q = self.divmod(q, 1 << (hi - lo))[1]
            out = out + q * (1 << lo)
            lo = hi
        return simp(out)

    def bor(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a | b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return simp(a + b - self.mask(a, b))
        self.ctx.assume(BOr(a, b) == BOr(b, a))
        return self.rng(BOr(a, b))

    def bxor(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return simp(a + b - 2 * self.mask(a, b))
        r = self.rng(BXor(a, b))
        self.ctx.assume(r == BXor(b, a))
        for k in (8, 32):
            self.ctx.assume(z3.Implies(z3.And(a >= 0, b >= 0, a < 2 ** k, b < 2 ** k), z3.And(r >= 0, r < 2 ** k)))   # lemma, proved over bit vectors (lemmas())
        return r

    def binop(self, op, a, b):
        if op == '+':
            return self.wrap(a + b)
        if op == '-':
            return self.wrap(a - b)
        if op == '*':
            return self.wrap(a * b)
        if op == '/':
            return self.div(a, b)
        if op == '&':
            return self.band(a, b)
        if op == '|':
            return self.bor(a, b)
        if op == '^':
            return self.bxor(a, b)
        if op == '<<':
            if not isinstance(b, int):
                raise Unsupported('shift by an unknown amount')
            return self.wrap(a * 2 ** (b % 64))
        if op == '>>':
            if not isinstance(b, int):
                raise Unsupported('shift by an unknown amount')
            return self.divmod(a, 2 ** (b % 64))[0]
        r = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b}[op]()
        return simp(r)

    # ---------------------------------------------------------------- memory
    def lit(self, bs):
        bs = tuple(byteval(b) for b in bs)
        if bs not in self.lits:
            n = len(bs)
            self.lits[bs] = Mem(n + 9, n, table(bs), ro=True, name='literal')
        return self.lits[bs]

    def bytes_(self, name='s', ro=False, n=None, cap=None):
        """an arbitrary string or byte array"""
        if n is None:
            n = self.int(name + '.len', 0, MAXLEN)
        a = z3.Array(self.ctx.fresh(name), z3.IntSort(), z3.IntSort())
        m = self.new(Mem(n + 8 if cap is None else cap + 8, n, select(a), ro=ro, name=name))
        m.base = a
        return m

    def conc(self, bs, name='s', ro=False, extra=0):
        return self.new(Mem(len(bs) + 8 + extra, len(bs), table(tuple(bs)), ro=ro, name=name))

    def byte(self, m, j):
        if isinstance(m.get, Table) and isinstance(j, z3.ExprRef) and len(m.get.xs) > 1 and all(isinstance(v, int) and v == m.get.xs[0] + i for i, v in enumerate(m.get.xs)):
            if self.ctx.valid(z3.And(j >= 0, j < len(m.get.xs)))[0] is True:
                return simp(j + m.get.xs[0])
        v = m.get(j)
        if isinstance(v, z3.ExprRef):
            self.ctx.assume(z3.And(v >= -128, v <= 127))
        return v

    def write(self, m, j, v):
        old = m.get
        if isinstance(j, int) and isinstance(old, Table):
            m.get = old.set(j, v)
        else:
            m.get = lambda q, old=old, j=j, v=v: ITE(simp(q == j), v, old(q))
        m.stores = m.stores + ((j, v),)

    def elems(self, m, i):
        return m.word(i)

    def index(self, a, i):
        if isinstance(a, Mem):
            if self.ctx.decide(simp(z3.Or(i < 0, i >= a.w0)) if not (isinstance(i, int) and isinstance(a.w0, int)) else (i < 0 or i >= a.w0)):
                raise Panic('index out of bounds')
            self.ob('array access inside the block', simp(8 + 8 * i + 8 <= a.size) if not isinstance(8 * i + 16 <= a.size, bool) else 8 * i + 16 <= a.size, a.name)
            return
        raise Unsupported('index of %s' % type(a).__name__)

    def loadf(self, r, name):
        k = r.typ + '.' + name
        if k not in self.heap:
            self.heap[k] = z3.Array(k, z3.IntSort(), z3.IntSort())
        return self.fieldview(r.typ, name, self.heap[k][r.a])

    def storef(self, r, name, v):
        k = r.typ + '.' + name
        self.loadf(r, name)
        self.heap[k] = z3.Store(self.heap[k], r.a, self.unview(v))

    def fieldview(self, typ, name, t):
        return t

    def unview(self, v):
        if isinstance(v, SymRef):
            return v.a
        if isinstance(v, Raw):
            return v.w
        return v

    # ---------------------------------------------------------------- calls
    def run(self, decl, args):
        """the body of decl, even if it has a contract"""
        self.ran.add(decl.get('_key', decl['val']))
        if len(decl.get('p', [])) != len(args):
            raise Unsupported('%s takes %d parameters' % (decl['val'], len(decl.get('p', []))))
        self.sp += 1
        if self.sp > 60:
            raise Unsupported('recursion too deep')
        old = getattr(self, 'env', None)
        self.env = Env({p['sym']: a for p, a in zip(decl.get('p', []), args)}, None)
        try:
            return self.body(decl)
        finally:
            self.env = old
            self.sp -= 1

    def body(self, decl):
        if decl['op'] == 'exprfn':
            v = self.ev(decl['s'][0])
            return v
        try:
            for s in decl.get('s', []):
                self.st(s)
        except Ret as r:
            return r.v
        return None

    def callclo(self, c, args):
        if isinstance(c, UFn):
            return c.call(self, args)
        if isinstance(c, FnV):
            return self.callsym(c.sym, args)
        if not isinstance(c, CloV):
            raise Unsupported('call of %s' % type(c).__name__)
        d = c.decl
        self.sp += 1
        if self.sp > 60:
            raise Unsupported('recursion too deep')
        old = self.env
        self.env = Env({p['sym']: a for p, a in zip(d.get('p', []), args)}, c.cap)
        try:
            return self.body(d)
        finally:
            self.env = old
            self.sp -= 1

    def callsym(self, sym, args, node=None):
        lib = self.lib
        s = lib.syms[sym]
        if sym in lib.cons:
            return self.construct(sym, args)
        d = lib.bysym.get(sym)
        if d is None or d['op'] == 'externfn':
            f = self.stubs.get(s['name'])
            if f is None:
                raise Unsupported('external function %s' % s['name'])
            return f(self, args, node)
        k = d['_key']
        if k in self.contracts:
            return self.contracts[k](self, args)
        return self.run(d, args)

    def construct(self, sym, args):
        s, n = self.lib.syms[sym], self.lib.cons[sym]
        b = base(s['ret'])
        if s['fkind'] == 4:
            if self.listmode and b == 'list':
                return L.cons(self.elemterm(args[0]), args[1]) if args else L.nil
            return EnumV(b, n['val'], args)
        return self.new(StructO(b, {p['val']: a for p, a in zip(n.get('p', []), args)}))

    def elemterm(self, v):
        v = self.unview(v)
        return z3.IntVal(v) if isinstance(v, int) else v

    def find(self, *a, **k):
        return self.lib.fn(*a, **k)

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        f = getattr(self, 'e_' + EX.get(n['op'], 'bad'))
        return f(n)

    def e_bad(self, n):
        raise Unsupported('expression %s' % n['op'])

    def e_lit(self, n):
        if n['kind'] == 'int':
            v = n['val']
            neg = v.startswith('-')
            v = v.lstrip('-')
            x = int(v, 16) if v.lower().startswith('0x') else int(v, 2) if v.lower().startswith('0b') else int(v, 8) if len(v) > 1 and v[0] == '0' else int(v)
            return -x if neg else x
        if n['kind'] == 'bool':
            return n['val'] == 'true'
        raw = bytes(n['bytes'])
        if raw[:1] == b'"':
            raw = raw[1:-1]
        return self.lit(unescape(raw))

    def e_id(self, n):
        s = n.get('sym')
        if s is None:
            raise Unsupported('identifier %s without symbol' % n['val'])
        if s in self.env:
            return self.env[s]
        if s in self.lib.bysym or s in self.lib.cons:
            return FnV(s)
        raise Unsupported('variable %s' % n['val'])

    def e_bin(self, n):
        a = self.ev(n['l'])
        b = self.ev(n['r'])
        if not isint(a) or not isint(b):
            raise Unsupported('%s on %s' % (n['op'], type(a).__name__))
        return self.binop(n['op'], a, b)

    def e_bool(self, n):
        a = self.ev(n['l'])
        b = self.ev(n['r'])
        return simp(AND(a, b) if n['op'] == 'and' else OR(a, b))

    def e_un(self, n):
        a = self.ev(n['l'])
        if n['op'] == 'not':
            return simp(NOT(a))
        return self.wrap(-a if n['op'] == 'neg' else -a - 1)

    def e_tern(self, n):
        c = self.ev(n['l'])
        if not isinstance(c, bool) and all(pure(x) for x in n['s']):
            for v, w in ((c, 0), (NOT(c), 1)):
                if self.ctx.valid(v)[0] is True:
                    return self.ev(n['s'][w])
            a, b = self.ev(n['s'][0]), self.ev(n['s'][1])
            if (isint(a) and isint(b)) or (isbool(a) and isbool(b)):
                return simp(ITE(c, a, b))
        return self.ev(n['s'][0] if self.ctx.decide(c) else n['s'][1])

    def e_dot(self, n):
        o = self.ev(n['l'])
        return self.getfield(o, n['r']['val'])

    def getfield(self, o, name):
        if isinstance(o, Mem) and name == 'length':
            return o.w0
        if isinstance(o, (StructO, SymRef)):
            return o.getf(self, name)
        if name == 'deref':
            return self.deref(o)
        raise Unsupported('field %s of %s' % (name, type(o).__name__))

    def deref(self, o):
        raise Unsupported('deref')

    def e_index(self, n):
        a = self.ev(n['l'])
        i = self.ev(n['r'])
        self.index(a, i)
        return self.elems(a, i)

    def e_fn(self, n):
        return self.new(CloV(n, self.env.flat()))

    def e_call(self, n):
        left = n['l']
        if left['op'] == 'id' and left['val'] in ('printf', 'debug') and left.get('sym') not in self.env:
            args = [self.ev(a) for a in n.get('s', [])]
            return self.stubs[left['val']](self, args, n)
        if left['op'] == 'id' and left.get('sym') not in self.env:
            if left['val'] == 'unsafe':
                return self.unsafe(self.ev(n['s'][0]), self.ev(n['s'][1]), n['typ'])
            args = [self.ev(a) for a in n.get('s', [])]
            return self.callsym(left['sym'], args, n)
        f = self.ev(left)
        args = [self.ev(a) for a in n.get('s', [])]
        return self.callclo(f, args)

    def e_arraylit(self, n):
        xs = [self.ev(a) for a in n.get('s', [])]
        return self.arr(xs)

    def arr(self, xs):
        xs = tuple(xs)
        return self.new(Mem(8 + 8 * len(xs), len(xs), word=Table(xs)))

    def unsafe(self, v, off, typ):
        b = base(typ)
        if isinstance(v, Ptr):
            v, off = v.o, simp(v.off + off)
        if isinstance(v, Mem):
            if isinstance(off, int) and off == 0 and b != 'pointer':
                if b == '[]' and v.word is None and getattr(v, 'fresh', False):
                    # a zeroed block seen as an array of words
                    n = simp(v.size - 8)
                    v.word = Table((self.nullelem,) * (n // 8)) if isinstance(n, int) and n < 5000 else ConstSel(self.nullelem)
                    v.get = None
                return v
            return Ptr(v, off)
        if isinstance(v, (EnumV, StructO, CloV, FnV)) and isinstance(off, int) and off == 0:
            return v
        if isinstance(v, z3.DatatypeRef) and isinstance(off, int) and off == 0:
            return v
        if isinstance(v, SymRef):
            v = Raw(simp(v.a))
        if isint(v):
            v = Tagged(v)
        if isinstance(v, Tagged):
            if isinstance(off, int) and off == 0:
                return v.n if b == 'int' else v if b == 'pointer' else self.view(Raw(simp(2 * v.n + 1)), b)
            v = Raw(simp(2 * v.n + 1))
        if isinstance(v, Raw):
            w = simp(v.w + off)
            if b == 'pointer':
                return Raw(w)
            return self.view(Raw(w), b)
        raise Unsupported('unsafe of %s' % type(v).__name__)

    def view(self, r, b):
        if b == 'int':
            q, rem = self.divmod(r.w, 2)
            if self.ctx.valid(rem == 1 if not isinstance(rem, int) else rem == 1)[0]:
                return q
            raise Unsupported('a word that is not a tagged int is read as one')
        if b in self.lib.structs:
            return SymRef(b, r.w)
        raise Unsupported('view as %s' % b)

    # ---------------------------------------------------------------- statements
    def st(self, n):
        op = n['op']
        if op == ':=':
            self.env.decl(n['l']['sym'], self.ev(n['r']))
        elif op == '=':
            v = self.ev(n['r'])
            self.assign(n['l'], v)
        elif op == 'return':
            raise Ret(self.ev(n['l']) if n.get('l') else None)
        elif op == 'if':
            self.st_if(n)
        elif op == 'while':
            self.loop(n, lambda: self.ev(n['l']), lambda: self.sts(n.get('s', [])))
        elif op == 'for':
            self.st_for(n)
        elif op == 'match':
            self.st_match(n)
        elif op in ('blockfn', 'exprfn'):
            pass
        else:
            self.ev(n)

    def sts(self, ss):
        for s in ss:
            self.st(s)

    def assign(self, l, v):
        if l['op'] == 'id':
            self.env.set(l['sym'], v)
        elif l['op'] == '.':
            o = self.ev(l['l'])
            self.setfield(o, l['r']['val'], v)
        elif l['op'] == 'index':
            a = self.ev(l['l'])
            i = self.ev(l['r'])
            self.index(a, i)
            self.setelem(a, i, v)
        else:
            raise Unsupported('assignment to %s' % l['op'])

    def setelem(self, a, i, v):
        self.ob('no write to a literal', not a.ro)
        if isinstance(a.word, ArrSel):
            a.word = ArrSel(z3.Store(a.word.arr, i, v))
        elif isinstance(i, int) and isinstance(a.word, Table):
            a.word = a.word.set(i, v)
        else:
            old = a.word
            a.word = lambda q, old=old, i=i, v=v: self.iteval(simp(q == i), v, old, q)
        a.stores = a.stores + ((i, v),)

    def iteval(self, c, v, old, q):
        if c is True:
            return v
        o = old(q)
        if c is False:
            return o
        if isinstance(v, (int, z3.ExprRef)) and isinstance(o, (int, z3.ExprRef)):
            return ITE(c, v, o)
        return v if self.ctx.decide(c) else o

    def setfield(self, o, name, v):
        if isinstance(o, Mem) and name == 'length':
            self.ob('no write to a literal', not o.ro)
            self.ob('a length word stays within its block', simp(AND(v >= 0, 8 + v * (1 if o.word is None else 8) <= o.size)))
            o.w0 = v
            return
        if isinstance(o, (StructO, SymRef)):
            o.setf(self, name, v)
            return
        raise Unsupported('field %s of %s' % (name, type(o).__name__))

    def st_if(self, n):
        c = self.ev(n['l'])
        if not isinstance(c, bool) and self.merge and self.mergeif(n, c):
            return
        if self.ctx.decide(c):
            self.sts(n.get('s', []))
            return
        r = n.get('r')
        if r is None:
            return
        if r['op'] == 'else':
            self.sts(r.get('s', []))
        else:
            self.st_if(r)

    def mergeif(self, n, c):
        """both branches only assign to int or bool variables, and without side effects: no need to split"""
        r = n.get('r')
        bodies = [n.get('s', []), []]
        if r is not None:
            if r['op'] != 'else':
                return False
            bodies[1] = r.get('s', [])
        if not all(s['op'] == '=' and s['l']['op'] == 'id' and pure(s['r']) for b in bodies for s in b):
            return False
        e0 = self.env
        outs = []
        for b in bodies:
            self.env = e0.copy()
            self.sts(b)
            outs.append(self.env)
        self.env = e0
        for s in {s['l']['sym'] for b in bodies for s in b}:
            a, b = outs[0][s], outs[1][s]
            if not (isint(a) and isint(b) or isbool(a) and isbool(b)):
                return False
            e0.set(s, simp(ITE(c, a, b)))
        return True

    def st_for(self, n):
        r = n['r']
        sym = n['l']['sym']
        if r['op'] == 'range':
            down = r['r']['op'] == 'lit' and r['r']['val'] == '0'
            lo = self.ev(r['l'])
            if down:
                self.env.decl(sym, self.wrap(lo - 1))

                def cond():
                    return self.binop('<=', self.ev(r['r']), self.env[sym])

                def body():
                    self.sts(n.get('s', []))
                    self.env.set(sym, self.wrap(self.env[sym] - 1))
            else:
                self.env.decl(sym, lo)

                def cond():
                    return self.binop('<', self.env[sym], self.ev(r['r']))

                def body():
                    self.sts(n.get('s', []))
                    self.env.set(sym, self.wrap(self.env[sym] + 1))
            self.loop(n, cond, body, extra=[sym])
            return
        a = self.ev(r)
        idx = 'idx%d' % id(n)
        self.env.decl(idx, 0)

        def cond():
            return self.binop('<', self.env[idx], self.getfield(a, 'length'))

        def body():
            self.index(a, self.env[idx])
            self.env.decl(sym, self.elems(a, self.env[idx]))
            self.sts(n.get('s', []))
            self.env.set(idx, self.wrap(self.env[idx] + 1))
        self.loop(n, cond, body, extra=[idx])

    def st_match(self, n):
        v = self.ev(n['l'])
        cases = {c['val']: c for c in n.get('s', [])}
        if isinstance(v, z3.DatatypeRef):
            if self.ctx.decide(L.is_cons(v)):
                c, f = cases['Element'], [self.elemview(L.hd(v), n['l'].get('typ')), L.tl(v)]
            else:
                c, f = cases['Empty'], []
        elif isinstance(v, EnumV):
            c, f = cases[v.case], v.f
        elif self.enumhook:
            case, f = self.enumhook(self, v, n)
            c = cases[case]
        else:
            raise Unsupported('match on %s' % type(v).__name__)
        for p, x in zip(c.get('p', []), f):
            self.env.decl(p['sym'], x)
        self.sts(c.get('s', []))

    def elemview(self, t, typ):
        return self.wrapelem(t, typ) if self.wrapelem else t

    # ---------------------------------------------------------------- loops
    def loop(self, node, cond, body, extra=()):
        rounds = 0
        if self.loophook and self.loophook(self, node, cond, body, extra):
            return
        while True:
            s = self.snapshot()
            env = self.env.copy()
            c = cond()
            if isinstance(c, bool):
                if not c:
                    return
                if not self.unroll and self.forks(cond, body):
                    self.restore(s)
                    self.env.load(env)
                    return self.cut(node, cond, body, extra)
                body()
                rounds += 1
                if rounds > 3000:
                    raise Unsupported('more than 3000 rounds')
                continue
            if self.unroll:
                if rounds > self.unroll:
                    raise Unsupported('more than %d rounds of the loop in line %s' % (self.unroll, node.get('line')))
                if not self.ctx.decide(c):
                    return
                body()
                rounds += 1
                continue
            self.restore(s)
            self.env.load(env)
            return self.cut(node, cond, body, extra)

    def forks(self, cond, body):
        """does a round of this loop depend on unknown values?"""
        seen = []

        def one():
            cond()
            try:
                body()
            finally:
                seen.append(len(self.ctx.trail))
        self.sub(one)
        return any(seen)

    def changes(self, s0, env0):
        """what differs from the snapshot: -> dict key -> (old, new)"""
        out = {}
        for k, v in self.env.items():
            if k in env0 and env0[k] is not v and not same(env0[k], v):
                out['v', k] = (env0[k], v)
        for o, d in s0[0]:
            for f, old in d.items():
                new = getattr(o, f)
                if f in ('f', 'cap'):
                    for q in new:
                        if q in old and old[q] is not new[q] and not same(old[q], new[q]):
                            out['f', o, f, q] = (old[q], new[q])
                elif f == 'stores':
                    if len(new) > len(old):
                        out['d', o] = new[len(old):]
                elif f in ('get', 'word', 'junk', 'name', 'base', 'fresh'):
                    pass
                elif new is not old and not same(old, new):
                    out['o', o, f] = (old, new)
        if s0[2] is not self.world:
            out['w', 0] = (s0[2], self.world)
        for k in self.heap:
            if k in s0[3] and s0[3][k] is not self.heap[k]:
                out['h', k] = (s0[3][k], self.heap[k])
        for k in self.g:
            if k not in s0[4] or s0[4][k] is not self.g[k] and not same(s0[4][k], self.g[k]):
                out['g', k] = (s0[4].get(k), self.g[k])
        return out

    def put(self, key, v):
        if key[0] == 'v':
            self.env.set(key[1], v)
        elif key[0] == 'f':
            getattr(key[1], key[2])[key[3]] = v
        elif key[0] == 'o':
            setattr(key[1], key[2], v)
        elif key[0] == 'w':
            self.world = v
        elif key[0] == 'h':
            self.heap[key[1]] = v
        elif key[0] == 'g':
            self.g[key[1]] = v

    def havoc(self, key, old, new):
        for v in (old, new):
            if isbool(v):
                return self.ctx.bool('hv')
            if isint(v):
                return self.int('hv')
            if isinstance(v, z3.ArrayRef):
                return z3.Array(self.ctx.fresh('ha'), v.sort().domain(), v.sort().range())
            if isinstance(v, z3.ExprRef):
                return z3.Const(self.ctx.fresh('hv'), v.sort())
            if isinstance(v, SymRef):
                return SymRef(v.typ, self.ctx.int('hr'))
            if isinstance(v, Raw):
                return Raw(self.ctx.int('hr'))
        return None

    def havoc_enum(self, v, key=None):
        cases = self.lib.enums[v.enum]
        i = self.ctx.choose(len(cases))
        c = cases[i]
        fs = []
        for t in c[3]:
            if t in ('int',):
                fs.append(self.int('hv'))
            elif len(t) <= 2 and t.isupper():
                fs.append(self.wrapelem(self.ctx.int('hv'), None) if self.wrapelem else self.ctx.int('hv'))
            else:
                raise Unsupported('forgetting a value of type %s' % t)
        return EnumV(v.enum, c[0], fs)

    def cut(self, node, cond, body, extra):
        s0, env0 = self.snapshot(), self.env.copy()

        def rnd():
            for o in self.objs:
                if isinstance(o, Mem):
                    o.stores = ()
            c = cond()
            if not self.ctx.decide(c):
                raise Infeasible()
            body()
            return self.changes(s00[0], s00[1])
        for o in self.objs:
            if isinstance(o, Mem):
                o.stores = ()
        s0 = self.snapshot()
        s00 = (s0, env0)
        first = self.sub(rnd)
        keys = {}
        for ch, pc in first:
            for k, v in ch.items():
                keys.setdefault(k, v)
        # variables that change by a constant
        delta = {}
        for k in keys:
            ds = set()
            for ch, pc in first:
                if k not in ch:
                    ds.add(0)
                elif k[0] == 'd' or not (isint(ch[k][0]) and isint(ch[k][1])):
                    ds.add(None)
                else:
                    d = simp(ch[k][1] - ch[k][0])
                    ds.add(d if isinstance(d, int) else None)
            if len(ds) == 1 and None not in ds:
                delta[k] = ds.pop()
        k = z3.Int(self.ctx.fresh('round'))
        self.ctx.assume(k >= 0)
        for attempt in range(6):
            r = self.analyse(node, keys, delta, k, s0, env0, cond, body)
            if r is True:
                continue
            closed, cont, cands = r
            break
        else:
            raise Unsupported('no closed form for the loop in line %s' % node.get('line'))
        # the round k
        self.cuts += 1
        self.setup(keys, delta, closed, k, havoc=True)
        bases = [v for q in delta for v in [keys[q][0]]]
        if cont is not None:
            self.qf.append((k, cont, bases))
            self.inst(k - 1)
            self.inst(z3.IntVal(0))
        for nm, c in cands:
            self.ctx.assume(c(self))
        for o in self.objs:
            if isinstance(o, Mem):
                o.stores = ()
        c = cond()
        if not self.ctx.decide(c):
            return
        body()
        # back at the loop head: the state must be that of the round k+1
        for q, d in delta.items():
            if self.ctx.valid(self.now(q) == keys[q][0] + d * (k + 1))[0] is not True:
                raise Unsupported('closed form of a variable of the loop in line %s is not preserved' % node.get('line'))
        for o, (fn, mk) in closed.items():
            j = self.ctx.int('j')
            if self.ctx.valid(self.data(o)(j) == mk(k + 1)(j))[0] is not True:
                raise Unsupported('closed form of the data written by the loop in line %s is not preserved' % node.get('line'))
        ch = self.changes(s0, env0)
        for q in ch:
            if q not in keys and q[0] != 'd':
                raise Unsupported('the loop in line %s changes more than its first round shows' % node.get('line'))
        for nm, c in cands:
            cc = c(self)
            if self.ctx.valid(cc)[0] is not True:
                raise Unsupported('candidate invariant %s not preserved' % nm)
        raise StopPath('round')

    def data(self, o):
        return o.get if o.word is None else o.word

    def now(self, key):
        if key[0] == 'v':
            return self.env[key[1]]
        if key[0] == 'f':
            return getattr(key[1], key[2])[key[3]]
        if key[0] == 'o':
            return getattr(key[1], key[2])
        if key[0] == 'w':
            return self.world
        if key[0] == 'h':
            return self.heap[key[1]]
        return self.g[key[1]]

    def setup(self, keys, delta, closed, k, havoc=True):
        for q, (v) in keys.items():
            if q in delta:
                t = simp(v[0] + delta[q] * k)
                self.put(q, t)
                self.rng(t)
            elif q[0] == 'd':
                o = q[1]
                if closed is not None and o in closed:
                    if o.word is None:
                        o.get = closed[o][1](k)
                    else:
                        o.word = closed[o][1](k)
                else:
                    a = z3.Array(self.ctx.fresh('data'), z3.IntSort(), z3.IntSort())
                    if o.word is None:
                        o.get = select(a)
                    else:
                        o.word = select(a)
                    o.junk = a
            else:
                h = self.havoc(q, v[0], v[1])
                if h is None:
                    if isinstance(v[0], EnumV):
                        h = self.havoc_enum(v[0], q)
                    else:
                        raise Unsupported('forgetting a %s' % type(v[0]).__name__)
                self.put(q, h)

    def analyse(self, node, keys, delta, k, s0, env0, cond, body):
        """-> True: something was learnt, try again; else (closed, cont, candidates)"""
        cands = []
        if self.cands:
            st = {'keys': keys, 'delta': delta, 'k': k, 'node': node, 'entry': {q: v[0] for q, v in keys.items() if q[0] != 'd'}}
            for nm, c in self.cands(self, st):
                try:
                    ok = self.ctx.valid(c(self))[0]
                except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
                    ok = False
                if ok is True:
                    cands.append((nm, c))
        while True:
            mark = [0]

            def gen():
                self.setup(keys, delta, None, k)
                mark[0] = self.ctx.n
                hv = {q: self.now(q) for q in keys if q not in delta and q[0] != 'd'}
                junk = [q[1].junk for q in keys if q[0] == 'd']
                n1 = len(self.ctx.pc)
                for nm, c in cands:
                    self.ctx.assume(c(self))
                n2 = len(self.ctx.pc)
                ch0 = {q: self.now(q) for q in keys if q[0] != 'd'}
                for o in self.objs:
                    if isinstance(o, Mem):
                        o.stores = ()
                if not self.ctx.decide(cond()):
                    raise Infeasible()
                body()
                after = {q: self.now(q) for q in keys if q[0] != 'd'}
                stores = {q[1]: q[1].stores for q in keys if q[0] == 'd'}
                bad = []
                for nm, c in cands:
                    if self.ctx.valid(c(self))[0] is not True:
                        bad.append(nm)
                extra = [q for q in self.changes(s0, env0) if q not in keys]
                nd = [q for q in delta if self.ctx.valid(after[q] == ch0[q] + delta[q])[0] is not True]
                return dict(after=after, before=ch0, stores=stores, bad=bad, n=n2, hv=hv, junk=junk, nd=nd, extra=[(q, self.changes(s0, env0)[q]) for q in extra])
            paths = self.sub(gen)
            ex = [q for r, pc in paths for q in r['extra']]
            if ex:
                for q, v in ex:
                    keys[q] = v
                    if q[0] != 'd':
                        # its value on entry
                        keys[q] = (v[0], v[1])
                return True
            nd = [q for r, pc in paths for q in r['nd']]
            if nd:
                for q in nd:
                    delta.pop(q, None)
                return True
            bad = {b for r, pc in paths for b in r['bad']}
            if not bad:
                break
            cands = [c for c in cands if c[0] not in bad]
        closed = {}
        for q in keys:
            if q[0] != 'd':
                continue
            o = q[1]
            sts = [r['stores'][o] for r, pc in paths]
            if not sts or any(len(s) != 1 for s in sts):
                raise Unsupported('the loop in line %s does not write once in every round' % node.get('line'))
            idx, val = sts[0][0]
            if any(not same(simp(s[0][0] - idx), 0) or not same(s[0][1], val) for s in sts[1:]):
                raise Unsupported('the loop in line %s writes differently on different paths' % node.get('line'))
            e0 = simp(z3.substitute(term(idx), (k, z3.IntVal(0))))
            sg = simp(idx - e0 - k)
            sg = 1 if sg == 0 and isinstance(sg, int) else -1 if simp(idx - e0 + k) == 0 and isinstance(simp(idx - e0 + k), int) else None
            if sg is None:
                raise Unsupported('the loop in line %s writes at a position without closed form' % node.get('line'))
            vt = val
            if isinstance(val, z3.ExprRef):
                names = {str(c) for c in consts(val)}
                if any(str(j) in names for r, pc in paths for j in r['junk']) or any(str(c) in names for r, pc in paths for h in r['hv'].values() for c in consts(h)) or fresh_after(val, mark[0]):
                    raise Unsupported('the loop in line %s writes a value without closed form' % node.get('line'))
            olddata = self.data(o)

            def mk(kk, e0=e0, sg=sg, vt=vt, old=olddata):
                def get(j):
                    i = simp((j - e0) * sg)
                    v = vt if not isinstance(vt, z3.ExprRef) else simp(z3.substitute(vt, (k, term(i))))
                    return self.iteval(simp(z3.And(i >= 0, i < kk)), v, old, j)
                return get
            closed[o] = (None, mk)
        # what is known about every earlier round
        alts = []
        for r, pc in paths:
            cs = []
            hvn = {str(c) for h in r['hv'].values() for c in consts(h)} | {str(j) for j in r['junk']}
            for c in pc:
                names = {str(x) for x in consts(c)}
                if names & hvn or fresh_after(c, mark[0]):
                    continue
                cs.append(c)
            alts.append(z3.And(*cs) if cs else z3.BoolVal(True))
        cont = None
        if alts:
            f = z3.simplify(z3.Or(*alts))
            if not z3.is_true(f):
                cont = lambda i, f=f: z3.substitute(f, (k, term(i)))
        return closed, cont, cands


def term(v):
    return v if isinstance(v, z3.ExprRef) else z3.IntVal(v)


def consts(t, seen=None):
    if not isinstance(t, z3.ExprRef):
        return []
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def fresh_after(t, n):
    for c in consts(t):
        s = str(c)
        if '!' in s:
            try:
                if int(s.rsplit('!', 1)[1]) > n:
                    return True
            except ValueError:
                pass
    return False


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return type(a) == type(b) and a == b
    if isinstance(a, EnumV) and isinstance(b, EnumV):
        return a.case == b.case and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, SymRef) and isinstance(b, SymRef):
        return same(a.a, b.a)
    if isinstance(a, Raw) and isinstance(b, Raw):
        return same(a.w, b.w)
    return False


class Env:
    """variables of one activation; captured ones of a closure live in its environment"""
    def __init__(self, d, cap):
        self.d, self.cap = d, cap

    def __contains__(self, k):
        return k in self.d or self.cap is not None and k in self.cap

    def __getitem__(self, k):
        if k in self.d:
            return self.d[k]
        return self.cap[k]

    def decl(self, k, v):
        self.d[k] = v

    def set(self, k, v):
        if k in self.d or self.cap is None or k not in self.cap:
            self.d[k] = v
        else:
            self.cap[k] = v

    def copy(self):
        return Env(dict(self.d), self.cap)

    def load(self, e):
        self.d = dict(e.d)

    def flat(self):
        r = dict(self.cap) if self.cap else {}
        r.update(self.d)
        return r

    def items(self):
        return self.d.items()


class Table:
    def __init__(self, xs):
        self.xs = tuple(xs)

    def set(self, i, v):
        if 0 <= i < len(self.xs):
            return Table(self.xs[:i] + (v,) + self.xs[i + 1:])
        raise Unsupported('write outside a table')

    def __call__(self, j):
        if isinstance(j, int):
            return self.xs[j] if 0 <= j < len(self.xs) else 0
        j = simp(j)
        if isinstance(j, int):
            return self(j)
        if not self.xs:
            return z3.IntVal(0)
        r = term(self.xs[-1])
        for i in range(len(self.xs) - 2, -1, -1):
            r = z3.If(j == i, term(self.xs[i]), r)
        return r


class ArrSel:
    def __init__(self, arr):
        self.arr = arr

    def __call__(self, j):
        return z3.Select(self.arr, j)


class ConstSel:
    def __init__(self, v):
        self.v = v

    def __call__(self, j):
        return self.v


def table(bs):
    return Table(bs)


def select(a):
    return lambda j: a[j]


def zero(j):
    return 0


def pure(n):
    if n['op'] in ('id', 'lit'):
        return True
    if n['op'] in ('+', '-', '*', '&', '|', '<', '>', '<=', '>=', '==', 'neg', '~', 'not', 'and', 'or'):
        return pure(n['l']) and ('r' not in n or pure(n['r']))
    return False


def unescape(b):
    out, i = [], 0
    m = {ord('n'): 10, ord('t'): 9, ord('r'): 13, ord('"'): 34, ord('\\'): 92}
    while i < len(b):
        if b[i] == 92 and i + 1 < len(b) and b[i + 1] in m:
            out.append(m[b[i + 1]])
            i += 2
        else:
            out.append(b[i])
            i += 1
    return out


EX = {'lit': 'lit', 'id': 'id', '+': 'bin', '-': 'bin', '*': 'bin', '/': 'bin', '&': 'bin', '|': 'bin', '^': 'bin', '<<': 'bin', '>>': 'bin', '<': 'bin', '>': 'bin',
      '<=': 'bin', '>=': 'bin', '==': 'bin', 'and': 'bool', 'or': 'bool', 'not': 'un', 'neg': 'un', '~': 'un', '?:': 'tern', '.': 'dot', 'index': 'index', 'blockfn': 'fn',
      'exprfn': 'fn', 'call': 'call', 'arraylit': 'arraylit'}


# -------------------------------------------------------------------- the run time below the library, by contract
def s_alloc(X, a, node):
    raise Unsupported('alloc')


def s_readbyte(X, a, node):
    p, i = a
    if not isinstance(p, Ptr) or not isinstance(p.o, Mem):
        raise Unsupported('readByte')
    j = simp(p.off - 8 + i)
    X.ob('read inside the object', simp(AND(j >= 0, j < p.o.w0)), p.o.name)
    return Raw(X.byte(p.o, j))


def s_writebyte(X, a, node):
    p, i, v = a
    if not isinstance(p, Ptr) or not isinstance(p.o, Mem):
        raise Unsupported('writeByte')
    j = simp(p.off - 8 + i)
    X.ob('write inside the object', simp(AND(j >= 0, j < p.o.w0, 8 + j < p.o.size)), p.o.name)
    X.ob('no write to a literal', not p.o.ro)
    if isinstance(v, Raw):
        w = v.w
    elif isint(v):
        w = 2 * v + 1
    elif isinstance(v, Tagged):
        w = 2 * v.n + 1
    else:
        raise Unsupported('writeByte of a pointer')
    if isinstance(w, int):
        b = byteval(w % 256)
    else:
        w = simp(w)
        if X.ctx.valid(z3.And(w >= -128, w <= 127))[0] is True:
            b = w
        else:
            r = X.divmod(w, 256)[1]
            b = simp(z3.If(r > 127, r - 256, r))
    X.write(p.o, j, b)
    return None


def s_tagged(X, a, node):
    v = a[0]
    if isinstance(v, Raw):
        return X.wrap(v.w)
    if isinstance(v, Tagged):
        return X.wrap(2 * v.n + 1)
    raise Unsupported('toTaggedInt of %s' % type(v).__name__)


def s_untagged(X, a, node):
    v = a[0]
    if isinstance(v, Tagged):
        return Raw(v.n)
    if isinstance(v, Raw):
        return Raw(X.divmod(v.w, 2)[0])
    raise Unsupported('toUntaggedInt of %s' % type(v).__name__)


def s_nothing(X, a, node):
    return None


def s_exit(X, a, node):
    raise Panic('exit')


STUBS = {'readByte': s_readbyte, 'writeByte': s_writebyte, 'toTaggedInt': s_tagged, 'toUntaggedInt': s_untagged, 'printf': s_nothing, 'debug': s_nothing, 'exit': s_exit}


def claralloc(X, a):
    """contract of claralloc (C20): a fresh block of the given size, all zero"""
    size = a[0]
    if X.ctx.decide(simp(z3.Or(term(size) <= 0, term(size) > 2 ** 44))):
        raise OutOfMemory('no block of that size')
    if isinstance(size, int) and size <= 8:
        X.ob('allocation holds a length word', size == 8)
    n = simp(size - 8)
    if isinstance(n, int) and n < 5000:
        m = Mem(size, 0, Table((0,) * max(n, 0)))
    else:
        m = Mem(size, 0, zero)
    m.fresh = True
    m.typ = a[2]
    m.name = 'block'
    return X.new(m)


def lemmas(obs):
    """facts about bit operations used above, proved over bit vectors"""
    a, b = z3.BitVecs('a b', 63)
    s = z3.Solver()

    def lemma(name, f):
        s.push()
        s.add(z3.Not(f))
        r = s.check()
        s.pop()
        obs.rec('lemma/' + name, 'discharged' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown')
    for k in (8, 32):
        m = z3.BitVecVal(2 ** k, 63)
        lemma('xor stays below 2^%d' % k, z3.Implies(z3.And(z3.ULT(a, m), z3.ULT(b, m)), z3.ULT(a ^ b, m)))
    pow2 = lambda n: z3.And(n > 0, n & (n - 1) == 0)
    lemma('masking with a power of two less one gives an index', z3.Implies(pow2(b), z3.And((a & (b - 1)) >= 0, (a & (b - 1)) < b)))
    lemma('twice a power of two is one', z3.Implies(z3.And(pow2(b), b < 2 ** 61), z3.And(pow2(b << 1), (b << 1) == 2 * b)))
    lemma('a power of two is even or one', z3.Implies(pow2(b), z3.Or(b == 1, b & 1 == 0)))
