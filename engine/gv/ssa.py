"""Loading the exported SSA and symbolic execution of it.

One execution follows one path.  A symbolic branch condition is handed to Ctx.decide, which consults the
solver: if both outcomes are feasible the first is taken and the other is queued as a decision prefix, so
the complete set of paths is explored by re-execution.
"""
import json, base64, z3, sys
sys.setrecursionlimit(200000)


class Unsupported(Exception):
    """The construct is outside the verifier's reach."""


class GoPanic(Exception):
    def __init__(self, val, pos=None):
        self.val, self.pos = val, pos

    def __str__(self):
        return 'panic(%s)' % (show(self.val),)


class Infeasible(Exception):
    """The current path is infeasible (assume false)."""


class StopPath(Exception):
    """Harness ends the path here (cut point)."""
    def __init__(self, tag=None, data=None):
        self.tag, self.data = tag, data


# ------------------------------------------------------------------ values
class StructV(list):
    __slots__ = ('tid',)

    def __init__(self, vals, tid):
        list.__init__(self, vals)
        self.tid = tid
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


class ArrayV(list):
    __slots__ = ('tid',)

    def __init__(self, vals, tid=None):
        list.__init__(self, vals)
        self.tid = tid
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


class Ptr:
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.c is o.c and self.k == o.k

    def __hash__(self):
        return hash((id(self.c), self.k))


class SliceV:
    __slots__ = ('a', 'off', 'n', 'cap')

    def __init__(self, a, off, n, cap):
        self.a, self.off, self.n, self.cap = a, off, n, cap

    def items(self):
        return [force(self.a, self.off + i) for i in range(self.n)]


class IfaceV:
    __slots__ = ('tid', 'v')

    def __init__(self, tid, v):
        self.tid, self.v = tid, v


class FuncV:
    __slots__ = ('name', 'b')

    def __init__(self, name, b=()):
        self.name, self.b = name, b


class PyFunc:
    """A function value implemented by the harness."""
    __slots__ = ('f', 'name')

    def __init__(self, f, name='py'):
        self.f, self.name = f, name


class MapV:
    def __init__(self, tid):
        self.tid = tid
        self.d = {}      # hashed key -> [k, v]
        self.sym = []    # entries with symbolic keys, in insertion order
        self.unknown = None  # callback(key) -> (value, present) for symbolic maps

    def entries(self):
        return list(self.d.values()) + self.sym


class IterV:
    def __init__(self, items):
        self.items, self.i = items, 0


class ChanV:
    def __init__(self):
        self.sent = []


class Lazy:
    """A lazily initialised slot."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Opaque:
    """A value the verifier knows nothing about (identity only)."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


def force(c, k):
    v = c[k]
    if type(v) is Lazy:
        v = v.f()
        c[k] = v
    return v


def show(v):
    if isinstance(v, IfaceV):
        return show(v.v)
    if isinstance(v, (StructV,)):
        return '{' + ', '.join(show(x) for x in v) + '}'
    if isinstance(v, Ptr):
        return '&'
    return str(v)


def issym(v):
    return isinstance(v, z3.ExprRef)


# Symbolic strings are z3 Ints naming interned strings.
_intern = {}
_internr = []


def strid(s):
    if s not in _intern:
        _intern[s] = len(_internr)
        _internr.append(s)
    return _intern[s]


class SStr:
    """symbolic string: z3 Int term naming a string"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __str__(self):
        return 'S(%s)' % self.t


_concat = z3.Function('concat', z3.IntSort(), z3.IntSort(), z3.IntSort())
_strlen = z3.Function('strlen', z3.IntSort(), z3.IntSort())


def sterm(s):
    return s.t if isinstance(s, SStr) else z3.IntVal(strid(s))


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.funcs = {f['name']: f for f in d['funcs']}
        self.globals = d['globals']
        self.inits = d['inits']
        self.consts = d['consts']
        self._u = {}
        self.by_name = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'named':
                self.by_name[t.get('pkg', '') + '.' + t['name']] = i
        self.ptr_to = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'ptr':
                self.ptr_to[t['elem']] = i
        self.code = {}
        self.called = set()

    def const(self, name):
        return int(self.consts[name]['v'])

    def under(self, tid):
        t = self.types[tid]
        while t['k'] in ('named', 'alias'):
            t = self.types[t['under']]
        return t

    def fields(self, tid):
        return self.under(tid)['fields']

    def fidx(self, tid, name):
        for i, f in enumerate(self.fields(tid)):
            if f['n'] == name:
                return i
        raise Unsupported('no field %s in %s' % (name, self.types[tid]['str']))

    def zero(self, tid):
        t = self.under(tid)
        k = t['k']
        if k == 'basic':
            n = t['name']
            if n == 'bool':
                return False
            if n == 'string':
                return ''
            return 0
        if k == 'struct':
            return StructV([self.zero(f['t']) for f in t['fields']], tid)
        if k == 'array':
            return ArrayV([self.zero(t['elem']) for _ in range(t['len'])], tid)
        return None

    def bits(self, tid):
        n = self.under(tid).get('name', 'int')
        return {'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'rune': (32, True),
                'int64': (64, True), 'uint': (64, False), 'uint8': (8, False), 'byte': (8, False),
                'uint16': (16, False), 'uint32': (32, False), 'uint64': (64, False), 'uintptr': (64, False),
                'untyped int': (64, True), 'untyped rune': (32, True)}.get(n, (64, True))

    def method(self, tid, name):
        """function implementing method name on dynamic type tid"""
        t = self.types[tid]
        star = ''
        if t['k'] == 'ptr':
            t = self.types[t['elem']]
            star = '*'
        m = t.get('methods')
        if not isinstance(m, dict):
            return None
        if star and '*' + name in m:
            return m['*' + name]
        return m.get(name)


def copyv(v):
    if isinstance(v, StructV):
        return StructV([copyv(x) for x in v], v.tid)
    if isinstance(v, ArrayV):
        return ArrayV([copyv(x) for x in v], v.tid)
    return v


def hkey(k):
    if isinstance(k, (bool,)):
        return ('b', k)
    if isinstance(k, (int, str)):
        return k
    if isinstance(k, Ptr):
        return k
    if isinstance(k, IfaceV):
        return ('i', k.tid, hkey(k.v))
    if isinstance(k, StructV):
        return ('s',) + tuple(hkey(x) for x in k)
    if k is None:
        return None
    return None if issym(k) or isinstance(k, SStr) else k


# ------------------------------------------------------------------ exploration
class Ctx:
    def __init__(self, prefix, stats, timeout=10000):
        self.prefix = prefix
        self.trail = []
        self.alts = []
        self.stats = stats
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', timeout)
        self.n = 0
        self.pc = []
        self.log = []

    def fresh(self, name):
        self.n += 1
        return '%s!%d' % (name, self.n)

    def int(self, name='i'):
        return z3.Int(self.fresh(name))

    def bool(self, name='b'):
        return z3.Bool(self.fresh(name))

    def str(self, name='s'):
        t = z3.Int(self.fresh(name))
        return SStr(t)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.solver.add(c)
        self.pc.append(c)

    def feasible(self):
        r = self.check()
        return r != z3.unsat

    def check(self, *a):
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        return self.solver.check(*a)

    def decide(self, c):
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trail.append(v)
            self.assume(c if v else z3.Not(c))
            return v
        t = self.check(c) != z3.unsat
        if t:
            f = self.check(z3.Not(c)) != z3.unsat
        else:
            f = True
        if t and f:
            self.alts.append(self.trail + [False])
            self.trail.append(True)
            self.assume(c)
            return True
        if t:
            self.trail.append(True)
            self.assume(c)
            return True
        self.trail.append(False)
        self.assume(z3.Not(c))
        return False

    def choose(self, n, what=None):
        """pick one of n alternatives (all explored)"""
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trail.append(v)
            return v
        for a in range(n - 1, 0, -1):
            self.alts.append(self.trail + [a])
        self.trail.append(0)
        return 0

    def pick(self, xs):
        return xs[self.choose(len(xs))]

    def valid(self, c):
        """is c implied by the path condition? returns (True/False/None, model)"""
        if c is True:
            return True, None
        if c is False:
            c = z3.BoolVal(False)
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, self.solver.model()
        return None, None


def explore(run, stats, maxpaths=20000, timeout=10000):
    """run(ctx) for every path; returns list of results"""
    work = [[]]
    out = []
    n = 0
    while work:
        p = work.pop()
        n += 1
        if n > maxpaths:
            raise Unsupported('path limit %d exceeded' % maxpaths)
        ctx = Ctx(p, stats, timeout)
        try:
            r = run(ctx)
            out.append(r)
        except Infeasible:
            pass
        work.extend(ctx.alts)
        stats['paths'] = stats.get('paths', 0) + 1
    return out


# ------------------------------------------------------------------ interpreter
class Frame:
    __slots__ = ('fn', 'r', 'defers', 'panic', 'recovered', 'loops', 'pred', 'parent')

    def __init__(self, fn):
        self.fn = fn
        self.r = {}
        self.defers = []
        self.panic = None
        self.recovered = False
        self.loops = {}
        self.parent = None


class Interp:
    def __init__(self, prog, ctx):
        self.p = prog
        self.ctx = ctx
        self.g = {}
        self.stubs = {}
        self.ext = dict(EXT)
        self.loophooks = {}
        self.steps = 0
        self.maxsteps = 3000000
        self.maxdepth = 4000
        self.depth = 0
        self.maxloop = 100000
        self.stack = []
        self.called = prog.called

    # -- heap snapshot of package initialisation
    def init_globals(self, only=None):
        for g in self.p.globals:
            self.g[g['n']] = [self.p.zero(g['t'])]
        saved = self.stubs
        self.stubs = {}
        for i in self.p.inits:
            self.call(i, [])
        self.stubs = saved

    def glob(self, name):
        return Ptr(self.g[name], 0)

    def gget(self, name):
        return force(self.g[name], 0)

    # -- struct helpers
    def new(self, tname, **kw):
        tid = self.p.by_name[tname]
        s = self.p.zero(tid)
        for k, v in kw.items():
            self.setf(Ptr([s], 0), k, v)
        return Ptr([s], 0)

    def getf(self, ptr, name):
        s = force(ptr.c, ptr.k)
        return force(s, self.p.fidx(s.tid, name))

    def setf(self, ptr, name, v):
        s = force(ptr.c, ptr.k)
        i = self.p.fidx(s.tid, name)
        self.fits(s.tid, i, name, v)
        s[i] = v

    def fits(self, tid, i, name, v):
        """a harness must not put a value of another kind into a field whose type was changed"""
        t = self.p.under(self.p.under(tid)['fields'][i]['t'])
        k = t['k']
        want = {MapV: ('map',), SliceV: ('slice',), Ptr: ('ptr',), IfaceV: ('iface',), StructV: ('struct',)}.get(type(v))
        if want is None and k == 'basic':
            return
        if want is None and isinstance(v, (bool, int, str)):
            want = ('basic',)
        if want and k not in want and not (k == 'iface' and want != ('basic',)):
            raise Unsupported('field %s of %s is a %s' % (name, self.p.types[tid]['str'], k))

    def slice(self, vals):
        vals = list(vals)
        return SliceV(ArrayV(vals), 0, len(vals), len(vals))

    def items(self, s):
        return [] if s is None else s.items()

    # -- calling
    def call(self, name, args, binds=()):
        st = self.stubs.get(name)
        if st is not None:
            return st(self, args)
        f = self.p.funcs.get(name)
        if f is None:
            raise Unsupported('unknown function ' + name)
        if f['ext']:
            e = self.ext.get(name)
            if e is None:
                if name.endswith('.init'):
                    return None
                raise Unsupported('external function ' + name)
            return e(self, args)
        return self.run(f, args, binds)

    def callv(self, fv, args):
        if isinstance(fv, FuncV):
            return self.call(fv.name, args, fv.b)
        if isinstance(fv, PyFunc):
            return fv.f(self, args)
        if fv is None:
            raise GoPanic('nil function call')
        raise Unsupported('call of %r' % (fv,))

    def invoke(self, iv, m, args):
        if iv is None:
            raise GoPanic('nil interface method call ' + m)
        if isinstance(iv, Lazy):
            raise Unsupported('lazy iface')
        if not isinstance(iv, IfaceV):
            if hasattr(iv, 'gv_invoke'):
                return iv.gv_invoke(self, m, args)
            raise Unsupported('invoke %s on %r' % (m, iv))
        if hasattr(iv.v, 'gv_invoke'):
            return iv.v.gv_invoke(self, m, args)
        fn = self.p.method(iv.tid, m)
        if fn is None:
            raise Unsupported('method %s of %s' % (m, self.p.types[iv.tid]['str']))
        return self.call(fn, [iv.v] + list(args))

    def code(self, f):
        c = self.p.code.get(f['name'])
        if c is None:
            c = Compiled(self.p, f)
            self.p.code[f['name']] = c
        return c

    def run(self, f, args, binds):
        code = self.code(f)
        self.called.add(f['name'])
        self.depth += 1
        if self.depth > self.maxdepth:
            raise Unsupported('recursion too deep in ' + f['name'])
        fr = Frame(code)
        if self.stack:
            fr.parent = self.stack[-1]
        self.stack.append(fr)
        r = fr.r
        for p, a in zip(f['params'], args):
            r[p['n']] = a
        for p, a in zip(f['free'], binds):
            r[p['n']] = a
        try:
            try:
                return self.exec(code, fr, 0, -1)
            except GoPanic as e:
                if not fr.defers and 'recover' not in f:
                    raise
                fr.panic = e
                self.rundefers(fr)
                if fr.panic is not None:
                    raise fr.panic
                if 'recover' in f:
                    return self.exec(code, fr, f['recover'], -1)
                # no named results: return zero values
                zs = [self.p.zero(x['t']) for x in f['results']]
                return zs[0] if len(zs) == 1 else tuple(zs)
        finally:
            self.stack.pop()
            self.depth -= 1

    def rundefers(self, fr):
        while fr.defers:
            d = fr.defers.pop()
            self.defer_frame = fr
            d()

    def exec(self, code, fr, b, pred):
        blocks = code.blocks
        while True:
            blk = blocks[b]
            hooks = self.loophooks
            if b in code.headers:
                h = hooks.get((code.name, code.headers[b])) or hooks.get((code.name, '*')) or hooks.get('*')
                n = fr.loops.get(b, 0) + 1
                fr.loops[b] = n
                if n > self.maxloop:
                    raise Unsupported('loop bound in %s' % code.name)
            else:
                h = None
            ph = blk.phis
            if ph:
                pi = blk.preds.index(pred)
                vals = [e[pi](fr.r) for (_, e, _c) in ph]
                for (d, _, _c), v in zip(ph, vals):
                    fr.r[d] = v
            if h is not None:
                h(self, fr, b, pred, blk)
            for ins in blk.instrs:
                self.steps += 1
                ins(self, fr)
            if self.steps > self.maxsteps:
                raise Unsupported('step limit')
            t = blk.term
            k = t[0]
            if k == 'jump':
                pred, b = b, t[1]
            elif k == 'if':
                c = t[1](fr.r)
                if c is not True and c is not False:
                    c = self.ctx.decide(c)
                pred, b = b, (t[2] if c else t[3])
            elif k == 'return':
                v = t[1]
                if len(v) == 0:
                    return None
                if len(v) == 1:
                    return copyv(v[0](fr.r))
                return tuple(copyv(x(fr.r)) for x in v)
            elif k == 'panic':
                raise GoPanic(t[1](fr.r), t[2])
            else:
                raise Unsupported('terminator ' + k)

    # -- operations
    def eq(self, x, y):
        """Go == ; returns bool or z3 Bool"""
        if x is y:
            return True
        if hasattr(x, 'gv_eq'):
            return x.gv_eq(self, y)
        if hasattr(y, 'gv_eq'):
            return y.gv_eq(self, x)
        if isinstance(x, SStr) or isinstance(y, SStr):
            return sterm(x) == sterm(y)
        if issym(x) or issym(y):
            if x is None or y is None:
                return False
            return x == y
        if isinstance(x, IfaceV) or isinstance(y, IfaceV):
            if x is None or y is None:
                return False
            if not (isinstance(x, IfaceV) and isinstance(y, IfaceV)):
                return False
            if x.tid != y.tid:
                return False
            return self.eq(x.v, y.v)
        if isinstance(x, StructV):
            r = [self.eq(force(x, i), force(y, i)) for i in range(len(x))]
            return andl(r)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            h = getattr(self, 'ptreq', None)
            if h:
                v = h(x, y)
                if v is not None:
                    return v
            return x == y
        if isinstance(x, (SliceV, MapV, FuncV)) or isinstance(y, (SliceV, MapV, FuncV)):
            if x is None or y is None:
                return False
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if x is None or y is None:
                return False
            raise Unsupported('compare opaque')
        return x == y

    def index(self, i, n, what='index'):
        """checked index -> concrete"""
        if issym(i):
            i = self.concretize(i, 0, n)
        if not (0 <= i < n):
            raise GoPanic('runtime error: index out of range [%s] with length %s' % (i, n))
        return i

    def concretize(self, t, lo, hi):
        """fork over the values lo..hi-1 of t; other values panic-range"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for v in range(lo, hi):
            if self.ctx.decide(t == v):
                return v
        return hi if self.ctx.decide(t >= hi) else -1

    def maplookup(self, m, k):
        """-> (value or None, present)"""
        if m is None:
            return None, False
        if hasattr(k, 'gv_eq'):
            if m.sym or m.unknown is not None:
                raise Unsupported('look-up in a symbolic map')
            for e in m.d.values():
                if self.eq(e[0], k) is True:
                    return e[1], True
            return None, False
        h = hkey(k)
        symk = issym(k) or isinstance(k, SStr)
        if not symk and h in m.d:
            return m.d[h][1], True
        if symk:
            for e in m.d.values():
                if self.ctx.decide(self.eq(e[0], k)):
                    return e[1], True
        for e in m.sym:
            c = self.eq(e[0], k)
            if c is True or (c is not False and self.ctx.decide(c)):
                return e[1], True
        if m.unknown is not None:
            v, ok = m.unknown(k)
            return v, ok
        return None, False

    def mapset(self, m, k, v):
        if m is None:
            raise GoPanic('assignment to entry in nil map')
        symk = issym(k) or isinstance(k, SStr)
        if not symk:
            h = hkey(k)
            if h in m.d:
                m.d[h][1] = v
                return
            for e in m.sym:
                c = self.eq(e[0], k)
                if c is True or (c is not False and self.ctx.decide(c)):
                    e[1] = v
                    return
            m.d[h] = [k, v]
            return
        for e in list(m.d.values()) + m.sym:
            c = self.eq(e[0], k)
            if c is True or (c is not False and self.ctx.decide(c)):
                e[1] = v
                return
        m.sym.append([k, v])


def andl(xs):
    ys = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x)
    if not ys:
        return True
    return z3.And(*ys) if len(ys) > 1 else ys[0]


def orl(xs):
    ys = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    return z3.Or(*ys) if len(ys) > 1 else ys[0]


def notl(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


# ------------------------------------------------------------------ compilation of SSA to closures
class Blk:
    __slots__ = ('phis', 'instrs', 'term', 'preds', 'comment', 'raw')


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


class Compiled:
    def __init__(self, p, f):
        self.p, self.f, self.name = p, f, f['name']
        self.blocks = []
        for b in f['blocks']:
            self.blocks.append(self.block(b))
        # loop headers: targets of back edges (DFS)
        self.headers = {}
        state = {}
        order = []
        st = [(0, iter(f['blocks'][0]['s']))]
        state[0] = 1
        heads = set()
        while st:
            n, it = st[-1]
            for s in it:
                if state.get(s, 0) == 0:
                    state[s] = 1
                    st.append((s, iter(f['blocks'][s]['s'])))
                    break
                elif state[s] == 1:
                    heads.add(s)
            else:
                state[n] = 2
                st.pop()
        for i, h in enumerate(sorted(heads)):
            self.headers[h] = i
        self.loopblocks = {}
        for h in heads:
            # natural loop: blocks that reach h's back edges
            body = {h}
            work = [q for q in f['blocks'][h]['p'] if self.reaches(h, q)]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(f['blocks'][x]['p'])
            self.loopblocks[h] = body

    def reaches(self, a, b):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            work.extend(self.f['blocks'][x]['s'])
        return False

    def v(self, x):
        """compile operand -> function of register dict"""
        if x is None:
            return lambda r: None
        if isinstance(x, str):
            return lambda r, x=x: r[x]
        k = x['k']
        if k == 'const':
            if x.get('nil'):
                z = self.p.zero(x['t'])
                if isinstance(z, (StructV, ArrayV)):
                    return lambda r, z=z: copyv(z)
                return lambda r, z=z: z
            if 'b' in x:
                c = x['b']
            elif 's' in x:
                c = base64.b64decode(x['s']).decode('latin-1') if x['s'] else ''
            elif 'i' in x:
                c = int(x['i'])
            else:
                c = Opaque(x.get('f'))
            return lambda r, c=c: c
        if k == 'func':
            fv = FuncV(x['n'])
            return lambda r, fv=fv: fv
        if k == 'global':
            n = x['n']
            return ('global', n)
        if k == 'builtin':
            n = x['n']
            return ('builtin', n)
        raise Unsupported(str(x))

    def val(self, x):
        """operand as function (interp, frame) -> value"""
        v = self.v(x)
        if isinstance(v, tuple):
            if v[0] == 'global':
                n = v[1]

                def gl(I, fr):
                    c = I.g.get(n)
                    if c is None:
                        raise Unsupported('external global ' + n)
                    return Ptr(c, 0)
                return gl
            raise Unsupported('builtin as value')
        return lambda I, fr, v=v: v(fr.r)

    def block(self, b):
        B = Blk()
        B.preds = b['p']
        B.comment = b['c']
        B.phis = []
        B.instrs = []
        B.raw = b
        for ins in b['i']:
            op = ins['op']
            if op == 'phi':
                es = []
                for e in ins['e']:
                    v = self.v(e)
                    if isinstance(v, tuple):
                        raise Unsupported('phi of global')
                    es.append(v)
                B.phis.append((ins['r'], es, ins.get('c')))
            elif op == 'jump':
                B.term = ('jump', b['s'][0])
            elif op == 'if':
                B.term = ('if', self.v(ins['x']), b['s'][0], b['s'][1])
            elif op == 'return':
                vs = []
                for x in ins['x']:
                    v = self.v(x)
                    if isinstance(v, tuple):
                        name = v[1]
                        # global address returned: materialise through interpreter
                        vs.append(None)
                        raise Unsupported('return of global address')
                    vs.append(v)
                B.term = ('return', vs)
            elif op == 'panic':
                B.term = ('panic', self.v(ins['x']), ins.get('pos'))
            else:
                B.instrs.append(self.instr(ins))
        return B

    def instr(self, i):
        op = i['op']
        m = getattr(self, 'i_' + op.replace('?', 'q'), None)
        if m is None:
            def uns(I, fr, op=op):
                raise Unsupported('instruction ' + op)
            return uns
        return m(i)

    def i_alloc(self, i):
        r, e, p = i['r'], i['elem'], self.p
        zk = p.under(e)['k']

        def f(I, fr):
            fr.r[r] = Ptr([p.zero(e)], 0)
        return f

    def i_store(self, i):
        a, v = self.val(i['x']), self.val(i['y'])

        def f(I, fr):
            ptr = a(I, fr)
            x = v(I, fr)
            store(ptr, x)
        return f

    def i_un(self, i):
        r, o = i['r'], i['o']
        x = self.val(i['x'])
        if o == '*':
            def f(I, fr):
                ptr = x(I, fr)
                fr.r[r] = load(ptr)
            return f
        if o == '!':
            def f(I, fr):
                v = x(I, fr)
                fr.r[r] = (not v) if isinstance(v, bool) else z3.Not(v)
            return f
        if o == '-':
            bs = self.p.bits(i['t'])

            def f(I, fr):
                v = x(I, fr)
                fr.r[r] = wrap(-v, *bs) if isinstance(v, int) else -v
            return f
        if o == '^':
            bs = self.p.bits(i['t'])

            def f(I, fr):
                v = x(I, fr)
                if not isinstance(v, int):
                    raise Unsupported('symbolic ^')
                fr.r[r] = wrap(~v, *bs)
            return f
        if o == '<-':
            def f(I, fr):
                ch = x(I, fr)
                h = getattr(I, 'recv', None)
                if not h:
                    raise Unsupported('channel receive')
                fr.r[r] = h(ch, i.get('ok'))
            return f
        raise Unsupported('unop ' + o)

    def i_bin(self, i):
        r, o = i['r'], i['o']
        x, y = self.val(i['x']), self.val(i['y'])
        p = self.p
        xt = p.under(i['xt'])
        isstr = xt['k'] == 'basic' and xt['name'] in ('string', 'untyped string')
        bs = p.bits(i['t'])

        if o == '==':
            def f(I, fr):
                fr.r[r] = I.eq(x(I, fr), y(I, fr))
            return f
        if o == '!=':
            def f(I, fr):
                fr.r[r] = notl(I.eq(x(I, fr), y(I, fr)))
            return f
        if isstr:
            def f(I, fr):
                a, b = x(I, fr), y(I, fr)
                if o == '+':
                    if isinstance(a, str) and isinstance(b, str):
                        fr.r[r] = a + b
                    elif a == '':
                        fr.r[r] = b
                    elif b == '':
                        fr.r[r] = a
                    else:
                        h = getattr(I, 'strcat', None)
                        v = h(a, b) if h else None
                        fr.r[r] = SStr(_concat(sterm(a), sterm(b))) if v is None else v
                elif isinstance(a, str) and isinstance(b, str):
                    fr.r[r] = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
                else:
                    raise Unsupported('symbolic string order')
            return f

        def f(I, fr):
            a, b = x(I, fr), y(I, fr)
            fr.r[r] = arith(I, o, a, b, bs)
        return f

    def i_fieldaddr(self, i):
        r, k = i['r'], i['i']
        x = self.val(i['x'])

        def f(I, fr):
            ptr = x(I, fr)
            if ptr is None:
                raise GoPanic('runtime error: invalid memory address or nil pointer dereference', i.get('pos'))
            if not isinstance(ptr, Ptr):
                raise Unsupported('field of %r' % (ptr,))
            s = force(ptr.c, ptr.k)
            fr.r[r] = Ptr(s, k)
        return f

    def i_field(self, i):
        r, k = i['r'], i['i']
        x = self.val(i['x'])

        def f(I, fr):
            s = x(I, fr)
            fr.r[r] = copyv(force(s, k))
        return f

    def i_indexaddr(self, i):
        r = i['r']
        x, ix = self.val(i['x']), self.val(i['i'])

        def f(I, fr):
            s = x(I, fr)
            k = ix(I, fr)
            if isinstance(s, Ptr):  # pointer to array
                a = force(s.c, s.k)
                k = I.index(k, len(a))
                fr.r[r] = Ptr(a, k)
                return
            if s is None:
                raise GoPanic('runtime error: index out of range (nil slice)')
            if isinstance(s, SliceV):
                k = I.index(k, s.n)
                fr.r[r] = Ptr(s.a, s.off + k)
                return
            if hasattr(s, 'gv_indexaddr'):
                fr.r[r] = s.gv_indexaddr(I, k)
                return
            raise Unsupported('indexaddr of %r' % (s,))
        return f

    def i_index(self, i):
        r = i['r']
        x, ix = self.val(i['x']), self.val(i['i'])

        def f(I, fr):
            a = x(I, fr)
            k = ix(I, fr)
            if isinstance(a, str):
                k = I.index(k, len(a))
                fr.r[r] = ord(a[k])
                return
            if hasattr(a, 'gv_index'):
                fr.r[r] = a.gv_index(I, k)
                return
            if isinstance(a, ArrayV):
                k = I.index(k, len(a))
                fr.r[r] = copyv(force(a, k))
                return
            raise Unsupported('index')
        return f

    def i_slice(self, i):
        r = i['r']
        x = self.val(i['x'])
        lo = self.val(i['lo']) if i['lo'] is not None else None
        hi = self.val(i['hi']) if i['hi'] is not None else None
        mx = self.val(i['max']) if i['max'] is not None else None

        def f(I, fr):
            s = x(I, fr)
            l = lo(I, fr) if lo else 0
            h = hi(I, fr) if hi else None
            m = mx(I, fr) if mx else None
            if hasattr(s, 'gv_slice'):
                fr.r[r] = s.gv_slice(I, l, h, m)
                return
            if isinstance(s, SStr):
                raise Unsupported('slice of symbolic string')
            if isinstance(s, str):
                if h is None:
                    h = len(s)
                if issym(l) or issym(h):
                    raise Unsupported('symbolic string bounds')
                if not (0 <= l <= h <= len(s)):
                    raise GoPanic('runtime error: slice bounds out of range')
                fr.r[r] = s[l:h]
                return
            if isinstance(s, Ptr):
                a = force(s.c, s.k)
                s = SliceV(a, 0, len(a), len(a))
            if s is None:
                if l == 0 and (h is None or h == 0):
                    fr.r[r] = None
                    return
                raise GoPanic('runtime error: slice bounds out of range')
            if not isinstance(s, SliceV):
                raise Unsupported('slice of %r' % (s,))
            if h is None:
                h = s.n
            c = m if m is not None else s.cap
            if issym(l):
                l = I.concretize(l, 0, s.cap + 1)
            if issym(h):
                h = I.concretize(h, 0, s.cap + 1)
            if not (0 <= l <= h <= c <= s.cap):
                raise GoPanic('runtime error: slice bounds out of range [%s:%s] cap %s' % (l, h, s.cap))
            fr.r[r] = SliceV(s.a, s.off + l, h - l, c - l)
        return f

    def i_makeslice(self, i):
        r = i['r']
        x, y = self.val(i['x']), self.val(i['y'])
        et = self.p.under(i['t'])['elem']
        p = self.p

        def f(I, fr):
            n, c = x(I, fr), y(I, fr)
            if issym(n) or issym(c):
                raise Unsupported('makeslice of symbolic length')
            fr.r[r] = SliceV(ArrayV([p.zero(et) for _ in range(c)]), 0, n, c)
        return f

    def i_makemap(self, i):
        r, t = i['r'], i['t']

        def f(I, fr):
            fr.r[r] = MapV(t)
        return f

    def i_makechan(self, i):
        r = i['r']

        def f(I, fr):
            fr.r[r] = ChanV()
        return f

    def i_send(self, i):
        x, y = self.val(i['x']), self.val(i['y'])

        def f(I, fr):
            ch = x(I, fr)
            h = getattr(I, 'send', None)
            v = copyv(y(I, fr))
            if h:
                h(ch, v)
            else:
                ch.sent.append(v)
        return f

    def i_go(self, i):
        def f(I, fr):
            h = getattr(I, 'gohook', None)
            if h:
                h(i)
        return f

    def i_mapupdate(self, i):
        x, k, y = self.val(i['x']), self.val(i['i']), self.val(i['y'])

        def f(I, fr):
            I.mapset(x(I, fr), k(I, fr), copyv(y(I, fr)))
        return f

    def i_lookup(self, i):
        r = i['r']
        x, k = self.val(i['x']), self.val(i['i'])
        p = self.p
        xt = p.under(i['xt'])
        ok = i['ok']
        if xt['k'] == 'basic':
            def f(I, fr):
                s, ix = x(I, fr), k(I, fr)
                if hasattr(s, 'gv_index'):
                    fr.r[r] = s.gv_index(I, ix)
                    return
                if isinstance(s, SStr):
                    raise Unsupported('index of symbolic string')
                ix = I.index(ix, len(s))
                fr.r[r] = ord(s[ix])
            return f
        et = xt['elem']

        def f(I, fr):
            m, key = x(I, fr), k(I, fr)
            if hasattr(m, 'gv_lookup'):
                v, present = m.gv_lookup(I, key)
            else:
                v, present = I.maplookup(m, key)
            if present is False:
                v = p.zero(et)
            v = copyv(v)
            fr.r[r] = (v, present) if ok else v
        return f

    def i_range(self, i):
        r = i['r']
        x = self.val(i['x'])

        def f(I, fr):
            m = x(I, fr)
            if m is None:
                fr.r[r] = IterV([])
            elif isinstance(m, MapV):
                es = m.entries()
                perm = getattr(I, 'mapperm', None)
                if perm:
                    es = perm(es)
                fr.r[r] = IterV([(copyv(e[0]), e) for e in es])
            elif isinstance(m, str):
                items = []
                b = m.encode('latin-1')
                j = 0
                while j < len(b):
                    ru, n = decode_rune(b[j:])
                    items.append((j, ru))
                    j += n
                fr.r[r] = IterV(items)
            else:
                raise Unsupported('range over %r' % (m,))
        return f

    def i_next(self, i):
        r = i['r']
        x = self.val(i['x'])
        isstr = i['str']

        def f(I, fr):
            it = x(I, fr)
            if it.i >= len(it.items):
                fr.r[r] = (False, None, None)
                return
            k, v = it.items[it.i]
            it.i += 1
            if not isstr:
                v = copyv(v[1])
            fr.r[r] = (True, k, v)
        return f

    def i_extract(self, i):
        r, k = i['r'], i['i']
        x = self.val(i['x'])

        def f(I, fr):
            fr.r[r] = x(I, fr)[k]
        return f

    def i_chgtype(self, i):
        r = i['r']
        x = self.val(i['x'])

        def f(I, fr):
            fr.r[r] = x(I, fr)
        return f
    i_chgiface = i_chgtype

    def i_makeiface(self, i):
        r, xt = i['r'], i['xt']
        x = self.val(i['x'])
        # normalise alias
        t = self.p.types[xt]
        while t['k'] == 'alias':
            xt = t['under']
            t = self.p.types[xt]

        def f(I, fr):
            fr.r[r] = IfaceV(xt, copyv(x(I, fr)))
        return f

    def i_assert(self, i):
        r, at, ok = i['r'], i['at'], i['ok']
        x = self.val(i['x'])
        p = self.p
        isiface = p.under(at)['k'] == 'iface'

        def f(I, fr):
            v = x(I, fr)
            if v is None:
                res = False
            elif not isinstance(v, IfaceV):
                if hasattr(v, 'gv_assert'):
                    v2, res = v.gv_assert(I, at)
                    fr.r[r] = (v2, res) if ok else v2
                    if not ok and not res:
                        raise GoPanic('interface conversion')
                    return
                raise Unsupported('type assert on %r' % (v,))
            elif isiface:
                ms = p.under(at)['methods']
                res = all(p.method(v.tid, m) for m in ms)
            else:
                res = v.tid == at
            if res:
                out = v if isiface else copyv(v.v)
            else:
                if not ok:
                    raise GoPanic('interface conversion: wrong dynamic type', i.get('pos'))
                out = p.zero(at)
            fr.r[r] = (out, res) if ok else out
        return f

    def i_convert(self, i):
        r = i['r']
        x = self.val(i['x'])
        p = self.p
        ft, tt = p.under(i['xt']), p.under(i['t'])
        bs = p.bits(i['t'])
        runes = lambda t: p.under(t['elem']).get('name') in ('int32', 'rune')

        def f(I, fr):
            v = x(I, fr)
            if hasattr(v, 'gv_convert'):
                fr.r[r] = v.gv_convert(I, tt)
                return
            if tt['k'] == 'basic' and tt['name'] == 'string':
                if ft['k'] == 'slice':
                    fr.r[r] = ''.join(chr(c).encode('utf-8').decode('latin-1') if runes(ft) else chr(c) for c in I.items(v))
                    return
                if isinstance(v, int):
                    fr.r[r] = chr(v).encode('utf-8').decode('latin-1')
                    return
                if isinstance(v, (str, SStr)):
                    fr.r[r] = v
                    return
                raise Unsupported('convert to string')
            if tt['k'] == 'slice':
                if isinstance(v, str):
                    fr.r[r] = I.slice([ord(c) for c in (v.encode('latin-1').decode('utf-8', 'replace') if runes(tt) else v)])
                    return
                raise Unsupported('convert to slice')
            if isinstance(v, int) and not isinstance(v, bool):
                fr.r[r] = wrap(v, *bs)
                return
            fr.r[r] = v   # symbolic: mathematical integers
        return f

    def i_closure(self, i):
        r = i['r']
        n = i['x']['n']
        bs = [self.val(b) for b in i['b']]

        def f(I, fr):
            fr.r[r] = FuncV(n, [b(I, fr) for b in bs])
        return f

    def callee(self, c):
        args = [self.val(a) for a in c['args']]
        if 'invoke' in c:
            x, m = self.val(c['x']), c['invoke']
            return lambda I, fr: (lambda iv, av: (lambda: I.invoke(iv, m, av)))(x(I, fr), [copyv(a(I, fr)) for a in args])
        x = c['x']
        if isinstance(x, dict) and x['k'] == 'builtin':
            b = x['n']
            rts = c['rts']
            return lambda I, fr: (lambda av: (lambda: builtin(I, fr, b, av, c)))([a(I, fr) for a in args])
        if isinstance(x, dict) and x['k'] == 'func':
            n = x['n']
            return lambda I, fr: (lambda av: (lambda: I.call(n, av)))([copyv(a(I, fr)) for a in args])
        xv = self.val(x)
        return lambda I, fr: (lambda fv, av: (lambda: I.callv(fv, av)))(xv(I, fr), [copyv(a(I, fr)) for a in args])

    def i_call(self, i):
        r = i['r']
        c = i['call']
        args = [self.val(a) for a in c['args']]
        x = c['x']
        if 'invoke' in c:
            xv, m = self.val(x), c['invoke']

            def f(I, fr):
                fr.r[r] = I.invoke(xv(I, fr), m, [copyv(a(I, fr)) for a in args])
            return f
        if isinstance(x, dict) and x['k'] == 'builtin':
            b = x['n']

            def f(I, fr):
                fr.r[r] = builtin(I, fr, b, [a(I, fr) for a in args], i)
            return f
        if isinstance(x, dict) and x['k'] == 'func':
            n = x['n']

            def f(I, fr):
                I.callpos = i.get('pos')
                fr.r[r] = I.call(n, [copyv(a(I, fr)) for a in args])
            return f
        xv = self.val(x)

        def f(I, fr):
            fr.r[r] = I.callv(xv(I, fr), [copyv(a(I, fr)) for a in args])
        return f

    def i_defer(self, i):
        mk = self.callee(i['call'])

        def f(I, fr):
            fr.defers.append(mk(I, fr))
        return f

    def i_rundefers(self, i):
        def f(I, fr):
            I.rundefers(fr)
        return f


def load(ptr):
    if ptr is None:
        raise GoPanic('runtime error: invalid memory address or nil pointer dereference')
    if not isinstance(ptr, Ptr):
        if hasattr(ptr, 'gv_load'):
            return ptr.gv_load()
        raise Unsupported('load of %r' % (ptr,))
    v = ptr.c[ptr.k]
    if type(v) is Lazy:
        v = v.f()
        ptr.c[ptr.k] = v
    if isinstance(v, (StructV, ArrayV)):
        return copyv(v)
    return v


def store(ptr, x):
    if ptr is None:
        raise GoPanic('runtime error: invalid memory address or nil pointer dereference')
    if not isinstance(ptr, Ptr):
        if hasattr(ptr, 'gv_store'):
            return ptr.gv_store(x)
        raise Unsupported('store to %r' % (ptr,))
    old = ptr.c[ptr.k]
    if isinstance(x, (StructV, ArrayV)) and isinstance(old, (StructV, ArrayV)):
        c = copyv(x)
        old[:] = c
    else:
        ptr.c[ptr.k] = copyv(x)


def z3pow2(I, b):
    return None


def arith(I, o, a, b, bs):
    sa, sb = issym(a), issym(b)
    if not sa and not sb:
        if isinstance(a, bool) or isinstance(b, bool):
            if o == '&':
                return a and b
            if o == '|':
                return a or b
        if not isinstance(a, int) or not isinstance(b, int):
            h = getattr(a, 'gv_arith', None) or getattr(b, 'gv_arith', None)
            if h:
                return h(I, o, a, b)
            raise Unsupported('arith on %r %r' % (a, b))
        if o == '<':
            return a < b
        if o == '<=':
            return a <= b
        if o == '>':
            return a > b
        if o == '>=':
            return a >= b
        if o == '+':
            v = a + b
        elif o == '-':
            v = a - b
        elif o == '*':
            v = a * b
        elif o == '/':
            if b == 0:
                raise GoPanic('runtime error: integer divide by zero')
            v = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif o == '%':
            if b == 0:
                raise GoPanic('runtime error: integer divide by zero')
            v = abs(a) % abs(b)
            if a < 0:
                v = -v
        elif o == '&':
            v = a & b
        elif o == '|':
            v = a | b
        elif o == '^':
            v = a ^ b
        elif o == '&^':
            v = a & ~b
        elif o == '<<':
            v = a << b if b < 200 else 0
        elif o == '>>':
            v = a >> b
        else:
            raise Unsupported('binop ' + o)
        return wrap(v, *bs)
    if o == '+':
        return a + b
    if o == '-':
        return a - b
    if o == '*':
        return a * b
    if o == '<':
        return a < b
    if o == '<=':
        return a <= b
    if o == '>':
        return a > b
    if o == '>=':
        return a >= b
    if o == '<<' and not sb:
        return a * (1 << b)
    if o == '/' and not sb and b > 0:
        # truncating division
        t = z3.If(a >= 0, a / b, -((-a) / b))
        return z3.simplify(t)
    if o == '%' and not sb and b > 0:
        return z3.simplify(z3.If(a >= 0, a % b, -((-a) % b)))
    if o == '>>' and not sb:
        return z3.simplify(a / (1 << b))   # floor
    raise Unsupported('symbolic binop %s' % o)


def builtin(I, fr, b, av, i):
    if b == 'len':
        s = av[0]
        if s is None:
            return 0
        if hasattr(s, 'gv_len'):
            return s.gv_len(I)
        if isinstance(s, (str, ArrayV)):
            return len(s)
        if isinstance(s, SliceV):
            return s.n
        if isinstance(s, MapV):
            if s.unknown or s.sym:
                raise Unsupported('len of symbolic map')
            return len(s.d)
        if isinstance(s, SStr):
            t = _strlen(s.t)
            I.ctx.assume(t >= 0)
            return t
        if hasattr(s, 'gv_len'):
            return s.gv_len(I)
        raise Unsupported('len of %r' % (s,))
    if b == 'cap':
        s = av[0]
        return 0 if s is None else s.cap
    if b == 'append':
        s = av[0]
        xs = av[1] if len(av) > 1 else None
        if hasattr(s, 'gv_append'):
            return s.gv_append(I, xs)
        if hasattr(xs, 'gv_appendto'):
            return xs.gv_appendto(I, s)
        if isinstance(xs, str):
            xs = I.slice([ord(c) for c in xs])
        new = [copyv(x) for x in I.items(xs)]
        if s is None:
            if not new:
                return None
            if getattr(I, 'newacc', None):
                a = I.newacc(new)
                if a is not None:
                    return a
            s = SliceV(ArrayV([]), 0, 0, 0)
        if s.n + len(new) <= s.cap:
            for j, x in enumerate(new):
                k = s.off + s.n + j
                old = s.a[k]
                s.a[k] = x
            return SliceV(s.a, s.off, s.n + len(new), s.cap)
        # reallocation; Go's growth: double small capacities
        n = s.n + len(new)
        cap = max(n, 2 * s.cap) if s.cap < 256 else max(n, s.cap + s.cap // 4 + 192)
        et = None
        rt = i.get('t') if isinstance(i, dict) else None
        a = ArrayV([copyv(x) for x in s.items()] + new)
        if rt is not None:
            z = I.p.under(rt)['elem']
            a.extend(I.p.zero(z) for _ in range(cap - n))
        else:
            cap = n
        return SliceV(a, 0, n, cap)
    if b == 'copy':
        d, s = av
        if isinstance(s, str):
            s = I.slice([ord(c) for c in s])
        n = min(0 if d is None else d.n, 0 if s is None else s.n)
        xs = [copyv(x) for x in I.items(s)[:n]]
        for j, x in enumerate(xs):
            d.a[d.off + j] = x
        return n
    if b == 'delete':
        m, k = av
        if m is None:
            return None
        h = hkey(k)
        if h is not None and h in m.d:
            del m.d[h]
            return None
        if m.sym or m.unknown or issym(k) or isinstance(k, SStr):
            raise Unsupported('delete from symbolic map')
        return None
    if b == 'recover':
        # the panicking frame is the one running its defers
        f = getattr(I, 'defer_frame', None)
        if f is not None and f.panic is not None:
            v = f.panic.val
            f.panic = None
            if isinstance(v, str):
                v = IfaceV(None, v)
            return v
        return None
    if b == 'close':
        return None
    if b in ('min', 'max'):
        r = av[0]
        for x in av[1:]:
            c = arith(I, '<' if b == 'min' else '>', x, r, (64, True))
            if c is True or (c is not False and I.ctx.decide(c)):
                r = x
        return r
    if b == 'ssa:wrapnilchk':
        if av[0] is None:
            raise GoPanic('nil receiver')
        return av[0]
    if b in ('print', 'println'):
        return None
    raise Unsupported('builtin ' + b)


def decode_rune(b):
    """utf8.DecodeRune -> (rune, width); Go semantics"""
    if not b:
        return 0xFFFD, 0
    c = b[0]
    if c < 0x80:
        return c, 1
    for n in (2, 3, 4):
        try:
            s = bytes(b[:n]).decode('utf-8')
            if len(s) == 1 and len(s.encode('utf-8')) == n:
                return ord(s), n
        except UnicodeDecodeError:
            pass
    return 0xFFFD, 1


# ------------------------------------------------------------------ standard library contracts
EXT = {}


def ext(name):
    def d(f):
        EXT[name] = f
        return f
    return d


def gofmt(I, f, args):
    """fmt.Sprintf for the verbs used; symbolic parts give a symbolic string"""
    out = []   # list of str / SStr
    k = 0
    i = 0
    while i < len(f):
        c = f[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        i += 1
        flags = ''
        while i < len(f) and f[i] in '-+# 0':
            flags += f[i]
            i += 1
        width = ''
        while i < len(f) and f[i].isdigit():
            width += f[i]
            i += 1
        prec = ''
        if i < len(f) and f[i] == '.':
            i += 1
            while i < len(f) and f[i].isdigit():
                prec += f[i]
                i += 1
        v = f[i]
        i += 1
        if v == '%':
            out.append('%')
            continue
        if k >= len(args):
            out.append('%!' + v + '(MISSING)')
            continue
        a = args[k]
        k += 1
        s = fmtval(I, a, v)
        if isinstance(s, str) and width:
            w = int(width)
            if '-' in flags:
                s = s.ljust(w)
            elif '0' in flags and v in 'dxXob':
                s = s.rjust(w, '0')
            else:
                s = s.rjust(w)
        out.append(s)
    if k < len(args):
        out.append('%!(EXTRA)')
    return joins(out)


def joins(out):
    acc = []
    for s in out:
        if isinstance(s, str) and acc and isinstance(acc[-1], str):
            acc[-1] += s
        elif s != '':
            acc.append(s)
    if not acc:
        return ''
    r = acc[0]
    for s in acc[1:]:
        r = SStr(_concat(sterm(r), sterm(s)))
    return r


_itoa = z3.Function('itoa', z3.IntSort(), z3.IntSort())


def fmtval(I, a, v):
    if a is None:
        return '<nil>'
    tid, x = None, a
    if isinstance(a, IfaceV):
        tid, x = a.tid, a.v
    if tid is not None and v in 'vs':
        for m in ('Error', 'String'):
            fn = I.p.method(tid, m) if tid is not None else None
            if fn:
                return I.call(fn, [x])
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, int):
        if v in 'dv':
            return str(x)
        if v == 'c':
            return chr(x).encode('utf-8').decode('latin-1')
        if v == 'x':
            return '%x' % x if x >= 0 else '-%x' % -x
        if v == 'X':
            return '%X' % x
        if v == 'q':
            return repr(chr(x))
        return str(x)
    if isinstance(x, str):
        if v == 'q':
            return json.dumps(x)
        return x
    if isinstance(x, SStr):
        return x
    if issym(x):
        if x.sort() == z3.IntSort():
            return SStr(_itoa(x))
        return SStr(z3.Int(I.ctx.fresh('fmt')))
    return SStr(z3.Int(I.ctx.fresh('fmt')))


@ext('fmt.Sprintf')
def _(I, a):
    if not isinstance(a[0], str):
        # format string symbolic
        return SStr(z3.Int(I.ctx.fresh('fmt')))
    return gofmt(I, a[0], I.items(a[1]))


@ext('fmt.Printf')
def _(I, a):
    return (0, None)


@ext('fmt.Println')
def _(I, a):
    return (0, None)


@ext('fmt.Fprintln')
def _(I, a):
    return (0, None)


@ext('fmt.Fprintf')
def _(I, a):
    return (0, None)


class ErrVal:
    """an error value with a known message"""
    def __init__(self, msg):
        self.msg = msg

    def gv_invoke(self, I, m, args):
        if m == 'Error':
            return self.msg
        raise Unsupported('error method ' + m)

    def __str__(self):
        return 'error(%s)' % (self.msg,)


@ext('errors.New')
def _(I, a):
    return IfaceV(-1, ErrVal(a[0]))


def _conc(*xs):
    for x in xs:
        if not isinstance(x, (str, int)):
            raise Unsupported('symbolic argument of library function')


@ext('strings.Count')
def _(I, a):
    _conc(*a)
    return a[0].count(a[1]) if a[1] else len(a[0]) + 1


@ext('strings.LastIndex')
def _(I, a):
    _conc(*a)
    return a[0].rfind(a[1])


@ext('unicode/utf8.RuneCountInString')
def _(I, a):
    _conc(*a)
    return len(a[0].encode('latin-1').decode('utf-8', 'replace'))


@ext('unicode/utf8.DecodeRuneInString')
def _(I, a):
    s = a[0]
    if hasattr(s, 'gv_decode'):
        return s.gv_decode(I)
    _conc(s)
    return decode_rune(s.encode('latin-1'))


@ext('unicode.IsLetter')
def _(I, a):
    r = a[0]
    if hasattr(r, 'gv_isletter'):
        return r.gv_isletter(I)
    if issym(r):
        return _isletter(r)
    return chr(r).isalpha() if r >= 0 else False


@ext('unicode.IsDigit')
def _(I, a):
    r = a[0]
    if issym(r):
        return _isdigit(r)
    return chr(r).isdecimal() if r >= 0 else False


_isletter = z3.Function('IsLetter', z3.IntSort(), z3.BoolSort())
_isdigit = z3.Function('IsDigit', z3.IntSort(), z3.BoolSort())


@ext('strings.Join')
def _(I, a):
    xs = I.items(a[0])
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(a[1])
        out.append(x)
    return joins(out)


@ext('strings.Repeat')
def _(I, a):
    _conc(*a)
    return a[0] * a[1]


@ext('strings.ToUpper')
def _(I, a):
    _conc(*a)
    return a[0].encode('latin-1').decode('utf-8', 'replace').upper().encode('utf-8').decode('latin-1')


@ext('strings.TrimSpace')
def _(I, a):
    _conc(*a)
    return a[0].strip()


@ext('strings.TrimSuffix')
def _(I, a):
    _conc(*a)
    return a[0][:-len(a[1])] if a[1] and a[0].endswith(a[1]) else a[0]


@ext('strings.Replace')
def _(I, a):
    _conc(*a)
    return a[0].replace(a[1], a[2], a[3])


@ext('strconv.Itoa')
def _(I, a):
    if issym(a[0]):
        return SStr(_itoa(a[0]))
    return str(a[0])


def go_parseint(s, base, bits):
    import re
    t = s
    neg = False
    if t[:1] in '+-' and t:
        neg = t[0] == '-'
        t = t[1:]
    b = base
    us = False
    if base == 0:
        b = 10
        m = t[:2].lower()
        if m in ('0x', '0b', '0o'):
            b = {'0x': 16, '0b': 2, '0o': 8}[m]
            t2 = t[2:]
            us = True
        elif t[:1] == '0' and len(t) > 1:
            b = 8
            t2 = t[1:]
            us = True
        else:
            t2 = t
            us = True
        if '_' in t:
            if t2.startswith('_') and b == 10 or t2.endswith('_') or '__' in t2:
                return None
            t2 = t2.replace('_', '')
        t = t2
    if not t or not all(c.isalnum() and c.isascii() for c in t):
        return None
    try:
        v = int(t, b)
    except ValueError:
        return None
    if neg:
        v = -v
    if not (-(1 << (bits - 1)) <= v < (1 << (bits - 1))):
        return None
    return v


@ext('strconv.ParseInt')
def _(I, a):
    s, base, bits = a
    if isinstance(s, SStr):
        h = getattr(I, 'parseint', None)
        if h:
            return h(s, base, bits)
        raise Unsupported('ParseInt of symbolic string')
    if bits == 0:
        bits = 64
    v = go_parseint(s, base, bits)
    if v is None:
        return (0, IfaceV(-1, ErrVal('strconv.ParseInt: parsing ' + s)))
    return (v, None)


@ext('strconv.Unquote')
def _(I, a):
    s = a[0]
    _conc(s)
    if len(s) < 2 or s[0] != '"' or s[-1] != '"':
        return ('', IfaceV(-1, ErrVal('invalid syntax')))
    body = s[1:-1]
    out = ''
    i = 0
    esc = {'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', '"': '"', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v'}
    while i < len(body):
        c = body[i]
        if c == '\n' or c == '"':
            return ('', IfaceV(-1, ErrVal('invalid syntax')))
        if c == '\\':
            i += 1
            if i >= len(body) or body[i] not in esc:
                return ('', IfaceV(-1, ErrVal('invalid syntax')))
            out += esc[body[i]]
        else:
            out += c
        i += 1
    return (out, None)


@ext('math/rand.Uint32')
def _(I, a):
    return I.ctx.int('rand')


class Buf:
    """contents of a bytes.Buffer, kept beside the zero struct"""


def bufof(I, ptr):
    if not hasattr(I, 'bufs'):
        I.bufs = {}
    key = (id(ptr.c), ptr.k)
    if key not in I.bufs:
        I.bufs[key] = ([], ptr)
    return I.bufs[key][0]


@ext('bytes.NewBufferString')
def _(I, a):
    p = Ptr([StructV([], -1)], 0)
    bufof(I, p).append(a[0])
    return p


@ext('(*bytes.Buffer).WriteString')
def _(I, a):
    bufof(I, a[0]).append(a[1])
    return (0, None)


@ext('(*bytes.Buffer).WriteRune')
def _(I, a):
    _conc(a[1])
    bufof(I, a[0]).append(chr(a[1]).encode('utf-8').decode('latin-1'))
    return (0, None)


@ext('(*bytes.Buffer).String')
def _(I, a):
    return joins(bufof(I, a[0]))


@ext('bufio.NewWriter')
def _(I, a):
    p = Ptr([StructV([], -1)], 0)
    bufof(I, p)
    return p


@ext('(*bufio.Writer).WriteString')
def _(I, a):
    bufof(I, a[0]).append(a[1])
    return (0, None)


@ext('(*bufio.Writer).Flush')
def _(I, a):
    return None


@ext('regexp.MustCompile')
def _(I, a):
    return Opaque('regexp')


@ext('os.Exit')
def _(I, a):
    raise StopPath('os.Exit')


@ext('flag.String')
def _(I, a):
    return Ptr([a[1]], 0)


@ext('flag.Bool')
def _(I, a):
    return Ptr([a[1]], 0)
