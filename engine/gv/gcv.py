"""C20: the collector and the allocator. Blocks are addresses; their next and header words are arrays over addresses, the words of the objects a
third one. Mode 'all' proves, for every heap, the contract of each function from the contracts of those it calls (marking goes by recursion, so by its
own contract); mode 'small' runs the functions on every small heap."""
import itertools
import z3
from .clr import *
from .funv import caught

I, BO = z3.IntSort(), z3.BoolSort()
Kind = z3.Function('kind', I, I)                 # of a type: 0 struct, 1 string, 2 array, 3 function, 4 bytes
NRoots = z3.Function('nroots', I, I)
Root = z3.Function('root', I, I, I)              # the k-th pointer field of a struct type, counted in words
EPtr = z3.Function('elemIsPointer', I, BO)
Reach = z3.Function('reach', I, I, BO)           # from a pointer, a block
KINDS = ['StructType', 'StringType', 'ArrayType', 'FunctionType', 'BytesType']


class TInfo:
    def __init__(self, t):
        self.t = t


def real(w):
    return z3.And(w % 8 == 0, w > 1024, w <= HI)


def marked(h):
    return h % 2 == 1


def ro(h):
    return (h / 2) % 2 == 1


def tid(h):
    return h / 2 ** 47


class G:
    def __init__(self, ctx, obs, lib, sec, direct=False):
        self.ctx, self.obs, self.lib, self.sec = ctx, obs, lib, sec
        self.X = x = X(lib, ctx, obs, sec)
        x.cuts = 0 if direct else 1
        x.stubs = dict(STUBS, getBlocks=lambda y, a, n: SymRef('block', y.g['blocks']), setBlocks=self.setblocks, free=self.free, calloc=self.calloc)
        x.stubs['typeInfoTable'] = lambda y, a, n: self.table
        x.g['blocks'] = self.blocks0 = z3.Int('blocks')
        x.g['freed'] = self.F0 = z3.Array('freed', I, BO)
        x.heap['block.next'] = self.N0 = z3.Array('block.next', I, I)
        x.heap['block.header'] = self.H0 = z3.Array('block.header', I, I)
        self.Wd = z3.Array('words', I, I)
        x.deref = lambda o: self.load(o)
        x.view = self.view
        x.enumhook = self.cases
        x.loadf0, x.storef0 = x.loadf, x.storef
        x.loadf, x.storef = self.loadf, self.storef
        x.fieldview = lambda typ, name, t: SymRef('block', t) if (typ, name) == ('block', 'next') else t
        self.NT = z3.Int('types')
        self.table = Mem(8 + 8 * self.NT, self.NT, word=lambda i: TInfo(i), ro=True, name='type table')
        self.events = []

    def view(self, r, b):
        x = self.X
        if b == 'int':
            return x.divmod(r.w, 2)[0]       # a word read as an int: the int whose word it is, or (lowest bit lost) half of it
        if b in self.lib.structs:
            return SymRef(b, r.w)
        raise Unsupported('view as %s' % b)

    def load(self, o):
        if isinstance(o, Raw):
            w = self.Wd[o.w]
            self.word(w)
            return Raw(w)
        raise Unsupported('deref of %s' % type(o).__name__)

    def word(self, w):
        """a word is a tagged int or a pointer, null or not"""
        self.X.ctx.assume(z3.And(w >= -2 ** 63, w < 2 ** 63, z3.Or(w % 2 == 1, z3.And(w >= 0, w <= HI))))
        return w

    def loadf(self, r, name):
        if r.typ == 'block':
            self.X.ob('no access to a freed block', simp(NOT(self.X.g['freed'][r.a])))
            v = self.X.loadf0(r, name)
            if name == 'header':
                self.X.rng(v)
            return v
        return self.field(r, name)

    def field(self, r, name):
        raise Unsupported('field %s.%s' % (r.typ, name))

    def storef(self, r, name, v):
        if r.typ != 'block':
            raise Unsupported('field %s.%s is written' % (r.typ, name))
        self.X.ob('no access to a freed block', simp(NOT(self.X.g['freed'][r.a])))
        self.X.storef0(r, name, v)

    def setblocks(self, x, a, n):
        x.g['blocks'] = x.unview(a[0])

    def free(self, x, a, n):
        b = x.unview(a[0])
        x.ob('a block is freed once', simp(NOT(x.g['freed'][b])))
        x.g['freed'] = z3.Store(x.g['freed'], b, True)

    def calloc(self, x, a, n):
        raise Unsupported('calloc')

    def cases(self, x, v, n):
        if not isinstance(v, TInfo):
            raise Unsupported('match on %s' % type(v).__name__)
        t = v.t
        cases = {c[0]: c for c in self.lib.enums.get('typeInfo', [])}
        if set(cases) != set(KINDS):
            raise Unsupported('type information')
        k = next((k for k in range(4) if x.ctx.decide(simp(Kind(t) == k))), 4)
        fs = []
        for nm, ty in zip(cases[KINDS[k]][2], cases[KINDS[k]][3]):
            if ty == 'string':
                fs.append(x.lit(b'T'))
            elif ty == '[]int':
                m = Mem(8 + 8 * NRoots(t), NRoots(t), word=lambda j, t=t: Root(t, j), ro=True, name='roots')
                x.ctx.assume(z3.And(NRoots(t) >= 0, NRoots(t) <= 2 ** 20))
                fs.append(m)
            elif ty == 'bool':
                fs.append(EPtr(t))
            else:
                raise Unsupported('type information')
        return KINDS[k], fs

    def run(self, name, args, first=(), n=None):
        x = self.X
        try:
            return x.run(self.lib.fn(name, *first, n=n), args)
        except Panic as e:
            x.ob('does not panic', False, str(e))
            raise StopPath('panic')
        finally:
            self.obs.functions |= x.ran


# -------------------------------------------------------------------- headers
@caught
def bits(ctx, obs, lib, sec, which):
    g = G(ctx, obs, lib, sec, direct=True)
    x = g.X
    b = z3.Int('b')
    ctx.assume(NOT(g.F0[b]))
    h = x.rng(g.H0[b])
    B = SymRef('block', b)
    a = z3.Int('other')
    if which in ('setMark', 'clearMark'):
        bad = marked(h) if which == 'setMark' else z3.Not(marked(h))
        try:
            x.run(lib.fn(which, 'block'), [B])
        except Panic as e:
            x.ob('panics only if the mark is already so', bad, str(e))
            return
        finally:
            obs.functions |= x.ran
        x.ob('a block is not marked or unmarked twice', NOT(bad))
        h2 = x.heap['block.header'][b]
        x.ob('the mark changes', marked(h2) == (which == 'setMark'))
        x.ob('type and read-only bit stay', z3.And(tid(h2) == tid(h), ro(h2) == ro(h), h2 == h + (1 if which == 'setMark' else -1)))
        x.ob('no other header changes', z3.Implies(a != b, x.heap['block.header'][a] == g.H0[a]))
        x.ob('links stay', x.heap['block.next'].eq(g.N0))
    else:
        r = g.run(which, [B], ('block',))
        if which == 'typeId':
            x.ob('the type of the block', z3.Implies(h >= 0, r == tid(h)))      # type ids are below 2^15
            i = z3.Int('id')
            ctx.assume(z3.And(i >= 0, i < 2 ** 15))
            x.ob('the type an allocation wrote', z3.Implies(h == i * 2 ** 47, r == i))
        else:
            x.ob('the bit of the header', r == (marked(h) if which == 'isMarked' else ro(h)))
        x.ob('nothing changes', x.heap['block.header'].eq(g.H0) and x.heap['block.next'].eq(g.N0))


@caught
def alloc(ctx, obs, lib, sec):
    g = G(ctx, obs, lib, sec, direct=True)
    x = g.X
    size, i = x.int('size', 0, 2 ** 44), x.int('id', 0, 2 ** 15 - 1)
    b = z3.Int('newblock')
    b2 = z3.Int('blocksaftergc')
    ev = []

    def c_gc(y, a):
        ev.append('gc')
        y.g['blocks'] = b2
        y.heap['block.next'] = z3.Array(y.ctx.fresh('next'), I, I)
        y.heap['block.header'] = z3.Array(y.ctx.fresh('header'), I, I)
        y.g['freed'] = z3.Array(y.ctx.fresh('freed'), I, BO)
        y.ctx.assume(NOT(y.g['freed'][b]))
        c_gc.after = (y.heap['block.next'], y.heap['block.header'])
    for f in lib.funcs:
        if f['val'] == 'gc' and not f.get('p'):
            x.contracts[f['_key']] = c_gc
            obs.contracts.add('gc')

    def calloc(y, a, n):
        ev.append('calloc')
        y.ob('memory for the block and its two header words', simp(term(y.binop('*', a[0], a[1])) == size + 16))
        ok = y.ctx.choose(2) == 0
        if ok:
            y.ctx.assume(z3.And(b > 1024, b % 16 == 0, b < 2 ** 47))
        else:
            y.ctx.assume(b == 0)
        return SymRef('block', b)
    x.stubs['calloc'] = calloc
    try:
        r = x.run(lib.fn('claralloc', 'int', 'string', 'int'), [size, x.lit(b'd'), i])
    except Panic as e:
        x.ob('panics only if nothing or too much is asked for', z3.Or(size == 0, b == 0), str(e))
        return
    finally:
        obs.functions |= x.ran
    x.ob('a request for no memory panics', size > 0)
    x.ob('a failed allocation panics', b != 0)
    x.ob('one collection, before the block is allocated', ev == ['gc', 'calloc'])
    if ev != ['gc', 'calloc']:
        return
    N, H = c_gc.after
    if not isinstance(r, SymRef):
        raise Unsupported('block')
    x.ob('the object starts behind the header words', simp(term(r.a) == b + 16))
    x.ob('an unmarked, writable block of the type asked for', x.heap['block.header'][b] == i * 2 ** 47)
    x.ob('linked in front of the blocks', z3.And(term(x.g['blocks']) == b, x.heap['block.next'][b] == b2))
    a = z3.Int('other')
    x.ob('no other block changes', z3.Implies(a != b, z3.And(x.heap['block.header'][a] == H[a], x.heap['block.next'][a] == N[a])))


# -------------------------------------------------------------------- sweeping
Bk = z3.Function('block', I, I)      # the i-th block of the list
NM = z3.Function('nextmarked', I, I)  # first marked position from i on
LM = z3.Function('lastmarked', I, I)  # last marked position before i
Mk = z3.Function('ismarked', I, BO)


def sweeplaws(ctx, obs, p, sec, lib):
    i, j, a, N = z3.Ints('i j a N')

    def go(name, hyp, goal):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyp, z3.Not(goal))
        r = s.check()
        obs.rec('law/' + name, 'discharged' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown')
    defn = lambda q: NM(q) == z3.If(Mk(q), q, NM(q + 1))
    p1 = lambda q: z3.And(NM(q) >= q, NM(q) <= N, z3.Implies(NM(q) < N, Mk(NM(q))))
    p2 = lambda q: z3.Implies(z3.And(Mk(i), q <= i, i < N), NM(q) <= i)
    go('next marked (end)', [NM(N) == N], z3.And(p1(N), p2(N)))
    go('next marked (one more)', [a < N, defn(a), p1(a + 1), p2(a + 1)], z3.And(p1(a), p2(a)))
    d2 = lambda q: LM(q + 1) == z3.If(Mk(q), q, LM(q))
    r1 = lambda q: z3.And(LM(q) < q, LM(q) >= -1, z3.Implies(LM(q) >= 0, Mk(LM(q))), z3.Implies(z3.And(Mk(j), j >= 0, j < q), LM(q) >= j))
    go('last marked (start)', [LM(0) == -1], r1(z3.IntVal(0)))
    go('last marked (one more)', [a >= 0, d2(a), r1(a)], r1(a + 1))


@caught
def sweep(ctx, obs, lib, sec):
    g = G(ctx, obs, lib, sec)
    x = g.X
    N = z3.Int('N')
    ctx.assume(z3.And(N >= 0, N < MAXLEN))
    j0, a0 = z3.Int('j0'), z3.Int('a0')        # an arbitrary position, an arbitrary address that is no block of the list
    T = Bk(N)
    ctx.assume(z3.Or(T == 0, T == 1))
    ctx.assume(z3.And(j0 >= 0, j0 < N))
    pos = [j0]

    def at(y, *ps):
        for q in ps:
            inr = z3.And(q >= 0, q < N)
            y.ctx.assume(z3.Implies(inr, z3.And(Bk(q) > 1024, Bk(q) % 8 == 0, Mk(q) == marked(g.H0[Bk(q)]), g.N0[Bk(q)] == Bk(q + 1), NOT(g.F0[Bk(q)]), g.H0[Bk(q)] >= LO, g.H0[Bk(q)] <= HI, Bk(q) != a0)))
            y.ctx.assume(z3.Implies(inr, NM(q) == z3.If(Mk(q), q, NM(q + 1))))
            y.ctx.assume(z3.Implies(inr, LM(q + 1) == z3.If(Mk(q), q, LM(q))))
            y.ctx.assume(z3.And(NM(N) == N, LM(0) == -1))
            for p in (q, q + 1):
                y.ctx.assume(z3.Implies(z3.And(p >= 0, p <= N), z3.And(NM(p) >= p, NM(p) <= N, z3.Implies(NM(p) < N, Mk(NM(p))))))
                y.ctx.assume(z3.Implies(z3.And(p >= 0, p <= N), z3.And(LM(p) < p, LM(p) >= -1, z3.Implies(LM(p) >= 0, Mk(LM(p))))))
        for a in ps:
            for b in ps:
                for p in (a, a + 1):
                    y.ctx.assume(z3.Implies(z3.And(Mk(b), p >= 0, p <= b, b < N), NM(p) <= b))
                    y.ctx.assume(z3.Implies(z3.And(Mk(b), b >= 0, b < p, p <= N), LM(p) >= b))
                y.ctx.assume(z3.Implies(z3.And(a >= 0, a < N, b >= 0, b < N, Bk(a) == Bk(b)), a == b))

    def inv(y, i, b, prev):
        hd, nx, fr, bl = y.heap['block.header'], y.heap['block.next'], y.g['freed'], term(y.g['blocks'])
        j, B = j0, Bk(j0)
        done = z3.And(fr[B] == z3.Not(Mk(j)), z3.Implies(Mk(j), hd[B] == g.H0[B] - 1), z3.Implies(Mk(j), nx[B] == z3.If(NM(j + 1) < i, Bk(NM(j + 1)), Bk(i))))
        todo = z3.And(z3.Not(fr[B]), hd[B] == g.H0[B], nx[B] == g.N0[B])
        none = z3.And(z3.Or(prev == 0, prev == 1), bl == Bk(i))
        some = z3.And(prev == Bk(LM(i)), bl == Bk(NM(0)))
        return z3.And(i >= 0, i <= N, b == Bk(i), z3.If(j < i, done, todo), z3.If(LM(i) < 0, none, some), hd[a0] == g.H0[a0], nx[a0] == g.N0[a0], fr[a0] == g.F0[a0])

    def hook(y, node, cond, body, extra):
        refs = [k for k, v in y.env.items() if isinstance(v, SymRef) and v.typ == 'block']
        at(y, z3.IntVal(0), j0)
        for kb, kp in itertools.permutations(refs, 2):
            if y.ctx.valid(inv(y, z3.IntVal(0), term(y.env[kb].a), term(y.env[kp].a)))[0] is not True:
                continue
            i, vb, vp = y.ctx.int('i'), y.ctx.int('vb'), y.ctx.int('vp')
            arr = [z3.Array(y.ctx.fresh('next'), I, I), z3.Array(y.ctx.fresh('header'), I, I), z3.Array(y.ctx.fresh('freed'), I, BO), y.ctx.int('blocks')]
            sn, env = y.snapshot(), y.env.copy()

            def state():
                y.heap['block.next'], y.heap['block.header'], y.g['freed'], y.g['blocks'] = arr
                y.env.set(kb, SymRef('block', vb))
                y.env.set(kp, SymRef('block', vp))
                at(y, i, j0, LM(i), i + 1, NM(j0 + 1), z3.IntVal(0), NM(0))
                y.ctx.assume(inv(y, i, vb, vp))
                # the invariant holds for every position, so for these as well
                for q in (i, LM(i)):
                    y.ctx.assume(z3.Implies(z3.And(q >= 0, q < N), z3.substitute(inv(y, i, vb, vp), (j0, q))))
            def rnd():
                state()
                if not y.ctx.decide(cond()):
                    raise Infeasible()
                body()
                ch = {q for q in y.changes(sn, env) if q[0] not in ('h', 'g') and q not in (('v', kb), ('v', kp))}
                if ch or not isinstance(y.env[kb], SymRef):
                    raise Unsupported('the loop changes %s' % (ch,))
                goal = inv(y, i + 1, term(y.env[kb].a), term(y.env[kp].a))
                if y.ctx.valid(goal)[0] is not True:
                    raise Unsupported('the loop over the blocks')
                return True
            y.quiet -= 1
            try:
                rs = sub_ob(y, rnd)
            finally:
                y.quiet += 1
            state()
            if y.ctx.decide(cond()):
                raise StopPath('round')
            # past the end: b is no block
            return True
        raise Unsupported('no invariant for the loop over the blocks')
    x.loophook = hook
    ctx.assume(g.blocks0 == Bk(0))
    try:
        x.run(lib.fn('gcSweep'), [])
    except Panic as e:
        raise Unsupported('panic: %s' % e)
    finally:
        obs.functions |= x.ran
    at(x, j0, z3.IntVal(0), NM(j0 + 1), NM(0))
    hd, nx, fr = x.heap['block.header'], x.heap['block.next'], x.g['freed']
    B = Bk(j0)
    x.ob('exactly the unmarked blocks are freed', fr[B] == z3.Not(Mk(j0)))
    x.ob('the mark of every survivor is cleared and nothing else of its header', z3.Implies(Mk(j0), hd[B] == g.H0[B] - 1))
    x.ob('the list starts at the first survivor', term(x.g['blocks']) == Bk(NM(0)))
    x.ob('every survivor links to the next one', z3.Implies(Mk(j0), nx[B] == Bk(NM(j0 + 1))))
    x.ob('no other memory changes', z3.And(hd[a0] == g.H0[a0], nx[a0] == g.N0[a0], fr[a0] == g.F0[a0]))


def sub_ob(y, fn):
    """y.sub with its obligations checked; an obligation that is not proved there means the contract does not fit"""
    y.quiet += 1
    q = y.quiet
    y.quiet = 0
    y.cuts = 1
    try:
        orig = y.sub

        def inner():
            y.quiet = 0
            return fn()
        return orig(inner)
    finally:
        y.quiet = q - 1


# -------------------------------------------------------------------- marking
def nchild(g, p, t):
    return z3.If(Kind(t) == 0, NRoots(t), z3.If(z3.And(Kind(t) == 2, EPtr(t)), g.Wd[p] / 2, 0))


def child(g, p, t, k):
    return z3.If(Kind(t) == 0, g.Wd[p + 8 * Root(t, k)], g.Wd[p + 8 + 8 * k])


def T(g, p):
    return tid(g.H0[p - 16])


class Mark(G):
    """marking, seen at an arbitrary object x0, its y0-th pointer and an arbitrary other address"""
    def __init__(self, ctx, obs, lib, sec):
        G.__init__(self, ctx, obs, lib, sec)
        x = self.X
        self.x0, self.y0, self.z0 = z3.Int('x0'), z3.Int('y0'), z3.Int('z0')
        self.addrs = []
        self.obj(self.x0)
        self.c0 = child(self, self.x0, T(self, self.x0), self.y0)
        self.obj(self.c0)
        self.haschild = z3.And(self.y0 >= 0, self.y0 < nchild(self, self.x0, T(self, self.x0)))
        self.freshn = 0

    def obj(self, p, register=True):
        """facts about the object a pointer leads to"""
        y = self.X
        y.ctx.assume(z3.And(p >= -2 ** 63, p < 2 ** 63, z3.Or(p % 2 == 1, z3.And(p >= 0, p <= HI))))
        h = self.H0[p - 16]
        t = tid(h)
        y.ctx.assume(z3.Implies(real(p), z3.And(h >= LO, h <= HI, t >= 0, t < self.NT, self.NT < 2 ** 15, Kind(t) >= 0, Kind(t) <= 4, z3.Not(self.F0[p - 16]),
                                                z3.Implies(Kind(t) == 3, ro(h)), NRoots(t) >= 0, NRoots(t) < 2 ** 20,
                                                z3.Implies(Kind(t) == 2, z3.And(self.Wd[p] % 2 == 1, self.Wd[p] >= 0, self.Wd[p] < 2 ** 41)))))
        if register:
            self.addrs.append(p)

    def root(self, t, k):
        self.X.ctx.assume(z3.And(Root(t, k) >= 0, Root(t, k) < 2 ** 20))

    def markable(self, w):
        return z3.And(real(w), z3.Not(ro(self.H0[w - 16])))

    def mk(self, H, w):
        return marked(H[w - 16])

    def grew(self, H, H2, frm, but=None, more=()):
        """what the contract says about the step from H to H2, at the registered addresses; frm: reachability of the new marks"""
        out = []
        for a in self.addrs + [self.z0, *more]:
            h, h2 = H[a - 16], H2[a - 16]
            new = z3.And(z3.Not(marked(h)), marked(h2))
            out.append(z3.Or(h2 == h, z3.And(h2 == h + 1, z3.Not(marked(h)), self.markable(a))))
            if a is self.x0:
                out.append(z3.Implies(new, frm(a)))
                guard = new if but is None else z3.And(new, a != but)
                out.append(z3.Implies(z3.And(guard, self.haschild, self.markable(self.c0)), self.mk(H2, self.c0)))
        return z3.And(*out)

    def fresh(self):
        return z3.Array(self.X.ctx.fresh('header'), I, I)

    def c_mark(self, y, a):
        """contract of gcMarkPointer"""
        p = a[0]
        if not isinstance(p, Raw):
            raise Unsupported('a pointer')
        self.obj(p.w, register=False)
        H, H2 = y.heap['block.header'], self.fresh()
        y.ctx.assume(self.base(H, [p.w]))       # shown for every address (z0)
        y.ctx.assume(self.grew(H, H2, lambda q: Reach(p.w, q), more=[p.w]))
        y.ctx.assume(z3.Implies(self.markable(p.w), self.mk(H2, p.w)))
        # headers keep everything but the mark
        y.heap['block.header'] = H2
        self.called = p.w

    def base(self, H, at=None):
        """headers differ from those at the start in the mark only, and nothing else was marked"""
        return z3.And(*[z3.Or(H[a - 16] == self.H0[a - 16], z3.And(H[a - 16] == self.H0[a - 16] + 1, z3.Not(marked(self.H0[a - 16])), self.markable(a))) for a in (self.addrs + [self.z0] if at is None else at)])


def rule(g, y, cond, body, inv, roles, allow=()):
    """a loop by invariant: inv(H, k) about the headers and a counter; the counter is found among the variables"""
    for kv in [k for k, v in y.env.items() if isint(v)]:
        if y.ctx.valid(inv(y.heap['block.header'], term(y.env[kv])))[0] is not True:
            continue
        k, H = y.ctx.int('k'), g.fresh()
        sn, env = y.snapshot(), y.env.copy()

        def state():
            y.env.set(kv, k)
            y.rng(k)
            y.heap['block.header'] = H
            roles(k)
            y.ctx.assume(inv(H, k))

        def rnd():
            state()
            if not y.ctx.decide(cond()):
                raise Infeasible()
            body()
            ch = {q for q in y.changes(sn, env) if q not in (('v', kv), ('h', 'block.header')) and q not in allow}
            if ch:
                raise Unsupported('the loop changes %s' % (ch,))
            roles(term(y.env[kv]))
            if y.ctx.valid(inv(y.heap['block.header'], term(y.env[kv])))[0] is not True:
                raise Unsupported('invariant')
            return True
        try:
            sub_ob(y, rnd)
        except Unsupported as e:
            g.last = e
            continue
        state()
        if y.ctx.decide(cond()):
            raise StopPath('round')
        return True
    raise Unsupported('no invariant for the loop: %s' % getattr(g, 'last', ''))


@caught
def mark(ctx, obs, lib, sec):
    g = Mark(ctx, obs, lib, sec)
    x = g.X
    p = z3.Int('p')
    g.obj(p)
    t = T(g, p)
    cp = child(g, p, t, g.y0)
    g.obj(cp)
    level = x.int('level', 0, 2 ** 40)
    # marks made by callers: any set, with the rest of the headers as they are
    H1 = x.heap['block.header'] = z3.Array('headernow', I, I)
    ctx.assume(g.base(H1))
    x.ctx.assume(Reach(p, p))
    d = lib.fn('gcMarkPointer', 'pointer')
    x.contracts[d['_key']] = g.c_mark
    obs.contracts.add('gcMarkPointer')

    def frm(q):
        return Reach(p, q)

    def roles(k):
        g.root(t, k)
        c = child(g, p, t, k)
        g.word(c)
        x.ctx.assume(z3.Implies(z3.And(k >= 0, k < nchild(g, p, t), Reach(c, g.x0)), Reach(p, g.x0)))

    def hook(y, node, cond, body, extra):
        Hs = y.heap['block.header']      # p is marked in it

        def inv(H, k):
            return z3.And(k >= 0, g.grew(H1, H, frm, but=p), g.base(H), g.mk(H, p), z3.Implies(z3.And(g.y0 >= 0, g.y0 < k, g.markable(cp)), g.mk(H, cp)), k <= nchild(g, p, t))
        return rule(g, y, cond, body, inv, roles)
    x.loophook = hook
    try:
        x.run(d, [Raw(p), level])
    except Panic as e:
        x.ob('does not panic', False, str(e))
        return
    finally:
        obs.functions |= x.ran
    H = x.heap['block.header']
    a0, z0 = g.x0, g.z0
    h, h2 = H1[a0 - 16], H[a0 - 16]
    new = z3.And(z3.Not(marked(h)), marked(h2))
    x.ob('a header keeps everything but its mark, and no mark is lost', z3.Or(h2 == h, z3.And(h2 == h + 1, z3.Not(marked(h)))))
    x.ob('only writable blocks are marked', z3.Implies(new, g.markable(a0)))
    x.ob('only blocks that can be reached are marked', z3.Implies(new, Reach(p, a0)))
    x.ob('the block itself is marked', z3.Implies(g.markable(p), g.mk(H, p)))
    x.ob('every pointer field of a newly marked block leads to a marked block', z3.Implies(z3.And(new, g.haschild, g.markable(g.c0)), z3.And(g.mk(H, g.c0))))
    x.ob('links and contents stay', x.heap['block.next'].eq(g.N0))


# the stack: frames F(0), F(1), ...
Fr = z3.Function('frame', I, I)
FNR = z3.Function('frameroots', I, I)
FR = z3.Function('frameroot', I, I, I)


class Stack(Mark):
    def __init__(self, ctx, obs, lib, sec):
        Mark.__init__(self, ctx, obs, lib, sec)
        x = self.X
        self.D = z3.Int('depth')
        ctx.assume(z3.And(self.D >= 0, self.D < 2 ** 40))
        x.stubs['getFramePointer'] = lambda y, a, n: SymRef('frame', Fr(0))
        x.stubs['isStackBase'] = self.isbase
        self.rt = z3.Int('runtime')
        x.stubs['getRuntime'] = lambda y, a, n: SymRef('runtime', self.rt)

    def isbase(self, x, a, n):
        k = self.frameno(a[0])
        return simp(k == self.D)

    def frameno(self, f):
        if isinstance(f, SymRef) and z3.is_app(f.a) and f.a.decl().eq(Fr):
            return f.a.arg(0)
        raise Unsupported('a frame')

    def field(self, r, name):
        if r.typ == 'frame':
            k = self.frameno(r)
            if name == 'next':
                return SymRef('frame', Fr(simp(k + 1)))
            if name == 'map':
                return SymRef('gcMap', k)
        if r.typ == 'gcMap' and name == 'roots':
            k = r.a
            self.X.ctx.assume(z3.And(FNR(k) >= 0, FNR(k) < 2 ** 20))
            m = Mem(8 + 8 * FNR(k), FNR(k), word=lambda j, k=k: self.off(k, j), ro=True, name='roots')
            m.frame = k
            return m
        raise Unsupported('field %s.%s' % (r.typ, name))

    def off(self, k, j):
        v = FR(k, j)
        self.X.ctx.assume(z3.And(v >= -2 ** 16, v < 2 ** 16))
        return v


@caught
def gcmark(ctx, obs, lib, sec):
    g = Stack(ctx, obs, lib, sec)
    x = g.X
    k0, r0 = z3.Int('k0'), z3.Int('r0')

    def slot(k, r):
        return g.Wd[Fr(k + 1) - 8 * FR(k, r)]
    w0 = slot(k0, r0)
    g.obj(w0)
    g.obj(g.rt)
    RootReach = z3.Function('rootreach', I, BO)
    x.contracts[lib.fn('gcMarkPointer', 'pointer')['_key']] = g.c_mark
    obs.contracts.add('gcMarkPointer')
    H1 = g.H0
    inscope = z3.And(k0 >= 0, k0 < g.D, r0 >= 0, r0 < FNR(k0))
    depth = [None]

    def frm(q):
        return RootReach(q)

    def reach(k, r):
        x.ctx.assume(z3.Implies(z3.And(k >= 0, k < g.D, r >= 0, r < FNR(k), Reach(slot(k, r), g.x0)), RootReach(g.x0)))
    x.ctx.assume(z3.Implies(Reach(g.rt, g.x0), RootReach(g.x0)))

    def common(H):
        return z3.And(g.grew(H1, H, frm), g.base(H))

    def outer(y, node, cond, body, extra):
        fks = [k for k, v in y.env.items() if isinstance(v, SymRef) and v.typ == 'frame']
        rks = [k for k, v in y.env.items() if isinstance(v, Mem) and hasattr(v, 'frame')]
        others = [k for k, v in y.env.items() if isint(v)]
        if len(fks) != 1 or len(rks) > 1:
            raise Unsupported('frames')
        fk = fks[0]
        rk = rks[0] if rks else None
        if not (same(y.env[fk].a, simp(Fr(0))) or y.env[fk].a.eq(Fr(0))) or rk is not None and not (y.env[rk].frame.eq(z3.IntVal(0)) if isinstance(y.env[rk].frame, z3.ExprRef) else y.env[rk].frame == 0):
            raise Unsupported('frames')

        def inv(H, k):
            return z3.And(k >= 0, k <= g.D, common(H), z3.Implies(z3.And(inscope, k0 < k, g.markable(w0)), g.mk(H, w0)))
        if y.ctx.valid(inv(y.heap['block.header'], z3.IntVal(0)))[0] is not True:
            raise Unsupported('invariant of the walk')
        k, H = y.ctx.int('k'), g.fresh()
        sn, env = y.snapshot(), y.env.copy()
        hv = {q: y.int('v') for q in others}

        def state():
            y.env.set(fk, SymRef('frame', Fr(k)))
            if rk is not None:
                y.env.set(rk, g.field(SymRef('gcMap', k), 'roots'))
            for q, v in hv.items():
                y.env.set(q, v)
            y.heap['block.header'] = H
            y.ctx.assume(inv(H, k))

        def rnd():
            state()
            if not y.ctx.decide(cond()):
                raise Infeasible()
            depth[0] = k
            body()
            depth[0] = None
            nk = g.frameno(y.env[fk])
            if rk is not None and not same(simp(y.env[rk].frame), simp(nk)):
                raise Unsupported('the roots are those of another frame')
            if y.ctx.valid(nk == k + 1)[0] is not True or y.ctx.valid(inv(y.heap['block.header'], k + 1))[0] is not True:
                raise Unsupported('invariant of the walk')
            return True
        sub_ob(y, rnd)
        state()
        if y.ctx.decide(cond()):
            raise StopPath('round')
        return True

    def hook(y, node, cond, body, extra):
        k = depth[0]
        if k is None:
            return outer(y, node, cond, body, extra)
        Hs = y.heap['block.header']

        def inv(H, r):
            return z3.And(r >= 0, common(H), r <= FNR(k), z3.Implies(z3.And(inscope, z3.Or(k0 < k, z3.And(k0 == k, r0 < r)), g.markable(w0)), g.mk(H, w0)))

        def roles(r):
            reach(k, r)
            g.word(slot(k, r))
        return rule(g, y, cond, body, inv, roles)
    x.loophook = hook
    try:
        x.run(lib.fn('gcMark'), [])
    except Panic as e:
        x.ob('does not panic', False, str(e))
        return
    finally:
        obs.functions |= x.ran
    H = x.heap['block.header']
    h, h2 = H1[g.x0 - 16], H[g.x0 - 16]
    new = z3.And(z3.Not(marked(h)), marked(h2))
    x.ob('every object in a listed slot is marked', z3.Implies(z3.And(inscope, g.markable(w0)), g.mk(H, w0)))
    x.ob('the run time data is marked', z3.Implies(g.markable(g.rt), g.mk(H, g.rt)))
    x.ob('only blocks that can be reached from a root are marked', z3.Implies(new, RootReach(g.x0)))
    x.ob('every pointer field of a newly marked block leads to a marked block', z3.Implies(z3.And(new, g.haschild, g.markable(g.c0)), g.mk(H, g.c0)))
    x.ob('a header keeps everything but its mark, and no mark is lost', z3.Or(h2 == h, z3.And(h2 == h + 1, z3.Not(marked(h)))))
    x.ob('links and contents stay', x.heap['block.next'].eq(g.N0))


@caught
def gcall(ctx, obs, lib, sec):
    g = G(ctx, obs, lib, sec, direct=True)
    ev = []
    for nm in ('gcMark', 'gcSweep'):
        g.X.contracts[lib.fn(nm)['_key']] = lambda y, a, nm=nm: ev.append(nm)
        obs.contracts.add(nm)
    g.run('gc', [])
    g.X.ob('marks, then sweeps', ev == ['gcMark', 'gcSweep'])


# -------------------------------------------------------------------- small heaps
TYPES = [('StructType', [0, 2]), ('StringType',), ('ArrayType', False), ('ArrayType', True), ('FunctionType',), ('BytesType',), ('StructType', []), ('StructType', [1]), ('StructType', [7, 0, 1, 3, 2, 9, 5]), ('StructType', list(range(20)))]
STRUCT, STRING, INTS, PTRS, FUNC, BYTES, EMPTY, ONE, SEVEN, TWENTY = range(10)
AT = 8192
BASES = [AT, AT, 2 ** 32 - 2048, 0x555555556000, 0x7ffff7000000]     # where blocks may lie: any user address
NULLS = [0, 8, 1024, 1]
ODD = [AT + 17, AT + 1, 4097, 2 ** 41 + 1, -1]


class Small(G):
    """a heap given in full: objects {address: [type, read-only, marked, words]}"""
    def __init__(self, ctx, obs, lib, sec, objs, frames=()):
        G.__init__(self, ctx, obs, lib, sec, direct=True)
        x = self.X
        x.unroll = 200
        self.objs, self.frames = objs, frames
        self.hd, self.nx, self.mem, self.fr = {}, {}, {}, []
        last = 0
        for a, (t, r, m, ws) in reversed(list(objs.items())):
            self.hd[a - 16] = t << 47 | r << 1 | m
            if not r:
                self.nx[a - 16] = last
                last = a - 16
            for i, w in enumerate(ws):
                self.mem[a + 8 * i] = w
        x.g['blocks'] = last
        self.table = Mem(8 + 8 * len(TYPES), len(TYPES), word=lambda i: TInfo(i), ro=True, name='type table')
        self.depth = 0
        self.stack()

    def stack(self):
        """frames: lists of (offset, word); frame k lies at a fixed address, a slot belongs to the frame before it"""
        x = self.X
        self.fa = [2 ** 20 - 4096 * (len(self.frames) - i) for i in range(len(self.frames) + 1)]
        for i, f in enumerate(self.frames):
            for off, w in f:
                self.mem[self.fa[i + 1] - 8 * off] = w
        x.stubs['getFramePointer'] = lambda y, a, n: SymRef('frame', self.fa[0])
        x.stubs['isStackBase'] = lambda y, a, n: simp(a[0].a) == self.fa[-1]
        x.stubs['getRuntime'] = lambda y, a, n: SymRef('runtime', self.rt)

    def num(self, a):
        a = simp(a)
        if not isinstance(a, int):
            raise Unsupported('address')
        return a

    def load(self, o):
        if not isinstance(o, Raw):
            raise Unsupported('deref')
        a = self.num(o.w)
        if a not in self.mem:
            self.X.ob('only words of objects are read', False, 'address %d' % a)
            raise StopPath('read')
        return Raw(self.mem[a])

    def loadf(self, r, name):
        a = self.num(r.a)
        if r.typ == 'block':
            d = self.hd if name == 'header' else self.nx
            if a in self.fr or a not in d:
                self.X.ob('no access to a freed block or to what is none', False, 'address %d' % a)
                raise StopPath('read')
            return SymRef('block', d[a]) if name == 'next' else d[a]
        if r.typ == 'frame' and a in self.fa:
            k = self.fa.index(a)
            if name == 'next' and k < len(self.frames):
                return SymRef('frame', self.fa[k + 1])
            if name == 'map':
                return SymRef('gcMap', k)
        if r.typ == 'gcMap' and name == 'roots':
            offs = [o for o, w in self.frames[a]] if a < len(self.frames) else [3]
            return Mem(8 + 8 * len(offs), len(offs), word=lambda j: offs[simp(j)], ro=True, name='roots')
        raise Unsupported('field %s.%s' % (r.typ, name))

    def storef(self, r, name, v):
        a = self.num(r.a)
        if r.typ != 'block' or a in self.fr or a not in self.hd:
            self.X.ob('no access to a freed block or to what is none', False, 'address %d' % a)
            raise StopPath('write')
        (self.hd if name == 'header' else self.nx)[a] = self.num(v.a if isinstance(v, SymRef) else v.w if isinstance(v, Raw) else v)

    def free(self, x, a, n):
        b = self.num(x.unview(a[0]))
        x.ob('a block is freed once', b not in self.fr and b in self.nx)
        self.fr.append(b)

    def cases(self, x, v, n):
        if not isinstance(v, TInfo):
            raise Unsupported('match on %s' % type(v).__name__)
        ty = TYPES[self.num(v.t)]
        c = next((c for c in self.lib.enums.get('typeInfo', []) if c[0] == ty[0]), None)
        if c is None:
            raise Unsupported('type information')
        fs = []
        for t in c[3]:
            if t == '[]int':
                rs = ty[1]
                fs.append(Mem(8 + 8 * len(rs), len(rs), word=lambda j: rs[simp(j)], ro=True, name='roots'))
            else:
                fs.append(x.lit(b'T') if t == 'string' else ty[1])
        return ty[0], fs

    def kids(self, a):
        t, r, m, ws = self.objs[a]
        ty = TYPES[t]
        return [ws[i] for i in ty[1]] if ty[0] == 'StructType' else ws[1:] if t == PTRS else []

    def reached(self, roots):
        """addresses newly marked, by the definition"""
        seen, todo = set(), list(roots)
        while todo:
            p = todo.pop()
            if p % 8 or p <= 1024 or p in seen or self.objs[p][1] or self.objs[p][2]:
                continue
            seen.add(p)
            todo += self.kids(p)
        return seen

    def headers(self, marked):
        return {a - 16: t << 47 | r << 1 | (1 if a in marked else m) for a, (t, r, m, ws) in self.objs.items()}

    def text(self):
        return '; '.join('%d: type %d%s%s %s' % (a, t, ' read-only' if r else '', ' marked' if m else '', ws) for a, (t, r, m, ws) in self.objs.items())


def heaps(seed, n, most):
    """heaps of a few objects, every word of a kind that occurs"""
    import random
    rnd = random.Random(seed)
    for _ in range(n):
        k = rnd.randrange(1, most + 1) if rnd.random() < .9 else rnd.randrange(10, 40)
        ads = [rnd.choice(BASES) + 1024 * i for i in range(k)]
        objs = {}
        for a in ads:
            t = rnd.choice([STRUCT, STRUCT, PTRS, PTRS, ONE, STRING, INTS, BYTES, EMPTY, FUNC, SEVEN, TWENTY])
            val = lambda: rnd.choice(ads) if rnd.random() < .7 else rnd.choice(NULLS + ODD)
            ln = rnd.randrange(0, 4) if rnd.random() < .9 else rnd.randrange(4, 40)
            ws = {STRUCT: lambda: [val(), val(), val()], ONE: lambda: [val(), val()], SEVEN: lambda: [val() for _ in range(10)], TWENTY: lambda: [val() for _ in range(20)], PTRS: lambda: [2 * ln + 1] + [val() for _ in range(ln)],
                  INTS: lambda: [2 * ln + 1] + [val() for _ in range(ln)]}.get(t, lambda: [2 * 3 + 1, rnd.choice(ads)])()
            objs[a] = [t, int(t == FUNC or rnd.random() < .12), 0, ws]
            if not objs[a][1] and rnd.random() < .15:
                objs[a][2] = 1
        yield rnd, ads, objs


@caught
def smallmark(ctx, obs, lib, sec, seed, n, most=4):
    d = lib.fn('gcMarkPointer', 'pointer')
    for rnd, ads, objs in heaps(seed, n, most):
        p = ads[0] if rnd.random() < .85 else rnd.choice(NULLS + ODD)
        g = Small(ctx, obs, lib, sec, objs)
        x = g.X
        try:
            x.run(d, [Raw(p), 0])
        except Panic as e:
            x.ob('does not panic', False, '%s; %s' % (e, g.text()))
            return
        except StopPath:
            return
        finally:
            obs.functions |= x.ran
        want = g.headers(g.reached([p]))
        x.ob('exactly what can be reached is marked', want == g.hd, 'from %d; %s' % (p, g.text()) if want != g.hd else '')


@caught
def smallgcmark(ctx, obs, lib, sec, seed, n):
    d = lib.fn('gcMark')
    for rnd, ads, objs in heaps(seed, n, 5):
        rt = rnd.choice(BASES) + 1024 * 60
        objs[rt] = [STRUCT, 0, 0, [rnd.choice(ads + [0]), 1, rnd.choice(ads + [0])]]
        frames = [[(o, rnd.choice(ads + NULLS + ODD)) for o in rnd.sample(range(1, 41), rnd.randrange(0, 4) if rnd.random() < .9 else rnd.randrange(4, 30))] for _ in range(rnd.randrange(0, 4) if rnd.random() < .9 else rnd.randrange(4, 30))]
        g = Small(ctx, obs, lib, sec, objs, frames)
        g.rt = rt
        x = g.X
        try:
            x.run(d, [])
        except Panic as e:
            x.ob('does not panic', False, '%s; %s' % (e, g.text()))
            return
        except StopPath:
            return
        finally:
            obs.functions |= x.ran
        want = g.headers(g.reached([w for f in frames for o, w in f] + [rt]))
        x.ob('exactly what a root leads to is marked', want == g.hd, 'stack %s, run time data at %d; %s' % (frames, rt, g.text()) if want != g.hd else '')


@caught
def smallsweep(ctx, obs, lib, sec, most):
    d = lib.fn('gcSweep')
    import random
    rnd = random.Random(most)
    for n in list(range(most + 1)) + [rnd.randrange(most, 60) for _ in range(40)]:
        for pat in itertools.product((0, 1), repeat=n) if n <= most else [[int(rnd.random() < rnd.choice((.1, .5, .9))) for _ in range(n)]]:
            at = BASES[(n + sum(pat)) % len(BASES)]
            objs = {at + 256 * i: [i % 8 if i % 8 != FUNC else STRING, 0, m, [0, 0, 0]] for i, m in enumerate(pat)}
            g = Small(ctx, obs, lib, sec, objs)
            x = g.X
            try:
                x.run(d, [])
            except Panic as e:
                x.ob('does not panic', False, '%s; %s' % (e, pat))
                return
            except StopPath:
                return
            finally:
                obs.functions |= x.ran
            live = [at + 256 * i - 16 for i, m in enumerate(pat) if m]
            dead = [at + 256 * i - 16 for i, m in enumerate(pat) if not m]
            x.ob('exactly the unmarked blocks are freed', sorted(g.fr) == dead, str(pat))
            got, b = [], g.num(x.g['blocks'] if not isinstance(x.g['blocks'], SymRef) else x.g['blocks'].a)
            while b > 1 and len(got) <= n:
                got.append(b)
                b = g.nx.get(b, 0)
            x.ob('the survivors stay linked', got == live, str(pat))
            x.ob('the marks of the survivors are cleared', all(g.hd[b] == objs[b + 16][0] << 47 for b in live), str(pat))
