"""C17: the hash map. Keys fall into classes (the matcher tells whether two keys are of one class, the hash is a function of the class): this is
every matcher that is an equivalence and every hash function consistent with it. Mode 'all': any number of buckets (a power of two), lists of any
length, in terms of list functions whose laws are proved by induction (laws()); mode 'small': 4 buckets, few entries, everything unrolled."""
import itertools
import z3
from .clr import *
from .funv import W, I, BO, U, both, caught

AL = z3.ArraySort(I, L)
Cl = z3.Function('class', I, I)            # class of a key
HC = z3.Function('hash', I, I)             # hash of a class
Has = z3.Function('has', L, I, BO)         # the list has an entry whose key is of class c
Fst = z3.Function('first', L, I, I)        # the first one
Rem = z3.Function('rem', L, I, L)          # the list without it
Dist = z3.Function('dist', L, BO)          # no two entries of one class
InB = z3.Function('inb', L, I, I, BO)      # every entry belongs into bucket i of n
Len = z3.Function('len', L, I)
Sum = z3.Function('sum', AL, I, I)
Pow2 = z3.Function('pow2', I, BO)
Key = z3.Array('entry.key', I, I)
FE = z3.Function('mfe', L, W, W)
FEB = z3.Function('mfeb', I, W)


def KC(e):
    return Cl(Key[e])


def idx(c, n):
    return BAnd(HC(c), simp(n - 1))


def unfold(l, cs, n=None, i=None):
    """the definitions at l"""
    h, t = L.hd(l), L.tl(l)
    cons, out = L.is_cons(l), []
    for c in cs:
        out += [z3.Implies(L.is_nil(l), z3.And(z3.Not(Has(l, c)), Rem(l, c) == L.nil)),
                z3.Implies(cons, z3.And(Has(l, c) == z3.Or(KC(h) == c, Has(t, c)), Fst(l, c) == z3.If(KC(h) == c, h, Fst(t, c)), Rem(l, c) == z3.If(KC(h) == c, t, L.cons(h, Rem(t, c)))))]
    out += [z3.Implies(L.is_nil(l), z3.And(Dist(l), Len(l) == 0)), z3.Implies(cons, z3.And(Dist(l) == z3.And(Dist(t), z3.Not(Has(t, KC(h)))), Len(l) == Len(t) + 1))]
    if n is not None:
        out += [z3.Implies(L.is_nil(l), InB(l, n, i)), z3.Implies(cons, InB(l, n, i) == z3.And(InB(t, n, i), idx(KC(h), n) == i))]
    return out


LAWS = [
    ('the first match matches', lambda l, c, d, n, i: z3.Implies(Has(l, c), KC(Fst(l, c)) == c)),
    ('removal keeps the other classes', lambda l, c, d, n, i: z3.Implies(c != d, z3.And(Has(Rem(l, c), d) == Has(l, d), z3.Implies(Has(l, d), Fst(Rem(l, c), d) == Fst(l, d))))),
    ('removal adds nothing', lambda l, c, d, n, i: z3.Implies(Has(Rem(l, c), d), Has(l, d))),
    ('removal takes the class out', lambda l, c, d, n, i: z3.Implies(Dist(l), z3.Not(Has(Rem(l, c), c)))),
    ('removal keeps the classes distinct', lambda l, c, d, n, i: z3.Implies(Dist(l), Dist(Rem(l, c)))),
    ('removal keeps entries in their bucket', lambda l, c, d, n, i: z3.Implies(InB(l, n, i), InB(Rem(l, c), n, i))),
    ('removal shortens by one', lambda l, c, d, n, i: z3.And(Len(l) >= 0, Len(Rem(l, c)) == Len(l) - z3.If(Has(l, c), 1, 0))),
    ('an entry lies in the bucket of its class', lambda l, c, d, n, i: z3.Implies(z3.And(InB(l, n, i), Has(l, c)), idx(c, n) == i)),
]


def law(l, c, d, n, i, upto=99):
    return [f(l, c, d, n, i) for nm, f in LAWS[:upto]]


def laws(ctx, obs, p, sec, lib):
    """induction on lists, and on the number of buckets"""
    h, c, d, n, i, j = z3.Ints('h c d n i j')
    t, v = z3.Const('t', L), z3.Const('v', L)
    B = z3.Const('B', AL)

    def go(name, hyp, goal):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyp, z3.Not(goal))
        r = s.check()
        obs.rec('law/' + name, 'discharged' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown')
    for k, (nm, f) in enumerate(LAWS):
        l = L.nil
        go(nm + ' (empty list)', unfold(l, [c, d], n, i) + unfold(Rem(l, c), [c, d], n, i), f(l, c, d, n, i))
        l = L.cons(h, t)
        cs = [c, d, KC(h)]
        hyp = unfold(l, cs, n, i) + unfold(Rem(l, c), cs, n, i) + unfold(Rem(t, c), cs, n, i)
        hyp += [g(t, a, b, n, i) for q, g in LAWS[:k + 1] for a in (c,) for b in (d, KC(h))]
        hyp += [g(l, c, d, n, i) for q, g in LAWS[:k]]
        go(nm + ' (longer list)', hyp, f(l, c, d, n, i))
    S_ = z3.Store(B, i, v)

    def inv(m):
        return z3.And(z3.Implies(z3.And(i >= 0, i < m), Sum(S_, m) == Sum(B, m) - Len(B[i]) + Len(v)), z3.Implies(z3.Or(i < 0, i >= m), Sum(S_, m) == Sum(B, m)))
    go('one bucket changes (no buckets)', [Sum(S_, 0) == 0, Sum(B, 0) == 0], inv(z3.IntVal(0)))
    go('one bucket changes (one more)', [j >= 0, inv(j), Sum(S_, j + 1) == Sum(S_, j) + Len(S_[j]), Sum(B, j + 1) == Sum(B, j) + Len(B[j])], inv(j + 1))
    E = z3.K(I, L.nil)
    go('empty buckets hold nothing', [j >= 0, Sum(E, j) == 0, Sum(E, j + 1) == Sum(E, j) + Len(E[j])] + unfold(L.nil, []), Sum(E, j + 1) == 0)


class M:
    """a map in an arbitrary state"""
    def __init__(self, ctx, obs, lib, sec):
        self.ctx, self.obs, self.lib, self.sec = ctx, obs, lib, sec
        self.X = x = X(lib, ctx, obs, sec)
        x.listmode = True
        x.cuts = 1               # what cannot be proved here is left to the bounded sections
        x.nullelem = L.nil
        x.wrapelem = lambda t, typ: SymRef('entry', t)
        x.contracts['claralloc(int,string,int)'] = claralloc
        x.heap['entry.key'] = Key
        self.V0 = x.heap['entry.value'] = z3.Array('entry.value', I, I)
        self.n = n = x.int('n', 1, MAXLEN)
        self.size, self.thr = x.int('size', 0, MAXLEN), x.int('thr')
        self.B0 = z3.Array('buckets', I, L)
        self.mem = x.new(Mem(8 + 8 * n, n, word=ArrSel(self.B0), name='buckets'))
        self.m = x.new(StructO('map', {'buckets': self.mem, 'size': self.size, 'threshold': self.thr, 'hasher': UFn(self.hash, 'hasher'), 'matcher': UFn(self.match, 'matcher')}))
        if set(lib.structs.get('map', [])) != set(self.m.f) or set(lib.structs.get('entry', [])) != {'key', 'value'}:
            raise Unsupported('the map is laid out differently')
        self.classes = []
        self.c0 = self.cls(z3.Int('otherclass'))      # an arbitrary class
        self.s0 = z3.Int('somebucket')
        self.key = x.int('key')
        self.ck = self.cls(Cl(self.key))
        ctx.assume(Pow2(n))
        ctx.assume(self.size == Sum(self.B0, n))
        self.tables = [(self.B0, n)]
        self.invat(self.B0, n, self.s0)
        for c in (self.c0, self.ck):
            self.index(c, n)
            self.invat(self.B0, n, idx(c, n))
        x.band = self.band
        x.construct0 = x.construct
        x.construct = self.construct
        for nm, first, f in (('find', 'list', self.c_find), ('remove', 'list', self.c_remove)):
            x.contracts[lib.fn(nm, first)['_key']] = f
            obs.contracts.add('%s(list)' % nm)
        for f in lib.funcs:
            if f['val'] == 'array' and len(f.get('p', [])) == 2 and base(f['p'][0].get('typ')) == 'int':
                x.contracts[f['_key']] = self.c_array
                obs.contracts.add('array(length, default)')
        x.setelem0 = x.setelem
        x.setelem = self.setelem

    def cls(self, c):
        self.classes.append(c)
        return c

    def hash(self, x, a):
        return x.rng(HC(Cl(x.elemterm(a[0]))))

    def match(self, x, a):
        return Cl(x.elemterm(a[0])) == Cl(x.elemterm(a[1]))

    def band(self, a, b):
        x = self.X
        if isinstance(a, int) or isinstance(b, int):
            return X.band(x, a, b)
        r = X.band(x, a, b)
        for u in (a, b):
            # lemma 'masking with a power of two less one gives an index', proved over bit vectors
            x.ctx.assume(z3.Implies(Pow2(simp(u + 1)), z3.And(r >= 0, r <= u)))
        q = BAnd(b, a)
        return r

    def index(self, c, n):
        i = idx(c, n)
        self.X.ctx.assume(z3.Implies(Pow2(n), z3.And(i >= 0, i < n)))
        self.X.ctx.assume(i == BAnd(simp(n - 1), HC(c)))
        self.X.rng(HC(c))
        return i

    def invat(self, B, n, s):
        self.X.ctx.assume(z3.Implies(z3.And(s >= 0, s < n), z3.And(Dist(B[s]), InB(B[s], n, s))))

    def facts(self, l, n, i):
        for q in unfold(l, self.classes, n, i):
            self.X.ctx.assume(q)
        for c in self.classes:
            for d in self.classes:
                for q in law(l, c, d, n, i):
                    self.X.ctx.assume(q)

    def construct(self, sym, args):
        x = self.X
        s = self.lib.syms[sym]
        if base(s['ret']) == 'entry' and s['fkind'] != 4:
            e = x.ctx.int('e')
            names = [q['val'] for q in self.lib.cons[sym].get('p', [])]
            f = dict(zip(names, args))
            x.ctx.assume(Key[e] == x.elemterm(f['key']))
            x.heap['entry.value'] = z3.Store(x.heap['entry.value'], e, x.elemterm(f['value']))
            for B, n in self.tables:
                for c in self.classes:
                    b = B[idx(c, n)]
                    x.ctx.assume(z3.Implies(Has(b, c), Fst(b, c) != e))      # a new object
            return SymRef('entry', e)
        return x.construct0(sym, args)

    def setelem(self, a, i, v):
        x = self.X
        if isinstance(a.word, ArrSel) and isinstance(v, z3.DatatypeRef):
            old = a.word.arr
            x.setelem0(a, i, v)
            new, n = a.word.arr, a.w0
            x.ctx.assume(z3.Implies(z3.And(i >= 0, i < n), Sum(new, n) == Sum(old, n) - Len(old[i]) + Len(v)))      # law 'one bucket changes'
            self.facts(v, n, i)
            self.facts(old[i], n, i)
            return
        x.setelem0(a, i, v)

    def predicate(self, f):
        """the class the closure f tests an entry for"""
        x = self.X
        h = x.ctx.int('h')

        def go():
            s = x.snapshot()
            w, hp, env = x.world, dict(x.heap), x.env.copy()
            r = x.callclo(f, [SymRef('entry', h)])
            if x.changes(s, env):
                raise Unsupported('the predicate changes something')
            for c in self.classes:
                if x.ctx.valid(r == (KC(h) == c))[0] is True:
                    return c
            raise Unsupported('the predicate is not known')
        rs = {id(r): r for r, pc in x.sub(go)}
        if len(rs) != 1:
            raise Unsupported('the predicate is not known')
        return list(rs.values())[0]

    def c_find(self, x, a):
        l, c = a[0], self.predicate(a[1])
        self.facts(l, *self.place(l))
        return EnumV('option', 'Some', [SymRef('entry', Fst(l, c))]) if x.ctx.decide(Has(l, c)) else EnumV('option', 'None', [])

    def c_remove(self, x, a):
        l, c = a[0], self.predicate(a[1])
        self.facts(l, *self.place(l))
        o = EnumV('option', 'Some', [SymRef('entry', Fst(l, c))]) if x.ctx.decide(Has(l, c)) else EnumV('option', 'None', [])
        return x.new(StructO('pair', {'first': Rem(l, c), 'second': o}))

    def place(self, l):
        if not z3.is_select(l):
            raise Unsupported('a list that is not a bucket')
        B, i = l.children()
        n = next((n for b, n in self.tables if b.eq(B)), self.n)
        return n, i

    def c_array(self, x, a):
        """contract of array(length, default), proved under C11"""
        n, v = a
        if not (isinstance(v, z3.DatatypeRef) and L.is_nil(v) is not None and v.eq(L.nil)):
            raise Unsupported('buckets are not empty')
        if x.ctx.decide(simp(term(n) < 0)):
            raise Panic('length cannot be negative')
        E = z3.K(I, L.nil)
        m = x.new(Mem(8 + 8 * n, n, word=ArrSel(E), name='new buckets'))
        m.fresh = True
        x.ctx.assume(Sum(E, n) == 0)
        for f in unfold(L.nil, self.classes, n, self.s0):
            x.ctx.assume(f)
        # lemma 'twice a power of two is one'
        x.ctx.assume(z3.Implies(Pow2(self.n), Pow2(simp(2 * self.n))))
        for k in (16,):
            x.ctx.assume(Pow2(z3.IntVal(k)))
        return m

    # ------------------------------------------------------------ what is to be shown
    def now(self):
        b = self.m.f['buckets']
        if not isinstance(b, Mem) or not isinstance(b.word, ArrSel):
            raise Unsupported('buckets')
        return b.word.arr, b.w0

    def lookup(self, c, B=None, n=None, V=None):
        if B is None:
            B, n = self.now()
            V = self.X.heap['entry.value']
        b = B[idx(c, n)]
        return Has(b, c), V[Fst(b, c)]

    def prep(self):
        B, n = self.now()
        for c in self.classes:
            i = self.index(c, n)
            self.facts(B[i], n, i)
        self.facts(B[self.s0], n, self.s0)
        for q in [x for x in z3terms(B)]:
            if q.sort() == L:
                self.facts(q, n, self.s0)
        return B, n

    def inv(self, what=''):
        x = self.X
        B, n = self.prep()
        x.ob('the number of buckets stays a power of two', Pow2(n))
        s = self.s0
        g = z3.And(s >= 0, s < n)
        x.ob('no two entries of one key', z3.Implies(g, Dist(B[s])))
        x.ob('every entry is in the bucket of its key', z3.Implies(g, InB(B[s], n, s)))
        x.ob('size is the number of entries', term(self.m.f['size']) == Sum(B, n))

    def unchanged(self):
        x = self.X
        B, n = self.now()
        x.ob('the map is unchanged', AND(B.eq(self.B0) or simp(B == self.B0), simp(term(n) == self.n), simp(term(self.m.f['size']) == self.size), x.heap['entry.value'].eq(self.V0), self.m.f['buckets'] is self.mem))
        self.frame()

    def frame(self):
        x = self.X
        if not x.heap['entry.key'].eq(Key):
            raise Unsupported('a key is replaced')
        x.ob('the hash function and the matcher stay', getattr(self.m.f['hasher'], 'name', '') == 'hasher' and getattr(self.m.f['matcher'], 'name', '') == 'matcher')

    def opt(self, r, has, val, name):
        x = self.X
        if not isinstance(r, EnumV) or r.enum != 'option':
            raise Unsupported('option')
        x.ob(name + ': whether there is one', simp(has if r.case == 'Some' else NOT(has)))
        if r.case == 'Some':
            x.ob(name + ': which', simp(term(r.f[0]) == val))

    def go(self, name, *args, n=None, first='map'):
        x = self.X
        self.h0, self.v0 = self.lookup(self.ck, self.B0, self.n, self.V0)
        self.h1, self.v1 = self.lookup(self.c0, self.B0, self.n, self.V0)
        for c in (self.ck, self.c0):
            i = idx(c, self.n)
            self.facts(self.B0[i], self.n, i)
        self.facts(self.B0[self.s0], self.n, self.s0)
        try:
            return x.run(self.lib.fn(name, first, n=n), [self.m] + list(args))
        except OutOfMemory:
            raise StopPath('memory')
        except Panic as e:
            x.ob('does not panic', False, str(e))
            raise StopPath('panic')
        finally:
            self.obs.functions |= x.ran


def z3terms(t):
    out, todo, seen = [], [t], set()
    while todo:
        q = todo.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        out.append(q)
        todo.extend(q.children())
    return out


def c_resize(s):
    def f(x, a):
        """contract of resize, itself verified in the section resize"""
        s.inv('before resize')
        B, n = s.now()
        N = simp(2 * n)
        B1 = z3.Array(x.ctx.fresh('resized'), I, L)
        s.prep()
        for c in s.classes:
            h, v = s.lookup(c)
            i = s.index(c, N)
            x.ctx.assume(z3.And(Has(B1[i], c) == h, z3.Implies(h, Fst(B1[i], c) == Fst(B[idx(c, n)], c))))
        x.ctx.assume(z3.And(Pow2(N), Sum(B1, N) == Sum(B, n), Pow2(n)))
        s.invat(B1, N, s.s0)
        mem = x.new(Mem(8 + 8 * N, N, word=ArrSel(B1), name='resized'))
        s.m.f['buckets'] = mem
        s.m.f['threshold'] = x.int('threshold')
        s.tables.append((B1, N))
    return f


@caught
def unbounded(ctx, obs, lib, sec, which):
    s = M(ctx, obs, lib, sec)
    x = s.X
    if which in ('get', 'contains', 'orElse'):
        if which == 'orElse':
            o = x.int('other')
            r = s.go('orElse', s.key, o)
            x.ob('the value of the key, or the other', simp(r == z3.If(s.h0, s.v0, o)))
        else:
            r = s.go(which, s.key)
            if which == 'get':
                s.opt(r, s.h0, s.v0, 'the value of the key')
            else:
                x.ob('tells whether the key is present', simp(r == s.h0) if not isinstance(r, bool) else (s.h0 if r else NOT(s.h0)))
        s.unchanged()
        x.ob('nothing else happens', x.world.eq(z3.Const('w0', W)))
    elif which == 'put':
        v = x.int('value')
        x.contracts[lib.fn('resize', 'map')['_key']] = c_resize(s)
        obs.contracts.add('resize')
        r = s.go('put', s.key, v)
        s.opt(r, s.h0, s.v0, 'the previous value of the key')
        s.inv()
        h, w = s.lookup(s.ck)
        x.ob('the key has the new value', simp(z3.And(h, w == v)))
        h, w = s.lookup(s.c0)
        x.ob('every other key keeps its value', z3.Implies(s.c0 != s.ck, z3.And(h == s.h1, z3.Implies(h, w == s.v1))))
        x.ob('size grows by one for a new key only', simp(term(s.m.f['size']) == s.size + z3.If(s.h0, 0, 1)))
        s.frame()
    elif which == 'remove':
        r = s.go('remove', s.key)
        s.opt(r, s.h0, s.v0, 'the previous value of the key')
        s.inv()
        h, w = s.lookup(s.ck)
        x.ob('the key is gone', NOT(h))
        h, w = s.lookup(s.c0)
        x.ob('every other key keeps its value', z3.Implies(s.c0 != s.ck, z3.And(h == s.h1, z3.Implies(h, w == s.v1))))
        x.ob('size shrinks by one if the key was present', simp(term(s.m.f['size']) == s.size - z3.If(s.h0, 1, 0)))
        s.frame()
    elif which == 'foreach':
        G = U('f', 2, 'nothing')
        w0 = x.world

        def c_each(y, a):
            l, f = a
            h, w = y.ctx.int('h'), z3.Const(y.ctx.fresh('w'), W)

            def one():
                y.world = w
                t, env = y.snapshot(), y.env.copy()
                y.callclo(f, [SymRef('entry', h)])
                if set(y.changes(t, env)) - {('w', 0)} or not y.world.eq(G.eff(w, Key[h], s.V0[h])):
                    raise Unsupported('the function is not applied to the key and the value')
                return True
            if not y.sub(one):
                raise Unsupported('the function')
            y.world = FE(l, y.world)
        x.contracts[lib.fn('foreach', 'list')['_key']] = c_each
        obs.contracts.add('foreach(list)')

        def rules(y, v):
            y.ctx.assume(FEB(0) == w0)
            y.ctx.assume(z3.Implies(z3.And(v >= 0, v < s.n), FEB(v + 1) == FE(s.B0[v], FEB(v))))

        def cands(y, st):
            out = []
            for v, d in st['delta'].items():
                def c(z, v=v):
                    t = term(z.now(v))
                    rules(z, t)
                    rules(z, t - 1)
                    return z3.And(t >= 0, t <= s.n, z.world == FEB(t))
                out.append(('the first %s buckets are done' % (v,), c))
            return out
        x.cands = cands
        s.go('foreach', G.fn())
        x.ob('the entries of all buckets, each once', simp(x.world == FEB(s.n)))
        s.unchanged()
    elif which == 'resize':
        resize(s)
    elif which == 'new':
        h, mt = UFn(s.hash, 'hasher'), UFn(s.match, 'matcher')
        try:
            r = x.run(lib.fn('NewHashMap'), [h, mt])
        except Panic as e:
            x.ob('does not panic', False, str(e))
            return
        finally:
            obs.functions |= x.ran
        if not isinstance(r, StructO) or r.typ != 'map':
            raise Unsupported('map')
        s.m = r
        s.inv()
        h, w = s.lookup(s.c0)
        x.ob('no key is present', NOT(h))
        x.ob('size is zero', simp(term(r.f['size']) == 0))
        s.frame()


def resize(s):
    x = s.X
    n, B0 = s.n, s.B0
    N = 2 * n
    ctx = x.ctx
    ctx = None

    def P(nb, c, i, t):
        b, sN = idx(c, n), idx(c, N)
        old, new = B0[b], nb[sN]
        sameas = z3.And(Has(new, c) == Has(old, c), z3.Implies(Has(old, c), Fst(new, c) == Fst(old, c)))
        return z3.And(z3.Implies(b < i, sameas), z3.Implies(b > i, z3.Not(Has(new, c))),
                      z3.Implies(b == i, z3.If(Has(t, c), z3.And(z3.Not(Has(new, c)), Has(old, c), Fst(old, c) == Fst(t, c)), sameas)))

    def Q(nb, q):
        return z3.Implies(z3.And(q >= 0, q < N), z3.And(Dist(nb[q]), InB(nb[q], N, q)))

    def R(nb, i, t):
        return Sum(nb, N) + Len(t) == Sum(B0, i) + Len(B0[i])

    def outer(nb, i, c):
        b, sN = idx(c, n), idx(c, N)
        old, new = B0[b], nb[sN]
        return z3.And(i >= 0, i <= n, z3.Implies(b < i, z3.And(Has(new, c) == Has(old, c), z3.Implies(Has(old, c), Fst(new, c) == Fst(old, c)))), z3.Implies(b >= i, z3.Not(Has(new, c))), Q(nb, s.s0), Sum(nb, N) == Sum(B0, i))

    def setup(c):
        for k in (n, simp(N)):
            s.index(c, k)

    def facts(nb, c, i):
        for l, a, b in ((nb[idx(c, N)], N, idx(c, N)), (B0[idx(c, n)], n, idx(c, n)), (nb[s.s0], N, s.s0), (B0[i], n, i)):
            s.facts(l, a, b)
        x.ctx.assume(z3.And(Sum(B0, 0) == 0, z3.Implies(i >= 0, Sum(B0, i + 1) == Sum(B0, i) + Len(B0[i]))))

    def newmem(but=()):
        ms = [o for o in x.objs if isinstance(o, Mem) and isinstance(o.word, ArrSel) and getattr(o, 'fresh', False)]
        if len(ms) != 1 or x.ctx.valid(term(ms[0].w0) == N)[0] is not True:
            raise Unsupported('the new buckets')
        return ms[0]

    def c_each(y, a):
        l, f = a
        if not z3.is_select(l) or not l.arg(0).eq(B0):
            raise Unsupported('a list that is not a bucket')
        i = l.arg(1)
        m = newmem()
        s.invat(B0, n, i)
        setup(s.c0)
        facts(m.word.arr, s.c0, i)
        if y.ctx.valid(z3.And(P(m.word.arr, s.c0, i, l), Q(m.word.arr, s.s0), R(m.word.arr, i, l)))[0] is not True:
            raise Unsupported('a bucket is copied twice')
        nb1, nb2 = z3.Array(y.ctx.fresh('nb'), I, L), z3.Array(y.ctx.fresh('nb'), I, L)
        h, t = y.ctx.int('h'), z3.Const(y.ctx.fresh('t'), L)
        rest = L.cons(h, t)

        def one():
            m.word = ArrSel(nb1)
            c = s.cls(KC(h))
            try:
                for q in (s.c0, c):
                    setup(q)
                    facts(nb1, q, i)
                for q in unfold(rest, s.classes, n, i):
                    y.ctx.assume(q)
                y.ctx.assume(z3.And(P(nb1, s.c0, i, rest), P(nb1, c, i, rest), Q(nb1, s.s0), Q(nb1, idx(c, N)), R(nb1, i, rest), Dist(rest), InB(rest, n, i), i >= 0, i < n))
                sn, env = y.snapshot(), y.env.copy()
                y.callclo(f, [SymRef('entry', h)])
                ch = {k for k in y.changes(sn, env) if k != ('d', m)}
                if ch:
                    raise Unsupported('copying an entry changes %s' % (ch,))
                nb = m.word.arr
                facts(nb, s.c0, i)
                for q in z3terms(nb):
                    if q.sort() == L:
                        s.facts(q, N, s.s0)
                        s.facts(q, N, idx(c, N))
                g = z3.And(P(nb, s.c0, i, t), Q(nb, s.s0), R(nb, i, t), Dist(t), InB(t, n, i))
                if y.ctx.valid(g)[0] is not True:
                    raise Unsupported('an entry is not copied as required')
            finally:
                s.classes.pop()
            return True
        if not y.sub(one):
            raise Unsupported('copying an entry')
        m.word = ArrSel(nb2)
        s.tables.append((nb2, N))
        setup(s.c0)
        facts(nb2, s.c0, i)
        for q in unfold(L.nil, s.classes, n, i):
            y.ctx.assume(q)
        y.ctx.assume(z3.And(P(nb2, s.c0, i, L.nil), Q(nb2, s.s0), R(nb2, i, L.nil)))
    x.contracts[s.lib.fn('foreach', 'list')['_key']] = c_each
    s.obs.contracts.add('foreach(list)')

    def hook(y, node, cond, body, extra):
        m = newmem()
        vs = [k for k, v in y.env.items() if isint(v) and (k in extra or True)]
        for k in vs:
            i0 = y.env[k]
            setup(s.c0)
            facts(m.word.arr, s.c0, term(i0))
            if y.ctx.valid(outer(m.word.arr, term(i0), s.c0))[0] is not True:
                continue
            nb, i = z3.Array(y.ctx.fresh('nb'), I, L), y.ctx.int('i')
            sn, env = y.snapshot(), y.env.copy()

            def rnd(k=k, nb=nb, i=i):
                m.word = ArrSel(nb)
                y.env.set(k, i)
                y.rng(i)
                facts(nb, s.c0, i)
                y.ctx.assume(outer(nb, i, s.c0))
                if not y.ctx.decide(cond()):
                    raise Infeasible()
                body()
                ch = {q for q in y.changes(sn, env) if q not in (('d', m), ('v', k)) and not (q[0] == 'v' and q[1] not in env)}
                if ch:
                    raise Unsupported('the loop changes %s' % (ch,))
                facts(m.word.arr, s.c0, term(y.env[k]))
                if y.ctx.valid(outer(m.word.arr, term(y.env[k]), s.c0))[0] is not True:
                    raise Unsupported('the loop over the buckets')
                return True
            try:
                ok = y.sub(rnd)
            except Unsupported as e:
                last = e
                continue
            m.word = ArrSel(nb)
            s.tables.append((nb, N))
            y.env.set(k, i)
            y.rng(i)
            facts(nb, s.c0, i)
            y.ctx.assume(outer(nb, i, s.c0))
            y.cuts += 1
            if y.ctx.decide(cond()):
                raise StopPath('round')
            return True
        raise Unsupported('no invariant for the loop over the buckets')
    x.loophook = hook
    r = s.go('resize')
    s.index(s.c0, simp(N))
    s.inv()
    h, w = s.lookup(s.c0)
    x.ob('every key keeps its value', z3.And(h == s.h1, z3.Implies(h, w == s.v1)))
    x.ob('size unchanged', simp(term(s.m.f['size']) == s.size))
    x.ob('values unchanged', x.heap['entry.value'].eq(s.V0))
    s.frame()


# -------------------------------------------------------------------- few entries, everything unrolled
class Sm:
    def __init__(self, ctx, obs, lib, sec, nb=4):
        self.ctx, self.obs, self.lib, self.sec, self.nb = ctx, obs, lib, sec, nb
        self.X = x = X(lib, ctx, obs, sec, unroll=80)
        x.contracts['claralloc(int,string,int)'] = claralloc
        x.elems = self.elems
        x.setelem0, x.setelem = x.setelem, self.setelem
        self.trace = []

    def conc(self, a, i):
        if isinstance(i, int):
            return i
        for v in range(a.w0 - 1):
            if self.ctx.decide(simp(i == v)):
                return v
        return a.w0 - 1

    def elems(self, a, i):
        return a.word(self.conc(a, i))

    def setelem(self, a, i, v):
        self.X.setelem0(a, self.conc(a, i), v)

    def hash(self, x, a):
        return x.rng(HC(Cl(term(a[0]))))

    def match(self, x, a):
        return simp(Cl(term(a[0])) == Cl(term(a[1])))

    def fresh(self):
        """the empty map"""
        self.pairs = []
        return self.call('NewHashMap', UFn(self.hash, 'hasher'), UFn(self.match, 'matcher'))

    def table(self, *counts):
        """a table with the given numbers of entries in its first buckets"""
        x, ctx = self.X, self.ctx
        self.pairs, lists = [], []
        for i in range(self.nb):
            l = EnumV('list', 'Empty', [])
            for j in range(counts[i] if i < len(counts) else 0):
                k, v = x.int('k%d_%d' % (i, j)), x.int('v%d_%d' % (i, j))
                q, r = x.divmod(x.rng(HC(Cl(k))), self.nb)
                ctx.assume(r == i)
                for k2, v2 in self.pairs:
                    ctx.assume(Cl(k) != Cl(k2))
                self.pairs.append((k, v))
                l = EnumV('list', 'Element', [x.new(StructO('entry', {'key': k, 'value': v})), l])
            lists.append(l)
        if set(self.lib.structs.get('map', [])) != {'buckets', 'size', 'threshold', 'hasher', 'matcher'} or set(self.lib.structs.get('entry', [])) != {'key', 'value'}:
            raise Unsupported('the map is laid out differently')
        return x.new(StructO('map', {'buckets': x.arr(lists), 'size': len(self.pairs), 'threshold': x.int('threshold'), 'hasher': UFn(self.hash, 'hasher'), 'matcher': UFn(self.match, 'matcher')}))

    def call(self, name, *args, n=None):
        try:
            return self.X.run(self.lib.fn(name, *(('map',) if name != 'NewHashMap' else ()), n=n), list(args))
        except OutOfMemory:
            raise StopPath('memory')
        except Panic as e:
            self.X.ob('does not panic', False, str(e))
            raise StopPath('panic')
        finally:
            self.obs.functions |= self.X.ran

    def opt(self, r, want, name):
        if not isinstance(r, EnumV) or r.enum != 'option':
            raise Unsupported('option')
        ok = (r.case == 'Some') == (want is not None)
        self.X.ob(name, ok and (want is None or simp(term(r.f[0]) == term(want))))

    def at(self, k):
        """index of the pair of key k in the expected contents"""
        return next((i for i, (a, b) in enumerate(self.pairs) if self.ctx.decide(simp(Cl(term(a)) == Cl(term(k))))), None)

    # the operations, on the map and on the expected contents
    def put(self, m, k, v):
        i = self.at(k)
        r = self.call('put', m, k, v)
        self.opt(r, None if i is None else self.pairs[i][1], 'put returns the previous value')
        if i is None:
            self.pairs.append((k, v))
        else:
            self.pairs[i] = (self.pairs[i][0], v)

    def remove(self, m, k):
        i = self.at(k)
        r = self.call('remove', m, k)
        self.opt(r, None if i is None else self.pairs[i][1], 'remove returns the previous value')
        if i is not None:
            del self.pairs[i]

    def look(self, m):
        k = self.X.int('look')
        i = self.at(k)
        want = None if i is None else self.pairs[i][1]
        self.opt(self.call('get', m, k), want, 'get returns the latest value')
        r = self.call('contains', m, k)
        self.X.ob('contains tells whether a key is present', simp(r if want is not None else NOT(r)))
        self.X.ob('orElse returns the latest value or the other', simp(term(self.call('orElse', m, k, 77)) == (77 if want is None else want)))
        self.X.ob('size is the number of keys', simp(term(self.X.getfield(m, 'size')) == len(self.pairs)))

    def each(self, m):
        seen = []

        def f(x, a):
            seen.append((a[0], a[1]))
        self.call('foreach', m, UFn(f, 'f'))
        rest = list(self.pairs)
        ok = len(seen) == len(rest)
        for k, v in seen if ok else []:
            i = next((i for i, (a, b) in enumerate(rest) if self.ctx.decide(simp(Cl(term(a)) == Cl(term(k))))), None)
            if i is None:
                ok = False
                break
            ok = AND(ok, simp(term(v) == term(rest[i][1])))
            del rest[i]
        self.X.ob('foreach visits every entry exactly once', simp(ok))


@caught
def small(ctx, obs, lib, sec, which):
    s = Sm(ctx, obs, lib, sec)
    x = s.X
    if which == 'history':
        # from the empty map: few operations, keys with hashes that collide or are negative
        m = s.fresh()
        hs = [0, 16, -1, 5]
        ks = [x.int('k%d' % i) for i in range(3)]
        for k in ks:
            h = hs[ctx.choose(3)]
            ctx.assume(HC(Cl(k)) == h)
        s.put(m, ks[0], x.int('a'))
        s.put(m, ks[1], x.int('b'))
        if ctx.choose(2):
            s.remove(m, ks[2])
        else:
            s.put(m, ks[2], x.int('c'))
        k = x.int('look')
        ctx.assume(HC(Cl(k)) == hs[ctx.choose(4)])
        i = s.at(k)
        s.opt(s.call('get', m, k), None if i is None else s.pairs[i][1], 'get returns the latest value')
        x.ob('size is the number of keys', simp(term(x.getfield(m, 'size')) == len(s.pairs)))
        s.each(m)
        return
    counts = [(0, 0), (1, 0), (2, 0), (1, 1), (3, 0), (2, 1)] if which != 'putresize' else [(1, 0), (0, 2), (1, 1)]
    m = s.table(*counts[ctx.choose(len(counts))])
    if which == 'put':
        m.f['threshold'] = 100
    elif which == 'putresize':
        m.f['threshold'] = len(s.pairs)
        which = 'put'
    if which in ('put', 'remove'):
        k = x.int('key')
        if which == 'put':
            s.put(m, k, x.int('v'))
        else:
            s.remove(m, k)
        if ctx.choose(2):
            s.look(m)
        else:
            s.each(m)
    elif which == 'resize':
        s.call('resize', m)
        if ctx.choose(2):
            s.look(m)
        else:
            s.each(m)
    else:
        s.look(m)
        s.each(m)
