"""C18: list, option and result functions. Lists are terms of an inductive sort (mode 'all') or have a fixed length (mode 'small');
functions passed in are uninterpreted: their result and their effect on the world depend on their arguments and the world they are called in."""
import itertools
import z3
from .clr import *
from .libv import guard

I, BO = z3.IntSort(), z3.BoolSort()


class U:
    """an unknown function of n arguments"""
    def __init__(self, name, n, ret='T', pure=False):
        self.name, self.n, self.ret, self.pure = name, n, ret, pure
        dom = ([] if pure else [W]) + [I] * n
        self.r = z3.Function(name + '.r', *dom, BO if ret == 'bool' else I)
        self.w = z3.Function(name + '.w', W, *[I] * n, W)
        self.c = z3.Function(name + '.c', *dom, BO)     # which case, for option and result

    def res(self, w, *a):
        a = [term(x) for x in a]
        return self.r(*([] if self.pure else [w]), *a)

    def eff(self, w, *a):
        return w if self.pure else self.w(w, *[term(x) for x in a])

    def case(self, w, *a):
        return self.c(*([] if self.pure else [w]), *[term(x) for x in a])

    def fn(self):
        def call(x, args):
            if len(args) != self.n:
                raise Unsupported('arguments of a function value')
            args = [x.elemterm(v) for v in args]
            w = x.world
            x.world = self.eff(w, *args)
            if self.ret == 'nothing':
                return None
            r = self.res(w, *args)
            if self.ret == 'option':
                return EnumV('option', 'Some', [r]) if x.ctx.decide(self.case(w, *args)) else EnumV('option', 'None', [])
            if self.ret == 'result':
                return EnumV('result', 'Ok' if x.ctx.decide(self.case(w, *args)) else 'Err', [r])
            return r
        return UFn(call, self.name)


RevApp = z3.Function('RevApp', L, L, L)
Rem = z3.Function('Rem', L, L)
Has = z3.Function('Has', L, BO)
Fst = z3.Function('Fst', L, I)
FE = z3.Function('FE', L, W, W)
MR = z3.Function('MR', L, W, L)
MW = z3.Function('MW', L, W, W)
RR = z3.Function('RR', L, I, W, I)
RW = z3.Function('RW', L, I, W, W)
TL = z3.Function('TL', I, L)


def both(x, l, nil, cons):
    """a definition by recursion on the list l, unfolded once"""
    x.ctx.assume(z3.Implies(L.is_nil(l), nil))
    x.ctx.assume(z3.Implies(L.is_cons(l), cons(L.hd(l), L.tl(l))))


class F:
    def __init__(self, ctx, obs, lib, sec, mode):
        self.ctx, self.obs, self.lib, self.sec, self.small = ctx, obs, lib, sec, mode == 'small'
        self.X = x = X(lib, ctx, obs, sec, unroll=30 if self.small else 0)
        x.contracts['claralloc(int,string,int)'] = claralloc
        x.listmode = not self.small
        self.w = x.world

    def list(self, name='l', hi=3):
        if not self.small:
            return z3.Const(self.ctx.fresh(name), L)
        n = self.ctx.choose(hi + 1)
        return self.mk([self.ctx.int('%s%d' % (name, i)) for i in range(n)])

    def mk(self, xs):
        l = EnumV('list', 'Empty', [])
        for v in reversed(xs):
            l = EnumV('list', 'Element', [v, l])
        return l

    def items(self, l):
        out = []
        while isinstance(l, EnumV) and l.case == 'Element':
            out.append(l.f[0])
            l = l.f[1]
        if not (isinstance(l, EnumV) and l.case == 'Empty'):
            raise Unsupported('a list')
        return out

    def islist(self, r, xs, name):
        ys = self.items(r)
        self.X.ob(name, len(ys) == len(xs) and simp(AND(*[simp(a == b) for a, b in zip(ys, xs)])))

    def go(self, decl, args):
        try:
            r = self.X.run(decl, args)
        except Panic as e:
            self.X.ob('does not panic', False, str(e))
            raise StopPath('panic')
        finally:
            self.obs.functions |= self.X.ran
        return r

    def isopt(self, r, some, val, name):
        x = self.X
        if not isinstance(r, EnumV):
            raise Unsupported('option')
        x.ob(name + ': the case', simp(some if r.case == 'Some' else NOT(some)))
        if r.case == 'Some':
            x.ob(name + ': the value', simp(term(r.f[0]) == val))

    def effect(self, w, name='the function is applied as often and in the order required'):
        self.X.ob(name, simp(self.X.world == w) if not self.X.world.eq(w) else True)


def listvars(st):
    return [q for q, v in st['keys'].items() if any(isinstance(t, z3.DatatypeRef) for t in v)] if True else []


def boolvars(st):
    return [q for q, v in st['keys'].items() if q[0] != 'd' and isbool(v[0])]


def flags(st, lists):
    out = []
    for q in boolvars(st):
        for l in lists:
            out.append(('%s or end of %s' % (q, l), lambda y, q=q, l=l: OR(y.now(q), L.is_nil(y.now(l)))))
            out.append(('not %s or end of %s' % (q, l), lambda y, q=q, l=l: OR(NOT(y.now(q)), L.is_nil(y.now(l)))))
    return out


def caught(f):
    def g(ctx, obs, p, sec, lib, *a, **k):
        try:
            return f(ctx, obs, lib, sec, *a, **k)
        except StopPath:
            return None
    return g


def revrule(x, l, a):
    both(x, l, RevApp(l, a) == a, lambda h, t: RevApp(l, a) == RevApp(t, L.cons(h, a)))


def c_reverse(x, a):
    return RevApp(a[0], L.nil)


@caught
def lists(ctx, obs, lib, sec, mode, which):
    f = F(ctx, obs, lib, sec, mode)
    x, w0 = f.X, f.w
    if which == 'append':
        l, v = f.list(), ctx.int('v')
        r = f.go(lib.fn('append', 'list'), [l, v])
        if f.small:
            f.islist(r, [v] + f.items(l), 'the value in front of the list')
        else:
            x.ob('the value in front of the list', simp(r == L.cons(v, l)))
        f.effect(w0)
    elif which == 'toList':
        if f.small:
            n = ctx.choose(5)
            xs = [ctx.int('a%d' % i) for i in range(n)]
            a = x.arr(xs)
            r = f.go(lib.fn('toList', '[]'), [a])
            f.islist(r, xs, 'the elements in order')
            x.ob('the array is unchanged', a.w0 == n and all(same(a.word(i), xs[i]) for i in range(n)))
            return
        n = x.int('n', 0, MAXLEN)
        arr = z3.Array('a', I, I)
        a = x.new(Mem(8 + 8 * n, n, word=select(arr)))

        def rules(y, v):
            y.ctx.assume(TL(n) == L.nil)
            y.ctx.assume(z3.Implies(z3.And(v >= 0, v < n), TL(v) == L.cons(arr[v], TL(v + 1))))

        def cands(y, st):
            out = []
            for q in listvars(st):
                for v, d in st['delta'].items():
                    for c in (0, 1):
                        def cand(z, q=q, v=v, c=c):
                            t = term(z.now(v)) + c
                            rules(z, t)
                            rules(z, t - 1)
                            return z.now(q) == TL(t)
                        out.append(('list of the elements from %s+%d on %s' % (v, c, q), cand))
                        out.append(('not below %s %d' % (v, c), lambda z, v=v, c=c: term(z.now(v)) + c >= 0))
            return out
        x.cands = cands
        r = f.go(lib.fn('toList', '[]'), [a])
        rules(x, z3.IntVal(0))
        for k, g, bases in x.qf:
            for b_ in bases:
                rules(x, term(b_) - k)
        x.ob('the elements in order', simp(r == TL(0)))
        x.ob('the array is unchanged', same(a.w0, n) and not a.stores)
    elif which == 'reverse':
        l = f.list()
        if not f.small:
            def cands(y, st):
                ls = listvars(st)
                out = flags(st, ls)
                for a, b in itertools.permutations(ls, 2):
                    ea, eb = st['entry'][a], st['entry'][b]

                    def c(z, a=a, b=b, ea=ea, eb=eb):
                        revrule(z, ea, eb)
                        revrule(z, z.now(a), z.now(b))
                        return RevApp(z.now(a), z.now(b)) == RevApp(ea, eb)
                    out.append(('rest of %s onto %s' % (a, b), c))
                return out
            x.cands = cands
        r = f.go(lib.fn('reverse', 'list'), [l])
        if f.small:
            f.islist(r, f.items(l)[::-1], 'the elements in reverse order')
        else:
            x.ob('the elements in reverse order', simp(r == RevApp(l, L.nil)))
        f.effect(w0)
    elif which == 'remove':
        l = f.list()
        P = U('pred', 1, 'bool', pure=True)

        def rem(z, t):
            both(z, t, z3.And(Rem(t) == L.nil, z3.Not(Has(t))), lambda h, r: z3.If(P.r(h), z3.And(Rem(t) == r, Has(t), Fst(t) == h), z3.And(Rem(t) == L.cons(h, Rem(r)), Has(t) == Has(r), Fst(t) == Fst(r))))
        if not f.small:
            x.contracts[lib.fn('reverse', 'list')['_key']] = c_reverse
            obs.contracts.add('reverse')

            def cands(y, st):
                ls = listvars(st)
                out = flags(st, ls)
                vals = [q for q, v in st['keys'].items() if q[0] != 'd' and isinstance(v[0], EnumV)]
                for a, b in itertools.permutations(ls, 2):
                    for q in vals:
                        ea, eb = st['entry'][a], st['entry'][b]

                        def c(z, a=a, b=b, q=q, ea=ea, eb=eb):
                            la, lb, v = z.now(a), z.now(b), z.now(q)
                            rem(z, ea)
                            rem(z, la)
                            revrule(z, lb, la)
                            revrule(z, lb, Rem(la))
                            revrule(z, eb, Rem(ea))
                            if v.case == 'None':
                                return z3.And(RevApp(lb, Rem(la)) == RevApp(eb, Rem(ea)), Has(la) == Has(ea), Fst(la) == Fst(ea))
                            return z3.And(RevApp(lb, la) == RevApp(eb, Rem(ea)), Has(ea), v.f[0] == Fst(ea))
                        out.append(('removing %s %s %s' % (a, b, q), c))
                return out
            x.cands = cands
        r = f.go(lib.fn('remove', 'list'), [l, P.fn()])
        if not isinstance(r, StructO):
            raise Unsupported('pair')
        if f.small:
            xs = f.items(l)
            i = next((i for i, v in enumerate(xs) if ctx.decide(P.r(v))), None)
            f.islist(r.f['first'], xs if i is None else xs[:i] + xs[i + 1:], 'the list without its first match, in order')
            f.isopt(r.f['second'], i is not None, xs[i] if i is not None else 0, 'the first match')
            return
        rem(x, l)
        revrule(x, L.nil, Rem(l))
        x.ob('the list without its first match, in order', simp(r.f['first'] == Rem(l)))
        f.isopt(r.f['second'], Has(l), Fst(l), 'the first match')
    elif which == 'find':
        l = f.list()
        P = U('pred', 1, 'bool', pure=True)
        d = lib.fn('find', 'list')
        if f.small:
            r = f.go(d, [l, P.fn()])
            xs = f.items(l)
            i = next((i for i, v in enumerate(xs) if ctx.decide(P.r(v))), None)
            f.isopt(r, i is not None, xs[i] if i is not None else 0, 'the first match')
            return

        def contract(z, a):
            return EnumV('option', 'Some', [Fst(a[0])]) if z.ctx.decide(Has(a[0])) else EnumV('option', 'None', [])
        x.contracts[d['_key']] = contract
        obs.contracts.add('find')
        r = f.go(d, [l, P.fn()])
        both(x, l, z3.Not(Has(l)), lambda h, t: z3.If(P.r(h), z3.And(Has(l), Fst(l) == h), z3.And(Has(l) == Has(t), Fst(l) == Fst(t))))
        f.isopt(r, Has(l), Fst(l), 'the first match')
    elif which == 'foreach':
        l = f.list()
        G = U('f', 1, 'nothing')
        d = lib.fn('foreach', 'list')
        if f.small:
            f.go(d, [l, G.fn()])
            w = w0
            for v in f.items(l):
                w = G.eff(w, v)
            f.effect(w)
            return

        def contract(z, a):
            z.world = FE(a[0], z.world)
        x.contracts[d['_key']] = contract
        obs.contracts.add('foreach')

        def rule(z, t, w):
            both(z, t, FE(t, w) == w, lambda h, r: FE(t, w) == FE(r, G.eff(w, h)))

        def cands(y, st):
            out = flags(st, listvars(st))
            for q in listvars(st):
                e = st['entry'][q]

                def c(z, q=q, e=e):
                    rule(z, e, w0)
                    rule(z, z.now(q), z.world)
                    return FE(z.now(q), z.world) == FE(e, w0)
                out.append(('foreach over %s' % (q,), c))
            return out
        x.cands = cands
        f.go(d, [l, G.fn()])
        rule(x, l, w0)
        f.effect(FE(l, w0))
    elif which == 'map':
        l = f.list()
        G = U('f', 1)
        d = lib.fn('map', 'list')
        if f.small:
            r = f.go(d, [l, G.fn()])
            w, out = w0, []
            for v in f.items(l):
                out.append(G.res(w, v))
                w = G.eff(w, v)
            f.islist(r, out, 'the results in order')
            f.effect(w)
            return

        def contract(z, a):
            w = z.world
            z.world = MW(a[0], w)
            return MR(a[0], w)
        x.contracts[d['_key']] = contract
        obs.contracts.add('map')
        r = f.go(d, [l, G.fn()])
        both(x, l, z3.And(MR(l, w0) == L.nil, MW(l, w0) == w0), lambda h, t: z3.And(MR(l, w0) == L.cons(G.res(w0, h), MR(t, G.eff(w0, h))), MW(l, w0) == MW(t, G.eff(w0, h))))
        x.ob('the results in order', simp(r == MR(l, w0)))
        f.effect(MW(l, w0))
    elif which == 'reduce':
        l, acc = f.list(), ctx.int('acc')
        G = U('f', 2)
        d = lib.fn('reduce', 'list')
        if f.small:
            r = f.go(d, [l, acc, G.fn()])
            w, a = w0, acc
            for v in f.items(l):
                a, w = G.res(w, a, v), G.eff(w, a, v)
            x.ob('the function folded over the elements from the left', simp(r == a))
            f.effect(w)
            return

        def contract(z, a):
            w = z.world
            z.world = RW(a[0], a[1], w)
            return RR(a[0], a[1], w)
        x.contracts[d['_key']] = contract
        obs.contracts.add('reduce')

        def rule(z, t, a, w):
            both(z, t, z3.And(RR(t, a, w) == a, RW(t, a, w) == w), lambda h, r: z3.And(RR(t, a, w) == RR(r, G.res(w, a, h), G.eff(w, a, h)), RW(t, a, w) == RW(r, G.res(w, a, h), G.eff(w, a, h))))

        def cands(y, st):
            out = flags(st, listvars(st))
            for q in listvars(st):
                for a in [q2 for q2, v in st['keys'].items() if q2[0] == 'v' and isint(v[0]) and q2 not in st['delta']]:
                    e, ea = st['entry'][q], st['entry'][a]

                    def c(z, q=q, e=e, a=a, ea=ea):
                        rule(z, e, ea, w0)
                        rule(z, z.now(q), z.now(a), z.world)
                        return z3.And(RR(z.now(q), z.now(a), z.world) == RR(e, ea, w0), RW(z.now(q), z.now(a), z.world) == RW(e, ea, w0))
                    out.append(('reduce over %s %s' % (q, a), c))
            return out
        x.cands = cands
        r = f.go(d, [l, acc, G.fn()])
        rule(x, l, acc, w0)
        x.ob('the function folded over the elements from the left', simp(r == RR(l, acc, w0)))
        f.effect(RW(l, acc, w0))


@caught
def options(ctx, obs, lib, sec, which):
    f = F(ctx, obs, lib, sec, 'all')
    x, w0 = f.X, f.w
    v = ctx.int('v')
    some = ctx.choose(2) == 0
    o = EnumV('option', 'Some', [v]) if some else EnumV('option', 'None', [])
    if which in ('isSome', 'isNone'):
        r = f.go(lib.fn(which, 'option'), [o])
        x.ob('tells the case', simp(r == (some == (which == 'isSome'))) if not isinstance(r, bool) else r == (some == (which == 'isSome')))
        f.effect(w0)
    elif which == 'filter':
        P = U('pred', 1, 'bool')
        r = f.go(lib.fn('filter', 'option'), [o, P.fn()])
        f.isopt(r, P.res(w0, v) if some else False, v, 'kept exactly when the predicate holds')
        f.effect(P.eff(w0, v) if some else w0)
    elif which == 'orElse':
        d = ctx.int('d')
        r = f.go(lib.fn('orElse', 'option', n=2), [o, d])
        x.ob('the value, or the other', simp(r == (v if some else d)))
        f.effect(w0)
    elif which == 'map':
        G = U('f', 1)
        r = f.go(lib.fn('map', 'option'), [o, G.fn()])
        f.isopt(r, some, G.res(w0, v), 'the result of the function')
        f.effect(G.eff(w0, v) if some else w0)
    elif which == 'peek':
        G = U('f', 1, 'nothing')
        r = f.go(lib.fn('peek', 'option'), [o, G.fn()])
        f.isopt(r, some, v, 'the option itself')
        f.effect(G.eff(w0, v) if some else w0)
    obs_same(f, o, v, some)


def obs_same(f, o, v, some):
    f.X.ob('the option is unchanged', o.case == ('Some' if some else 'None') and (not some or same(o.f[0], v)))


@caught
def results(ctx, obs, lib, sec, which):
    f = F(ctx, obs, lib, sec, 'all')
    x, w0 = f.X, f.w
    v = ctx.int('v')
    ok = ctx.choose(2) == 0
    o = EnumV('result', 'Ok' if ok else 'Err', [v])

    def isres(r, c, val, name):
        if not isinstance(r, EnumV) or r.enum != 'result':
            raise Unsupported('result')
        x.ob(name + ': the case', simp(c if r.case == 'Ok' else NOT(c)))
        x.ob(name + ': the value', simp(term(r.f[0]) == val))
    if which == 'map':
        G = U('f', 1)
        r = f.go(lib.fn('map', 'result'), [o, G.fn()])
        isres(r, ok, G.res(w0, v) if ok else v, 'the result of the function, or the error')
        f.effect(G.eff(w0, v) if ok else w0)
    elif which == 'then':
        G = U('f', 1, 'result')
        r = f.go(lib.fn('then', 'result'), [o, G.fn()])
        isres(r, G.case(w0, v) if ok else False, G.res(w0, v) if ok else v, 'what the function gives, or the error')
        f.effect(G.eff(w0, v) if ok else w0)
    elif which == 'peek':
        G = U('f', 1, 'option')
        r = f.go(lib.fn('peek', 'result'), [o, G.fn()])
        e = G.res(w0, v)
        if ok:
            isres(r, NOT(G.case(w0, v)), ITE(G.case(w0, v), e, v), 'the result, or the error of the function')
        else:
            isres(r, False, v, 'the error')
        f.effect(G.eff(w0, v) if ok else w0)
