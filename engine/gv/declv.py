"""Contracts of the passes over declarations (C04 - C07): symbol tables, type expressions, function signatures, the top level, constructors,
the rule for missing returns, and the order of the passes."""
import z3
from .ssa import *
from .semv import *


def start(ctx, obs, p, sect):
    R = Rule(ctx, obs, p, sect)
    return R, R.I


def ident_(v):
    return id(force(v.c, v.k))


# ------------------------------------------------------------------ symbol tables (C07)
class Names:
    """the names of one scope: an unknown map from names to symbols"""
    def __init__(self, R, only=None):
        self.R, self.m = R, MapV(None)
        self.known = {}
        self.m.unknown = self.look

    def look(self, k):
        key = k if isinstance(k, str) else k.t.get_id()
        if key not in self.known:
            self.known[key] = self.R.newsym('declared', Name=k) if self.R.ctx.choose(2) else None
        s = self.known[key]
        return (s, s is not None)


@cut
def symtab(ctx, obs, p, sect, what):
    R, I = start(ctx, obs, p, sect)
    for n in ('Resolve', 'Define', 'Child'):
        I.stubs.pop('(*main.SymTab).' + n, None)
    ob = lambda n, c, info='': R.ob('scope', n, c, info)
    run = lambda f, *a: I.run(p.funcs['(*main.SymTab).' + f], list(a), ())
    names = Names(R)
    name = SStr(ctx.int('name'))
    parent = I.new('main.SymTab', symbols=Names(R).m) if ctx.choose(2) else None
    st = I.new('main.SymTab', symbols=names.m, parent=parent)
    here = lambda: names.look(name)[0]
    if what == 'Define':
        s = R.newsym('new', Name=name)
        r, found = run('Define', st, s)
        old = here()
        stored = [(k, v) for k, v in names.m.entries()]
        if old is not None:
            ob('a-declared-name-is-reported', z3.BoolVal(found) if isinstance(found, bool) else found)
            ob('the-first-declaration-is-returned-and-stays', r == old and not stored)
        else:
            ob('a-new-name-is-not-reported', z3.Not(z3.BoolVal(found) if isinstance(found, bool) else found))
            ob('a-new-name-is-declared', r == s and len(stored) == 1 and stored[0][1] == s and I.eq(stored[0][0], name))
    elif what == 'Resolve':
        up = {}

        def rec(I, a):
            if a[0] == st:
                raise Unsupported('recursion on the same scope')
            up['v'] = (R.newsym('outer'), True) if ctx.choose(2) else (None, False)
            up['a'] = a
            return up['v']
        I.stubs['(*main.SymTab).Resolve'] = rec
        obs.contracts.add('(*main.SymTab).Resolve')
        gone = []

        def loop(I, fr, b, pr, blk):
            if fr.loops[b] < 2:
                return
            ptrs = [fr.r[d] for d, _, _c in blk.phis if isinstance(fr.r[d], Ptr) or fr.r[d] is None]
            if len(blk.phis) != 1 or len(ptrs) != 1:
                raise Unsupported('more than the scope changes in the loop')
            if ptrs[0] is None:
                return
            ob('other-names-are-looked-up-in-the-enclosing-scope', here() is None and ptrs[0] == parent)
            raise StopPath('next scope')
        I.loophooks[('(*main.SymTab).Resolve', '*')] = loop
        s, found = run('Resolve', st, name)
        if here() is not None:
            ob('the-innermost-declaration-is-found', s == here() and found is True)
        elif parent is None:
            ob('an-undeclared-name-is-not-found', found is False)
        else:
            ob('other-names-are-looked-up-in-the-enclosing-scope', bool(up) and up['a'][0] == parent and I.eq(up['a'][1], name) and found is up['v'][1] and (not found or s == up['v'][0]))
    elif what == 'ResolveAll':
        # the scope in which the search starts is arbitrary, so it is enough to look at one step and at what is passed on
        good = {}

        def pred(I, a):
            k = ident_(a[0])
            good[k] = ctx.bool('accepted') if k not in good else good[k]
            return good[k]

        up = {}

        def rec(I, a):      # in case it recurs
            up['v'] = (R.newsym('outer'), True) if ctx.choose(2) else (None, False)
            up['a'] = a
            return up['v']
        I.stubs['(*main.SymTab).ResolveAll'] = rec
        st0 = st

        def loop(I, fr, b, pr, blk):
            if fr.loops[b] < 2:
                return
            ptrs = [fr.r[d] for d, _, _c in blk.phis]
            if len(ptrs) != 1:
                raise Unsupported('more than the scope changes in the loop')
            h = here()
            ob('the-search-goes-on-in-the-enclosing-scope-of-a-scope-without-it', z3.And(z3.BoolVal(ptrs[0] == parent), z3.Not(good[ident_(h)]) if h is not None else z3.BoolVal(True)))
            raise StopPath('next scope')
        I.loophooks[('(*main.SymTab).ResolveAll', '*')] = loop
        s, found = run('ResolveAll', st, name, PyFunc(pred))
        h = here()
        if up:
            ob('the-search-goes-on-in-the-enclosing-scope-of-a-scope-without-it', z3.And(z3.BoolVal(up['a'][0] == parent and (s, found) == up['v']), z3.Not(good[ident_(h)]) if h is not None else z3.BoolVal(True)))
        elif found is True:
            ob('what-is-found-is-declared-here-and-accepted', z3.And(z3.BoolVal(h is not None and s == h), good[ident_(h)]) if h is not None else z3.BoolVal(False))
        elif found is False:
            ob('what-is-declared-and-accepted-is-found', z3.And(z3.BoolVal(parent is None), z3.Not(good[ident_(h)]) if h is not None else z3.BoolVal(True)))
        else:
            raise Unsupported('result')
    elif what == 'Owns':
        s = R.newsym('asked', Name=name)
        if ctx.choose(2):
            names.known[name.t.get_id()] = s
        r = run('Owns', st, s)
        ob('a-scope-owns-exactly-the-symbols-declared-in-it', (z3.BoolVal(r) if isinstance(r, bool) else r) == z3.BoolVal(here() is not None and here() == s))
    elif what == 'Child':
        c = run('Child', st)
        ob('a-child-scope-is-new-empty-and-inside', c is not None and c != st and c != parent and I.getf(c, 'parent') == st and I.getf(c, 'symbols') is not None
           and I.getf(c, 'symbols') is not names.m and not list(I.getf(c, 'symbols').entries()))
        ob('the-scope-itself-stays', I.getf(st, 'parent') == parent and I.getf(st, 'symbols') is names.m and not list(names.m.entries()))
    elif what == 'MustResolve':
        v = (R.newsym('outer'), True) if ctx.choose(2) else (None, False)
        I.stubs['(*main.SymTab).Resolve'] = lambda I, a: v
        try:
            s = run('MustResolve', st, name)
        except GoPanic:
            ob('a-declared-name-is-found', not v[1])
            return
        ob('the-declaration-found-is-returned', v[1] and s == v[0])


# ------------------------------------------------------------------ type expressions (C04)
def typeexpr(R, op, name='type'):
    return R.node(op, expr=False, name=name)


def istypepred(R, f):
    """the predicate accepts exactly type symbols"""
    I = R.I
    for v in (True, False):
        s = R.newsym('any', IsType=v)
        r = I.callv(f, [s])
        R.ob('identity', 'a-type-name-denotes-a-type', (r is v) if isinstance(r, bool) else (r if v else z3.Not(r)))


class TypeExpr:
    def __init__(self, R, op):
        self.R, self.I, self.op = R, R.I, op
        ctx = R.ctx
        self.memo = {}
        self.args = self.tl = self.ret = None
        mk = lambda i: R.node(expr=False, name='part[%s]' % i, ops=['opNamedType', 'opFuncType', 'opArrayType'])
        n = self.n = typeexpr(R, op)
        if op == 'opNamedType':
            if ctx.choose(2):
                self.args = R.lst('type args', mk)
                self.I.setf(n, 'left', R.node('opTypeList', expr=False, params=self.args, name='typelist'))
        elif op == 'opArrayType':
            self.ret = mk('elem')
            self.I.setf(n, 'left', self.ret)
        else:
            self.args = R.lst('params', mk)
            self.I.setf(n, 'stmts', self.args)
            if ctx.choose(2):
                self.ret = mk('ret')
                self.I.setf(n, 'left', self.ret)
        self.st = self.I.new('main.SymTab')
        self.sym = None
        self.seen = []

    def resolveall(self, I, a):
        R = self.R
        R.ob('scope', 'a-type-name-is-looked-up-in-the-current-scope', a[0] == self.st and R.ctx.valid(I.eq(a[1], I.getf(I.getf(self.n, 'token'), 'Val')))[0] is True)
        istypepred(R, a[2])
        if R.ctx.choose(2) == 0:
            return (None, False)
        self.sym = R.newsym('named', IsType=True, Type=R.newtype('named', kinds=[k for k in KINDS if k not in ('Function', 'Array')]))
        return (self.sym, True)

    def part(self, c):
        """what a part denotes: a type or nothing"""
        k = ident_(c)
        if k not in self.memo:
            self.memo[k] = (z3.Bool(self.R.ctx.fresh('ok')), self.R.newtype('part'))
        return self.memo[k]

    def parts(self):
        return ([self.part(x) for x in self.args.xs] if self.args else []) + ([self.part(self.ret)] if self.ret else [])

    def rule(self):
        R = self.R
        out = [ok for ok, _ in self.parts()]
        if self.op == 'opNamedType':
            out.append(z3.BoolVal(self.sym is not None))
        if self.args:
            out.append(z3.Or(self.args.full(), R.resto(self.args)))
        return out


@cut
def createtype(ctx, obs, p, sect, op):
    R, I = start(ctx, obs, p, sect)
    X = TypeExpr(R, op)
    I.stubs['(*main.SymTab).ResolveAll'] = X.resolveall

    def rec(I, a):
        if a[1] == X.n:
            raise Unsupported('recursion on itself')
        R.ob('scope', 'parts-of-a-type-are-looked-up-in-the-same-scope', a[0] == X.st)
        ok, t = X.part(a[1])
        if ctx.decide(ok):
            return (t, None)
        return (None, R.mkerr())
    I.stubs['main.createType'] = rec
    obs.contracts.update(['(*main.SymTab).ResolveAll', 'main.createType'])
    t, err = I.run(p.funcs['main.createType'], [X.st, X.n], ())
    rule = z3.And(X.rule())
    if err is not None:
        R.ob('identity', 'a-type-whose-parts-exist-exists', z3.Not(rule))
        return
    R.ob('identity', 'a-type-exists-only-if-all-its-parts-do', rule)
    result(R, X, t, named=lambda: t == I.getf(X.sym, 'Type'))


def result(R, X, t, named):
    I = R.I
    if t is None:
        R.ob('identity', 'a-type-expression-denotes-a-type', False)
        return
    if X.op == 'opNamedType':
        R.ob('identity', 'a-name-denotes-its-type', named())
    elif X.op == 'opArrayType':
        R.ob('identity', 'an-array-type-has-its-element-type', R.kindof(t) == 'Array' and elem(R, t) == X.part(X.ret)[1])
    else:
        R.ob('identity', 'a-function-type-is-one', R.kindof(t) == 'Function')
        f = I.getf(t, 'Data').v
        R.ob('identity', 'a-function-type-has-its-parameters-in-order', z3.And(X.args.full(), z3.BoolVal(aslist(I.getf(f, 'Params')) == [X.part(x)[1] for x in X.args.xs])))
        want = X.part(X.ret)[1] if X.ret else I.gget('main.nothingType')
        R.ob('identity', 'a-function-type-has-its-result', I.getf(f, 'ret') == want)


@cut
def instantiate(ctx, obs, p, sect, op):
    R, I = start(ctx, obs, p, sect)
    X = TypeExpr(R, op)
    I.stubs['(*main.SymTab).ResolveAll'] = X.resolveall
    cell = Ptr([None], 0)

    def rec(I, a):
        if a[1] == X.n:
            raise Unsupported('recursion on itself')
        R.ob('scope', 'parts-of-a-type-are-looked-up-in-the-same-scope', a[0] == X.st)
        ok, t = X.part(a[1])
        if ctx.decide(ok):
            # a part without errors of its own yields its type unless there are errors already
            return t
        store(a[2], Errs.of(I, load(a[2])).gv_append(I, Errs(some=True)))
        return None
    I.stubs['main.instantiateType'] = rec
    subs = []

    def substitute(I, a):
        r = R.newtype('instance')
        subs.append((a[0], {ident_(k): v for k, v in a[1].entries()}, r))
        return r
    I.stubs['main.substituteType'] = substitute
    obs.contracts.update(['(*main.SymTab).ResolveAll', 'main.instantiateType', 'main.substituteType'])
    R.loopkey = lambda: (Errs.of(I, load(cell)).bad(),)
    t = I.run(p.funcs['main.instantiateType'], [X.st, X.n, cell], ())
    errs = Errs.of(I, load(cell))
    rule = X.rule()
    types = None
    if op == 'opNamedType' and X.args is not None and X.sym is not None:
        T = I.getf(X.sym, 'Type')
        if R.kindof(T) in ('Struct', 'Enum'):
            types = I.getf(I.getf(T, 'Data').v, 'Types')
            rule += [types.n > 0, types.n == X.args.n]
        else:
            rule.append(z3.BoolVal(False))
    if errs.bad():
        R.ob('identity', 'a-type-whose-parts-exist-exists', z3.Not(z3.And(rule)))
        return
    R.ob('identity', 'a-type-exists-only-if-all-its-parts-do', z3.And(rule))

    def named():
        T = I.getf(X.sym, 'Type')
        if X.args is None:
            return t == T
        want = {ident_(types.at(i)): X.part(x)[1] for i, x in enumerate(X.args.xs)}
        return z3.And(X.args.full(), z3.BoolVal(len(subs) == 1 and subs[0][0] == T and subs[0][1] == want and t == subs[0][2]))
    result(R, X, t, named)


@cut
def instfields(ctx, obs, p, sect, what):
    """the declared type of every field, parameter and result is the one its type expression denotes"""
    R, I = start(ctx, obs, p, sect)
    st = I.new('main.SymTab')
    memo, order = {}, []

    def rec(I, a):
        k = ident_(a[1])
        R.ob('scope', 'declared-types-are-looked-up-in-the-scope-of-the-declaration', a[0] == st)
        if k not in memo:
            memo[k] = (z3.Bool(ctx.fresh('ok')), R.newtype('inst'))
        order.append(k)
        if ctx.decide(memo[k][0]):
            return memo[k][1]
        store(a[2], Errs.of(I, load(a[2])).gv_append(I, Errs(some=True)))
        return None
    I.stubs['main.instantiateType'] = rec
    obs.contracts.add('main.instantiateType')
    L = R.lst('members', lambda i: R.node('opIdentifier', name='member', sym=R.newsym('member', Type=R.newtype('raw')), left=R.node('opNamedType', expr=False, name='type')))
    ret = None
    if what == 'fields':
        n = R.node('opStructDcl', expr=False, stmts=L, symtab=st, name='n')
        r = I.run(p.funcs['main.instantiateFieldTypes'], [n], ())
    else:
        ret = R.node('opNamedType', expr=False, name='ret') if ctx.choose(2) else None
        old = R.newtype('old')
        params = Lst(R, 'params', lambda i: R.newtype('raw'), n=L.n)
        f = R.newfn('fn', params=params)
        I.setf(f, 'ret', old)
        ft = I.new('main.Type', Kind=R.K['Function'], Data=IfaceV(p.ptr_to[p.by_name['main.FunctionType']], f))
        n = R.node('opBlockFnDcl', expr=False, params=L, left=ret, symtab=st, sym=R.newsym('fn', Type=ft), name='n')
        r = I.run(p.funcs['main.instantiateFunctionTypes'], [n], ())
    errs = Errs.of(I, r)
    tx = lambda x: ident_(I.getf(x, 'left'))
    oks = [memo[tx(x)][0] if tx(x) in memo else z3.BoolVal(False) for x in L.xs] + ([memo[ident_(ret)][0] if ret and ident_(ret) in memo else z3.BoolVal(ret is None)])
    rule = z3.And(oks + [z3.Or(L.full(), R.resto(L))])
    if errs.bad():
        R.ob('identity', 'declarations-whose-types-exist-are-accepted', z3.Not(rule))
        return
    R.ob('identity', 'declared-types-exist', rule)
    R.ob('identity', 'every-member-gets-the-type-it-declares', z3.And(L.full(), z3.BoolVal(all(I.getf(I.getf(x, 'sym'), 'Type') == memo[tx(x)][1] for x in L.xs if tx(x) in memo))))
    if what == 'function':
        R.ob('identity', 'the-function-type-has-the-declared-parameter-types', all(params.at(i) == memo[tx(x)][1] for i, x in enumerate(L.xs) if tx(x) in memo))
        R.ob('identity', 'the-function-type-has-the-declared-result', I.getf(f, 'ret') == (memo[ident_(ret)][1] if ret else old))


# ------------------------------------------------------------------ function declarations
@cut
def signature(ctx, obs, p, sect, op, nparams=None):
    """processFnType"""
    R, I = start(ctx, obs, p, sect)
    st, child = I.new('main.SymTab'), I.new('main.SymTab')
    local = op in ('opBlockFnDcl', 'opExprFnDcl') and bool(ctx.choose(2))
    tps = R.lst('type parameters', lambda i: R.node('opNamedType', expr=False, name='T')) if nparams is None and ctx.choose(2) else None
    mkp = lambda i: R.node('opIdentifier', name='param', left=R.node('opNamedType', expr=False, name='param type'))
    ps = R.lst('params', mkp) if nparams is None else R.lst('params', mkp, n=nparams)
    if tps is not None:
        ctx.assume(ps.n <= 1)
    ret = R.node('opNamedType', expr=False, name='result type') if ctx.choose(2) else None
    tok = R.token(**({'Val': 'fn'} if local else {}))
    if not local:
        ctx.assume(z3.Not(I.eq(I.getf(tok, 'Val'), 'fn')))
    n = R.node(op, expr=False, params=ps, left=ret, token=tok, name='n', right=R.node('opTypeList', expr=False, params=tps, name='types') if tps else None)
    allow = bool(ctx.choose(2))
    given = [R.newtype('T', kinds=['Parameter']) for _ in range(ctx.choose(2) if tps is None else 1)]
    symname = SStr(ctx.int('symbol name'))
    old = []

    def ondefine(s, sym):
        if s == st:
            if ctx.choose(2):
                o = R.newsym('earlier', chain=2)
                old.append((o, chain(I, o)))
                return o
            return None
        return R.newsym('same name') if ctx.choose(2) else None
    R.ondefine = ondefine
    memo = {}

    def create(I, a):
        R.ob('scope', 'parameter-and-result-types-are-looked-up-in-the-scope-of-the-function', a[0] == child)
        k = ident_(a[1])
        if k not in memo:
            memo[k] = (bool(ctx.choose(2)), R.newtype('declared'), len(R.defined))
        return (memo[k][1], None) if memo[k][0] else (None, R.mkerr())
    I.stubs['main.createType'] = create
    term = z3.Bool(ctx.fresh('terminates'))
    asked = []

    def terminating(I, a):
        asked.append(a[0])
        return term
    I.stubs['(*main.Node).isTerminating'] = terminating
    raw = ctx.bool('raw')
    I.stubs['(main.attributes).requiresRawValues'] = lambda I, a: raw
    obs.contracts.update(['main.createType', '(*main.Node).isTerminating'])
    f, err = I.run(p.funcs['main.processFnType'], [n, symname, st, child, I.slice(given), allow], ())
    ty = lambda x: memo.get(ident_(x))
    inchild = [d for d in R.defined if d[0] == child]
    inst = [d for d in R.defined if d[0] == st]
    rule = [z3.BoolVal(allow or not old)]
    cap = 5 if local else 6
    rule.append(z3.simplify(z3.IntVal(0) + ps.n <= cap))
    for L in (tps, ps):
        if L is not None:
            rule.append(z3.Or(L.full(), R.resto(L)))
    rule.append(z3.BoolVal(all(d[2] is None for d in inchild)))
    for x in ps.xs:
        t = ty(I.getf(x, 'left'))
        rule.append(z3.BoolVal(t[0]) if t else z3.Bool(ctx.fresh('not looked at')))
    rt = I.gget('main.nothingType')
    if ret:
        t = ty(ret)
        rule.append(z3.BoolVal(t[0]) if t else z3.Bool(ctx.fresh('not looked at')))
        if t and t[0]:
            rt = t[1]
    if op == 'opBlockFnDcl':
        rule.append(z3.Or(R.iskind(rt, 'Nothing'), term))
    if err is not None:
        R.ob('decl', 'a-declaration-that-obeys-the-rules-is-accepted', z3.Not(z3.And(rule)), 'allow=%s' % allow)
        R.ob('return', 'a-function-that-returns-is-not-rejected-for-a-missing-return', z3.Not(z3.And(rule)))
        return
    R.ob('decl', 'an-accepted-declaration-obeys-the-rules', z3.And(rule), 'local=%s' % local)
    if op == 'opBlockFnDcl':
        R.ob('return', 'a-function-with-a-result-ends-in-a-return', z3.Or(R.iskind(rt, 'Nothing'), z3.And(term, z3.BoolVal(n in asked))))
    # the symbol and its place among the overloads
    s = I.getf(n, 'sym')
    R.ob('overload', 'the-function-is-declared-once-in-the-given-scope', s is not None and len(inst) == 1 and inst[0][1] == s)
    if s is None:
        return
    R.ob('overload', 'the-function-has-its-name', I.eq(I.getf(s, 'Name'), symname))
    t = I.getf(s, 'Type')
    R.ob('decl', 'the-symbol-has-the-type-of-the-function', R.kindof(t) == 'Function' and I.getf(t, 'Data').v == f)
    R.ob('decl', 'a-function-is-global-and-a-value', z3.And(z3.BoolVal(I.getf(s, 'IsGlobal') is True), z3.BoolVal(I.getf(s, 'IsType') is False)))
    if old:
        o, ch = old[0]
        R.ob('overload', 'an-overload-is-added-after-the-earlier-ones', chain(I, o) == ch + [s])
    else:
        R.ob('overload', 'a-first-declaration-stands-alone', I.getf(s, 'Next') is None)
    # the signature
    R.ob('decl', 'the-body-has-the-given-scope', I.getf(n, 'symtab') == child)
    k = len(tps.xs) if tps else 0
    tt = aslist(I.getf(f, 'Types'))
    own = tt[len(given):]
    R.ob('decl', 'type-parameters-follow-the-given-ones-in-order', tt[:len(given)] == given and len(own) == k and (tps is None or ctx.valid(tps.full())[0] is True))
    R.ob('decl', 'type-parameters-and-parameters-are-declared-in-the-scope-of-the-function-in-order', len(inchild) == k + len(ps.xs))
    for i, x in enumerate(tps.xs if tps else []):
        if i < len(inchild) and i < len(own):
            d = inchild[i][1]
            R.ob('decl', 'a-type-parameter-is-a-type-of-its-own', I.getf(d, 'Type') == own[i] and R.kindof(own[i]) == 'Parameter' and I.getf(d, 'IsType') is True and own.index(own[i]) == i and own[i] not in given)
            R.ob('decl', 'a-type-parameter-has-its-name', I.eq(I.getf(d, 'Name'), I.getf(I.getf(x, 'token'), 'Val')))
    ff = aslist(I.getf(f, 'Params'))
    R.ob('decl', 'every-parameter-is-in-the-type', z3.And(ps.full(), z3.BoolVal(len(ff) == len(ps.xs))))
    for i, x in enumerate(ps.xs):
        if k + i < len(inchild) and i < len(ff) and ty(I.getf(x, 'left')):
            d = inchild[k + i][1]
            R.ob('decl', 'a-parameter-has-its-declared-type', I.getf(d, 'Type') == ty(I.getf(x, 'left'))[1] and ff[i] == ty(I.getf(x, 'left'))[1] and I.getf(x, 'sym') == d)
            R.ob('decl', 'a-parameter-has-its-name', I.eq(I.getf(d, 'Name'), I.getf(I.getf(x, 'token'), 'Val')))
            R.ob('decl', 'a-parameter-is-a-value', z3.And(z3.BoolVal(I.getf(d, 'IsType') is False), z3.BoolVal(I.getf(d, 'IsGlobal') is False)))
            R.ob('decl', 'type-parameters-are-declared-before-the-types-that-use-them', ty(I.getf(x, 'left'))[2] > k)
    R.ob('decl', 'the-result-is-the-declared-one', I.getf(f, 'ret') == rt)
    R.ob('decl', 'only-an-external-function-is-external', I.eq(I.getf(f, 'Kind'), p.const('main.External' if op == 'opExternFnDcl' else 'main.Normal')))
    R.ob('decl', 'raw-values-are-as-the-attributes-say', I.eq(I.getf(f, 'RawValues'), raw) if issym(I.getf(f, 'RawValues')) else z3.BoolVal(I.getf(f, 'RawValues')) == raw)


# ------------------------------------------------------------------ missing returns (C06)
LEAF = 'opWhile opFor opBlock opAs opDas opFuncCall opIdentifier opExprFnDcl opLit opAdd opDot opArray opElse opElseIf opTernary'.split()


@cut
def terminating(ctx, obs, p, sect, op, branches=0):
    R, I = start(ctx, obs, p, sect)
    STM = ['opReturn', 'opMatch', 'opIf', 'opBlockFnDcl'] + LEAF
    memo = {}

    def rec(I, a):
        k = ident_(a[0])
        if k in bodies:
            return last(bodies[k])
        if a[0] in nodes:
            if op == 'opIf' and a[0] in nodes[1:]:
                return I.run(p.funcs['(*main.Node).isTerminating'], [a[0]], ())      # the chain is finite: inlined
            raise Unsupported('recursion on the node itself')
        return tvar(a[0])

    def tvar(x):
        k = ident_(x)
        if k not in memo:
            memo[k] = z3.Bool(ctx.fresh('terminates'))
            # what the contract of a statement says about its kind
            ctx.assume(z3.Implies(R.isop(x, *LEAF), z3.Not(memo[k])))
            ctx.assume(z3.Implies(R.isop(x, 'opReturn'), memo[k]))
        return memo[k]
    mk = lambda i: R.node(expr=False, name='stmt', ops=STM)
    bodies = {}

    def mkcase(i):
        B = R.lst('case body', mk)
        c = R.node('opCase', expr=False, stmts=B, name='case')
        bodies[ident_(c)] = B
        return c
    L = R.lst('stmts', mkcase if op == 'opMatch' else mk)
    n = R.node(op, expr=False, stmts=L, name='n')
    nodes, lists = [n], [L]
    if op == 'opIf':
        for i in range(branches):
            Li = R.lst('stmts of branch %d' % (i + 1), mk)
            b = R.node(None if i == branches - 1 else 'opElseIf', expr=False, stmts=Li, name='branch', ops=['opElseIf', 'opElse'])
            I.setf(nodes[-1], 'right', b)
            nodes.append(b)
            lists.append(Li)
    def stops(x):
        """the statement returns on every path (a function literal is not called)"""
        return z3.And(z3.Not(R.isop(x, 'opBlockFnDcl', 'opExprFnDcl')), tvar(x))

    def last(L):
        return z3.And(L.n > 0, stops(L.last()))
    I.stubs['(*main.Node).isTerminating'] = rec
    obs.contracts.add('(*main.Node).isTerminating')
    r = I.run(p.funcs['(*main.Node).isTerminating'], [n], ())
    if issym(r):
        r = ctx.decide(r)

    if op == 'opReturn':
        rule = z3.BoolVal(True)
    elif op in ('opCase', 'opBlockFnDcl'):
        rule = last(L)
    elif op == 'opMatch':
        rule = z3.And([L.n > 0] + [last(bodies[ident_(x)]) for x in L.xs] + [z3.Or(L.full(), R.resto(L))])
    elif op == 'opIf':
        rule = z3.And([R.isop(nodes[-1], 'opElse')] + [last(x) for x in lists])
    else:
        rule = z3.BoolVal(False)
    if r:
        R.ob('return', 'what-is-taken-to-return-returns-on-every-path', rule)
        if op == 'opMatch':
            R.ob('return', 'every-case-is-looked-at', L.full())
    else:
        R.ob('return', 'what-returns-on-every-path-is-taken-to', z3.Not(rule))


# ------------------------------------------------------------------ the top level
DECLS = ['opStructDcl', 'opEnumDcl', 'opBlockFnDcl', 'opExprFnDcl', 'opExternFnDcl']


@cut
def toplevel(ctx, obs, p, sect, kinds):
    """processTopLevelTypes on declarations of the given kinds"""
    R, I = start(ctx, obs, p, sect)
    root = I.new('main.SymTab')
    several = len(kinds) > 1
    small = lambda name, mk: R.lst(name, mk, n=ctx.choose(2 if several else 3))
    made = []
    for k in kinds:
        d = {'kind': k}
        if k in ('opStructDcl', 'opEnumDcl'):
            d['tps'] = small('type parameters', lambda i: R.node('opNamedType', expr=False, name='T'))
            d['mem'] = small('members', lambda i: R.node('opIdentifier', name='field', left=R.node('opNamedType', expr=False, name='field type'))) if k == 'opStructDcl' \
                else small('constructors', lambda i: R.node('opConsFnDcl', expr=False, name='constructor'))
            for L in (d['tps'], d['mem']):
                for i in range(L.n):
                    L.at(i)
            d['n'] = R.node(k, expr=False, params=I.slice(d['tps'].xs), stmts=I.slice(d['mem'].xs), name='decl')
        else:
            d['n'] = R.node(k, expr=False, name='function')
        made.append(d)
    rootnode = R.node('opRoot', expr=False, stmts=I.slice([d['n'] for d in made]), symtab=root, name='root')
    tn = {}
    I.stubs['(*main.Node).typeName'] = lambda I, a: tn.setdefault(ident_(a[0]), SStr(ctx.int('typename')))
    bad = []
    budget = [1 if several else 2]

    def fail(what):
        if budget[0] and ctx.choose(2):
            budget[0] -= 1
            bad.append(what)
            return True
        return False
    R.ondefine = lambda s, sym: R.newsym('earlier') if fail('redeclared') else None
    procs, creates, insts = [], [], []

    def process(I, a):
        n, name, st, child, types, allow = a
        if fail('signature'):
            procs.append((a, None))
            return (None, R.mkerr())
        np_ = ctx.pick([0, 5, 6]) if p.const('main.opConsFnDcl') == I.getf(n, 'op') else 1
        f = R.newfn('f', params=I.slice([R.newtype('p') for _ in range(np_)]), fkind=p.const('main.Normal'))
        if np_ > 5:
            bad.append('too many')
        procs.append((a, f))
        I.setf(n, 'sym', R.newsym('fn', Type=R.newtype('fn', kinds=['Function'])))
        I.setf(n, 'symtab', child)
        return (f, None)

    def create(I, a):
        if fail('type'):
            creates.append((a, None))
            return (None, R.mkerr())
        t = R.newtype('field')
        creates.append((a, t))
        return (t, None)

    def inst(what):
        def f(I, a):
            insts.append((what, a[0]))
            return Errs(some=True) if fail(what) else None
        return f
    I.stubs.update({'main.processFnType': process, 'main.createType': create, 'main.instantiateFieldTypes': inst('fields'), 'main.instantiateFunctionTypes': inst('function')})
    obs.contracts.update(['main.processFnType', 'main.createType', 'main.instantiateFieldTypes', 'main.instantiateFunctionTypes'])
    r = I.run(p.funcs['main.processTopLevelTypes'], [rootnode, root], ())
    errs = Errs.of(I, r)
    ob = lambda n, c, info='', g='decl': R.ob(g, n, c, info)
    ob('an-error-in-a-declaration-is-reported-and-nothing-else-is', errs.bad() == bool(bad), bad)
    if errs.bad():
        return
    intop = [d for d in R.defined if d[0] == root]
    ob('every-declaration-is-declared-once-in-order', len(intop) == len(made), g='scope')
    npr = 0
    expect = []
    for d, (sc, sym, _) in zip(made, intop):
        n, k = d['n'], d['kind']
        ob('a-declaration-is-known-by-its-name', sym is not None and tn.get(ident_(n)) is not None and I.eq(I.getf(sym, 'Name'), tn[ident_(n)]), g='scope')
        ob('a-declaration-is-a-global-type-name', I.getf(sym, 'IsType') is True and I.getf(sym, 'IsGlobal') is True, g='scope')
        if k in ('opStructDcl', 'opEnumDcl'):
            st = I.getf(n, 'symtab')
            ob('a-type-declaration-is-a-scope-of-its-own', st is not None and st != root and R.parent(st) == root, g='scope')
            mine = [x for x in R.defined if x[0] == st]
            T = I.getf(sym, 'Type')
            ob('the-symbol-has-the-declared-kind', I.getf(n, 'sym') == sym and R.kindof(T) == ('Struct' if k == 'opStructDcl' else 'Enum'))
            D = I.getf(T, 'Data').v
            ob('the-type-has-its-name', I.eq(I.getf(D, 'Name'), I.getf(I.getf(n, 'token'), 'Val')))
            tt = aslist(I.getf(D, 'Types'))
            ob('type-parameters-are-declared-in-order', len(tt) == len(d['tps'].xs) and [I.getf(x[1], 'Type') for x in mine[:len(tt)]] == tt and len({ident_(x) for x in tt}) == len(tt)
               and all(R.kindof(x) == 'Parameter' for x in tt) and all(I.getf(x[1], 'IsType') is True for x in mine[:len(tt)]))
            for x, q in zip(d['tps'].xs, mine):
                ob('a-type-parameter-has-its-name', I.eq(I.getf(q[1], 'Name'), I.getf(I.getf(x, 'token'), 'Val')))
            if k == 'opStructDcl':
                F = aslist(I.getf(D, 'Fields'))
                ob('every-field-is-declared-in-order', len(F) == len(d['mem'].xs) and [x[1] for x in mine[len(tt):]] == F)
                for i, (x, q) in enumerate(zip(d['mem'].xs, F)):
                    c = [c for c in creates if c[0][1] == I.getf(x, 'left')]
                    ob('a-field-has-its-declared-type', len(c) == 1 and c[0][0][0] == st and I.getf(q, 'Type') == c[0][1] and I.getf(x, 'sym') == q)
                    ob('a-field-has-its-name', I.eq(I.getf(q, 'Name'), I.getf(I.getf(x, 'token'), 'Val')))
                expect.append(('fields', n))
            else:
                M = aslist(I.getf(D, 'Members'))
                mp = procs[npr:npr + len(d['mem'].xs)]
                npr += len(d['mem'].xs)
                ob('every-constructor-is-declared-in-order', [a[0] for a, f in mp] == d['mem'].xs and M == [f for a, f in mp])
                for i, (a, f) in enumerate(mp):
                    ob('a-constructor-is-a-global-function-that-cannot-be-overloaded', a[2] == root and a[5] is False and R.parent(a[3]) == st
                       and ctx.valid(I.eq(a[1], I.getf(I.getf(a[0], 'token'), 'Val')))[0] is True, g='overload')
                    ob('a-constructor-has-the-type-parameters-of-its-enum', aslist(a[4]) == tt)
                    ob('a-constructor-is-marked-with-its-position', f is not None and I.eq(I.getf(f, 'Kind'), p.const('main.EnumCons')) and I.getf(f, 'Data') is not None and I.getf(I.getf(f, 'Data').v, 'Tag') == i)
        else:
            a, f = procs[npr] if npr < len(procs) else (None, None)
            npr += 1
            ob('a-function-is-declared-in-the-global-scope-with-a-scope-of-its-own', a is not None and a[0] == n and a[2] == root and R.parent(a[3]) == root and a[5] is True and not aslist(a[4])
               and ctx.valid(I.eq(a[1], I.getf(I.getf(n, 'token'), 'Val')))[0] is True, g='overload')
            expect.append(('function', n))
    ob('no-other-function-is-declared', npr == len(procs))
    moved = [x for d in made if d['kind'] == 'opEnumDcl' for x in d['mem'].xs]
    ob('constructors-become-functions-of-the-program', aslist(I.getf(rootnode, 'stmts')) == [d['n'] for d in made] + moved)
    ob('the-types-of-every-declaration-are-instantiated-once', sorted((w, ident_(x)) for w, x in insts) == sorted([(w, ident_(x)) for w, x in expect] + [('function', ident_(x)) for x in moved]))


@cut
def structcons(ctx, obs, p, sect):
    """generateStructConstructor: a global function named after the struct, taking the fields in order"""
    R, I = start(ctx, obs, p, sect)
    st = I.new('main.SymTab')
    nf = ctx.pick([0, 1, 2, 6, 7])
    fields = [R.node('opIdentifier', name='field', sym=R.newsym('field')) for _ in range(nf)]
    tps = [R.newtype('T', kinds=['Parameter']) for _ in range(ctx.choose(2))]
    T = R.newtype('struct', kinds=['Struct'], types=I.slice(tps))
    name = ctx.pick(['pair', 'x', 'aB', 'Pair', '_p', '\u00e9t\u00e9'])
    lower = name[0] != name[0].upper()
    name, capital = (x.encode('utf-8').decode('latin-1') for x in (name, name[0].upper() + name[1:]))
    n = R.node('opStructDcl', expr=False, stmts=I.slice(fields), sym=R.newsym('struct', Type=T), token=R.token(Val=name), name='struct')
    kind = ctx.pick(['opBlockFnDcl', 'opConsFnDcl', 'opEnumDcl'])
    other = R.node(kind, expr=False, token=R.token(Val=capital), name='declaration')
    root = R.node('opRoot', expr=False, symtab=st, stmts=I.slice([n, other]), name='root')
    taken = bool(ctx.choose(2))
    asked = []

    def onresolve(s, nm):
        asked.append((s, nm))
        return (R.newsym('taken'), True) if taken else (None, False)
    R.onresolve = onresolve
    R.ondefine = lambda s, sym: None
    fs, err = I.run(p.funcs['main.generateStructConstructor'], [root, n], ())
    ob = lambda nm, c, info='': R.ob('decl', nm, c, info)
    ob('a-struct-has-a-constructor-unless-its-name-or-size-forbids-it', (err is None) == (lower and nf <= 6 and not taken), '%s %s %s' % (name, nf, taken))
    if err is not None:
        return
    want = capital
    ob('the-constructor-is-a-global-function', len(R.defined) == 1 and R.defined[0][0] == st and R.defined[0][1] == fs and I.getf(fs, 'IsGlobal') is True and I.getf(fs, 'Name') == want)
    t = I.getf(fs, 'Type')
    f = I.getf(t, 'Data').v
    ob('the-constructor-returns-the-struct', R.kindof(t) == 'Function' and I.getf(f, 'ret') == T and I.getf(f, 'Kind') == p.const('main.StructCons'))
    ob('the-constructor-has-the-type-parameters-of-the-struct', aslist(I.getf(f, 'Types')) == tps)
    ob('the-constructor-takes-the-fields-in-order', aslist(I.getf(f, 'Params')) == [I.getf(I.getf(x, 'sym'), 'Type') for x in fields])
    ss = aslist(I.getf(root, 'stmts'))
    ob('the-constructor-is-added-to-the-program', len(ss) == 3 and ss[:2] == [n, other] and I.getf(ss[2], 'op') == p.const('main.opConsFnDcl') and I.getf(ss[2], 'sym') == fs
       and [I.getf(I.getf(q, 'sym'), 'Type') for q in aslist(I.getf(ss[2], 'params'))] == [I.getf(I.getf(x, 'sym'), 'Type') for x in fields])


# ------------------------------------------------------------------ the order of the passes
@cut
def passes(ctx, obs, p, sect):
    """Compile: every pass runs over the whole program, in order; an error in any of them is returned and nothing is generated"""
    R, I = start(ctx, obs, p, sect)
    trace, bad = [], []
    budget = [2]
    text = lambda I, a: SStr(ctx.int('text'))
    for nm in ('path/filepath.Base', 'path/filepath.Ext', 'strings.TrimSuffix', 'os.TempDir', 'path/filepath.Join'):
        I.ext[nm] = text
    I.ext['io/ioutil.ReadFile'] = lambda I, a: (bytesof(I), None)
    I.ext['os.ReadFile'] = I.ext['io/ioutil.ReadFile']
    I.ext['os.Remove'] = lambda I, a: None

    def fail(what):
        trace.append(what)
        if budget[0] and ctx.choose(2):
            budget[0] -= 1
            bad.append(what)
            return True
        return False
    roots = []

    def lexparse(I, a):
        return Errs(some=True) if fail('parse') else None

    def top(I, a):
        roots.append(a[0])
        return Errs(some=True) if fail('declarations') else None

    def check(I, a):
        roots.append(a[0])
        return Errs(some=True) if fail('typecheck') else None

    def adds(what):
        def f(I, a):
            if fail(what):
                store(a[0], Errs.of(I, load(a[0])).gv_append(I, Errs(some=True)))
        return f

    def quiet(what):
        def f(I, a):
            trace.append(what)
        return f
    I.stubs.update({'main.lexAndParse': lexparse, 'main.processTopLevelTypes': top, 'main.typeCheck': check, 'main.generateStructConstructors': adds('constructors'),
                    'main.foldConstants': adds('constants'), 'main.rewriteAnonFnAndClosures': adds('closures'), 'main.rewriteArrayLiteralExpr': quiet('array literals'),
                    'main.lowerMatchStatement': quiet('match'), 'main.lowerForStatement': quiet('for'), 'main.stdSyms': lambda I, a: I.slice([R.newsym('std')])})
    R.ondefine = lambda s, sym: None
    some = R.node('opStructDcl', expr=False, name='some node')
    stm = R.node('opBlockFnDcl', expr=False, name='function', token=R.token(Val=ctx.pick(['f', 'invokeDynamic'])))

    def walk(I, a):
        n, f = a
        if n not in roots[:1] and n != stm:
            raise Unsupported('walk of another tree')
        trace.append(('walk', 'root' if n in roots[:1] else 'function'))
        I.callv(f, [some])
        return None
    I.stubs['main.WalkPostOrder'] = walk
    I.stubs['main.WalkPreOrder'] = lambda I, a: (I.callv(a[1], [None]), walk(I, a))[1]
    obs.contracts.update(['main.lexAndParse', 'main.processTopLevelTypes', 'main.typeCheck', 'main.generateStructConstructors', 'main.foldConstants', 'main.rewriteAnonFnAndClosures',
                          'main.WalkPostOrder', 'main.WalkPreOrder'])
    otop = I.stubs['main.processTopLevelTypes']

    def top2(I, a):
        r = otop(I, a)
        I.setf(a[0], 'stmts', I.slice([stm]))
        return r
    I.stubs['main.processTopLevelTypes'] = top2
    generated = []

    def create(I, a):
        generated.append(True)
        raise StopPath('generate')
    I.ext['os.Create'] = create
    nfiles = 1 + ctx.choose(2)
    opts = p.zero(p.by_name['main.options'])
    ob = lambda n, c, info='': R.ob('passes', n, c, info)
    try:
        r = I.run(p.funcs['main.Compile'], [opts, I.slice(['lib'] * (nfiles - 1)), 'prog', None, 'out', None], ())
        errs = Errs.of(I, r[1])
        ob('an-error-in-any-pass-is-returned', errs.bad())
        ob('a-program-without-errors-is-compiled', bool(bad), bad)
    except StopPath:
        if not generated:
            raise
        ob('no-code-is-generated-for-a-program-with-errors', not bad, bad)
        seq = [x for x in trace if isinstance(x, str)]
        closures = I.getf(I.getf(stm, 'token'), 'Val') == 'f'
        want = ['parse'] * nfiles + ['declarations', 'constructors', 'constants', 'typecheck', 'array literals', 'match', 'for'] + (['closures'] if closures else [])
        ob('every-pass-runs-once', sorted(seq) == sorted(want), seq)
        before = [('parse', 'declarations'), ('declarations', 'constructors'), ('constructors', 'typecheck'), ('constants', 'typecheck'), ('typecheck', 'array literals'), ('typecheck', 'match'),
                  ('typecheck', 'for')] + ([('typecheck', 'closures'), ('closures', 'match'), ('closures', 'for')] if closures else [])
        ob('passes-run-after-those-they-depend-on', all(seq.index(x) < seq.index(y) for x, y in before if x in seq and y in seq), seq)
        walks = [x[1] for x in trace if isinstance(x, tuple)]
        ob('every-pass-sees-the-whole-program', all(x == 'root' for i, x in enumerate(walks)) or walks.count('function') <= 1, walks)


def bytesof(I):
    return SliceV([0], 0, 1, 1) if False else I.slice([65])
