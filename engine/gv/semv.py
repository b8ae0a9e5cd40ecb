"""Contracts of the semantic passes (C04 - C07): types, binding, the typing rules, scopes.

typeCheck and its helpers are executed on one node of every kind whose children are unknown; a recursive call of typeCheck is replaced by its contract
(it reports errors or gives the node a type). What is proved for every node: no error is reported exactly when every child is free of errors and the
node's own rule holds, and the type given is the one the rule says; names are looked up and declared in the right scope. Lists have an unknown length;
loops over them are explored until the state repeats."""
import z3
from .ssa import *
from .cg import interp

KINDS = ['Struct', 'Enum', 'Function', 'Integer', 'Bytes', 'Boolean', 'String', 'Array', 'Parameter', 'Nothing', 'Pointer']
BASIC = ['Boolean', 'String', 'Nothing', 'Pointer', 'Integer', 'Bytes']
EXPROPS = 'opAnd opOr opAdd opMul opSub opDiv opBAnd opBOr opBXor opBLeft opBRight opRange opNot opBNot opNeg opLit opIdentifier opFuncCall opGt opGte opLt opLte opEq opBlockFnDcl opExprFnDcl opDot opArrayLit opArray opTernary'.split()
CAP = 2


class Errs:
    """a list of errors: what is known is whether it is empty"""
    def __init__(self, items=(), some=False):
        self.items, self.some = list(items), some

    def bad(self):
        return bool(self.items) or self.some

    def gv_len(self, I):
        if not self.some:
            return len(self.items)
        n = I.ctx.int('nerrs')
        I.ctx.assume(n >= 1 + len(self.items))
        return n

    def join(self, a, b):
        return Errs(a.items + b.items, a.some or b.some)

    @staticmethod
    def of(I, v):
        if v is None:
            return Errs()
        if isinstance(v, Errs):
            return v
        if isinstance(v, SliceV):
            return Errs(v.items())
        raise Unsupported('errors as %r' % (v,))

    def gv_append(self, I, xs):
        return self.join(self, Errs.of(I, xs))

    def gv_appendto(self, I, s):
        return self.join(Errs.of(I, s), self)

    def gv_eq(self, I, y):
        if y is None:
            return not self.bad()
        raise Unsupported('compare errors')

    def gv_indexaddr(self, I, k):
        if self.some:
            raise Unsupported('look at an error')
        return Ptr(self.items, I.index(k, len(self.items)))


class Lst:
    """a list of unknown length with unknown elements"""
    def __init__(self, S, name, mk, n=None, cap=None):
        self.S, self.name, self.mk = S, name, mk
        self.xs = []
        self.n = z3.Int(S.ctx.fresh('len ' + name)) if n is None else n
        if n is None:
            S.ctx.assume(self.n >= 0)
        if cap is not None:
            S.ctx.assume(self.n <= cap)

    def gv_len(self, I):
        return self.n

    def at(self, k):
        while len(self.xs) <= k:
            self.xs.append(self.mk(len(self.xs)))
        return self.xs[k]

    def gv_indexaddr(self, I, k):
        if issym(k):
            # an index counted from the end, as in x[len(x)-1]: one more unknown element
            if self.S.ctx.valid(k == self.n - 1)[0] is True:
                if I.ctx.decide(self.n < 1):
                    raise GoPanic('runtime error: index out of range')
                return Ptr([self.last()], 0)
            raise Unsupported('symbolic index')
        if k < 0 or not (I.ctx.decide(self.n > k) if issym(self.n) else self.n > k):
            raise GoPanic('runtime error: index out of range [%s]' % k)
        self.at(k)
        if I.stack and issym(self.n):
            d = self.S.access.setdefault(I.stack[-1], {})
            d[id(self)] = max(k, d.get(id(self), k))
        return Ptr(self.xs, k)

    def last(self):
        for k in range(len(self.xs)):
            if self.S.ctx.valid(self.n == k + 1)[0] is True:
                return self.xs[k]
        if self.xs:
            if self.S.ctx.decide(self.n == len(self.xs)):
                return self.xs[-1]
        if not hasattr(self, 'lst'):
            self.lst = self.mk('last')
        return self.lst

    def gv_appendto(self, I, s):
        return Cat([copyv(x) for x in I.items(s)], self)

    def gv_append(self, I, more):
        return Cat([], self, [copyv(x) for x in I.items(more)])

    def gv_eq(self, I, y):
        if y is None:
            return self.n == 0
        raise Unsupported('compare lists')

    def gv_slice(self, I, lo, hi, mx):
        if lo == 0 and hi is None:
            return self
        raise Unsupported('part of a list')

    # visited elements; everything else of the list is unknown
    def full(self):
        r = self.n == len(self.xs)
        return z3.BoolVal(r) if isinstance(r, bool) else r


class Cat:
    def __init__(self, pre, L, post=()):
        self.pre, self.L, self.post = pre, L, list(post)

    def gv_len(self, I):
        return self.L.n + len(self.pre) + len(self.post)

    def gv_indexaddr(self, I, k):
        if issym(k):
            raise Unsupported('symbolic index')
        if 0 <= k < len(self.pre):
            return Ptr(self.pre, k)
        return self.L.gv_indexaddr(I, k - len(self.pre))


class Acc:
    """a list being built; appended to, not read"""
    def __init__(self, xs):
        self.xs = list(xs)

    def gv_append(self, I, more):
        if isinstance(more, Acc):
            return Acc(self.xs + more.xs)
        return Acc(self.xs + [copyv(x) for x in I.items(more)])

    def gv_appendto(self, I, s):
        return Acc([copyv(x) for x in I.items(s)] + self.xs)

    def gv_len(self, I):
        return len(self.xs)

    def gv_indexaddr(self, I, k):
        return Ptr(self.xs, I.index(k, len(self.xs)))

    def gv_eq(self, I, y):
        if y is None:
            return False
        raise Unsupported('compare lists')


def aslist(v):
    if v is None:
        return []
    if isinstance(v, (Acc, Lst)):
        return v.xs
    if isinstance(v, SliceV):
        return v.items()
    raise Unsupported('list %r' % (v,))


class Sem:
    def __init__(self, ctx, obs, p, sect):
        self.ctx, self.obs, self.p, self.sect = ctx, obs, p, sect
        self.I = I = interp(p, ctx)
        self.K = {k: p.const('main.' + k) for k in KINDS}
        self.kindname = {v: k for k, v in self.K.items()}
        self.samemap, self.keep = {}, []
        self.events = []          # (node, symtab, fn)
        self.rule_errors = 0
        self.defined = []         # (symtab, symbol, was there already)
        self.scopes = {}          # id of symtab struct -> parent
        self.resolved = {}
        self.visits = {}
        self.nodes = {}
        self.access = {}          # frame -> index of the last access to a list of unknown length
        self.loopkey = lambda: ()
        I.newacc = lambda new: Errs(new) if new and all(isinstance(x, ErrVal) or (isinstance(x, IfaceV) and isinstance(x.v, ErrVal)) for x in new) else Acc(new)
        st = I.stubs
        self.err = lambda I, a: self.mkerr()
        for n in ('semanticError', 'semanticError2'):
            st['main.' + n] = self.err
        I.ext['errors.New'] = self.err
        for n in ('(*main.Type).String', '(*main.Symbol).Describe', '(*main.Node).Describe', '(*main.FunctionType).Describe'):
            st[n] = lambda I, a: SStr(ctx.int('text'))
        for n in ('fmt.Sprintf', 'fmt.Sprint', 'strings.Join'):
            I.ext[n] = lambda I, a: SStr(ctx.int('text'))
        I.ext['fmt.Printf'] = lambda I, a: (0, None)
        I.ext['math/rand.Uint32'] = lambda I, a: ctx.int('rand')
        st['main.printTypeInfo'] = lambda I, a: None
        st['(*main.Type).Matches'] = lambda I, a: self.same(a[0], a[1])
        st['main.typeCheck'] = self.typecheck
        st['(*main.SymTab).Resolve'] = self.resolve
        st['(*main.SymTab).Define'] = self.define
        st['(*main.SymTab).Child'] = self.child
        I.loophooks['*'] = self.loop
        for n in ('(*main.Type).Matches', 'main.typeCheck', '(*main.SymTab).Resolve', '(*main.SymTab).Define', '(*main.SymTab).Child'):
            obs.contracts.add(n)

    def ob(self, group, name, cond, info=''):
        if self.obs.want is None or group in self.obs.want:
            if callable(cond):
                cond = cond()
            self.obs.prove(self.ctx, '%s#%s' % (self.sect, name), cond, info)

    # ------------------------------------------------------------ contracts
    def mkerr(self):
        self.rule_errors += 1
        return ErrVal('error')

    def typecheck(self, I, a):
        n, symtab, fn, _ = a
        if n is None:
            raise GoPanic('typeCheck(nil)')
        c = self.nodes.get(id(force(n.c, n.k)))
        if c is None:
            raise Unsupported('type check of a node made here')
        self.events.append((c, symtab, fn, [d[0] for d in self.defined]))
        if c.get('check'):
            return c['check'](n, symtab, fn)
        if self.ctx.decide(c['ok']):
            if c['expr'] and I.getf(n, 'typ') is None:
                I.setf(n, 'typ', c['typ']())
            return None
        if c['expr'] and I.getf(n, 'typ') is None and self.ctx.choose(2) == 0:
            I.setf(n, 'typ', c['typ']())
        return Errs(some=True)

    def resolve(self, I, a):
        st, name = a
        if st is None:
            raise GoPanic('nil symtab')
        k = (id(force(st.c, st.k)), name if isinstance(name, str) else name.t.get_id())
        if k not in self.resolved:
            self.resolved[k] = self.onresolve(st, name)
        self.keep.append((st, name))
        return self.resolved[k]

    def onresolve(self, st, name):
        if self.ctx.choose(2) == 0:
            return (None, False)
        return (self.newsym('found', chain=True), True)

    def define(self, I, a):
        st, s = a
        if st is None:
            raise GoPanic('nil symtab')
        old = self.ondefine(st, s)
        self.defined.append((st, s, old))
        if old is None:
            return (s, False)
        return (old, True)

    def ondefine(self, st, s):
        if self.ctx.choose(2) == 0:
            return None
        return self.newsym('old', chain=False)

    def child(self, I, a):
        st = I.new('main.SymTab')
        self.scopes[id(force(st.c, st.k))] = a[0]
        self.keep.append(st)
        return st

    def parent(self, st):
        return self.scopes.get(id(force(st.c, st.k))) if st is not None else None

    # ------------------------------------------------------------ types
    def newtype(self, name='t', kinds=None, **kw):
        K = kw.get('K')
        if K is None:
            K = z3.Int(self.ctx.fresh('kind ' + name))
            ks = [self.K[k] for k in (kinds or KINDS)]
            self.ctx.assume(z3.Or([K == k for k in ks]))
            if len(ks) == 1:
                K = ks[0]
        t = self.I.new('main.Type', Kind=K)
        s = force(t.c, t.k)
        di = self.p.fidx(s.tid, 'Data')
        s[di] = Lazy(lambda: self.data(t, name, kw))
        self.keep.append(t)
        return t

    def kind(self, t):
        return self.I.getf(t, 'Kind')

    def iskind(self, t, *ks):
        k = self.kind(t)
        if isinstance(k, int):
            return z3.BoolVal(self.kindname[k] in ks)
        return z3.Or([k == self.K[x] for x in ks])

    def kindof(self, t):
        """the kind, deciding it on this path"""
        k = self.kind(t)
        if isinstance(k, int):
            return self.kindname[k]
        for n in KINDS:
            if self.ctx.decide(k == self.K[n]):
                self.I.setf(t, 'Kind', self.K[n])
                return n
        raise Infeasible()

    def lst(self, name, mk, **kw):
        return Lst(self, name, mk, **kw)

    def data(self, t, name, kw):
        k = self.kindof(t)
        I = self.I
        cap = kw.get('cap')
        tl = lambda what: kw.get(what) if what in kw else self.lst(name + '.' + what, lambda i: self.newtype('%s.%s[%s]' % (name, what, i)), cap=cap)
        if k == 'Struct':
            d = I.new('main.StructType', Name=kw.get('Name', SStr(self.ctx.int('name'))), Fields=Lazy(lambda: self.lst(name + '.fields', lambda i: self.newsym('field'), cap=cap)), Types=Lazy(lambda: tl('types')), decl=kw.get('decl'))
        elif k == 'Enum':
            d = I.new('main.EnumType', Name=kw.get('Name', SStr(self.ctx.int('name'))), Members=Lazy(lambda: kw['members'] if 'members' in kw else self.lst(name + '.members', lambda i: self.newfn('member'), cap=cap)), Types=Lazy(lambda: tl('types')))
        elif k == 'Function':
            d = self.newfn(name, **kw)
        elif k == 'Array':
            d = I.new('main.ArrayType', Elem=Lazy(lambda: self.newtype(name + '.elem')))
        elif k == 'Parameter':
            d = I.new('main.ParameterType', Name=SStr(self.ctx.int('name')))
        else:
            d = I.new('main.' + {'Integer': 'IntType', 'Bytes': 'BytesType', 'Boolean': 'BoolType', 'String': 'StringType', 'Nothing': 'NothingType', 'Pointer': 'IntType'}[k])
        return IfaceV(self.p.ptr_to[force(d.c, d.k).tid] if k != 'Pointer' else force(d.c, d.k).tid, d)

    def newfn(self, name, **kw):
        I = self.I
        cap = kw.get('cap')
        fk = kw.get('fkind')
        if fk is None:
            fk = z3.Int(self.ctx.fresh('fnkind'))
            self.ctx.assume(z3.And(fk >= 0, fk <= 4))
        tl = lambda what: kw.get(what) if what in kw else self.lst(name + '.' + what, lambda i: self.newtype('%s.%s[%s]' % (name, what, i)), cap=cap)
        return I.new('main.FunctionType', Kind=fk, Data=kw.get('fdata'), Params=Lazy(lambda: tl('params')), Types=Lazy(lambda: tl('tparams')),
                     ret=Lazy(lambda: self.newtype(name + '.ret')), isVariadic=self.ctx.bool('variadic'), RawValues=self.ctx.bool('raw'))

    def same(self, a, b):
        """the two types are the same: what Matches promises (C04)"""
        if a is None or b is None:
            raise GoPanic('nil type')
        sa, sb = force(a.c, a.k), force(b.c, b.k)
        if sa is sb:
            return True
        k = tuple(sorted((id(sa), id(sb))))
        if k not in self.samemap:
            v = z3.Bool(self.ctx.fresh('same'))
            ka, kb = self.kind(a), self.kind(b)
            eq = ka == kb
            self.ctx.assume(z3.Implies(v, eq) if issym(eq) else True if eq else z3.Not(v))
            self.ctx.assume(z3.Implies(z3.And(eq, self.iskind(a, *BASIC)), v))
            self.ctx.assume(z3.Implies(self.iskind(a, 'Parameter'), z3.Not(v)))
            self.samemap[k] = v
            self.keep.append((sa, sb))
        return self.samemap[k]

    # ------------------------------------------------------------ symbols and nodes
    def newsym(self, name, chain=False, **kw):
        c = self.ctx
        f = dict(Name=SStr(c.int('name')), Addr=c.int('addr'), IsStack=c.bool('stack'), IsGlobal=c.bool('global'), IsLiteral=c.bool('lit'), IsType=c.bool('istype'),
                 Type=Lazy(lambda: self.newtype(name + '.type')))
        if chain:
            depth = chain if isinstance(chain, int) and not isinstance(chain, bool) else 2
            f['Next'] = Lazy(lambda: self.newsym(name + "'", chain=depth - 1) if depth > 1 and c.choose(2) else None)
        f.update(kw)
        return self.I.new('main.Symbol', **f)

    def token(self, **kw):
        c = self.ctx
        f = dict(Val=SStr(c.int('val')), Kind=c.int('tkind'), Line=c.int('line'), Pos=c.int('pos'), File=SStr(c.int('file')))
        f.update(kw)
        fs = {x['n'] for x in self.p.fields(self.p.by_name['lex.Token'])}
        return self.I.new('lex.Token', **{k: v for k, v in f.items() if k in fs})

    def node(self, op=None, expr=True, ops=EXPROPS, typ=None, checked=False, name='e', check=None, **kw):
        c = self.ctx
        if op is None:
            v = c.int('op ' + name)
            c.assume(z3.Or([v == self.p.const('main.' + o) for o in ops]))
        else:
            v = self.p.const('main.' + op)
        f = dict(op=v, token=self.token())
        f.update(kw)
        n = self.I.new('main.Node', **f)
        s = force(n.c, n.k)
        self.nodes[id(s)] = d = {'ptr': n, 'ok': z3.Bool(c.fresh('ok ' + name)), 'expr': expr, 'name': name, 'typ': typ or (lambda: self.newtype(name)), 'check': check}
        if checked:
            self.I.setf(n, 'typ', d['typ']())
        self.keep.append(n)
        return n

    def info(self, n):
        return self.nodes[id(force(n.c, n.k))]

    def ok(self, n):
        return self.info(n)['ok']

    def typ(self, n):
        return self.I.getf(n, 'typ')

    def isop(self, n, *ops):
        v = self.I.getf(n, 'op')
        if isinstance(v, int):
            return z3.BoolVal(v in [self.p.const('main.' + o) for o in ops])
        return z3.Or([v == self.p.const('main.' + o) for o in ops])

    def stmts(self, name='stmts', **kw):
        return self.lst(name, lambda i: self.node(expr=False, op='opReturn', name='%s[%s]' % (name, i)), **kw)

    def allok(self, L):
        """every element of the list is free of errors"""
        return z3.And([self.ok(x) for x in L.xs] + [z3.Or(L.full(), self.resto(L))])

    def resto(self, L):
        if not hasattr(L, 'rest'):
            L.rest = z3.Bool(self.ctx.fresh('rest ok'))
        return L.rest

    def checked(self, n):
        d = self.info(n)
        return [e for e in self.events if e[0] is d]

    # ------------------------------------------------------------ loops
    def loop(self, I, fr, b, pred, blk):
        key = []
        ints = [fr.r[d] for d, _, _c in blk.phis if isinstance(fr.r[d], int) and not isinstance(fr.r[d], bool)]
        if fr.loops[b] > 40:
            raise Unsupported('loop does not close')
        if not any(k in (i, i - 1) for i in ints for k in self.access.get(fr, {}).values()):
            return      # not a loop over a list of unknown length
        for d, _, _c in blk.phis:
            v = fr.r[d]
            if isinstance(v, bool) or v is None:
                key.append(v)
            elif isinstance(v, int):
                key.append('i')
            elif isinstance(v, Errs):
                key.append(v.bad())
            elif isinstance(v, Acc):
                key.append(bool(v.xs))
            elif isinstance(v, (Ptr, SliceV, MapV, Lst, StructV, FuncV, Cat)):
                key.append(id(force(v.c, v.k)) if isinstance(v, Ptr) else id(v))
            else:
                key.append(str(v))
        n = fr.loops[b]
        k = (fr.fn.name, b, fr, tuple(key), min(n - 1, CAP), self.loopkey())
        if k in self.visits:
            raise StopPath('loop closed')
        self.visits[k] = True


def cut(fn):
    def run(ctx, obs, p, sect, *a, cap=2, **kw):
        global CAP
        CAP = cap
        try:
            fn(ctx, obs, p, sect, *a, **kw)
        except StopPath:
            pass
    run.capped = fn.__name__
    return run


# ------------------------------------------------------------------ the typing rules (C05, scopes C07)
class Rule(Sem):
    def run(self, n, symtab, fn):
        self.n, self.symtab, self.fn = n, symtab, fn
        I = self.I
        self.loopkey = lambda: (min(len(self.defined), CAP + 1), any(d[2] is not None for d in self.defined))
        r = I.run(self.p.funcs['main.typeCheck'], [n, symtab, fn, False], ())
        self.errs = Errs.of(I, r)

    def judge(self, rule, what=''):
        """errors are reported exactly when the rule is broken"""
        bad = self.errs.bad()
        if isinstance(rule, list):
            rule = z3.And(rule)
        if bad:
            self.ob('typing', 'what-obeys-the-rule-is-accepted', z3.Not(rule), what)
        else:
            self.ob('typing', 'what-is-accepted-obeys-the-rule', rule, what)
        return not bad

    def once(self, *ns):
        """each child was checked exactly once, in the same scope and function"""
        for n in ns:
            ev = self.checked(n)
            self.ob('typing', 'each-child-is-checked-once', len(ev) == 1, '%s checked %d times' % (self.info(n)['name'], len(ev)))
            for e in ev:
                self.ob('scope', 'children-are-checked-in-the-current-scope', self.samescope(e))
                self.ob('typing', 'children-are-checked-in-the-same-function', e[2] is self.fn or e[2] == self.fn)

    def samescope(self, e):
        """the current scope, or a scope inside it in which nothing is declared yet"""
        st = e[1]
        while st is not None:
            if st == self.symtab:
                return True
            if any(d == st for d in e[3]):
                return False
            st = self.parent(st)
        return False

    def inscope(self, L, st, fn=None):
        """the statements of a body were each checked once, in order, in the given scope"""
        fn = self.fn if fn is None else fn
        evs = [e for e in self.events if any(e[0] is self.info(x) for x in L.xs)]
        self.ob('typing', 'each-statement-is-checked-once-in-order', [id(e[0]) for e in evs] == [id(self.info(x)) for x in L.xs])
        self.ob('typing', 'every-statement-is-checked', L.full())
        for e in evs:
            self.ob('scope', 'statements-are-checked-in-the-scope-of-their-body', e[1] == st)
            self.ob('typing', 'statements-are-checked-in-their-function', e[2] == fn)

    def newscope(self):
        """the node's own scope: a fresh child of the current one"""
        st = self.I.getf(self.n, 'symtab')
        self.ob('scope', 'a-body-is-a-scope-of-its-own', st is not None and st != self.symtab and self.parent(st) == self.symtab)
        return st

    def gives(self, *kinds):
        t = self.typ(self.n)
        self.ob('typing', 'the-type-is-the-one-the-rule-gives', t is not None and self.iskind(t, *kinds), kinds)


ARITH = 'opAdd opMul opSub opDiv opBAnd opBOr opBXor opBLeft opBRight opRange'.split()
LOGIC = ['opAnd', 'opOr']
CMP = 'opGt opGte opLt opLte opEq'.split()


def setup(ctx, obs, p, sect):
    R = Rule(ctx, obs, p, sect)
    st = R.I.new('main.SymTab')
    fn = R.newfn('fn')
    return R, R.I, st, fn


@cut
def binary(ctx, obs, p, sect, op):
    R, I, st, fn = setup(ctx, obs, p, sect)
    l, r = R.node(name='left'), R.node(name='right')
    R.run(R.node(op, left=l, right=r, name='n'), st, fn)
    want = 'Boolean' if op in LOGIC else 'Integer'
    rule = [R.ok(l), R.ok(r)]
    for x in (l, r):
        rule.append(R.iskind(R.typ(x), want) if R.typ(x) is not None else z3.Bool(ctx.fresh('?')))
    if R.judge(rule):
        R.once(l, r)
        R.gives('Integer' if op in ARITH else 'Boolean')


@cut
def unary(ctx, obs, p, sect, op):
    R, I, st, fn = setup(ctx, obs, p, sect)
    l = R.node(name='left')
    R.run(R.node(op, left=l, name='n'), st, fn)
    want = 'Boolean' if op == 'opNot' else 'Integer'
    if R.judge([R.ok(l), R.iskind(R.typ(l), want) if R.typ(l) else True]):
        R.once(l)
        R.gives(want)


def T(R, x, f):
    """a condition on the type of x; unknown when x was not checked"""
    return f(R.typ(x)) if R.typ(x) is not None else z3.Bool(R.ctx.fresh('untyped'))


@cut
def ternary(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    c, a, b = R.node(name='cond'), R.node(name='then'), R.node(name='else')
    R.run(R.node('opTernary', left=c, stmts=I.slice([a, b]), name='n'), st, fn)
    rule = [R.ok(c), R.ok(a), R.ok(b), T(R, c, lambda t: R.iskind(t, 'Boolean')), T(R, a, lambda t: T(R, b, lambda u: R.same(t, u)))]
    if R.judge(rule):
        R.once(c, a, b)
        R.ob('typing', 'the-type-is-that-of-the-branches', R.typ(R.n) is not None and R.same(R.typ(R.n), R.typ(a)))


@cut
def index(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    l, r = R.node(name='array'), R.node(name='index')
    R.run(R.node('opArray', left=l, right=r, name='n'), st, fn)
    if R.judge([R.ok(l), R.ok(r), T(R, l, lambda t: R.iskind(t, 'Array')), T(R, r, lambda t: R.iskind(t, 'Integer'))]):
        R.once(l, r)
        R.ob('typing', 'the-type-is-that-of-the-elements', R.typ(R.n) is not None and R.same(R.typ(R.n), elem(R, R.typ(l))))


def elem(R, t):
    return R.I.getf(R.I.getf(t, 'Data').v, 'Elem')


@cut
def arraylit(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    L = R.lst('elements', lambda i: R.node(name='element[%s]' % i))
    R.run(R.node('opArrayLit', stmts=L, name='n'), st, fn)
    rule = [L.n > 0, R.allok(L)]
    for x in L.xs[1:]:
        rule.append(T(R, x, lambda t: R.same(t, R.typ(L.xs[0]))))
    if R.judge(rule):
        R.once(*L.xs)
        R.ob('typing', 'every-element-is-checked', L.full())
        t = R.typ(R.n)
        R.ob('typing', 'the-type-is-an-array-of-the-elements', t is not None and z3.And(R.iskind(t, 'Array'), R.same(elem(R, t), R.typ(L.xs[0]))))


@cut
def loop(ctx, obs, p, sect, op):
    """while, if, elseif, else, block"""
    R, I, st, fn = setup(ctx, obs, p, sect)
    c = R.node(name='condition') if op in ('opWhile', 'opIf', 'opElseIf') else None
    L = R.stmts()
    nxt = R.node(expr=False, ops=['opElseIf', 'opElse'], name='next') if op in ('opIf', 'opElseIf') and ctx.choose(2) else None
    R.run(R.node(op, left=c, stmts=L, right=nxt, expr=False, name='n'), st, fn)
    rule = [R.allok(L)]
    if c:
        rule += [R.ok(c), T(R, c, lambda t: R.iskind(t, 'Boolean'))]
    if nxt:
        rule.append(R.ok(nxt))
    if R.judge(rule):
        R.once(*([c] if c else []) + ([nxt] if nxt else []))
        R.inscope(L, R.newscope())


@cut
def forloop(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    R.ondefine = lambda s, sym: None      # the scope is new and empty
    x = R.node('opIdentifier', name='variable')
    e = R.node(name='range')
    R.info(e)['typ'] = lambda: R.newtype('range', kinds=['Integer'] if ctx.decide(R.isop(e, 'opRange')) else None)
    L = R.stmts()
    R.run(R.node('opFor', left=x, right=e, stmts=L, expr=False, name='n'), st, fn)
    rule = [R.allok(L), R.ok(e), T(R, e, lambda t: z3.Or(R.iskind(t, 'Array'), R.isop(e, 'opRange')))]
    if R.judge(rule):
        R.once(e)
        s = R.newscope()
        R.inscope(L, s)
        R.ob('scope', 'the-loop-variable-is-declared-in-the-scope-of-the-loop', len(R.defined) == 1 and R.defined[0][0] == s)
        v = I.getf(x, 'sym')
        R.ob('scope', 'the-loop-variable-is-the-declared-one', v is not None and len(R.defined) == 1 and v == R.defined[0][1])
        if v is not None:
            want = elem(R, R.typ(e)) if ctx.decide(R.iskind(R.typ(e), 'Array')) else I.gget('main.intType')
            R.ob('typing', 'the-loop-variable-has-the-type-of-the-elements', z3.And(R.same(I.getf(v, 'Type'), want), R.same(R.typ(x), want)))
            R.ob('scope', 'the-loop-variable-has-its-name', I.eq(I.getf(v, 'Name'), I.getf(I.getf(x, 'token'), 'Val')))
            R.ob('scope', 'the-loop-variable-is-local', I.eq(I.getf(v, 'IsStack'), True) if True else None)
        # the range is not evaluated in the scope of the variable, the body is


@cut
def ret(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    e = R.node(name='value') if ctx.choose(2) else None
    R.run(R.node('opReturn', left=e, expr=False, name='n'), st, fn)
    rt = I.getf(fn, 'ret')
    if e is None:
        R.judge([R.iskind(rt, 'Nothing')])
    elif R.judge([R.ok(e), T(R, e, lambda t: R.same(rt, t))]):
        R.once(e)


@cut
def literal(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    k = ctx.pick(['Integer', 'String', 'True', 'False'])
    want = {'Integer': 'Integer', 'String': 'String', 'True': 'Boolean', 'False': 'Boolean'}[k]
    R.onresolve = lambda s, name: (None, False) if ctx.choose(2) == 0 else (R.newsym('literal', IsLiteral=True, Type=R.newtype('lit', kinds=[want])), True)
    R.ondefine = lambda s, sym: None
    n = R.node('opLit', name='n', token=R.token(Kind=p.const('lex.' + k)))
    R.run(n, st, fn)
    if R.judge([z3.BoolVal(True)]):
        R.gives(want)
        s = I.getf(n, 'sym')
        R.ob('typing', 'a-literal-has-a-literal-symbol', s is not None and I.eq(I.getf(s, 'IsLiteral'), True))
        if R.defined:
            R.ob('typing', 'the-symbol-has-the-text-of-the-literal', I.eq(I.getf(s, 'Name'), I.getf(I.getf(n, 'token'), 'Val')))


def chain(I, s):
    out = []
    while s is not None:
        out.append(s)
        s = I.getf(s, 'Next')
    return out


@cut
def identifier(ctx, obs, p, sect, amb=False):
    """the symbol found in the current scope; types are not values; more than one function of the name is ambiguous"""
    R, I, st, fn = setup(ctx, obs, p, sect)
    found = ctx.choose(2)
    top = R.newsym('found', chain=3) if found else None
    R.onresolve = lambda s, name: (top, bool(found))
    n = R.node('opIdentifier', name='n')
    if amb:
        R.n, R.symtab, R.fn = n, st, fn
        e = I.run(p.funcs['main.typeCheckIdentifier'], [n, st, True], ())
        R.errs = Errs([e] if e is not None else [])
    else:
        R.run(n, st, fn)
    R.ob('scope', 'the-name-is-looked-up-in-the-current-scope', all(k[0] == id(force(st.c, st.k)) for k in R.resolved))
    if not found:
        R.judge([z3.BoolVal(False)])
        return
    ch = chain(I, top)
    vis = [z3.Not(I.getf(s, 'IsType')) for s in ch]
    # the first symbol of the chain that is not a type; functions follow types of the same name
    first = None
    for s in ch:
        if ctx.decide(I.getf(s, 'IsType')) is False:
            first = s
            break
    rule = first is not None and (amb or I.getf(first, 'Next') is None)
    if R.judge([z3.BoolVal(bool(rule))]):
        R.ob('scope', 'the-name-denotes-the-declaration-found', I.getf(n, 'sym') == first)
        R.ob('typing', 'the-type-is-that-of-the-declaration', R.typ(n) == I.getf(first, 'Type'))


@cut
def declare(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    l, r = R.node(name='target'), R.node(name='value')
    R.run(R.node('opDas', left=l, right=r, expr=False, name='n'), st, fn)
    fresh = z3.Bool(ctx.fresh('not declared yet')) if not R.defined else z3.BoolVal(R.defined[0][2] is None)
    if R.judge([R.ok(r), R.isop(l, 'opIdentifier'), fresh]):
        R.once(r)
        R.ob('scope', 'the-variable-is-declared-in-the-current-scope', len(R.defined) == 1 and R.defined[0][0] == st)
        s = I.getf(l, 'sym')
        R.ob('scope', 'the-target-is-the-declared-variable', s is not None and len(R.defined) == 1 and s == R.defined[0][1])
        if s is not None:
            R.ob('scope', 'the-variable-has-its-name', I.eq(I.getf(s, 'Name'), I.getf(I.getf(l, 'token'), 'Val')))
            R.ob('scope', 'the-variable-is-local', z3.And(z3.BoolVal(I.getf(s, 'IsStack') is True), z3.BoolVal(I.getf(s, 'IsGlobal') is False)))
            R.ob('typing', 'the-variable-has-the-type-of-its-value', z3.And(R.same(I.getf(s, 'Type'), R.typ(r)), R.same(R.typ(l), R.typ(r))))
        # the value cannot see the variable being declared: it is checked before
    elif R.defined and R.defined[0][2] is not None:
        o = R.defined[0][2]
        R.ob('scope', 'redeclaring-never-replaces-the-first-declaration', I.getf(l, 'sym') is None or I.getf(l, 'sym') != R.defined[0][1])


@cut
def assign(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    ll = R.node(name='object', checked=True)
    rr = R.node('opIdentifier', name='field', checked=True, sym=R.newsym('field'))
    l = R.node(name='target', left=ll, right=rr, sym=R.newsym('target'))
    r = R.node(name='value')
    R.run(R.node('opAs', left=l, right=r, expr=False, name='n'), st, fn)
    ro = z3.And(R.iskind(R.typ(ll), 'Array', 'String'), I.eq(I.getf(I.getf(rr, 'sym'), 'Name'), 'length'))
    target = z3.Or(R.isop(l, 'opArray'), z3.And(R.isop(l, 'opIdentifier'), z3.Not(I.getf(I.getf(l, 'sym'), 'IsGlobal'))), z3.And(R.isop(l, 'opDot'), z3.Not(ro)))
    if R.judge([R.ok(l), R.ok(r), target, T(R, l, lambda t: T(R, r, lambda u: R.same(t, u)))]):
        R.once(l, r)


@cut
def root(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    L = R.stmts('declarations')
    R.run(R.node('opRoot', stmts=L, expr=False, name='n'), st, fn)
    if R.judge([R.allok(L)]):
        R.ob('typing', 'every-declaration-is-checked', L.full())
        R.ob('typing', 'each-declaration-is-checked-once-in-order', [id(e[0]) for e in R.events] == [id(R.info(x)) for x in L.xs])
        for e in R.events:
            R.ob('scope', 'declarations-are-checked-in-the-global-scope', e[1] == st)


@cut
def function(ctx, obs, p, sect, op):
    """a function declaration that is already annotated (top level) or a local one"""
    R, I, st, fn = setup(ctx, obs, p, sect)
    L = R.lst('body', lambda i: R.node(expr=op == 'opExprFnDcl', op=None if op == 'opExprFnDcl' else 'opReturn', name='body[%s]' % i))
    if op == 'opExprFnDcl':
        ctx.assume(L.n == 1)
    local = ctx.choose(2)
    ft = R.newtype('fn', kinds=['Function'])
    f = I.getf(ft, 'Data').v
    body = I.new('main.SymTab')
    sym = R.newsym('fn', Type=ft)
    n = R.node(op, stmts=L, name='n', expr=False)
    fails = []
    inst = z3.Bool(ctx.fresh('types exist'))

    def process(I, a):
        if a[0] != n:
            raise Unsupported('processFnType of another node')
        R.ob('scope', 'a-local-function-is-declared-in-the-current-scope', a[2] == st)
        R.ob('scope', 'the-body-of-a-local-function-is-a-scope-of-its-own', a[3] is not None and R.parent(a[3]) == st)
        if ctx.choose(2):
            fails.append(1)
            return (None, R.mkerr())
        I.setf(n, 'sym', sym)
        I.setf(n, 'symtab', a[3])
        return (f, None)

    def instantiate(I, a):
        if ctx.decide(inst):
            return None
        fails.append(2)
        return Errs(some=True)
    I.stubs['main.processFnType'] = process
    I.stubs['main.instantiateFunctionTypes'] = instantiate
    obs.contracts.update(['main.processFnType', 'main.instantiateFunctionTypes'])
    if not local:
        I.setf(n, 'sym', sym)
        I.setf(n, 'symtab', body)
        I.setf(n, 'typ', ft)
    R.run(n, st, fn)
    rule = [R.allok(L), z3.BoolVal(not fails)]
    if op == 'opExprFnDcl' and L.xs:
        rule.append(T(R, L.xs[0], lambda t: R.same(I.getf(f, 'ret'), t)))
    if R.judge(rule):
        R.inscope(L, I.getf(n, 'symtab'), f)
        R.ob('typing', 'a-function-has-its-type', I.getf(n, 'sym') == sym and R.typ(n) == ft)


@cut
def dot(ctx, obs, p, sect, what):
    R, I, st, fn = setup(ctx, obs, p, sect)
    l = R.node(name='object')
    if what == 'field':
        name = ctx.pick(['length', 'deref', None])
        r = R.node('opIdentifier', name='member', token=R.token(**({'Val': name} if name else {})))
        if name is None:
            v = I.getf(I.getf(r, 'token'), 'Val')
            ctx.assume(z3.And(z3.Not(I.eq(v, 'length')), z3.Not(I.eq(v, 'deref'))))
        n = R.node('opDot', left=l, right=r, name='n')
        R.run(n, st, fn)
        t = R.typ(l)
        if t is None:
            R.judge([z3.BoolVal(False), R.ok(l)])
            return
        k = R.kindof(t)
        special = (name == 'length' and k in ('Array', 'String')) or (name == 'deref' and k == 'Pointer')
        if special:
            if R.judge([R.ok(l)]):
                R.once(l)
                R.gives('Integer' if name == 'length' else 'Pointer')
                s = I.getf(r, 'sym')
                R.ob('typing', 'a-built-in-field-lies-at-the-start', s is not None and I.eq(I.getf(s, 'Addr'), 0))
            return
        if k != 'Struct':
            R.judge([z3.BoolVal(False)])
            return
        F = I.getf(I.getf(t, 'Data').v, 'Fields')
        val = I.getf(I.getf(r, 'token'), 'Val')
        hit = [s for s in F.xs if ctx.valid(I.eq(I.getf(s, 'Name'), val))[0] is True]
        known = z3.Or([I.eq(I.getf(s, 'Name'), val) for s in F.xs] + [z3.And(z3.Not(F.full()), R.resto(F))])
        if R.judge([R.ok(l), known]):
            R.once(l)
            R.ob('typing', 'the-first-field-of-that-name-is-meant', bool(hit) and I.getf(r, 'sym') == hit[0])
            if hit:
                R.ob('typing', 'the-type-is-that-of-the-field', R.typ(n) == I.getf(hit[0], 'Type') and R.typ(r) == I.getf(hit[0], 'Type'))
        return
    if what == 'other':
        r = R.node(name='member', ops=[o for o in EXPROPS if o not in ('opIdentifier', 'opFuncCall', 'opArray')])
        R.run(R.node('opDot', left=l, right=r, name='n'), st, fn)
        R.judge([z3.BoolVal(False)])
        return
    # a.f(x) and a.xs[i]: rewritten, then checked as a call or an indexing
    rl = R.node(name='name', op='opIdentifier' if what == 'call' or ctx.choose(2) else None)
    again = []
    ok2 = z3.Bool(ctx.fresh('ok rewritten'))

    def check(n, symtab, f):
        again.append((symtab, f))
        ok = ctx.decide(ok2)
        if ok:
            I.setf(n, 'typ', R.newtype('n'))
            return None
        return Errs(some=True)
    if what == 'call':
        args = R.lst('args', lambda i: R.node(name='arg[%s]' % i))
        tps = R.lst('types', lambda i: R.node(name='type[%s]' % i))
        r = R.node('opFuncCall', left=rl, stmts=args, params=tps, name='call')
        n = R.node('opDot', left=l, right=r, name='n', check=check)
        R.run(n, st, fn)
    else:
        ix = R.node(name='index')
        r = R.node('opArray', left=rl, right=ix, name='indexing')
        n = R.node('opDot', left=l, right=r, name='n', check=check)
        R.run(n, st, fn)
    if not R.judge([R.ok(l), ok2]):
        return
    R.ob('typing', 'the-rewritten-node-is-checked-once', len(again) == 1 and again[0][0] == st and again[0][1] == fn)
    R.ob('typing', 'the-object-is-checked-once', len(R.checked(l)) == 1)
    nl = I.getf(n, 'left')
    isdot = lambda d: d is not None and I.getf(d, 'op') == p.const('main.opDot') and I.getf(d, 'left') == l and I.getf(d, 'right') == rl
    if what == 'index':
        R.ob('typing', 'a-member-is-indexed', I.getf(n, 'op') == p.const('main.opArray') and isdot(nl) and I.getf(n, 'right') == ix)
        return
    t = R.typ(l)
    R.ob('typing', 'it-becomes-a-call', I.getf(n, 'op') == p.const('main.opFuncCall') and I.getf(n, 'params') is tps and I.getf(n, 'right') is None)
    field = False
    if R.kindof(t) == 'Struct':
        F = I.getf(I.getf(t, 'Data').v, 'Fields')
        val = I.getf(I.getf(rl, 'token'), 'Val')
        field = any(ctx.valid(I.eq(I.getf(s, 'Name'), val))[0] is True for s in F.xs)
    ss = I.getf(n, 'stmts')
    if field:
        R.ob('typing', 'a-field-holding-a-function-is-called', isdot(nl) and ss is args)
    else:
        R.ob('typing', 'the-object-becomes-the-first-argument', nl == rl and isinstance(ss, Cat) and len(ss.pre) == 1 and ss.pre[0] == l and ss.L is args and not ss.post)


@cut
def typenode(ctx, obs, p, sect):
    R, I, st, fn = setup(ctx, obs, p, sect)
    op = ctx.pick(['opNamedType', 'opFuncType', 'opArrayType'])
    n = R.node(op, name='n')
    t = R.newtype('t')
    good = ctx.choose(2)
    seen = []

    def inst(I, a):
        seen.append((a[0], a[1]))
        if good:
            return t
        e = load(a[2])
        store(a[2], Errs.of(I, e).gv_append(I, Errs(some=True)))
        return None
    I.stubs['main.instantiateType'] = inst
    obs.contracts.add('main.instantiateType')
    R.run(n, st, fn)
    if R.judge([z3.BoolVal(bool(good))]):
        R.ob('typing', 'the-type-is-the-one-named', R.typ(n) == t and seen == [(st, n)])


# ------------------------------------------------------------------ match
def ptrs(m):
    return {id(force(k.c, k.k)): v for k, v in m.entries()}


@cut
def match(ctx, obs, p, sect, ncases, depth, m=None, ng=0):
    """a match over an enum. depth: one case with parameters and statements; otherwise several cases without"""
    R, I, st, fn = setup(ctx, obs, p, sect)
    m = ctx.choose(4) if m is None else m
    tag = p.ptr_to[p.by_name['main.EnumConsFunc']]
    mk = lambda name, k, t: R.newfn(name, fkind=p.const('main.EnumCons') if k is None else k, fdata=IfaceV(tag, I.new('main.EnumConsFunc', Tag=t)), **({} if depth else {'params': None}))
    members = [mk('member%d' % i, None, i) for i in range(m)]
    dtypes = [R.newtype('T%d' % i, kinds=['Parameter']) for i in range(ng)]
    atypes = [R.newtype('arg%d' % i) for i in range(ng)]
    name = SStr(ctx.int('enum'))
    decl = R.newtype('decl', kinds=['Enum'], Name=name, types=I.slice(dtypes), members=I.slice(members))
    l = R.node(name='value')
    other = ctx.choose(2)
    if other:
        R.info(l)['typ'] = lambda: R.newtype('value', kinds=[k for k in KINDS if k != 'Enum'])
    else:
        R.info(l)['typ'] = lambda: R.newtype('value', kinds=['Enum'], Name=name, types=I.slice(atypes), members=I.slice(members))
    I.stubs['(*main.SymTab).ResolveAll'] = lambda I, a: (R.newsym('decl', Type=decl, IsType=True), True) if ctx.valid(I.eq(a[1], name))[0] is True else (None, False)
    subs = []

    def substitute(I, a):
        if not a[1].entries():
            return a[0]
        f = I.getf(a[0], 'Data').v
        ps = I.getf(f, 'Params')
        t = R.newtype('subst', kinds=['Function'], params=Lst(R, 'params', lambda i: R.newtype('case variable'), n=ps.n))
        subs.append((a[0], ptrs(a[1]), t))
        return t
    I.stubs['main.substituteType'] = substitute
    obs.contracts.update(['main.substituteType', '(*main.SymTab).ResolveAll'])
    cases, where = [], {}
    for i in range(ncases):
        ps = R.lst('case params', lambda j: R.node('opIdentifier', name='variable')) if depth else None
        ss = R.stmts('case body') if depth else None
        c = R.node('opCase', expr=False, params=ps, stmts=ss, name='case%d' % i)
        cases.append((c, ps, ss))
        where[I.getf(I.getf(c, 'token'), 'Val').t.get_id()] = i
    found = {}

    def onresolve(s, nm):
        i = where.get(nm.t.get_id() if isinstance(nm, SStr) else None)
        if i is None:
            raise Unsupported('another name is resolved')
        k = ctx.choose(m + (3 if depth else 2))
        if k < m:
            f = members[k]
            found[i] = ('member', k)
        elif k == m:
            found[i] = ('none', None)
            return (None, False)
        elif k == m + 1:
            f = mk('foreign', None, 0)
            found[i] = ('foreign', None)
        else:
            if ctx.choose(2):
                found[i] = ('variable', None)
                return (R.newsym('x', Type=R.newtype('x', kinds=[k for k in KINDS if k != 'Function'])), True)
            fk = ctx.int('fk')
            ctx.assume(z3.And(fk >= 0, fk <= 4, fk != p.const('main.EnumCons')))
            f = mk('plain', fk, 0)
            found[i] = ('function', None)
        t = I.new('main.Type', Kind=R.K['Function'], Data=IfaceV(p.ptr_to[p.by_name['main.FunctionType']], f))
        found[i] += (f, t)
        return (R.newsym('cons', Type=t), True)
    R.onresolve = onresolve
    n = R.node('opMatch', left=l, stmts=I.slice([c for c, _, _ in cases]), expr=False, name='n')
    R.run(n, st, fn)
    rule = [R.ok(l), z3.BoolVal(not other)]
    for i, (c, ps, ss) in enumerate(cases):
        f = found.get(i)
        if f is None:
            rule.append(z3.Bool(ctx.fresh('case not looked at')))
            continue
        rule.append(z3.BoolVal(f[0] == 'member'))
        if depth and f[0] in ('member', 'foreign'):
            rule += [ps.n == I.getf(f[2], 'Params').n, R.allok(ss)]
            rule.append(z3.BoolVal(not any(o is not None for s, y, o in R.defined)))
    hit = [found[i][1] for i in range(ncases) if i in found and found[i][0] == 'member']
    rule.append(z3.BoolVal(len(set(hit)) == len(hit)))
    rule.append(z3.BoolVal(ncases == m))
    if not R.judge(rule, found):
        return
    R.once(l)
    for i, (c, ps, ss) in enumerate(cases):
        R.ob('typing', 'a-case-names-its-constructor', I.getf(c, 'sym') is not None and I.getf(I.getf(c, 'sym'), 'Type') == found[i][3])
        if not depth:
            continue
        s = I.getf(c, 'symtab')
        R.ob('scope', 'a-case-is-a-scope-of-its-own', s is not None and s != st and R.parent(s) == st)
        R.inscope(ss, s)
        R.ob('scope', 'every-case-variable-is-declared', z3.And(ps.full(), z3.BoolVal(len(R.defined) == len(ps.xs))))
        cons = found[i][2]
        if ng:
            R.ob('typing', 'type-arguments-of-the-value-are-bound-to-the-parameters-of-its-enum', len(subs) == 1 and subs[0][0] == found[i][3]
                 and {k: id(force(v.c, v.k)) for k, v in subs[0][1].items()} == {id(force(a.c, a.k)): id(force(b.c, b.k)) for a, b in zip(dtypes, atypes)})
            cons = I.getf(subs[0][2], 'Data').v if subs else cons
        tp = I.getf(cons, 'Params')
        for j, x in enumerate(ps.xs):
            if j >= len(R.defined):
                break
            sc, sym, old = R.defined[j]
            R.ob('scope', 'case-variables-are-declared-in-the-scope-of-the-case', sc == s and I.getf(x, 'sym') == sym)
            R.ob('scope', 'a-case-variable-has-its-name', I.eq(I.getf(sym, 'Name'), I.getf(I.getf(x, 'token'), 'Val')))
            R.ob('typing', 'a-case-variable-has-the-type-of-its-field', I.getf(sym, 'Type') == tp.at(j) and R.typ(x) == tp.at(j))


# ------------------------------------------------------------------ calls
CALLABLE = ['opBlockFnDcl', 'opDot', 'opFuncCall', 'opArray', 'opIdentifier']


@cut
def call(ctx, obs, p, sect, special=None, part='args', lop=None):
    R, I, st, fn = setup(ctx, obs, p, sect)
    tps = R.lst('type arguments', lambda i: R.node(name='type[%s]' % i))
    # arguments are seen only through their own checks; the last one matters for unsafe
    args = R.lst('args', lambda i: R.node(name='arg[%s]' % i, ops=['opAdd', 'opIdentifier']))
    if special == 'unsafe':
        args = R.lst('args', args.mk, n=ctx.choose(5))
        R.ctx.assume(tps.n == 0)
    elif part == 'args':
        ctx.assume(tps.n == 0)
    else:
        ctx.assume(args.n <= 1)
    lop = lop or 'opIdentifier'
    tok = R.token(**({'Val': special} if special else {}))
    if not special:
        for nm in ('printf', 'debug', 'unsafe'):
            ctx.assume(z3.Not(I.eq(I.getf(tok, 'Val'), nm)))
    l = R.node(lop, name='callee', token=tok)
    if lop == 'opBlockFnDcl':
        R.info(l)['typ'] = lambda: (I.setf(l, 'sym', R.newsym('local function')), R.newtype('callee'))[1]
    top = R.newsym('callee', chain=2, IsType=False)
    found = {}
    vals = {}

    def onresolve(s, nm):
        k = nm if isinstance(nm, str) else nm.t.get_id()
        lv = I.getf(tok, 'Val')
        iscallee = k == (lv if isinstance(lv, str) else lv.t.get_id())
        R.ob('scope', 'names-are-looked-up-in-the-current-scope', s == st)
        if iscallee:
            found['callee'] = special is not None or bool(ctx.choose(2))
            return (top, True) if found['callee'] else (None, False)
        ok = bool(ctx.choose(2))
        found[k] = ok
        return (R.newsym('arg', chain=False, IsType=False), True) if ok else (None, False)
    R.onresolve = onresolve
    tried = []
    memo = {}

    def byType(I, a):
        k = id(force(a[0].c, a[0].k))
        if a[1] != n:
            raise Unsupported('call of another node')
        ok = bool(ctx.choose(2))
        tried.append((a[0], ok))
        if ok:
            memo[k] = R.newtype('result')
            return (memo[k], None)
        return (None, R.mkerr())
    I.stubs['main.matchFuncCallByType'] = byType
    obs.contracts.add('main.matchFuncCallByType')
    n = R.node('opFuncCall', left=l, params=tps, stmts=args, name='n')
    if special == 'unsafe':
        top = R.newsym('unsafe', IsType=False, Type=R.newtype('unsafe', kinds=['Function']))
    R.run(n, st, fn)

    def argok(x):
        if ctx.valid(R.isop(x, 'opIdentifier'))[0] is True:
            v = I.getf(I.getf(x, 'token'), 'Val').t.get_id()
            return z3.BoolVal(found[v]) if v in found else z3.Bool(ctx.fresh('arg not looked at'))
        if ctx.valid(R.isop(x, 'opAdd'))[0] is True:
            return R.ok(x)
        return z3.Bool(ctx.fresh('arg not looked at'))
    rule = [z3.simplify(z3.IntVal(0) + args.n <= 6), R.allok(tps)] + [argok(x) for x in args.xs] + [z3.Or(args.full(), R.resto(args))]
    rule.append(z3.BoolVal(lop in CALLABLE))
    if lop == 'opIdentifier':
        rule.append(z3.BoolVal(found['callee']) if 'callee' in found else z3.Bool(ctx.fresh('callee not looked at')))
    elif lop in CALLABLE:
        rule.append(R.ok(l))
    if special == 'unsafe':
        rule.append(z3.BoolVal(args.n == 3))
    hits = [t for t, ok in tried if ok]
    if special is None:
        rule.append(z3.BoolVal(bool(hits)) if hits or (tried and exhausted(R, l, lop, top, tried)) else z3.Bool(ctx.fresh('candidates not tried')))
    if not R.judge(rule, tried):
        return
    if lop in CALLABLE and lop != 'opIdentifier':
        R.once(l)
    R.ob('typing', 'every-argument-is-checked', args.full())
    R.ob('typing', 'every-type-argument-is-checked', tps.full())
    R.once(*tps.xs)
    for x in args.xs:
        if ctx.valid(R.isop(x, 'opAdd'))[0] is True:
            R.once(x)
    if special in ('printf', 'debug'):
        R.gives('Nothing')
        R.ob('typing', 'the-callee-is-the-function-of-that-name', I.getf(l, 'sym') == top)
    elif special == 'unsafe':
        R.ob('typing', 'the-type-is-that-of-the-last-argument', R.typ(n) == R.typ(args.xs[2]) if len(args.xs) == 3 else False)
        R.ob('typing', 'the-callee-is-the-function-of-that-name', I.getf(l, 'sym') == top)
    else:
        R.ob('typing', 'the-type-is-the-result-of-the-chosen-function', len(hits) == 1 and R.typ(n) == memo[id(force(hits[0].c, hits[0].k))])
        if lop in ('opIdentifier',):
            ch = chain(I, top)
            i = len(tried) - 1
            R.ob('overload', 'candidates-are-tried-in-declaration-order-and-the-first-match-is-taken',
                 len(tried) <= len(ch) and all(tried[j][0] == I.getf(ch[j], 'Type') and tried[j][1] == (j == i) for j in range(len(tried))) and I.getf(l, 'sym') == ch[i])


def exhausted(R, l, lop, top, tried):
    return lop != 'opIdentifier' or len(tried) == len(chain(R.I, top))


class CMap(MapV):
    """type parameter bindings under construction: the constraints absorbed so far, plus explicit entries. The constraints travel in an entry of their own,
    so a copy of the entries is a copy of the constraints."""
    pass


@cut
def callmatch(ctx, obs, p, sect, nargs, generic):
    """matchFuncCallByType: which calls are well-typed, what they bind and what their result is. Up to 3 arguments any of them may be overloaded (twice),
    with 4 to 6 arguments at most one is (up to three times); more than 6 arguments never get here."""
    R, I, st, fn = setup(ctx, obs, p, sect)
    isfn = ctx.choose(2) if nargs == 0 else 1
    if not isfn:
        t = R.newtype('callee', kinds=[k for k in KINDS if k != 'Function'])
        n = R.node('opFuncCall', stmts=None, name='n')
        r = I.run(p.funcs['main.matchFuncCallByType'], [t, n], ())
        R.ob('binding', 'only-functions-are-called', r[1] is not None)
        return
    np_ = nargs if nargs > 2 else ctx.pick([nargs, nargs + 1] + [nargs - 1] * (nargs > 0))
    params = [R.newtype('param%d' % i) for i in range(np_)]
    tparams = [R.newtype('T%d' % i, kinds=['Parameter']) for i in range(generic)]
    ntypes = ctx.choose(generic + 2)
    targs = [R.node(name='type%d' % i, checked=True) for i in range(ntypes)]
    t = R.newtype('callee', kinds=['Function'], params=I.slice(params), tparams=I.slice(tparams))
    f = I.getf(t, 'Data').v
    args, over = [], []
    one = ctx.choose(nargs + 1) if nargs > 3 else None
    plain = ['opIdentifier', 'opAdd'] if one is None else [ctx.pick(['opIdentifier', 'opAdd'])]
    for i in range(nargs):
        o = ctx.choose(2) if one is None else i == one
        if o:
            s3 = [R.newsym('third')] if one is not None and ctx.choose(2) else []
            s2 = R.newsym('second', **({'Next': s3[0]} if s3 else {}))
            s1 = R.newsym('first', Next=s2)
            a = R.node('opIdentifier', name='arg%d' % i, sym=s1)
            I.setf(a, 'typ', I.getf(s1, 'Type'))
            over.append([s1, s2] + s3)
        else:
            a = R.node(ops=plain, name='arg%d' % i, sym=R.newsym('arg%d' % i), checked=True)
            over.append(None)
        args.append(a)
    n = R.node('opFuncCall', stmts=I.slice(args), params=I.slice(targs), name='n')
    before = [(I.getf(a, 'sym'), R.typ(a)) for a in args]
    ALL = 'constraints'
    polys = []

    def cs(m):
        e = m.d.get(('all',))
        return e[1] if e else ()

    def poly(I, a):
        ok = bool(ctx.choose(2))
        m = a[2]
        m.d[('all',)] = [ALLKEY, cs(m) + ((a[0], a[1]),) if ok else cs(m) + ('left over from a failed match',)]
        polys.append((a[0], a[1], ok))
        return ok
    I.stubs['(*main.Type).PolyMatch'] = poly
    unb = []

    def unbound(I, a):
        u = bool(ctx.choose(2))
        unb.append((a[0], cs(a[1]), explicit(a[1]), u))
        return I.slice([R.newtype('T')]) if u else None

    def explicit(m):
        return {id(force(k.c, k.k)): id(force(v.c, v.k)) for h, (k, v) in m.d.items() if h != ('all',)}
    res = []

    def substitute(I, a):
        r = R.newtype('result')
        res.append((a[0], cs(a[1]), explicit(a[1]), r))
        return r
    I.stubs['main.findUnboundTypeParameters'] = unbound
    I.stubs['main.substituteType'] = substitute
    obs.contracts.update(['(*main.Type).PolyMatch', 'main.findUnboundTypeParameters', 'main.substituteType'])
    mset = I.mapset

    def mapset(m, k, v):
        if k is ALLKEY:
            m.d[('all',)] = [k, v]
        else:
            mset(m, k, v)
    I.mapset = mapset
    r, err = I.run(p.funcs['main.matchFuncCallByType'], [t, n], ())
    good = err is None
    shape = nargs == np_ and ntypes in (0, generic)
    sel = []
    if generic == 0:
        rule = [z3.BoolVal(shape)]
        if shape:
            for a, q, o, (s0, t0) in zip(args, params, over, before):
                rule.append(z3.Or([R.same(I.getf(s, 'Type'), q) for s in o]) if o else R.same(t0, q))
        if good:
            R.ob('binding', 'arguments-match-the-parameters-of-the-chosen-function', z3.And(rule))
            R.ob('binding', 'the-result-has-the-declared-type', r is not None and R.same(r, I.getf(f, 'ret')))
            for a, q, o in zip(args, params, over):
                if o:
                    first = next((s for s in o[:-1] if ctx.decide(R.same(I.getf(s, 'Type'), q))), o[-1])
                    R.ob('overload', 'an-overloaded-argument-becomes-the-first-overload-that-fits', I.getf(a, 'sym') == first and R.typ(a) == I.getf(first, 'Type'))
        else:
            R.ob('binding', 'a-fitting-call-is-accepted', z3.Not(z3.And(rule)))
    else:
        # which (argument type, parameter) constraints hold
        expect, k = [], 0
        okall = shape
        if shape:
            for i, (a, q, o) in enumerate(zip(args, params, over)):
                cand = [I.getf(s, 'Type') for s in o] if o else [before[i][1]]
                hit = None
                for c in cand:
                    m = [x for x in polys[k:] if x[1] == q and x[0] == c][:1]
                    if not m:
                        break
                    k += 1
                    if m[0][2]:
                        hit = c
                        break
                if hit is None:
                    okall = False
                    break
                expect.append((hit, q))
                sel.append(o[cand.index(hit)] if o else None)
        if good:
            R.ob('binding', 'arguments-match-the-parameters-of-the-chosen-function', okall, polys)
            want = {id(force(a.c, a.k)): id(force(R.typ(b).c, R.typ(b).k)) for a, b in zip(tparams, targs)}
            R.ob('binding', 'type-parameters-of-the-result-are-all-bound', all(not u[3] for u in unb) and bool(unb) or not unb)
            key = lambda cc: sorted((id(force(a.c, a.k)), id(force(b.c, b.k))) if not isinstance(a, str) else (0, 0) for a, b in [(x if isinstance(x, tuple) else ('junk', x)) for x in cc])
            R.ob('binding', 'the-result-is-the-declared-one-with-the-bindings-of-all-arguments', len(res) >= 1 and res[-1][0] == I.getf(f, 'ret') and r == res[-1][3]
                 and key(res[-1][1]) == key(expect) and res[-1][2] == want, '%s vs %s' % (res and res[-1][1:3], expect))
            for a, s, o in zip(args, sel, over):
                if o:
                    R.ob('overload', 'an-overloaded-argument-becomes-the-first-overload-that-fits', I.getf(a, 'sym') == s and R.typ(a) == I.getf(s, 'Type'))
        else:
            R.ob('binding', 'a-fitting-call-is-accepted', not okall or any(u[3] for u in unb))
    if not good:
        R.ob('overload', 'a-failed-match-changes-no-argument', all(I.getf(a, 'sym') == s and R.typ(a) == tt for a, (s, tt) in zip(args, before)))


class _Key:
    def gv_eq(self, I, y):
        return y is self


ALLKEY = _Key()


# ------------------------------------------------------------------ types (C04)
def setupT(ctx, obs, p, sect):
    R = Rule(ctx, obs, p, sect)
    for n in ('(*main.Type).Matches', ):
        R.I.stubs.pop(n, None)
    return R, R.I


@cut
def matches(ctx, obs, p, sect, allow):
    R, I = setupT(ctx, obs, p, sect)
    t = R.newtype('t')
    alias = ctx.choose(2) == 0
    x = t if alias else R.newtype('x')
    bound = MapV(None)
    bb = {}

    def unknown(k):
        kk = id(force(k.c, k.k))
        if kk not in bb:
            bb[kk] = R.newtype('bound') if ctx.choose(2) else None
        return (bb[kk], bb[kk] is not None)
    bound.unknown = unknown
    ev = []

    def rec(I, a):
        a1, a2, al, m = a
        if al is False or al is True:
            pass
        else:
            al = ctx.decide(al)
        # without binding this is identity of types; with binding, whether the constraint can be added
        if not al:
            v = R.same(a1, a2)
        else:
            v = z3.Bool(ctx.fresh('unifies'))
        r = v if isinstance(v, bool) else ctx.decide(v)
        ev.append((a1, a2, al, m, r))
        return r
    I.stubs['(*main.Type).MatchesImpl'] = rec
    I.stubs['(*main.Type).Matches'] = lambda I, a: rec(I, [a[0], a[1], False, bound])
    obs.contracts.add('(*main.Type).MatchesImpl')
    R.loopkey = lambda: all(e[4] for e in ev)
    res = I.run(p.funcs['(*main.Type).MatchesImpl'], [t, x, allow, bound], ())
    if not isinstance(res, bool):
        res = ctx.decide(res)
    stored = list(bound.entries())
    kx = R.kind(x)
    if allow and ctx.decide(R.iskind(x, 'Parameter')):
        b = bb.get(id(force(x.c, x.k)))
        if b is None:
            R.ob('binding', 'an-unbound-parameter-is-bound-to-the-type', res is True and len(stored) == 1 and stored[0][0] == x and stored[0][1] == t)
        else:
            R.ob('binding', 'a-bound-parameter-stands-for-the-same-type', z3.BoolVal(res) == R.same(t, b), 'result %s' % res)
            R.ob('binding', 'a-bound-parameter-stays-bound', not stored)
        return
    R.ob('binding', 'nothing-else-is-bound', not stored)
    k = R.kindof(t)
    d = lambda z: I.getf(z, 'Data').v
    same = R.kindof(x) == k
    pairs, conds = [], [z3.BoolVal(same)]
    full = []
    if same:
        if k in ('Struct', 'Enum'):
            a, b = d(t), d(x)
            conds.append(I.eq(I.getf(a, 'Name'), I.getf(b, 'Name')) if not alias else z3.BoolVal(True))
            full.append((I.getf(a, 'Types'), I.getf(b, 'Types')))
        elif k == 'Function':
            a, b = d(t), d(x)
            full.append((I.getf(a, 'Params'), I.getf(b, 'Params')))
            pairs.append((I.getf(a, 'ret'), I.getf(b, 'ret')))
        elif k == 'Array':
            pairs.append((elem(R, t), elem(R, x)))
        elif k == 'Parameter':
            conds.append(z3.BoolVal(alias))
    for la, lb in full:
        conds.append(la.n == lb.n)
    child = pairs + [(la.at(i), lb.at(i)) for la, lb in full for i in range(max(len(la.xs), len(lb.xs)))]
    pk = lambda a, b: (id(force(a.c, a.k)), id(force(b.c, b.k)))
    known = {pk(a, b) for a, b in child}
    for e in ev:
        R.ob('identity', 'only-corresponding-parts-are-compared', pk(e[0], e[1]) in known or (not e[2] and pk(e[1], e[0]) in known))
        if allow:
            R.ob('binding', 'parts-are-compared-with-the-same-bindings', e[2] is True and e[3] is bound)
    if not allow:
        f = z3.And(conds + [R.same(a, b) if not isinstance(R.same(a, b), bool) else z3.BoolVal(R.same(a, b)) for a, b in child] + [z3.Or(la.full(), z3.Bool(ctx.fresh('rest'))) for la, lb in full])
        R.ob('identity', 'types-match-only-if-they-are-the-same' if res else 'the-same-types-match', f if res else z3.Not(f), '%s: %s' % (k, res))
        R.ob('identity', 'matching-binds-nothing', all(e[2] is False for e in ev))
    elif res:
        got = {pk(e[0], e[1]) for e in ev if e[4]}
        R.ob('binding', 'types-unify-only-if-all-parts-do', z3.And(conds + [z3.BoolVal(all(pk(a, b) in got for a, b in child))] + [la.full() for la, lb in full]), k)
        R.ob('binding', 'no-part-that-fails-to-unify-is-ignored', all(e[4] for e in ev))
    else:
        R.ob('binding', 'types-whose-parts-unify-do', z3.Or(z3.Not(z3.And(conds)), z3.BoolVal(any(not e[4] for e in ev))), k)


@cut
def wrappers(ctx, obs, p, sect):
    """Matches never binds; PolyMatch binds in the given map"""
    R, I = setupT(ctx, obs, p, sect)
    t, x = R.newtype('t'), R.newtype('x')
    ev = []
    v = ctx.bool('result')
    I.stubs['(*main.Type).MatchesImpl'] = lambda I, a: (ev.append(a), v)[1]
    which = ctx.pick(['Matches', 'PolyMatch'])
    m = MapV(None)
    r = I.run(p.funcs['(*main.Type).' + which], [t, x] + ([m] if which == 'PolyMatch' else []), ())
    R.ob('binding', 'the-answer-is-that-of-the-comparison', len(ev) == 1 and ev[0][0] == t and ev[0][1] == x and ev[0][2] is (which == 'PolyMatch'))
    R.ob('binding', 'the-answer-is-passed-on', r == v if issym(r) else False)
    if which == 'PolyMatch':
        R.ob('binding', 'bindings-go-to-the-given-map', ev[0][3] is m)


@cut
def substitute(ctx, obs, p, sect):
    R, I = setupT(ctx, obs, p, sect)
    nb = ctx.choose(3)
    keys = [R.newtype('T%d' % i, kinds=['Parameter']) for i in range(nb)]
    vals = [R.newtype('V%d' % i) for i in range(nb)]
    bound = MapV(None)
    for a, b in zip(keys, vals):
        I.mapset(bound, a, b)
    w = ctx.choose(nb + 1)
    isinst = ctx.choose(2)
    outer = I.new('main.StructType', Name=SStr(ctx.int('name'))) if isinst else None
    t = keys[w] if w < nb else R.newtype('t', decl=outer)
    I.stubs['(*main.Type).Matches'] = lambda I, a: R.same(a[0], a[1])
    memo, ev = {}, []

    def rec(I, a):
        c, b = a[:2]
        if c is None:
            raise GoPanic('nil type')
        k = id(force(c.c, c.k))
        if k not in memo:
            memo[k] = R.newtype('sub')
            R.keep.append(c)
        ev.append(b)
        return memo[k]
    I.stubs['main.substituteType'] = rec
    obs.contracts.add('main.substituteType')
    r = I.run(p.funcs['main.substituteType'], [t, bound], ())
    sub = lambda c: memo.get(id(force(c.c, c.k)))
    ob = lambda n, c, info='': R.ob('subst', n, c, info)
    ob('the-same-bindings-are-used-inside', all(e is bound for e in ev))
    k = R.kindof(t)
    if nb == 0:
        # nothing to substitute: the type itself, or a copy of it
        ob('without-bindings-a-type-stays-what-it-is', r == t)
        return
    if k == 'Parameter' and t in keys:
        ob('a-bound-parameter-becomes-its-type', r == vals[keys.index(t)])
        return
    if k in BASIC or k == 'Parameter':
        ob('other-types-stay', r == t)
        return
    d = lambda z: I.getf(z, 'Data').v
    dt = d(t)
    if k == 'Struct' and ctx.decide(I.getf(dt, 'Types').n == 0):
        ob('a-struct-without-type-parameters-stays', r == t)
        return
    if not (isinstance(r, Ptr) and R.iskind(r, k) is not None):
        raise Unsupported('result')
    ob('the-kind-stays', R.iskind(r, k))
    dr = d(r)

    def lists(what, f=None):
        a, b = I.getf(dt, what), aslist(I.getf(dr, what))
        ob('%s-are-all-substituted-in-order' % what.lower(), z3.And(a.full(), z3.BoolVal(len(b) == len(a.xs) and all((f or (lambda i, x, y: y == sub(x)))(i, x, y) for i, (x, y) in enumerate(zip(a.xs, b))))))
    if k == 'Array':
        ob('the-element-type-is-substituted', I.getf(dr, 'Elem') == sub(I.getf(dt, 'Elem')))
    elif k == 'Function':
        lists('Params')
        ob('the-result-type-is-substituted', I.getf(dr, 'ret') == sub(I.getf(dt, 'ret')))
        ob('the-rest-of-a-function-type-stays', z3.And(I.eq(I.getf(dr, 'Kind'), I.getf(dt, 'Kind')), I.eq(I.getf(dr, 'RawValues'), I.getf(dt, 'RawValues')), I.eq(I.getf(dr, 'isVariadic'), I.getf(dt, 'isVariadic'))))
    elif k == 'Enum':
        ob('the-name-stays', I.eq(I.getf(dr, 'Name'), I.getf(dt, 'Name')))
        lists('Types')
        ob('the-cases-stay', I.getf(dr, 'Members') is I.getf(dt, 'Members'))
    elif k == 'Struct':
        ob('the-name-stays', I.eq(I.getf(dr, 'Name'), I.getf(dt, 'Name')))
        lists('Types')
        ob('it-is-an-instance-of-the-same-declaration', I.getf(dr, 'decl') == (outer if isinst else dt))


@cut
def getfield(ctx, obs, p, sect):
    """a field of a struct type: the first of that name in the declaration, with the type arguments in place of the parameters"""
    R, I = setupT(ctx, obs, p, sect)
    inst = ctx.choose(2)
    ng = 1 + ctx.choose(2) if inst else 0
    F = R.lst('fields', lambda i: R.newsym('field'))
    dtypes = [R.newtype('T%d' % i, kinds=['Parameter']) for i in range(ng)]
    atypes = [R.newtype('A%d' % i) for i in range(ng)]
    decl = I.new('main.StructType', Name=SStr(ctx.int('name')), Fields=F, Types=I.slice(dtypes))
    st = I.new('main.StructType', Name=I.getf(decl, 'Name'), Types=I.slice(atypes), decl=decl) if inst else decl
    subs = []

    def substitute(I, a):
        r = R.newtype('sub')
        subs.append((a[0], {id(force(k.c, k.k)): id(force(v.c, v.k)) for k, v in a[1].entries()}, r))
        return r
    I.stubs['main.substituteType'] = substitute
    obs.contracts.add('main.substituteType')
    name = SStr(ctx.int('selected'))
    r = I.run(p.funcs['(*main.StructType).GetField'], [st, name], ())
    ob = lambda n, c, info='': R.ob('subst', n, c, info)
    eq = lambda s: I.eq(I.getf(s, 'Name'), name)
    if r is None:
        ob('a-declared-field-is-found', z3.And([z3.Not(eq(s)) for s in F.xs] + [F.full()]))
        return
    hit = [s for s in F.xs if ctx.valid(eq(s))[0] is True]
    ob('the-field-of-that-name-is-meant', bool(hit) and all(ctx.valid(z3.Not(eq(s)))[0] is True for s in F.xs[:F.xs.index(hit[0])]))
    if not hit:
        return
    ob('the-field-lies-where-it-was-declared', I.eq(I.getf(r, 'Addr'), I.getf(hit[0], 'Addr')))
    if inst:
        want = {id(force(a.c, a.k)): id(force(b.c, b.k)) for a, b in zip(dtypes, atypes)}
        ob('type-arguments-replace-the-parameters-of-the-declaration', len(subs) == 1 and subs[0][0] == I.getf(hit[0], 'Type') and subs[0][1] == want and I.getf(r, 'Type') == subs[0][2])
    else:
        ob('the-type-is-the-declared-one', I.getf(r, 'Type') == I.getf(hit[0], 'Type'))


@cut
def unbound(ctx, obs, p, sect):
    R, I = setupT(ctx, obs, p, sect)
    nb = ctx.choose(3)
    keys = [R.newtype('T%d' % i, kinds=['Parameter']) for i in range(nb)]
    bound = MapV(None)
    for a in keys:
        I.mapset(bound, a, R.newtype('V'))
    w = ctx.choose(nb + 1)
    t = keys[w] if w < nb else R.newtype('t')
    I.stubs['(*main.Type).Matches'] = lambda I, a: R.same(a[0], a[1])
    memo = {}

    def rec(I, a):
        if a[1] is not bound:
            raise Unsupported('another map')
        k = id(force(a[0].c, a[0].k))
        R.keep.append(a[0])
        if k not in memo:
            memo[k] = bool(ctx.choose(2))
        return Acc([R.newtype('u')]) if memo[k] else None
    I.stubs['main.findUnboundTypeParameters'] = rec
    obs.contracts.add('main.findUnboundTypeParameters')
    r = I.run(p.funcs['main.findUnboundTypeParameters'], [t, bound], ())
    some = bool(aslist(r))
    k = R.kindof(t)
    d = lambda: I.getf(t, 'Data').v
    if k == 'Parameter':
        want = t not in keys
    elif k in BASIC:
        want = False
    else:
        parts, ls = [], []
        if k == 'Array':
            parts = [elem(R, t)]
        elif k == 'Function':
            parts, ls = [I.getf(d(), 'ret')], [I.getf(d(), 'Params')]
        else:
            ls = [I.getf(d(), 'Types')]
        allp = parts + [x for l in ls for x in l.xs]
        ks = [id(force(x.c, x.k)) for x in allp]
        R.ob('binding', 'every-part-is-looked-at', z3.And([z3.BoolVal(all(q in memo for q in ks) or some)] + [z3.Or(l.full(), z3.BoolVal(some)) for l in ls]))
        want = any(memo.get(q) for q in ks)
    R.ob('binding', 'a-type-is-bound-exactly-when-all-its-parameters-are', some == want, '%s: %s, expected %s' % (k, some, want))
