"""Contracts of closure conversion (C08)."""
import z3
from .ssa import *
from .semv import *
from .declv import start, ident_

OPENS = ['opIf', 'opElseIf', 'opElse', 'opCase', 'opWhile', 'opFor']
SHAPES = {
    'opElse': 's', 'opFuncCall': 'lps', 'opWhile': 'Ls', 'opMatch': 'Ls', 'opTernary': 'Ls', 'opCase': 'ps', 'opIf': 'Lsr', 'opElseIf': 'Lsr',
    'opFor': 'LRs', 'opReturn': 'l', 'opNot': 'L', 'opNeg': 'L', 'opBNot': 'L', 'opAs': 'LR', 'opDas': 'LR',
    'opAdd': 'LR', 'opSub': 'LR', 'opMul': 'LR', 'opDiv': 'LR', 'opAnd': 'LR', 'opOr': 'LR', 'opBAnd': 'LR', 'opBOr': 'LR', 'opBXor': 'LR',
    'opEq': 'LR', 'opGt': 'LR', 'opGte': 'LR', 'opLt': 'LR', 'opLte': 'LR', 'opBLeft': 'LR', 'opBRight': 'LR', 'opDot': 'LR', 'opArray': 'LR',
    'opRange': 'LR', 'opArrayLit': 'ls'}
SLOT = {'l': 'left', 'r': 'right', 's': 'stmts', 'p': 'params'}


class Clo(Rule):
    def go(self, fname, *a):
        return self.I.run(self.p.funcs[fname], list(a), ())

    def ob8(self, name, cond, info=''):
        self.ob('closure', name, cond, info)

    def table(self, *syms, parent=None):
        m = MapV(None)
        for s in syms:
            self.I.mapset(m, self.I.getf(s, 'Name'), s)
        return self.I.new('main.SymTab', symbols=m, parent=parent)

    def lit(self):
        return self.I.new('main.Node', op=self.p.const('main.opLit'), token=self.token(), sym=self.sym('1', IsLiteral=True))

    def sym(self, name, **kw):
        f = dict(Name=name, Addr=0, IsStack=False, IsGlobal=False, IsLiteral=False, IsType=False, Next=None)
        f.update(kw)
        return self.newsym(name, **f)

    def mk(self, op, **kw):
        kw.setdefault('token', self.token())
        return self.I.new('main.Node', op=self.p.const('main.' + op), **kw)

    def put(self, op, pos, child, **kw):
        """a node of the kind with the child at the position and literals elsewhere"""
        f = dict(kw)
        for c in SHAPES[op]:
            slot = SLOT[c.lower()]
            x = child if c == pos else self.lit()
            if slot in ('stmts', 'params'):
                f[slot] = self.I.slice([self.lit(), x] if c == pos else [x]) if self.p.const('main.' + op) != self.p.const('main.opCase') or slot == 'stmts' or c == pos else None
            else:
                f[slot] = x
        return self.mk(op, **f)


def setup8(ctx, obs, p, sect, real=()):
    R = Clo(ctx, obs, p, sect)
    for n in ('Resolve', 'Define', 'Child'):
        if n in real:
            R.I.stubs.pop('(*main.SymTab).' + n, None)
    R.I.loophooks.pop('*', None)
    R.I.newacc = None
    return R, R.I


@cut
def freevars(ctx, obs, p, sect, outer):
    """clIdentifyFreeVars on every function body that uses one variable below two nodes: exactly the outside variables are found"""
    R, I = setup8(ctx, obs, p, sect, real=('Resolve', 'Define', 'Child'))
    kind = ctx.pick(['outside', 'parameter', 'local', 'block local', 'global', 'field', 'sibling'])
    wraps = [(o, c) for o in sorted(SHAPES) for c in SHAPES[o]]
    if outer is None:
        chain_ = [ctx.pick(wraps)] if ctx.choose(2) else []
    else:
        chain_ = [(outer, ctx.pick(list(SHAPES[outer]))), ctx.pick(wraps)]
    name = 'x'
    x = R.sym(name, IsGlobal=kind == 'global')
    fnsyms = [x] if kind in ('parameter', 'local') else []
    use = R.mk('opIdentifier', sym=x)
    if kind == 'field':
        if not chain_ or chain_[-1] != ('opDot', 'R'):
            raise StopPath('not a field')
    elif chain_ and chain_[-1] == ('opDot', 'R'):
        raise StopPath('a field')
    inner = None
    node, owned = use, False
    for op, c in reversed(chain_):
        kw = {}
        if op in OPENS:
            mine = []
            inside = c in 'sp' or (op == 'opFor' and c == 'L')
            if kind == 'block local' and not owned and inside:
                mine, owned = [x], True
            elif kind == 'block local' and not owned:
                raise StopPath('not visible here')
            elif kind == 'sibling':
                # a different variable of the same name, declared in a block inside the function that does not contain the use
                mine = [] if inside else [R.sym(name)]
            kw['symtab'] = R.table(*mine)
        node = R.put(op, c, node, **kw)
    if kind == 'block local' and not owned:
        raise StopPath('no block')
    stmts = [node]
    if kind == 'sibling':
        y = R.sym(name)
        stmts.insert(0, R.mk('opIf', left=R.lit(), symtab=R.table(y), stmts=I.slice([R.mk('opDas', left=R.mk('opIdentifier', sym=y), right=R.lit())])))
    fn = R.mk('opBlockFnDcl', stmts=I.slice(stmts), symtab=R.table(*fnsyms), token=R.token(Val='fn'), sym=R.sym('fn'))
    r = aslist(R.go('main.clIdentifyFreeVars', fn))
    want = [x] if kind in ('outside', 'sibling') else []
    R.ob8('exactly-the-outside-variables-used-are-captured', r == want, '%s: %s' % (kind, chain_))


@cut
def several(ctx, obs, p, sect):
    """every outside variable once, however often it is used"""
    R, I = setup8(ctx, obs, p, sect)
    syms = [R.sym('v%d' % i) for i in range(3)]
    uses = [ctx.choose(4) for _ in range(3)]
    loc = R.sym('loc')
    ids = [R.mk('opIdentifier', sym=syms[u] if u < 3 else loc) for u in uses]
    fn = R.mk('opBlockFnDcl', stmts=I.slice([R.mk('opDas', left=R.mk('opIdentifier', sym=loc), right=ids[0]), R.mk('opReturn', left=R.mk('opAdd', left=ids[1], right=ids[2]))]),
              symtab=R.table(loc), token=R.token(Val='fn'), sym=R.sym('fn'))
    r = aslist(R.go('main.clIdentifyFreeVars', fn))
    want = {ident_(syms[u]) for u in uses if u < 3}
    R.ob8('every-outside-variable-is-captured-once', sorted(ident_(s) for s in r) == sorted(want))


@cut
def enter(ctx, obs, p, sect):
    """one step of the search, from any path"""
    R, I = setup8(ctx, obs, p, sect)
    tid = p.by_name['main.freeVarChecker']
    fs = {f['n'] for f in p.fields(tid)}
    if not {'n', 'stack', 'scopes', 'free'} <= fs or 'IdentityFreeVars' not in str([k for k in p.funcs if 'freeVarChecker' in k]):
        raise Unsupported('another representation')
    root = R.mk('opBlockFnDcl', symtab=R.table())
    nsc = ctx.pick([1, 2, 3, 12])
    scopes = [I.new('main.SymTab') for _ in range(nsc)]
    op = ctx.pick(sorted(SHAPES) + ['opIdentifier', 'opLit', 'opBlockFnDcl', 'opExprFnDcl'])
    own = R.table()
    sym = R.newsym('x')
    hassym = bool(ctx.choose(2))
    n = R.mk(op, symtab=own, sym=sym if hassym else None)
    owns = [z3.Bool(ctx.fresh('owns')) for _ in scopes]

    def Owns(I, a):
        if a[1] != sym:
            raise Unsupported('another symbol')
        return owns[scopes.index(a[0])]
    I.stubs['(*main.SymTab).Owns'] = Owns
    obs.contracts.add('(*main.SymTab).Owns')
    pk = ctx.choose(4)
    parent = None
    if pk == 1:
        parent = R.mk('opDot', left=R.lit(), right=n)
    elif pk == 2:
        parent = R.mk('opDot', left=n, right=R.lit())
    elif pk == 3:
        parent = R.mk('opAdd', left=R.lit(), right=n)
    deep = ctx.pick([0, 7, 30])     # the path above may have any length
    stack = [root] + [R.mk('opAdd', left=R.lit(), right=R.lit()) for _ in range(deep)] + ([parent] if parent else [])
    free = MapV(None)
    fc = I.new('main.freeVarChecker', n=root, stack=I.slice(list(stack)), scopes=I.slice(list(scopes)), free=free)
    r = R.go('(*main.freeVarChecker).IdentityFreeVars', fc, n)
    st, sc = aslist(I.getf(fc, 'stack')), aslist(I.getf(fc, 'scopes'))
    got = [k for k, v in free.entries()]
    if op in ('opBlockFnDcl', 'opExprFnDcl'):
        R.ob8('another-function-is-not-searched', r is False and st == stack and sc == scopes and not got)
        return
    R.ob8('everything-else-is-searched', r is True)
    R.ob8('the-path-leads-to-the-node', st == stack + [n])
    R.ob8('blocks-on-the-path-are-scopes', sc == scopes + ([own] if op in OPENS else []), op)
    isfree = z3.And([z3.BoolVal(op == 'opIdentifier' and hassym and pk != 1), z3.Not(I.getf(sym, 'IsGlobal')), z3.Not(I.getf(sym, 'IsLiteral'))] + [z3.Not(o) for o in owns])
    R.ob8('a-variable-is-captured-exactly-if-it-is-declared-outside', isfree if got else z3.Not(isfree))
    R.ob8('only-that-variable-is-captured', all(k == sym for k in got))
    # and out again
    R.go('(*main.freeVarChecker).IdentityFreeVars', fc, None)
    R.ob8('leaving-a-node-restores-the-path', aslist(I.getf(fc, 'stack')) == stack and aslist(I.getf(fc, 'scopes')) == scopes)


@cut
def rewrite(ctx, obs, p, sect):
    """clRewriteFreeVars: captured uses become fields of the environment, nothing else changes"""
    R, I = setup8(ctx, obs, p, sect)
    k = 1 + ctx.choose(3)
    free = [R.sym('v%d' % i) for i in range(k)]
    fields = [R.sym('v%d' % i, Addr=8 * i, Type=I.getf(v, 'Type')) for i, v in enumerate(free)]
    T = I.new('main.Type', Kind=R.K['Struct'], Data=IfaceV(p.ptr_to[p.by_name['main.StructType']], I.new('main.StructType', Name='env', Fields=I.slice(fields))))
    env = R.sym('env', Type=T, IsGlobal=True)
    old = [R.mk('opIdentifier', sym=R.sym('p%d' % i)) for i in range(ctx.choose(6))]
    oldt = [R.newtype('p') for _ in old]
    f = R.newfn('fn', params=I.slice(list(oldt)))
    ft = I.new('main.Type', Kind=R.K['Function'], Data=IfaceV(p.ptr_to[p.by_name['main.FunctionType']], f))
    which = ctx.pick(list(range(k)) + ['other', 'same name', 'not an identifier', 'none'])
    s = free[which] if isinstance(which, int) else R.sym('v0') if which == 'same name' else None if which == 'none' else free[0] if which == 'not an identifier' else R.sym('other')
    typ = R.newtype('use')
    e = R.mk('opIdentifier' if which != 'not an identifier' else 'opFuncCall', sym=s, typ=typ)
    l, r = I.getf(e, 'left'), I.getf(e, 'right')
    n = R.mk('opBlockFnDcl', params=I.slice(list(old)), sym=R.sym('fn', Type=ft), stmts=I.slice([e]))
    op0, tok0 = I.getf(e, 'op'), I.getf(e, 'token')
    walked = []

    def walk(I, a):
        if a[0] != n:
            raise Unsupported('walk of another tree')
        walked.append(a[0])
        I.callv(a[1], [e])
    I.stubs['main.WalkPostOrder'] = walk
    obs.contracts.add('main.WalkPostOrder')
    R.go('main.clRewriteFreeVars', n, env, I.slice(list(free)))
    R.ob8('the-whole-function-is-rewritten', len(walked) == 1)
    ps = aslist(I.getf(n, 'params'))
    R.ob8('the-environment-is-the-first-parameter', len(ps) == len(old) + 1 and ps[1:] == old and I.getf(ps[0], 'sym') == env)
    R.ob8('the-environment-is-the-first-parameter-of-the-type', aslist(I.getf(f, 'Params')) == [T] + oldt)
    if isinstance(which, int):
        L, Rt = I.getf(e, 'left'), I.getf(e, 'right')
        R.ob8('a-captured-use-selects-its-slot', I.getf(e, 'op') == p.const('main.opDot') and L is not None and I.getf(L, 'op') == p.const('main.opIdentifier') and I.getf(L, 'sym') == env
              and Rt is not None and I.getf(Rt, 'sym') == fields[which], which)
        R.ob8('a-captured-use-keeps-its-type', I.getf(e, 'typ') == typ)
    else:
        R.ob8('no-other-use-is-redirected', I.getf(e, 'op') == op0 and I.getf(e, 'sym') == s and I.getf(e, 'left') == l and I.getf(e, 'right') == r and I.getf(e, 'token') == tok0, which)


@cut
def genstruct(ctx, obs, p, sect):
    """generateStruct: one field per symbol, in order, at consecutive slots, with the types of the symbols"""
    R, I = setup8(ctx, obs, p, sect)
    k = ctx.choose(4)
    syms = [R.sym('v%d' % i, Addr=ctx.int('addr')) for i in range(k)]
    st = I.new('main.SymTab')
    root = R.mk('opRoot', symtab=st)
    R.ondefine = lambda s, sym: None
    cons = R.sym('Env')
    asked = []

    def gen(I, a):
        asked.append(a)
        return (cons, None)
    I.stubs['main.generateStructConstructor'] = gen
    obs.contracts.add('main.generateStructConstructor')
    sym, c = R.go('main.generateStruct', root, 'env.1', I.slice(list(syms)))
    T = I.getf(sym, 'Type')
    D = I.getf(T, 'Data').v
    F = aslist(I.getf(D, 'Fields'))
    R.ob8('one-slot-per-variable-in-order', R.kindof(T) == 'Struct' and len(F) == k and all(I.getf(x, 'Name') == 'v%d' % i and I.getf(x, 'Type') == I.getf(s, 'Type') for i, (x, s) in enumerate(zip(F, syms))))
    R.ob8('slots-do-not-overlap', [I.getf(x, 'Addr') for x in F] == [8 * i for i in range(k)])
    R.ob8('slots-are-not-the-variables', not any(x == s for x in F for s in syms))
    ss = aslist(I.getf(root, 'stmts'))
    R.ob8('the-struct-is-declared-and-has-a-constructor', len(ss) == 1 and I.getf(ss[0], 'op') == p.const('main.opStructDcl') and I.getf(ss[0], 'sym') == sym and len(asked) == 1 and asked[0][1] == ss[0] and c == cons
          and [I.getf(x, 'sym') for x in aslist(I.getf(ss[0], 'stmts'))] == F)
    R.ob8('the-struct-is-not-a-captured-variable-itself', I.getf(sym, 'IsGlobal') is True)


@cut
def convert(ctx, obs, p, sect, nfree):
    """rewriteAnonFnAndClosures on a local function"""
    R, I = setup8(ctx, obs, p, sect)
    op = ctx.pick(['opBlockFnDcl', 'opExprFnDcl', 'opExternFnDcl', 'opIdentifier'])
    name = ctx.pick(['fn', 'f'])
    st = I.new('main.SymTab')
    before = R.mk('opBlockFnDcl')
    root = R.mk('opRoot', symtab=st, stmts=I.slice([before]))
    f = R.newfn('fn', params=I.slice([R.newtype('p')]), fkind=p.const('main.Normal'))
    ft = I.new('main.Type', Kind=R.K['Function'], Data=IfaceV(p.ptr_to[p.by_name['main.FunctionType']], f))
    fsym = R.sym('fn', Type=ft)
    body = R.mk('opReturn')
    param = R.mk('opIdentifier', sym=R.sym('p'))
    rty = R.mk('opNamedType')
    n = R.mk(op, token=R.token(Val=name), sym=fsym, typ=ft, stmts=I.slice([body]), params=I.slice([param]), left=rty, symtab=R.table())
    free = [R.sym('v%d' % i) for i in range(nfree)]
    log = []

    def identify(I, a):
        log.append(('identify', a[0]))
        return I.slice(list(free))

    def generate(I, a):
        nm, fields = a[1], aslist(a[2])
        ty = R.newtype('struct', kinds=['Struct'])
        cf = R.newfn('cons')
        I.setf(cf, 'ret', ty)
        s = R.sym('struct%d' % len(log), Type=ty, IsGlobal=True)
        c = R.sym('Cons%d' % len(log), Type=I.new('main.Type', Kind=R.K['Function'], Data=IfaceV(p.ptr_to[p.by_name['main.FunctionType']], cf)), IsGlobal=True)
        log.append(('struct', list(fields), s, c, nm))
        return (s, c)

    def rewr(I, a):
        log.append(('rewrite', a[0], a[1], aslist(a[2])))
    copies = []

    def copy(I, a):
        c = R.mk('opBlockFnDcl', token=I.getf(a[0], 'token'), sym=I.getf(a[0], 'sym'), typ=I.getf(a[0], 'typ'), stmts=I.getf(a[0], 'stmts'), params=I.getf(a[0], 'params'), left=I.getf(a[0], 'left'))
        copies.append((c, a[0], len(log)))
        return c
    I.stubs.update({'main.clIdentifyFreeVars': identify, 'main.generateStruct': generate, 'main.clRewriteFreeVars': rewr, 'main.copyNode': copy})
    obs.contracts.update(['main.clIdentifyFreeVars', 'main.generateStruct', 'main.clRewriteFreeVars', 'main.copyNode'])
    cell = Ptr([None], 0)
    inv = R.sym('invokeDynamic', IsGlobal=True)
    R.onresolve = lambda s, nm: (inv, True)
    R.go('main.rewriteAnonFnAndClosures', cell, root, n)
    bad = Errs.of(I, load(cell)).bad()
    ss = aslist(I.getf(root, 'stmts'))
    local = op in ('opBlockFnDcl', 'opExprFnDcl') and name == 'fn'
    o = lambda x: I.getf(x, 'op')
    if not local:
        R.ob8('only-local-functions-are-converted', not bad and not log and ss == [before] and o(n) == p.const('main.' + op) and I.getf(n, 'sym') == fsym)
        return
    R.ob8('only-too-many-variables-are-an-error', bad == (nfree > 6))
    if bad:
        return
    R.ob8('the-variables-captured-are-those-identified', [e for e in log if e[0] == 'identify'] == [('identify', n)])
    if nfree == 0:
        R.ob8('a-function-without-outside-variables-has-no-environment', not any(e[0] != 'identify' for e in log) and o(n) == p.const('main.opIdentifier') and I.getf(n, 'sym') == fsym)
        R.ob8('it-becomes-a-function-of-the-program', len(copies) == 1 and ss == [before, copies[0][0]] and copies[0][1] == n and I.getf(fsym, 'IsGlobal') is True)
        R.ob8('its-name-is-that-of-the-function', I.getf(n, 'token') == I.getf(copies[0][0], 'token') if copies else False)
        return
    S_ = [e for e in log if e[0] == 'struct']
    W_ = [e for e in log if e[0] == 'rewrite']
    envs = [e for e in S_ if e[1] == free]
    R.ob8('the-environment-has-a-slot-per-captured-variable', len(envs) == 1)
    if not envs:
        return
    env = envs[0]
    cl = [e for e in S_ if e is not env]
    R.ob8('a-closure-is-a-function-and-its-environment', len(cl) == 1 and len(cl[0][1]) == 2 and cl[0][1][0] == fsym and cl[0][1][1] == env[2])
    R.ob8('captured-uses-are-redirected-to-that-environment-before-the-function-moves', len(W_) == 1 and W_[0][1] == n and W_[0][2] == env[2] and W_[0][3] == free and len(copies) == 1 and copies[0][1] == n
          and log.index(W_[0]) < copies[0][2])
    R.ob8('it-becomes-a-function-of-the-program', len(copies) == 1 and ss[:1] == [before] and ss[-1] == copies[0][0] and I.getf(fsym, 'IsGlobal') is True and I.getf(f, 'Kind') == p.const('main.Closure'))
    if not cl or not copies:
        return
    L = I.getf(n, 'left')
    args = aslist(I.getf(n, 'stmts'))
    R.ob8('it-is-replaced-by-the-construction-of-the-closure', o(n) == p.const('main.opFuncCall') and L is not None and I.getf(L, 'sym') == cl[0][3] and len(args) == 2
          and I.getf(args[0], 'sym') == fsym and o(args[1]) == p.const('main.opFuncCall') and I.getf(I.getf(args[1], 'left'), 'sym') == env[3])
    if len(args) == 2:
        ea = aslist(I.getf(args[1], 'stmts'))
        R.ob8('the-environment-holds-the-current-values-in-order', [I.getf(x, 'sym') for x in ea] == free and all(o(x) == p.const('main.opIdentifier') for x in ea))


@cut
def dynamic(ctx, obs, p, sect):
    """calls of function values: the value is passed on as first argument"""
    R, I = setup8(ctx, obs, p, sect)
    op = ctx.pick(['opFuncCall', 'opAdd'])
    callee = ctx.pick(['global', 'local', 'expression'])
    k = ctx.choose(7)
    args = [R.lit() for _ in range(k)]
    left = R.mk('opIdentifier' if callee != 'expression' else 'opFuncCall', sym=None if callee == 'expression' else R.sym('f', IsGlobal=callee == 'global'))
    n = R.mk(op, left=left, stmts=I.slice(list(args)))
    root = R.mk('opRoot', symtab=I.new('main.SymTab'))
    inv = R.sym('invokeDynamic', IsGlobal=True)
    R.onresolve = lambda s, nm: (inv, True) if nm == 'invokeDynamic' else (R.sym('other'), True)
    cell = Ptr([None], 0)
    R.go('main.rewriteAnonFnAndClosures', cell, root, n)
    bad = Errs.of(I, load(cell)).bad()
    dyn = op == 'opFuncCall' and callee != 'global'
    R.ob8('only-too-many-arguments-are-an-error', bad == (dyn and k > 5))
    if bad:
        return
    ss = aslist(I.getf(n, 'stmts'))
    if not dyn:
        R.ob8('a-call-of-a-named-function-stays', I.getf(n, 'left') == left and ss == args)
    else:
        R.ob8('a-function-value-is-passed-to-the-invoker-with-its-arguments', I.getf(I.getf(n, 'left'), 'sym') == inv and ss == [left] + args)


@cut
def copynode(ctx, obs, p, sect):
    """copyNode: the same tree, no node shared"""
    R, I = setup8(ctx, obs, p, sect)
    l = R.lit() if ctx.choose(2) else None
    r = R.lit() if ctx.choose(2) else None
    ps = [R.lit() for _ in range(ctx.choose(3))]
    ss = [R.lit() for _ in range(ctx.choose(3))]
    n = R.mk('opBlockFnDcl', left=l, right=r, params=I.slice(list(ps)), stmts=I.slice(list(ss)), sym=R.sym('s'), typ=R.newtype('t'), symtab=R.table())
    m = {}

    def rec(I, a):
        m[ident_(a[0])] = R.lit()
        R.keep.append(a[0])
        return m[ident_(a[0])]
    I.stubs['main.copyNode'] = rec
    obs.contracts.add('main.copyNode')
    c = R.go('main.copyNode', n)
    R.ob8('a-copy-is-another-node', c is not None and c != n)
    R.ob8('a-copy-has-the-same-contents', all(I.getf(c, f) == I.getf(n, f) for f in ('token', 'typ', 'symtab', 'op', 'sym')))
    cp = lambda x: None if x is None else m.get(ident_(x))
    R.ob8('a-copy-has-copies-of-the-children', I.getf(c, 'left') == cp(l) and I.getf(c, 'right') == cp(r) and aslist(I.getf(c, 'params')) == [cp(x) for x in ps] and aslist(I.getf(c, 'stmts')) == [cp(x) for x in ss])
