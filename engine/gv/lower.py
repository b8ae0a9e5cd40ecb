"""Contracts of the passes which rewrite the typed tree (for, match, array literals, negative literals) and of the layout of
structs and enums. The rewritten tree is given its meaning by the contracts of code generation (C09-C14): an abstract machine over
the tree the real pass returned, with operands and bodies arbitrary (functions of the world)."""
import z3
from .ssa import *
from .cg import CG, guarded, Bad, andl

W = z3.DeclareSort('W')
BV = z3.BitVecSort(63)


def b(n):
    return z3.BitVecVal(n, 63)


word = z3.Function('word', z3.IntSort(), BV)   # the 63-bit word of an integer


class Tree(CG):
    def __init__(self, obs, p, ctx, sect):
        CG.__init__(self, obs, p, ctx, 0, sect=sect)
        self.ops = {p.const('main.' + n): n for n in (
            'opAdd opSub opMul opDiv opEq opLt opLte opGt opGte opLit opIdentifier opDot opArray opFuncCall opBlock opWhile opDas opAs '
            'opIf opElseIf opElse opNeg opNot opAnd opOr opFor opMatch opArrayLit opCase opRange opTernary').split()}
        self.w = z3.Const(ctx.fresh('w0'), W)
        self.w0 = self.w
        self.env, self.symkeep = {}, []
        self.events = []
        self.pure = {}       # name -> value
        self.stores = []     # element stores through setElement
        self.made = []       # arrays made by arrayNoInit
        self.stmtids = {}
        self.on_while = None
        self.fns = {}        # id(symbol container) -> python meaning of a known function
        self.I.ext['strconv.Itoa'] = lambda I, a: str(a[0]) if isinstance(a[0], int) else self.opaque_text('itoa', a[0])

    # ------------------------------------------------------------ building
    def stmt(self, name):
        n = self.I.new('main.Node', op=self.p.const('main.opAs'))
        st = n.c[n.k]

        def deep():
            raise Unsupported('the code looks into a statement')
        op = z3.Int(self.ctx.fresh('op_' + name))
        self.ctx.assume(z3.Or([op == self.p.const('main.' + o) for o in (
            'opAs', 'opDas', 'opFuncCall', 'opIf', 'opWhile', 'opBlock', 'opReturn')]))
        for i, f in enumerate(self.p.fields(st.tid)):
            st[i] = op if f['n'] == 'op' else Lazy(deep)
        self.stmtids[id(n.c)] = name
        self.keep = getattr(self, 'keep', []) + [n]
        return n

    def sym(self, name, typ, **kw):
        s = self.I.new('main.Symbol', Name=name, Type=typ, **kw)
        self.symkeep.append(s)
        return s

    def token(self, val, kind=0):
        return self.I.new('lex.Token', Val=val, Kind=kind)

    def fun(self, name, ret, meaning):
        ft = self.I.new('main.FunctionType', ret=ret)
        s = self.sym(name, self.type('Function', ft), IsGlobal=True)
        self.fns[id(s.c)] = (name, meaning)
        return s

    # ------------------------------------------------------------ meaning
    def op(self, n):
        o = self.I.getf(n, 'op')
        if not isinstance(o, int):
            raise Unsupported('symbolic operation')
        return self.ops.get(o, str(o))

    def symof(self, n):
        s = self.I.getf(n, 'sym')
        if s is None:
            raise Bad('identifier-has-a-symbol', 'an identifier of the rewritten tree has no symbol')
        return s

    def val(self, name, w):
        if name in self.pure:
            return self.pure[name]
        return z3.Function('val_' + name, W, BV)(w)

    def post(self, name, w):
        if name in self.pure:
            return w
        return z3.Function('post_' + name, W, W)(w)

    def elem(self, a, i, w):
        return z3.Function('elem', BV, BV, W, BV)(a, i, w)

    def length(self, a):
        n = z3.Function('length', BV, BV)(a)
        self.ctx.assume(z3.And(n >= 0, n <= b(2**56)))
        return n

    def field(self, a, off, w):
        return z3.Function('field', BV, z3.IntSort(), W, BV)(a, off if not isinstance(off, int) else z3.IntVal(off), w)

    def ev(self, n):
        I = self.I
        if n is None:
            raise Bad('operand-present', 'an operand is missing')
        if id(n.c) in self.ids:
            name = self.ids[id(n.c)]
            v = self.val(name, self.w)
            if name not in self.pure:
                self.events.append(('eval', name, self.w))
            self.w = self.post(name, self.w)
            return v
        o = self.op(n)
        if o == 'opIdentifier':
            s = self.symof(n)
            if id(s.c) not in self.env:
                raise Bad('variable-set-before-use', 'variable %s is read before it is set' % I.getf(s, 'Name'))
            return self.env[id(s.c)]
        if o == 'opLit':
            s = I.getf(n, 'sym')
            if s is None:
                raise Bad('literal-has-a-symbol', 'a literal made by the pass has no symbol')
            try:
                t = I.getf(s, 'Name')
                return b(int(t, 0))
            except (TypeError, ValueError):
                raise Unsupported('literal %r' % (t,))
        if o in ('opAdd', 'opSub', 'opMul', 'opEq', 'opLt', 'opLte', 'opGt', 'opGte'):
            x = self.ev(I.getf(n, 'left'))
            y = self.ev(I.getf(n, 'right'))
            return {'opAdd': lambda: x + y, 'opSub': lambda: x - y, 'opMul': lambda: x * y, 'opEq': lambda: x == y, 'opLt': lambda: x < y,
                    'opLte': lambda: x <= y, 'opGt': lambda: x > y, 'opGte': lambda: x >= y}[o]()
        if o == 'opNeg':
            return -self.ev(I.getf(n, 'left'))
        if o == 'opNot':
            return z3.Not(self.ev(I.getf(n, 'left')))
        if o == 'opDot':
            l = I.getf(n, 'left')
            x = self.ev(l)
            s = self.symof(I.getf(n, 'right'))
            lt = I.getf(l, 'typ')
            if lt is not None and self.kind(lt) == 'Array':
                return self.length(x)
            return self.field(x, I.getf(s, 'Addr'), self.w)
        if o == 'opArray':
            x = self.ev(I.getf(n, 'left'))
            y = self.ev(I.getf(n, 'right'))
            self.ob('flow', 'index-within-bounds', z3.And(y >= 0, y < self.length(x)))
            return self.elem(x, y, self.w)
        if o == 'opFuncCall':
            s = I.getf(I.getf(n, 'left'), 'sym')
            if s is None or id(s.c) not in self.fns:
                raise Unsupported('call of another function')
            args = [self.ev(a) for a in I.items(I.getf(n, 'stmts'))]
            return self.fns[id(s.c)][1](*args)
        if o == 'opArrayLit':
            return self.ev(I.getf(n, 'left'))
        raise Unsupported('expression %s' % o)

    def run(self, stmts):
        """statements in order; returns 'ret' when a body returned"""
        I = self.I
        for n in stmts:
            if id(n.c) in self.stmtids:
                name = self.stmtids[id(n.c)]
                self.events.append(('stmt', name, self.w, dict(self.env)))
                self.w = self.post(name, self.w)
                continue
            o = self.op(n)
            if o == 'opDas' or o == 'opAs':
                l = I.getf(n, 'left')
                v = self.ev(I.getf(n, 'right'))
                if self.op(l) != 'opIdentifier':
                    raise Unsupported('assignment')
                self.env[id(self.symof(l).c)] = v
            elif o == 'opBlock':
                self.run(I.items(I.getf(n, 'stmts')))
            elif o in ('opElseIf', 'opElse'):
                self.ob('flow', 'a-branch-belongs-to-an-if', False, o)   # code generation takes them only behind an if
                self.cond(n)
            elif o == 'opIf':
                self.cond(n)
            elif o == 'opWhile':
                self.on_while(n)
            else:
                self.ev(n)

    def cond(self, n):
        I = self.I
        o = self.op(n)
        if o == 'opElse':
            return self.run(I.items(I.getf(n, 'stmts')))
        c = self.ev(I.getf(n, 'left'))
        if self.ctx.decide(c):
            return self.run(I.items(I.getf(n, 'stmts')))
        r = I.getf(n, 'right')
        if r is not None:
            self.cond(r)

    def assigned(self, n, out):
        """variables a real (not opaque) subtree assigns"""
        I = self.I
        if n is None or id(n.c) in self.ids or id(n.c) in self.stmtids:
            return out
        if self.op(n) in ('opDas', 'opAs'):
            l = I.getf(n, 'left')
            if self.op(l) == 'opIdentifier':
                out[id(self.symof(l).c)] = 1
        for f in ('left', 'right'):
            self.assigned(I.getf(n, f), out)
        for x in I.items(I.getf(n, 'stmts')):
            self.assigned(x, out)
        return out


@guarded
def forloop(ctx, obs, p, sect, over):
    """lowerForStatement: a for loop over an array or a range"""
    c = Tree(obs, p, ctx, sect)
    I = c.I
    et = ctx.pick(['Integer', 'Struct']) if over == 'array' else 'Integer'
    et = c.type(et)
    x = c.sym('x', et, IsStack=True)
    xn = c.node('opIdentifier', sym=x, typ=et, token=c.token('x'))
    nb = ctx.pick([2, 0, 1])
    body = [c.stmt('body%d' % i) for i in range(nb)]
    tail = ''
    if over == 'array':
        at = c.type('Array', I.new('main.ArrayType', Elem=et))
        right = c.child('array', at)
    else:
        rt = c.type('Integer')
        a = c.child('start', c.gtype('intType'))
        if over == 'up':
            kinds = ['expr', '7', '-3', '10']
            tail = ctx.pick(kinds)
            if tail == 'expr':
                e = c.child('end', c.gtype('intType'))
                # any expression but a literal
                ctx.assume(I.getf(e, 'op') != p.const('main.opLit'))
                c.pure['end'] = vb = z3.BitVec(ctx.fresh('end'), 63)
            else:
                e = c.node('opLit', token=c.token(tail, p.const('lex.Integer')), typ=c.gtype('intType'),
                           sym=c.sym(tail, c.gtype('intType'), IsLiteral=True))
                vb = b(int(tail))
        else:
            e = c.node('opLit', token=c.token('0', p.const('lex.Integer')), typ=c.gtype('intType'),
                       sym=c.sym('0', c.gtype('intType'), IsLiteral=True))
        right = c.node('opRange', left=a, right=e, typ=c.gtype('intType'), token=c.token('..'))
    n = c.node('opFor', left=xn, right=right, stmts=I.slice(body) if body else None, token=c.token('for'))
    I.call('main.lowerForStatement', [n])
    done = []

    def loop(wn):
        c.ob('flow', 'one-loop', not done)
        done.append(wn)
        cond, stmts = I.getf(wn, 'left'), I.items(I.getf(wn, 'stmts'))
        env0, w1 = dict(c.env), c.w
        k = z3.BitVec(ctx.fresh('k'), 63)
        wk = z3.Const(ctx.fresh('wk'), W)
        # before the loop the range or the array is evaluated once, and nothing else
        if over == 'array':
            arr = c.val('array', c.w0)
            N = c.length(arr)
            c.ob('order', 'array-evaluated-once-before-the-loop', c.events == [('eval', 'array', c.w0)], str(c.events))
            item = lambda w: c.elem(arr, k, w)
        else:
            va = c.val('start', c.w0)
            c.ob('order', 'start-evaluated-once-before-the-loop', c.events == [('eval', 'start', c.w0)], str(c.events))
            if over == 'up':
                N = z3.If(va < vb, vb - va, b(0))
                item = lambda w: va + k
                ctx.assume(z3.And(va > b(-2**60), va < b(2**60), vb > b(-2**60), vb < b(2**60)) if False else z3.BoolVal(True))
            else:
                ctx.assume(va != b(-2**62))
                N = z3.If(va > 0, va, b(0))
                item = lambda w: va - 1 - k
        ass = c.assigned(wn, {})
        # loop contract: every variable of the loop is its initial value plus c * k, or arbitrary; c found from one iteration
        trial = {}
        save = (dict(c.env), c.w, list(c.events))
        want, c.obs = c.obs, Quiet()
        for s in ass:
            c.env[s] = trial[s] = z3.BitVec(ctx.fresh('t'), 63)
        try:
            c.ev(cond)
            c.run(stmts)
        finally:
            c.obs = want
        coef = {}
        for s in ass:
            if s not in env0 or s not in c.env:
                continue
            d = z3.simplify(c.env[s] - trial[s])
            if z3.is_bv_value(d) and d.as_signed_long() in (-1, 0, 1):
                coef[s] = d.as_signed_long()
        c.env, c.w, c.events = dict(save[0]), wk, []
        for s in ass:
            if s in coef:
                c.env[s] = env0[s] + b(coef[s]) * k
            elif s in env0:
                c.env[s] = z3.BitVec(ctx.fresh('h'), 63)
            else:
                c.env.pop(s, None)
        # up to and including the last test k counts the elements visited
        ctx.assume(z3.And(k >= 0, z3.ULE(k, N)))
        more = z3.ULT(k, N)
        cv = c.ev(cond)
        c.ob('flow', 'continues-exactly-while-elements-remain', cv == more, tail)
        c.ob('order', 'test-has-no-effect', z3.And(c.w == wk, z3.BoolVal(not c.events)), str(c.events))
        if not ctx.decide(more):
            # nothing further once the elements are exhausted
            c.w = wk
            c.stop = ('end', wk)
            return
        c.w, c.events = wk, []
        c.run(stmts)
        ev = [e for e in c.events if e[0] == 'stmt']
        c.ob('flow', 'body-runs-once-in-order', [e[1] for e in ev] == ['body%d' % i for i in range(nb)] and len(ev) == len(c.events), str(c.events))
        w = wk
        for e in ev:
            c.ob('flow', 'variable-is-the-element', id(x.c) in e[3] and e[3][id(x.c)] == item(wk), tail)
            c.ob('order', 'nothing-between', e[2] == w)
            w = c.post(e[1], w)
        c.ob('order', 'no-other-effect', c.w == w)
        for s, q in coef.items():
            c.ob('flow', 'loop-contract-preserved', c.env[s] == env0[s] + b(q) * (k + 1))
        c.stop = None
        raise StopPath()
    c.on_while = loop
    try:
        c.events = []
        c.run([n])
    except StopPath:
        return
    if not done:
        c.ob('flow', 'a-loop-is-made', False)
        return
    c.ob('order', 'nothing-after-the-loop', c.w == c.stop[1])


class Quiet:
    want = set()

    def prove(self, *a, **k):
        pass

    def rec(self, *a, **k):
        pass


@guarded
def match(ctx, obs, p, sect, maxcases=7):
    """lowerMatchStatement: the case whose tag the value carries runs, its variables bound by position"""
    c = Tree(obs, p, ctx, sect)
    I = c.I
    ncase = ctx.pick(list(range(maxcases + 1)) + [14])
    et = c.type('Enum')
    ety = c.type('Struct', I.new('main.StructType', Name='enum_', Fields=I.slice(
        [c.sym(nm, c.gtype('intType'), Addr=8 * i) for i, nm in enumerate(['tag'] + ['_%d' % j for j in range(5)])])))
    esym = c.sym('enum_', ety, IsType=True)
    asenum = c.fun('asEnum', ety, lambda v: v)
    I.stubs['(*main.SymTab).MustResolve'] = lambda I, a: {'enum_': esym, 'asEnum': asenum}.get(a[1]) or bad('unknown ' + str(a[1]))

    def bad(m):
        raise Unsupported(m)
    tags = [ctx.int('tag') for _ in range(ncase)]
    for i, t in enumerate(tags):
        ctx.assume(z3.And(t >= 0, t < 1000))
        for u in tags[:i]:
            ctx.assume(t != u)
    ev0 = c.ev

    def ev(n):
        if n is not None and id(n.c) not in c.ids and c.op(n) == 'opLit':
            s = I.getf(n, 'sym')
            t = I.getf(s, 'Name') if s is not None else None
            if hasattr(t, 'num'):
                return word(t.num)
        return ev0(n)
    c.ev = ev
    first = ctx.choose(6)
    nstm = ctx.choose(3) if ncase <= 2 else first % 3
    cases, vars_ = [], []
    for i in range(ncase):
        nv = (first + i * 3) % 6
        vt = [c.type(['Integer', 'Struct', 'String'][(i + j) % 3]) for j in range(nv)]
        vs = [c.sym('v%d_%d' % (i, j), vt[j], IsStack=True) for j in range(nv)]
        ps = [c.node('opIdentifier', sym=s, typ=t, token=c.token('v')) for s, t in zip(vs, vt)]
        ft = I.new('main.FunctionType', Kind=p.const('main.EnumCons'), ret=et, Params=I.slice(vt) if vt else None)
        ecf = I.new('main.EnumConsFunc', Tag=tags[i])
        I.setf(ft, 'Data', IfaceV(p.ptr_to[ecf.c[ecf.k].tid], ecf))
        cs = c.sym('Case%d' % i, c.type('Function', ft), IsGlobal=True)
        nb = [2, 0, 1][(i + nstm) % 3]
        body = [c.stmt('case%d_%d' % (i, j)) for j in range(nb)]
        cases.append(c.node('opCase', sym=cs, typ=et, token=c.token('Case%d' % i), params=I.slice(ps) if ps else None,
                            stmts=I.slice(body) if body else None))
        vars_.append((vs, nb))
    scrut = c.child('subject', et)
    n = c.node('opMatch', left=scrut, stmts=I.slice(cases) if cases else None, token=c.token('match'))
    I.call('main.lowerMatchStatement', [I.new('main.SymTab'), n])
    sv = c.val('subject', c.w0)
    w1 = c.post('subject', c.w0)
    tagv = c.field(sv, 0, w1)
    which = [tagv == word(t) for t in tags]
    for t in tags:   # the conversion is injective on the range
        for u in tags:
            if t is not u:
                ctx.assume(word(t) != word(u))
    c.run([n])
    # which case ran on this path
    ev = c.events
    c.ob('flow', 'subject-evaluated-once-first', len(ev) >= 1 and ev[0] == ('eval', 'subject', c.w0), str(ev))
    ev = ev[1:]
    for i in range(ncase):
        vs, nb = vars_[i]
        hit = which[i]
        exp = ['case%d_%d' % (i, j) for j in range(nb)]
        ran = [e[1] for e in ev]
        if ran != exp:
            c.ob('flow', 'the-matching-case-runs', z3.Not(hit), 'ran %s with the tag of case %d' % (ran, i))
        elif nb:
            w = w1
            for e in ev:
                c.ob('order', 'nothing-between', e[2] == w)
                w = c.post(e[1], w)
                for j, s in enumerate(vs):
                    if id(s.c) not in e[3]:
                        c.ob('field', 'case-variable-bound-by-position', False, 'case %d variable %d' % (i, j))
                    else:
                        c.ob('field', 'case-variable-bound-by-position', z3.Implies(hit, e[3][id(s.c)] == c.field(sv, 8 + 8 * j, w1)),
                             'case %d variable %d' % (i, j))
            c.ob('flow', 'only-the-matching-case-runs', hit, 'case %d' % i)
            c.ob('order', 'no-other-effect', c.w == w)
    if not ev:
        c.ob('order', 'no-other-effect', c.w == w1)
    c.obs.bounded.append('lowerMatchStatement: matches of up to %d cases, and of 14' % maxcases) if not c.obs.bounded else None


@guarded
def arraylit(ctx, obs, p, sect, maxlen=9):
    """rewriteArrayLiteralExpr: an array of that many elements, each its own expression, evaluated in order"""
    c = Tree(obs, p, ctx, sect)
    I = c.I
    k = 1 + ctx.choose(maxlen)
    et = c.gtype('intType')
    at = c.type('Array', I.new('main.ArrayType', Elem=et))
    made, stores = [], []

    def mk(n):
        r = z3.BitVec(ctx.fresh('newarray'), 63)
        made.append((r, n))
        return r

    def put(a, i, v):
        stores.append((a, i, v))
        return a
    fns = {'setElement': c.fun('setElement', at, put), 'arrayNoInit': c.fun('arrayNoInit', at, mk)}

    def res(I, a):
        if a[1] not in fns:
            raise Unsupported('function %s' % a[1])
        return fns[a[1]]
    I.stubs['(*main.SymTab).MustResolve'] = res
    kids = [c.child('e%d' % i, et) for i in range(k)]
    n = c.node('opArrayLit', stmts=I.slice(kids), typ=at, token=c.token('['))
    I.call('main.rewriteArrayLiteralExpr', [n, I.new('main.SymTab')])
    r = c.ev(n)
    c.ob('cons', 'one-array-of-the-right-length', len(made) == 1 and r is made[0][0] and made[0][1] == b(k), '%d elements' % k)
    w = c.w0
    for i in range(k):
        v = c.val('e%d' % i, w)
        w = c.post('e%d' % i, w)
        here = [s for s in stores if z3.is_true(z3.simplify(s[1] == b(i)))]
        c.ob('cons', 'element-stored', len(here) == 1 and z3.simplify(z3.And(here[0][0] == r, here[0][2] == v)) if len(here) == 1 else False, 'element %d of %d' % (i, k))
    c.ob('cons', 'nothing-else-stored', len(stores) == k)
    c.ob('order', 'elements-evaluated-once-in-order', [e[1] for e in c.events] == ['e%d' % i for i in range(k)])
    c.ob('order', 'no-other-effect', c.w == w)
    if not c.obs.bounded:
        c.obs.bounded.append('rewriteArrayLiteralExpr: literals of up to %d elements' % maxlen)


@guarded
def fold(ctx, obs, p, sect):
    """foldConstants: a negated literal becomes the literal of the opposite value; a literal outside 63 bits is an error"""
    c = Tree(obs, p, ctx, sect)
    I = c.I
    shape = ctx.pick(['neg-int', 'int', 'neg-expr', 'neg-neg', 'other'])
    kinds = {'int': p.const('lex.Integer'), 'string': p.const('lex.String'), 'true': p.const('lex.True')}
    num = ctx.int('num')
    ctx.assume(num >= 0)   # the lexer makes digits only
    text = c.opaque_text('digits', num)
    parsed = {}

    def parse(I, a):
        s, base, bits = a
        if not hasattr(s, 'num') or not isinstance(bits, int):
            raise Unsupported('ParseInt')
        v = s.num
        lim = 1 << (bits - 1 if bits else 63)
        if ctx.decide(z3.And(v >= -lim, v < lim)):
            return [v, None]
        return [0, ErrVal('out of range')]
    I.stubs['strconv.ParseInt'] = parse
    I.ext['strconv.ParseInt'] = parse
    # "-" + digits denotes the negation
    oldcat = getattr(I, 'strcat', None)

    def cat(x, y):
        if isinstance(x, str) and hasattr(y, 'num'):
            if x == '-':
                return c.opaque_text('neg', -y.num)
            if x == '':
                return y
        return None
    I.strcat = cat
    errs = I.new('main.Node')  # placeholder container for []error
    from .ssa import Ptr as P_
    cell = [None]
    ep = Ptr(cell, 0)
    I.stubs['main.semanticError'] = lambda I, a: IfaceV(-1, ErrVal('overflow'))
    tk = c.token(text, kinds['int'])
    lit = c.node('opLit', token=tk)
    if shape == 'neg-int':
        n = c.node('opNeg', left=lit, token=c.token('-'))
        want = -num
    elif shape == 'int':
        n, want = lit, num
    elif shape == 'neg-expr':
        k = c.child('x', c.gtype('intType'))
        ctx.assume(I.getf(k, 'op') != p.const('main.opLit'))
        n, want = c.node('opNeg', left=k, token=c.token('-')), None
    elif shape == 'neg-neg':
        inner = c.node('opNeg', left=lit, token=c.token('-'))
        n, want = c.node('opNeg', left=inner, token=c.token('-')), None
    else:
        n, want = c.node('opLit', token=c.token('abc', ctx.pick([kinds['string'], kinds['true']]))), None
    op0 = I.getf(n, 'op')
    l0 = I.getf(n, 'left')
    t0 = I.getf(n, 'token')
    I.call('main.foldConstants', [ep, n])
    nerr = len(I.items(cell[0]))
    if want is None:
        c.ob('res', 'other-nodes-untouched', I.getf(n, 'op') == op0 and I.getf(n, 'left') is l0 and I.getf(n, 'token') is t0 and nerr == 0)
        return
    fits = z3.And(want >= -2**62, want < 2**62)
    c.ob('res', 'rejected-exactly-when-it-does-not-fit', z3.BoolVal(nerr > 0) == z3.Not(fits))
    if nerr == 0:
        # its value: a literal denotes its text, a negation that of its operand
        def value(m):
            o = c.op(m)
            if o == 'opLit':
                v = I.getf(I.getf(m, 'token'), 'Val')
                if hasattr(v, 'num'):
                    return v.num
                return int(v, 0)
            if o == 'opNeg':
                return -value(I.getf(m, 'left'))
            raise Unsupported(o)
        c.ob('res', 'literal-keeps-its-value', value(n) == want)


@guarded
def layout(ctx, obs, p, sect, what):
    """processTopLevelTypes: fields of a struct lie in declared order, one word each; the cases of an enum have distinct tags"""
    c = Tree(obs, p, ctx, sect)
    I = c.I
    created = {}

    def mktype(I, a):
        n = a[1]
        if id(n.c) not in created:
            created[id(n.c)] = (n, c.type('Integer'))
        return created[id(n.c)][1]
    I.stubs['main.createType'] = lambda I, a: [mktype(I, a), None]
    I.stubs['main.instantiateType'] = mktype
    root = c.node('opRoot')
    st = I.call('main.NewSymtab', [])
    I.setf(root, 'symtab', st)

    def tn(i):
        return c.node('opNamedType', token=c.token('t%d' % i))
    if what == 'struct':
        k = ctx.choose(7)
        tns = [tn(i) for i in range(k)]
        fs = [c.node('opIdentifier', token=c.token('f%d' % i), left=tns[i]) for i in range(k)]
        d = c.node('opStructDcl', token=c.token('thing'), stmts=I.slice(fs) if fs else None)
        other = c.node('opStructDcl', token=c.token('other'), stmts=I.slice([c.node('opIdentifier', token=c.token('g'), left=tn(9))]))
        order = ctx.pick([[d, other], [other, d]])
        I.setf(root, 'stmts', I.slice(order))
        errs = I.call('main.processTopLevelTypes', [root, st])
        c.ob('field', 'accepted', not I.items(errs))
        s = I.call('(*main.Type).AsStruct', [I.getf(I.getf(d, 'sym'), 'Type')])
        fl = I.items(I.getf(s, 'Fields'))
        c.ob('field', 'every-field-present-in-order', [I.getf(f, 'Name') for f in fl] == ['f%d' % i for i in range(k)])
        for i, f in enumerate(fl):
            c.ob('field', 'one-word-per-field-in-order', I.eq(I.getf(f, 'Addr'), 8 * i), 'field %d of %d' % (i, k))
            c.ob('field', 'field-has-its-type', i < k and I.getf(f, 'Type') is created[id(tns[i].c)][1] if i < k else False)
        r = I.call('main.generateStructConstructor', [root, d])
        fsym, err = r[0], r[1]
        c.ob('cons', 'constructor-made', fsym is not None and err is None)
        ft = I.call('(*main.Type).AsFunction', [I.getf(fsym, 'Type')])
        c.ob('cons', 'constructor-named-after-the-struct', I.getf(fsym, 'Name') == 'Thing')
        c.ob('cons', 'constructor-is-a-struct-constructor', I.eq(I.getf(ft, 'Kind'), p.const('main.StructCons')))
        c.ob('cons', 'constructor-result-is-the-struct', I.getf(ft, 'ret') is I.getf(I.getf(d, 'sym'), 'Type'))
        ps = I.items(I.getf(ft, 'Params'))
        c.ob('cons', 'one-parameter-per-field-in-order', len(ps) == k and all(x is created[id(tns[i].c)][1] for i, x in enumerate(ps)))
        dcl = I.items(I.getf(root, 'stmts'))[-1]
        cps = I.items(I.getf(dcl, 'params'))
        c.ob('cons', 'constructor-declared-with-the-fields', c.kind_op(dcl) and len(cps) == k and
             all(I.getf(I.getf(x, 'sym'), 'Type') is created[id(tns[i].c)][1] for i, x in enumerate(cps)))
        return
    k = ctx.pick([1, 2, 3, 4, 5, 6, 7, 25, 150])
    cons = []
    for i in range(k):
        ps = [c.node('opIdentifier', token=c.token('a%d' % j), left=tn(j)) for j in range((i * 2 + 1) % 6)]
        cons.append(c.node('opConsFnDcl', token=c.token('C%d' % i), params=I.slice(ps) if ps else None, left=c.node('opNamedType', token=c.token('en'))))
    d = c.node('opEnumDcl', token=c.token('en'), stmts=I.slice(cons))
    I.setf(root, 'stmts', I.slice([d]))
    errs = I.call('main.processTopLevelTypes', [root, st])
    c.ob('cons', 'accepted', not I.items(errs))
    e = I.call('(*main.Type).AsEnum', [I.getf(I.getf(d, 'sym'), 'Type')])
    ms = I.items(I.getf(e, 'Members'))
    c.ob('cons', 'every-case-is-a-member', len(ms) == k)
    tags = []
    for i, cn in enumerate(cons):
        ft = I.call('(*main.Type).AsFunction', [I.getf(I.getf(cn, 'sym'), 'Type')])
        c.ob('cons', 'case-is-an-enum-constructor', I.eq(I.getf(ft, 'Kind'), p.const('main.EnumCons')))
        tags.append(I.getf(I.call('(*main.FunctionType).AsEnumCons', [ft]), 'Tag'))
        c.ob('cons', 'member-is-the-constructor', i < len(ms) and ms[i] is ft or (i < len(ms) and id(ms[i].c) == id(ft.c)))
        want = [created[id(I.getf(x, 'left').c)][1] for x in I.items(I.getf(cn, 'params'))]
        got = I.items(I.getf(ft, 'Params'))
        c.ob('cons', 'case-parameters-in-order', len(want) == len(got) and all(u is v for u, v in zip(want, got)))
    c.ob('cons', 'tags-distinct', len(set(tags)) == k, str(tags))
    st_ = [x for x in I.items(I.getf(root, 'stmts')) if any(x is y or id(x.c) == id(y.c) for y in cons)]
    c.ob('cons', 'constructors-generated', len(st_) == k)
    if not c.obs.bounded:
        c.obs.bounded.append('processTopLevelTypes: enums of 1-7, 25 and 150 cases')


def kind_op(self, n):
    return self.I.getf(n, 'op') == self.p.const('main.opConsFnDcl')


Tree.kind_op = kind_op
