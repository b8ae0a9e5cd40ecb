"""Contracts of the parser (C02, C03). The token sequence is arbitrary: the kind of a token is a set that shrinks as the code asks
about it. Every parse function that takes part in the recursion is replaced at its call sites by its contract ('consumes one X, returns
the tree of that X') and verified against its own: without a reported error the tokens it consumed form an X of the grammar and the
tree is the one the grammar says; an error is reported only where no X can go on. Loops are explored until the state (place in the
code, what the grammar still allows, error state) repeats; the lists being built are write-only on the way."""
from .ssa import *
from .cg import interp

LEVEL = {'LParen': 13, 'LGmet': 13, 'Dot': 12, 'LBrack': 12, 'Mul': 10, 'Div': 10, 'Plus': 9, 'Min': 9, 'BLeft': 8, 'BRight': 8, 'Gt': 7, 'Gte': 7, 'Lt': 7, 'Lte': 7,
         'Eq': 6, 'BAnd': 5, 'BXor': 4, 'BOr': 3, 'And': 2, 'Or': 1, 'Question': 1}
PREFIX = 11
INF = 99
BINOP = {'Plus': 'opAdd', 'Min': 'opSub', 'Mul': 'opMul', 'Div': 'opDiv', 'BLeft': 'opBLeft', 'BRight': 'opBRight', 'BAnd': 'opBAnd', 'BOr': 'opBOr', 'BXor': 'opBXor',
         'Gt': 'opGt', 'Gte': 'opGte', 'Lt': 'opLt', 'Lte': 'opLte', 'Eq': 'opEq', 'Dot': 'opDot', 'Or': 'opOr', 'And': 'opAnd'}
PREOP = {'Not': 'opNot', 'BNot': 'opBNot', 'Min': 'opNeg'}
KINDS = ['RBrace', 'LBrace', 'RParen', 'LParen', 'RBrack', 'LBrack', 'Comma', 'Colon', 'Dot', 'Hash', 'Question', 'Identifier', 'String', 'Integer', 'Plus', 'Mul', 'Div', 'Min',
         'LGmet', 'RGmet', 'BAnd', 'BOr', 'BNot', 'BXor', 'BLeft', 'BRight', 'Gt', 'Gte', 'Lt', 'Lte', 'Eq', 'EOF', 'Das', 'As', 'DotDot', 'Fn', 'Return', 'If', 'ElseIf',
         'Else', 'True', 'False', 'Not', 'And', 'Or', 'Struct', 'While', 'For', 'In', 'Enum', 'Match', 'Case', 'Type']
EXPRSTART = {'Integer', 'String', 'Identifier', 'True', 'False', 'Not', 'BNot', 'LParen', 'Fn', 'Min', 'LBrack', 'Type'}
TYPESTART = {'Fn', 'LBrack', 'Identifier'}
FIRST = {'Expr': EXPRSTART, 'Type': TYPESTART, 'Stmt': (EXPRSTART - {'Type'}) | {'Return', 'While', 'For', 'If', 'Match'}, 'Block': {'LBrace'}, 'TypeList': {'LGmet'},
         'Params': {'LParen'}, 'Idents': {'LParen'}, 'FnRest': {'Identifier', 'LGmet', 'LParen'}, 'Enum': {'Enum'}, 'Attr': {'Hash'}, 'Struct': {'Struct'}, 'Param': {'Identifier'}}


# ---------------------------------------------------------------- regular right-hand sides
class Rx:
    pass


class _Eps(Rx):
    def key(self):
        return 'e'


class _Nil(Rx):
    def key(self):
        return '0'


EPS, NIL = _Eps(), _Nil()


class T(Rx):
    def __init__(self, kinds, cap=None):
        self.kinds, self.cap = frozenset(kinds.split()), cap

    def key(self):
        return '[%s]' % ' '.join(sorted(self.kinds))


class N(Rx):
    def __init__(self, name, cap=None, ok=None, fst=None):
        self.name, self.cap, self.ok, self.fst = name, cap, ok, fst or FIRST[name]

    def key(self):
        return '<%s>' % self.name


class Seq(Rx):
    def __init__(self, *xs):
        self.xs = xs

    def key(self):
        return '(%s)' % ''.join(x.key() for x in self.xs)


class Alt(Rx):
    def __init__(self, *xs):
        self.xs = xs

    def key(self):
        return '{%s}' % '|'.join(sorted(set(x.key() for x in self.xs)))


class Star(Rx):
    def __init__(self, x, cap=None):
        self.x, self.cap = x, cap

    def key(self):
        return '%s*' % self.x.key()


def Opt(x):
    return Alt(x, EPS)


def List(x, cap):
    """a comma separated list, possibly empty; cap: the captures of each item"""
    return Alt(Tag(Seq(One(x, 'first'), Star(Seq(T('Comma'), x), 'rest')), cap, lambda c: [c['first']] + c['rest']), Tag(EPS, cap, lambda c: []))


class One(Rx):
    """captures the dict of its part under a name"""
    def __init__(self, x, cap):
        self.x, self.cap = x, cap

    def key(self):
        return self.x.key()


class Tag(Rx):
    """captures f(captures of its part) under a name"""
    def __init__(self, x, cap, f):
        self.x, self.cap, self.f = x, cap, f

    def key(self):
        return self.x.key()


def nullable(r):
    if r is EPS:
        return True
    if isinstance(r, (T, N)) or r is NIL:
        return False
    if isinstance(r, Seq):
        return all(nullable(x) for x in r.xs)
    if isinstance(r, Alt):
        return any(nullable(x) for x in r.xs)
    if isinstance(r, Star):
        return True
    return nullable(r.x)


def flat(r):
    """drop captures, flatten sequences (normal form for comparing states)"""
    if isinstance(r, (One, Tag)):
        return flat(r.x)
    if isinstance(r, Seq):
        out = EPS
        for x in reversed(r.xs):
            out = seq(flat(x), out)
        return out
    if isinstance(r, Alt):
        return alt([flat(x) for x in r.xs])
    if isinstance(r, Star):
        return Star(flat(r.x))
    return r


def seq(a, b):
    if a is NIL or b is NIL:
        return NIL
    if a is EPS:
        return b
    if b is EPS:
        return a
    return Seq(*((a.xs if isinstance(a, Seq) else (a,)) + (b.xs if isinstance(b, Seq) else (b,))))


def alt(xs):
    out = {}
    for x in xs:
        for y in (x.xs if isinstance(x, Alt) else [x]):
            if y is not NIL:
                out[y.key()] = y
    if not out:
        return NIL
    return list(out.values())[0] if len(out) == 1 else Alt(*[out[k] for k in sorted(out)])


def deriv(r, ev):
    if r is EPS or r is NIL:
        return NIL
    if isinstance(r, T):
        return EPS if ev[0] == 'T' and (ev[2].s & r.kinds) else NIL
    if isinstance(r, N):
        return EPS if ev[0] == 'N' and ev[1] == r.name else NIL
    if isinstance(r, Alt):
        return alt([deriv(x, ev) for x in r.xs])
    if isinstance(r, Star):
        return seq(deriv(r.x, ev), Star(r.x))
    if isinstance(r, (One, Tag)):
        return deriv(r.x, ev)
    if not r.xs:
        return NIL
    a, b = r.xs[0], (Seq(*r.xs[1:]) if len(r.xs) > 2 else r.xs[1] if len(r.xs) == 2 else EPS)
    d = seq(deriv(a, ev), b)
    return alt([d, deriv(b, ev)]) if nullable(a) else d


def first(r):
    if r is EPS or r is NIL:
        return set()
    if isinstance(r, T):
        return set(r.kinds)
    if isinstance(r, N):
        return set(r.fst)
    if isinstance(r, Alt):
        return set().union(*[first(x) for x in r.xs])
    if isinstance(r, (Star, One, Tag)):
        return first(r.x)
    out = set()
    for x in r.xs:
        out |= first(x)
        if not nullable(x):
            break
    return out


def match(r, evs, i):
    """all (next index, captures) with every token of a kind that must be right"""
    if r is EPS:
        yield i, {}
    elif r is NIL:
        return
    elif isinstance(r, T):
        if i < len(evs) and evs[i][0] == 'T' and evs[i][2].s <= r.kinds:
            yield i + 1, ({r.cap: evs[i]} if r.cap else {})
    elif isinstance(r, N):
        if i < len(evs) and evs[i][0] == 'N' and evs[i][1] == r.name and (r.ok is None or r.ok(evs[i])):
            yield i + 1, ({r.cap: evs[i]} if r.cap else {})
    elif isinstance(r, Alt):
        for x in r.xs:
            yield from match(x, evs, i)
    elif isinstance(r, One):
        for j, c in match(r.x, evs, i):
            yield j, {r.cap: c}
    elif isinstance(r, Tag):
        for j, c in match(r.x, evs, i):
            yield j, {r.cap: r.f(c)}
    elif isinstance(r, Star):
        def rep(i, acc):
            for j, c in match(r.x, evs, i):
                if j > i:
                    yield from rep(j, acc + [c])
            yield i, acc
        for j, acc in rep(i, []):
            yield j, ({r.cap: acc} if r.cap else {})
    else:
        def run(k, i, acc):
            if k == len(r.xs):
                yield i, acc
                return
            for j, c in match(r.xs[k], evs, i):
                d = dict(acc)
                d.update(c)
                yield from run(k + 1, j, d)
        yield from run(0, i, {})


# ---------------------------------------------------------------- tokens
class KindV:
    def __init__(self, P, s):
        self.P, self.s = P, set(s)

    def gv_eq(self, I, o):
        if isinstance(o, KindV):
            raise Unsupported('comparison of two token kinds')
        k = self.P.names.get(o)
        return self.isk(k)

    def isk(self, k):
        if k not in self.s:
            return False
        if len(self.s) == 1:
            return True
        if self.P.ctx.choose(2) == 0:
            self.s = {k}
            return True
        self.s = self.s - {k}
        return False

    def gv_arith(self, I, o, a, b):
        if o in ('==', '!='):
            e = self.gv_eq(I, b if a is self else a)
            return e if o == '==' else not e
        raise Unsupported('arithmetic on token kinds')

    def gv_convert(self, I, tt):
        return self

    def level(self):
        """the level of the token as an infix operator, decided"""
        ls = sorted({LEVEL.get(k, 0) for k in self.s})
        l = ls[self.P.ctx.choose(len(ls))] if len(ls) > 1 else ls[0]
        self.s = {k for k in self.s if LEVEL.get(k, 0) == l}
        return l

    def __repr__(self):
        return '|'.join(sorted(self.s)) if len(self.s) < 6 else '%d kinds' % len(self.s)


class Cell:
    def __init__(self, v):
        self.v = v

    def gv_load(self):
        return self.v

    def gv_store(self, x):
        raise Unsupported('store into the token list')


class Toks:
    def __init__(self, P):
        self.P = P

    def gv_len(self, I):
        return self

    def gv_indexaddr(self, I, k):
        if not isinstance(k, int):
            raise Unsupported('token index')
        return Cell(self.P.tok(k))

    gv_index = None

    def gv_slice(self, I, l, h, m):
        raise Unsupported('slice of the tokens')

    # comparisons of an index with the number of tokens
    def ge(self, i):
        """i >= number of tokens"""
        if i <= 0:
            return False
        if i - 1 == self.P.reach + 1:
            if self.P.kind(self.P.reach).isk('EOF'):
                return True
            self.P.reach += 1
        if i - 1 > self.P.reach:
            raise Unsupported('look-ahead')
        return self.P.kind(i - 1).isk('EOF')

    def gv_arith(self, I, o, a, b):
        if a is self:
            o = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(o, o)
            a, b = b, a
        if isinstance(a, Less):
            raise Unsupported('arithmetic on the number of tokens')
        if o in ('-', '+') and isinstance(a, int):
            return Less(self, a if o == '-' else -a)
        if not isinstance(a, int):
            raise Unsupported('comparison')
        if o == '>=':
            return self.ge(a)
        if o == '<':
            return not self.ge(a)
        if o == '>':
            return self.ge(a - 1)
        if o == '<=':
            return not self.ge(a - 1)
        if o == '==':
            return self.ge(a)
        raise Unsupported('comparison')

    def gv_eq(self, I, o):
        if isinstance(o, int):
            return self.ge(o) and not self.ge(o - 1)
        raise Unsupported('comparison')


class Less:
    """number of tokens minus k"""
    def __init__(self, t, k):
        self.t, self.k = t, k

    def gv_arith(self, I, o, a, b):
        if a is self:
            return self.t.gv_arith(I, o, self.t, b + self.k)
        return self.t.gv_arith(I, o, a + self.k, self.t)

    def gv_eq(self, I, o):
        return self.t.gv_eq(I, o + self.k)


class Acc:
    """a list under construction: only append is possible"""
    def __init__(self, xs):
        self.xs = list(xs)

    def gv_append(self, I, more):
        return Acc(self.xs + [copyv(x) for x in I.items(more)])

    def gv_len(self, I):
        raise Unsupported('length of a list under construction')

    def gv_indexaddr(self, I, k):
        raise Unsupported('look into a list under construction')

    gv_index = gv_indexaddr


class OpList:
    """the list a contract returned"""
    def gv_len(self, I):
        """any: every list of the grammar may have any number of entries"""
        if not hasattr(self, 'n'):
            self.n = I.ctx.int('entries')
            I.ctx.assume(self.n >= 0)
        return self.n

    def gv_append(self, I, more):
        raise Unsupported('append to a parsed list')

    def gv_indexaddr(self, I, k):
        raise Unsupported('look into a parsed list')


JUMP = 1000
M = '(*main.Parser).'
# contract functions: name -> (nonterminal, what it returns)
NT = {'parseExpr': ('Expr', 'node'), 'parseStatement': ('Stmt', 'node'), 'parseBlock': ('Block', 'list'), 'parseType': ('Type', 'node'), 'parseFn': ('FnRest', 'node'),
      'parseTypeList': ('TypeList', 'list+token'), 'parseParameters': ('Params', 'list'), 'parseIdentifiers': ('Idents', 'list'), 'parseParameter': ('Param', 'node')}
FIELDS = {'pos', 'tokens', 'errs', 'discard'}


class Err(Exception):
    pass


class PS:
    def __init__(self, ctx, obs, p, sect, dirty=False, more=None):
        self.ctx, self.obs, self.p, self.sect = ctx, obs, p, sect
        self.names = {p.const('lex.' + k): k for k in KINDS}
        self.I = I = interp(p, ctx)
        I.newacc = lambda xs: Acc(xs) if xs and all(isinstance(x, Ptr) for x in xs) else None
        I.ext['fmt.Sprintf'] = lambda I, a: 'message'
        I.ext['strings.Join'] = lambda I, a: 'joined'
        self.toks, self.kinds, self.reach = {}, {}, 0
        fs = {f['n'] for f in p.fields(p.by_name['main.Parser'])}
        if fs != FIELDS:
            raise Unsupported('the parser has other state: %s' % sorted(fs ^ FIELDS))
        self.dirty = dirty
        self.err0 = ErrVal('earlier') if dirty else None
        self.ps = I.new('main.Parser', pos=0, tokens=Toks(self), errs=I.slice([self.err0]) if dirty else None, discard=ctx.pick([False, True]) if dirty else False)
        self.calls = []      # (pos before, pos after, nonterminal, returned, args)
        self.attrs = {}      # id of a returned node -> (L, R) lower bounds
        self.visits = {}
        self.spec = self.strict = None
        self.base = 0
        self.ncall0 = 0
        self.eofs = False
        for f, (nt, kind) in dict(NT, **(more or {})).items():
            if M + f in p.funcs:
                I.stubs[M + f] = (lambda f, nt, kind: lambda I, a: self.contract(f, nt, kind, a))(f, nt, kind)
        if M + 'syntaxError' in p.funcs:
            I.stubs[M + 'syntaxError'] = self.syntax
        I.loophooks['*'] = self.loop

    def ob(self, group, name, cond, info=''):
        self.obs.prove(self.ctx, '%s#%s:%s' % (self.sect, group, name), cond, info)

    # tokens
    def kind(self, i):
        if i not in self.kinds:
            self.kinds[i] = KindV(self, KINDS)
        return self.kinds[i]

    def tok(self, i):
        if i not in self.toks:
            if i > self.reach + 1:
                raise Unsupported('look-ahead')
            if i == self.reach + 1:
                if self.kind(self.reach).isk('EOF'):
                    raise GoPanic('runtime error: index out of range')
                self.reach = i
            self.toks[i] = self.I.new('lex.Token', Kind=self.kind(i), Val=SStr(z3.Int('val%d' % i)), File='file', Line=i, Pos=0)
        return self.toks[i]

    @property
    def pos(self):
        v = self.I.getf(self.ps, 'pos')
        if not isinstance(v, int):
            raise Unsupported('position')
        return v

    def nerrs(self):
        return len(self.I.items(self.I.getf(self.ps, 'errs')))

    # contracts
    def contract(self, f, nt, kind, a):
        I = self.I
        at = self.pos
        if nt == 'TypeList' and not self.dirty:
            # its contract needs the opening bracket; code that calls it elsewhere gets the error of that function
            pass
        if nt == 'Attr' and not self.kind(at).isk('Hash'):
            return 0
        out = 'ok'
        if self.eofs:
            out = self.ctx.pick(['ok', 'err', 'eof', 'err+eof'] if not self.nerrs() else ['ok', 'eof'])
            if 'err' in out:
                I.setf(self.ps, 'errs', I.slice(I.items(I.getf(self.ps, 'errs')) + [ErrVal('sub')]))
                I.setf(self.ps, 'discard', self.ctx.pick([False, True]))
            if 'eof' in out:
                I.setf(self.ps, 'pos', at + JUMP)
                self.reach = at + JUMP
                self.kind(at + JUMP).s = {'EOF'}
                self.calls.append((at, at + JUMP, 'part of ' + nt, None, []))
                self.tok(at + JUMP)
                raise GoPanic(I.gget('main.errUnexpectedEof'))
        new = at + JUMP
        if self.dirty:
            I.setf(self.ps, 'discard', self.ctx.pick([False, True]))
        else:
            ft = self.kind(at)
            fst = FIRST[nt] if nt != 'FnRest' else ({'LGmet', 'LParen'} if a[3] is True else {'Identifier'} if a[3] is False else FIRST[nt])
            if not self.eofs:
                # where an X cannot start its own contract reports an error
                d = self.flatspec(self.strict or self.spec)
                for e in self.events():
                    d = deriv(d, e)
                bad = first(d) & (ft.s - fst)
                self.ob('complete', 'error-only-where-the-grammar-cannot-go-on', not bad, 'a %s is demanded before %s' % (nt, sorted(bad)))
            ft.s &= fst
            if not ft.s:
                raise StopPath('error in the callee')
            self.tok(at)
        node = I.new('main.Node')
        s = force(node.c, node.k)
        for k in range(len(s)):
            s[k] = Lazy(self.poison)
        lst = OpList()
        ret = {'attr': z3.Int('attr%d' % at), 'node': node, 'list': lst, 'list+token': (lst, self.tok(at))}[kind]
        self.keepalive = getattr(self, 'keepalive', []) + [node, lst]
        self.calls.append((at, new, nt, ret, a[1:]))
        I.setf(self.ps, 'pos', new)
        self.reach = new
        if nt in ('Expr', 'FnRest') and not self.dirty:
            self.after(nt, node, a, new)
        return ret

    def after(self, nt, node, a, new):
        """what the contract of an expression says on the token that follows"""
        if nt == 'Expr':
            b = a[1]
            if not isinstance(b, int):
                raise Unsupported('precedence')
            if b < 0:
                self.ob('prec', 'no-bound-below-the-lowest-level', False, 'parseExpr(%d)' % b)
                raise StopPath('bound')
            self.kind(new).s = {k for k in self.kind(new).s if LEVEL.get(k, 0) <= b}
            self.attrs[id(node)] = (b + 1, 'next')
        else:
            self.attrs[id(node)] = (INF, 'next')

    def poison(self):
        raise Unsupported('look into a parsed tree')

    def syntax(self, I, a):
        if not self.dirty and self.nerrs() == 0 and self.spec is not None:
            evs = self.events()
            d = self.flatspec(self.strict or self.spec)
            for e in evs:
                d = deriv(d, e)
            bad = first(d) & self.kind(self.pos).s if self.pos in self.kinds else first(d)
            self.ob('complete', 'error-only-where-the-grammar-cannot-go-on', not bad, 'reported before %s after %s although the grammar goes on' % (sorted(bad), self.shown(evs)))
        I.call2(M + 'syntaxError', a) if hasattr(I, 'call2') else I.run(self.p.funcs[M + 'syntaxError'], a, ())
        self.ob('error', 'an-error-is-recorded', self.nerrs() > 0)
        if not self.dirty and not self.eofs:
            raise StopPath('error')

    def flatspec(self, r):
        c = self.__dict__.setdefault('_flat', {})
        if id(r) not in c:
            c[id(r)] = (flat(r), r)
        return c[id(r)][0]

    # what was consumed since base
    def events(self):
        cur, out = self.base, []
        for (a, b, nt, ret, args) in self.calls[self.ncall0:]:
            if a < cur:
                raise Unsupported('the parser moves back')
            out += [('T', i, self.kind(i)) for i in range(cur, a)]
            out.append(('N', nt, ret, args, a))
            cur = b
        if self.pos < cur:
            raise Unsupported('the parser moves back')
        out += [('T', i, self.kind(i)) for i in range(cur, self.pos)]
        return out

    def shown(self, evs):
        return ' '.join(repr(e[2]) if e[0] == 'T' else e[1] for e in evs)[:300]

    def loop(self, I, fr, b, pred, blk):
        name = fr.fn.name
        if not name.startswith('(*main.Parser)') and not name.startswith('main.'):
            return
        if all(isinstance(fr.r[d], int) and not isinstance(fr.r[d], bool) for (d, _, _c) in blk.phis) and blk.phis:
            return      # a counted loop over something of known length
        if self.dirty or self.nerrs():
            k = (fr, b, self.nerrs() > 0, repr(I.getf(self.ps, 'discard')))
            last = self.visits.get(k)
            self.visits[k] = self.pos
            if last is not None:
                self.ob('progress', 'every-iteration-consumes-a-token', self.pos > last)
                raise StopPath('loop')
            if self.eofs:
                # only 'an error stays reported' is left to show from here: once for each such state
                k = (name, b, len(I.stack), repr(I.getf(self.ps, 'discard')))
                seen = self.obs.__dict__.setdefault('seen', {})
                if seen.setdefault((self.sect, k), tuple(self.ctx.trail)) != tuple(self.ctx.trail)[:len(seen[(self.sect, k)])]:
                    raise StopPath('seen')
            return
        d = self.flatspec(self.spec)
        for e in self.events():
            d = deriv(d, e)
        k = (fr, b, d.key())
        self.visits.setdefault(k, []).append(self.pos)
        n = len(self.visits[k])
        if n > 1:
            self.ob('progress', 'every-iteration-consumes-a-token', self.visits[k][-1] > self.visits[k][-2])
        if n > 2:
            raise StopPath('loop closed')

    # ------------------------------------------------------------ trees
    def listof(self, v):
        if v is None:
            return []
        if isinstance(v, Acc):
            return v.xs
        if isinstance(v, SliceV):
            return v.items()
        return v

    def same(self, v, want, path=''):
        """does the value v have the expected shape; -> None or a message"""
        I = self.I
        if want is None:
            return None if v is None or (isinstance(v, (Acc, SliceV)) and not self.listof(v)) else '%s is set' % path
        if isinstance(want, list):
            xs = self.listof(v)
            if not isinstance(xs, list):
                return '%s is another list' % path
            if len(xs) != len(want):
                return '%s has %d entries, expected %d' % (path, len(xs), len(want))
            for i, (x, w) in enumerate(zip(xs, want)):
                m = self.same(x, w, '%s[%d]' % (path, i))
                if m:
                    return m
            return None
        if isinstance(want, Tree):
            if not isinstance(v, Ptr):
                return '%s is not a node' % path
            op = I.getf(v, 'op')
            if op != self.p.const('main.' + want.op):
                return '%s has another operation than %s' % (path, want.op)
            for f in ('token', 'left', 'right', 'stmts', 'params'):
                m = self.same(I.getf(v, f), want.f.get(f), '%s.%s' % (path, f))
                if m:
                    return m
            if not self.ctx.valid(I.eq(I.getf(v, 'attrs'), want.f.get('attrs', 0)))[0]:
                return '%s.attrs' % path
            return None
        if isinstance(want, OpList):
            return None if v is want else '%s is another list' % path
        if isinstance(want, Ptr):
            return None if isinstance(v, Ptr) and v.c is want.c and v.k == want.k else '%s is something else' % path
        raise Unsupported('shape')

    def check(self, spec, build, result):
        """the consumed tokens match the grammar and the tree is the one it says"""
        evs = self.events()
        ms = [c for j, c in match(spec, evs, 0) if j == len(evs)]
        self.ob('sound', 'what-is-accepted-follows-the-grammar', bool(ms), 'accepted without an error: ' + self.shown(evs))
        if ms and build:
            msg = None
            for c in ms:
                msg = self.same(result, build(c), 'tree')
                if msg is None:
                    break
            self.ob('tree', 'tree-is-what-was-written', msg is None, '%s (after %s)' % (msg, self.shown(evs)))
        return ms


class Tree:
    def __init__(self, op, **f):
        self.op, self.f = op, f


# captured event -> value
def tk(P, e):
    return P.tok(e[1])


def nd(e):
    return e[2]


BLOCK = Alt(N('Block', 'block'), Seq(T('LBrace'), Star(N('Stmt', 's'), 'blockitems'), T('RBrace')))
PARAM = Alt(N('Param', 'param'), Seq(T('Identifier', 'pname'), T('Colon'), N('Type', 'ptype')))
PARAMS = Alt(N('Params', 'params'), Seq(T('LParen'), List(PARAM, 'paramitems'), T('RParen')))
IDENTS = Alt(N('Idents', 'idents'), Seq(T('LParen'), List(T('Identifier', 'i'), 'identitems'), T('RParen')))
TYPELIST = Alt(N('TypeList', 'types'), Seq(T('LGmet', 'tlstart'), List(N('Type', 't'), 'typeitems'), T('RGmet')))


def block(c):
    return nd(c['block']) if 'block' in c else [nd(x['s']) for x in c['blockitems']]


def param(P, c):
    return nd(c['param']) if 'param' in c else Tree('opIdentifier', token=tk(P, c['pname']), left=nd(c['ptype']))


def params(P, c):
    return nd(c['params']) if 'params' in c else [param(P, x) for x in c['paramitems']]


def idents(P, c):
    return nd(c['idents']) if 'idents' in c else [Tree('opIdentifier', token=tk(P, x['i'])) for x in c['identitems']]


def types(P, c):
    """-> (list, opening token) or None"""
    if 'types' in c:
        return nd(c['types'])
    if 'typeitems' in c:
        return [nd(x['t']) for x in c['typeitems']], tk(P, c['tlstart'])
    return None


def typelist(P, c):
    t = types(P, c)
    return None if t is None else Tree('opTypeList', token=t[1], params=t[0])


def full(e):
    """a delimited expression is parsed with the lowest bound"""
    return isinstance(e[3][0], int) and e[3][0] <= 0


E0 = lambda cap: N('Expr', cap, full)

STMT = Alt(
    Tag(Seq(T('Return', 'tok'), Opt(N('Expr', 'e', full, EXPRSTART - {'Type'}))), 'return', lambda c: c),
    Tag(Seq(T('While', 'tok'), E0('e'), BLOCK), 'while', lambda c: c),
    Tag(Seq(T('For', 'tok'), T('Identifier', 'v'), T('In'), E0('e'), Opt(Seq(T('DotDot', 'dd'), E0('to'))), BLOCK), 'for', lambda c: c),
    Tag(Seq(T('If', 'tok'), E0('e'), One(BLOCK, 'then'), Star(Seq(T('ElseIf', 'tok'), E0('e'), BLOCK), 'elifs'), Opt(One(Seq(T('Else', 'tok'), BLOCK), 'else'))), 'if', lambda c: c),
    Tag(Seq(T('Match', 'tok'), E0('e'), T('LBrace'), Star(Seq(T('Case'), T('Identifier', 'id'), IDENTS, T('Colon'), Star(N('Stmt', 's'), 'body')), 'cases'), T('RBrace')), 'match', lambda c: c),
    Tag(Seq(N('Expr', 'e', full, EXPRSTART - {'Type'}), Opt(Seq(T('As Das', 'as'), E0('r')))), 'expr', lambda c: c))


def build_stmt(P):
    def build(c):
        (k, c), = c.items()
        if k == 'return':
            return Tree('opReturn', token=tk(P, c['tok']), left=nd(c['e']) if 'e' in c else None)
        if k == 'while':
            return Tree('opWhile', token=tk(P, c['tok']), left=nd(c['e']), stmts=block(c))
        if k == 'for':
            r = nd(c['e'])
            if 'dd' in c:
                r = Tree('opRange', token=tk(P, c['dd']), left=r, right=nd(c['to']))
            return Tree('opFor', token=tk(P, c['tok']), left=Tree('opIdentifier', token=tk(P, c['v'])), right=r, stmts=block(c))
        if k == 'if':
            r = Tree('opElse', token=tk(P, c['else']['tok']), stmts=block(c['else'])) if 'else' in c else None
            for x in reversed(c['elifs']):
                r = Tree('opElseIf', token=tk(P, x['tok']), left=nd(x['e']), stmts=block(x), right=r)
            return Tree('opIf', token=tk(P, c['tok']), left=nd(c['e']), stmts=block(c['then']), right=r)
        if k == 'match':
            return Tree('opMatch', token=tk(P, c['tok']), left=nd(c['e']),
                        stmts=[Tree('opCase', token=tk(P, x['id']), params=idents(P, x), stmts=[nd(s['s']) for s in x['body']]) for x in c['cases']])
        if 'as' in c:
            return Tree('opAs' if c['as'][2].s == {'As'} else 'opDas', token=tk(P, c['as']), left=nd(c['e']), right=nd(c['r']))
        return nd(c['e'])
    return build


TYPE = Alt(Tag(Seq(T('Fn', 'tok'), T('LParen'), List(N('Type', 't'), 'args'), T('RParen'), Opt(N('Type', 'ret'))), 'fn', lambda c: c),
           Tag(Seq(T('LBrack', 'tok'), T('RBrack'), N('Type', 't')), 'array', lambda c: c),
           Tag(Seq(T('Identifier', 'tok'), Opt(TYPELIST)), 'named', lambda c: c))


def build_type(P):
    def build(c):
        (k, c), = c.items()
        if k == 'fn':
            return Tree('opFuncType', token=tk(P, c['tok']), stmts=[nd(x['t']) for x in c['args']], left=nd(c['ret']) if 'ret' in c else None)
        if k == 'array':
            return Tree('opArrayType', token=tk(P, c['tok']), left=nd(c['t']))
        return Tree('opNamedType', token=tk(P, c['tok']), left=typelist(P, c))
    return build


BODY = Alt(One(BLOCK, 'body'), Seq(T('As'), E0('expr')))
FNREST = {False: Seq(T('Identifier', 'id'), Opt(TYPELIST), PARAMS, Opt(N('Type', 'ret')), Opt(BODY)), True: Seq(Opt(TYPELIST), PARAMS, Opt(N('Type', 'ret')), BODY)}
ENUM = Seq(T('Enum'), T('Identifier', 'id'), Opt(TYPELIST), T('LBrace'), Star(Seq(T('Identifier', 'c'), PARAMS), 'cases'), T('RBrace'))
STRUCT = Seq(T('Struct'), T('Identifier', 'id'), Opt(TYPELIST), T('LBrace'), Star(PARAM, 'fields'), T('RBrace'))
ATTR = Seq(T('Hash'), T('LBrack'), One(T('Identifier', 'a'), 'a0'), Star(Seq(T('Comma'), T('Identifier', 'a')), 'as'), T('RBrack'))
ATTR1 = Alt(ATTR, Seq(T('Hash'), T('LBrack'), T('RBrack')))


def attrbits(P, c):
    """the attributes named"""
    v = 0
    for n in ([c['a0']['a']] + [x['a'] for x in c['as']]) if 'a0' in c else []:
        t = z3.Int('val%d' % n[1])
        for s, b in (('ExtRet', P.p.const('main.extRet')), ('RawValues', P.p.const('main.rawValues'))):
            if P.ctx.valid(t == strid(s))[0]:
                v |= b
    return v


def build_fn(P, anon, token, attrs):
    def build(c):
        f = dict(token=token if anon else tk(P, c['id']), params=params(P, c), right=typelist(P, c), left=nd(c['ret']) if 'ret' in c else None, attrs=attrs)
        if 'body' in c:
            return Tree('opBlockFnDcl', stmts=block(c['body']), **f)
        if 'expr' in c:
            return Tree('opExprFnDcl', stmts=[nd(c['expr'])], **f)
        return Tree('opExternFnDcl', **f)
    return build


def tlparams(P, c):
    t = types(P, c)
    return None if t is None else t[0]


def build_enum(P, attrs):
    def build(c):
        id = tk(P, c['id'])
        return Tree('opEnumDcl', token=id, attrs=attrs, params=tlparams(P, c),
                    stmts=[Tree('opConsFnDcl', token=tk(P, x['c']), params=params(P, x), left=Tree('opNamedType', token=id)) for x in c['cases']])
    return build


def build_struct(P, attrs):
    return lambda c: Tree('opStructDcl', token=tk(P, c['id']), attrs=attrs, params=tlparams(P, c), stmts=[param(P, x) for x in c['fields']])


# ---------------------------------------------------------------- sections
def cut(fn):
    def run(ctx, obs, p, sect, *a, **kw):
        try:
            fn(ctx, obs, p, sect, *a, **kw)
        except StopPath:
            pass
    return run


def finish(P, ret, spec, build):
    """common end of a parse function: errors only grow; without any, the grammar holds"""
    errs = P.I.items(P.I.getf(P.ps, 'errs'))
    if P.dirty:
        P.ob('error', 'reported-errors-stay-reported', len(errs) >= 1 and errs[0] is P.err0)
        return
    if errs:
        return
    P.ob('error', 'no-error-is-suppressed-from-here', P.I.eq(P.I.getf(P.ps, 'discard'), False) is True)
    P.check(spec, build, ret)
    P.ob('progress', 'consumes-at-least-one-token', P.pos > 0 or spec is EPS)


def rungo(P, name, args):
    """run the function itself; an unexpected end of file propagates"""
    f = P.p.funcs.get(M + name)
    if f is None:
        raise Unsupported('no function ' + name)
    try:
        return P.I.run(f, [P.ps] + args, ())
    except GoPanic as e:
        if e.val is P.I.gget('main.errUnexpectedEof') or P.I.eq(e.val, P.I.gget('main.errUnexpectedEof')) is True:
            P.ob('error', 'only-the-end-of-the-file-ends-it', P.kind(P.pos).s == {'EOF'})
            raise StopPath('eof')
        raise


@cut
def function(ctx, obs, p, sect, which, dirty=False):
    P = PS(ctx, obs, p, sect, dirty)
    I = P.I
    if which == 'Stmt':
        P.spec = STMT
        finish(P, rungo(P, 'parseStatement', []), STMT, build_stmt(P))
    elif which == 'Type':
        P.spec = TYPE
        finish(P, rungo(P, 'parseType', []), TYPE, build_type(P))
    elif which == 'Block':
        P.spec = Seq(T('LBrace'), Star(N('Stmt', 's'), 'blockitems'), T('RBrace'))
        finish(P, rungo(P, 'parseBlock', []), P.spec, block)
    elif which == 'TypeList':
        P.spec = Seq(T('LGmet', 'tlstart'), List(N('Type', 't'), 'typeitems'), T('RGmet'))
        r = rungo(P, 'parseTypeList', [])
        finish(P, r[0], P.spec, lambda c: types(P, c)[0])
        if not dirty and P.nerrs() == 0:
            P.ob('tree', 'opening-token-is-returned', P.same(r[1], P.tok(0)) is None)
    elif which == 'Params':
        P.spec = Seq(T('LParen'), List(PARAM, 'paramitems'), T('RParen'))
        finish(P, rungo(P, 'parseParameters', []), P.spec, lambda c: params(P, c))
    elif which == 'Param':
        P.spec = Seq(T('Identifier', 'pname'), T('Colon'), N('Type', 'ptype'))
        finish(P, rungo(P, 'parseParameter', []), P.spec, lambda c: param(P, c))
    elif which == 'Idents':
        P.spec = Seq(T('LParen'), List(T('Identifier', 'i'), 'identitems'), T('RParen'))
        finish(P, rungo(P, 'parseIdentifiers', []), P.spec, lambda c: idents(P, c))
    elif which == 'FnRest':
        anon = ctx.pick([False, True])
        attrs = z3.Int('attrs')
        id = I.new('lex.Token', Val='fn')
        P.spec = FNREST[anon]
        finish(P, rungo(P, 'parseFn', [attrs, id, anon]), P.spec, build_fn(P, anon, id, attrs))
        if not dirty and P.nerrs() == 0 and P.calls and P.calls[-1][2] == 'Expr':
            P.ob('prec', 'body-extends-as-far-as-it-can', P.kind(P.pos).level() == 0)
    elif which == 'Enum':
        attrs = z3.Int('attrs')
        P.spec = ENUM
        P.kind(0).s = {'Enum'}
        finish(P, rungo(P, 'parseEnum', [attrs]), P.spec, build_enum(P, attrs))
    elif which == 'Struct':
        attrs = z3.Int('attrs')
        P.spec = STRUCT
        P.kind(0).s = {'Struct'}
        finish(P, rungo(P, 'parseStruct', [attrs]), P.spec, build_struct(P, attrs))
    elif which == 'Attr':
        P.spec, P.strict = Opt(ATTR1), ATTR
        P.kind(0).s &= {'Hash', 'Fn'}
        r = rungo(P, 'parseAttributes', [])
        if not dirty and P.nerrs() == 0:
            evs = P.events()
            ms = [c for j, c in match(P.spec, evs, 0) if j == len(evs)]
            P.ob('sound', 'what-is-accepted-follows-the-grammar', bool(ms), P.shown(evs))
            if ms:
                P.ob('tree', 'attributes-are-those-named', P.ctx.valid(I.eq(r, attrbits(P, ms[0])))[0] is True)
            P.ob('sound', 'consumed-exactly-when-present', (P.pos > 0) == (P.kind(0).s == {'Hash'}))
    else:
        raise Unsupported(which)


PRE = Alt(Tag(T('Identifier', 't'), 'id', lambda c: c), Tag(T('Integer String True False', 't'), 'lit', lambda c: c),
          Tag(Seq(T('LParen'), E0('e'), T('RParen')), 'group', lambda c: c), Tag(Seq(T('Not BNot Min', 't'), N('Expr', 'e')), 'pre', lambda c: c),
          Tag(Seq(T('Fn', 't'), N('FnRest', 'e', None, {'LGmet', 'LParen'})), 'fn', lambda c: c), Tag(Seq(T('Type'), T('LParen'), N('Type', 'e'), T('RParen')), 'type', lambda c: c),
          Tag(Seq(T('LBrack', 't'), List(E0('e'), 'items'), T('RBrack')), 'array', lambda c: c))
ARGS = Seq(List(E0('e'), 'items'), T('RParen'))
POST = Alt(Tag(Seq(T(' '.join(BINOP), 't'), N('Expr', 'e')), 'bin', lambda c: c), Tag(Seq(T('Question', 't'), E0('a'), T('Colon'), N('Expr', 'e')), 'ternary', lambda c: c),
           Tag(Seq(T('LBrack', 't'), E0('e'), T('RBrack')), 'index', lambda c: c), Tag(Seq(T('LParen', 't'), ARGS), 'call', lambda c: c),
           Tag(Seq(T('LGmet', 't'), List(N('Type', 'ty'), 'types'), T('RGmet'), T('LParen'), ARGS), 'tcall', lambda c: c))


class Climb:
    """parseExpr(b): the tree of an operand, then operators above b, each taking the tree so far as its left operand"""
    def __init__(self, P, b):
        self.P, self.b, self.X, self.reg = P, b, None, None

    def pre(self, c):
        P = self.P
        (k, c), = c.items()
        t = tk(P, c['t']) if 't' in c else None
        if k == 'id':
            return Tree('opIdentifier', token=t)
        if k == 'lit':
            return Tree('opLit', token=t)
        if k == 'pre':
            return Tree(PREOP[min(c['t'][2].s)] if len(c['t'][2].s) == 1 else '?', token=t, left=nd(c['e']))
        if k == 'array':
            return Tree('opArrayLit', token=t, stmts=[nd(x['e']) for x in c['items']])
        return nd(c['e'])

    def post(self, c):
        P = self.P
        (k, c), = c.items()
        t = tk(P, c['t'])
        if k == 'bin':
            return Tree(BINOP[min(c['t'][2].s)], token=t, left=self.X, right=nd(c['e']))
        if k == 'ternary':
            return Tree('opTernary', token=t, left=self.X, stmts=[nd(c['a']), nd(c['e'])])
        if k == 'index':
            return Tree('opArray', token=t, left=self.X, right=nd(c['e']))
        return Tree('opFuncCall', token=t, left=self.X, stmts=[nd(x['e']) for x in c['items']], params=[nd(x['ty']) for x in c['types']] if 'types' in c else None)

    def hook(self, I, fr, b, pred, blk):
        P = self.P
        if P.dirty or P.nerrs():
            if self.only == 'operand':
                raise StopPath('operand')
            return P.loop(I, fr, b, pred, blk)
        regs = [d for (d, _, _c) in blk.phis]
        if len(regs) != 1 or not isinstance(fr.r[regs[0]], Ptr):
            raise Unsupported('state of the operator loop')
        left = fr.r[regs[0]]
        nxt = P.kind(P.pos)
        if self.X is None:
            ms = P.check(PRE, self.pre, left)
            for c in ms[:1]:
                (k, c), = c.items()
                if k == 'pre':
                    P.ob('prec', 'unary-operator-takes-only-what-binds-tighter', c['e'][3][0] + 1 > PREFIX, 'operand parsed with bound %s' % c['e'][3][0])
                    P.ob('prec', 'unary-operator-takes-all-that-binds-tighter', nxt.level() <= PREFIX, 'followed by %r' % nxt)
                if k == 'fn':
                    a = c['e'][3]
                    P.ob('tree', 'local-function-keeps-its-token', a[0] == 0 and a[2] is True and P.same(a[1], tk(P, c['t'])) is None)
            if self.only == 'operand':
                raise StopPath('operand')
            X = I.new('main.Node')
            s = force(X.c, X.k)
            for j in range(len(s)):
                s[j] = Lazy(P.poison)
            self.X = X
            fr.r[regs[0]] = X
            P.base = P.pos + JUMP
            P.ncall0 = len(P.calls)
            P.reach = P.base
            I.setf(P.ps, 'pos', P.base)
            P.spec = Opt(POST)
            return
        ms = P.check(POST, self.post, left)
        for c in ms[:1]:
            (k, c), = c.items()
            ks = c['t'][2].s
            lv = {LEVEL.get(x, 0) for x in ks}
            P.ob('prec', 'takes-only-operators-above-its-bound', min(lv) > self.b, '%r at bound %d' % (c['t'][2], self.b))
            if k == 'bin':
                P.ob('prec', 'right-operand-holds-only-tighter-operators', c['e'][3][0] + 1 > max(lv), '%r: right operand parsed with bound %s' % (c['t'][2], c['e'][3][0]))
                P.ob('prec', 'right-operand-holds-all-tighter-operators', nxt.level() <= min(lv), '%r followed by %r' % (c['t'][2], nxt))
            if k == 'ternary':
                P.ob('prec', 'else-branch-extends-as-far-as-it-can', nxt.level() == 0, 'followed by %r' % nxt)
        P.ob('progress', 'every-iteration-consumes-a-token', P.pos > P.base)
        raise StopPath('step')


@cut
def expr(ctx, obs, p, sect, dirty=False):
    P = PS(ctx, obs, p, sect, dirty)
    b = ctx.pick([0, 13] if dirty else list(range(14)))
    P.spec = PRE
    cl = Climb(P, b)
    # the loop starts from an arbitrary tree, so it is enough to reach it behind one kind of operand
    cl.only = ctx.pick(['operand', 'loop'])
    if cl.only == 'loop':
        P.kind(0).s = {'Identifier'}
    P.I.loophooks[(M + 'parseExpr', '*')] = cl.hook
    r = rungo(P, 'parseExpr', [b])
    errs = P.I.items(P.I.getf(P.ps, 'errs'))
    if dirty:
        P.ob('error', 'reported-errors-stay-reported', len(errs) >= 1 and errs[0] is P.err0)
        return
    if errs:
        return
    if cl.X is None:
        raise Unsupported('no operator loop')
    P.ob('sound', 'nothing-consumed-after-the-last-operator', P.pos == P.base)
    P.ob('tree', 'result-is-the-tree-built', P.same(r, cl.X) is None)
    P.ob('prec', 'stops-only-before-looser-operators', P.kind(P.pos).level() <= b, 'bound %d, stops before %r' % (b, P.kind(P.pos)))
    P.ob('error', 'no-error-is-suppressed-from-here', P.I.eq(P.I.getf(P.ps, 'discard'), False) is True)


FUNCS = ['Attr', 'Stmt', 'Type', 'Block', 'TypeList', 'Params', 'Param', 'Idents', 'FnRest', 'Enum', 'Struct']


@cut
def parsefile(ctx, obs, p, sect):
    """Parse: no error only for a sequence of declarations up to the end of the file, all of them added in order"""
    P = PS(ctx, obs, p, sect, more={'parseEnum': ('Enum', 'node'), 'parseStruct': ('Struct', 'node'), 'parseAttributes': ('Attr', 'attr')})
    I = P.I
    P.eofs = True
    root = I.new('main.Node')
    DECL = Seq(Opt(Alt(N('Attr', 'attr'), ATTR1)), Alt(Tag(Seq(T('Fn', 'f'), N('FnRest', 'r')), 'fn', lambda c: c), One(Alt(N('Enum', 'nt'), ENUM), 'enum'), One(Alt(N('Struct', 'nt'), STRUCT), 'struct')))
    P.spec = Star(DECL, 'decls')
    P.strict = Star(Seq(Opt(Alt(N('Attr'), ATTR)), Alt(Seq(T('Fn'), N('FnRest')), N('Enum'), N('Struct'), ENUM, STRUCT)))
    try:
        errs = I.items(I.run(p.funcs[M + 'Parse'], [P.ps, Toks(P), root], ()))
    except GoPanic as e:
        if not (e.val is I.gget('main.errUnexpectedEof')):
            raise
        P.ob('error', 'an-unexpected-end-is-reported', False, 'it escapes as a panic')
        return
    if errs:
        return
    P.ob('sound', 'whole-file-consumed', P.kind(P.pos).s == {'EOF'}, 'no error although the next token is %r after %s' % (P.kind(P.pos), P.shown(P.events())))
    P.ob('sound', 'no-error-is-lost', not any(isinstance(x, ErrVal) for x in I.items(I.getf(P.ps, 'errs'))))

    def attrs(c):
        if 'attr' in c:
            return nd(c['attr'])
        return attrbits(P, c)

    def build(c):
        out = []
        for d in c['decls']:
            if 'fn' in d:
                out.append(('fn', nd(d['fn']['r']), d['fn']['r'][3], attrs(d), d['fn']['f']))
            elif 'nt' in d.get('enum', d.get('struct')):
                n = d.get('enum', d.get('struct'))['nt']
                out.append(('nt', nd(n), n[3], attrs(d)))
            elif 'enum' in d:
                out.append(('t', build_enum(P, attrs(d))(d['enum'])))
            else:
                out.append(('t', build_struct(P, attrs(d))(d['struct'])))
        return out
    evs = P.events()
    ms = [c for j, c in match(P.spec, evs, 0) if j == len(evs)]
    P.ob('sound', 'what-is-accepted-follows-the-grammar', bool(ms), 'accepted without an error: ' + P.shown(evs))
    if not ms:
        return
    want = build(ms[0])
    got = P.listof(I.getf(root, 'stmts'))
    P.ob('tree', 'every-declaration-is-kept-in-order', isinstance(got, list) and len(got) == len(want), '%s declarations for %s' % (len(got) if isinstance(got, list) else '?', P.shown(evs)))
    if isinstance(got, list) and len(got) == len(want):
        for g, w in zip(got, want):
            m = P.same(g, w[1], 'declaration')
            P.ob('tree', 'tree-is-what-was-written', m is None, str(m))
            if w[0] == 'nt':
                P.ob('tree', 'type-parsed-with-its-attributes', P.ctx.valid(I.eq(w[2][0], w[3]))[0] is True, 'attributes %s, expected %s' % (w[2][0], w[3]))
            if w[0] == 'fn':
                P.ob('tree', 'function-parsed-with-its-attributes', P.ctx.valid(I.eq(w[2][0], w[3]))[0] is True and w[2][2] is False, 'attributes %s, expected %s' % (w[2][0], w[3]))


@cut
def primitives(ctx, obs, p, sect):
    """need, next, match, is on an arbitrary token: what C02/C03 rest on, stated on their own"""
    dirty = ctx.pick([False, True])
    P = PS(ctx, obs, p, sect, dirty)
    I = P.I
    P.spec = EPS
    which = ctx.pick(['need', 'match', 'is', 'isNot'])
    k = ctx.pick(['LBrace', 'Identifier'])
    kv = p.const('lex.' + k)
    if which == 'need':
        r = rungo(P, 'need', [kv])
        if not dirty:
            P.ob('sound', 'a-missing-token-is-an-error', P.kind(0).s == {k} and P.pos == 1 and P.same(r, P.tok(0)) is None)
        else:
            P.ob('sound', 'returns-the-token-asked-for', P.kind(P.pos - 1).s == {k} and P.same(r, P.tok(P.pos - 1)) is None)
    elif which == 'match':
        r = rungo(P, 'match', [kv])
        P.ob('sound', 'consumes-exactly-on-a-match', (r is True and P.kind(0).s == {k} and P.pos == 1) or (r is False and k not in P.kind(0).s and P.pos == 0))
    else:
        r = rungo(P, which, [I.slice([kv])])
        P.ob('sound', 'tests-the-next-token', ((r is True) == (which == 'is')) == (P.kind(0).s == {k}) and P.pos == 0)
