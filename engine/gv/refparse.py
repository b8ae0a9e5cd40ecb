"""Reference parser over token lists and generators of token lists (concrete inputs for C02/C03). Independent of the code: precedence
climbing is replaced by splitting at the loosest operator."""
import random
from .parsev import LEVEL, BINOP, PREOP, EXPRSTART
from .lexv import KEYS

TEXT = {'LParen': '(', 'RParen': ')', 'LBrace': '{', 'RBrace': '}', 'LBrack': '[', 'RBrack': ']', 'LGmet': '«', 'RGmet': '»', 'Hash': '#', 'Question': '?', 'Comma': ',', 'Plus': '+',
        'Min': '-', 'Mul': '*', 'Div': '/', 'BNot': '~', 'BXor': '^', 'BOr': '|', 'BAnd': '&', 'Colon': ':', 'Das': ':=', 'Gt': '>', 'BRight': '>>', 'Gte': '>=', 'Lt': '<', 'BLeft': '<<',
        'Lte': '<=', 'Dot': '.', 'DotDot': '..', 'As': '=', 'Eq': '=='}
TEXT.update({v: k for k, v in KEYS.items()})
OPS = {'opAdd': '+', 'opSub': '-', 'opMul': '*', 'opDiv': '/', 'opBLeft': '<<', 'opBRight': '>>', 'opBAnd': '&', 'opBOr': '|', 'opBXor': '^', 'opGt': '>', 'opGte': '>=', 'opLt': '<',
       'opLte': '<=', 'opEq': '==', 'opDot': '.', 'opOr': 'or', 'opAnd': 'and', 'opNot': 'not', 'opBNot': '~', 'opNeg': 'neg'}


class Bad(Exception):
    pass


def node(op, val, left=None, right=None, stmts=None, params=None, attrs=0):
    return [op, val, left, right, stmts or None, params or None, attrs]


class Ref:
    def __init__(self, toks):
        self.t = toks + [('EOF', '')]
        self.i = 0

    def k(self, *ks):
        return self.t[self.i][0] in ks

    def need(self, k):
        if not self.k(k):
            raise Bad('%s expected at token %d' % (k, self.i))
        self.i += 1
        return self.t[self.i - 1][1]

    def opt(self, k):
        if self.k(k):
            self.i += 1
            return True
        return False

    def file(self):
        out = []
        while not self.k('EOF'):
            attrs = 0
            if self.opt('Hash'):
                self.need('LBrack')
                while True:
                    attrs |= {'ExtRet': 1, 'RawValues': 2}.get(self.need('Identifier'), 0)
                    if not self.opt('Comma'):
                        break
                self.need('RBrack')
            if self.opt('Fn'):
                out.append(self.fn(attrs, None))
            elif self.opt('Struct'):
                id = self.need('Identifier')
                ps = self.tl()[1] if self.k('LGmet') else None
                self.need('LBrace')
                fs = []
                while not self.k('RBrace'):
                    fs.append(self.param())
                self.need('RBrace')
                out.append(node('struct', id, None, None, fs, ps, attrs))
            elif self.opt('Enum'):
                id = self.need('Identifier')
                ps = self.tl()[1] if self.k('LGmet') else None
                self.need('LBrace')
                cs = []
                while not self.k('RBrace'):
                    n = self.need('Identifier')
                    cs.append(node('cons', n, node('named', id), None, None, self.plist(self.param)))
                self.need('RBrace')
                out.append(node('enum', id, None, None, cs, ps, attrs))
            else:
                raise Bad('declaration expected')
        return node('root', '', None, None, out)

    def tl(self):
        s = self.need('LGmet')
        ts = []
        if not self.k('RGmet'):
            ts.append(self.type())
            while self.opt('Comma'):
                ts.append(self.type())
        self.need('RGmet')
        return s, ts

    def plist(self, f):
        self.need('LParen')
        out = []
        if not self.k('RParen'):
            out.append(f())
            while self.opt('Comma'):
                out.append(f())
        self.need('RParen')
        return out

    def param(self):
        n = self.need('Identifier')
        self.need('Colon')
        return node('id', n, self.type())

    def type(self):
        if self.opt('Fn'):
            a = self.plist(self.type)
            r = self.type() if self.k('Fn', 'Identifier', 'LBrack') else None
            return node('fntype', 'fn', r, None, a)
        if self.opt('LBrack'):
            self.need('RBrack')
            return node('arraytype', '[', self.type())
        n = self.need('Identifier')
        l = None
        if self.k('LGmet'):
            s, ts = self.tl()
            l = node('typelist', s, None, None, None, ts)
        return node('named', n, l)

    def fn(self, attrs, anon):
        id = anon or self.need('Identifier')
        r = None
        if self.k('LGmet'):
            s, ts = self.tl()
            r = node('typelist', s, None, None, None, ts)
        ps = self.plist(self.param)
        l = self.type() if self.k('Fn', 'LBrack', 'Identifier') else None
        if self.k('LBrace'):
            return node('blockfn', id, l, r, self.block(), ps, attrs)
        if self.opt('As'):
            return node('exprfn', id, l, r, [self.expr()], ps, attrs)
        if anon:
            raise Bad('body expected')
        return node('externfn', id, l, r, None, ps, attrs)

    def block(self):
        self.need('LBrace')
        out = []
        while not self.k('RBrace'):
            out.append(self.stmt())
        self.need('RBrace')
        return out

    def stmt(self):
        if self.k('Return'):
            v = self.need('Return')
            return node('return', v, self.expr() if self.t[self.i][0] in EXPRSTART - {'Type'} else None)
        if self.k('While'):
            v = self.need('While')
            e = self.expr()
            return node('while', v, e, None, self.block())
        if self.k('For'):
            v = self.need('For')
            x = node('id', self.need('Identifier'))
            self.need('In')
            e = self.expr()
            if self.k('DotDot'):
                d = self.need('DotDot')
                e = node('range', d, e, self.expr())
            return node('for', v, x, e, self.block())
        if self.k('If'):
            v = self.need('If')
            e = self.expr()
            n = node('if', v, e, None, self.block())
            cur = n
            while self.k('ElseIf'):
                w = self.need('ElseIf')
                e = self.expr()
                cur[3] = node('elseif', w, e, None, self.block())
                cur = cur[3]
            if self.k('Else'):
                w = self.need('Else')
                cur[3] = node('else', w, None, None, self.block())
            return n
        if self.k('Match'):
            v = self.need('Match')
            e = self.expr()
            self.need('LBrace')
            cs = []
            while not self.k('RBrace'):
                self.need('Case')
                n = self.need('Identifier')
                ps = self.plist(lambda: node('id', self.need('Identifier')))
                self.need('Colon')
                b = []
                while not self.k('Case', 'RBrace'):
                    b.append(self.stmt())
                cs.append(node('case', n, None, None, b, ps))
            self.need('RBrace')
            return node('match', v, e, None, cs)
        if self.k('Type'):
            raise Bad('statement expected')
        e = self.expr()
        if self.k('As'):
            v = self.need('As')
            return node('=', v, e, self.expr())
        if self.k('Das'):
            v = self.need('Das')
            return node(':=', v, e, self.expr())
        return e

    # an expression is first read as a flat list of operands, prefix operators and infix operators, then grouped
    def expr(self):
        items = []
        while True:
            while self.k('Not', 'BNot', 'Min'):
                k, v = self.t[self.i]
                self.i += 1
                items.append(('pre', k, v))
            k = self.t[self.i][0]
            if k not in EXPRSTART:
                raise Bad('operand expected at token %d (%s)' % (self.i, k))
            v = self.t[self.i][1]
            self.i += 1
            if k == 'Identifier':
                x = node('id', v)
            elif k in ('Integer', 'String', 'True', 'False'):
                x = node('lit', v)
            elif k == 'LParen':
                x = self.expr()
                self.need('RParen')
            elif k == 'Fn':
                x = self.fn(0, 'fn')
                items.append(('x', x))
                if x[0] == 'exprfn':
                    return group(items)
                items.pop()
            elif k == 'Type':
                self.need('LParen')
                x = self.type()
                self.need('RParen')
            else:
                x = node('arraylit', v, None, None, self.exprs('RBrack'))
            items.append(('x', x))
            while self.k('LParen', 'LBrack', 'LGmet'):
                if self.k('LParen'):
                    v = self.need('LParen')
                    items.append(('post', 13, 'call', v, self.exprs('RParen'), None))
                elif self.k('LGmet'):
                    v, ts = self.tl()
                    self.need('LParen')
                    items.append(('post', 13, 'call', v, self.exprs('RParen'), ts))
                else:
                    v = self.need('LBrack')
                    e = self.expr()
                    self.need('RBrack')
                    items.append(('post', 12, 'index', v, e, None))
            if self.k('Question'):
                v = self.need('Question')
                a = self.expr()
                self.need('Colon')
                b = self.expr()
                return node('?:', v, group(items), None, [a, b])
            if not self.k(*BINOP):
                return group(items)
            k, v = self.t[self.i]
            self.i += 1
            items.append(('in', k, v))

    def exprs(self, end):
        out = []
        if not self.k(end):
            out.append(self.expr())
            while self.opt('Comma'):
                out.append(self.expr())
        self.need(end)
        return out


def group(items):
    """groups a flat list: the last of the loosest infix operators splits it; what is left is a chain of member accesses, calls and indexings"""
    best = None
    for i, it in enumerate(items):
        if it[0] == 'in' and LEVEL[it[1]] < 11 and (best is None or LEVEL[it[1]] <= best[0]):
            best = (LEVEL[it[1]], i)
    if best:
        i = best[1]
        return node(OPS[BINOP[items[i][1]]], items[i][2], group(items[:i]), group(items[i + 1:]))
    return chain(items)


def chain(items):
    it = items[0]
    if it[0] == 'pre':
        return node(OPS[PREOP[it[1]]], it[2], chain(items[1:]))
    left, cur, i = None, it[1], 1  # left = (node, text) of a member access whose right operand is cur
    fold = lambda: cur if left is None else node('.', left[1], left[0], cur)
    while i < len(items):
        it = items[i]
        if it[0] == 'in':
            left = (fold(), it[2])
            if items[i + 1][0] == 'pre':
                cur = chain(items[i + 1:])
                return fold()
            cur = items[i + 1][1]
            i += 2
            continue
        if it[2] == 'call':
            cur = node('call', it[3], cur, None, it[4], it[5])
        else:
            cur, left = node('index', it[3], fold(), it[4]), None
        i += 1
    return fold()


class Gen:
    def __init__(self, r):
        self.r = r

    def id(self):
        return ('Identifier', self.r.choice(['a', 'b', 'foo', 'x1', 'fnx', 'T']))

    def t(self, k):
        return (k, TEXT[k])

    def lst(self, f, lo=0, hi=3):
        out = []
        for i in range(self.r.randint(lo, hi)):
            if i:
                out.append(self.t('Comma'))
            out += f()
        return out

    def type(self, d=2):
        r = self.r.random()
        if d > 0 and r < 0.15:
            return [self.t('Fn'), self.t('LParen')] + self.lst(lambda: self.type(d - 1)) + [self.t('RParen')] + (self.type(d - 1) if self.r.random() < .5 else [])
        if d > 0 and r < 0.3:
            return [self.t('LBrack'), self.t('RBrack')] + self.type(d - 1)
        if d > 0 and r < 0.45:
            return [self.id()] + self.tl(d - 1)
        return [self.id()]

    def tl(self, d=1):
        return [self.t('LGmet')] + self.lst(lambda: self.type(d), 0, 2) + [self.t('RGmet')]

    def params(self):
        return [self.t('LParen')] + self.lst(lambda: [self.id(), self.t('Colon')] + self.type(1)) + [self.t('RParen')]

    def fnrest(self, d, anon):
        out = [] if anon else [self.id()]
        if self.r.random() < .15:
            out += self.tl()
        out += self.params()
        if self.r.random() < .5:
            out += self.type()
        k = self.r.random()
        if k < .5 or (anon and k > .9):
            out += self.block(d - 1)
        elif k < .9:
            out += [self.t('As')] + self.expr(d - 1)
        return out

    def atom(self, d):
        r = self.r.random()
        if d <= 0 or r < .4:
            return [self.id()]
        if r < .6:
            return [self.r.choice([('Integer', '12'), ('Integer', '0x1F'), ('String', '"s"'), ('True', 'true'), ('False', 'false')])]
        if r < .75:
            return [self.t('LParen')] + self.expr(d - 1) + [self.t('RParen')]
        if r < .85:
            return [self.t('LBrack')] + self.lst(lambda: self.expr(d - 1)) + [self.t('RBrack')]
        if r < .93:
            return [self.t('Fn')] + self.fnrest(d - 1, True)
        return [self.t('Type'), self.t('LParen')] + self.type() + [self.t('RParen')]

    def expr(self, d=2, n=None):
        out = []
        n = self.r.choice([1, 1, 2, 3, 4]) if n is None else n
        for i in range(n):
            while self.r.random() < .2:
                out.append(self.t(self.r.choice(list(PREOP))))
            out += self.atom(d)
            while self.r.random() < (.2 if d > 0 else .05):
                k = self.r.random()
                if k < .5:
                    out += [self.t('LParen')] + self.lst(lambda: self.expr(d - 1)) + [self.t('RParen')]
                elif k < .6:
                    out += self.tl() + [self.t('LParen')] + self.lst(lambda: self.expr(d - 1)) + [self.t('RParen')]
                else:
                    out += [self.t('LBrack')] + self.expr(d - 1) + [self.t('RBrack')]
            if i < n - 1:
                out.append(self.t(self.r.choice(list(BINOP))))
        if d > 0 and self.r.random() < .15:
            out += [self.t('Question')] + self.expr(d - 1) + [self.t('Colon')] + self.expr(d - 1)
        return out

    def block(self, d):
        out = [self.t('LBrace')]
        for _ in range(self.r.randint(0, 3) if d > 0 else self.r.randint(0, 1)):
            out += self.stmt(d)
        return out + [self.t('RBrace')]

    def stmt(self, d):
        r = self.r.random()
        if r < .15:
            return [self.t('Return')] + (self.expr(d) if self.r.random() < .7 else [])
        if d > 0 and r < .22:
            return [self.t('While')] + self.expr(d - 1) + self.block(d - 1)
        if d > 0 and r < .3:
            return [self.t('For'), self.id(), self.t('In')] + self.expr(d - 1) + ([self.t('DotDot')] + self.expr(d - 1) if self.r.random() < .5 else []) + self.block(d - 1)
        if d > 0 and r < .42:
            out = [self.t('If')] + self.expr(d - 1) + self.block(d - 1)
            for _ in range(self.r.choice([0, 0, 1, 2])):
                out += [self.t('ElseIf')] + self.expr(d - 1) + self.block(d - 1)
            if self.r.random() < .5:
                out += [self.t('Else')] + self.block(d - 1)
            return out
        if d > 0 and r < .5:
            out = [self.t('Match')] + self.expr(d - 1) + [self.t('LBrace')]
            for _ in range(self.r.randint(0, 3)):
                out += [self.t('Case'), self.id(), self.t('LParen')] + self.lst(lambda: [self.id()]) + [self.t('RParen'), self.t('Colon')]
                for _ in range(self.r.randint(0, 2)):
                    out += self.stmt(d - 1)
            return out + [self.t('RBrace')]
        e = self.expr(d)
        if self.r.random() < .5:
            e += [self.t(self.r.choice(['As', 'Das']))] + self.expr(d)
        return e

    def decl(self, d):
        out = []
        if self.r.random() < .15:
            out += [self.t('Hash'), self.t('LBrack')] + self.lst(lambda: [self.r.choice([('Identifier', 'ExtRet'), ('Identifier', 'RawValues'), ('Identifier', 'Other')])], 1, 3) + [self.t('RBrack')]
        r = self.r.random()
        if r < .7:
            return out + [self.t('Fn')] + self.fnrest(d, False)
        out += [self.t('Struct' if r < .85 else 'Enum'), self.id()]
        if self.r.random() < .3:
            out += self.tl()
        out.append(self.t('LBrace'))
        for _ in range(self.r.randint(0, 3)):
            out += ([self.id(), self.t('Colon')] + self.type()) if r < .85 else ([self.id()] + self.params())
        return out + [self.t('RBrace')]

    def file(self, d=2):
        out = []
        for _ in range(self.r.randint(0, 3)):
            out += self.decl(d)
        return out


ALLKINDS = [k for k in TEXT]


def mutate(r, ts):
    ts = list(ts)
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.random()
        i = r.randrange(len(ts)) if ts else 0
        if k < .3 and ts:
            del ts[i]
        elif k < .5:
            x = r.choice(ALLKINDS)
            ts.insert(i, (x, TEXT[x]))
        elif k < .65 and ts:
            x = r.choice(ALLKINDS)
            ts[i] = (x, TEXT[x])
        elif k < .85:
            ts = ts[:i]
        elif ts:
            j = r.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
    return ts


def text(ts):
    return ' '.join(v for _, v in ts).encode('utf-8')


def exprs(n, seed):
    """token lists of one function around one expression; all pairs and triples of operators first"""
    r = random.Random(seed)
    g = Gen(r)
    head = [('Fn', 'fn'), ('Identifier', 'f'), ('LParen', '('), ('RParen', ')'), ('As', '=')]
    out = []
    bins = [(k, TEXT[k]) for k in BINOP]
    pres = [(k, TEXT[k]) for k in PREOP]
    I = lambda s: ('Identifier', s)
    for a in bins:
        for b in bins:
            out.append([I('a'), a, I('b'), b, I('c')])
        for p in pres:
            out.append([p, I('a'), a, I('b')])
            out.append([I('a'), a, p, I('b')])
            out.append([I('a'), a, p, I('b'), a, I('c')])
        q, c = ('Question', '?'), ('Colon', ':')
        out.append([I('a'), a, I('b'), q, I('c'), c, I('d')])
        out.append([I('a'), q, I('b'), c, I('c'), a, I('d')])
        out.append([I('a'), q, I('b'), a, I('e'), c, I('c'), q, I('x'), c, I('y')])
        out.append([I('a'), a, I('f'), ('LParen', '('), I('x'), ('RParen', ')'), a, I('g')])
        out.append([I('a'), a, I('f'), ('LBrack', '['), I('x'), ('RBrack', ']'), a, I('g')])
        out.append([I('a'), a, I('f'), ('LGmet', '«'), I('T'), ('RGmet', '»'), ('LParen', '('), ('RParen', ')'), a, I('g')])
        for b in bins:
            for d in bins:
                if r.random() < .08:
                    out.append([I('a'), a, I('b'), b, I('c'), d, I('d')])
    for p in pres:
        for q in pres:
            out.append([p, q, I('a')])
        for post in ([('LParen', '('), ('RParen', ')')], [('LBrack', '['), ('Integer', '1'), ('RBrack', ']')], [('Dot', '.'), I('m')]):
            out.append([p, I('a')] + post)
            out.append([p, I('a')] + post + post)
    for _ in range(n):
        out.append(g.expr(r.choice([0, 1, 1, 2]), r.choice([2, 3, 4, 6])))
    out += nested(r, 3 * n)
    for k in (9, 17, 33, 65, 130):
        one = r.choice(bins)
        for pick in (lambda: one, lambda: r.choice(bins)):
            e = [I('a')]
            for i in range(k):
                e += [pick(), I('b%d' % i)]
            out.append(e)
        out.append([('LParen', '(')] * k + [I('a')] + [('RParen', ')')] * k)
        out.append([r.choice(pres) for _ in range(k)] + [I('a')])
        out.append([I('f'), ('LParen', '(')] + [x for i in range(k) for x in ([('Comma', ',')] if i else []) + [I('a%d' % i)]] + [('RParen', ')')])
        out.append([('LBrack', '[')] + [x for i in range(k) for x in ([('Comma', ',')] if i else []) + [I('a%d' % i)]] + [('RBrack', ']')])
        out.append([x for i in range(k) for x in [I('c%d' % i), ('Question', '?'), I('v%d' % i), ('Colon', ':')]] + [I('z')])
        out.append([I('a')] + [x for i in range(k) for x in [('Dot', '.'), I('m%d' % i)] + ([('LParen', '('), ('RParen', ')')] if r.random() < .5 else [])])
    return [head + e for e in out]


CONTEXTS = """_ ? _ : _ | ( _ ) | _ [ _ ] | _ ( ) | _ ( _ ) | _ ( _ , _ ) | _ « T » ( _ ) | _ « T , U » ( ) | [ _ ] | [ _ , _ , _ ] | fn ( ) = _ | fn ( x : int ) int { return _ } | _ . m | _ . m ( _ )""".split(' | ')


def nested(r, n):
    """every construct in every place of every construct, bare and in parentheses, and n nestings of three or four"""
    back = {v: k for k, v in TEXT.items()}
    ctx = CONTEXTS + ['_ %s _' % TEXT[k] for k in BINOP if k != 'Dot'] + ['%s _' % TEXT[k] for k in PREOP]
    atoms = ['a', 'b', 'c', '1', '0x1F', '"s"', 'true', 'false', 'type ( int )']
    plain = lambda c: ' '.join(r.choice(atoms[:4] if r.random() < .8 else atoms) if w == '_' else w for w in c.split())

    def put(c, hole, inner):
        ws, k = c.split(), -1
        for i, w in enumerate(ws):
            if w == '_':
                k += 1
                ws[i] = inner if k == hole else r.choice(atoms[:4])
        return ' '.join(ws)
    out = []
    for c in ctx:
        for h in range(c.split().count('_')):
            for d in ctx:
                out += [put(c, h, plain(d)), put(c, h, '( %s )' % plain(d))]
                if r.random() < .1:
                    out.append('( %s )' % put(c, h, plain(d)))
    hot = ctx[:2] * 3 + ctx
    for _ in range(n):
        e = plain(r.choice(hot))
        for _ in range(r.choice([2, 2, 3])):
            if r.random() < .4:
                e = '( %s )' % e
            c = r.choice(hot)
            if r.random() < .3 and c.split().count('_') > 1:
                # two inner constructs
                ws = c.split()
                hs = [i for i, w in enumerate(ws) if w == '_']
                i, j = r.sample(hs, 2)
                ws[i], ws[j] = e, plain(r.choice(hot)) if r.random() < .5 else '( %s )' % plain(r.choice(hot))
                e = ' '.join(r.choice(atoms[:4]) if w == '_' else w for w in ' '.join(ws).split())
            else:
                e = put(c, r.randrange(c.split().count('_')), e)
        out.append(e)
    return [[(back[w], w) if w in back else ('Integer', w) if w[0].isdigit() else ('String', w) if w[0] == '"' else ('Identifier', w) for w in e.split()] for e in out]


SMALL = """fn f ( a : int , b : [ ] T ) int { return a }
fn f « T » ( ) = a
fn f ( )
# [ ExtRet , RawValues ] fn f ( ) { }
struct s { a : int b : fn ( int , T ) [ ] T }
struct s « T , U » { a : l « T , U » }
enum e « T » { A ( ) B ( a : int , b : T ) }
fn f ( ) { match a { case A ( ) : a ( ) case B ( x , y ) : b ( ) return } }
fn f ( ) { if a { a ( ) } elseif b { b ( ) } else { c ( ) } return }
fn f ( ) { while a { a ( ) } for i in a { } for i in 0 .. b { } }
fn f ( ) { a := b ( c , d ) a = a [ 1 ] a . b = - c }
fn f ( ) { return ( a ? b : c ) }
fn f ( ) = [ a , b , c ]
struct s { a : int } fn f ( ) = a
enum e { A ( ) } enum f { } fn f ( ) struct s { }
fn f ( ) = a « int , T » ( b , c )
fn f ( ) = g ( fn ( x : int ) int = x , fn ( ) { } , type ( [ ] int ) )
fn f ( ) = a + b * ( c - d ) [ 2 ] ( )
fn f ( e : e ) int { match e { case A ( ) : return 1 case B ( x ) : return x case C ( ) : match x { case D ( a , b , c ) : return } } }
fn f ( ) { match a { case A ( ) : case B ( ) : if a { } else { } case C ( ) : while a { } } }
fn f ( ) { match a { } if a { return } elseif b { return 1 } elseif c { } }
fn f ( ) { for i in a ( ) { for j in i .. 0 { return } } return fn ( ) { } }
fn f ( ) { a ( ) b ( 1 ) c . d ( ) e [ 0 ] ( ) ( f ) ( ) }
fn f ( a : fn ( ) , b : fn ( int ) [ ] int ) fn ( ) int { return a }
fn f « A , B , C » ( a : A , b : B , c : C ) l « A , m « B , C » » = a
fn f ( ) { a = [ ] a = [ b ] a := "x" b := true c := not d }
struct a { } struct b { x : [ ] [ ] int y : l « » } # [ Other ] enum c { }
enum e { A ( a : int ) B ( ) C ( x : fn ( ) , y : [ ] T , z : l « T » ) }
fn f ( ) { if a { if b { } } else { if c { } elseif d { } else { } } }
fn f ( ) int = a ? b ? c : d : e ? f : g fn g ( ) # [ RawValues ] fn h ( )"""


def small(r, share):
    """every single-token change of small files that contain every construct: all deletions, truncations and neighbour swaps, a share of the insertions and replacements"""
    back = {v: k for k, v in TEXT.items()}
    out = []
    for l in SMALL.split('\n'):
        f = [(back[w], w) if w in back else ('Integer', w) if w.isdigit() else ('String', w) if w[0] == '"' else ('Identifier', w) for w in l.split()]
        out.append(f)
        out.append(f + f)
        for i in range(len(f)):
            out += [f[:i], f[:i] + f[i + 1:], f[:i] + [f[i]] + f[i:], f[:i] + f[i + 1:i + 2] + [f[i]] + f[i + 2:]]
            for k in ALLKINDS:
                if r.random() < share:
                    out.append(f[:i] + [(k, TEXT[k])] + f[i:])
                if r.random() < share:
                    out.append(f[:i] + [(k, TEXT[k])] + f[i + 1:])
    return out


def files(n, seed, share=.1):
    r = random.Random(seed)
    g = Gen(r)
    out = small(r, share)
    for _ in range(n):
        f = g.file()
        out.append(f)
        for _ in range(3):
            out.append(mutate(r, f))
        if f and r.random() < .5:
            out.append(f[:r.randrange(len(f))])
    return out


def judge(ts, res):
    if 'crash' in res or 'panic' in res:
        return 'the parser fails: %s' % (res.get('crash') or res.get('panic'))
    try:
        want = Ref(ts).file()
    except Bad as e:
        return None if res['errors'] else 'accepted although: %s' % e
    if res['errors']:
        return 'rejected: %s' % res['errors'][0]
    d = diff(res['tree'], want, 'file')
    return d


def diff(a, b, path):
    if a is None or b is None:
        return None if a == b else '%s: %s, expected %s' % (path, short(a), short(b))
    if a[0] != b[0] or a[1] != b[1] or a[6] != b[6]:
        return '%s: %s, expected %s' % (path, short(a), short(b))
    for i, n in ((2, 'left'), (3, 'right')):
        m = diff(a[i], b[i], path + '.' + n)
        if m:
            return m
    for i, n in ((4, 'stmts'), (5, 'params')):
        x, y = a[i] or [], b[i] or []
        if len(x) != len(y):
            return '%s.%s: %d entries, expected %d' % (path, n, len(x), len(y))
        for j, (p, q) in enumerate(zip(x, y)):
            m = diff(p, q, '%s.%s[%d]' % (path, n, j))
            if m:
                return m
    return None


def short(t):
    if t is None:
        return 'nothing'
    xs = [short(x) for x in [t[2], t[3]] + (t[4] or []) if x]
    return '%s%s' % (t[1] if t[0] in ('id', 'lit') else t[0], '(%s)' % ' '.join(xs) if xs else '')
