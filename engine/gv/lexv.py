"""Contracts of the lexer (C01). The text is arbitrary: a rune and its width at every position, the length unknown. One section per
class of token: from the main state with start = pos = s the code emits exactly the token the specification demands at s and comes
back to the main state with start = pos = its end; loops are cut at their head by the contract 'what was read so far continues the
token', so every length is covered."""
import z3
from .ssa import *
from .cg import guarded, Bad, interp

I_ = z3.IntSort()
R = z3.Function('rune', I_, I_)
WD = z3.Function('width', I_, I_)
NL = z3.Function('newlines', I_, I_)
LETTER = z3.Function('isLetter', I_, z3.BoolSort())
DIGIT = z3.Function('isDigit', I_, z3.BoolSort())
SUB = z3.Function('substring', I_, I_, I_)
EOF = -1


class Span(SStr):
    __slots__ = ('lo', 'hi', 'L')

    def __init__(self, L, lo, hi):
        SStr.__init__(self, SUB(lo, hi))
        self.L, self.lo, self.hi = L, lo, hi

    def gv_len(self, I):
        return self.hi - self.lo

    def gv_slice(self, I, l, h, m):
        lo = self.lo + l
        hi = self.hi if h is None else self.lo + h
        self.L.ob('safe', 'substring-within-the-text', z3.And(self.lo <= lo, lo <= hi, hi <= self.hi))
        return Span(self.L, lo, hi)

    def gv_index(self, I, i):
        p = self.lo + i
        self.L.ob('safe', 'byte-within-the-text', z3.And(i >= 0, p < self.hi))
        self.L.at(p)
        v = z3.Function('byte', I_, I_)(p)
        self.L.ctx.assume(z3.And(v >= 0, v < 256, z3.If(R(p) < 128, v == R(p), v >= 128)))
        return v


class Done(Exception):
    pass


KNOWN = {'state', 'input', 'file', 'start', 'pos', 'width', 'tokens'}
SINGLE = [('(', 'LParen'), (')', 'RParen'), ('{', 'LBrace'), ('}', 'RBrace'), ('[', 'LBrack'), (']', 'RBrack'), ('«', 'LGmet'), ('»', 'RGmet'), ('#', 'Hash'),
          ('?', 'Question'), (',', 'Comma'), ('+', 'Plus'), ('-', 'Min'), ('*', 'Mul'), ('~', 'BNot'), ('^', 'BXor'), ('|', 'BOr'), ('&', 'BAnd')]
DOUBLE = [(':', 'Colon', [('=', 'Das')]), ('>', 'Gt', [('>', 'BRight'), ('=', 'Gte')]), ('<', 'Lt', [('<', 'BLeft'), ('=', 'Lte')]), ('.', 'Dot', [('.', 'DotDot')]),
          ('=', 'As', [('=', 'Eq')])]
KEYS = {'fn': 'Fn', 'return': 'Return', 'if': 'If', 'elseif': 'ElseIf', 'else': 'Else', 'true': 'True', 'false': 'False', 'not': 'Not', 'and': 'And', 'or': 'Or',
        'struct': 'Struct', 'while': 'While', 'for': 'For', 'in': 'In', 'enum': 'Enum', 'match': 'Match', 'case': 'Case', 'type': 'Type'}
AFTERWORD = '( :,)\r\n.+-*/><[]«»'
ASCII_LETTERS = [ord(c) for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ']


class L:
    def __init__(self, obs, p, ctx, sect):
        self.obs, self.p, self.ctx, self.sect = obs, p, ctx, sect
        self.I = I = interp(p, ctx)
        self.n = ctx.int('length')
        self.s = ctx.int('s')
        ctx.assume(z3.And(self.n >= 0, self.s >= 0, self.s <= self.n))
        self.sent = []
        I.send = lambda ch, v: self.sent.append(v)
        I.ext['unicode/utf8.DecodeRuneInString'] = self.decode
        I.ext['unicode/utf8.DecodeRune'] = self.decode
        I.ext['unicode.IsLetter'] = lambda I, a: self.letter(a[0])
        I.ext['unicode.IsDigit'] = lambda I, a: self.digit(a[0])
        I.ext['strings.Count'] = self.count
        I.ext['strings.LastIndex'] = lambda I, a: self.lastidx(a)
        I.ext['unicode/utf8.RuneCountInString'] = lambda I, a: ctx.int('runes')
        I.ext['fmt.Sprintf'] = lambda I, a: SStr(z3.Int(ctx.fresh('message')))
        I.loophooks['*'] = self.loop
        self.q = None
        self.cls = None
        lx = [f['n'] for f in p.fields(p.by_name['lex.Lexer'])]
        if not set(lx) <= KNOWN:
            raise Unsupported('the lexer has further state: %s' % sorted(set(lx) - KNOWN))
        self.text = Span(self, z3.IntVal(0), self.n)
        self.l = I.new('lex.Lexer', input=self.text, file='file', start=self.s, pos=self.s, width=ctx.int('width0'), tokens=ChanV())

    def ob(self, group, name, cond, info=''):
        self.obs.prove(self.ctx, '%s#%s:%s' % (self.sect, group, name), cond, info)

    def at(self, i):
        """facts on the rune at position i < length"""
        self.ctx.assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(WD(i) >= 1, WD(i) <= 4, i + WD(i) <= self.n, R(i) >= 0, R(i) <= 0x10FFFF,
                                                                    z3.Implies(R(i) < 128, WD(i) == 1))))

    def decode(self, I, a):
        t = a[0]
        if not isinstance(t, Span):
            raise Unsupported('decode')
        if self.ctx.decide(t.lo >= t.hi):
            return (0xFFFD, 0)
        self.at(t.lo)
        if not self.ctx.valid(t.hi == self.n)[0]:
            raise Unsupported('decode of a part')
        return (R(t.lo), WD(t.lo))

    def letter(self, r):
        if isinstance(r, int):
            return r > 0 and chr(r).isalpha()
        self.ctx.assume(z3.Implies(z3.And(r >= -1, r < 128), LETTER(r) == z3.Or(z3.And(r >= 65, r <= 90), z3.And(r >= 97, r <= 122))))
        for c in '«»':
            self.ctx.assume(z3.Implies(r == ord(c), z3.Not(LETTER(r))))
        return LETTER(r)

    def digit(self, r):
        if isinstance(r, int):
            return r > 0 and chr(r).isdigit()
        self.ctx.assume(z3.Implies(z3.And(r >= -1, r < 128), DIGIT(r) == z3.And(r >= 48, r <= 57)))
        for c in '«»':
            self.ctx.assume(z3.Implies(r == ord(c), z3.Not(DIGIT(r))))
        self.ctx.assume(z3.Not(z3.And(DIGIT(r), LETTER(r))))
        return DIGIT(r)

    def count(self, I, a):
        t, sub = a
        if not isinstance(t, Span) or sub != '\n' or not self.ctx.valid(t.lo == 0)[0]:
            raise Unsupported('strings.Count')
        return NL(t.hi)

    def lastidx(self, a):
        t, sub = a
        if not isinstance(t, Span):
            raise Unsupported('strings.LastIndex')
        i = self.ctx.int('lastindex')
        self.ctx.assume(z3.And(i >= -1, i < z3.If(t.hi - t.lo > 0, t.hi - t.lo, 1)))
        if self.ctx.decide(i == -1):
            return -1
        self.ctx.assume(i >= 0)
        self.ctx.assume(t.hi > t.lo)
        return i

    # spec-side reading: rune at i or eof
    def peek(self, i):
        self.at(i)
        return z3.If(i < self.n, R(i), z3.IntVal(EOF))

    def word(self, r):
        return z3.Or(r == ord('_'), self.letter(r))

    def cont(self, q):
        """does the token go on at q, and up to where"""
        r = self.peek(q)
        c = self.cls
        if c == 'space':
            return r == 32, q + 1
        if c == 'comment':
            return z3.And(r != EOF, r != 13, r != 10), q + WD(q)
        if c == 'word':
            return z3.And(r != EOF, z3.Or(self.word(r), self.digit(r))), q + WD(q)
        if c == 'dec':
            return z3.And(r != EOF, self.digit(r)), q + WD(q)
        if c == 'hex':
            return z3.And(r != EOF, z3.Or([self.digit(r)] + [r == ord(x) for x in 'abcdefABCDEF'])), q + WD(q)
        if c == 'string':
            r1 = self.peek(q + WD(q))
            esc = z3.Or([r1 == ord(x) for x in 'rn\\"'])
            return z3.And(r != EOF, r != 34, r != 10, z3.Implies(r == 92, esc)), z3.If(r == 92, q + WD(q) + WD(q + WD(q)), q + WD(q))
        raise Unsupported('class ' + str(c))

    def loop(self, I, fr, b, pred, blk):
        name = fr.code.name if hasattr(fr, 'code') else fr.fn.name
        key = (name, b)
        if name == 'lex.lexText':
            if fr.loops[b] == 1:
                return
            raise Done()
        if not name.startswith('lex.') and not name.startswith('(*lex.'):
            return
        pos = I.getf(self.l, 'pos')
        if self.q is None:
            if self.cls is None:
                raise Unsupported('a loop in a token of fixed length')
            if not (isinstance(pos, (int, z3.ExprRef))):
                raise Unsupported('position')
            # the loop head either stands before the next rune ('at') or has just read it ('read'); which of the two is found on entry
            for mode in ('at', 'read'):
                if self.ctx.valid(z3.And(pos == self.posat(self.q0, mode), I.getf(self.l, 'start') == self.s))[0]:
                    break
            else:
                raise Unsupported('the loop is entered at an unforeseen place')
            self.mode = mode
            self.ob('lossless', 'nothing-emitted-yet', not self.sent)
            if self.ctx.valid(self.q0 >= self.n)[0]:  # at the end of the text: nothing to generalise
                self.q, self.qkey, self.keep, self.wknown = self.q0, key, [], False
                return
            q = self.ctx.int('q')
            self.ctx.assume(z3.And(q >= self.q0, q <= self.n))
            self.at(q)
            keep = []
            for (d, _, _c) in blk.phis:
                v = fr.r[d]
                if not isinstance(v, (int, z3.ExprRef)) or isinstance(v, bool):
                    raise Unsupported('loop state')
                for k in ('peek', 'pos', 'width'):
                    if self.ctx.valid(v == self.state(k, self.q0))[0]:
                        keep.append((d, k))
                        break
                else:
                    raise Unsupported('loop state')
            wknown = self.mode == 'read' and self.ctx.valid(I.getf(self.l, 'width') == self.state('width', self.q0))[0]
            self.q, self.qkey, self.keep, self.wknown = q, key, keep, wknown
            I.setf(self.l, 'pos', self.posat(q, mode))
            I.setf(self.l, 'width', self.state('width', q) if wknown else self.ctx.int('width'))
            for d, k in keep:
                fr.r[d] = self.state(k, q)
            return
        if key != self.qkey:
            raise Unsupported('several loops in one token')
        c, nx = self.cont(self.q)
        if self.wknown and not self.ctx.valid(I.getf(self.l, 'width') == self.state('width', nx))[0]:
            raise Unsupported('loop state')
        self.ob('munch', 'goes-on-only-while-the-token-does', c)
        self.ob('munch', 'advances-past-what-it-read', pos == self.posat(nx, self.mode))
        self.ob('munch', 'progress', nx > self.q)
        self.ob('lossless', 'loop-keeps-the-start', z3.And(I.getf(self.l, 'start') == self.s, z3.BoolVal(not self.sent)))
        for d, k in self.keep:
            if not self.ctx.valid(fr.r[d] == self.state(k, nx))[0]:
                raise Unsupported('loop state')
        raise Done('loop')

    def posat(self, q, mode):
        if mode == 'at':
            return q
        self.at(q)
        return z3.If(q < self.n, q + WD(q), q)

    def state(self, k, q):
        if k == 'peek':
            return self.peek(q)
        if k == 'pos':
            return self.posat(q, self.mode)
        self.at(q)
        return z3.If(q < self.n, WD(q), 0)

    def peekval(self, i):
        return self.peek(i)

    # ------------------------------------------------------------------ one token
    def go(self):
        """run from the main state; -> ('loop' | 'main' | 'nil')"""
        I = self.I
        st = FuncV('lex.lexText')
        try:
            for hop in range(6):
                st = I.callv(st, [self.l])
                if st is None:
                    return 'nil'
                if not isinstance(st, FuncV):
                    raise Unsupported('state')
                if st.name == 'lex.lexText':
                    return 'main'
            raise Unsupported('too many states')
        except Done as d:
            return 'loop' if d.args else 'main'

    def token(self, kind, end):
        """exactly one token of that kind and the state after it"""
        I = self.I
        self.ob('lossless', 'exactly-one-token', len(self.sent) == 1, '%d tokens' % len(self.sent))
        if len(self.sent) != 1:
            return
        t = self.sent[0]
        k = I.getf(t, 'Kind')
        want = kind if not isinstance(kind, str) else self.p.const('lex.' + kind)
        self.ob('kind', 'kind-is-determined-by-the-text', I.eq(k, want), 'kind %s, expected %s' % (k, kind))
        v = I.getf(t, 'Val')
        if isinstance(v, Span):
            self.ob('lossless', 'value-is-the-text', z3.And(v.lo == self.s, v.hi == end))
        elif isinstance(v, str):
            self.ob('lossless', 'value-is-the-text', self.ctx.valid(SUB(self.s, end) == strid(v))[0] is True, v)
        else:
            raise Unsupported('token value')
        self.ob('line', 'line-is-where-it-starts', I.getf(t, 'Line') == 1 + NL(self.s))
        self.ob('lossless', 'continues-right-after-it', z3.And(I.getf(self.l, 'start') == end, I.getf(self.l, 'pos') == end))

    def error(self, res):
        I = self.I
        self.ob('lossless', 'a-single-error-token-ends-the-stream', len(self.sent) == 1 and res == 'nil' and
                I.eq(I.getf(self.sent[0], 'Kind'), self.p.const('lex.Err')) is True, '%d tokens, then %s' % (len(self.sent), res))
        if len(self.sent) == 1:
            self.ob('line', 'line-is-where-it-starts', I.getf(self.sent[0], 'Line') == 1 + NL(self.s))


CLASSES = ['eof', 'eol', 'single', 'double', 'slash', 'comment', 'space', 'string', 'word', 'zero', 'number', 'other']


@guarded
def token(ctx, obs, p, sect, cls):
    l = L(obs, p, ctx, sect)
    s, n = l.s, l.n
    A = ctx.assume
    if cls == 'eof':
        A(s == n)
        res = l.go()
        l.token('EOF', n)
        l.ob('lossless', 'the-stream-ends', res == 'nil', res)
        return
    A(s < n)
    l.at(s)
    r, p1 = R(s), s + WD(s)
    r1 = l.peek(p1)
    if cls == 'eol':
        A(r == ctx.pick([10, 13]))
        res = l.go()
        l.token('EOL', p1)
    elif cls == 'single':
        c, k = ctx.pick(SINGLE)
        A(r == ord(c))
        res = l.go()
        l.token(k, p1)
    elif cls == 'double':
        c, k, alts = ctx.pick(DOUBLE)
        A(r == ord(c))
        a = ctx.pick(alts + [None])
        if a is None:
            for x, _ in alts:
                A(r1 != ord(x))
            res = l.go()
            l.token(k, p1)
        else:
            A(z3.And(p1 < n, r1 == ord(a[0])))
            res = l.go()
            l.token(a[1], p1 + 1)
    elif cls == 'slash':
        A(z3.And(r == ord('/'), r1 != ord('/')))
        res = l.go()
        l.token('Div', p1)
    elif cls in ('comment', 'space', 'word', 'number', 'string', 'zero'):
        l.cls = {'number': 'dec', 'zero': 'dec'}.get(cls, cls)
        l.q0 = p1
        if cls == 'comment':
            A(z3.And(r == ord('/'), p1 < n, r1 == ord('/')))
            l.q0 = p1 + 1
        elif cls == 'space':
            A(r == 32)
        elif cls == 'word':
            A(l.word(r))
        elif cls == 'number':
            A(z3.And(r >= 49, r <= 57))
        elif cls == 'zero':
            A(r == 48)
            if ctx.pick([False, True]):
                A(z3.And(p1 < n, r1 == ord('x')))
                l.cls = 'hex'
                l.q0 = p1 + 1
                first = l.cont(l.q0)[0]
                if not ctx.decide(first):
                    res = l.go()
                    l.error(res)
                    return
            else:
                A(r1 != ord('x'))
        else:
            A(r == 34)
        res = l.go()
        if res == 'loop':
            return
        if l.q is None:
            raise Unsupported('no loop was found')
        q = l.q
        more, _ = l.cont(q)
        iserr = len(l.sent) == 1 and l.I.eq(l.I.getf(l.sent[0], 'Kind'), p.const('lex.Err')) is True
        l.ob('munch', 'longest-token', z3.Not(more))
        rq = l.peek(q)
        if cls == 'string':
            if iserr:
                l.ob('munch', 'a-closed-literal-is-accepted', rq != 34)
                l.error(res)
            else:
                l.ob('kind', 'literal-closes-on-its-line', rq == 34)
                l.token('String', q + 1)
        elif cls == 'word':
            if iserr:
                l.ob('munch', 'word-before-an-operator-is-accepted', z3.And([rq != EOF] + [rq != ord(c) for c in AFTERWORD]))
                l.error(res)
            else:
                w = SUB(s, q)
                k = l.I.getf(l.sent[0], 'Kind') if l.sent else None
                spec = z3.IntVal(p.const('lex.Identifier'))
                for t, kn in KEYS.items():
                    spec = z3.If(w == strid(t), z3.IntVal(p.const('lex.' + kn)), spec)
                ctx.assume(z3.Distinct([z3.IntVal(strid(t)) if isinstance(strid(t), int) else strid(t) for t in KEYS]))
                l.token(spec, q)
        else:
            l.token({'comment': 'Comment', 'space': 'Space'}.get(cls, 'Integer'), q)
        if not iserr:
            l.ob('lossless', 'lexing-goes-on', res == 'main', res)
        return
    else:
        for c, _ in SINGLE:
            A(r != ord(c))
        for c in ':><.=/"\n\r ':
            A(r != ord(c))
        A(z3.Not(l.word(r)))
        A(z3.Not(z3.And(r >= 48, r <= 57)))
        res = l.go()
        l.error(res)
        return
    l.ob('lossless', 'lexing-goes-on', res == 'main', res)


@guarded
def stream(ctx, obs, p, sect):
    """Lex starts at the first character in the main state; run applies states until one ends; lexAndParse drops only blanks and comments"""
    I = Interp(p, ctx)
    what = ctx.pick(['lex', 'run', 'filter'])

    def ob(name, cond, info=''):
        obs.prove(ctx, '%s#stream:%s' % (sect, name), cond, info)
    if what == 'lex':
        text = SStr(z3.Int('text'))
        started = []
        I.gohook = lambda i: started.append(i)
        l = I.call('lex.Lex', [text, 'file'])
        ob('starts-at-the-beginning', z3.And(I.getf(l, 'start') == 0, I.getf(l, 'pos') == 0))
        ob('reads-the-whole-text', I.eq(I.getf(l, 'input'), text))
        ob('one-lexer-runs', len(started) == 1)
    elif what == 'run':
        k = ctx.choose(4)
        seen = []

        def st(I, a):
            seen.append(a[0])
            return FuncV('lex.lexText') if len(seen) <= k else None
        I.stubs['lex.lexText'] = st
        l = I.new('lex.Lexer', tokens=ChanV())
        I.call('(*lex.Lexer).run', [l])
        ob('each-state-runs-once', len(seen) == k + 1 and all(x is l or x.c is l.c for x in seen))
    else:
        kinds = ['Identifier', 'Space', 'EOL', 'Comment', 'Integer', 'String', 'LBrace', 'Fn', 'DotDot', 'As']
        seq = [ctx.pick(kinds + ['EOF', 'Err']) for _ in range(1)]
        toks = []
        order = [ctx.pick(kinds), seq[0]]
        if order[-1] not in ('EOF', 'Err'):
            order.append('EOF')
        ptrs = [I.new('lex.Token', Kind=p.const('lex.' + k), Val='t%d' % i) for i, k in enumerate(order)]
        it = iter(ptrs)
        I.stubs['lex.Lex'] = lambda I, a: I.new('lex.Lexer')
        I.stubs['(*lex.Lexer).NextToken'] = lambda I, a: next(it)
        I.stubs['(lex.Token).String'] = lambda I, a: 'text'
        I.stubs['(*lex.Token).String'] = lambda I, a: 'text'
        got = []

        def parse(I, a):
            got.append(I.items(a[1]))
            return None
        I.stubs['(*main.Parser).Parse'] = parse
        errs = I.items(I.call('main.lexAndParse', ['code', 'path', I.new('main.Node'), False, None]))
        if 'Err' in order:
            ob('a-lexical-error-is-reported', len(errs) > 0)
            return
        want = [t for t, k in zip(ptrs, order) if k not in ('Space', 'EOL', 'Comment')]
        ob('parser-gets-every-other-token-in-order', len(got) == 1 and len(got[0]) == len(want) and all(x.c is y.c for x, y in zip(got[0], want)), str(order))
        ob('no-error-otherwise', len(errs) == 0)
