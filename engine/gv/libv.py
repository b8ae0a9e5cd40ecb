"""C16 and the string part of C19: the byte, string and buffer functions of the library against their meaning.
mode 'all': lengths and contents arbitrary (loops cut); mode 'small': lengths fixed (every combination up to a bound), contents arbitrary, loops unrolled."""
import z3
from .clr import *


class B:
    def __init__(self, ctx, obs, lib, sec, mode, cands=None, **kw):
        self.ctx, self.obs, self.lib, self.sec, self.mode = ctx, obs, lib, sec, mode
        self.small = mode == 'small'
        self.X = X(lib, ctx, obs, sec, unroll=80 if self.small else 0, cands=cands, **kw)
        self.X.contracts['claralloc(int,string,int)'] = claralloc
        obs.contracts.add('claralloc')
        self.max = 3

    def mem(self, name, ro=False, hi=None, extra=0):
        if self.small:
            n = self.ctx.choose((self.max if hi is None else hi) + 1)
            m = self.X.conc([self.X.int('%s%d' % (name, i), -128, 127) for i in range(n)] + [0] * extra, name, ro)
            m.w0 = n
            return m
        return self.X.bytes_(name, ro)

    def each(self, n, f, name, what=''):
        """f(j) for every 0 <= j < n"""
        if isinstance(n, int):
            for j in range(n):
                self.X.ob(name, f(j), what)
            return
        j = self.ctx.int('j')
        self.ctx.assume(z3.And(j >= 0, j < n))
        self.X.prove(name, f(j), [j], what)

    def some(self, n, f, name):
        """f(j) for some 0 <= j < n"""
        if isinstance(n, int):
            self.X.ob(name, simp(OR(*[f(j) for j in range(n)])))
            return
        ts = self.witnesses()
        self.X.ob(name, simp(OR(*[AND(simp(t >= 0), simp(t < n), f(t)) for t in ts])))

    def witnesses(self):
        ts = [z3.IntVal(0)]
        for k, f, bases in self.X.qf:
            for d in (0, 1, 2):
                ts.append(k + d)
            for b in bases:
                ts.append(b + k)
        return ts

    def run(self, decl, args, panics, post, frame=(), may=False):
        """panics: condition under which the function must panic; post(result) the obligations otherwise; frame: objects that must not change"""
        x = self.X
        before = [(m, m.w0, m.get, m.size) for m in frame]
        try:
            r = x.run(decl, args)
        except OutOfMemory:
            self.done()
            return
        except Panic as e:
            x.ob('panics only on a bad index, range or length', simp(OR(panics, may)), str(e))
            self.done()
            return
        except StopPath:
            self.done()
            return
        x.ob('a bad index, range or length panics', simp(NOT(panics)))
        if panics is True:
            self.done()
            return
        for m, w0, get, size in before:
            x.ob('arguments keep their length', same(m.w0, w0) or simp(m.w0 == w0), m.name)
            if m.get is not get:
                self.each(w0, lambda j: simp(m.get(j) == get(j)), 'arguments keep their contents', m.name)
        post(r)
        self.done()

    def done(self):
        self.obs.functions |= self.X.ran

    def isbytes(self, r, n, f, nul=False):
        """r is a byte object of length n with byte f(j) at j"""
        x = self.X
        if not isinstance(r, Mem):
            raise Unsupported('result is a %s' % type(r).__name__)
        x.ob('length of the result', simp(r.w0 == n))
        x.ob('the length fits the block', simp(8 + n <= r.size))
        self.each(n, lambda j: simp(r.get(j) == f(j)), 'contents of the result')
        if nul:
            x.ob('the result is terminated by a zero byte', simp(AND(9 + n <= r.size, r.get(n) == 0)))


def lowbyte(x, v):
    if isinstance(v, int):
        return byteval(v % 256)
    r = x.divmod(v, 256)[1]
    return z3.If(r > 127, r - 256, r)


def outside(i, n):
    return simp(OR(i < 0, i >= n))


def guard(f):
    def g(ctx, obs, p, sec, lib, *a, **k):
        return f(ctx, obs, lib, sec, *a, **k)
    return g


@guard
def access(ctx, obs, lib, sec, mode, which):
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    m = b.mem('s', ro=which == 'byte')
    if which == 'Bytes':
        n = x.int('n')
        b.run(lib.fn('Bytes', 'int'), [n], n < 0, lambda r: (b.isbytes(r, n, lambda j: 0), x.ob('a block of its own', r.size is not None and r in x.objs and getattr(r, 'fresh', False))))
        return
    if which == 'length':
        b.run(lib.fn('length', 'bytes'), [m], False, lambda r: x.ob('length', simp(r == m.w0)), [m])
        return
    i = x.int('i')
    if which in ('byte', 'get'):
        d = lib.fn('byte', 'string') if which == 'byte' else lib.fn('get', 'bytes', 'int')
        b.run(d, [m, i], outside(i, m.w0), lambda r: x.ob('the byte at the index', simp(r == m.get(i))), [m])
        return
    v = x.int('v')
    w0, old = m.w0, m.get

    def post(r):
        x.ob('length unchanged', simp(m.w0 == w0))
        lb = lowbyte(x, v)
        b.each(w0, lambda j: simp(m.get(j) == ITE(simp(j == i), lb, old(j))), 'only the addressed byte changes, to the low byte of the value')
    b.run(lib.fn('set', 'bytes', 'int', 'int'), [m, i, v], outside(i, m.w0), post)


@guard
def copy(ctx, obs, lib, sec, mode, which):
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    src, dst = b.mem('src', ro=which == 'copyString'), b.mem('dst')
    sp, dp = x.int('sp', -(1 << 61), 1 << 61), x.int('dp', -(1 << 61), 1 << 61)
    enter = AND(simp(sp < src.w0), simp(dp < dst.w0))
    old, w0 = dst.get, dst.w0

    def post(r):
        n = z3.If(src.w0 - sp < w0 - dp, src.w0 - sp, w0 - dp)
        x.ob('length unchanged', simp(dst.w0 == w0))
        b.each(w0, lambda j: simp(dst.get(j) == z3.If(z3.And(j >= dp, j < dp + n), src.get(simp(sp + j - dp)), old(j))), 'the bytes from the source position on, as many as fit')
    b.run(lib.fn(which, 'string' if which == 'copyString' else 'bytes', 'int', 'bytes', 'int'), [src, sp, dst, dp], simp(AND(enter, OR(sp < 0, dp < 0))), post, [src])


@guard
def equals(ctx, obs, lib, sec, mode):
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    s, t = b.mem('s', ro=True), b.mem('t', ro=True)

    def post(r):
        if x.ctx.decide(r):
            x.ob('equal strings have equal length', simp(s.w0 == t.w0))
            b.each(s.w0, lambda j: simp(s.get(j) == t.get(j)), 'equal strings have equal bytes')
        else:
            if x.ctx.decide(simp(s.w0 == t.w0)):
                b.some(s.w0, lambda j: simp(s.get(j) != t.get(j)), 'strings found different differ')
    b.run(lib.fn('Equals', 'string', 'string'), [s, t], False, post, [s, t])


NM = z3.Function('nomatch', z3.IntSort(), z3.BoolSort())
PFX = z3.Function('nomatchbefore', z3.IntSort(), z3.BoolSort())


@guard
def indexof(ctx, obs, lib, sec, mode, arity):
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    b.max = 3
    s, sub = b.mem('s', ro=True, hi=4), b.mem('sub', ro=True)
    frm = x.int('from', 0, HI) if arity == 3 else 0

    def at(q):
        return simp(AND(q >= 0, q + sub.w0 <= s.w0, *[s.get(q + j) == sub.get(j) for j in range(sub.w0)]))

    def rules(xx, v):
        # definition of "sub does not occur at q" and "does not occur at any position from the start up to v"
        xx.ctx.assume(PFX(frm))
        xx.ctx.assume(z3.Implies(v + sub.w0 > s.w0, NM(v)))
        for k, f, bases in xx.qf:
            for t in (z3.IntVal(0), k, k + 1):
                xx.ctx.assume(z3.Implies(z3.And(t >= 0, t < sub.w0, s.get(v + t) != sub.get(t)), NM(v)))
        xx.ctx.assume(z3.Implies(z3.And(sub.w0 > 0, s.get(v) != sub.get(0)), NM(v)))
        xx.ctx.assume(z3.Implies(z3.And(v >= frm, PFX(v), NM(v)), PFX(v + 1)))

    def cands(xx, st):
        out = []
        for q in st['keys']:
            if q[0] == 'v' and q in st['delta'] and st['delta'][q] == 1:
                def c(y, q=q):
                    v = y.now(q)
                    if q in st['entry']:
                        rules(y, term(v))
                        rules(y, simp(v - 1) if isinstance(v, int) else v - 1)
                    return PFX(term(v))
                out.append(('no match before %s' % (q,), c))
        return out
    if not b.small:
        x.cands = cands

    def post(r):
        if x.ctx.decide(simp(sub.w0 == 0)):
            x.ob('an empty string is found at 0', simp(r == 0))
            return
        if b.small:
            for p in range(s.w0 + 1):
                first = AND(simp(p >= frm), at(p), *[NOT(AND(simp(q >= frm), at(q))) for q in range(p)])
                x.ob('the first occurrence is found', simp(IMP(first, r == p)))
            none = AND(*[NOT(AND(simp(p >= frm), at(p))) for p in range(s.w0 + 1)])
            x.ob('-1 without an occurrence', simp(IMP(none, r == -1)))
            return
        if x.ctx.decide(simp(r == -1)):
            last = simp(s.w0 - sub.w0)
            ts = [term(frm)] + [term(v) + k for k, f, bases in x.qf for v in bases]
            for t in ts:
                x.ctx.assume(PFX(frm))
            x.ob('-1 only without an occurrence', simp(OR(*[AND(PFX(t), t > last) for t in ts])))
        else:
            x.ob('occurrence lies inside, from the start on', simp(AND(r >= frm, r + sub.w0 <= s.w0)))
            x.ctx.assume(PFX(frm))
            x.ob('no earlier occurrence', PFX(term(r)))
            b.each(sub.w0, lambda j: simp(s.get(r + j) == sub.get(j)), 'the bytes there are those looked for')
    b.run(lib.fn('IndexOf', 'string', 'string', n=arity), [s, sub] + ([frm] if arity == 3 else []), False, post, [s, sub])


@guard
def indexofneg(ctx, obs, lib, sec, mode):
    """a negative start: memory safe, and an occurrence reported is one"""
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    s, sub = b.mem('s', ro=True, hi=3), b.mem('sub', ro=True, hi=2)
    frm = x.int('from', LO, -1)
    try:
        r = x.run(lib.fn('IndexOf', 'string', 'string', n=3), [s, sub, frm])
        if x.ctx.decide(simp(sub.w0 == 0)):
            return
        x.ob('no position outside is reported', simp(OR(r == -1, AND(r >= 0, r + sub.w0 <= s.w0))))
    except (Panic, StopPath):
        pass
    b.done()


@guard
def tostring(ctx, obs, lib, sec, mode, which):
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    m = b.mem('b', ro=which == 'Substring')
    if which == 'all':
        b.run(lib.fn('toString', 'bytes', n=1), [m], False, lambda r: b.isbytes(r, m.w0, m.get, True), [m])
        return
    n = x.int('n', LO, HI)
    if which == 'length':
        d, args, pos = lib.fn('toString', 'bytes', n=2), [m, n], 0
    elif which == 'range':
        pos = x.int('pos', LO, HI)
        d, args = lib.fn('toString', 'bytes', n=3), [m, pos, n]
    else:
        pos = x.int('pos', LO, HI)
        end = x.int('end', LO, HI)
        d, args = lib.fn('Substring', 'string', n=3), [m, pos, end]
        n = end - pos
    b.run(d, args, simp(OR(pos < 0, n < 0, pos + n > m.w0)), lambda r: b.isbytes(r, n if not b.small else x_int(b, n), lambda j: m.get(simp(pos + j)), True), [m])


def x_int(b, n):
    """a length known to be small: make it a number by cases"""
    n = simp(n)
    if isinstance(n, int):
        return n
    for v in range(12):
        if b.ctx.decide(simp(n == v)):
            return v
    raise Unsupported('a length of the small world is not small')


@guard
def append(ctx, obs, lib, sec, mode):
    b = B(ctx, obs, lib, sec, mode)
    s, t = b.mem('s', ro=True), b.mem('t', ro=True)
    n = s.w0
    b.run(lib.fn('append', 'string', 'string'), [s, t], False, lambda r: b.isbytes(r, simp(n + t.w0), lambda j: ITE(simp(j < n), s.get(j), t.get(simp(j - n))), True), [s, t])


@guard
def buffer(ctx, obs, lib, sec, mode, which):
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    if not b.small:
        def cands(xx, st):
            out = []
            for q, v in st['keys'].items():
                if q[0] == 'v' and q not in st['delta'] and isint(v[0]):
                    out.append(('grows %s' % (q,), lambda y, q=q, v0=v[0]: y.now(q) >= v0))
                    out.append(('bounded %s' % (q,), lambda y, q=q, v0=v[0]: y.now(q) <= 4 * MAXLEN))
            return out
        x.cands = cands
    if which == 'new':
        n = x.int('n', LO, MAXLEN)

        def post(r):
            x.ob('an empty buffer of that capacity', simp(AND(r.f['size'] == 0, r.f['data'].w0 == n, 8 + n <= r.f['data'].size)))
        b.run(lib.fn('NewByteBuffer', 'int'), [n], n < 0, post)
        return
    data = b.mem('data')
    if b.small:
        size = ctx.choose(data.w0 + 1)
    else:
        size = x.int('size', 0, MAXLEN)
        ctx.assume(size <= data.w0)
    old = data.get
    buf = x.new(StructO('byteBuffer', {'data': data, 'size': size}))

    def inv():
        d, n = buf.f['data'], buf.f['size']
        x.ob('the size stays within the data', simp(AND(n >= 0, n <= d.w0, 8 + d.w0 <= d.size)))
        return d

    def grown(n, f, ret=None):
        def post(r):
            if ret:
                x.ob('returns the buffer', r is buf)
            d = inv()
            x.ob('size', simp(buf.f['size'] == size + n))
            b.each(simp(size + n), lambda j: simp(d.get(j) == ITE(simp(j < size), old(j), f(simp(j - size)))), 'old contents followed by what is appended')
        return post
    if which == 'append':
        s = b.mem('s', ro=True)
        b.run(lib.fn('append', 'byteBuffer', 'string'), [buf, s], False, grown(s.w0, s.get, True), [s])
    elif which == 'appendByte':
        v = x.int('v')
        lb = lowbyte(x, v)
        b.run(lib.fn('append', 'byteBuffer', 'int'), [buf, v], False, grown(1, lambda j: lb))
    elif which == 'grow':
        n = x.int('n', LO, MAXLEN)

        def post(r):
            d = inv()
            x.ob('size unchanged', simp(buf.f['size'] == size))
            x.ob('room for the required size', simp(d.w0 >= n))
            b.each(size, lambda j: simp(d.get(j) == old(j)), 'contents unchanged')
        if b.small:
            ctx.assume(n <= 12)
        b.run(lib.fn('grow', 'byteBuffer', 'int'), [buf, n], False, post)
    elif which == 'reset':
        def post(r):
            inv()
            x.ob('empty', simp(buf.f['size'] == 0))
        b.run(lib.fn('reset', 'byteBuffer'), [buf], False, post)
    elif which == 'size':
        b.run(lib.fn('size', 'byteBuffer'), [buf], False, lambda r: x.ob('size', simp(r == size)), [data])
    elif which == 'toString':
        b.run(lib.fn('toString', 'byteBuffer'), [buf], False, lambda r: b.isbytes(r, size, old, True), [data])
    elif which == 'substring':
        pos, n = x.int('pos'), x.int('n')
        b.run(lib.fn('substring', 'byteBuffer', 'int', 'int'), [buf, pos, n], simp(OR(pos < 0, n < 0, pos + n > size)),
              lambda r: b.isbytes(r, n if not b.small else x_int(b, n), lambda j: old(simp(pos + j)), True), [data])


@guard
def alias(ctx, obs, lib, sec, which):
    """conversions that share the object must not be handed out by operations that promise a copy"""
    b = B(ctx, obs, lib, sec, 'small')
    x = b.X
    data = b.mem('data')
    if which == 'toString':
        try:
            r = x.run(lib.fn('toString', 'bytes', n=1), [data])
        except (Panic, StopPath):
            return
        x.ob('the string is a copy', r is not data)
    else:
        buf = x.new(StructO('byteBuffer', {'data': data, 'size': data.w0}))
        try:
            r = x.run(lib.fn('toString', 'byteBuffer'), [buf])
        except (Panic, StopPath):
            return
        x.ob('the string is a copy', r is not data)
    b.done()


@guard
def arrays(ctx, obs, lib, sec, mode, which):
    """creation of arrays: length, room, every element"""
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    if b.small:
        n = ctx.choose(6) - 2
    else:
        n = x.int('n')
    val = x.int('val')
    null = x.nullelem
    want, args = None, None
    if which == 'default':
        d, args, want = lib.fn('array', 'int', 'T', n=2), [n, val], val
    elif which == 'string':
        s = x.lit(b'ab')
        d, args, want = lib.fn('stringArray', 'int', 'string'), [n, val], val
    elif which == 'int':
        d, args, want = lib.fn('intArray', 'int', n=1), [n], null
    elif which == 'noinit':
        d, args = lib.fn('arrayNoInit', 'int', n=1), [n]
    elif which == 'option':
        d, args = lib.fn('array', 'int', n=1), [n]
        want = EnumV('option', 'None', [])

    def isval(v):
        if isinstance(want, EnumV):
            return isinstance(v, EnumV) and v.enum == 'option' and v.case == 'None'
        return same(v, want) or simp(term(v) == term(want))

    def post(r):
        if not isinstance(r, Mem) or r.word is None:
            raise Unsupported('array')
        x.ob('the length asked for', simp(r.w0 == n))
        x.ob('room for every element', simp(8 + 8 * n <= r.size))
        x.ob('a new block', getattr(r, 'fresh', False))
        if want is not None:
            b.each(n, lambda j: isval(r.word(j)), 'every element has the initial value')
    b.run(d, args, simp(n < 0), post, may=simp(n > MAXLEN))
