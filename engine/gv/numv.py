"""C19: the integer functions of the library, for every int."""
import z3
from .clr import *
from .libv import B, guard

FNV = z3.Function('fnv1a', z3.IntSort(), z3.IntSort())


@guard
def decimal(ctx, obs, lib, sec):
    b = B(ctx, obs, lib, sec, 'small')      # at most 19 digits: the loop ends by itself, nothing is bounded
    x = b.X
    x.unroll = 40
    v = x.int('v')
    ctx.decide(v < 0)

    def post(r):
        n = r.w0
        if not isinstance(n, int):
            raise Unsupported('length of the text')
        x.ob('fits its block', simp(9 + n <= r.size))
        cs = [r.get(j) for j in range(n)]
        neg = simp(v < 0)
        if ctx.decide(neg):
            x.ob('a minus sign in front of negative numbers', n > 1 and simp(term(cs[0]) == 45))
            cs = cs[1:]
        x.ob('at least one digit', len(cs) > 0)
        x.ob('digits only', simp(AND(*[AND(simp(c >= 48), simp(c <= 57)) for c in cs])))
        x.ob('no leading zero', len(cs) == 1 or simp(cs[0] != 48))
        val = 0
        for c in cs:
            val = 10 * val + (c - 48)
        x.ob('the digits denote the number', simp(val == ITE(neg, -v, v)))
        x.ob('terminated by a zero byte', simp(r.get(n) == 0))
    b.run(lib.fn('toString', 'int'), [v], False, post)


@guard
def binary(ctx, obs, lib, sec):
    b = B(ctx, obs, lib, sec, 'small')
    x = b.X
    x.unroll = 200
    x.merge = True
    v = x.int('v')

    def post(r):
        n = r.w0
        x.ob('63 digits and 7 separators of two bytes', n == 77)
        if n != 77:
            return
        p = 0
        for j in range(62, -1, -1):
            bit = x.divmod(x.divmod(v, 2 ** j)[0] if j else v, 2)[1]
            x.ob('the digit of each bit', simp(r.get(p) == 48 + bit), 'bit %d' % j)
            p += 1
            if j and j % 8 == 0:
                x.ob('a separator after every eighth bit', simp(AND(r.get(p) == byteval(0xc2), r.get(p + 1) == byteval(0xb7))))
                p += 2
        x.ob('terminated by a zero byte', simp(r.get(n) == 0))
    b.run(lib.fn('toBinary', 'int'), [v], False, post)


@guard
def mod(ctx, obs, lib, sec):
    b = B(ctx, obs, lib, sec, 'small')
    x = b.X
    i, m = x.int('i'), x.int('m')

    def post(r):
        # the remainder: i = m*q + r with |r| < |m| and r zero or of the sign of i
        q = ctx.int('quot')
        d = x.lastrem if hasattr(x, 'lastrem') else None
        if d is None:
            raise Unsupported('no division')
        x.ob('the remainder with the sign of the dividend', simp(r == d))
    b.run(lib.fn('mod', 'int', 'int'), [i, m], m == 0, post)


@guard
def modsmall(ctx, obs, lib, sec, lo, hi):
    """every dividend, for each modulus of a range: no nonlinear terms, so any way of computing it can be decided"""
    b = B(ctx, obs, lib, sec, 'small')
    x = b.X
    i = x.int('i')
    m = lo + ctx.choose(hi - lo + 1)
    if m == 0:
        return

    def post(r):
        q, d = x.divmod(i, abs(m))
        # floor remainder d; truncated: d if i >= 0 or d == 0 else d - |m|
        x.ob('the remainder with the sign of the dividend', simp(r == z3.If(z3.Or(i >= 0, d == 0), d, d - abs(m))), 'modulus %d' % m)
    b.run(lib.fn('mod', 'int', 'int'), [i, m], False, post)


@guard
def boolean(ctx, obs, lib, sec):
    b = B(ctx, obs, lib, sec, 'small')
    x = b.X
    v = ctx.bool('v')

    def post(r):
        t = b'true' if ctx.decide(v) else b'false'
        b.isbytes(r, len(t), lambda j: t[j])
    b.run(lib.fn('toString', 'bool'), [v], False, post)


@guard
def fnv(ctx, obs, lib, sec, mode):
    b = B(ctx, obs, lib, sec, mode)
    x = b.X
    s = b.mem('s', ro=True, hi=4)

    def step(h, c):
        u = x.divmod(c, 256)[1]
        return x.divmod(simp(x.bxor(h, u) * 0x01000193), 2 ** 32)[1]

    def rules(y, v):
        y.ctx.assume(FNV(0) == 0x811c9dc5)
        y.ctx.assume(z3.And(FNV(v) >= 0, FNV(v) < 2 ** 32))
        y.ctx.assume(z3.Implies(z3.And(v >= 0, v < s.w0), FNV(v + 1) == step(FNV(v), y.byte(s, v))))

    def cands(xx, st):
        out = []
        for q, v in st['keys'].items():
            if q[0] == 'v' and q not in st['delta'] and isint(v[0]):
                out.append(('32 bits %s' % (q,), lambda y, q=q: z3.And(y.now(q) >= 0, y.now(q) < 2 ** 32)))
                for a, d in st['delta'].items():
                    if d == 1:
                        def c(y, q=q, a=a):
                            v = term(y.now(a))
                            rules(y, v - 1)
                            rules(y, v)
                            return y.now(q) == FNV(v)
                        out.append(('hash of the bytes so far %s' % ((q, a),), c))
        return out
    if not b.small:
        x.cands = cands

    def post(r):
        if b.small:
            h = 0x811c9dc5
            for j in range(s.w0):
                h = step(h, s.get(j))
            x.ob('the FNV-1a hash', simp(r == h))
        else:
            ctx.assume(FNV(0) == 0x811c9dc5)
            x.ob('the FNV-1a hash', simp(r == FNV(term(s.w0))))
    b.run(lib.fn('fnv1a', 'string'), [s], False, post, [s])
