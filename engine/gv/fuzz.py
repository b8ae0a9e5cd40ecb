"""Random well-typed programs with their meaning: a reference interpreter of the language as the properties state it. The programs are
replayed on the real compiler; they are the bounded companion of the proofs and the search for failing inputs."""
import random, sys

MASK = (1 << 63) - 1


def w63(v):
    v &= MASK
    return v - (1 << 63) if v >> 62 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


INT = {'+': lambda a, b: w63(a + b), '-': lambda a, b: w63(a - b), '*': lambda a, b: w63(a * b), '&': lambda a, b: a & b, '|': lambda a, b: a | b,
       '^': lambda a, b: a ^ b, '/': lambda a, b: w63(tdiv(a, b)), '<<': lambda a, b: w63(a << (b & 63)), '>>': lambda a, b: a >> (b & 63)}
CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b}
# binding strength, tightest first
PREC = {'*': 10, '/': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '&': 5, '^': 4, '|': 3, 'and': 2, 'or': 1, '?:': 1}


def tname(t):
    if isinstance(t, str):
        return t
    if t[0] == 'arr':
        return '[]' + tname(t[1])
    if t[0] == 'fn':
        return 'fn(%s)%s' % (', '.join(tname(x) for x in t[1]), '' if t[2] is None else ' ' + tname(t[2]))
    return t[1]


ALL = frozenset(['struct', 'enum', 'fn', 'arr', 'gen', 'string', 'shadow', 'nest'])


SHADOW = frozenset(['string', 'shadow', 'arr', 'enum'])


class Stop(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Var:
    def __init__(self, name, t, ro=False):
        self.name, self.t, self.ro = name, t, ro


class Gen:
    def __init__(self, seed, feats=ALL):
        self.r = random.Random(seed)
        self.f = feats
        self.n = 0
        self.structs, self.enums, self.fns = {}, {}, []
        self.depth = 0

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def types(self, deep=1):
        r = self.r
        x = r.random()
        if x < .45 or deep < 0:
            return 'int'
        if x < .57:
            return 'bool'
        if x < .67:
            return 'string' if 'string' in self.f else 'int'
        if x < .78:
            if 'arr' not in self.f:
                return 'int'
            return ('arr', self.types(deep - 1) if r.random() < .5 else 'int')
        if x < .88 and self.structs:
            return ('struct', r.choice(sorted(self.structs)))
        if x < .95 and self.enums:
            return ('enum', r.choice(sorted(self.enums)))
        if (x > .95 or x > .8 and 'struct' not in self.f) and deep > 0 and 'fn' in self.f:
            return ('fn', [self.types(-1) for _ in range(r.randrange(4))], 'int')
        return 'int'

    # ------------------------------------------------------------------ expressions
    def expr(self, t, sc, d):
        """sc: visible variables, outermost first; d: depth left"""
        r = self.r
        vs = [v for v in sc if v.t == t]
        if d <= 0:
            if vs and r.random() < .75:
                return ('var', r.choice(vs).name)
            return self.leaf(t, sc)
        c = r.random()
        if vs and c < .12:
            return ('var', r.choice(vs).name)
        if c < .2:
            return ('tern', self.expr('bool', sc, d - 2), self.expr(t, sc, d - 1), self.expr(t, sc, d - 1))
        if c < .32:
            e = self.callexpr(t, sc, d)
            if e:
                return e
        if c < .38:
            arrs = [v for v in sc if v.t == ('arr', t)]
            if arrs and not (isinstance(t, tuple) and t[0] == 'fn'):
                return ('index', ('var', r.choice(arrs).name), self.expr('int', sc, d - 2))
            if r.random() < .3 and 'arr' in self.f and not (isinstance(t, tuple) and t[0] == 'fn'):
                return ('index', self.expr(('arr', t), sc, d - 2), self.expr('int', sc, d - 2))
        if c < .46:
            fs = [(v, f) for v in sc if isinstance(v.t, tuple) and v.t[0] == 'struct' for f, ft in self.structs[v.t[1]] if ft == t]
            if fs:
                v, f = r.choice(fs)
                return ('dot', ('var', v.name), f)
            cand = [(s, f) for s in sorted(self.structs) for f, ft in self.structs[s] if ft == t]
            if cand and r.random() < .4:
                s, f = r.choice(cand)
                return ('dot', self.expr(('struct', s), sc, d - 2), f)
        if c < .52:
            lv = [v for v in sc if isinstance(v.t, tuple) and v.t[0] == 'fn' and v.t[2] == t]
            if lv:
                v = r.choice(lv)
                return ('callv', ('var', v.name), [self.expr(x, sc, d - 2) for x in v.t[1]])
        if t == 'int':
            if c < .6:
                return ('tr', self.name(''), self.expr('int', sc, d - 1))
            if c < .64:
                return (r.choice(['neg', 'bnot']), self.expr('int', sc, d - 1))
            if c < .67:
                a = [v for v in sc if isinstance(v.t, tuple) and v.t[0] == 'arr']
                if a:
                    return ('len', ('var', r.choice(a).name))
            op = r.choice(['+', '+', '-', '-', '*', '&', '|', '^', '/', '<<', '>>'])
            a = self.expr('int', sc, d - 1)
            b = self.expr('int', sc, d - 1)
            if op == '/':
                b = ('bin', '|', b, ('int', 1)) if r.random() < .7 else ('int', r.choice([1, 2, 3, 7, -1, -2, 10, 64]))
            if op in ('<<', '>>') and r.random() < .7:
                b = ('int', r.choice([0, 1, 2, 3, 8, 31, 32, 33, 61, 62, 63]))
            return ('bin', op, a, b)
        if t == 'bool':
            if c < .6:
                return ('trb', self.name(''), self.expr('bool', sc, d - 1))
            if c < .66:
                return ('not', self.expr('bool', sc, d - 1))
            if c < .8:
                return ('bin', r.choice(['and', 'or']), self.expr('bool', sc, d - 1), self.expr('bool', sc, d - 1))
            return ('bin', r.choice(sorted(CMP)), self.expr('int', sc, d - 1), self.expr('int', sc, d - 1))
        return self.make(t, sc, d)

    def callexpr(self, t, sc, d):
        r = self.r
        fs = [f for f in self.fns if f[2] == t]
        if r.random() < .25 and 'gen' in self.f:
            k = r.randrange(4)
            if k == 0:
                return ('gen', 'same', [self.expr(t, sc, d - 1)])
            if k == 1:
                return ('gen', 'pick', [self.expr('bool', sc, d - 2), self.expr(t, sc, d - 1), self.expr(t, sc, d - 1)])
            if k == 2 and not (isinstance(t, tuple) and t[0] == 'fn'):
                o = self.types(-1)
                return ('gen', 'third', [self.expr(o, sc, d - 2), self.expr('int', sc, d - 2), self.expr(t, sc, d - 1)])
        if not fs:
            return None
        f = r.choice(fs)
        return ('call', f[0], [self.expr(p.t, sc, d - 2 if len(f[1]) > 2 else d - 1) for p in f[1]])

    def leaf(self, t, sc):
        r = self.r
        if t == 'int':
            return ('int', r.choice([0, 1, 2, 3, 4, 5, 7, 10, 63, 64, 100, 255, -1, -2, -5, -100, 2**31 - 1, 2**31, -2**31, 2**32 + 5, 2**61, 2**62 - 1, -2**62, r.randrange(-50, 50)]))
        if t == 'bool':
            return ('bool', r.random() < .5)
        if t == 'string':
            return ('str', r.choice(['', 'a', 'b', 'ab', 'abc', 'hello', 'x y', 'Z%d' % r.randrange(20)]))
        return self.make(t, sc, 0)

    def make(self, t, sc, d):
        r = self.r
        if t == 'string':
            return self.leaf(t, sc)
        k = t[0]
        if k == 'arr':
            return ('arr', t[1], [self.expr(t[1], sc, d - 2) for _ in range(r.choice([1, 1, 2, 3, 4, 6]))])
        if k == 'struct':
            return ('new', t[1], [self.expr(ft, sc, d - 2) for f, ft in self.structs[t[1]]])
        if k == 'enum':
            cs = self.enums[t[1]]
            if d <= 0:
                easy = [c for c in cs if all(isinstance(x, str) for x in c[1])] or cs
                c = r.choice(easy)
            else:
                c = r.choice(cs)
            return ('case', t[1], c[0], [self.expr(x, sc, d - 2) for x in c[1]])
        if k == 'fn':
            return self.closure(t, sc, d)
        raise Exception(t)

    def closure(self, t, sc, d):
        r = self.r
        ps = [Var(self.name('q'), x) for x in t[1]]
        outer = [v for v in sc]
        r.shuffle(outer)
        outer = [v for v in sc if v in outer[:r.randrange(4)]]
        self.depth += 1
        if r.random() < .4 or self.depth > 2 or d < 0:
            body = ('fexpr', ps, t[2], self.expr(t[2], outer + ps, max(1, min(d, 2))))
        else:
            body = ('fblock', ps, t[2], self.block(outer + ps, t[2], 2, 2, nested=True, own=[p.name for p in ps]))
        self.depth -= 1
        return body

    # ------------------------------------------------------------------ statements
    def block(self, sc, ret, d, n, nested=False, must=True, own=()):
        """list of statements; sc visible variables; ends in a return when must"""
        r = self.r
        sc = list(sc)
        here = set(own)   # declared in this very scope: parameters, the loop variable, case variables
        out = []
        for _ in range(r.randrange(1, n + 1)):
            s = self.stmt(sc, here, ret, d, nested)
            if s:
                out.append(s)
        if must:
            if ret is None:
                if r.random() < .2:
                    out.append(('return', None))
            else:
                x = r.random()
                if x < .25 and d > 0:
                    out.append(('if', [(self.expr('bool', sc, 2), self.block(sc, ret, 0, 1, nested)), (self.expr('bool', sc, 1), self.block(sc, ret, 0, 1, nested))][:r.randrange(1, 3)],
                                self.block(sc, ret, 0, 1, nested)))
                elif x < .35 and d > 0 and self.enums:
                    out.append(self.match(sc, ret, 0, nested, True))
                else:
                    out.append(('return', self.expr(ret, sc, 2 if d else 1)))
        return out

    def match(self, sc, ret, d, nested, must):
        r = self.r
        en = r.choice(sorted(self.enums))
        cs = list(self.enums[en])
        r.shuffle(cs)
        arms = []
        for c in cs:
            vs = [Var(self.name('m'), x) for x in c[1]]
            arms.append((c[0], [v.name for v in vs], self.block(sc + vs, ret, d, 2, nested, must, own=[v.name for v in vs])))
        return ('match', en, self.expr(('enum', en), sc, 2), arms)

    def stmt(self, sc, here, ret, d, nested):
        r = self.r
        x = r.random()
        if x < .27:
            t = self.types(1)
            e = self.expr(t, sc, 3)
            shadow = [v.name for v in sc if v.name not in here]
            nm = r.choice(shadow) if shadow and r.random() < (.4 if self.f == SHADOW else .12) and 'shadow' in self.f else self.name('v')
            # a shadowing declaration: the initialiser still sees the outer variable, so keep it out of it
            if nm in shadow:
                e = self.expr(t, [v for v in sc if v.name != nm], 2)
                if self.uses(e, nm):
                    return None
            here.add(nm)
            for v in [v for v in sc if v.name == nm]:
                sc.remove(v)
            sc.append(Var(nm, t))
            return ('das', nm, e)
        if x < .42:
            c = [v for v in sc if not v.ro]
            if c:
                v = r.choice(c)
                k = r.random()
                if isinstance(v.t, tuple) and v.t[0] == 'struct' and k < .8:
                    f, ft = r.choice(self.structs[v.t[1]])
                    return ('as', ('dot', ('var', v.name), f), self.expr(ft, sc, 2))
                if isinstance(v.t, tuple) and v.t[0] == 'arr' and k < .8:
                    return ('as', ('index', ('var', v.name), self.expr('int', sc, 1)), self.expr(v.t[1], sc, 2))
                return ('as', ('var', v.name), self.expr(v.t, sc, 3))
        if x < .6 or d <= 0:
            return self.show(sc)
        if x < .7:
            return ('if', [(self.expr('bool', sc, 2), self.block(sc, ret, d - 1, 2, nested, r.random() < .15)) for _ in range(r.randrange(1, 4))],
                    self.block(sc, ret, d - 1, 2, nested, False) if r.random() < .6 else None)
        if x < .78:
            v = Var(self.name('i'), 'int', ro=True)
            k = r.randrange(3)
            if k == 0:
                a, b = ('int', r.randrange(-3, 4)), ('int', r.choice([1, 2, 3, 4]))
            elif k == 1:
                a = ('bin', '&', self.expr('int', sc, 1), ('int', 3))
                b = ('bin', '+', ('int', r.randrange(0, 4)), ('int', r.randrange(0, 2)))
            else:
                a, b = r.choice([('int', r.randrange(0, 5)), ('bin', '&', self.expr('int', sc, 1), ('int', 3)), ('bin', '-', ('int', 4), ('int', r.randrange(0, 6)))]), ('int', 0)
            return ('forr', v.name, a, b, self.block(sc + [v], ret, d - 1, 2, nested, False, own=[v.name]))
        if x < .84 and 'arr' in self.f:
            t = self.types(0)
            if isinstance(t, tuple) and t[0] == 'fn':
                t = 'int'
            v = Var(self.name('x'), t)
            return ('fora', v.name, t, self.expr(('arr', t), sc, 2), self.block(sc + [v], ret, d - 1, 2, nested, False, own=[v.name]))
        if x < .9:
            w = self.name('w')
            return ('while', w, r.randrange(0, 4), self.expr('bool', sc, 1), self.block(sc, ret, d - 1, 2, nested, False))
        if x < .96 and self.enums:
            return self.match(sc, ret, d - 1, nested, False)
        return self.show(sc)

    def uses(self, e, nm):
        if isinstance(e, tuple):
            if e[:1] == ('var',) and e[1] == nm:
                return True
            return any(self.uses(x, nm) for x in e)
        if isinstance(e, list):
            return any(self.uses(x, nm) for x in e)
        return False

    def show(self, sc):
        r = self.r
        c = [v for v in sc if v.t in ('int', 'bool', 'string')]
        if c and r.random() < .3:
            v = r.choice(c)
            return ('print', v.t, ('var', v.name))
        t = r.choice(['int', 'int', 'int', 'bool', 'string' if 'string' in self.f else 'int'])
        return ('print', t, self.expr(t, sc, 3))

    def program(self):
        r = self.r
        for i in range(r.randrange(0, 3) if 'struct' in self.f else 0):
            k = r.randrange(1, 7)
            fs = [('f%d' % j, self.types(0)) for j in range(k)]
            self.structs['s%d' % i] = fs
        for i in range(r.randrange(0, 3) if 'enum' in self.f else 0):
            k = r.randrange(1, 6)
            self.enums['e%d' % i] = [('C%d%s' % (i, 'abcdefg'[j]), [self.types(0) for _ in range(r.randrange(0, 6) if r.random() < .5 else r.randrange(0, 3))]) for j in range(k)]
        for i in range(r.randrange(2, 6)):
            ps = [Var(self.name('p'), self.types(1)) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5, 6]))]
            ret = None if r.random() < .15 else self.types(1)
            if ret is not None and r.random() < .3:
                body = ('e', self.expr(ret, ps, 3))
            else:
                body = ('b', self.block(ps, ret, 2, 4, own=[p.name for p in ps]))
            self.fns.append(('g%d' % i, ps, ret, body))
        main = self.block([], None, 2, 6, must=False)
        for f in self.fns:
            args = [self.expr(p.t, [], 2) for p in f[1]]
            if f[2] is None:
                main.append(('do', ('call', f[0], args)))
            elif f[2] in ('int', 'bool', 'string'):
                main.append(('print', f[2], ('call', f[0], args)))
            else:
                main.append(('das', self.name('z'), ('call', f[0], args)))
        return main


# ---------------------------------------------------------------------------------------------- text
class Emit:
    def __init__(self, g):
        self.g, self.out = g, []

    def e(self, e, lv=0):
        k = e[0]
        if k == 'int':
            s = str(e[1])
            return s if lv <= 11 or e[1] >= 0 else '(%s)' % s
        if k == 'bool':
            return 'true' if e[1] else 'false'
        if k == 'str':
            return '"%s"' % e[1]
        if k == 'var':
            return e[1]
        if k == 'bin':
            p = PREC[e[1]]
            s = '%s %s %s' % (self.e(e[2], p), e[1], self.e(e[3], p + 1))
            return '(%s)' % s if p < lv else s
        if k == 'tern':
            s = '%s ? %s : %s' % (self.e(e[1], 2), self.e(e[2], 2), self.e(e[3], 2))
            return '(%s)' % s if lv > 0 else s
        if k in ('neg', 'bnot', 'not'):
            s = {'neg': '-', 'bnot': '~', 'not': 'not '}[k] + self.e(e[1], 12)
            return '(%s)' % s if lv > 11 else s
        if k == 'tr':
            return 'ti(%s, %s)' % (e[1], self.e(e[2]))
        if k == 'trb':
            return 'tb(%s, %s)' % (e[1], self.e(e[2]))
        if k == 'call' or k == 'gen':
            return '%s(%s)' % (e[1], ', '.join(self.e(a) for a in e[2]))
        if k == 'callv':
            return '%s(%s)' % (self.e(e[1], 13), ', '.join(self.e(a) for a in e[2]))
        if k == 'index':
            base = self.e(e[1], 13)
            return 'at(%s, %s)' % (base, self.e(e[2])) if e[1][0] != 'var' else '%s[wrap(%s, %s.length)]' % (base, self.e(e[2]), base)
        if k == 'dot':
            return '%s.%s' % (self.e(e[1], 13), e[2])
        if k == 'len':
            return self.e(e[1], 13) + '.length'
        if k == 'arr':
            return '[%s]' % ', '.join(self.e(a) for a in e[2])
        if k == 'new':
            return '%s(%s)' % (e[1].upper(), ', '.join(self.e(a) for a in e[2]))
        if k == 'case':
            return '%s(%s)' % (e[2], ', '.join(self.e(a) for a in e[3]))
        if k == 'fexpr':
            return '(fn(%s) %s = %s)' % (', '.join('%s: %s' % (p.name, tname(p.t)) for p in e[1]), tname(e[2]), self.e(e[3])) if False else \
                'fn(%s) %s = %s' % (', '.join('%s: %s' % (p.name, tname(p.t)) for p in e[1]), tname(e[2]), self.e(e[3]))
        if k == 'fblock':
            body = []
            old, self.out = self.out, body
            self.ss(e[3], 2)
            self.out = old
            return 'fn(%s) %s {\n%s\n}' % (', '.join('%s: %s' % (p.name, tname(p.t)) for p in e[1]), tname(e[2]), '\n'.join(body))
        raise Exception(k)

    def ss(self, ss, ind):
        p = '  ' * ind
        for s in ss:
            k = s[0]
            if k == 'das':
                self.out.append('%s%s := %s' % (p, s[1], self.e(s[2])))
            elif k == 'as':
                self.out.append('%s%s = %s' % (p, self.e(s[1]), self.e(s[2])))
            elif k == 'print':
                self.out.append('%sprintln(%s)' % (p, self.e(s[2])))
            elif k == 'do':
                self.out.append(p + self.e(s[1]))
            elif k == 'return':
                self.out.append(p + ('return' if s[1] is None else 'return ' + self.e(s[1])))
            elif k == 'if':
                for i, (c, b) in enumerate(s[1]):
                    self.out.append('%s%s %s {' % (p, 'if' if i == 0 else '} elseif', self.e(c)))
                    self.ss(b, ind + 1)
                if s[2] is not None:
                    self.out.append(p + '} else {')
                    self.ss(s[2], ind + 1)
                self.out.append(p + '}')
            elif k == 'forr':
                self.out.append('%sfor %s in %s .. %s {' % (p, s[1], self.e(s[2], 9), self.e(s[3], 9)))
                self.ss(s[4], ind + 1)
                self.out.append(p + '}')
            elif k == 'fora':
                self.out.append('%sfor %s in %s {' % (p, s[1], self.e(s[3])))
                self.ss(s[4], ind + 1)
                self.out.append(p + '}')
            elif k == 'while':
                self.out.append('%s%s := 0' % (p, s[1]))
                self.out.append('%swhile %s < %d and %s {' % (p, s[1], s[2], self.e(s[3], 3)))
                self.out.append('%s  %s = %s + 1' % (p, s[1], s[1]))
                self.ss(s[4], ind + 1)
                self.out.append(p + '}')
            elif k == 'match':
                self.out.append('%smatch %s {' % (p, self.e(s[2])))
                for c, vs, b in s[3]:
                    self.out.append('%s  case %s(%s):' % (p, c, ', '.join(vs)))
                    self.ss(b, ind + 2)
                self.out.append(p + '}')
            else:
                raise Exception(k)

    def text(self, main):
        g = self.g
        o = self.out
        o += ['fn ti(k: int, v: int) int {', '  printf("%lli;", k)', '  return v', '}', 'fn tb(k: int, v: bool) bool {', '  printf("%lli;", k)', '  return v', '}',
              'fn wrap(i: int, n: int) int {', '  r := i - i / n * n', '  return r < 0 ? r + n : r', '}',
              'fn at«T»(a: []T, i: int) T = a[wrap(i, a.length)]', 'fn same«T»(x: T) T = x', 'fn pick«T»(c: bool, a: T, b: T) T = c ? a : b',
              'fn third«A,B»(a: A, n: int, b: B) B {', '  t := [a]', '  return [b][t.length - 1]', '}']
        for n, fs in g.structs.items():
            o.append('struct %s {' % n)
            o += ['  %s: %s' % (f, tname(t)) for f, t in fs] + ['}']
        for n, cs in g.enums.items():
            o.append('enum %s {' % n)
            o += ['  %s(%s)' % (c, ', '.join('a%d: %s' % (i, tname(t)) for i, t in enumerate(ts))) for c, ts in cs] + ['}']
        for n, ps, ret, body in g.fns:
            h = 'fn %s(%s)%s' % (n, ', '.join('%s: %s' % (p.name, tname(p.t)) for p in ps), '' if ret is None else ' ' + tname(ret))
            if body[0] == 'e':
                o.append('%s = %s' % (h, self.e(body[1])))
            else:
                o.append(h + ' {')
                self.ss(body[1], 1)
                o.append('}')
        o.append('fn main() {')
        self.ss(main, 1)
        o.append('}')
        return '\n'.join(o) + '\n'


# ---------------------------------------------------------------------------------------------- meaning
class Closure:
    def __init__(self, e, env):
        self.e, self.env = e, env


class Scope:
    def __init__(self, up=None):
        self.up, self.v = up, {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.v:
                return s.v
            s = s.up
        raise KeyError(n)

    def flat(self):
        d = self.up.flat() if self.up else {}
        d.update(self.v)
        return d


class Run:
    def __init__(self, g, limit=40000, outmax=20000):
        self.g, self.steps, self.limit, self.outmax = g, 0, limit, outmax
        self.out = []
        self.size = 0
        self.fns = {f[0]: f for f in g.fns}

    def put(self, s):
        self.out.append(s)
        self.size += len(s)
        if self.size > self.outmax:
            raise Stop()

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Stop()

    def e(self, e, sc):
        self.tick()
        k = e[0]
        if k in ('int', 'bool', 'str'):
            return e[1]
        if k == 'var':
            return sc.find(e[1])[e[1]]
        if k == 'bin':
            a = self.e(e[2], sc)
            b = self.e(e[3], sc)
            o = e[1]
            if o == 'and':
                return a and b
            if o == 'or':
                return a or b
            return INT[o](a, b) if o in INT else CMP[o](a, b)
        if k == 'tern':
            return self.e(e[2] if self.e(e[1], sc) else e[3], sc)
        if k == 'neg':
            return w63(-self.e(e[1], sc))
        if k == 'bnot':
            return ~self.e(e[1], sc)
        if k == 'not':
            return not self.e(e[1], sc)
        if k in ('tr', 'trb'):
            v = self.e(e[2], sc)
            self.put(e[1] + ';')
            return v
        if k == 'call':
            return self.call(e[1], [self.e(a, sc) for a in e[2]])
        if k == 'gen':
            a = [self.e(x, sc) for x in e[2]]
            return {'same': lambda: a[0], 'pick': lambda: a[1] if a[0] else a[2], 'third': lambda: a[2]}[e[1]]()
        if k == 'callv':
            f = self.e(e[1], sc)
            return self.clo(f, [self.e(a, sc) for a in e[2]])
        if k == 'index':
            a = self.e(e[1], sc)
            i = self.e(e[2], sc)
            return a[i % len(a)]
        if k == 'dot':
            return self.e(e[1], sc)[e[2]]
        if k == 'len':
            return len(self.e(e[1], sc))
        if k == 'arr':
            return [self.e(a, sc) for a in e[2]]
        if k == 'new':
            vs = [self.e(a, sc) for a in e[2]]
            return dict(zip([f for f, _ in self.g.structs[e[1]]], vs))
        if k == 'case':
            return (e[2], [self.e(a, sc) for a in e[3]])
        if k in ('fexpr', 'fblock'):
            return Closure(e, sc.flat())
        raise Exception(k)

    def call(self, n, args):
        f = self.fns[n]
        sc = Scope()
        for p, a in zip(f[1], args):
            sc.v[p.name] = a
        if f[3][0] == 'e':
            return self.e(f[3][1], sc)
        try:
            self.ss(f[3][1], sc)
        except Ret as r:
            return r.v
        return None

    def clo(self, c, args):
        # captured variables live in the closure: a write stays with it
        cap = Scope()
        cap.v = c.env
        sc = Scope(cap)
        for p, a in zip(c.e[1], args):
            sc.v[p.name] = a
        if c.e[0] == 'fexpr':
            return self.e(c.e[3], sc)
        try:
            self.ss(c.e[3], Scope(sc) if False else sc)
        except Ret as r:
            return r.v

    def ss(self, ss, sc):
        for s in ss:
            self.tick()
            k = s[0]
            if k == 'das':
                sc.v[s[1]] = self.e(s[2], sc)
            elif k == 'as':
                v = self.e(s[2], sc)
                t = s[1]
                if t[0] == 'var':
                    sc.find(t[1])[t[1]] = v
                elif t[0] == 'dot':
                    self.e(t[1], sc)[t[2]] = v
                else:
                    a = self.e(t[1], sc)
                    i = self.e(t[2], sc)
                    a[i % len(a)] = v
            elif k == 'print':
                v = self.e(s[2], sc)
                self.put(('true' if v else 'false') + '\n' if isinstance(v, bool) else '%s\n' % v)
            elif k == 'do':
                self.e(s[1], sc)
            elif k == 'return':
                raise Ret(None if s[1] is None else self.e(s[1], sc))
            elif k == 'if':
                for c, b in s[1]:
                    if self.e(c, sc):
                        self.ss(b, Scope(sc))
                        break
                else:
                    if s[2] is not None:
                        self.ss(s[2], Scope(sc))
            elif k == 'forr':
                a = self.e(s[2], sc)
                if s[3] == ('int', 0):
                    rng = range(a - 1, -1, -1)
                else:
                    rng = range(a, self.e(s[3], sc))
                for i in rng:
                    x = Scope(sc)
                    x.v[s[1]] = i
                    self.ss(s[4], x)
            elif k == 'fora':
                a = self.e(s[3], sc)
                for i in range(len(a)):
                    x = Scope(sc)
                    x.v[s[1]] = a[i]
                    self.ss(s[4], x)
            elif k == 'while':
                sc.v[s[1]] = 0
                while True:
                    a = sc.v[s[1]] < s[2]
                    b = self.e(s[3], sc)
                    if not (a and b):
                        break
                    sc.v[s[1]] += 1
                    self.ss(s[4], Scope(sc))
            elif k == 'match':
                c, vs = self.e(s[2], sc)
                for cn, names, b in s[3]:
                    if cn == c:
                        x = Scope(sc)
                        x.v.update(zip(names, vs))
                        self.ss(b, x)
            else:
                raise Exception(k)


def program(seed, feats=ALL):
    """(text, expected output lines) or None"""
    g = Gen(seed, feats)
    main = g.program()
    t = Emit(g).text(main)
    if len(t) > 30000:
        return None
    R = Run(g)
    try:
        R.ss(main, Scope())
    except (Stop, RecursionError):
        return None
    except Ret:
        pass
    out = ''.join(R.out).split('\n')
    while out and out[-1] == '':
        out.pop()
    return t, out


def cases(n, seed, tag='random', feats=ALL, expect='run'):
    out, s = [], seed * 1000003
    while len(out) < n:
        s += 1
        p = program(s, feats)
        if p is None:
            continue
        out.append({'name': '%s-%d' % (tag, s), 'src': p[0], 'out': p[1], 'expect': expect, 'rc': 0, 'env': {}})
    return out


if __name__ == '__main__':
    t, o = program(int(sys.argv[1]))
    print(t)
    print('\n'.join(o))
