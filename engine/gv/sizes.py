"""Generated programs with the expected output computed here: every shape of operand, every place a variable is used from,
and sizes well past the usual (many cases, branches, locals, long literals, deep nesting)."""
import random
from props.gen import INT, CMP, case, b, w63


def prog(name, parts, out, head=''):
    """parts: lines of statements; several functions so that each frame stays small"""
    src, calls = [head], []
    for i, p in enumerate(parts):
        src.append('fn part%d() {\n%s\n}' % (i, '\n'.join('  ' + x for x in p)))
        calls.append('  part%d()' % i)
    src.append('fn main() {\n%s\n}' % '\n'.join(calls))
    return case(name, '\n'.join(src) + '\n', out)


# ------------------------------------------------------------------------------------------------ operators
SHAPEHEAD = '''struct sv { f0: bool v: int t: string w: int }
enum en { Ea(x: int, y: int) Eb() }
fn id(x: int) int = x
fn six(a: int, b: int, c: int, d: int, e: int, f: int) int = f
fn bump(a: []int, by: int) int { a[0] = a[0] + by return by }
fn tb(x: bool) bool = x
'''


def shapes_of(v, n):
    """texts which denote v, with the statements they need"""
    lit = str(v) if v >= 0 else '(%d)' % v
    yield lit, []
    yield '(-%s)' % (str(-v) if -v >= 0 else '(%d)' % -v), []
    yield '(~%s)' % (str(~v) if ~v >= 0 else '(%d)' % ~v), []
    yield 'v%s' % n, ['v%s := %d' % (n, v)]
    yield '(-m%s)' % n, ['m%s := %d' % (n, -v)]
    yield '(~w%s)' % n, ['w%s := %d' % (n, ~v)]
    yield 'id(%d)' % v, []
    yield 'six(1, 2, 3, 4, 5, %s)' % lit, []
    yield 'a%s[1]' % n, ['a%s := [3, %d, 9]' % (n, v)]
    yield 's%s.v' % n, ['s%s := Sv(true, %d, "t", 2)' % (n, v)]
    yield 's%s.w' % n, ['s%s := Sv(true, 2, "t", %d)' % (n, v)]
    yield '(tb(true) ? %s : 77)' % lit, []
    yield '(v%s < 0 ? 77 : %s)' % (n, lit), ['v%s := 3' % n]
    yield '(%d + 5)' % (v - 5), []
    yield '(v%s * 1)' % n, ['v%s := %d' % (n, v)]
    yield '(%d - v%s)' % (v + 8, n), ['v%s := 8' % n]
    yield 'f%s(%d)' % (n, v - 1), ['f%s := fn(x: int) int = x + 1' % n]
    yield 'c%s()' % n, ['q%s := %d' % (n, v), 'c%s := fn() int = q%s' % (n, n)]


def shapes(seed=0):
    out = []
    for op, f in list(INT.items()) + list(CMP.items()):
        parts, exp = [], []
        for k, (x, y) in enumerate(((13, 5), (-7, 2), (6, -4)) if op not in ('<<', '>>') else ((13, 5), (-7, 2), (0, 3))):
            for ls, ld in shapes_of(x, 'l'):
                for rs, rd in shapes_of(y, 'r'):
                    if k and (hash_(ls + rs + op) % 4):
                        continue
                    r = f(x, y)
                    parts.append(ld + rd + ['println(%s %s %s)' % (ls, op, rs)])
                    exp.append(str(r) if op in INT else b(r))
        # twelve per function
        out.append(prog('shape-%s' % {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq'}[op],
                        parts, exp, SHAPEHEAD))
    # booleans
    parts, exp = [], []
    bs = lambda v, n: [(b(v), []), ('(not %s)' % b(not v), []), ('v' + n, ['v%s := %s' % (n, b(v))]), ('(not w%s)' % n, ['w%s := %s' % (n, b(not v))]), ('tb(%s)' % b(v), []),
                       ('(1 < %d)' % (2 if v else 1), []), ('(v%s == 4)' % n, ['v%s := %d' % (n, 4 if v else 5)]), ('a%s[0]' % n, ['a%s := [%s]' % (n, b(v))]),
                       ('s%s.f0' % n, ['s%s := Sv(%s, 1, "", 1)' % (n, b(v))]), ('(tb(true) ? %s : %s)' % (b(v), b(not v)), []), ('(true and %s)' % b(v), []), ('(false or %s)' % b(v), [])]
    for op, f in (('and', lambda x, y: x and y), ('or', lambda x, y: x or y)):
        for x in (True, False):
            for y in (True, False):
                for ls, ld in bs(x, 'l'):
                    for rs, rd in bs(y, 'r'):
                        parts.append(ld + rd + ['println(%s %s %s)' % (ls, op, rs)])
                        exp.append(b(f(x, y)))
    for x in (True, False):
        for ls, ld in bs(x, 'l'):
            parts.append(ld + ['println(not %s)' % ls]); exp.append(b(not x))
    out.append(prog('shape-bool', parts, exp, SHAPEHEAD))
    # the left operand is evaluated, to its value, before the right one changes anything
    parts, exp = [], []
    for op, f in list(INT.items()) + list(CMP.items()):
        sh = op in ('<<', '>>')
        by = 2
        for lhs, pre, lv in (('a[0]', [], 11), ('s.a[0]', ['s := Hold(a, 1)'], 11), ('(-a[0])', [], -11), ('(a[0] + 1)', [], 12), ('id(a[0])', [], 11), ('(a[0] * 2)', [], 22), ('a[a[1]]', [], 11),
                             ('(tb(true) ? a[0] : 5)', [], 11)):
            r = f(lv, by)
            parts.append(['a := [11, 0, 3]'] + pre + ['println(%s %s bump(a, %d))' % (lhs, op, by), 'println(a[0])'])
            exp += [str(r) if op in INT else b(r), '13']
            if not sh:
                r = f(by, lv + (2 if lhs not in ('(-a[0])', '(a[0] * 2)') else {'(-a[0])': -2, '(a[0] * 2)': 4}[lhs]))
                parts.append(['a := [11, 0, 3]'] + pre + ['println(bump(a, %d) %s %s)' % (by, op, lhs)])
                exp.append(str(r) if op in INT else b(r))
    out.append(prog('shape-order', parts, exp, SHAPEHEAD + 'struct hold { a: []int n: int }\n'))
    return out


def hash_(s):
    h = 7
    for ch in s:
        h = (h * 131 + ord(ch)) & 0xffffffff
    return h >> 7


# ------------------------------------------------------------------------------------------------ captured variables
CLOHEAD = '''struct bx { n: int s: string g: fn(int) int }
enum en { Ea(x: int, y: string) Eb(z: int) Ec() }
fn id(x: int) int = x
fn two(a: int, b: int) int = a * 10 + b
fn app(f: fn(int) int, x: int) int = f(x)
fn mk(k: int) en = k == 0 ? Ea(4, "e") : k == 1 ? Eb(5) : Ec()
'''
# (body of a function of no parameters using n = 3 or arr = [5, 6, 7] or s = "str" or box or en from outside, its value)
PLACES = [
    ('return n', 3), ('return -n', -3), ('return ~n', -4), ('return n + 1', 4), ('return 1 + n', 4), ('return (1 + (2 * (n - 1)))', 5), ('return id(n)', 3), ('return two(n, 1)', 31), ('return two(1, n)', 13),
    ('return two(id(1), id(n))', 13), ('return n < 5 ? 1 : 2', 1), ('return true ? n : 2', 3), ('return false ? 2 : n', 3), ('return arr[0]', 5), ('return arr[n - 1]', 7), ('return [9, n, 8][1]', 3),
    ('return [n, 9][0]', 3), ('return [9, 8, n][2]', 3), ('return arr.length', 3), ('return s.length', 3), ('return box.n', 42), ('return box.s.length', 2), ('return box.g(1)', 101), ('return app(g, n)', 4),
    ('return g(g(n))', 5), ('return app(fn(x: int) int = x * n, 4)', 12), ('return app(fn(x: int) int = app(fn(y: int) int = x * 100 + y * 10 + n, 2), 4)', 423),
    ('if n == 3 { return 1 } return 2', 1), ('if n == 4 { return 1 } return 2', 2), ('if n == 4 { return 1 } elseif n == 3 { return 2 } return 3', 2), ('if n == 4 { return 1 } elseif n == 5 { return 2 } else { return n } return 0', 3),
    ('if false { return 1 } else { return n } return 0', 3), ('if false { return 1 } elseif true { return n } else { return 2 } return 0', 3), ('if true { return n } return 0', 3),
    ('if false { } elseif false { } elseif n == 3 { return n + 1 } else { } return 0', 4),
    ('x := n return x', 3), ('x := 1 x = n return x', 3), ('x := 1 x = x + n return x', 4), ('x := [1, 2] x[0] = n return x[0]', 3), ('x := [1, 2, 3, 4, 5] x[n] = 9 return x[3]', 9), ('n = 8 return n', 8), ('n = n + 1 n = n * 2 return n', 8),
    ('arr[1] = 40 return arr[1] + arr[0]', 45), ('box.n = n return box.n', 3), ('x := Bx(n, "z", g) return x.n', 3),
    ('i := 0 while i < n { i = i + 1 } return i', 3), ('i := 0 while i < 9 { i = i + n } return i', 9), ('t := 0 for i in 0 .. n { t = t + i } return t', 3), ('t := 0 for i in n .. 6 { t = t + i } return t', 12),
    ('t := 0 for i in 0 .. 4 { t = t + n } return t', 12), ('t := 0 for v in arr { t = t + v } return t', 18), ('t := 0 for v in [1, n] { t = t + v } return t', 4), ('t := 0 for v in arr { for w in arr { t = t + n } } return t', 27),
    ('match e { case Ea(x, y): return x + n case Eb(z): return 0 case Ec(): return 1 } return 9', 7), ('match mk(n - 2) { case Ea(x, y): return 0 case Eb(z): return z + n case Ec(): return 1 } return 9', 8),
    ('match mk(2) { case Ea(x, y): return 0 case Eb(z): return 1 case Ec(): return n } return 9', 3), ('match e { case Ea(x, y): if x == 4 { return n } case Eb(z): case Ec(): } return 9', 3),
    ('match Ea(n, s) { case Ea(x, y): return x + y.length case Eb(z): case Ec(): } return 9', 6),
    ('f := fn() int = n return f()', 3), ('f := fn() int { g2 := fn() int = n return g2() } return f()', 3), ('f := fn(n: int) int = n return f(6)', 6), ('x := fn(a: int) int = a + n return x(1) + x(2)', 9),
    ('n2 := fn() int = arr[n - 3] return n2()', 5), ('b := n == 3 and s.length == 3 return b ? 1 : 0', 1), ('return not (n == 3) ? 1 : 2', 2), ('println(n) return 1', [3, 1]), ('println(s) return 1', ['str', 1]), ('println(s.append(s).append(n.toString())) return 1', ['strstr3', 1]),
    ('printf("%lli %lli\\n", n, arr[2]) return 1', ['3 7', 1]), ('return n & 1 | n << 2', 13), ('return n >> 1 ^ n', 2), ('id(n) return n', 3), ('return ((((((((((((n))))))))))))', 3),
    ('return 1 + (1 + (1 + (1 + (1 + (1 + (1 + (1 + (1 + (1 + (1 + (1 + n)))))))))))', 15), ('return id(id(id(id(id(id(id(id(id(id(id(id(arr[n - 1]))))))))))))', 7),
    ('if true { if true { if true { if true { if true { if true { if true { if true { return n } } } } } } } } return 0', 3),
    ('while true { for q in 0 .. 2 { if q == 1 { match e { case Ea(x, y): while true { for r in 0 .. 1 { return box.n + arr[0] + x } } case Eb(z): case Ec(): } } } } return 0', 51),
]


def captured():
    """every construct around a captured variable, in both kinds of function literal and one level further in"""
    out = []
    for kind in ('closure', 'nested', 'passed', 'returned'):
        parts, exp = [], []
        for i, (body, v) in enumerate(PLACES):
            pre = ['n := 3', 'arr := [5, 6, 7]', 's := "str"', 'g := fn(x: int) int = x + 1', 'box := Bx(42, "bs", fn(x: int) int = x + 100)', 'e := mk(0)']
            used = pre
            if kind == 'closure':
                lines = used + ['f := fn() int { %s }' % body, 'n = 50', 's = "gone"', 'println(f())']
            elif kind == 'nested':
                lines = used + ['f := fn() int { h := fn() int { %s } return h() }' % body, 'n = 50', 'println(f())']
            elif kind == 'passed':
                lines = used + ['println(run(fn() int { %s }))' % body]
            else:
                lines = used + ['f := keep(fn() int { %s })' % body, 'n = 50', 'println(f())']
            parts.append(lines)
            exp += [str(x) for x in (v if isinstance(v, list) else [v])]
        out.append(prog('captured-%s' % kind, parts, exp, CLOHEAD + 'fn run(f: fn() int) int = f()\nfn keep(f: fn() int) fn() int { x := "junk".append("more") return f }\n'))
    # as many as there may be, each in its own slot, of each type
    import itertools
    parts, exp = [], []
    vals = [('int', '%d', lambda i: (str(i * 7 + 1), str(i * 7 + 1))), ('string', '"s%d"', lambda i: ('"s%d".append("!")' % i, 's%d!' % i)), ('bool', '', lambda i: ('true' if i % 2 else 'false', 'true' if i % 2 else 'false')),
            ('fn', '', None)]
    for k in range(1, 7):
        for rot in range(3):
            pre, body, ex = [], [], []
            for i in range(k):
                t = vals[(i + rot) % 3]
                e, o = t[2](i)
                pre.append('v%d := %s' % (i, e))
                body.append('println(v%d)' % i)
                ex.append(o)
            parts.append(pre + ['f := fn(p: int) int { %s return p }' % ' '.join(body)] + ['v%d = %s' % (i, {'int': '0', 'string': '"x"', 'bool': 'false'}[vals[(i + rot) % 3][0]]) for i in range(k)] + ['println(f(%d))' % k])
            exp += ex + [str(k)]
    out.append(prog('captured-slots', parts, exp, CLOHEAD))
    return out


# ------------------------------------------------------------------------------------------------ bounds
def bounds():
    """every index shape and element type, inside and just outside"""
    out = []
    head = '''struct st { a: []int n: int }
fn id(x: int) int = x
fn zero() []int = intArray(0)
fn same(a: []int) []int = a
'''
    idx = lambda v: ['%d' % v if v >= 0 else '(%d)' % v, 'id(%d)' % v, 'i', '(i + 0)', '(%d - 3)' % (v + 3), '(-j)', '(true ? i : 0)', 'k[1]', 'p.n']
    arrs = [('[10, 11, 12]', 3), ('intArray(0)', 0), ('[10]', 1), ('intArray(2)', 2)]
    good, gexp, n = [], [], 0
    for ae, ln in arrs:
        for v in range(ln):
            for ix in idx(v):
                for ref in ('a', 'same(a)', 'q.a'):
                    pre = ['a := %s' % ae, 'i := %d' % v, 'j := %d' % -v, 'k := [0, %d]' % v, 'p := St(a, %d)' % v, 'q := St(a, 1)']
                    val = 10 + v if ae.startswith('[') else 0
                    good.append(pre + ['println(%s[%s])' % (ref, ix), '%s[%s] = 5' % (ref, ix), 'println(a[%d])' % v, 'println(a.length)'])
                    gexp += [str(val), '5', str(ln)]
    out.append(prog('bounds-inside', good, gexp, head))
    for ae, ln in arrs:
        for v in (ln, -1, ln + 1, 2**61, -2**61):
            for n, ix in enumerate(idx(v)):
                for m, ref in enumerate(('a', 'same(a)', 'q.a')):
                    # one of them per combination, rotated
                    if (n + m + v + ln) % 3:
                        continue
                    for what in ('get', 'set'):
                        pre = ['a := %s' % ae, 'i := %d' % v, 'j := %d' % -v, 'k := [0, %d]' % v, 'p := St(a, %d)' % v, 'q := St(a, 1)', 'println("go")']
                        st = 'println(%s[%s])' % (ref, ix) if what == 'get' else '%s[%s] = 5' % (ref, ix)
                        out.append(dict(case('bounds-%s-%d-%d-%d-%d' % (what, ln, v, n, m), head + 'fn main() {\n%s\n  %s\n  println("on")\n}\n' % ('\n'.join('  ' + x for x in pre), st), ['go']), rc=1, panic='index out of bounds! index = %d, array.length = %d' % (v, ln)))
    return out


# ------------------------------------------------------------------------------------------------ large programs
TY = [('int', lambda i: ('%d' % (i * 3 - 7), '%d' % (i * 3 - 7))), ('string', lambda i: ('"s".append("%d")' % i, 's%d' % i)), ('bool', lambda i: (b(i % 3 == 0), b(i % 3 == 0)))]
CHURN = '''fn churn(n: int) int {
  x := 0
  while x < n {
    "junk".append(x.toString())
    x = x + 1
  }
  return n
}
'''


def enums():
    """enums of many cases, matched in every order"""
    out = []
    for n in (1, 2, 9, 17, 40, 130):
        r = random.Random(n)
        cs = []
        for i in range(n):
            k = (i * 7 + n) % 6
            cs.append([TY[(i + j) % 3] for j in range(k)])
        dcl = 'enum big {\n%s\n}' % '\n'.join('  Case%d(%s)' % (i, ', '.join('p%d: %s' % (j, t[0]) for j, t in enumerate(c))) for i, c in enumerate(cs))
        order = list(range(n))
        r.shuffle(order)

        def matcher(name, order):
            return 'fn %s(e: big) {\n  match e {\n%s\n  }\n}' % (name, '\n'.join('    case Case%d(%s):\n      println(%d)%s' % (i, ', '.join('q%d' % j for j in range(len(cs[i]))), i,
                                                                 ''.join('\n      println(q%d)' % j for j in range(len(cs[i])))) for i in order))
        parts, exp = [], []
        for i in range(n):
            args = [t[1](i * 5 + j) for j, t in enumerate(cs[i])]
            parts.append(['x := Case%d(%s)' % (i, ', '.join(a for a, _ in args)), 'churn(3)', 'm1(x)', 'm2(x)'])
            exp += ([str(i)] + [o for _, o in args]) * 2
        out.append(prog('enum-%d-cases' % n, parts, exp, '\n'.join([dcl, CHURN, matcher('m1', range(n)), matcher('m2', order)])))
    return out


def structs():
    """structs of every width with every type in every position; fields are set one at a time"""
    parts, exp, head = [], [], [CHURN]
    for w in range(1, 7):
        for rot in range(3):
            ts = [TY[(i * (2 if w % 2 else 1) + rot) % 3] for i in range(w)]
            nm = 'st%d%s' % (w, 'abc'[rot])
            head.append('struct %s { %s }' % (nm, ' '.join('f%d: %s' % (i, t[0]) for i, t in enumerate(ts))))
            C = nm[0].upper() + nm[1:]
            vals = [t[1](i + w) for i, t in enumerate(ts)]
            L = ['x := %s(%s)' % (C, ', '.join(v for v, _ in vals)), 'y := %s(%s)' % (C, ', '.join(v for v, _ in vals)), 'churn(3)']
            cur = [o for _, o in vals]
            show = ['println(x.f%d)' % i for i in range(w)]
            L += show
            exp += cur
            for i, t in enumerate(ts):
                e, o = t[1](i + w + 20)
                L.append('x.f%d = %s' % (i, e))
                cur[i] = o
                if i % 2 or i == w - 1:
                    L += show
                    exp += cur
            L += ['println(y.f%d)' % i for i in range(w)]
            exp += [o for _, o in vals]
            parts.append(L)
    return [prog('struct-fields', parts, exp, '\n'.join(head))]


def flows():
    """long chains, deep nesting, many iterations"""
    out, parts, exp, head = [], [], [], ['fn say(x: int) int { printf("%lli ", x) return x }']
    for n in (1, 2, 5, 30):
        for els in (False, True):
            nm = 'chain%d%s' % (n, 'e' if els else 'x')
            head.append('fn %s(x: int) int {\n  if say(x) == 0 {\n    return 100\n  }%s%s\n  return -1\n}' % (nm, ''.join(' elseif say(x) == %d {\n    return %d\n  }' % (i, 100 + i) for i in range(1, n)), ' else {\n    return 7\n  }' if els else ''))
            head.append('fn s%s(x: int) int {\n  r := 0\n  if x == 0 {\n    r = r + 1\n  }%s%s\n  return r\n}' % (nm, ''.join(' elseif x < %d {\n    r = r + %d\n  }' % (i + 1, 1 + i) for i in range(1, n)), ' else {\n    r = r + 1000\n  }' if els else ''))
            for x in sorted({0, 1, n // 2, n - 2, n - 1, n, n + 5}):
                if x < 0:
                    continue
                parts.append(['println(%s(%d))' % (nm, x), 'println(s%s(%d))' % (nm, x)])
                exp.append('%d ' % x * (min(x, n - 1) + 1) + str(100 + x if x < n else 7 if els else -1))
                exp.append(str(x + 1 if x < n else 1000 if els else 0))
    # nesting
    d = 25
    for d in (3, 12, 25):
        L = 'r = r + 1'
        for i in range(d):
            L = ['if r < %d { %s }', 'while r < 1 { %s }', 'for i%d in 0 .. 1 { %%s }' % i, 'if false { } else { %s }', 'if false { } elseif true { %s }', 'for i%d in [1] { %%s }' % i][i % 6].replace('%d', '1000') % L
        parts.append(['r := 0', L, 'println(r)'])
        exp.append('1')
    # loops
    for n in (0, 1, 2, 63, 1000):
        parts.append(['t := 0', 'for i in 0 .. %d { t = t + i }' % n, 'println(t)', 'c := 0', 'while c < %d { c = c + 1 }' % n, 'println(c)', 'a := intArray(%d)' % n, 'for i in 0 .. %d { a[i] = i * 2 }' % n, 'u := 0', 'for v in a { u = u + v }', 'println(u)',
                      'x := 0', 'for i in %d .. 0 { x = x * 3 + i & 65535 }' % n, 'println(x)'])
        x = 0
        for i in range(n - 1, -1, -1):
            x = (x * 3 + i) & 65535
        exp += [str(sum(range(n))), str(n), str(n * (n - 1)), str(x)]
    # a long block
    parts.append(['x := 1'] + ['x = x * 3 + %d & 1048575' % i for i in range(400)] + ['println(x)'])
    x = 1
    for i in range(400):
        x = (x * 3 + i) & 1048575
    exp.append(str(x))
    out.append(prog('flow-sizes', parts, exp, '\n'.join(head)))
    return out


def roots():
    """many live pointers in one frame, across calls that allocate; blocks whose variables come and go"""
    out = []
    for n in (8, 20, 45):
        L, exp = [], []
        for i in range(n):
            L.append('v%d := %s' % (i, ['"a".append("%d")' % i, 'Bx("b".append("%d"), %d)' % (i, i), '["c".append("%d")]' % i, '%d' % i][i % 4]))
        L.append('churn(400)')
        for i in range(n):
            L.append('println(%s)' % ['v%d', 'v%d.s', 'v%d[0]', 'v%d'][i % 4].replace('%d', str(i)))
            exp.append(['a%d', 'b%d', 'c%d', '%d'][i % 4] % i)
        L.append('if churn(5) == 5 {')
        for i in range(n):
            L.append('  w%d := %s' % (i, ['"x".append(v%d)' % (i - i % 4), '%d' % i][i % 2]))
        L.append('  churn(400)')
        for i in range(n):
            L.append('  println(w%d)' % i)
            exp.append(['xa%d' % (i - i % 4), '%d' % i][i % 2])
        L += ['}', 'churn(400)']
        for i in range(n - 1, -1, -1):
            L.append('println(%s)' % ['v%d', 'v%d.s', 'v%d[0]', 'v%d'][i % 4].replace('%d', str(i)))
            exp.append(['a%d', 'b%d', 'c%d', '%d'][i % 4] % i)
        out.append(prog('roots-%d' % n, [L, L], exp * 2, CHURN + 'struct bx { s: string n: int }\n'))
    # every argument position, with allocation in every other one
    parts, exp, head = [], [], [CHURN, 'fn mk(s: string) string = s.append("!")']
    for n in range(1, 7):
        for m in range(64):
            if m >> n or bin(m).count('1') > 3 and n > 4:
                continue
            ts = ['string' if m >> i & 1 else 'int' for i in range(n)]
            nm = 'f%d_%d' % (n, m)
            head.append('fn f%dx%d(%s) {\n  churn(2)\n%s\n}' % (n, m, ', '.join('p%d: %s' % (i, t) for i, t in enumerate(ts)), '\n'.join('  println(p%d)' % i for i in range(n))))
            parts.append(['f%dx%d(%s)' % (n, m, ', '.join('mk("%d")' % i if t == 'string' else 'churn(%d)' % (i + 1) for i, t in enumerate(ts)))])
            exp += ['%d!' % i if t == 'string' else '%d' % (i + 1) for i, t in enumerate(ts)]
    out.append(prog('roots-arguments', parts, exp, '\n'.join(head)))
    return out


def literals():
    """long literals, literals sharing beginnings and ends, many of them, escapes"""
    parts, exp = [], []
    texts = []
    for n in (0, 1, 7, 8, 9, 63, 64, 65, 199, 201, 255, 256, 257, 1000, 4000):
        for t in ('a' * n, 'a' * n + 'b', 'a' * n + 'c', 'b' + 'a' * n, 'a' * (n // 2) + 'x' + 'a' * (n - n // 2), 'A' * n):
            texts.append(t)
    texts += ['t%d' % i for i in range(300)] + ['%d' % i for i in range(50)]
    for t in texts:
        parts.append(['println("%s")' % t, 'println("%s".length)' % t])
        exp += [t, str(len(t))]
    esc = [('\\n', '|'), ('q\\"q', 'q"q'), ('\\\\', '\\'), ('é·ü', 'é·ü'), ('%d%%s', '%d%%s'), ('//x', '//x'), ('\\\\n', '\\n'), ('$42(%rax)', '$42(%rax)'), ("'", "'")]
    for a, o in esc:
        if o == '|':
            continue
        parts.append(['println("%s")' % a, 'println("x%sx")' % a, 'println("%s".length)' % a])
        exp += [o, 'x' + o + 'x', str(len(o.encode()))]
    return [prog('string-literals', parts, exp)]


def arrays():
    parts, exp = [], []
    for n in (1, 2, 7, 16, 33, 100):
        parts.append(['a := [%s]' % ', '.join(str(i * i - 3) for i in range(n)), 'println(a.length)'] + ['println(a[%d])' % i for i in sorted({0, n // 2, n - 2 if n > 1 else 0, n - 1})])
        exp += [str(n)] + [str(i * i - 3) for i in sorted({0, n // 2, n - 2 if n > 1 else 0, n - 1})]
        parts.append(['a := [%s]' % ', '.join('"s".append("%d")' % i for i in range(n)), 'churn(50)', 'for s in a { println(s) }'])
        exp += ['s%d' % i for i in range(n)]
    return [prog('array-literals', parts, exp, CHURN)]


def many():
    """many functions, types and instances of generic functions in one program"""
    n = 80
    head, parts, exp = [CHURN], [], []
    for i in range(n):
        head.append('struct rec%d { s: string n: int }' % i)
        head.append('fn fun%d(a: int, b: string) int = a * %d + b.length' % (i, i))
        head.append('fn get%d(r: rec%d) string = r.s.append(r.n.toString())' % (i, i))
        head.append('fn over(r: rec%d) int = %d' % (i, i + 1000))
        parts.append(['println(fun%d(%d, "xyz"))' % (i, i), 'r := Rec%d("r", %d)' % (i, i), 'churn(2)', 'println(get%d(r))' % i, 'println(over(r))', 'println(same(r).s)', 'o := Some(r)', 'match o { case Some(v): println(v.n) case None(): println(-1) }'])
        exp += [str(i * i + 3), 'r%d' % i, str(i + 1000), 'r', str(i)]
    head.append('fn same«T»(x: T) T = x')
    return [prog('many-declarations', parts, exp, '\n'.join(head))]
