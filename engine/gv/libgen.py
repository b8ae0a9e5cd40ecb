"""Driver programs for the library (C16-C20), with the output they must print computed here."""
import random

MAX, MIN = (1 << 62) - 1, -(1 << 62)
PIECES = ['a', 'b', 'ab', 'aab', 'x', 'é', 'ß', '·', '0', '=', '\\n', '\\"', '\\\\', ' ', 'zz', '€', '~']


def text(r, n=None, alphabet=None):
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 33]) if n is None else n
    a = alphabet or r.choice([PIECES, ['a', 'b'], ['a'], ['a', 'b', 'ab'], ['é', 'a']])
    return ''.join(r.choice(a) for _ in range(n))


def raw(lit):
    """the bytes a literal denotes"""
    o, i = [], 0
    while i < len(lit):
        if lit[i] == '\\':
            o.append({'n': '\n', 'r': '\r', '"': '"', '\\': '\\'}[lit[i + 1]])
            i += 2
        else:
            o.append(lit[i])
            i += 1
    return ''.join(o).encode('utf-8')


def sb(b):
    return b - 256 if b > 127 else b


def num(v):
    if v == MIN:
        return '(-%d - 1)' % MAX
    return str(v) if v >= 0 else '(%d)' % v


class Prog:
    def __init__(self, name, head=''):
        self.name, self.head, self.body, self.out, self.n = name, head, [], [], 0

    def s(self, line):
        self.body.append('  ' + line)

    def p(self, expr, val):
        """print an int, bool or string expression whose value must be val"""
        if isinstance(val, bytes):
            self.body.append('  dump(%s)' % expr)
            self.out.append('%d' % len(val) + ''.join(' %d' % sb(x) for x in val))
        else:
            self.body.append('  println(%s)' % expr)
            self.out.append(str(val).lower() if isinstance(val, bool) else str(val))

    def var(self, expr, pre='v'):
        self.n += 1
        self.s('%s%d := %s' % (pre, self.n, expr))
        return '%s%d' % (pre, self.n)

    def case(self, **kw):
        # several functions: a body of many statements is split so that each frame stays small
        src = self.head + '''
fn dump(s: string) {
  printf("%lli", s.length)
  for i in 0 .. s.length { printf(" %lli", s.byte(i)) }
  printf("\\n")
}
''' + 'fn main() {\n' + '\n'.join(self.body) + '\n}\n'
        return dict({'name': self.name, 'src': src, 'out': self.out, 'expect': 'run', 'rc': 0, 'env': {}, 'raw': False}, **kw)


def strings(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s-%d-%d' % ('str', seed, k))
        g = Prog('gen-strings-%d-%d' % (seed, k), 'fn view(b: bytes) string = b.toString()\n')
        kind = k % 4
        if kind == 0:
            vs = []
            for _ in range(6):
                t = text(r)
                vs.append((g.var('"%s"' % t), raw(t)))
            for _ in range(40):
                (a, x), (b, y) = r.choice(vs), r.choice(vs)
                q = r.randrange(8)
                if q == 0:
                    g.p('%s.length' % a, len(x))
                elif q == 1 and x:
                    i = r.randrange(len(x))
                    g.p('%s.byte(%d)' % (a, i), sb(x[i]))
                elif q == 2:
                    g.p('%s.Equals(%s)' % (a, b), x == y)
                elif q == 3 and len(vs) < 20 and len(x) + len(y) < 120:
                    vs.append((g.var('%s.append(%s)' % (a, b)), x + y))
                    g.p(*vs[-1])
                elif q == 4:
                    i = r.randint(0, len(x))
                    j = r.randint(i, len(x))
                    v = g.var('%s.Substring(%d, %d)' % (a, i, j))
                    vs.append((v, x[i:j]))
                    g.p(v, x[i:j])
                elif q == 5:
                    g.p('%s.IndexOf(%s)' % (a, b), x.find(y) if y else 0)
                elif q == 6:
                    f = r.randint(0, len(x) + 1)
                    g.p('%s.IndexOf(%s, %d)' % (a, b, f), (x.find(y, f) if y else 0))
                else:
                    g.p('%s.append("!").Equals(%s.append("!"))' % (a, b), x == y)
            for v, x in vs:
                g.p(v, x)
        elif kind == 1:
            # IndexOf over a two letter alphabet, exhaustively for a slice
            import itertools
            subs = [''.join(t) for m in range(0, 4) for t in itertools.product('ab', repeat=m)]
            s = ''.join(r.choice('ab') for _ in range(r.randint(0, 9)))
            a = g.var('"%s"' % s)
            for t in subs:
                g.p('%s.IndexOf("%s")' % (a, t), s.find(t) if t else 0)
                f = r.randint(0, len(s))
                g.p('%s.IndexOf("%s", %d)' % (a, t, f), s.find(t, f) if t else 0)
        elif kind == 2:
            cap = r.choice([0, 1, 2, 3, 7, 16])
            b = g.var('NewByteBuffer(%d)' % cap, 'buf')
            cur = b''
            kept = []
            for _ in range(30):
                q = r.randrange(9)
                if q < 3:
                    t = text(r)
                    g.s('%s.append("%s")' % (b, t))
                    cur += raw(t)
                elif q < 5:
                    v = r.randrange(-128, 128)
                    g.s('%s.append(%s)' % (b, num(v)))
                    cur += bytes([v & 255])
                elif q == 5:
                    g.p('size(%s)' % b, len(cur))
                elif q == 6:
                    v = g.var('%s.toString()' % b)
                    g.p(v, cur)
                    kept.append((v, cur))
                elif q == 7:
                    i = r.randint(0, len(cur))
                    j = r.randint(0, len(cur) - i)
                    v = g.var('%s.substring(%d, %d)' % (b, i, j))
                    g.p(v, cur[i:i + j])
                    kept.append((v, cur[i:i + j]))
                elif r.randrange(3) == 0:
                    g.s('%s.reset()' % b)
                    cur = b''
            for v, x in kept:
                g.p(v, x)
            g.p('%s.toString()' % b, cur)
        else:
            bs = []
            for _ in range(4):
                m = r.choice([0, 1, 2, 5, 8, 16, 23])
                bs.append([g.var('Bytes(%d)' % m, 'by'), bytearray(m)])
            for _ in range(45):
                x, y = r.choice(bs), r.choice(bs)
                q = r.randrange(8)
                if q < 3 and len(x[1]):
                    i, v = r.randrange(len(x[1])), r.randrange(-128, 128)
                    g.s('%s.set(%d, %s)' % (x[0], i, num(v)))
                    x[1][i] = v & 255
                elif q == 3 and len(x[1]):
                    i = r.randrange(len(x[1]))
                    g.p('%s.get(%d)' % (x[0], i), sb(x[1][i]))
                elif q == 4 and x is not y:
                    i, j = r.randint(0, len(x[1])), r.randint(0, len(y[1]))
                    g.s('copyArray(%s, %d, %s, %d)' % (x[0], i, y[0], j))
                    m = min(len(x[1]) - i, len(y[1]) - j)
                    y[1][j:j + m] = x[1][i:i + m]
                elif q == 5:
                    t = text(r)
                    z = raw(t)
                    i, j = r.randint(0, len(z)), r.randint(0, len(y[1]))
                    g.s('copyString("%s", %d, %s, %d)' % (t, i, y[0], j))
                    m = min(len(z) - i, len(y[1]) - j)
                    y[1][j:j + m] = z[i:i + m]
                elif q == 6:
                    i = r.randint(0, len(x[1]))
                    j = r.randint(0, len(x[1]) - i)
                    g.p('%s.toString(%d, %d)' % (x[0], i, j), bytes(x[1][i:i + j]))
                else:
                    g.p('%s.length()' % x[0], len(x[1]))
            for v, x in bs:
                g.p('%s.toString()' % v, bytes(x))
        out.append(g.case())
    out += long_strings(seed)
    return out + panics(seed)


LONG = '''
fn rep(n: int) string {
  b := Bytes(n)
  for i in 0 .. n { b.set(i, 97 + i.mod(23)) }
  return b.toString()
}
fn sum(s: string) int {
  h := 7
  for i in 0 .. s.length { h = (h * 31 + s.byte(i)) & 0xffffff }
  return h
}
'''
SIZES = [63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 9000]


def long_strings(seed):
    """long objects: every operation at and around the usual size limits"""
    def rep(n):
        return bytes(97 + i % 23 for i in range(n))

    def summ(b):
        h = 7
        for x in b:
            h = (h * 31 + sb(x)) & 0xffffff
        return h

    def fnv(b):
        h = 0x811c9dc5
        for x in b:
            h = ((h ^ x) * 0x01000193) & 0xffffffff
        return h
    out = []
    for k in range(0, len(SIZES), 3):
        g = Prog('long-strings-%d' % k, LONG)
        for n in SIZES[k:k + 3]:
            a = g.var('rep(%d)' % n)
            x = rep(n)
            g.p('%s.length' % a, n)
            g.p('sum(%s)' % a, summ(x))
            for d in (0, n // 2, n - 1):
                # a copy that differs at one place only
                b = g.var('rep(%d)' % n)
                g.s('%s.asBytes().set(%d, 35)' % (b, d))
                g.p('%s.Equals(%s)' % (a, b), False)
                g.p('sum(%s)' % b, summ(x[:d] + b'#' + x[d + 1:]))
                g.p('%s.IndexOf("#")' % b, d)
                g.p('%s.IndexOf("#", %d)' % (b, d), d)
                g.p('%s.IndexOf("#", %d)' % (b, d + 1), -1)
                g.p('fnv1a(%s)' % b, fnv(x[:d] + b'#' + x[d + 1:]))
            g.p('%s.Equals(rep(%d))' % (a, n), True)
            g.p('%s.IndexOf(%s)' % (a, a), 0)
            g.p('%s.IndexOf(%s.append("#"))' % (a, a), -1)
            g.p('"#".append(%s).IndexOf(%s)' % (a, a), 1)
            g.p('sum(%s.append(%s))' % (a, a), summ(x + x))
            g.p('sum("#".append(%s))' % a, summ(b'#' + x))
            g.p('sum(%s.append("#"))' % a, summ(x + b'#'))
            g.p('sum(%s.Substring(1, %d))' % (a, n), summ(x[1:]))
            g.p('sum(%s.Substring(0, %d))' % (a, n - 1), summ(x[:-1]))
            b = g.var('NewByteBuffer(%d)' % (n % 7), 'buf')
            g.s('%s.append(%s)' % (b, a))
            g.s('%s.append(35)' % b)
            g.s('%s.append(%s)' % (b, a))
            g.p('size(%s)' % b, 2 * n + 1)
            g.p('sum(%s.toString())' % b, summ(x + b'#' + x))
            g.p('sum(%s.substring(%d, %d))' % (b, n, n + 1), summ(b'#' + x))
        out.append(g.case())
    g = Prog('terminated', LONG)
    for n in range(0, 70):
        # printed by C: the text must be terminated
        t = ''.join(chr(97 + i % 23) for i in range(n))
        for e in ('rep(%d).append("")' % n, '"".append(rep(%d))' % n, 'rep(%d)' % n, 'rep(%d).Substring(1, %d)' % (n + 1, n + 1)):
            g.s('println(%s)' % e)
            g.out.append(t if 'Sub' not in e else ''.join(chr(97 + (i + 1) % 23) for i in range(n)))
        g.s('junk%d := Bytes(%d)' % (n, n))
    out.append(g.case())
    g = Prog('long-buffer', LONG)
    g.s('q := NewByteBuffer(0)')
    want = b''
    g.s('for i in 0 .. 3000 {\n    q.append(33 + i.mod(90))\n    if i.mod(100) == 7 { q.append("<>") }\n  }')
    for i in range(3000):
        want += bytes([33 + i % 90]) + (b'<>' if i % 100 == 7 else b'')
    g.p('size(q)', len(want))
    g.p('sum(q.toString())', summ(want))
    out.append(g.case())
    return out


def panics(seed):
    """indexes and ranges outside the object"""
    out, todo = [], []
    for m in (0, 1, 3, 8):
        bads = [m, m + 1, m + 8, -1, -8, -9, -16, MAX, MIN, 1 << 40]
        if m == 3:
            todo += [(m, f % num(b)) for b in bads for f in ('s.byte(%s)', 'b.get(%s)', 'b.set(%s, 1)')]
            todo += [(m, f % num(b)) for b in bads[1:] for f in ('s.Substring(%s, 2)', 's.Substring(0, %s)', 'q.substring(0, %s)', 'q.substring(%s, 1)', 'b.toString(%s)', 'b.toString(%s, 1)', 'b.toString(0, %s)', 's.IndexOf("a", %s)')]
            todo += [(m, 'Bytes(%s)' % num(b)) for b in (-1, -8, -9, MIN)] + [(m, 'NewByteBuffer(%s)' % num(b)) for b in (-1, MIN)]
        else:
            todo += [(m, f % num(b)) for b in (m, -1) for f in ('s.byte(%s)', 'b.get(%s)', 'b.set(%s, 1)')]
            todo += [(m, e) for e in ('s.Substring(0, %d)' % (m + 1), 's.Substring(1, 0)', 'q.substring(0, %d)' % (m + 1), 'q.substring(%d, 1)' % m, 'b.toString(%d)' % (m + 1), 'b.toString(%d, 1)' % m, 'b.toString(%d, %d)' % (m + 1, 0))]
    for k, (m, e) in enumerate(todo):
        if 'IndexOf' in e and not ('(-' in e):
            continue
        g = Prog('outside-%d-%s' % (m, e.replace(' ', '')))
        g.s('s := "%s"' % 'abcdefgh'[:m])
        g.s('b := Bytes(%d)' % m)
        g.s('q := NewByteBuffer(16)')
        g.s('q.append(s)')
        g.p('"before"', b'before')
        g.s(e if e.startswith('b.set') else 'x := ' + e)
        g.s('println("not reached")')
        out.append(g.case(panic=' ', rc=1))
    return out


def numbers(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s-%d-%d' % ('num', seed, k))
        g = Prog('gen-numbers-%d-%d' % (seed, k), 'fn id(i: int) int = i\n')
        for _ in range(30):
            v = r.choice([0, 1, -1, 9, 10, -10, 99, 100, MAX, MIN, MIN + 1, MAX - 1, r.randint(MIN, MAX), r.randint(-1000, 1000), (1 << r.randrange(62)), -(1 << r.randrange(62)),
                          (1 << r.randrange(62)) - 1, 10 ** r.randrange(19), -10 ** r.randrange(19), 10 ** r.randrange(1, 19) - 1])
            v = max(MIN, min(MAX, v))
            q = r.randrange(4)
            if q == 0:
                g.p('id(%s).toString()' % num(v), str(v).encode())
            elif q == 1:
                bits = ''.join(str((v >> j) & 1) + ('·' if j > 0 and j % 8 == 0 else '') for j in range(62, -1, -1))
                g.p('id(%s).toBinary()' % num(v), bits.encode('utf-8'))
            elif q == 2:
                m = r.choice([1, -1, 2, 3, -3, 10, 7, 16, 63, MAX, MIN, r.randint(1, MAX), -r.randint(1, MAX)])
                if v == MIN and m == -1:
                    m = 5
                w = abs(v) % abs(m)
                g.p('id(%s).mod(id(%s))' % (num(v), num(m)), -w if v < 0 else w)
            else:
                t = text(r)
                h = 0x811c9dc5
                for b in raw(t):
                    h = ((h ^ b) * 0x01000193) & 0xffffffff
                g.p('fnv1a("%s")' % t, h)
        g.p('(id(1) == 1).toString()', b'true')
        g.p('(id(1) == 2).toString()', b'false')
        out.append(g.case())
    return out


LISTHEAD = '''
fn show(l: list«int») {
  match l {
    case Empty(): printf(".\\n")
    case Element(v, rest):
      printf("%lli ", v)
      show(rest)
  }
}
fn opt(o: option«int») {
  match o {
    case Some(v): printf("some %lli\\n", v)
    case None(): printf("none\\n")
  }
}
fn res(r: result«int, string») {
  match r {
    case Ok(v): printf("ok %lli\\n", v)
    case Err(e): printf("err %s\\n", e)
  }
}
fn even(i: int) bool = (i & 1) == 0
fn big(i: int) bool { printf("?%lli ", i)
  return i > 5 }
fn dbl(i: int) int { printf("*%lli ", i)
  return i * 2 + 1 }
fn sub(a: int, b: int) int { printf("-%lli,%lli ", a, b)
  return a * 3 - b }
fn say(i: int) { printf("@%lli ", i) }
fn half(i: int) result«int, string» = even(i) ? Ok«int, string»(i / 2) : Err«int, string»("odd")
fn chk(i: int) option«string» = i > 5 ? Some("big") : None«string»()
'''


def lists(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s-%d-%d' % ('lst', seed, k))
        g = Prog('gen-lists-%d-%d' % (seed, k), LISTHEAD)
        vs = []

        def show(v, x):
            g.s('show(%s)' % v)
            g.out.append(' '.join(str(e) for e in x) + (' ' if x else '') + '.')
        for _ in range(4):
            x = [r.randint(-3, 12) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
            v = g.var('[%s].toList()' % ', '.join(map(num, x)) if x else 'Empty«int»()', 'l')
            vs.append((v, x))
            show(v, x)
        for _ in range(25):
            v, x = r.choice(vs)
            q = r.randrange(12)
            if q == 0:
                e = r.randint(-3, 12)
                w = g.var('%s.append(%s)' % (v, num(e)), 'l')
                vs.append((w, [e] + x))
                show(*vs[-1])
            elif q == 1:
                w = g.var('%s.reverse()' % v, 'l')
                vs.append((w, x[::-1]))
                show(*vs[-1])
            elif q == 2:
                # every element is tested, the first match taken out
                w = g.var('%s.remove(even)' % v, 'pr')
                i = next((i for i, e in enumerate(x) if e % 2 == 0), None)
                y = x if i is None else x[:i] + x[i + 1:]
                vs.append((w + '.first', y))
                show(*vs[-1])
                g.s('opt(%s.second)' % w)
                g.out.append('none' if i is None else 'some %d' % x[i])
            elif q == 3:
                g.s('opt(%s.find(big))' % v)
                o = ''
                i = None
                for e in x:
                    o += '?%d ' % e
                    if e > 5:
                        i = e
                        break
                g.out.append(o + ('none' if i is None else 'some %d' % i))
            elif q == 4:
                g.s('%s.foreach(say)' % v)
                g.s('println("")')
                g.out.append(''.join('@%d ' % e for e in x))
            elif q == 5:
                w = g.var('%s.map(dbl)' % v, 'l')
                y = [e * 2 + 1 for e in x]
                vs.append((w, y))
                g.s('show(%s)' % w)
                g.out.append(''.join('*%d ' % e for e in x) + ''.join('%d ' % e for e in y) + '.')
            elif q == 6:
                a0 = r.randint(-4, 4)
                acc, o = a0, ''
                for e in x:
                    o += '-%d,%d ' % (acc, e)
                    acc = acc * 3 - e
                g.s('println(%s.reduce(%s, sub))' % (v, num(a0)))
                g.out.append(o + str(acc))
            elif q < 10:
                e = r.choice([None] + list(range(-2, 11)))
                o = 'None«int»()' if e is None else 'Some(%s)' % num(e)
                t = r.randrange(6)
                if t == 0:
                    g.p('%s.isNone()' % o, e is None)
                    g.p('%s.isSome()' % o, e is not None)
                elif t == 1:
                    g.s('opt(%s.filter(big))' % o)
                    g.out.append('none' if e is None else '?%d %s' % (e, 'some %d' % e if e > 5 else 'none'))
                elif t == 2:
                    g.p('%s.orElse(77)' % o, 77 if e is None else e)
                elif t == 3:
                    g.s('opt(%s.map(dbl))' % o)
                    g.out.append('none' if e is None else '*%d some %d' % (e, e * 2 + 1))
                else:
                    g.s('opt(%s.peek(say))' % o)
                    g.out.append('none' if e is None else '@%d some %d' % (e, e))
            else:
                e = r.choice([None] + list(range(0, 11)))
                o = 'Err«int, string»("bad")' if e is None else 'Ok«int, string»(%s)' % num(e)
                t = r.randrange(3)
                if t == 0:
                    g.s('res(%s.map(dbl))' % o)
                    g.out.append('err bad' if e is None else '*%d ok %d' % (e, 2 * e + 1))
                elif t == 1:
                    g.s('res(%s.then(half))' % o)
                    g.out.append('err bad' if e is None else 'ok %d' % (e // 2) if e % 2 == 0 else 'err odd')
                else:
                    g.s('res(%s.peek(chk))' % o)
                    g.out.append('err bad' if e is None else 'err big' if e > 5 else 'ok %d' % e)
        for v, x in vs:
            show(v, x)
        out.append(g.case())
    return out


MAPHEAD = '''
fn eq(a: int, b: int) bool = a == b
fn id(i: int) int = i
fn neg(i: int) int = 0 - i - 1
fn zero(i: int) int = 0
fn minus(i: int) int = -1
fn low(i: int) int = i & 3
fn high(i: int) int = i << 4
fn wild(i: int) int = (i * 2654435761) ^ (i << 40)
fn eq8(a: int, b: int) bool = (a & 7) == (b & 7)
fn h8(i: int) int = 0 - (i & 7)
fn opt(o: option«int») {
  match o {
    case Some(v): printf("some %lli\\n", v)
    case None(): printf("none\\n")
  }
}
fn total(m: map«int, int») {
  acc := [0, 0, 0]
  m.foreach(fn(k: int, v: int) {
    acc[0] = acc[0] + 1
    acc[1] = acc[1] + k * 7 + v
    acc[2] = acc[2] ^ (k * 31 + v * 17)
  })
  printf("%lli %lli %lli\\n", acc[0], acc[1], acc[2])
}
'''


def wrap(v):
    v &= (1 << 63) - 1
    return v - (1 << 63) if v >> 62 else v


def maps(seed, n):
    out = []
    for k in range(n):
        r = random.Random('%s-%d-%d' % ('map', seed, k))
        g = Prog('gen-maps-%d-%d' % (seed, k), MAPHEAD)
        if k % 5 == 4:
            m = g.var('NewHashMap«string, string»(fnv1a, Equals)', 'm')
            d = {}
            keys = [text(r) for _ in range(8)]
            for _ in range(40):
                t = r.choice(keys)
                key, q = raw(t), r.randrange(6)
                if q < 3:
                    v = text(r)
                    g.p('%s.put("%s", "%s").orElse("nothing")' % (m, t, v), d.get(key, b'nothing'))
                    d[key] = raw(v)
                elif q == 3:
                    g.p('%s.get("%s").orElse("nothing")' % (m, t), d.get(key, b'nothing'))
                elif q == 4:
                    g.p('%s.remove("%s").orElse("nothing")' % (m, t), d.pop(key, b'nothing'))
                else:
                    g.p('%s.contains("%s")' % (m, t), key in d)
                    g.p('%s.size' % m, len(d))
            out.append(g.case())
            continue
        h = r.choice(['id', 'neg', 'zero', 'minus', 'low', 'high', 'wild', 'h8'])
        mod8 = h == 'h8'
        m = g.var('NewHashMap«int, int»(%s, %s)' % (h, 'eq8' if mod8 else 'eq'), 'm')
        d = {}                       # class of key -> (key stored, value)
        space = r.choice([4, 12, 40, 200])
        cls = (lambda x: x & 7) if mod8 else (lambda x: x)

        def total():
            s1 = s2 = 0
            for a, b in d.values():
                s1 += a * 7 + b
                s2 ^= wrap(a * 31 + b * 17)
            g.s('total(%s)' % m)
            g.out.append('%d %d %d' % (len(d), s1, s2))
        if r.randrange(2):
            a, b = r.randint(-20, 20), r.choice([11, 12, 13, 24, 25, 49, 60])
            g.s('for i in 0 .. %d { %s.put(%s + i, i * 5) }' % (b, m, num(a)))
            for i in range(b):
                key = a + i
                d[cls(key)] = (d[cls(key)][0] if cls(key) in d else key, i * 5)
            g.p('%s.size' % m, len(d))
            total()
        for _ in range(45):
            key = r.randint(-space, space)
            c, q = cls(key), r.randrange(8)
            if q < 4:
                v = r.randint(-99, 999)
                g.s('opt(%s.put(%s, %s))' % (m, num(key), num(v)))
                g.out.append('some %d' % d[c][1] if c in d else 'none')
                d[c] = (d[c][0] if c in d else key, v)
            elif q == 4:
                g.s('opt(%s.get(%s))' % (m, num(key)))
                g.out.append('some %d' % d[c][1] if c in d else 'none')
            elif q == 5:
                g.s('opt(%s.remove(%s))' % (m, num(key)))
                g.out.append('some %d' % d[c][1] if c in d else 'none')
                d.pop(c, None)
            elif q == 6:
                g.p('%s.contains(%s)' % (m, num(key)), c in d)
                g.p('%s.orElse(%s, 12345)' % (m, num(key)), d[c][1] if c in d else 12345)
            else:
                g.p('%s.size' % m, len(d))
        total()
        for c in sorted(d)[:20]:
            g.s('opt(%s.get(%s))' % (m, num(c)))
            g.out.append('some %d' % d[c][1])
        out.append(g.case())
    return out


def bigmaps():
    """several resizes"""
    out = []
    for h, n in (('id', 400), ('neg', 300), ('wild', 400), ('low', 60), ('high', 200)):
        g = Prog('big-map-%s' % h, MAPHEAD + '''
fn fill(m: map«int, int», n: int) { for i in 0 .. n { m.put(i * 3 - 50, i) } }
fn bump(m: map«int, int», n: int) { for i in 0 .. n { if i.mod(5) == 0 { m.put(i * 3 - 50, i + 1000) } } }
fn drop(m: map«int, int», n: int) { for i in 0 .. n { if i.mod(2) == 1 { m.remove(i * 3 - 50) } } }
fn bad(m: map«int, int», n: int) int {
  r := 0
  for i in 0 .. n {
    want := i.mod(2) == 1 ? -1 : i.mod(5) == 0 ? i + 1000 : i
    if not (m.orElse(i * 3 - 50, -1) == want) { r = r + 1 }
    if m.contains(i * 3 - 49) { r = r + 1 }
  }
  return r
}
''')
        g.s('m := NewHashMap«int, int»(%s, eq)' % h)
        g.s('m.fill(%d)' % n)
        g.p('m.size', n)
        g.s('m.bump(%d)' % n)
        g.p('m.size', n)
        g.s('m.drop(%d)' % n)
        d = {i * 3 - 50: (i + 1000 if i % 5 == 0 else i) for i in range(n) if i % 2 == 0}
        g.p('m.size', len(d))
        g.p('m.bad(%d)' % n, 0)
        g.s('total(m)')
        x = 0
        for a, b in d.items():
            x ^= wrap(a * 31 + b * 17)
        g.out.append('%d %d %d' % (len(d), sum(a * 7 + b for a, b in d.items()), x))
        out.append(g.case())
    return out


CELLS = '''
struct cell { a: option«cell» id: int b: option«cell» name: string more: []option«cell» f: fn() int }
fn tid(c: cell) int = unsafe(c, -16, type(block)).typeId()
fn cells(id: int) int {
  n := 0
  b := getBlocks()
  while b.isValidBlock() {
    if b.typeId() == id { n = n + 1 }
    b = b.next
  }
  return n
}
fn marks() int {
  n := 0
  b := getBlocks()
  while b.isValidBlock() {
    if b.isMarked() { n = n + 1 }
    b = b.next
  }
  return n
}
fn mk(id: int, len: int) cell = Cell(None«cell»(), id, None«cell»(), "c".append(id.toString()), array«cell»(len), fn() int = id * 3)
fn hold(c: cell) fn() int = fn() int = c.id + 1000
fn show(c: option«cell», depth: int) {
  match c {
    case Some(x):
      printf("(%lli ", x.id)
      put(x.name)
      g := x.f
      printf(" %lli", g())
      if depth > 0 {
        show(x.a, depth - 1)
        show(x.b, depth - 1)
        for i in 0 .. x.more.length { show(x.more[i], depth - 1) }
      }
      printf(")")
    case None():
      printf("-")
  }
}
fn put(s: string) { for i in 0 .. s.length { printf("%c", s.byte(i)) } }
'''


def heaps(seed, n):
    """graphs of cells: what is kept must stay intact, what is dropped must go"""
    out = []
    for k in range(n):
        r = random.Random('heap-%d-%d' % (seed, k))
        g = Prog('gen-heaps-%d-%d' % (seed, k), CELLS)
        N, K = r.randrange(2, 9) if r.random() < .8 else 25, r.randrange(1, 4) if r.random() < .8 else 12
        cs = {i: {'a': None, 'b': None, 'more': [None] * (r.randrange(0, 4) if r.random() < .7 else r.randrange(4, 24)), 'f': None} for i in range(N)}
        keep = [None] * K
        body = ['c%d := mk(%d, %d)' % (i, i, len(c['more'])) for i, c in cs.items()]

        def some(i):
            return 'None«cell»()' if i is None else 'Some(c%d)' % i
        for i, c in cs.items():
            for fl in ('a', 'b'):
                if r.random() < .6:
                    c[fl] = r.randrange(N)
                    body.append('c%d.%s = %s' % (i, fl, some(c[fl])))
            for j in range(len(c['more'])):
                if r.random() < (.6 if N < 20 else .1):
                    c['more'][j] = r.randrange(N)
                    body.append('c%d.more[%d] = %s' % (i, j, some(c['more'][j])))
            if r.random() < .2:
                c['f'] = r.randrange(N)
                body.append('c%d.f = hold(c%d)' % (i, c['f']))
        for j in range(K):
            if r.random() < .8:
                keep[j] = r.randrange(N)
                body.append('keep[%d] = %s' % (j, some(keep[j])))
        g.head += 'fn build(keep: []option«cell») int {\n' + ''.join('  %s\n' % b for b in body) + '  return c0.tid()\n}\n'

        def live():
            seen, todo = set(), [i for i in keep if i is not None]
            while todo:
                i = todo.pop()
                if i not in seen:
                    seen.add(i)
                    c = cs[i]
                    todo += [x for x in [c['a'], c['b'], c['f']] + c['more'] if x is not None]
            return seen

        def shown(i, d):
            if i is None:
                return '-'
            c = cs[i]
            return '(%d c%d %d%s)' % (i, i, i * 3 if c['f'] is None else c['f'] + 1000, shown(c['a'], d - 1) + shown(c['b'], d - 1) + ''.join(shown(x, d - 1) for x in c['more']) if d > 0 else '')

        def check():
            g.s('gc()')
            g.p('cells(id)', len(live()))
            g.p('marks()', 0)
            for j in range(K):
                g.s('show(keep[%d], 2)' % j)
                g.s('printf("\\n")')
                g.out.append(shown(keep[j], 2))
        g.s('keep := array«cell»(%d)' % K)
        g.s('id := build(keep)')
        check()
        for _ in range(r.randrange(1, 4)):
            j = r.randrange(K)
            if keep[j] is None:
                continue
            c = cs[keep[j]]
            if r.random() < .5:
                # step along one of its fields
                fl = r.choice('ab')
                g.s('step%s(keep, %d)' % (fl.upper(), j))
                keep[j] = c[fl]
            else:
                g.s('keep[%d] = None«cell»()' % j)
                keep[j] = None
            check()
        for fl in 'ab':
            g.head += 'fn step%s(keep: []option«cell», j: int) {\n  match keep[j] {\n    case Some(x):\n      keep[j] = x.%s\n    case None():\n      keep[j] = None«cell»()\n  }\n}\n' % (fl.upper(), fl)
        out.append(g.case())
    return out



def gctypes():
    """more types than a byte can number; the run time data"""
    n = 320
    src = ''.join('struct s%d { a: int b: string }\n' % i for i in range(n))
    src += 'fn id«T»(x: T) int = unsafe(x, -16, type(block)).typeId()\n'
    src += 'fn sum(x: int, y: string) int = x + y.length\n'
    for k in range(0, n, 40):
        src += 'fn use%d() {\n' % k + ''.join('  v%d := S%d(%d, "t".append("u"))\n' % (i, i, i) for i in range(k, k + 40)) + '  gc()\n'
        src += ''.join('  println(sum(v%d.a, v%d.b))\n' % (i, i) for i in range(k, k + 40)) + ''.join('  println(v%d.id() - v%d.id())\n' % (i + 1, i) for i in range(k, k + 39)) + '}\n'
    src += 'fn main() {\n' + ''.join('  use%d()\n' % k for k in range(0, n, 40)) + '}\n'
    out = []
    for k in range(0, n, 40):
        out += [str(i + 2) for i in range(k, k + 40)] + ['1'] * 39
    c = {'name': 'gc-types', 'src': src, 'out': out, 'expect': 'run', 'rc': 0, 'env': {}, 'raw': False}
    src = 'fn main() {\n  for i in 0 .. 40 { "junk".append(i.toString()) }\n  println(getRuntime().env.orElse("CLARA_T", "?"))\n  println(getRuntime().args.length)\n  gc()\n  println(getRuntime().env.orElse("CLARA_U", "?"))\n}\n'
    return [c, {'name': 'gc-runtime', 'src': src, 'out': ['a value', '1', 'x=y'], 'expect': 'run', 'rc': 0, 'env': {'CLARA_T': 'a value', 'CLARA_U': 'x=y'}, 'raw': False}]
