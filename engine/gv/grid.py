"""Accept/reject grids: small function declarations with the verdict the typing and scoping rules prescribe. Many are compiled in one file by
the real compiler; each error it reports belongs to the declaration on whose lines it lies. Every disagreement is confirmed on a file of its own.
The bounded companion of C04 - C08, and the source of failing inputs."""
import os, random, re, subprocess
from . import tools

PRE = '''struct sa { a: int b: bool c: []int d: fn(int) int }
struct sb { a: int b: bool }
struct ga«X» { x: X n: int }
struct gb«X,Y» { x: X y: Y }
enum ea { Ea1(x: int, y: bool) Ea2() }
enum eb { Eb1(x: int, y: bool) Eb2() }
enum ef { F1() F2() F3() F4() F5() F6() }
enum ge«X» { Gs(x: X) Gn() }
fn nothing0() { }
fn idg«T»(x: T) T = x
fn samet«T»(x: T, y: T) T = x
fn pairt«T,U»(x: T, y: U) T = y == 0 ? x : x
fn sndt«T,U»(x: T, y: U) U = y
fn arrt«T»(x: []T) T = x[0]
fn fnt«T,U»(x: T, f: fn(T) U) U = f(x)
fn gat«T»(x: ga«T») T = x.x
fn get«T»(x: ge«T») int = 1
fn main() { }
'''.replace('fn pairt«T,U»(x: T, y: U) T = y == 0 ? x : x\n', 'fn fstt«T,U»(x: T, y: U) T = x\n')
NPRE = PRE.count('\n')
TYPES = ['int', 'bool', 'string', '[]int', '[]bool', '[][]int', 'sa', 'sb', 'ea', 'eb', 'ga«int»', 'ga«bool»', 'ge«int»', 'ge«bool»', 'gb«int,bool»', 'gb«bool,int»',
         'fn(int) int', 'fn(int) bool', 'fn(bool) int', 'fn()', 'fn(int,int) int', 'fn(int)', 'ga«ga«int»»', '[]ga«int»', 'fn([]int) int']
SHORT = ['int', 'bool', 'string', '[]int', '[]bool', 'sa', 'sb', 'ea', 'ga«int»', 'ga«bool»', 'ge«int»', 'fn(int) int', 'fn(bool) int']
STRUCTS = ('sa', 'sb', 'ga«int»', 'ga«bool»', 'gb«int,bool»', 'gb«bool,int»', 'ga«ga«int»»')


def bare(s):
    """the body of a match case has no braces"""
    while True:
        m = re.search(r'\): \{', s)
        if not m:
            return s
        i, d = m.end(), 1
        while d:
            d += {'{': 1, '}': -1}.get(s[i], 0)
            i += 1
        s = s[:m.start()] + '):' + s[m.end():i - 1].rstrip() + s[i:]


def V(ok):
    return 'accept' if ok else 'reject'


def typing():
    """C05: operators, statements and declarations over operands of every type"""
    out = []
    for op in '+ - * / & | ^ << >>'.split():
        out += [('fn z@(p: %s, q: %s) { x := p %s q }' % (a, b, op), V(a == b == 'int')) for a in SHORT for b in SHORT]
        out += [('fn z@(p: int) %s = p %s p' % (t, op), V(t == 'int')) for t in SHORT]
    for op in '< <= > >= =='.split():
        out += [('fn z@(p: %s, q: %s) { x := p %s q }' % (a, b, op), V(a == b == 'int')) for a in SHORT for b in SHORT]
        out += [('fn z@(p: int) %s = p %s p' % (t, op), V(t == 'bool')) for t in SHORT]
    for op in 'and or'.split():
        out += [('fn z@(p: %s, q: %s) { x := p %s q }' % (a, b, op), V(a == b == 'bool')) for a in SHORT for b in SHORT]
        out += [('fn z@(p: bool) %s = p %s p' % (t, op), V(t == 'bool')) for t in SHORT]
    for op, w in (('not ', 'bool'), ('-', 'int'), ('~', 'int')):
        out += [('fn z@(p: %s) { x := %sp }' % (a, op), V(a == w)) for a in SHORT]
        out += [('fn z@(p: %s) %s = %sp' % (w, a, op), V(a == w)) for a in SHORT]
    for a in SHORT:
        for s in ('while p { }', 'if p { }', 'if true { } elseif p { }', 'if true { } elseif false { } elseif p { } else { }', 'x := p ? 1 : 2'):
            out.append(('fn z@(p: %s) { %s }' % (a, s), V(a == 'bool')))
        out.append(('fn z@(p: %s) { for i in p { } }' % a, V(a.startswith('[]'))))
        out.append(('fn z@(p: %s) { for i in p { j := i + 1 } }' % a, V(a == '[]int')))
        out.append(('fn z@(p: %s) { x := p.length }' % a, V(a.startswith('[]') or a == 'string')))
        out.append(('fn z@(p: %s) { x := p.a }' % a, V(a in ('sa', 'sb'))))
        out.append(('fn z@(p: %s) { p.length = 1 }' % a, 'reject'))
        out.append(('fn z@(p: %s) { match p { case Ea1(a, b): { } case Ea2(): { } } }' % a, V(a == 'ea')))
        out.append(('fn z@(p: %s) { match p { case Gs(a): { } case Gn(): { } } }' % a, V(a.startswith('ge'))))
        out.append(('fn z@(p: %s) { p() }' % a, V(a == 'fn()')))
        out.append(('fn z@(p: %s) { p(1) }' % a, V(a == 'fn(int) int')))
        for b in SHORT:
            out.append(('fn z@(p: %s, q: %s) { x := p[q] }' % (a, b), V(a.startswith('[]') and b == 'int')))
            out.append(('fn z@(p: %s, q: %s) { for i in p .. q { } }' % (a, b), V(a == b == 'int')))
    for a in TYPES:
        for b in TYPES:
            ok = V(a == b)
            out += [('fn z@(p: %s, q: %s) { p = q }' % (a, b), ok), ('fn z@(p: %s) %s { return p }' % (a, b), ok), ('fn z@(p: %s) %s = p' % (a, b), ok),
                    ('fn z@(p: %s, q: %s) { x := true ? p : q }' % (a, b), ok), ('fn z@(p: %s, q: %s) { x := [p, q] }' % (a, b), ok),
                    ('fn z@(p: []%s, q: %s) { p[0] = q }' % (a, b), ok), ('fn z@(p: ga«%s», q: %s) { p.x = q }' % (a, b), ok),
                    ('fn z@(p: %s, q: %s) { x := [q, q, p, q] }' % (a, b), ok), ('fn z@(p: %s, q: %s) { x := [q, q, q, q, p] }' % (a, b), ok),
                    ('fn z@(p: %s, q: %s) { x := [p%s] }' % (a, b, ', q' * (1 + (len(a) + len(b)) % 17)), ok),
                    ('fn z@(p: %s, q: fn(%s) int) { x := q(p) }' % (a, b), ok), ('fn z@(p: fn(int) %s) %s = p(1)' % (a, b), ok)]
        out += [('fn z@(p: %s) { return p }' % a, 'reject'), ('fn z@(p: %s) %s { return }' % (a, a), 'reject')]
        for i, w in ((0, 'int'), (1, 'bool'), (2, '[]int'), (3, 'fn(int) int')):
            out.append(('fn z@(p: sa, q: %s) { p.%s = q }' % (a, 'abcd'[i]), V(a == w)))
        for i, w in ((0, 'int'), (1, 'bool')):
            args = ['1', 'true']
            args[i] = 'p'
            for c in ('Sb', 'Ea1', 'Eb1'):
                out.append(('fn z@(p: %s) { x := %s(%s) }' % (a, c, ', '.join(args)), V(a == w)))
    # number of arguments and of case variables
    for n in range(5):
        out.append(('fn z@() { x := Sb(%s) }' % ', '.join(['1', 'true', '2', '3'][:n]), V(n == 2)))
        out.append(('fn z@(f: fn(int,int) int) { x := f(%s) }' % ', '.join(['1'] * n), V(n == 2)))
        out.append(('fn z@(p: ea) { match p { case Ea1(%s): { } case Ea2(): { } } }' % ', '.join('abcd'[:n]), V(n == 2)))
        out.append(('fn z@(p: ea) { match p { case Ea1(a, b): { } case Ea2(%s): { } } }' % ', '.join('abcd'[:n]), V(n == 0)))
    E = 'case Ea1(a, b): { } '
    F = 'case Ea2(): { } '
    for body, ok in (('', 0), (E, 0), (F, 0), (E + F, 1), (F + E, 1), (E + E, 0), (E + F + F, 0), (E + F + E, 0), (E + 'case Eb2(): { } ', 0), (E + F + 'case Eb2(): { }', 0), (E + 'case Ea3(): { }', 0)):
        out.append(('fn z@(p: ea) { match p { %s} }' % body, V(ok)))
    out += [('fn z@(p: ea) { match p { case Ea1(a, b): { x := a + %s } case Ea2(): { } } }' % v, V(v == '1')) for v in ('1', 'true', 'b', '"s"')]
    out += [('fn z@(p: ea) { match p { case Ea1(a, b): { x := b and %s } case Ea2(): { } } }' % v, V(v == 'true')) for v in ('1', 'true', 'a', '"s"')]
    out += [('fn z@(p: ge«%s») { match p { case Gs(a): { x := a + 1 } case Gn(): { } } }' % t, V(t == 'int')) for t in TYPES]
    # targets of an assignment
    for t, ok in (('p', 1), ('a[0]', 1), ('s.a', 1), ('1', 0), ('f()', 0), ('p + 1', 0), ('s.b ? p : p', 0), ('-p', 0), ('s.c[1]', 1), ('a.length', 0), ('"x".length', 0), ('s.c.length', 0), ('[1]', 0), ('idg(p)', 0)):
        out.append(('fn z@(p: int, a: []int, s: sa, f: fn() int) { %s = 2 }' % t, V(ok)))
        if t not in ('p',):
            out.append(('fn z@(p: int, a: []int, s: sa, f: fn() int) { %s := 2 }' % t, 'reject'))
    out += [('fn z@() { x = 1 }', 'reject'), ('fn z@() { println(x) }', 'reject'), ('fn z@() { f(1) }', 'reject'), ('fn z@(p: sa) { x := p.zz }', 'reject'), ('fn z@(p: sa) { p.zz = 1 }', 'reject'),
            ('fn z@(p: sa) { x := p.d(1) }', 'accept'), ('fn z@(p: sa) { x := p.d(true) }', 'reject'), ('fn z@(p: sa) { x := p.c[0] }', 'accept'), ('fn z@(p: sa) { x := p.c[true] }', 'reject'),
            ('fn z@(p: sa) { x := p.a[0] }', 'reject'), ('fn z@(p: sa) int = p.d(1) + p.c[0] + p.a', 'accept'), ('fn z@(p: nosuch) { }', 'reject'), ('fn z@() nosuch { }', 'reject'),
            ('fn z@(p: []nosuch) { }', 'reject'), ('fn z@(p: fn(nosuch)) { }', 'reject'), ('fn z@(p: ga«nosuch») { }', 'reject'), ('fn z@(p: ga«int,int») { }', 'reject'), ('fn z@(p: int«int») { }', 'reject')]
    return out


BAD = ['(1 + true)', '(not 1)', 'nosuch', 'nosuch(1)', 'a[true]', 'p[0]', 's.zz', '(true ? 1 : false)', '[1, true][0]', '(-true)', 's.d(true)', 's.a.b', 'idg(1 + true)', 'samet(1, true)', '(1 and true ? 1 : 2)']
CTX = ['x := %s', 'p = %s', 'a[0] = %s', 'a[%s] = 1', 's.a = %s', 'println(%s)', 'x := p + %s', 'x := %s + p', 'x := p < %s', 'x := %s == p', 'x := not (p == %s)', 'x := -%s', 'x := ~%s',
       'x := true and p < %s', 'x := p == %s or true', 'x := [%s]', 'x := [1, 2, %s]', 'x := a[%s]', 'x := p == %s ? 1 : 2', 'x := true ? %s : 1', 'x := true ? 1 : %s', 'x := Sb(%s, true)', 'x := Sb(p, p == %s)',
       'x := idg(%s)', 'x := samet(1, %s)', 'x := Sb(%s, true).a', 'x := [1][%s]', 'if p == %s { }', 'if true { println(%s) }', 'if true { } elseif p == %s { }', 'if true { } elseif true { println(%s) }',
       'if true { } else { println(%s) }', 'if true { } elseif true { } else { println(%s) }', 'while p == %s { }', 'while true { println(%s) }', 'for i in 0 .. %s { }', 'for i in %s .. 5 { }',
       'for i in [%s] { }', 'for i in a { println(%s) }', 'for i in 0 .. 2 { println(%s) }', 'match Ea1(%s, true) { case Ea1(q, r): { } case Ea2(): { } }',
       'match e { case Ea1(q, r): { println(%s) } case Ea2(): { } }', 'match e { case Ea1(q, r): { } case Ea2(): { println(%s) } }', 'f := fn(q: int) int = %s', 'f := fn(q: int) int { return %s }',
       'f := fn() { println(%s) }', 'f := fn() { if true { x := %s } }', 'f := fn() fn() int = fn() int = %s', 'p = 1 println(2) p = %s', 'x := idg(idg(idg(%s)))', 'x := (((1 + (2 * (3 - %s)))))',
       'if true { while false { for i in a { match e { case Ea1(q, r): { } case Ea2(): { println(%s) } } } } }', 'x := %s << 1', 'x := 1 >> %s', 'x := %s & 1', 'x := 1 | %s', 'x := 1 ^ %s', 'x := 1 / %s', 'x := %s * 2',
       's.d(%s)', 'x := s.c[%s]', 'println(1) println(%s) println(2)', 'println(%s) println(1)', 'println(1).nosuch(%s)', 'x := %s.idg()', 'x := 1.samet(%s)']


def lost():
    """C05: an error in any sub-expression is reported, in every context"""
    out = []
    for c in CTX:
        for b in ['p', '7', '(p + 1)', 'a[0]', 's.a', 'idg(3)'] + BAD:
            if '1.samet' in c or b[0] in '0123456789-' and '%s.' in c or 'nosuch' in c:
                continue
            if b.startswith('(') and '%s.' in c:
                continue
            out.append(('fn z@(p: int, a: []int, s: sa, e: ea) { %s }' % (c % b), V(b not in BAD)))
    for b in ['p', '(p + 1)'] + BAD:
        out += [('fn z@(p: int, a: []int, s: sa, e: ea) int = %s' % b, V(b not in BAD)), ('fn z@(p: int, a: []int, s: sa, e: ea) int { return %s }' % b, V(b not in BAD)),
                ('fn z@(p: int, a: []int, s: sa, e: ea) int { if true { return %s } return 1 }' % b, V(b not in BAD)),
                ('fn z@(p: int, a: []int, s: sa, e: ea) int { if true { return 1 } else { return %s } }' % b, V(b not in BAD))]
    return out


def binding():
    """C04: identity of types, generic calls"""
    out = []
    for a in TYPES:
        for b in TYPES:
            ok = V(a == b)
            out += [('fn z@(p: %s, q: %s) { x := samet(p, q) }' % (a, b), ok), ('fn z@(p: %s) %s = idg(p)' % (a, b), ok), ('fn z@(p: []%s) %s = arrt(p)' % (a, b), ok),
                    ('fn z@(p: ga«%s») %s = gat(p)' % (a, b), ok), ('fn z@(p: %s, f: fn(%s) int) int = fnt(p, f)' % (a, b), ok),
                    ('fn z@(p: int, f: fn(int) %s) %s = fnt(p, f)' % (a, b), ok), ('fn z@(p: int, q: %s) %s = sndt(p, q)' % (a, b), ok), ('fn z@(p: %s, q: int) %s = fstt(p, q)' % (a, b), ok),
                    ('fn z@(p: ga«%s», q: ga«%s») { p = q }' % (a, b), ok), ('fn z@(p: []%s, q: []%s) { p = q }' % (a, b), ok), ('fn z@(p: ge«%s», q: ge«%s») { p = q }' % (a, b), ok),
                    ('fn z@(p: fn(%s) int, q: fn(%s) int) { p = q }' % (a, b), ok), ('fn z@(p: fn() %s, q: fn() %s) { p = q }' % (a, b), ok), ('fn z@(p: gb«int,%s», q: gb«int,%s») { p = q }' % (a, b), ok),
                    ('fn z@(p: %s) ga«%s» = Ga(p, 1)' % (a, b), ok), ('fn z@(p: ga«%s») %s = p.x' % (a, b), ok), ('fn z@(p: %s, q: int) gb«int,%s» = Gb(q, p)' % (a, b), ok),
                    ('fn z@(p: ga«%s»«») %s = p.x' % (a, b), 'reject') if False else ('fn z@(p: gb«%s,int») %s = p.x' % (a, b), ok), ('fn z@(p: gb«bool,%s») %s = p.y' % (a, b), ok),
                    ('fn z@(p: ga«ga«%s»») %s = p.x.x' % (a, b), ok), ('fn z@(p: []ga«%s») %s = p[0].x' % (a, b), ok)]
        out += [('fn z@«T»(p: T, q: %s) { p = q }' % a, 'reject'), ('fn z@«T»(p: T, q: %s) { q = p }' % a, 'reject'), ('fn z@«T»(p: T) %s = p' % a, 'reject'), ('fn z@«T»(p: %s) T = p' % a, 'reject'),
                ('fn z@«T»(p: T, q: %s) { x := samet(p, q) }' % a, 'reject'), ('fn z@«T»(p: ga«T», q: ga«%s») { p = q }' % a, 'reject'), ('fn z@(p: ga«%s»«int») { }' % a, 'reject')]
        if not a.startswith('[]'):
            out.append(('fn z@(p: %s) { x := arrt(p) }' % a, 'reject'))
        if not a.startswith('ga'):
            out.append(('fn z@(p: %s) { x := gat(p) }' % a, 'reject'))
        if not a.startswith('ge'):
            out.append(('fn z@(p: %s) { x := get(p) }' % a, 'reject'))
    out = [x for x in out if '»«' not in x[0]]
    for t in ('T', '[]T', 'ga«T»', 'fn(T) T', 'ge«T»', 'gb«T,int»', 'gb«T,U»', 'U', '[]U', 'ga«U»', 'fn(U) T', 'fn(T) U', 'gb«U,T»', 'gb«U,U»'):
        for u in ('T', '[]T', 'ga«T»', 'fn(T) T', 'ge«T»', 'gb«T,int»', 'gb«T,U»', 'U', '[]U', 'ga«U»', 'fn(U) T', 'fn(T) U', 'gb«U,T»', 'gb«U,U»'):
            ok = V(t == u)
            out += [('fn z@«T,U»(p: %s, q: %s, r: T, s: U) { p = q }' % (t, u), ok), ('fn z@«T,U»(p: %s, r: T, s: U) %s = p' % (t, u), ok), ('fn z@«T,U»(p: %s, q: %s, r: T, s: U) { x := samet(p, q) }' % (t, u), ok)]
    # names of type parameters do not matter, calls of generic functions from generic functions
    out += [('fn z@«T»(p: T) T = idg(p)', 'accept'), ('fn z@«U»(p: U) U = idg(p)', 'accept'), ('fn z@«U»(p: []U) U = arrt(p)', 'accept'), ('fn z@«U,T»(p: U, q: T) T = sndt(p, q)', 'accept'),
            ('fn z@«U,T»(p: U, q: T) U = sndt(p, q)', 'reject'), ('fn z@«T,U»(p: T, q: U) T = sndt(p, q)', 'reject'), ('fn z@«T,U»(p: T, q: U) U = sndt(p, q)', 'accept'), ('fn z@«U,T»(p: U, q: T) T = fstt(p, q)', 'reject'),
            ('fn z@«U»(p: U, f: fn(U) U) U = fnt(p, f)', 'accept'), ('fn z@«T,U»(p: T, f: fn(U) T) T = fnt(p, f)', 'reject'), ('fn z@«T»(p: T) int = idg(1)', 'accept'), ('fn z@«T»(p: T) T = idg(1)', 'reject'),
            ('fn z@«T»(p: T) ga«T» = Ga(p, 1)', 'accept'), ('fn z@«T»(p: T) ga«int» = Ga(p, 1)', 'reject'), ('fn z@«T»(p: T) ga«T» = Ga(1, 1)', 'reject'), ('fn z@(p: gb«int,bool») int = p.x + 1', 'accept'),
            ('fn z@(p: gb«int,bool») int = p.y + 1', 'reject'), ('fn z@(p: gb«int,bool») bool = p.y', 'accept'), ('fn z@(f: fn(int) bool) bool = fnt(1, f)', 'accept'), ('fn z@(f: fn(int) bool) bool = fnt(true, f)', 'reject'),
            ('fn z@(f: fn(int) bool) int = fnt(1, f)', 'reject'), ('fn z@() ge«int» = Gn()', 'accept') if False else ('fn z@() ge«int» = Gs(1)', 'accept'), ('fn z@() ge«bool» = Gs(1)', 'reject')]
    return out


# ---- types as terms: ('v', name) a type parameter, ('n',) nothing, (constructor, arguments...)
HEADS = {'int': 0, 'bool': 0, 'string': 0, 'sa': 0, 'sb': 0, 'ea': 0, 'eb': 0, '[]': 1, 'ga': 1, 'ge': 1, 'gb': 2, 'fn0': 1, 'fn1': 2, 'fn2': 3}


def show(t):
    h, a = t[0], [show(x) for x in t[1:]] if t[0] != 'v' else []
    if h == 'v':
        return t[1]
    if h == 'n':
        return ''
    if h == '[]':
        return '[]' + a[0]
    if h.startswith('fn'):
        return ('fn(%s) %s' % (','.join(a[:-1]), a[-1])).strip()
    return h + ('«%s»' % ','.join(a) if a else '')


def rterm(r, d, vs=(), nothing=False):
    if nothing and r.random() < .25:
        return ('n',)
    if vs and r.random() < (.5 if d else .9):
        return ('v', r.choice(vs))
    h = r.choice([h for h in HEADS if d or HEADS[h] == 0])
    n = HEADS[h]
    return (h,) + tuple(rterm(r, d - 1, vs, h.startswith('fn') and i == n - 1) for i in range(n))


def inst(t, b):
    return b[t[1]] if t[0] == 'v' else (t[0],) + tuple(inst(x, b) for x in t[1:])


def unify(pat, t, b, vs):
    """one-sided: the parameters vs of pat are bound, every other name stands for itself"""
    if pat[0] == 'v' and pat[1] in vs:
        return b.setdefault(pat[1], t) == t
    if pat[0] == 'v' or t[0] == 'v':
        return pat == t
    return pat[0] == t[0] and len(pat) == len(t) and all(unify(x, y, b, vs) for x, y in zip(pat[1:], t[1:]))


def occurs(t):
    return {t[1]} if t[0] == 'v' else set().union(*[occurs(x) for x in t[1:]]) if len(t) > 1 else set()


def twist(r, t, vs=()):
    """t with one sub-term changed"""
    subs = [(i, x) for i, x in enumerate(t) if i and isinstance(x, tuple)]
    if subs and r.random() < .75:
        i, x = r.choice(subs)
        return t[:i] + (twist(r, x, vs),) + t[i + 1:]
    if t == ('n',):
        return ('int',)
    return rterm(r, r.randint(0, 1), vs)


def generic(n, seed):
    """C04: calls of generic functions and constructors with any number of parameters of any shape: accepted exactly when one binding of the
    type parameters makes every argument's type the parameter's type, and then the result has the result's type under that binding"""
    r = random.Random(seed)
    out = []
    while len(out) < n:
        k = r.randint(1, 3)
        vs = ('T', 'U', 'V')[:k]
        ps = [rterm(r, r.randint(0, 2), vs) for _ in range(r.randint(1, 5))]
        if set().union(*[occurs(p) for p in ps]) != set(vs):
            continue
        res = rterm(r, r.randint(0, 1), vs) if r.random() < .7 else r.choice(ps)
        outer = r.random() < .25
        # inside a generic function the arguments mention its own (rigid) parameters, perhaps of the same name
        rig = r.choice([('T', 'U'), ('U', 'T'), ('A', 'B')]) if outer else ()
        b = {v: rterm(r, r.randint(0, 1), rig) for v in vs}
        if r.random() < .1:
            b[r.choice(vs)] = r.choice(list(b.values()))
        args = [inst(p, b) for p in ps]
        m = r.random()
        if m < .45:
            i = r.randrange(len(args))
            args[i] = twist(r, args[i], rig)
        elif m < .5:
            i = r.randrange(len(args))
            args[i] = inst(ps[i], {v: rterm(r, 1, rig) for v in vs})
        got = {}
        ok = all([unify(p, a, got, vs) for p, a in zip(ps, args)])
        if any(a == ('n',) for a in args) or any(inst(p, {v: ('int',) for v in vs}) == ('n',) for p in ps):
            continue
        want = inst(res, got) if ok else inst(res, b)
        if ok and r.random() < .3:
            want = twist(r, want, rig)
            ok = want == inst(res, got)
        if want == ('n',) or ('n',) in [v for v in b.values()]:
            continue
        tv = '«%s»' % ','.join(vs)
        zt = '«%s»' % ','.join(rig) if outer else ''
        if outer and not set(rig) <= set().union(*[occurs(a) for a in args]):
            extra = ', ' + ', '.join('w%d: %s' % (i, v) for i, v in enumerate(rig))
            if len(args) > 4:
                continue
        else:
            extra = ''
        pl = ', '.join('p%d: %s' % (i, show(a)) for i, a in enumerate(args)) + extra
        call = ', '.join('p%d' % i for i in range(len(args)))
        form = r.random()
        if form < .6:
            out.append(('fn y@%s(%s) %s = y@(%s) fn z@%s(%s) %s = y@(%s)' % (tv, ', '.join('x%d: %s' % (i, show(p)) for i, p in enumerate(ps)), show(res), ', '.join('x%d' % i for i in range(len(ps))),
                                                                       zt, pl, show(want), call), V(ok)))
        else:
            g = {}
            ok = all([unify(p, a, g, vs) for p, a in zip(ps, args)])
            want = ', '.join(show(g[v] if ok else b[v]) for v in vs)
            if ok and r.random() < .3:
                w = [g[v] for v in vs]
                i = r.randrange(k)
                w2 = twist(r, w[i], rig)
                ok = w2 == w[i]
                w[i] = w2
                want = ', '.join(show(x) for x in w)
            if '' in want.split(', '):
                continue
            if form < .8:
                if any(show(p).endswith(')') for p in ps[:-1]):
                    continue  # the next field's name would be the result's type
                out.append(('struct ys@%s { %s } fn z@%s(%s) ys@«%s» = Ys@(%s)' % (tv, ' '.join('x%d: %s' % (i, show(p)) for i, p in enumerate(ps)), zt, pl, want, call), V(ok)))
            else:
                out.append(('enum ye@%s { Yn@() Ym@(%s) } fn z@%s(%s) ye@«%s» = Ym@(%s)' % (tv, ', '.join('x%d: %s' % (i, show(p)) for i, p in enumerate(ps)), zt, pl, want, call), V(ok)))
    return out


def returns():
    """C06"""
    def body(d):
        if d == 0:
            return [('return 1', True), ('x = 2', False), ('println(1)', False)]
        sub = body(d - 1)
        r = random.Random(d)
        out = list(sub)
        for _ in range(40):
            k = r.choice(['if', 'ifelse', 'elseif', 'elseifelse', 'while', 'for', 'match', 'seq', 'seq2', 'fn', 'three', 'match1'])
            a, b, c = r.choice(sub), r.choice(sub), r.choice(sub)
            if k == 'if':
                out.append(('if x == 1 { %s }' % a[0], False))
            elif k == 'ifelse':
                out.append(('if x == 1 { %s } else { %s }' % (a[0], b[0]), a[1] and b[1]))
            elif k == 'elseif':
                out.append(('if x == 1 { %s } elseif x == 2 { %s }' % (a[0], b[0]), False))
            elif k == 'elseifelse':
                out.append(('if x == 1 { %s } elseif x == 2 { %s } else { %s }' % (a[0], b[0], c[0]), a[1] and b[1] and c[1]))
            elif k == 'three':
                out.append(('if x == 1 { %s } elseif x == 2 { return 2 } elseif x == 3 { %s } else { %s }' % (a[0], b[0], c[0]), a[1] and b[1] and c[1]))
            elif k == 'while':
                out.append(('while x == 1 { %s }' % a[0], False))
            elif k == 'for':
                out.append(('for i in 0 .. 2 { %s }' % a[0], False))
            elif k == 'match':
                out.append(('match e { case Ea1(p, q): { %s } case Ea2(): { %s } }' % (a[0], b[0]), a[1] and b[1]))
            elif k == 'match1':
                out.append(('match e { case Ea2(): { %s } case Ea1(p, q): { %s } }' % (a[0], b[0]), a[1] and b[1]))
            elif k == 'seq':
                out.append(('x = 3 %s' % a[0], a[1]))
            elif k == 'seq2':
                out.append(('if x == 9 { %s } %s' % (a[0], b[0]), b[1]))
            elif k == 'fn':
                out.append(('f := fn() int { return 3 } %s' % a[0], a[1]))
        return out
    seen, out = set(), []
    for d in (0, 1, 2, 3):
        for b, ok in body(d):
            if b in seen or b.count('case Ea1(p, q)') > 1 and re.search(r'case Ea1\(p, q\): \{[^{}]*match', b):
                continue
            seen.add(b)
            out.append(('fn z@(x: int, e: ea) int { %s }' % b, V(ok)))
            out.append(('fn z@(x: int, e: ea) { f := fn(x: int, e: ea) int { %s } }' % b, V(ok)) if d < 3 else ('fn z@(x: int, e: ea) int { %s }' % b, V(ok)))
    for n in range(1, 7):
        for els in (0, 1):
            for bad in [None] + list(range(n + els)):
                for filler in ('x = 2', 'if x == 7 { return 1 }', 'f := fn() int { return 1 }', ''):
                    br = ['return %d' % i if i != bad else filler for i in range(n + els)]
                    t = ' '.join(('%s x == %d { %s }' % ('if' if i == 0 else 'elseif', i, b)) if i < n else 'else { %s }' % b for i, b in enumerate(br))
                    out.append(('fn z@(x: int) int { %s }' % t, V(els and bad is None)))
                    if bad is None:
                        break
    for bad in [None] + list(range(6)):
        for filler in ('x = 2', 'if x == 7 { return 1 }', 'while true { return 1 }'):
            t = ' '.join('case F%d(): %s' % (i + 1, 'return %d' % i if i != bad else filler) for i in range(6))
            out.append(('fn z@(x: int, e: ef) int { match e { %s } }' % t, V(bad is None)))
    fix = []
    for s, v in out:
        # variables of one name in one scope, and nested matches, are C07's business
        if len(re.findall(r'f := fn', s)) > 1 + s.count('f := fn(x'):
            continue
        fix.append((s, v))
    fix += [('fn z@() int { }', 'reject'), ('fn z@() { }', 'accept'), ('fn z@(x: int) { if x == 1 { return } }', 'accept'), ('fn z@() { return }', 'accept'), ('fn z@() int = 1', 'accept'),
            ('fn z@(x: int) int { fn() int { return 1 } }', 'reject'), ('fn z@(x: int) int { f := fn() int { return 1 } }', 'reject'), ('fn z@() int { return 1 println(2) }', 'reject'),
            ('fn z@() []int { return [1] }', 'accept'), ('fn z@() []int { }', 'reject'), ('fn z@«T»(x: T) T { }', 'reject'), ('fn z@«T»(x: T) T { return x }', 'accept')]
    return fix


def scopes():
    """C07"""
    blocks = ['if true { %s }', 'if false { } elseif true { %s }', 'if false { } else { %s }', 'while false { %s }', 'for i in 0 .. 2 { %s }', 'for i in [1] { %s }',
              'match e { case Ea1(m1, m2): { %s } case Ea2(): { } }', 'match e { case Ea1(m1, m2): { } case Ea2(): { %s } }', 'f := fn() { %s }', 'f := fn(k: int) { %s }',
              'if true { if true { %s } }', 'while false { if true { %s } }', 'f := fn() { while false { %s } }']
    out = []
    for b in blocks:
        nf = 'fn(' in b
        out += [('fn z@(e: ea) { %s println(v) }' % (b % 'v := 1'), 'reject'), ('fn z@(e: ea) { %s v := 2 println(v) }' % (b % 'v := 1'), 'accept'), ('fn z@(e: ea) { v := 2 %s println(v) }' % (b % 'v := true println(v)'), 'accept'),
                ('fn z@(e: ea) { v := 2 %s x := v + 1 }' % (b % 'v := true'), 'accept'), ('fn z@(e: ea) { v := 2 %s x := v and true }' % (b % 'v := true'), 'reject'),
                ('fn z@(e: ea) { v := 2 %s }' % (b % 'v := true x := v and v'), 'accept'), ('fn z@(e: ea) { v := 2 %s }' % (b % 'v := true x := v + v'), 'reject'),
                ('fn z@(e: ea) { v := 2 %s }' % (b % 'x := v + v'), 'accept'), ('fn z@(e: ea) { v := 2 %s }' % (b % 'x := v and true'), 'reject'), ('fn z@(e: ea) { %s v := 2 }' % (b % 'x := v'), 'reject'),
                ('fn z@(e: ea) { %s }' % (b % 'v := 1 v := 2'), 'reject'), ('fn z@(e: ea) { %s %s }' % (b % 'v := 1', (b % 'v := true').replace('f :=', 'g :=')), 'accept'),
                ('fn z@(e: ea) { %s %s }' % (b % 'v := 1', (b % 'println(v)').replace('f :=', 'g :=')), 'reject'), ('fn z@(v: int, e: ea) { %s }' % (b % 'v := true x := v and true'), 'accept'),
                ('fn z@(v: int, e: ea) { %s x := v + 1 }' % (b % 'v := true'), 'accept'), ('fn z@(e: ea) { %s }' % (b % 'v := 1 if true { v := true x := v and v } y := v + 1'), 'accept'),
                ('fn z@(e: ea) { v := 1 %s }' % (b % 'w := v v := true x := v and true y := w + 1'), 'accept')]
    out += [('fn z@() { v := 1 v := 1 }', 'reject'), ('fn z@() { v := 1 v := true }', 'reject'), ('fn z@(v: int) { v := 1 }', 'reject'), ('fn z@(v: int, v: int) { }', 'reject'), ('fn z@(v: int, w: int, v: bool) { }', 'reject'),
            ('fn z@() { v := v }', 'reject'), ('fn z@() { for i in 0 .. 2 { } println(i) }', 'reject'), ('fn z@() { for i in 0 .. i { } }', 'reject'), ('fn z@() { for i in 0 .. 2 { i := 2 } }', 'reject'),
            ('fn z@() { i := true for i in 0 .. 2 { x := i + 1 } y := i and true }', 'accept'), ('fn z@(e: ea) { match e { case Ea1(a, b): { } case Ea2(): { println(a) } } }', 'reject'),
            ('fn z@(e: ea) { match e { case Ea1(a, b): { } case Ea2(): { } } println(a) }', 'reject'), ('fn z@(e: ea) { match e { case Ea1(a, a): { } case Ea2(): { } } }', 'reject'),
            ('fn z@(e: ea) { match e { case Ea1(a, b): { a := 1 } case Ea2(): { } } }', 'reject'), ('fn z@(e: ea, a: string) { match e { case Ea1(a, b): { x := a + 1 } case Ea2(): { println(a) } } }', 'accept'),
            ('fn z@() { f := fn(v: int) int = v println(v) }', 'reject'), ('fn z@(v: bool) { f := fn(v: int) int = v + 1 x := v and true }', 'accept'), ('fn z@() { f := fn(v: int, v: int) int = v }', 'reject'),
            ('fn z@() { f := fn(v: int) { v := 1 } }', 'reject'), ('fn z@() { println(v) v := 1 }', 'reject'), ('fn z@() { v := 1 if v == 1 { v := "s" println(v) } v = 2 }', 'accept'),
            ('fn z@() { v := 1 if v == 1 { v := "s" v = 2 } }', 'reject'), ('fn z@() { if true { v := 1 } else { v := "s" println(v) } }', 'accept'), ('fn z@() { if true { v := 1 } else { println(v) } }', 'reject'),
            ('fn z@() { if true { v := 1 } elseif v == 1 { } }', 'reject'), ('fn z@() { while v == 1 { v := 1 } }', 'reject'), ('fn z@«T»(p: T) { } fn z@y(p: T) { }', 'reject'), ('fn z@«T,T»(p: T) { }', 'reject')]
    # overloads: all reachable, whatever the order
    ts = ['int', 'bool', 'string', '[]int', 'sa', 'fn(int) int']
    for n in range(2, 7):
        for rot in range(n):
            sel = ts[:n]
            sel = sel[rot:] + sel[:rot]
            decl = ' '.join('fn o@(p: %s) %s = p' % (t, t) for t in sel)
            out.append((decl + ' ' + ' '.join('fn z@%s(p: %s) %s = o@(p)' % ('abcdef'[i], t, t) for i, t in enumerate(sel)), 'accept'))
            out.append((decl + ' fn z@(p: eb) { x := o@(p) }', 'reject'))
            out.append((decl + ' fn z@(p: %s) %s = o@(p)' % (sel[-1], sel[0]), 'reject'))
    out += [('fn o@() int = 1 fn o@(a: int) bool = true fn o@(a: int, b: int) string = "s" fn z@a() int = o@() fn z@b() bool = o@(1) fn z@c() string = o@(1, 2)', 'accept'),
            ('fn o@() int = 1 fn o@(a: int) bool = true fn z@() bool = o@()', 'reject'), ('fn z@() { z@q := 1 } fn z@q() int = 1', 'accept'), ('fn o@() int = 1 fn z@() { o@ := true x := o@ and true }', 'accept')]
    return out


def closures():
    """C08 (acceptance side): a function literal may use every outside variable, up to the limit of six"""
    out = []
    for n in range(0, 9):
        ps = ', '.join('p%d: int' % i for i in range(n))
        body = ' + '.join(['1'] + ['p%d' % i for i in range(n)])
        if n <= 6:
            out.append(('fn z@(%s) { f := fn() int = %s }' % (ps, body), V(n <= 6)))
        d = ' '.join('v%d := %d' % (i, i) for i in range(n))
        out.append(('fn z@() { %s f := fn() int = %s }' % (d, ' + '.join(['1'] + ['v%d' % i for i in range(n)])), V(n <= 6)))
        if n:
            for blk in ('if true { %s }', 'if false { } elseif true { %s }', 'if false { } else { %s }', 'while false { %s }', 'for i in 0 .. 2 { %s }', 'match e { case Ea1(q1, q2): %s case Ea2(): println(1) }', '%s'):
                # variables of the function itself are not captured, however many
                out.append(('fn z@(e: ea) { f := fn() { %s } f() }' % (blk % ' '.join('v%d := %d v%d = v%d + 1 println(v%d)' % ((i,) * 5) for i in range(n))).replace('match e', 'match Ea1(1, true)'), 'accept'))
        out.append(('fn z@() { %s f := fn() { %s } }' % (d, ' '.join('println(v%d) v%d = 1' % (i, i) for i in range(n))), V(n <= 6)))
    return out


class Batch:
    def __init__(self, work):
        self.work = work
        self.clarac = tools.compiler(work)
        self.n = 0

    def compile(self, src, link=False):
        """-> (status, text)"""
        self.n += 1
        d = os.path.join(self.work, 'grid%d' % self.n)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, 'prog.clara')
        with open(f, 'w', encoding='utf-8') as h:
            h.write(src)
        env = tools.goenv()
        env['TMPDIR'] = d
        try:
            r = subprocess.run([self.clarac, '-install', os.path.join(tools.REPO, 'install'), '-prog', f, '-out', d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=240)
        except subprocess.TimeoutExpired:
            return 99, 'the compiler does not terminate within 240 s'
        return r.returncode, r.stdout.decode('utf-8', 'replace')

    def solo(self, src, want):
        """what is wrong, or None"""
        rc, txt = self.compile(PRE + src + '\n')
        if want == 'reject':
            if rc == 0:
                return 'the compiler accepts the program (it must reject it)'
            if rc != 1 or 'Errors' not in txt:
                return 'the compiler fails instead of reporting an error (status %d): %s' % (rc, txt[-400:])
        elif rc != 0:
            return 'the compiler rejects the program (it must accept it, status %d): %s' % (rc, txt[-400:])
        return None

    def run(self, grid):
        """-> [(snippet, verdict, message)]"""
        grid = [(bare(s).replace('@', str(i)), v) for i, (s, v) in enumerate(grid)]
        sus = []
        for want in ('reject', 'accept'):
            part = [g for g in grid if g[1] == want]
            if want == 'accept':
                part = [g for g in part if g not in [x for x in sus]]
                self.bisect(part, sus)
                continue
            rc, txt = self.compile(PRE + '\n'.join(g[0] for g in part) + '\n')
            lines = {int(m.group(1)) for m in re.finditer(r'prog\.clara:(\d+)', txt)}
            if rc != 1 or not lines:
                # a crash, or an early stop: halves
                self.rejects(part, sus)
                continue
            left = [g for k, g in enumerate(part) if NPRE + k + 1 not in lines]
            while len(left) > 3:
                # a pass that reports errors stops the compiler before the next pass
                rc, txt = self.compile(PRE + '\n'.join(g[0] for g in left) + '\n')
                lines = {int(m.group(1)) for m in re.finditer(r'prog\.clara:(\d+)', txt)}
                rest = [g for k, g in enumerate(left) if NPRE + k + 1 not in lines]
                if len(rest) == len(left):
                    break
                left = rest
            sus += left[:200]
        bad = []
        for g in sus:
            m = self.solo(*g)
            if m:
                bad.append((g[0], g[1], m))
                if len(bad) >= 20:
                    break
        return bad

    def rejects(self, part, sus):
        if len(part) <= 4:
            sus += part
            return
        h = len(part) // 2
        for q in (part[:h], part[h:]):
            rc, txt = self.compile(PRE + '\n'.join(g[0] for g in q) + '\n')
            lines = {int(m.group(1)) for m in re.finditer(r'prog\.clara:(\d+)', txt)}
            if rc == 1 and lines:
                sus += [g for k, g in enumerate(q) if NPRE + k + 1 not in lines][:100]
            else:
                self.rejects(q, sus)
            if len(sus) > 300:
                return

    def bisect(self, part, sus):
        if not part or len(sus) > 300:
            return
        rc, txt = self.compile(PRE + '\n'.join(g[0] for g in part) + '\n')
        if rc == 0:
            return
        if len(part) <= 2:
            sus += part
            return
        lines = {int(m.group(1)) for m in re.finditer(r'prog\.clara:(\d+)', txt)}
        hit = [g for k, g in enumerate(part) if NPRE + k + 1 in lines]
        if rc == 1 and hit and len(hit) < len(part):
            sus += hit[:100]
            rest = [g for g in part if g not in hit]
            return self.bisect(rest, sus)
        h = len(part) // 2
        self.bisect(part[:h], sus)
        self.bisect(part[h:], sus)


def check(grid, work):
    b = Batch(work)
    return len(grid), [({'name': 'grid', 'src': s, 'want': v}, m) for s, v, m in b.run(grid)]


def recheck(cases, work):
    b = Batch(work)
    out = []
    for c in cases:
        m = b.solo(c['src'], c['want'])
        if m:
            out.append((c, m))
    return out
