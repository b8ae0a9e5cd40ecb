"""Generated replay programs, with the expected output computed here (an independent reading of the property)."""
import random

MASK = (1 << 63) - 1


def w63(v):
    v &= MASK
    return v - (1 << 63) if v >> 62 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


INT = {'+': lambda a, b: w63(a + b), '-': lambda a, b: w63(a - b), '*': lambda a, b: w63(a * b), '&': lambda a, b: a & b, '|': lambda a, b: a | b,
       '^': lambda a, b: a ^ b, '/': lambda a, b: w63(tdiv(a, b)), '<<': lambda a, b: w63(a << (b & 63)), '>>': lambda a, b: a >> (b & 63)}
CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b}
VALS = [0, 1, -1, 2, -2, 3, 7, -7, 10, 62, 63, 64, 255, -256, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**32 + 1, 2**61, -2**61, 2**62 - 1, -2**62,
        1234567890123, -98765432109876]
NAMES = {'+': 'add', '-': 'sub', '*': 'mul', '&': 'band', '|': 'bor', '^': 'bxor', '/': 'div', '<<': 'shl', '>>': 'shr', '<': 'lt', '<=': 'lte', '>': 'gt',
         '>=': 'gte', '==': 'eq'}


def b(x):
    return 'true' if x else 'false'


def case(name, src, out, **kw):
    d = {'name': name, 'src': src, 'out': out, 'expect': 'run', 'rc': 0, 'env': {}}
    d.update(kw)
    return d


def reject(name, src, **kw):
    d = {'name': name, 'src': src, 'out': None, 'expect': 'reject', 'rc': 0, 'env': {}}
    d.update(kw)
    return d


def c09(tier, seed):
    rnd = random.Random(seed)
    vals = VALS + [rnd.randrange(-2**62, 2**62) >> rnd.randrange(0, 62) for _ in range(6 if tier == 'quick' else 30)]
    out = []
    for op, f in list(INT.items()) + list(CMP.items()):
        isint = op in INT
        src = ['fn %s(a: int, b: int) %s = a %s b' % (NAMES[op] + 'op', 'int' if isint else 'bool', op), 'fn id(x: int) int = x']
        body, exp = [], []
        for x in vals:
            for y in vals:
                if op == '/' and y == 0:
                    continue
                r = f(x, y)
                exp.append(str(r) if isint else b(r))
                body.append('  println(%sop(%d, %d))' % (NAMES[op], x, y))
        # split over several functions: one frame each
        fns = []
        for i in range(0, len(body), 60):
            src.append('fn part%d() {\n%s\n}' % (i // 60, '\n'.join(body[i:i + 60])))
            fns.append('  part%d()' % (i // 60))
        # the same operator with literal and with call operands
        for x, y in ((7, 3), (-7, 3), (7, -3), (2**62 - 1, 5), (-2**62, 1), (1 << 40, 13), (3, 3)):
            r = f(x, y)
            for sx, sy in (('%d', '%d'), ('id(%d)', '%d'), ('%d', 'id(%d)'), ('id(%d)', 'id(%d)')):
                fns.append('  println(%s %s %s)' % (sx % x if x >= 0 or 'id' in sx else '(%s)' % (sx % x), op, sy % y if y >= 0 or 'id' in sy else '(%s)' % (sy % y)))
                exp.append(str(r) if isint else b(r))
        src.append('fn main() {\n%s\n}' % '\n'.join(fns))
        out.append(case('op-' + NAMES[op], '\n'.join(src) + '\n', exp))
    # unary, booleans
    src = ['fn ng(a: int) int = -a', 'fn bn(a: int) int = ~a', 'fn nt(a: bool) bool = not a', 'fn an(a: bool, b: bool) bool = a and b', 'fn orr(a: bool, b: bool) bool = a or b']
    body, exp = [], []
    for x in vals:
        body.append('  println(ng(%d))' % x); exp.append(str(w63(-x)))
        body.append('  println(bn(%d))' % x); exp.append(str(~x))
        body.append('  println(%d)' % x); exp.append(str(x))
    for x in (True, False):
        body.append('  println(nt(%s))' % b(x)); exp.append(b(not x))
        for y in (True, False):
            body.append('  println(an(%s, %s))' % (b(x), b(y))); exp.append(b(x and y))
            body.append('  println(orr(%s, %s))' % (b(x), b(y))); exp.append(b(x or y))
    src.append('fn main() {\n%s\n}' % '\n'.join(body))
    out.append(case('op-unary-bool-literal', '\n'.join(src) + '\n', exp))
    # order of evaluation, each operand once
    body, exp = [], []
    for op in list(INT) + list(CMP):
        x, y = 12, 5
        body.append('  println(t("l", 12) %s t("r", 5))' % op)
        r = (INT.get(op) or CMP[op])(x, y)
        exp += ['l', 'r', str(r) if op in INT else b(r)]
    for op, f in (('and', lambda a, c: a and c), ('or', lambda a, c: a or c)):
        for x in (True, False):
            for y in (True, False):
                body.append('  println(u("l", %s) %s u("r", %s))' % (b(x), op, b(y)))
                exp += ['l', 'r', b(f(x, y))]
    body.append('  println(-t("n", 4))'); exp += ['n', '-4']
    body.append('  println(~t("n", 4))'); exp += ['n', '-5']
    body.append('  println(not u("n", true))'); exp += ['n', 'false']
    out.append(case('op-order', 'fn t(s: string, v: int) int {\n  println(s)\n  return v\n}\nfn u(s: string, v: bool) bool {\n  println(s)\n  return v\n}\nfn main() {\n%s\n}\n' % '\n'.join(body), exp))
    # random nested expressions over variables, checked against Python
    def expr(d):
        if d == 0:
            k = rnd.randrange(3)
            if k == 0:
                v = rnd.choice(VALS)
                return ('(%d)' % v if v < 0 else str(v)), v
            n, v = rnd.choice([('x', 17), ('y', -5), ('z', 2**61 + 3)])
            return (n, v) if k == 1 else ('id(%s)' % n, v)
        op = rnd.choice(list(INT))
        l, a = expr(rnd.randrange(d))
        r, c = expr(rnd.randrange(d))
        if op == '/' and c == 0:
            op = '+'
        if op in ('<<', '>>'):
            r, c = str(c & 31), c & 31
        return '(%s %s %s)' % (l, op, r), INT[op](a, c)
    body, exp = [], []
    for _ in range(60 if tier == 'quick' else 400):
        s, v = expr(4)
        body.append('  println(%s)' % s)
        exp.append(str(v))
    parts = []
    src = ['fn id(x: int) int = x']
    for i in range(0, len(body), 40):
        src.append('fn part%d(x: int, y: int, z: int) {\n%s\n}' % (i // 40, '\n'.join(body[i:i + 40])))
        parts.append('  part%d(17, -5, %d)' % (i // 40, 2**61 + 3))
    src.append('fn main() {\n%s\n}' % '\n'.join(parts))
    out.append(case('op-nested', '\n'.join(src) + '\n', exp))
    # literals which do not fit
    for t in ('4611686018427387904', '9223372036854775807', '9223372036854775808', '99999999999999999999999', '-4611686018427387905', '0x4000000000000000', '0xffffffffffffffffff'):
        out.append(reject('literal-' + t.replace('-', 'm'), 'fn main() {\n  println(%s)\n}\n' % t))
    lits = [('0x0', 0), ('0xff', 255), ('0x3fffffffffffffff', 2**62 - 1), ('4611686018427387903', 2**62 - 1), ('-4611686018427387904', -2**62), ('2147483647', 2**31 - 1),
            ('2147483648', 2**31), ('-2147483648', -2**31), ('-2147483649', -2**31 - 1), ('1073741823', 2**30 - 1), ('1073741824', 2**30), ('4294967295', 2**32 - 1), ('-0', 0)]
    out.append(case('literals', 'fn main() {\n%s\n}\n' % '\n'.join('  println(%s)' % t for t, _ in lits), [str(v) for _, v in lits]))
    return out
