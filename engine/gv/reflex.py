"""Reference lexer: judges a token stream of the real lexer against the text (used for concrete inputs only)."""
import random, unicodedata
from .lexv import SINGLE, DOUBLE, KEYS, AFTERWORD

ONE = dict(SINGLE)
TWO = {c: (k, dict(a)) for c, k, a in DOUBLE}


def runes(b):
    """[(char or U+FFFD, width)] as Go decodes"""
    out, i = [], 0
    while i < len(b):
        for w in (1, 2, 3, 4):
            try:
                c = b[i:i + w].decode('utf-8')
                if len(c) == 1 and i + w <= len(b):
                    out.append((c, w))
                    i += w
                    break
            except UnicodeDecodeError:
                pass
        else:
            out.append(('\ufffd', 1))
            i += 1
    return out


def letter(c):
    return c == '_' or unicodedata.category(c)[0] == 'L'


def digit(c):
    return unicodedata.category(c) == 'Nd'


def expect(rs, i):
    """-> (kind, number of runes, errors-allowed) for the token at i; kind Err when only an error will do"""
    if i >= len(rs):
        return 'EOF', 0, False
    c = rs[i][0]
    at = lambda k: rs[k][0] if k < len(rs) else ''
    if c in '\r\n':
        return 'EOL', 1, False
    if c == ' ':
        j = i
        while at(j) == ' ':
            j += 1
        return 'Space', j - i, False
    if c in TWO:
        k, alts = TWO[c]
        return (alts[at(i + 1)], 2, False) if at(i + 1) in alts else (k, 1, False)
    if c == '/':
        if at(i + 1) != '/':
            return 'Div', 1, False
        j = i
        while at(j) and at(j) not in '\r\n':
            j += 1
        return 'Comment', j - i, False
    if c == '"':
        j = i + 1
        while at(j) not in ('', '"', '\n'):
            if at(j) == '\\':
                if at(j + 1) == '' or at(j + 1) not in 'rn\\"':
                    return 'Err', 0, True
                j += 1
            j += 1
        return ('String', j + 1 - i, False) if at(j) == '"' else ('Err', 0, True)
    if c in '0123456789':
        if c == '0' and at(i + 1) == 'x':
            j = i + 2
            while at(j) and (digit(at(j)) or at(j) in 'abcdefABCDEF'):
                j += 1
            return ('Integer', j - i, False) if j > i + 2 else ('Err', 0, True)
        j = i
        while at(j) and digit(at(j)):
            j += 1
        return 'Integer', j - i, False
    if c in ONE:
        return ONE[c], 1, False
    if letter(c):
        j = i
        while at(j) and (letter(at(j)) or digit(at(j))):
            j += 1
        w = ''.join(x for x, _ in rs[i:j])
        return KEYS.get(w, 'Identifier'), j - i, at(j) != '' and at(j) not in AFTERWORD
    return 'Err', 0, True


def judge(text, res):
    if 'crash' in res or 'panic' in res:
        return 'the lexer fails: %s' % (res.get('crash') or res.get('panic'))
    rs = runes(text)
    off, o = [], 0
    for _, w in rs:
        off.append(o)
        o += w
    off.append(o)
    i, line = 0, 1
    toks = res['tokens']
    for n, (kind, val, ln, _) in enumerate(toks):
        want, k, erralso = expect(rs, i)
        where = 'token %d, at byte %d of %r' % (n + 1, off[i], text)
        if ln != line:
            return '%s: line %d reported, it starts on line %d' % (where, ln, line)
        if kind == 'Err':
            if not erralso:
                return '%s: an error is reported, the text holds %s' % (where, want)
            return None if n == len(toks) - 1 else 'tokens after the error'
        if kind != want:
            return '%s: kind %s, the text holds %s' % (where, kind, want)
        got = bytes(val)
        if got != text[off[i]:off[i + k]]:
            return '%s: value %r, the longest token is %r' % (where, got, text[off[i]:off[i + k]])
        line += got.count(b'\n')
        i += k
        if kind == 'EOF':
            return None if n == len(toks) - 1 else 'tokens after the end'
    return 'the stream does not end: %d tokens for %r' % (len(toks), text)


PIECES = (list(KEYS) + ['x', 'fnx', 'iff', 'in2', '_a', 'T1', 'ß', 'elseif', 'else if', '0', '007', '12', '0x1F', '0xg', '0x', '9a', '"a"', '"\\n\\"x"', '"\\q"', '"ab', '"\\',
                       '"«é"', '""', '//', '// c "x"', '/', '\n', '\r\n', '\r', ' ', '   ', '..', '...', '.', ':=', ':', '=', '==', '===', '>', '>>', '>=', '>>=', '<', '<<', '<=', '«', '»',
                       '(', ')', '{', '}', '[', ']', '#', '?', ',', '+', '-', '--', '*', '~', '^', '|', '&', '!', '$', '\t', '@', ';', '\'', '\\', '%', '\x00', 'é', '日本', '٣', '\ufeff', '€'])


def inputs(n, seed):
    r = random.Random(seed)
    raw = [b'\xff', b'\xc2', b'\xe2\x82', b'"\xff"', b'// \xff\xfe', b'\xc2\xab']
    out = [p.encode('utf-8', 'surrogatepass') for p in PIECES] + raw
    out += [(a + b).encode() for a in PIECES for b in (' ', '\n', '(', '.', ')', ',', '»', 'x', '1', '=')]
    out += [(a + '\n' + b).encode() for a in ('"a', '// c', 'x', '12', '0x', ':', '>') for b in ('"', 'x', '=', '> ')]
    for _ in range(n):
        parts = []
        for _ in range(r.randint(1, 14)):
            x = r.choice(PIECES) if r.random() < 0.97 else None
            parts.append(r.choice(raw) if x is None else x.encode())
            if r.random() < 0.55:
                parts.append(r.choice([b' ', b'\n', b' ', b'  ']))
        out.append(b''.join(parts))
    for _ in range(n // 4):
        out.append(b' '.join(r.choice(PIECES).encode() for _ in range(40)))
    return out
