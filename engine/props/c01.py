from .common import *
from gv import lexv, front, reflex
TRUSTED = ENGINE
ASSUME = ['utf8.DecodeRuneInString returns a width of 1 to 4 within the text, 1 for ASCII; unicode.IsLetter and IsDigit are disjoint, and on ASCII as their documentation says',
          'strings.Count counts the occurrences it is asked for', 'the channel between lexer and reader delivers the tokens in order (Go runtime)',
          'column numbers are not part of the property']
W = {'munch', 'lossless', 'kind', 'line', 'safe', 'stream'}
NOTE = '''For every class of first character a contract says which token stands at position s of an arbitrary text (rune and width are
uninterpreted functions of the position, the length is a free integer); the code is executed from the main state and must emit exactly that token.
Scanning loops are cut by an invariant, so every token length is covered; each step consumes text, which gives termination.
Induction over s (from Lex's contract: s = 0) then gives the statement for the whole text.'''
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real lexer over an arbitrary text, loop invariants, z3'


def sections(p, tier, work):
    first = ['word', 'string', 'zero']
    return [S('lex[%s]' % c, lexv.token, c, want=W) for c in first + [c for c in lexv.CLASSES if c not in first]] + [S('lex stream', lexv.stream, want=W)]


def cases(tier, seed):
    return rpcases('C01')


def check(texts, work):
    f, err = front.try_front(work)
    if f is None:
        return 0, [], err
    bad = []
    for t, r in zip(texts, f.dump('lex', texts)):
        m = reflex.judge(t, r)
        if m:
            bad.append(({'name': 'text-%r' % t[:40], 'text': t.decode('latin-1')}, m))
    return len(texts), bad, None


def extra(tier, seed, work):
    n, bad, err = check(reflex.inputs(4000 if tier == 'quick' else 80000, seed), work)
    if err:
        BOUNDED.append('the harness does not build on this tree: ' + err[:200])
    return n, bad


def recheck(cases, work):
    return check([c['text'].encode('latin-1') for c in cases], work)[1]


BOUNDED = []
