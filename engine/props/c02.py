from .common import *
from gv import parsev, front, refparse as rf
TRUSTED = ENGINE
ASSUME = ['the token list given to the parser is the one the lexer emitted (C01)',
          'the operands of an operator are told apart by position: an operand starts where its operator ends']
W = {'prec', 'tree', 'sound', 'complete', 'progress'}
NOTE = '''parseExpr is verified against a contract that is itself the precedence statement: called with bound m at any token, it returns a tree
whose exposed left and right operators bind at least as tightly as m, consumed exactly the tokens the tree shows, in order, and stopped before a token
that could not continue it at this bound. Recursive calls use that contract (any bound 0..13), the operator loop is explored until its state
repeats, so operator chains of every length and nesting are covered. The corollary "the tree is the one the table prescribes" is uniqueness of such a tree.'''
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real expression parser, recursion by contract, loop explored to a fixed point'


def sections(p, tier, work):
    return [S('parseExpr', parsev.expr, want=W)]


def cases(tier, seed):
    return rpcases('C02')


def check(lists, work):
    f, err = front.try_front(work)
    if f is None:
        return 0, [], err
    bad = []
    for t, r in zip(lists, f.dump('parse', [rf.text(t) for t in lists])):
        m = rf.judge(t, r)
        if m:
            bad.append(({'name': 'tokens-%s' % rf.text(t).decode()[:40], 'toks': t}, m))
    return len(lists), bad, None


def extra(tier, seed, work):
    n, bad, err = check(rf.exprs(1500 if tier == 'quick' else 60000, seed), work)
    if err:
        BOUNDED.append('the harness does not build on this tree: ' + err[:200])
    return n, bad


def recheck(cases, work):
    return check([[tuple(x) for x in c['toks']] for c in cases], work)[1]


BOUNDED = []
