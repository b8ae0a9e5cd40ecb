from .common import *
from gv import parsev, refparse as rf
from .c02 import check, recheck
TRUSTED = ENGINE
ASSUME = ['the token list given to the parser ends with one end-of-file token (C01)', 'the channel between lexer and parser delivers the tokens in order (Go runtime)']
W = {'sound', 'complete', 'tree', 'error', 'progress'}
NOTE = '''Every parse function has a contract: started at any token of any token sequence it either reports an error and leaves the errors found so far
in place, or consumes a sequence of tokens its grammar rule derives and returns the tree of it; it reports an error only where the rule cannot go on
(derivatives and FIRST sets of the rule); it makes progress. Callers use the contracts of the functions they call. Loops are explored until
(position in the rule, error state) repeats, so lists of every length are covered. The file loop's contract is the statement of the property.
'dirty' sections start with errors already present.'''
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real parser against a grammar, recursion by contract, loops explored to a fixed point'


def sections(p, tier, work):
    out = [S('parseExpr', parsev.expr, want=W), S('parseExpr after an error', parsev.expr, dirty=True, want=W)]
    for w in parsev.FUNCS:
        out += [S('parse %s' % w, parsev.function, w, want=W), S('parse %s after an error' % w, parsev.function, w, dirty=True, want=W)]
    return out + [S('parse file', parsev.parsefile, want=W), S('match/need/next', parsev.primitives, want=W), S('Compile', dv.passes, want=None)]


def cases(tier, seed):
    return rpcases('C03')


def extra(tier, seed, work):
    n, bad, err = check(rf.files(*((1500, seed, .06) if tier == 'quick' else (30000, seed, 1))), work)
    if err:
        BOUNDED.append('the harness does not build on this tree: ' + err[:200])
    return n, bad


BOUNDED = []
