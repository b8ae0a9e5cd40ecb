from .common import *
from gv import declv as dv, grid
from .c04 import sigs
TRUSTED = ENGINE
ASSUME = ['the tree has the shape the parser gives it (C03): a match holds its cases, an if its else chain']
W = {'return'}
NOTE = '''The predicate "always returns" is verified on every kind of statement: it is true of a statement exactly when the statement is a return, or an if chain ending in
else, or a match, each of whose bodies ends in such a statement (bodies of unknown content by contract), and the declaration pass reports a missing return exactly when
a block function with a result does not satisfy it.'''
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real return analysis, recursion by contract'
BOUNDED = ['if chains of at most 5 (thorough: 7) further branches are explored branch by branch']


def sections(p, tier, work):
    out = sigs(W) + [S('terminating[%s]' % o, dv.terminating, o, want=W) for o in ['opReturn', 'opCase', 'opMatch', 'opBlockFnDcl'] + dv.LEAF]
    return caps(out + [S('terminating[opIf, %d branches]' % k, dv.terminating, 'opIf', k, want=W) for k in range(6 if tier == 'quick' else 8)], tier)


def cases(tier, seed):
    return rpcases('C06')


def extra(tier, seed, work):
    return grid.check(grid.returns(), work)


recheck = grid.recheck
