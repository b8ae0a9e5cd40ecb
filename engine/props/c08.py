from .common import *
from gv import closv as cv, grid
from gv import sizes
TRUSTED = ENGINE
ASSUME = ['every identifier carries the symbol it refers to and every block the scope that owns its variables (C07)', 'the constructed environment keeps what it was constructed with (C13)']
W = {'closure', 'walk'}
NOTE = '''The search for free variables is verified one step at a time from an arbitrary path, and on whole bodies with every kind of node around the use; the rewriting is
verified to redirect exactly the uses of captured variables to the environment's field of that variable; the environment struct, its construction and the call through it
are verified for every number of captured variables; the tree walk the pass relies on visits every node.'''
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real closure conversion'
BOUNDED = ['whole-body search: uses at most two constructs deep (the step contract has no such bound)', 'captured-variable counts 0-3, 6 and 7']


def sections(p, tier, work):
    out = [S('clIdentifyFreeVars', cv.freevars, None, want=W)] + [S('clIdentifyFreeVars[%s]' % o, cv.freevars, o, want=W) for o in cv.OPENS + ['opFuncCall', 'opDot']]
    if tier != 'quick':
        out += [S('clIdentifyFreeVars[%s]' % o, cv.freevars, o, want=W) for o in sorted(cv.SHAPES) if o not in cv.OPENS + ['opFuncCall', 'opDot']]
    out += [S('clIdentifyFreeVars[several uses]', cv.several, want=W), S('free variable search step', cv.enter, want=W), S('rewriting of captured uses', cv.rewrite, want=W),
            S('environment struct', cv.genstruct, want=W), S('invokeDynamic', cv.dynamic, want=W), S('copyNode', cv.copynode, want=W)]
    return caps(out + [S('rewriteAnonFnAndClosures[%d captured]' % k, cv.convert, k, want=W) for k in (0, 1, 2, 3, 6, 7)] + [S('Walk', cg2.walk, want=None), S('Compile', dv.passes, want=None)], tier)


def cases(tier, seed):
    return rpcases('C08') + sizes.captured() + rnd(tier, seed + 8, 80, 'fn arr string shadow struct enum')


def extra(tier, seed, work):
    return grid.check(grid.closures(), work)


recheck = grid.recheck
