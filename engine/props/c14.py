from .common import *
from gv import sizes
TRUSTED = ENGINE + X86
ASSUME = ASSUME_CG
W = {'flow', 'order', 'res'}


def sections(p, tier, work):
    return [x for x in funcs(W) if 'expr' not in x[0]] + [S('genExpr[ternary]', cg.ternary, want=W)] + [x for x in stmts(W) if x[0] != 'genAssignStmt'] + lowering(W, 'for', 'match') + [S('Walk', cg2.walk, want=None), S('Compile', dv.passes, want=None)]


def cases(tier_, seed):
    return rpcases('C14') + sizes.flows() + sizes.arrays() + rnd(tier_, seed, 250, 'arr enum string')
