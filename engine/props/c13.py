from .common import *
from gv import sizes
TRUSTED = ENGINE + X86
ASSUME = ASSUME_CG
W = {'cons', 'field', 'assign', 'order', 'res'}


def sections(p, tier, work):
    return cons(W) + [S('genExpr[field]', cg.dot, want=W), S('genAssignStmt', cg.assign, want=W)] + lowering(W | {'flow'}, 'match', 'layout', 'array') + [S('Walk', cg2.walk, want=None), S('Compile', dv.passes, want=None)]


def cases(tier_, seed):
    return rpcases('C13') + sizes.enums() + sizes.structs() + sizes.arrays() + rnd(tier_, seed, 200, 'struct enum arr gen string')
