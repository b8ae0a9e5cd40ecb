from .clara import *
from .common import ENGINE
from gv import sizes
TRUSTED = ENGINE + X86 + TRUSTED
BACKEND = 'z3 (python bindings) over symbolic execution of the SSA of /repo, and of the typed tree of the Clara library'
ASSUME = ASSUME_CG
W = {'bounds', 'order', 'res', 'field'}

ARRAYS = [('default', 'array(length, default)'), ('option', 'array(length)'), ('string', 'stringArray'), ('int', 'intArray'), ('noinit', 'arrayNoInit')]


def sections(p, tier, work):
    lib = library(work)
    return [S('%s[%s]' % (w, mode), libv.arrays, lib, mode, k) for mode in ('all', 'small') for k, w in ARRAYS] + [S('genExpr[index]', cg.index, want=W), S('genIoobTrampoline', cg2.primitives, want={'bounds'}), S('genAssignStmt', cg.assign, want={'assign', 'order'})]


def cases(tier_, seed):
    return rpcases('C11') + sizes.bounds() + rnd(tier_, seed, 200, 'arr string')
