from .common import *
from gv import sizes
TRUSTED = ENGINE + X86
ASSUME = ASSUME_CG + ['external C functions follow the System V ABI']
W = {'call', 'regs', 'stack', 'align', 'order', 'var'}


def sections(p, tier, work):
    return calls(W, tier == 'thorough') + cons({'align', 'regs', 'stack', 'call'}) + funcs(W) + exprs({'regs', 'stack', 'align'}) + [x for x in stmts({'stack', 'regs', 'align'}) if x[0] != 'genStmtList'] + [
        S('runtime entry and primitives', cg2.primitives, want={'align', 'regs', 'stack', 'call', 'prim'})]


def cases(tier_, seed):
    return rpcases('C10') + sizes.roots() + sizes.captured()[:1] + sizes.many() + rnd(tier_, seed, 250, 'fn arr struct gen string')
