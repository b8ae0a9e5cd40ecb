from .common import *
from . import gen
from gv import sizes
TRUSTED = ENGINE + X86
ASSUME = ASSUME_CG + ['division: the divisor is not zero (a zero divisor raises SIGFPE)']
W = {'res', 'order', 'regs', 'stack'}


def sections(p, tier, work):
    out = [S('genExpr[%s]' % op, cg.binary, op, want=W) for op in list(cg.INTOPS) + list(cg.CMPOPS) + list(cg.BOOLOPS)]
    out += [S('genExpr[%s]' % op, cg.unary, op, want=W) for op in ('opNot', 'opBNot', 'opNeg')]
    out += [S('genExpr[literal %s]' % k, cg.literal, k, want=W) for k in ('int', 'bool')]
    out += [S('genExpr[identifier]', cg.ident, want=W)]
    return out + lowering(W, 'fold') + [S('Walk', cg2.walk, want=None), S('Compile', dv.passes, want=None)]


def cases(tier_, seed):
    return rpcases('C09') + sizes.shapes() + gen.c09(tier_, seed) + rnd(tier_, seed, 150, 'string')
