from .common import *
from gv import sizes
TRUSTED = ENGINE + X86
ASSUME = ['GNU as gives each line its documented meaning']


def sections(p, tier, work):
    return [S('peep.ins machine', cg2.peepins), S('peep.ins', cg2.peepsym), S('peep forwarding', cg2.peepchain), S('assembler text', cg2.asmtext)]


def cases(tier_, seed):
    return rpcases('C15') + sizes.literals() + sizes.many() + sizes.roots() + rnd(tier_, seed + 2, 150)
