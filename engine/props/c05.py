from .common import *
from gv import semv as sv, declv as dv, grid
from .c04 import matching
TRUSTED = ENGINE
ASSUME = ['two types are interchangeable as C04 says', 'names resolve as C07 says', 'a sub-expression has, once checked without error, the type its own rule gives it (the contract of typeCheck, proved for every kind of node)']
W = {'typing', 'passes', 'overload'}
NOTE = '''typeCheck is verified one kind of node at a time, with its own recursive calls replaced by its contract (each sub-node is checked and yields errors or a
type): for every combination of operand types the node is accepted exactly when its rule holds, gets the type the rule gives, and every error of a part is
reported. Compile itself is verified to stop on any error of any pass, before anything is generated.'''
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real type checker, recursion by contract'
BOUNDED = ['matches with up to 3 cases (one case with arbitrary variables, 2-3 for coverage and duplicates)', 'at most 3 overloaded arguments per call (1 from 4 arguments on)', 'overload chains of at most 3 functions']


def sections(p, tier, work):
    T = lambda n, f, *a: S('typeCheck[%s]' % n, f, *a, want=W)
    out = [T('match 1 case %d %d' % mg, sv.match, 1, True, *mg) for mg in ((2, 1), (1, 2), (1, 1), (1, 0), (0, 0))]
    out += [T('call of %s, %s' % (o, q), sv.call, None, q, o) for o in sv.CALLABLE + ['opAdd'] for q in ('args', 'types')]
    out += [T('%s, %s' % (s, q), sv.call, s, q) for s in ('printf', 'debug', 'unsafe') for q in ('args', 'types') if s != 'unsafe' or q == 'args']
    out += [T('match 3 cases', sv.match, 3, False), T('match 2 cases', sv.match, 2, False), T('match 0 cases', sv.match, 0, False)]
    out += [T(o, sv.binary, o) for o in sv.ARITH + sv.LOGIC + sv.CMP] + [T(o, sv.unary, o) for o in ('opNot', 'opBNot', 'opNeg')]
    out += [T('ternary', sv.ternary), T('index', sv.index), T('array literal', sv.arraylit)] + [T(o, sv.loop, o) for o in ('opWhile', 'opIf', 'opElseIf', 'opElse', 'opBlock')]
    out += [T('for', sv.forloop), T('return', sv.ret), T('literal', sv.literal), T('identifier', sv.identifier), T('identifier, overloaded', sv.identifier, True), T('declaration', sv.declare),
            T('assignment', sv.assign), T('file', sv.root)]
    out += [T(o, sv.function, o) for o in ('opBlockFnDcl', 'opExprFnDcl', 'opExternFnDcl', 'opConsFnDcl')]
    out += [T('dot %s' % w, sv.dot, w) for w in ('field', 'other', 'call', 'index')] + [T('type node', sv.typenode), S('Compile', dv.passes, want=W)]
    return caps(out, tier)


def cases(tier, seed):
    return rpcases('C05') + rnd(tier, seed + 5, 40)


def extra(tier, seed, work):
    return grid.check(grid.typing() + grid.lost(), work)


recheck = grid.recheck
