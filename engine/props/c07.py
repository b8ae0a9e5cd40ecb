from .common import *
from gv import semv as sv, declv as dv, grid
from .c04 import matching, sigs, toplevels
TRUSTED = ENGINE
ASSUME = ['the parser places every statement in the construct it is written in (C03)']
W = {'scope', 'overload'}
NOTE = '''The symbol table methods are verified against the meaning of a chain of scopes (any number of enclosing scopes, any contents); typeCheck and the declaration
passes are then verified, for every kind of node, to define each variable in the scope the language gives it, to look names up in the scope of their use, to open a
fresh scope for every body, branch and case, to report a redeclaration, and to keep the first one; matchFuncCallByType chooses among all overloads.'''
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real symbol table, declaration passes and type checker'
BOUNDED = ['overload chains of at most 3 functions in matchFuncCallByType; the chain operations themselves on chains of at most 3', 'symbols of overloads: parameter types nested at most twice, lists of at most 3']


def sections(p, tier, work):
    T = lambda n, f, *a: S('typeCheck[%s]' % n, f, *a, want=W)
    out = [T('match 1 case %d %d' % mg, sv.match, 1, True, *mg) for mg in ((1, 2), (1, 1), (1, 0))] + [s for s in sigs(W) if '7 par' not in s[0]]
    out += [S('SymTab.%s' % w, dv.symtab, w, want=W) for w in 'Define Resolve ResolveAll Owns Child MustResolve'.split()] + matching(W) + [S('AsmName', cg2.asmnames, want=None)]
    out += [T('call of %s, %s' % (o, q), sv.call, None, q, o) for o in ('opIdentifier', 'opDot') for q in ('args', 'types')]
    out += [T(o, sv.loop, o) for o in ('opWhile', 'opIf', 'opElseIf', 'opElse', 'opBlock')]
    out += [T('for', sv.forloop), T('identifier', sv.identifier), T('identifier, overloaded', sv.identifier, True), T('declaration', sv.declare), T('assignment', sv.assign), T('file', sv.root),
            T('return', sv.ret), T('ternary', sv.ternary), T('array literal', sv.arraylit), T('index', sv.index), T('match 2 cases', sv.match, 2, False), T('match 3 cases', sv.match, 3, False)]
    out += [T(o, sv.function, o) for o in ('opBlockFnDcl', 'opExprFnDcl', 'opExternFnDcl', 'opConsFnDcl')] + [T('dot %s' % w, sv.dot, w) for w in ('field',)]
    return caps(out + [T(o, sv.binary, o) for o in sv.ARITH + sv.LOGIC + sv.CMP] + [T(o, sv.unary, o) for o in ('opNot', 'opBNot', 'opNeg')] + [s for s in toplevels(W) if s[0] != 'generateStructConstructors'], tier)


def cases(tier, seed):
    return rpcases('C07') + rnd(tier, seed + 7, 60, 'struct enum fn arr gen string shadow')


def extra(tier, seed, work):
    return grid.check(grid.scopes(), work)


recheck = grid.recheck
