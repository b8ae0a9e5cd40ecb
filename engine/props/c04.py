from .common import *
from gv import semv as sv, declv as dv, grid
TRUSTED = ENGINE
ASSUME = ['a type node names its type parameters by symbol; two parameters are the same exactly when their symbols are (C07)',
          'types are built by createType and the declaration passes only (verified here); no other code writes type fields']
W = {'binding', 'identity', 'subst', 'decl', 'overload'}
NOTE = '''Matches is verified against the definition of type identity on arbitrary types (lists of unknown length cut where the state repeats), in plain and
in binding mode (each type parameter gets one binding; the set of constraints it returns is exactly the set the arguments impose); matchFuncCallByType,
substitution, unbound parameters, field lookup in generic structs, the creation and instantiation of types from type nodes and the declaration passes each have
a contract, in terms of the contracts of the others.'''
TECHNIQUE = 'contract-based deductive verification: symbolic execution of the real type functions against their contracts, recursion by contract'
NODES = ('opNamedType', 'opArrayType', 'opFuncType')
FNS = ('opBlockFnDcl', 'opExprFnDcl', 'opExternFnDcl', 'opConsFnDcl')
BOUNDED = ['calls with at most 2 type parameters, at most 3 overloaded arguments (at most 1 from 4 arguments on) and 3 overloads per name in matchFuncCallByType', 'at most 2 declarations per file in the top-level pass (the pass treats each declaration alone)']


def decls(want):
    out = [S('createType[%s]' % o, dv.createtype, o, want=want) for o in NODES] + [S('instantiate[%s]' % o, dv.instantiate, o, want=want) for o in NODES]
    out += [S('instantiate %s' % o, dv.instfields, o, want=want) for o in ('fields', 'function')]
    return out + toplevels(want)


def toplevels(want):
    D = ('opStructDcl', 'opEnumDcl', 'opBlockFnDcl')
    out = [S('processTopLevelTypes[%s]' % o, dv.toplevel, (o,), want=want) for o in dv.DECLS]
    return out + [S('processTopLevelTypes[%s,%s]' % (a, b), dv.toplevel, (a, b), want=want) for a in D for b in D] + [S('generateStructConstructors', dv.structcons, want=want)]


def sigs(want):
    return [S('processFnType[%s]' % o, dv.signature, o, want=want) for o in FNS] + [S('processFnType[%d parameters]' % k, dv.signature, 'opBlockFnDcl', k, want=want) for k in (4, 5, 6, 7)]


def matching(want):
    out = [S('matchFuncCallByType[%d arguments, %d type parameters]' % (a, g), sv.callmatch, a, g, want=want) for a in (3, 2, 1, 0, 4, 5, 6) for g in range(2, -1, -1)]
    return out


def sections(p, tier, work):
    out = matching(W) + sigs(W)
    out += [S('Matches[plain]', sv.matches, False, want=W), S('Matches[binding]', sv.matches, True, want=W), S('Matches wrappers', sv.wrappers, want=W), S('substituteType', sv.substitute, want=W),
            S('unbound type parameters', sv.unbound, want=W), S('GetField', sv.getfield, want=W)]
    return caps(out + decls(W), tier)


def cases(tier, seed):
    return rpcases('C04') + rnd(tier, seed, 40, 'struct enum fn arr gen string')


def extra(tier, seed, work):
    return grid.check(grid.binding() + grid.generic(6000 if tier == 'thorough' else 1200, seed or 1), work)


recheck = grid.recheck
