from .clara import *
from .common import ENGINE
from gv import sizes
TRUSTED = ENGINE + X86 + TRUSTED
BACKEND = 'z3 (python bindings) over symbolic execution of the SSA of /repo, and of the typed tree of the Clara library'
ASSUME = ASSUME_CG
W = {'gc', 'gcmeta'}


def sections(p, tier, work):
    return calls(W, tier == 'thorough') + cons(W) + [x for x in funcs(W) if x[0] != 'genReturnStmt'] + exprs(W) + stmts(W) + [
        S('GcState', cg.gcstate, want=None), S('genTypeInfoTable', cg2.typeinfo, want=W), S('built-in type ids', cg2.builtin_ids, library(work), want=W),
        S('GC maps of a function', cg2.funcmaps, want=W), S('Walk', cg2.walk, want=None)]


def cases(tier_, seed):
    return rpcases('C12') + sizes.roots() + sizes.enums() + sizes.structs() + sizes.many() + rnd(tier_, seed + 1, 250)
