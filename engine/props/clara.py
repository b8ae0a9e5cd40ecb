"""What the property modules about the Clara library share."""
from .common import *
from gv import clr, libv, numv, funv, libgen

BACKEND = 'z3 (python bindings) over symbolic execution of the typed syntax tree the real compiler builds from /repo/install/lib, and of the SSA of /repo for code generation'
CLARA = 'contract-based deductive verification of the Clara library (typed tree dumped by the real compiler, symbolic execution, z3)'
TRUSTED = ['the symbolic executor engine/gv/clr.py (meaning of the typed Clara tree before lowering; what the compiler makes of that tree: the sections of code generation listed here, and C08 to C15 for the rest), z3',
           'engine/harness/zz_typed.go, which prints the tree the type checker built',
           'the assembly primitives readByte, writeByte, toTaggedInt, toUntaggedInt, unsafe as specified: their code is checked in section runtime entry and primitives', 'libc: calloc, free, printf, exit']
ASSUME_LIB = [
    'claralloc by its contract: a fresh, zeroed block of the requested size (decided by C20), or a panic if the size is not positive or above 2^44',
    'the strings and arrays given are shorter than 2^40',
    'functions terminate (not proved; a replayed program that hangs is reported)',
    'copyArray, copyString: positions lie between -2^61 and 2^61',
    'copyArray: source and destination are different objects (a caller passing one object twice is outside the contract)',
]


def library(work):
    return clr.Lib(work)


def lemmas():
    return S('bit lemmas', lambda ctx, obs, p, name: clr.lemmas(obs))


def below(tier, *which):
    """the obligations of code generation that the compiled library function depends on: the same sections as under C09 - C15"""
    th = tier == 'thorough'
    B = {'operators': lambda: [x for x in exprs({'res', 'order', 'regs', 'stack'})] + lowering({'res', 'order'}, 'fold'),
         'calls': lambda: calls({'call', 'regs', 'stack', 'align', 'order', 'var'}, th) + funcs({'call', 'regs', 'stack', 'align', 'order', 'var'}),
         'data': lambda: cons({'cons', 'field'}) + [S('genAssignStmt', cg.assign, want={'assign', 'order'})] + lowering({'cons', 'field', 'assign', 'order', 'res', 'flow'}, 'match', 'layout', 'array'),
         'flow': lambda: [S('genReturnStmt', cg2.returnstmt, want={'flow'})] + [x for x in stmts({'flow', 'order', 'res'}) if x[0] != 'genAssignStmt'] + lowering({'flow', 'order', 'res'}, 'for'),
         'text': lambda: [S('assembler text', cg2.asmtext)],
         'gc': lambda: calls({'gc', 'gcmeta'}, th) + cons({'gc', 'gcmeta'}) + [x for x in funcs({'gc', 'gcmeta'}) if x[0] != 'genReturnStmt'] + exprs({'gc', 'gcmeta'}) + stmts({'gc', 'gcmeta'}) + [
             S('GcState', cg.gcstate, want=None), S('genTypeInfoTable', cg2.typeinfo, want={'gc', 'gcmeta'}), S('GC maps of a function', cg2.funcmaps, want={'gc', 'gcmeta'})],
         'prim': lambda: [S('runtime entry and primitives', cg2.primitives, want={'align', 'regs', 'stack', 'call', 'prim'})]}
    return [x for w in which for x in B[w]()]
