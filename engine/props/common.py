"""What the property modules share."""
import glob, os
from gv import cg, cg2, declv as dv, fuzz, lower, replay as rp, tools

ENGINE = ['the symbolic executor engine/gv (SSA semantics, memory model), golang.org/x/tools/go/ssa, z3']
X86 = ['the x86-64 instruction semantics in engine/gv/x86.py', 'GNU as, gcc (linking) and libc']

ASSUME_CG = [
    'an expression or statement list evaluated through its contract changes memory only outside the saved part of the stack (memory safety of the callee side: C11, C13, C16)',
    'frame size and displacements within int16 (reg.displace panics beyond)',
    'the tree given to code generation is the typed, lowered tree (C05, C13, C14)',
]


def rpcases(pid):
    out = []
    for f in sorted(glob.glob(os.path.join(tools.VERIF, 'replay', pid, '*.cases'))):
        out += rp.parse_cases(f)
    return out


def S(name, fn, *args, want=None, **kw):
    return (name, fn, args, kw, want)


def calls(want, thorough):
    return [S('genFnCall[%s]' % c, cg.call, c, want=want, thorough=thorough) for c in reversed(cg.CALLEES)]


def funcs(want):
    return [S('genFunc[%s]' % k, cg2.function, k, want=want) for k in ('block', 'expr', 'closure')] + [S('genReturnStmt', cg2.returnstmt, want=want)]


def cons(want):
    return [S('genConstructor[%s]' % k, cg2.constructor, k, want=want) for k in ('EnumCons', 'StructCons')]


def exprs(want):
    out = [S('genExpr[%s]' % op, cg.binary, op, want=want) for op in list(cg.INTOPS) + list(cg.CMPOPS) + list(cg.BOOLOPS)]
    out += [S('genExpr[%s]' % op, cg.unary, op, want=want) for op in ('opNot', 'opBNot', 'opNeg')]
    out += [S('genExpr[literal %s]' % k, cg.literal, k, want=want) for k in ('int', 'bool', 'string')]
    out += [S('genExpr[identifier]', cg.ident, want=want), S('genExpr[ternary]', cg.ternary, want=want),
            S('genExpr[index]', cg.index, want=want), S('genExpr[field]', cg.dot, want=want)]
    return out


def stmts(want):
    return [S('genAssignStmt', cg.assign, want=want), S('genIfElseIfElseStmts', cg.ifchain, want=want), S('genWhileStmt', cg.whileloop, want=want),
            S('genStmtList', cg.stmtlist, want=want)]


def rnd(tier, seed, n=250, feats='struct enum fn arr gen string shadow', **kw):
    """random programs with their meaning computed by the reference interpreter gv/fuzz.py"""
    return fuzz.cases(n if tier == 'quick' else n * 12, seed, feats=frozenset(feats.split()), **kw)


def lowering(want, *which):
    L = {'for': [S('lowerForStatement[%s]' % k, lower.forloop, k, want=want) for k in ('array', 'up', 'down')],
         'match': [S('lowerMatchStatement', lower.match, want=want)],
         'array': [S('rewriteArrayLiteralExpr', lower.arraylit, want=want)],
         'fold': [S('foldConstants', lower.fold, want=want)],
         'layout': [S('struct layout and constructor', lower.layout, 'struct', want=want), S('enum tags and constructors', lower.layout, 'enum', want=want)]}
    return [s for w in which for s in L[w]]


def caps(sections, tier):
    """how many elements of a list of unknown length are told apart before the rest is treated as one more of the same"""
    q = tier == 'quick'
    out = []
    for name, fn, args, kw, want in sections:
        c = getattr(fn, 'capped', None)
        if c and 'cap' not in kw:
            deep = c == 'match' and len(args) > 1 and args[1]
            kw = dict(kw, cap=(2 if q else 3) if deep else (3 if q else 4) if c == 'call' else 6 if c in ('matches', 'substitute', 'getfield') else 4 if q else 6)
        out.append((name, fn, args, kw, want))
    return out
