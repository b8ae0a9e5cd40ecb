"""Symbolic x86-64 machine for the instructions the code generator emits.

A trace is the list of events the code generator sent to its asmWriter (recorded by Recorder), together with
'eval'/'stmts' events which stand for code generated by a callee under contract.

Memory other than pushed temporaries is an array Mem; X is the rest of the world (output, heap state ...).
Peephole tolerance: after a pair the optimiser may merge (movq _,R / evaluation of a subexpression or the start of
the trace, followed by movq R,Y or pushq R) the register R is given an arbitrary value, so everything proved
holds for the optimised stream as well, given the contract of peep proved under C15.
"""
import z3
from .ssa import *

B = 64
BV = z3.BitVecSort(64)
MEM = z3.ArraySort(BV, BV)
XS = z3.DeclareSort('World')
R64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15']
R8 = {'dil': 'rdi', 'sil': 'rsi', 'dl': 'rdx', 'cl': 'rcx', 'r8l': 'r8', 'r9l': 'r9', 'al': 'rax', 'bl': 'rbx'}
ARGS = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']
CALLER = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11']


def bv(i):
    return z3.BitVecVal(i, 64)


def valf(e):
    return z3.Function('val_' + e, MEM, XS, BV)


def postm(e):
    return z3.Function('mem_' + e, MEM, XS, MEM)


def postx(e):
    return z3.Function('wrl_' + e, MEM, XS, XS)


class Recorder:
    """stands for the asmWriter; every call is recorded"""
    def __init__(self, p):
        self.p = p
        self.ev = []
        self.nlabel = 0
        self.nlit = 0
        self.lits = []
        self.onaddr = None
        self.regn = {p.const('main.' + r): r for r in R64 + list(R8)}
        self.insn = {}
        ti = p.by_name.get('main.inst')
        for n, c in p.consts.items():
            if n.startswith('main.') and c['t'] == ti and ti is not None:
                self.insn[int(c['v'])] = n[5:]

    def op(self, I, o):
        """Go operand -> ('reg', n) | ('mem', base, idx, scale, disp, indirect) | ('imm', v) | ('sym', s) | ('lab', s) | ('fn', s)"""
        if not isinstance(o, IfaceV):
            raise Unsupported('operand %r' % (o,))
        t = self.p.types[o.tid].get('name')
        if t == 'reg':
            return ('reg', self.regn[o.v])
        if t == 'memOp':
            g = lambda n: force(o.v, self.p.fidx(o.tid, n))
            b, i = g('base'), g('idx')
            return ('mem', self.regn.get(b), self.regn.get(i), g('scl'), g('disp'), g('indir'), g('deref'))
        if t == 'litOp':
            return ('imm', o.v)
        if t == 'symOp':
            return ('sym', o.v)
        if t == 'fnOp':
            return ('fn', o.v)
        if t == 'labelOp':
            return ('lab', o.v)
        raise Unsupported('operand type %s' % t)

    def gv_invoke(self, I, m, args):
        if m == 'ins':
            n = self.insn.get(args[0])
            if n is None:
                raise Unsupported('instruction %s' % args[0])
            self.ev.append(('ins', n, [self.op(I, o) for o in I.items(args[1])]))
            return None
        if m == 'label':
            self.ev.append(('label', args[0]))
            return None
        if m == 'newLabel':
            self.nlabel += 1
            s = '%s@%d' % (args[0], self.nlabel)
            self.ev.append(('break',))
            return s
        if m == 'addr':
            o = self.op(I, args[0])
            self.ev.append(('addr', o, self.onaddr(I, o) if self.onaddr else None))
            return None
        if m == 'stringLit':
            self.ev.append(('break',))
            tid = self.p.by_name['main.litOp']
            for s, l in self.lits:
                if s is args[0] or (isinstance(s, str) and s == args[0]):
                    return IfaceV(tid, l)
            l = '.LIT%d+8' % len(self.lits)
            self.lits.append((args[0], l))
            return IfaceV(tid, l)
        if m == 'gcMap':
            self.ev.append(('gcmap', args[0], I.items(args[1])))
            return args[0]
        if m == 'roSymbol':
            self.ev.append(('roSymbol', args[0]))
            I.callv(args[1], [self])
            self.ev.append(('roEnd', args[0]))
            return IfaceV(self.p.by_name['main.symOp'], args[0])
        if m == 'tab':
            self.ev.append(('tab', I.items(args[0])))
            return None
        if m in ('raw', 'fnStart', 'taggedInt'):
            self.ev.append((m, args[0]))
            return None
        if m in ('spacer', 'fnEnd', 'flush'):
            self.ev.append((m,))
            return None
        raise Unsupported('asmWriter.' + m)


class Bad(Exception):
    """the trace does something no correct code does (named obligation)"""
    def __init__(self, name, detail=''):
        self.name, self.detail = name, detail


CC = {'e': lambda d, s: d == s, 'ne': lambda d, s: d != s, 'ae': z3.UGE, 'a': z3.UGT, 'b': z3.ULT, 'be': z3.ULE,
      'g': lambda d, s: d > s, 'ge': lambda d, s: d >= s, 'l': lambda d, s: d < s, 'le': lambda d, s: d <= s,
      's': lambda d, s: d - s < 0, 'ns': lambda d, s: d - s >= 0}
CC.update({'z': CC['e'], 'nz': CC['ne'], 'nb': CC['ae'], 'nae': CC['b'], 'nbe': CC['a'], 'na': CC['be'], 'nl': CC['ge'], 'nle': CC['g'], 'nge': CC['l'], 'ng': CC['le']})


class Machine:
    def __init__(self, ctx, ev, numlit=None):
        self.ctx, self.ev = ctx, ev
        self.r = {n: z3.BitVec(ctx.fresh('in_' + n), 64) for n in R64}
        self.mem = z3.Const(ctx.fresh('Mem'), MEM)
        self.x = z3.Const(ctx.fresh('X'), XS)
        self.k = 0
        self.slots = {}
        self.base = 0          # lowest legal k
        self.flags = None
        self.types = {}        # term id -> type tag of the value (kept alive in keep)
        self.keep = []
        self.rbpk = None
        self.log = []          # interesting events, in order
        self.numlit = numlit or (lambda s: None)
        self.on_eval = None
        self.on_call = None
        self.labels = {}
        for i, e in enumerate(ev):
            if e[0] == 'label':
                self.labels.setdefault(e[1], []).append(i)

    # typed values
    def setty(self, t, ty):
        self.types[t.get_id()] = ty
        self.keep.append(t)
        return t

    def ty(self, t):
        return self.types.get(t.get_id()) if t is not None else None

    def fresh(self, n):
        return z3.BitVec(self.ctx.fresh(n), 64)

    def havoc(self, r):
        self.r[r] = self.fresh('junk_' + r)

    def imm(self, s):
        if isinstance(s, str):
            t = s.strip()
            try:
                return bv(goint(t))
            except ValueError:
                return z3.BitVec('label:' + t, 64)
        n = self.numlit(s)
        if n is None:
            raise Unsupported('immediate %s' % (s,))
        return n

    def addr(self, o):
        _, b, i, scl, disp, indir, deref = o
        if b is None:
            raise Unsupported('address without base')
        a = self.r[b]
        if i is not None:
            a = a + (self.r[i] * bv(scl) if (issym(scl) or scl > 1) else self.r[i])
        if issym(disp):
            a = a + z3.Int2BV(disp, 64)
        elif disp:
            a = a + bv(disp)
        return a

    def load(self, o):
        if o[1] == 'rsp':
            if o[2] is not None:
                raise Unsupported('rsp index')
            j = self.k - (0 if not o[4] else o[4] // 8)
            if j not in self.slots:
                raise Bad('stack-slot', 'read of slot %d' % j)
            return self.slots[j]
        return z3.Select(self.mem, self.addr(o))

    def get(self, o):
        if o[0] == 'reg':
            if o[1] in R8:
                return self.r[R8[o[1]]] & bv(255)
            if o[1] == 'rsp':
                raise Unsupported('rsp as value')
            return self.r[o[1]]
        if o[0] == 'imm':
            return self.imm(o[1])
        if o[0] == 'sym':
            return z3.BitVec('symbol:%s' % (o[1],), 64)
        if o[0] == 'mem':
            return self.load(o)
        raise Unsupported('operand %s' % (o,))

    def put(self, o, v):
        if o[0] == 'reg':
            if o[1] in R8:
                f = R8[o[1]]
                self.r[f] = (self.r[f] & bv(~255)) | (v & bv(255))
            elif o[1] in ('rsp', 'rbp'):
                raise Bad('frame', 'write to ' + o[1])
            else:
                self.r[o[1]] = v
        elif o[0] == 'mem':
            if o[1] == 'rsp':
                raise Unsupported('store through rsp')
            a = self.addr(o)
            self.mem = z3.Store(self.mem, a, v)
            self.log.append(('store', a, v))
        else:
            raise Bad('operand', 'store to %s' % (o,))

    def push(self, v):
        self.k += 1
        self.slots[self.k] = v

    def pop(self):
        if self.k <= self.base or self.k not in self.slots:
            raise Bad('stack-balance', 'pop below the entry stack pointer')
        v = self.slots.pop(self.k)
        self.k -= 1
        return v

    def cond(self, cc):
        if self.flags is None:
            raise Bad('flags', 'conditional on undefined flags')
        d, s = self.flags
        if d is None:
            # flags of a result
            if cc in ('ne',):
                return s != 0
            if cc == 'e':
                return s == 0
            raise Unsupported('flags')
        if cc not in CC:
            raise Unsupported('condition ' + cc)
        return CC[cc](d, s)

    def goto(self, lab):
        if lab not in self.labels:
            return None
        if len(self.labels[lab]) > 1:
            raise Bad('label', 'label %s defined twice' % lab)
        return self.labels[lab][0]

    def run(self, pc=0, stop=None, maxsteps=3000):
        """run until the end of the trace; returns outcome tuple"""
        prevmov = '*'    # register an eligible predecessor leaves: '*' any (unknown predecessor)
        n = 0
        while pc < len(self.ev):
            n += 1
            if n > maxsteps:
                raise Unsupported('machine step limit')
            e = self.ev[pc]
            k = e[0]
            if k == 'label':
                prevmov = None
                if stop and n > 1 and stop(self, pc, e):
                    return ('cut', e[1])
                pc += 1
                continue
            if k in ('break', 'tab', 'spacer', 'raw', 'fnStart', 'gcmap', 'taggedInt', 'fnEnd', 'flush', 'roSymbol', 'roEnd'):
                prevmov = None
                pc += 1
                continue
            if k == 'addr':
                raise Bad('gc-word', 'a data word is executed')
            if k in ('eval', 'stmts', 'stub'):
                out = self.on_eval(self, e)
                prevmov = 'rax'
                if out is not None:
                    return out
                pc += 1
                continue
            if k != 'ins':
                raise Unsupported('event ' + k)
            op, a = e[1], e[2]
            nextmov = None
            if op in ('movq', 'movabs'):
                if op == 'movq' and a[0][0] == 'mem' and a[1][0] == 'mem':
                    raise Bad('mem-mem', 'memory to memory move')
                if a[0][0] == 'reg' and a[0][1] == 'rbp' and a[1][0] == 'reg':
                    v = self.r['rbp']
                else:
                    v = self.get(a[0])
                t = self.ty(v)
                self.put(a[1], v)
                if op == 'movq' and a[0][0] == 'reg' and a[0][1] in CALLER and prevmov in ('*', a[0][1]) and a[0] != a[1]:
                    self.havoc(a[0][1])
                if op == 'movq' and a[1][0] == 'reg':
                    nextmov = a[1][1]
            elif op == 'pushq':
                self.push(self.get(a[0]))
                if a[0][0] == 'reg' and prevmov in ('*', a[0][1]) and a[0][1] in CALLER:
                    self.havoc(a[0][1])
            elif op == 'popq':
                v = self.pop()
                self.put(a[0], v)
            elif op == 'leaq':
                if a[0][0] != 'mem':
                    raise Bad('operand', 'leaq')
                self.put(a[1], self.addr(a[0]))
            elif op == 'movsbq':
                v = self.load(a[0]) if a[0][0] == 'mem' else self.get(a[0])
                self.put(a[1], z3.SignExt(56, z3.Extract(7, 0, v)))
            elif op == 'movb':
                ad = self.addr(a[1])
                self.log.append(('storeb', ad, z3.Extract(7, 0, self.get(a[0]))))
            elif op in ('notq', 'negq'):
                v = self.get(a[0])
                self.put(a[0], ~v if op == 'notq' else -v)
                self.flags = None
            elif op in ('orq', 'andq', 'xorq', 'addq', 'subq', 'imulq'):
                if a[1] == ('reg', 'rsp') and op in ('addq', 'subq') and a[0][0] == 'imm':
                    d = goint(a[0][1])
                    if d % 8:
                        raise Bad('stack-balance', 'odd stack adjustment')
                    for _ in range(abs(d) // 8):
                        if (op == 'subq') == (d > 0):
                            self.push(self.fresh('pad'))
                        else:
                            self.pop()
                else:
                    s, d = self.get(a[0]), self.get(a[1])
                    f = {'orq': lambda: d | s, 'andq': lambda: d & s, 'xorq': lambda: d ^ s, 'addq': lambda: d + s,
                         'subq': lambda: d - s, 'imulq': lambda: d * s}[op]
                    v = z3.simplify(f()) if op != 'imulq' else f()
                    self.put(a[1], v)
                    self.flags = (None, v)
            elif op in ('shlq', 'salq', 'sarq', 'shrq'):
                c = self.get(a[0])
                c = c & bv(63)
                d = self.get(a[1])
                v = (d << c) if op in ('shlq', 'salq') else (d >> c) if op == 'sarq' else z3.LShR(d, c)
                self.put(a[1], v)
                self.flags = None
            elif op == 'cqo':
                self.r['rdx'] = self.r['rax'] >> bv(63)
            elif op == 'idivq':
                s = self.get(a[-2] if len(a) > 1 else a[0])
                if self.ctx.decide(s == bv(0)):
                    return ('trap',)
                ok, _ = self.ctx.valid(self.r['rdx'] == (self.r['rax'] >> bv(63)))
                if not ok:
                    raise Bad('div', 'rdx is not the sign extension of rax at idiv')
                x = self.r['rax']
                self.r['rax'], self.r['rdx'] = x / s, z3.SRem(x, s)
                self.flags = None
            elif op == 'cmpq':
                self.flags = (self.get(a[1]), self.get(a[0]))
            elif op.startswith('set'):
                c = self.cond(op[3:])
                self.put(a[0], z3.If(c, bv(1), bv(0)))
            elif op == 'testq':
                v = self.get(a[1]) & self.get(a[0])
                self.flags = (v, bv(0)) if False else (None, v)
            elif op in ('incq', 'decq'):
                v = self.get(a[0])
                v = v + bv(1) if op == 'incq' else v - bv(1)
                self.put(a[0], v)
                self.flags = (None, v)
            elif op == 'movzbq':
                v = self.load(a[0]) if a[0][0] == 'mem' else self.get(a[0])
                self.put(a[1], v & bv(255))
            elif op == 'nop':
                pass
            elif op == 'jmp' or (op[0] == 'j' and op[1:] in CC):
                t = a[0]
                take = True if op == 'jmp' else self.ctx.decide(self.cond(op[1:]))
                if take:
                    if t[0] == 'mem' and t[5] and op == 'jmp':
                        return ('jmp*', self.r[t[1]] if not t[6] else self.load(t))
                    if t[0] != 'lab':
                        raise Unsupported('jump target %s' % (t,))
                    q = self.goto(t[1])
                    if q is None:
                        return ('exit', t[1])
                    prevmov = None
                    if q <= pc:
                        if stop and stop(self, q, self.ev[q]):
                            return ('cut', t[1])
                        raise Unsupported('backward jump')
                    pc = q
                    continue
            elif op == 'enter':
                self.push(self.r['rbp'])
                self.r['rbp'] = self.fresh('rbp')
                self.rbpk = self.k
                self.frame = goint(a[0][1])
                if self.frame % 8:
                    raise Bad('frame', 'frame size')
                for _ in range(self.frame // 8):
                    self.push(self.fresh('local'))
            elif op == 'leave':
                if self.rbpk is None:
                    self.log.append(('leave',))
                    self.left = True
                    return ('leave', pc)
                while self.k > self.rbpk:
                    self.pop()
                self.r['rbp'] = self.pop()
                self.rbpk = None
            elif op == 'ret':
                v = self.pop()
                return ('ret', v)
            elif op == 'call':
                t = a[0]
                if t[0] == 'mem':
                    if not t[5]:
                        raise Bad('call', 'call operand')
                    tgt = ('val', self.load(t) if t[6] else self.r[t[1]])
                else:
                    tgt = ('name', t[1])
                nxt = self.ev[pc + 1] if pc + 1 < len(self.ev) else None
                gm = nxt if nxt is not None and nxt[0] == 'addr' else None
                out = self.on_call(self, tgt, gm)
                if out is not None:
                    return out
                if gm is not None:
                    pc += 1
                self.flags = None
            else:
                raise Unsupported('instruction ' + op)
            if op in ('movq',) and a[0][0] == 'reg' and a[0][1] in ('rsp',):
                raise Unsupported('rsp')
            prevmov = nextmov
            pc += 1
        return ('end',)


def goint(s):
    """integer as GAS reads it"""
    s = s.strip()
    neg = s.startswith('-')
    t = s[1:] if neg or s.startswith('+') else s
    if t.lower().startswith('0x'):
        v = int(t, 16)
    elif t.lower().startswith('0b'):
        v = int(t, 2)
    elif len(t) > 1 and t[0] == '0':
        v = int(t, 8)
    else:
        v = int(t, 10)
    return -v if neg else v
