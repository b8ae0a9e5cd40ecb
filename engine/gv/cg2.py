"""Contracts of function-level code generation, the runtime primitives, GC metadata, peephole and assembler text."""
import re, z3
from .ssa import *
from .x86 import *
from .cg import *


# ---------------------------------------------------------------------------------------------- functions
class FnCG(CG):
    """machine run of a whole function: return address at slot 1, rbp at slot 2, frame below"""
    def start(self):
        M = Machine(self.ctx, self.rec.ev, self.numlit)
        self.ret = z3.BitVec(self.ctx.fresh('retaddr'), 64)
        M.push(self.ret)
        M.slots[1] = self.ret
        self.regs0 = dict(M.r)
        self.mem0, self.x0 = M.mem, M.x
        self.callerbp = M.r['rbp']
        self.M = M
        M.on_eval, M.on_call = self.fn_eval, self.fn_call
        self.seen = []
        return M

    def fn_eval(self, M, e):
        kind, name, ta, st, typ = e
        self.seen.append(name)
        depth = M.k - M.rbpk
        self.ob('stack', 'sp-tracked', self.I.eq(st[0], depth))
        self.ob('align', 'frame-aligned', depth % 2 == 0)
        self.evalstate = (st, M.mem, M.x, M.r['rbp'], M.frame)
        if kind == 'stmts':
            mem, x = M.mem, M.x
            M.mem, M.x = postm(name)(mem, x), postx(name)(mem, x)
        else:
            v = valf(name)(M.mem, M.x)
            M.mem, M.x = postm(name)(M.mem, M.x), postx(name)(M.mem, M.x)
        for r in CALLER:
            M.havoc(r)
        if kind == 'eval':
            M.r['rax'] = v
        return None

    def fn_call(self, M, tgt, gm):
        raise Unsupported('call')

    def check_exit(self, out, ext):
        M = self.M
        if ext:
            self.ob('call', 'returns-to-the-caller', out[0] == 'ret' and out[1] == self.ret, str(out))
        else:
            self.ob('call', 'returns-past-the-gc-word', out[0] == 'jmp*' and out[1] == self.ret + bv(8), str(out))
        self.ob('stack', 'stack-empty-at-exit', M.k == 0)
        self.ob('regs', 'caller-frame-pointer-restored', M.r['rbp'] == self.callerbp)


def mkparams(c, types):
    out = []
    for i, t in enumerate(types):
        s = c.I.new('main.Symbol', Name='p%d' % i, Type=t)
        out.append(c.node('opIdentifier', sym=s, typ=t))
    return out


@guarded
def function(ctx, obs, p, sect, kind):
    """genFunc: frame, parameters, slots of locals, exit"""
    c = FnCG(obs, p, ctx, 0, sect=sect)
    I = c.I
    focus = ctx.pick(['params', 'locals'])
    np = ctx.choose(7) if focus == 'params' else 2
    pat = TPAT[ctx.choose(3)] if focus == 'params' and np else TPAT[1]
    ptys = [c.type(pat(i)) for i in range(np)]
    params = mkparams(c, ptys)
    ext = ctx.pick([False, True]) if focus == 'params' else False
    retnothing = ctx.pick([True, False]) if focus == 'params' else True
    ft = I.new('main.FunctionType', Kind=p.const('main.Normal') if not kind == 'closure' else p.const('main.Closure'),
               ret=c.gtype('nothingType') if retnothing else c.gtype('intType'), Params=I.slice(ptys))
    fty = c.type('Function', ft)
    fsym = I.new('main.Symbol', Name='fun', Type=fty, IsGlobal=True)
    attrs = p.const('main.extRet') if ext else 0
    lastret = False
    if kind == 'expr':
        stmts = I.slice([c.child('result', c.gtype('intType'))])
        op = 'opExprFnDcl'
    else:
        lastret = ctx.pick([False, True]) if focus == 'params' else False
        stmts = I.slice([c.node('opReturn' if lastret else 'opWhile')])
        c.lists = [('body', stmts)]
        op = 'opBlockFnDcl'
    n = c.node(op, params=I.slice(params), stmts=stmts, sym=fsym, attrs=attrs, typ=fty)
    # locals found by the walk: arbitrary nodes, some sharing a symbol, some without slot
    A = I.new('main.Symbol', Name='a', IsStack=True, Type=c.type('Integer'))
    B_ = I.new('main.Symbol', Name='b', IsStack=True, Type=c.type('Struct'))
    C_ = I.new('main.Symbol', Name='c', IsStack=False, Type=c.type('Integer'), Addr=0)
    if focus == 'locals':
        locs = [ctx.pick([A, B_, C_, None]) for _ in range(ctx.choose(4))]
    else:
        locs = [A, C_, None, B_, A]

    def walk(I, a):
        obs.contracts.add('main.WalkPostOrder')
        for s in locs:
            I.callv(a[1], [c.node('opIdentifier', sym=s)])
        return None
    I.stubs['main.WalkPostOrder'] = walk
    I.call('(*main.function).reset', [c.fn, n])
    gt = I.new('main.GcTypes')
    I.call('main.genFunc', [c.rec, n, c.fn, gt, None])
    c.gs = I.getf(c.fn, 'gcRoots')
    starts = [i for i, e in enumerate(c.rec.ev) if e[0] == 'fnStart']
    nm = I.call('(*main.FunctionType).AsmName', [ft, 'fun'])
    c.ob('call', 'one-entry-point-with-its-name', len(starts) == 1 and c.rec.ev[starts[0]][1] == nm)
    M = c.start()
    out = M.run()
    c.ob('call', 'body-generated-once', c.seen == (['result'] if kind == 'expr' else ['body']), str(c.seen))
    if not c.seen:
        return
    st, mem, x, rbp, frame = c.evalstate
    addrs = [I.getf(I.getf(q, 'sym'), 'Addr') for q in params]
    for i in range(np):
        c.ob('call', 'parameter-reads-its-argument', z3.Select(mem, rbp - bv(addrs[i])) == c.regs0[ARGS[i]], 'parameter %d' % i)
        c.ob('call', 'parameter-is-a-stack-variable', I.getf(I.getf(params[i], 'sym'), 'IsStack') is True)
    used = list(addrs)
    for s in (A, B_):
        if any(q is s for q in locs):
            used.append(I.getf(s, 'Addr'))
    c.ob('call', 'every-variable-has-its-own-slot', len(set(used)) == len(used) and all(u > 0 and u % 8 == 0 for u in used), str(used))
    c.ob('call', 'slots-inside-the-frame', all(u <= frame for u in used), '%s frame %s' % (used, frame))
    c.ob('call', 'fields-get-no-slot', I.getf(C_, 'Addr') == 0)
    want = sorted(a for a, t in zip(addrs, ptys) if c.is_ptr(t))
    c.ob('gc', 'pointer-parameters-are-roots', sorted(o for o, _ in st[2]) == want, '%s %s' % (st[2], want))
    for i, e in enumerate(c.rec.ev):
        pass
    if kind == 'expr':
        c.check_exit(out, ext)
        c.ob('call', 'result-returned-in-rax', M.r['rax'] == valf('result')(mem, x))
    elif lastret or not retnothing:
        c.ob('flow', 'exit-left-to-the-return-statement', out == ('end',))
    else:
        c.check_exit(out, ext)


@guarded
def returnstmt(ctx, obs, p, sect):
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    ext = ctx.pick([False, True])
    has = ctx.pick([False, True])
    I.setf(c.fn, 'attrs', p.const('main.extRet') if ext else 0)
    e = c.child('result', c.gtype('intType')) if has else None
    I.call('main.genReturnStmt', [c.rec, e, c.fn])
    M = c.machine()
    # frame as enter leaves it
    M.push(z3.BitVec('retaddr', 64)); M.push(M.r['rbp'])
    M.rbpk = M.k
    callerbp = M.slots[M.k]
    M.r['rbp'] = c.rbp
    k0 = M.k

    def ev(M, e):
        v = valf('result')(M.mem, M.x)
        M.mem, M.x = postm('result')(M.mem, M.x), postx('result')(M.mem, M.x)
        for r in CALLER:
            M.havoc(r)
        M.r['rax'] = v
    M.on_eval = ev
    out = M.run()
    if has:
        c.ob('flow', 'returns-the-value', M.r['rax'] == c.v('result'))
    if ext:
        c.ob('flow', 'leaves-the-function', out[0] == 'ret' and out[1] == z3.BitVec('retaddr', 64))
    else:
        c.ob('flow', 'leaves-the-function', out[0] == 'jmp*' and out[1] == z3.BitVec('retaddr', 64) + bv(8))
    c.ob('stack', 'stack-empty-at-exit', M.k == 0)
    c.ob('regs', 'caller-frame-pointer-restored', M.r['rbp'] == callerbp)


@guarded
def constructor(ctx, obs, p, sect, kind):
    c = FnCG(obs, p, ctx, 0, sect=sect)
    I = c.I
    np = ctx.choose(7)
    pat = TPAT[1 + ctx.choose(2)] if np else TPAT[0]
    ptys = [c.type(pat(i)) for i in range(np)]
    params = mkparams(c, ptys)
    enum = kind == 'EnumCons'
    tag = ctx.pick([0, 5, 300, 'any']) if enum else 0
    if tag == 'any':
        tag = ctx.int('tag')
        ctx.assume(z3.And(tag >= 0, tag < 1 << 30))
    ec = I.new('main.EnumConsFunc', Tag=tag)
    rt = c.type('Enum' if enum else 'Struct')
    ft = I.new('main.FunctionType', Kind=p.const('main.' + kind), ret=rt, Params=I.slice(ptys),
               Data=IfaceV(p.ptr_to[p.by_name['main.EnumConsFunc']], ec) if enum else None)
    fty = c.type('Function', ft)
    fsym = I.new('main.Symbol', Name='Cons', Type=fty, IsGlobal=True)
    tok = I.new('lex.Token', Val='Cons') if 'lex.Token' in p.by_name else I.new([k for k in p.by_name if k.endswith('lex.Token')][0], Val='Cons')
    n = c.node('opConsFnDcl', params=I.slice(params), sym=fsym, typ=fty, token=tok)

    def walk(I, a):
        return None
    I.stubs['main.WalkPostOrder'] = walk
    aft = I.new('main.FunctionType', Params=I.slice([c.gtype('intType'), c.gtype('stringType'), c.gtype('intType')]), ret=rt)
    alloc = I.new('main.Symbol', Name='claralloc', Type=c.type('Function', aft))
    prior = [c.type('Struct'), c.type('String')]
    gt = I.new('main.GcTypes', types=I.slice(prior))
    I.call('(*main.function).reset', [c.fn, n])
    I.call('main.genFunc', [c.rec, n, c.fn, gt, alloc])
    M = c.start()
    got = {}

    def on_call(M, tgt, gm):
        if got:
            raise Bad('alloc-once', 'second call in a constructor')
        got.update(tgt=tgt, r=dict(M.r), mem=M.mem, gm=gm, depth=M.k - M.rbpk, rbp=M.r['rbp'])
        blk = z3.BitVec(ctx.fresh('block'), 64)
        mem = z3.Const(ctx.fresh('MemAlloc'), MEM)
        for i in range(1, 9):
            ctx.assume(z3.Select(mem, M.r['rbp'] - bv(8 * i)) == z3.Select(M.mem, M.r['rbp'] - bv(8 * i)))
            for j in range(8):
                ctx.assume(blk + bv(8 * j) != M.r['rbp'] - bv(8 * i))
        got['blk'], got['mem1'], got['log'] = blk, mem, len(M.log)
        M.mem = mem
        for r in CALLER:
            M.havoc(r)
        M.r['rax'] = blk
    M.on_call = on_call
    out = M.run()
    c.ob('cons', 'allocates-once', bool(got))
    if not got:
        return
    nm = I.call('(*main.FunctionType).AsmName', [aft, 'claralloc'])
    words = np + (1 if enum else 0)
    types = I.items(I.getf(gt, 'types'))
    c.ob('cons', 'allocator-called', got['tgt'] == ('name', nm))
    c.ob('cons', 'block-is-large-enough', (got['r']['rdi'] >> bv(1)) >= bv(8 * words) if words else True)
    c.ob('cons', 'size-is-a-tagged-int', got['r']['rdi'] & bv(1) == bv(1))
    idv = got['r']['rdx']
    c.ob('cons', 'type-id-of-the-result-type', z3.And(idv == bv(2 * (len(types) - 1) + 1)) if types and types[-1] == rt else False)
    c.ob('cons', 'earlier-type-ids-unchanged', len(types) == 3 and types[0] == prior[0] and types[1] == prior[1])
    c.ob('align', 'stack-aligned-at-call', got['depth'] % 2 == 0)
    gm = got['gm']
    c.ob('gc', 'gc-word-present', gm is not None and gm[2] is not None and gm[2][0] == 'map')
    if gm is not None and gm[2] and gm[2][0] == 'map':
        addrs = [I.getf(I.getf(q, 'sym'), 'Addr') for q in params]
        want = sorted(a for a, t in zip(addrs, ptys) if c.is_ptr(t))
        c.ob('gc', 'pointer-parameters-are-roots', sorted(o for o, _ in gm[2][1]) == want, '%s %s' % (gm[2][1], want))
    off = 0
    exp = []
    if enum:
        exp.append((got['blk'], bv(2 * tag + 1) if isinstance(tag, int) else z3.Int2BV(2 * tag + 1, 64)))
        off = 8
    for i in range(np):
        exp.append((got['blk'] + bv(off + 8 * i), c.regs0[ARGS[i]]))
    stores = [e for e in M.log[got['log']:] if e[0] in ('store', 'storeb')]
    c.ob('cons', 'stores-the-fields-and-nothing-else', len(stores) == len(exp) and all(e[0] == 'store' for e in stores), '%d stores for %d fields' % (len(stores), len(exp)))
    if len(stores) == len(exp) and all(e[0] == 'store' for e in stores):
        def samead(a, b):
            return z3.is_bv_value(z3.simplify(a - b)) and z3.simplify(a - b).as_long() == 0
        for ad, v in exp:
            k = [e for e in stores if samead(e[1], ad)]
            c.ob('cons', 'fields-hold-the-arguments', k[0][2] == v if len(k) == 1 else False)
    c.ob('cons', 'returns-the-block', M.r['rax'] == got['blk'])
    c.check_exit(out, False)


# ---------------------------------------------------------------------------------------------- runtime primitives
@guarded
def primitives(ctx, obs, p, sect):
    c = FnCG(obs, p, ctx, 0, sect=sect)
    I = c.I
    which = ctx.pick(['readByte', 'readInt', 'writeByte', 'writeInt', 'unsafe', 'toTaggedInt', 'toUntaggedInt', 'getFramePointer', 'ioob', 'entry'])
    call = lambda f, *a: I.call('main.' + f, [c.rec] + list(a))
    fnop = IfaceV(p.by_name['main.fnOp'], 'target')
    if which.startswith('read'):
        call('genRead', which[4:], 1 if which == 'readByte' else 8)
    elif which.startswith('write'):
        call('genWrite', which[5:], 1 if which == 'writeByte' else 8)
    elif which == 'ioob':
        call('genIoobTrampoline', fnop)
    elif which == 'entry':
        call('genAsmEntrypoint', 'target')
    else:
        call({'unsafe': 'genUnsafe', 'toTaggedInt': 'genToTaggedInt', 'toUntaggedInt': 'genToUntaggedInt',
              'getFramePointer': 'genFramePointerAccess'}[which])
    names = [e[1] for e in c.rec.ev if e[0] in ('fnStart', 'label')]
    want = {'ioob': 'ioob', 'entry': 'clara_asm_entrypoint'}.get(which, which)
    c.ob('prim', 'named-' + which, want in names)
    M = c.start()
    r0 = dict(M.r)
    idx = r0['rsi'] >> bv(1)
    ctx.assume(r0['rsi'] & bv(1) == bv(1)) if which != 'ioob' else None
    calls = []

    def on_call(M, tgt, gm):
        calls.append((tgt, dict(M.r), M.k, gm))
        for r in CALLER:
            M.havoc(r)
        if which == 'ioob':
            return ('stopped',)
    M.on_call = on_call
    if which == 'ioob':
        # destructive alignment of rsp: only the arguments matter
        ev = [e for e in c.rec.ev if not (e[0] == 'ins' and e[1] == 'andq' and e[2][1] == ('reg', 'rsp'))]
        c.ob('bounds', 'stack-aligned-before-panic', any(e[0] == 'ins' and e[1] == 'andq' and e[2] == [('imm', '-16'), ('reg', 'rsp')] for e in c.rec.ev))
        M.ev = ev
        out = M.run()
        c.ob('bounds', 'panic-called-once', len(calls) == 1 and calls[0][0] == ('name', 'target'))
        if calls:
            r = calls[0][1]
            c.ob('bounds', 'panic-gets-index-and-length', z3.And(r['rdi'] == tagv(r0['rbx']), r['rsi'] == z3.Select(c.mem0, r0['rax'])))
        return
    out = M.run()
    if which == 'entry':
        c.ob('prim', 'entry-calls-program', len(calls) == 1 and calls[0][0] == ('name', 'target'))
        r = calls[0][1]
        c.ob('prim', 'entry-arguments', z3.And(r['rdi'] == tagv(r0['rdi']), r['rsi'] == r0['rsi'], r['rdx'] == r0['rdx']))
        c.ob('align', 'entry-aligned', calls[0][2] % 2 == 0)
    c.check_exit(out, True) if which != 'getFramePointer' else c.ob('prim', 'returns', out[0] == 'ret' and out[1] == c.ret)
    rax = M.r['rax']
    mem0 = c.mem0
    stores = [e for e in M.log if e[0] in ('store', 'storeb')]
    if which == 'readByte':
        a = r0['rdi'] + idx
        c.ob('prim', 'reads-that-byte', rax == z3.SignExt(56, z3.Extract(7, 0, z3.Select(mem0, a))))
    elif which == 'readInt':
        c.ob('prim', 'reads-that-word', rax == z3.Select(mem0, r0['rdi'] + bv(8) * idx))
    elif which == 'writeByte':
        c.ob('prim', 'writes-that-byte-only', len(stores) == 1 and stores[0][0] == 'storeb' and
             z3.And(stores[0][1] == r0['rdi'] + idx, stores[0][2] == z3.Extract(7, 0, r0['rdx'])))
    elif which == 'writeInt':
        c.ob('prim', 'writes-that-word-only', len(stores) == 1 and stores[0][0] == 'store' and
             z3.And(stores[0][1] == r0['rdi'] + bv(8) * idx, stores[0][2] == r0['rdx']))
    elif which == 'unsafe':
        c.ob('prim', 'adds-the-offset', rax == r0['rdi'] + idx)
    elif which == 'toTaggedInt':
        c.ob('prim', 'tags', rax == r0['rdi'] * bv(2) + bv(1))
    elif which == 'toUntaggedInt':
        c.ob('prim', 'untags', rax == r0['rdi'] >> bv(1))
    elif which == 'getFramePointer':
        c.ob('prim', 'frame-of-the-caller', rax == r0['rbp'])
    if not which.startswith('write') and which != 'entry':
        c.ob('prim', 'writes-nothing', len(stores) == 0)


# ---------------------------------------------------------------------------------------------- GC metadata
def type_info_ids():
    """order of the cases of enum typeInfo in gc.clara (what the collector matches on)"""
    s = open('/repo/install/lib/gc.clara').read()
    m = re.search(r'enum\s+typeInfo\s*\{(.*?)\}', s, re.S)
    return [x for x in re.findall(r'^\s*(\w+)\s*\(', m.group(1), re.M)]


@guarded
def typeinfo(ctx, obs, p, sect):
    c = FnCG(obs, p, ctx, 0, sect=sect)
    I = c.I
    ids = {n: i for i, n in enumerate(type_info_ids())}
    mk = lambda name, kinds, gen=False: None
    expect = []
    types = []

    def struct(name, kinds):
        fs = [I.new('main.Symbol', Name='f%d' % i, Addr=8 * i, Type=c.type(k)) for i, k in enumerate(kinds)]
        st = I.new('main.StructType', Name=name, Fields=I.slice(fs) if fs else None)
        types.append(c.type('Struct', st))
        expect.append(('StructType', [i for i, k in enumerate(kinds) if k in PTR_KINDS]))

    def enum(name, members):
        et = I.new('main.EnumType', Name=name)
        ty = c.type('Enum', et)
        ms = []
        for t, kinds in enumerate(members):
            ec = I.new('main.EnumConsFunc', Tag=t)
            ms.append(I.new('main.FunctionType', Kind=p.const('main.EnumCons'), ret=ty,
                            Params=I.slice([c.type(k) for k in kinds]) if kinds else None,
                            Data=IfaceV(p.ptr_to[p.by_name['main.EnumConsFunc']], ec)))
        I.setf(et, 'Members', I.slice(ms))
        for kinds in members:
            types.append(ty)
            expect.append(('StructType', [i + 1 for i, k in enumerate(kinds) if k in PTR_KINDS]))

    def other(kind):
        if kind == 'ArrayP':
            at = I.new('main.ArrayType', Elem=c.type(ctx.pick(PTR_KINDS)))
            types.append(c.type('Array', at)); expect.append(('ArrayType', True))
        elif kind == 'ArrayN':
            at = I.new('main.ArrayType', Elem=c.type(ctx.pick(['Integer', 'Boolean'])))
            types.append(c.type('Array', at)); expect.append(('ArrayType', False))
        else:
            types.append(c.type(kind)); expect.append((kind + 'Type', None))
    pats = [[], ['Integer'], ['Struct'], ['Integer', 'String'], ['Enum', 'Integer', 'Array', 'Boolean', 'Function', 'Bytes'], ['Parameter', 'Integer']]
    layout = ctx.choose(5)
    if layout == 0:
        for i, q in enumerate(pats):
            struct('s%d' % i, q)
        other('ArrayP'); other('ArrayN')
    elif layout == 1:
        struct('a', [])
        enum('e1', [pats[ctx.choose(6)], pats[ctx.choose(6)], ['Integer']])
        enum('e2', [['String'], []])
        struct('b', ['String'])
    elif layout == 2:
        for k in ('String', 'Bytes', 'Function'):
            other(k)
        enum('e1', [[], ['Struct', 'Integer', 'Struct']])
        other('ArrayP')
        enum('e4', [['Integer', 'Struct']])
    elif layout == 4:
        enum('big', [pats[i % 6] if i % 7 else ['Integer'] * (i % 5) + ['Struct'] for i in range(60)])
        for i in range(200):
            struct('t%d' % i, ['Integer'] * (i % 6) + (['String'] if i % 3 else []))
        enum('e9', [[], ['Struct'], ['Integer', 'Enum']])
        other('ArrayN'); other('ArrayP')
    else:
        enum('e1', [['Struct'], ['Integer']])
        struct('a', ['Integer'])
        enum('e2', [['Integer'], ['Struct'], []])
        enum('e3', [[], []])
    gt = I.new('main.GcTypes', types=I.slice(types))
    I.call('main.genTypeInfoTable', [c.rec, gt])
    # read back what was emitted
    gcmaps, infos, order, cur = {}, {}, [], None
    nogc = I.gget('main.noGc')
    gcmaps[nogc] = []
    tot = 0
    for e in c.rec.ev:
        if e[0] == 'gcmap':
            # equal names may repeat only with equal content
            gcmaps[e[1]] = e[2] if e[1] not in gcmaps or gcmaps[e[1]] == e[2] else 'ambiguous'
        elif e[0] == 'roSymbol':
            cur = []
            infos[e[1]] = cur
        elif e[0] == 'roEnd':
            cur = None
        elif cur is not None and e[0] in ('taggedInt', 'addr', 'tab'):
            cur.append(e)
    arr = infos.get('typeInfoArray')
    c.ob('gcmeta', 'table-present', arr is not None)
    if arr is None:
        return
    c.ob('gcmeta', 'table-length', arr[0] == ('taggedInt', len(types)) and len(arr) == len(types) + 1)
    for i, (k, d) in enumerate(expect):
        ent = arr[i + 1]
        inf = infos.get(ent[1][1]) if ent[0] == 'addr' and ent[1][0] == 'sym' else None
        c.ob('gcmeta', 'entry-present', inf is not None, i)
        if inf is None:
            continue
        c.ob('gcmeta', 'entry-has-its-kind', inf[0] == ('taggedInt', ids[k]), '%s: %s' % (k, inf[0]))
        if k == 'StructType':
            m = inf[2][1][1] if len(inf) == 3 and inf[2][0] == 'addr' and inf[2][1][0] == 'lab' else None
            c.ob('gcmeta', 'heap-map-lists-exactly-the-pointer-fields', m is not None and m in gcmaps and gcmaps[m] != 'ambiguous' and
                 sorted(gcmaps[m]) == d, 'entry %d: map %s, expected %s' % (i, gcmaps.get(m), d))
        elif k == 'ArrayType':
            v = inf[2][1][1] if len(inf) == 3 and inf[2][0] == 'tab' else None
            try:
                v = goint(v)
            except Exception:
                v = None
            c.ob('gcmeta', 'array-element-flag', v == (1 if d else 0), str(inf))
    # accessor
    fs = [i for i, e in enumerate(c.rec.ev) if e[0] == 'fnStart' and e[1] == 'typeInfoTable']
    c.ob('gcmeta', 'accessor-present', len(fs) == 1)
    if fs:
        c.rec.ev = c.rec.ev[fs[0]:]
        M = c.start()
        out = M.run()
        c.ob('gcmeta', 'accessor-returns-the-table', z3.And(M.r['rax'] == z3.BitVec('symbol:typeInfoArray', 64), out[1] == c.ret) if out[0] == 'ret' else False)


def allocid(ctx, obs, lib, name, first, n, args):
    """the type id the library function allocates its result with"""
    from . import libv
    b = libv.B(ctx, obs, lib, 'ids', 'small')
    r = b.X.run(lib.fn(name, *first, n=n), args(b.X))
    obs.functions |= b.X.ran
    i = getattr(r, 'typ', None)
    if not isinstance(i, int):
        raise Unsupported('type id of ' + name)
    return i


@guarded
def builtin_ids(ctx, obs, p, sect, lib):
    """type ids fixed in the library and in headers agree with the type table"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    gt = I.new('main.GcTypes')
    st = I.call('main.NewSymtab', [])
    for s in I.items(I.call('main.stdSyms', [])):
        I.call('(*main.SymTab).Define', [st, s])
    I.call('(*main.GcTypes).AddBuiltins', [gt, st])
    ts = I.items(I.getf(gt, 'types'))
    k = lambda i: c.kind(ts[i]) if isinstance(i, int) and 0 <= i < len(ts) else None

    def elem(i):
        return c.kind(I.getf(I.getf(ts[i], 'Data').v, 'Elem')) if k(i) == 'Array' else None
    for name, first, n, args, kinds in (('Bytes', ('int',), 1, lambda x: [3], None), ('stringArray', ('int', 'string'), 2, lambda x: [2, x.lit(b'a')], PTR_KINDS),
                                        ('intArray', ('int',), 1, lambda x: [2], ['Integer'] + PTR_KINDS), ('array', ('int', 'T'), 2, lambda x: [2, x.int('v')], PTR_KINDS),
                                        ('array', ('int',), 1, lambda x: [2], PTR_KINDS), ('arrayNoInit', ('int',), 1, lambda x: [2], PTR_KINDS)):
        i = allocid(ctx, obs, lib, name, first, n, args)
        if kinds is None:
            c.ob('gcmeta', 'bytes-id', k(i) in ('Bytes', 'String') or elem(i) == 'Integer', '%s: %s' % (name, k(i)))
        else:
            c.ob('gcmeta', 'array-id-%s/%d' % (name, n), k(i) == 'Array' and elem(i) in kinds, '%s %s' % (k(i), elem(i)))
    hdr = I.call('main.readOnlyGcHeader', [5])
    c.ob('gcmeta', 'function-header-id', k(5) == 'Function')
    c.ob('gcmeta', 'string-header-id', k(4) == 'String')
    for i in (4, 5, 300):
        h = I.call('main.readOnlyGcHeader', [i])
        c.ob('gcmeta', 'header-encodes-id-read-only-unmarked', ((h >> 47) & 0xffff) == i and (h & 3) == 2)
    t = c.type('Struct')
    idn = I.call('(*main.GcTypes).AssignId', [gt, t])
    ts2 = I.items(I.getf(gt, 'types'))
    c.ob('gcmeta', 'assigned-id-indexes-the-table', ts2[idn] == t and len(ts2) == len(ts) + 1)


@guarded
def funcmaps(ctx, obs, p, sect):
    """the GC maps of a function are emitted with slot numbers of the recorded roots"""
    c = FnCG(obs, p, ctx, 0, sect=sect)
    I = c.I
    ft = I.new('main.FunctionType', ret=c.gtype('nothingType'))
    fty = c.type('Function', ft)
    n = c.node('opBlockFnDcl', stmts=I.slice([]), sym=I.new('main.Symbol', Name='fun', Type=fty, IsGlobal=True), typ=fty)
    I.call('(*main.function).reset', [c.fn, n])
    I.stubs['main.WalkPostOrder'] = lambda I, a: None
    groot = p.by_name['main.GcRoot']
    t = c.type('Struct')
    want = {}

    def stm(I, a):
        m = I.getf(c.fn, 'gcMaps')
        if not isinstance(m, MapV):
            raise Unsupported('gcMaps is not a map')
        for name, offs in (('.SM7', [8, 24]), ('.SM8', [16]), ('.SM9', [8, 16, 400]), ('.SM10', []), ('.SM11', [8 * j for j in range(1, 60)]), ('.SM12', [8 * j for j in range(2, 300, 3)])):
            I.mapset(m, name, I.slice([StructV([o, t], groot) for o in offs]))
            want[name] = [o // 8 for o in offs]
    I.stubs['main.genStmtList'] = stm
    I.call('main.genFunc', [c.rec, n, c.fn, I.new('main.GcTypes'), None])
    got = {e[1]: e[2] for e in c.rec.ev if e[0] == 'gcmap'}
    c.ob('gc', 'all-maps-emitted', sorted(got) == sorted(want), str(sorted(got)))
    for k, v in want.items():
        c.ob('gc', 'map-slots', sorted(got.get(k, [])) == v, '%s %s' % (got.get(k), v))


# ---------------------------------------------------------------------------------------------- walk
@guarded
def walk(ctx, obs, p, sect):
    """Walk visits every child of a node exactly once and the node itself"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    pre = ctx.pick([False, True])
    shapes = {
        'opBlockFnDcl': 'rpsl', 'opExprFnDcl': 'rpsl', 'opExternFnDcl': 'rpl', 'opConsFnDcl': 'rpl', 'opBlock': 's', 'opElse': 's', 'opRoot': 's',
        'opFuncCall': 'lps', 'opWhile': 'Ls', 'opMatch': 'Ls', 'opTernary': 'Ls', 'opCase': 'ps', 'opIf': 'Lsr', 'opElseIf': 'Lsr',
        'opFor': 'LRs', 'opIdentifier': 'l', 'opReturn': 'l', 'opNot': 'L', 'opNeg': 'L', 'opBNot': 'L', 'opAs': 'LR', 'opDas': 'LR',
        'opAdd': 'LR', 'opSub': 'LR', 'opMul': 'LR', 'opDiv': 'LR', 'opAnd': 'LR', 'opOr': 'LR', 'opBAnd': 'LR', 'opBOr': 'LR', 'opBXor': 'LR',
        'opEq': 'LR', 'opGt': 'LR', 'opGte': 'LR', 'opLt': 'LR', 'opLte': 'LR', 'opBLeft': 'LR', 'opBRight': 'LR', 'opDot': 'LR', 'opArray': 'LR',
        'opRange': 'LR', 'opArrayLit': 'ls', 'opLit': ''}
    op = ctx.pick(sorted(shapes))
    kids = []

    def kid():
        k = c.node('opLit')
        v = ctx.int('op')
        ctx.assume(z3.And(v >= 0, v <= p.const('main.opArrayLit')))
        I.setf(k, 'op', v)
        kids.append(k)
        return k
    kw = {}
    for ch in shapes[op]:
        if ch in 'LR' or (ch in 'lr' and ctx.pick([True, False])):
            kw['left' if ch in 'lL' else 'right'] = kid()
        elif ch in 'sp':
            kw['stmts' if ch == 's' else 'params'] = I.slice([kid() for _ in range(ctx.pick([0, 1, 2, 7]))])
    n = c.node(op, **kw)
    visited, descended = [], []
    real = I.p.funcs['main.Walk']

    def stub(I, a):
        if a[1] == n and not descended and not visited or a[1] == n:
            return I.run(real, a, ())
        descended.append(a[1])
        c.ob('walk', 'same-order-kind', a[0] == pre)
        return None
    I.stubs['main.Walk'] = stub
    seen = []

    def f(I, a):
        seen.append((a[0], len(descended)))
        return True
    if pre:
        I.call('main.WalkPreOrder', [n, PyFunc(f)])
    else:
        I.call('main.WalkPostOrder', [n, PyFunc(f)])
    c.ob('walk', 'every-child-once', len(descended) == len(kids) and all(sum(1 for d in descended if d == k) == 1 for k in kids), '%s: %d of %d' % (op, len(descended), len(kids)))
    own = [s for s in seen if s[0] == n]
    c.ob('walk', 'node-visited-once', len(own) == 1)
    if own:
        c.ob('walk', 'node-before-or-after-children', own[0][1] == (0 if pre else len(kids)))


# ---------------------------------------------------------------------------------------------- peephole
def mkop(c, kind, r=None, r2=None):
    p = c.p
    B = p.by_name
    if kind == 'reg':
        return IfaceV(B['main.reg'], p.const('main.' + r))
    if kind == 'mem':
        s = p.zero(B['main.memOp'])
        s[p.fidx(B['main.memOp'], 'base')] = p.const('main.' + r)
        if r2:
            s[p.fidx(B['main.memOp'], 'idx')] = p.const('main.' + r2)
        s[p.fidx(B['main.memOp'], 'disp')] = 8
        s[p.fidx(B['main.memOp'], 'deref')] = True
        return IfaceV(B['main.memOp'], s)
    if kind == 'imm':
        return IfaceV(B['main.litOp'], '42')
    if kind == 'lab':
        return IfaceV(B['main.labelOp'], 'somewhere')
    if kind == 'fn':
        return IfaceV(B['main.fnOp'], 'somefn')


def apply_straight(ctx, ev, base):
    """effect of a straight-line trace; returns machine"""
    M = Machine(ctx, ev)
    M.r = dict(base['r'])
    M.mem, M.x = base['mem'], base['x']
    M.slots = dict(base['slots'])
    M.k = base['k']
    M.base = 0
    M.havoc = lambda r: None       # exact semantics here
    M.on_call = lambda M, t, g: ('call', t)
    M.out = M.run()
    return M


OPERANDS = [('reg', 'rax'), ('reg', 'rbx'), ('mem', 'rbp'), ('mem', 'rax'), ('mem', 'rbx', 'rax'), ('imm',)]


@guarded
def peepins(ctx, obs, p, sect):
    """(*peep).ins: whatever is pending and whatever comes next, the stream has the same effect except on a register
    that a movq loaded only to be moved or pushed on"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    two = ['movq', 'addq', 'leaq', 'cmpq', 'movabs', 'andq']
    one = ['pushq', 'popq', 'notq', 'negq']
    shapes = []
    first = ctx.pick(['none'] + two + one)

    def operands(op):
        def legal(os):
            if op in ('popq', 'notq', 'negq') and os[0][0] != 'reg':
                return False
            if op == 'leaq' and (os[0][0] != 'mem' or os[1][0] != 'reg'):
                return False
            if op == 'movabs' and (os[0][0] != 'imm' or os[1][0] != 'reg'):
                return False
            if len(os) == 2:
                if os[1][0] == 'imm' or (os[0][0] == 'mem' and os[1][0] == 'mem'):
                    return False
            return True
        n = 2 if op in two else 1
        alls = [(a,) for a in OPERANDS] if n == 1 else [(a, b) for a in OPERANDS for b in OPERANDS]
        return [x for x in alls if legal(x)]
    seq = []
    if first != 'none':
        seq.append((first, ctx.pick(operands(first))))
    second = ctx.pick(two + one)
    seq.append((second, ctx.pick(operands(second))))
    w = c.rec
    pe = I.new('main.peep', w=w)
    num = {n: i for i, n in c.rec.insn.items()}
    for op, os in seq:
        I.call('(*main.peep).ins', [pe, num[op], I.slice([mkop(c, *o) for o in os])])
    I.call('(*main.peep).flush', [pe])
    got = [e for e in w.ev if e[0] == 'ins']
    w2 = Recorder(p)
    for op, os in seq:
        w2.gv_invoke(I, 'ins', [num[op], I.slice([mkop(c, *o) for o in os])])
    want = w2.ev
    if got == want:
        c.ob('peep', 'stream-kept', True)
        return
    base = {'r': {r: z3.BitVec('peep_' + r, 64) for r in R64}, 'mem': z3.Const('pm', MEM), 'x': z3.Const('px', XS),
            'slots': {1: z3.BitVec('s1', 64), 2: z3.BitVec('s2', 64), 3: z3.BitVec('s3', 64)}, 'k': 3}
    A, B_ = apply_straight(ctx, want, base), apply_straight(ctx, got, base)
    # the one register that may differ
    ok = None
    if seq[0][0] == 'movq' and seq[0][1][1][0] == 'reg' and len(seq) == 2 and seq[1][0] in ('movq', 'pushq') and seq[1][1][0] == seq[0][1][1]:
        ok = seq[0][1][1][1]
    for r in R64:
        if r != ok and r != 'rsp':
            c.ob('peep', 'registers-kept', A.r[r] == B_.r[r], '%s after %s' % (r, seq))
    c.ob('peep', 'memory-kept', A.mem == B_.mem, str(seq))
    c.ob('peep', 'stack-kept', A.k == B_.k and andl([A.slots[j] == B_.slots[j] for j in A.slots if j <= A.k]), str(seq))
    for e in got:
        if e[1] == 'movq':
            c.ob('peep', 'no-memory-to-memory-move', not (e[2][0][0] == 'mem' and e[2][1][0] == 'mem'), str(seq))


class RawRec:
    def __init__(self):
        self.ev = []

    def gv_invoke(self, I, m, args):
        if m != 'ins':
            raise Unsupported('peephole calls ' + m)
        self.ev.append((args[0], list(I.items(args[1]))))
        return None


@guarded
def peepsym(ctx, obs, p, sect):
    """(*peep).ins with any instructions and registers: two instructions reach the writer as they are, or merged into one
    of the two pairs which mean the same except for the intermediate register"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    B = p.by_name
    names = {n: k for k, n in c.rec.insn.items()}
    movq, pushq = names['movq'], names['pushq']
    lo, hi = p.const('main.rax'), p.const('main.r15')

    def regn(n, zero=False):
        r = z3.Int(ctx.fresh(n))
        ctx.assume(z3.And(r >= (0 if zero else lo), r <= hi))
        return r

    def operand(kind):
        if kind == 'reg':
            return IfaceV(B['main.reg'], regn('r'))
        if kind == 'mem':
            s = p.zero(B['main.memOp'])
            s[p.fidx(B['main.memOp'], 'base')] = regn('b')
            s[p.fidx(B['main.memOp'], 'idx')] = regn('x', True)
            s[p.fidx(B['main.memOp'], 'disp')] = z3.Int(ctx.fresh('d'))
            s[p.fidx(B['main.memOp'], 'deref')] = True
            return IfaceV(B['main.memOp'], s)
        return IfaceV(B['main.litOp'], '42')
    want = []
    for k in range(2):
        i = z3.Int(ctx.fresh('inst'))
        ctx.assume(z3.Or([i == z3.IntVal(v) for v in sorted(c.rec.insn)]))
        n = ctx.choose(3)
        ctx.assume(z3.Implies(i == movq, n == 2))
        ctx.assume(z3.Implies(z3.Or([i == names[q] for q in ('pushq', 'popq', 'notq', 'negq') if q in names]), n == 1))
        kinds = [ctx.pick(['reg', 'mem', 'imm'])] + ([ctx.pick(['reg', 'mem'])] if n == 2 else []) if n else []
        if n == 2 and kinds == ['mem', 'mem']:
            raise Infeasible()
        want.append((i, [operand(q) for q in kinds]))
    w = RawRec()
    pe = I.new('main.peep', w=w)
    for i, os in want:
        I.call('(*main.peep).ins', [pe, i, I.slice(os)])
    I.call('(*main.peep).write', [pe])
    got = w.ev

    def sameop(a, b):
        return a is b or (isinstance(a, IfaceV) and isinstance(b, IfaceV) and a.tid == b.tid and (a.v is b.v or I.eq(a.v, b.v)))

    def same(x, y):
        return andl([I.eq(x[0], y[0])] + [len(x[1]) == len(y[1])] + [sameop(a, b) for a, b in zip(x[1], y[1])])
    if len(got) == 2:
        c.ob('peep', 'instructions-kept', andl([same(x, y) for x, y in zip(got, want)]))
        return
    (i1, o1), (i2, o2) = want
    isreg = lambda o: o.tid == B['main.reg']
    if not got and len(o1) == len(o2) == 1 and isreg(o1[0]) and isreg(o2[0]) and 'popq' in names and ctx.valid(z3.And(I.eq(i1, pushq), I.eq(i2, names['popq']), I.eq(o1[0].v, o2[0].v))):
        return      # pushed and popped again
    c.ob('peep', 'at-most-one-merge', len(got) == 1, str(got))
    if len(got) != 1:
        return
    ismem = lambda o: o.tid == B['main.memOp']
    fld = lambda o, n: force(o.v, p.fidx(o.tid, n))
    c.ob('peep', 'merges-only-a-move-into-a-register', I.eq(i1, movq))
    if len(o1) != 2 or not isreg(o1[1]) or not o2 or not isreg(o2[0]):
        c.ob('peep', 'merges-only-through-a-register', False, str(want))
        return
    R = o1[1].v
    c.ob('peep', 'merges-only-the-same-register', I.eq(R, o2[0].v))
    if len(o2) == 2:
        c.ob('peep', 'merged-move', andl([I.eq(i2, movq), same(got[0], (movq, [o1[0], o2[1]]))]))
        c.ob('peep', 'no-memory-to-memory-move', not (ismem(o1[0]) and ismem(o2[1])))
        if ismem(o2[1]):
            c.ob('peep', 'address-does-not-need-the-register', z3.And(fld(o2[1], 'base') != R, fld(o2[1], 'idx') != R))
    else:
        c.ob('peep', 'merged-push', andl([I.eq(i2, pushq), same(got[0], (pushq, [o1[0]]))]))


@guarded
def peepchain(ctx, obs, p, sect):
    """three instructions: merging never crosses a non-adjacent instruction; everything else passes straight through"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    pe = I.new('main.peep', w=c.rec)
    num = {n: i for i, n in c.rec.insn.items()}
    rax, rdi, rbx = mkop(c, 'reg', 'rax'), mkop(c, 'reg', 'rdi'), mkop(c, 'reg', 'rbx')
    src = mkop(c, 'mem', 'rbp')
    what = ctx.pick(['label', 'newLabel', 'tab', 'spacer', 'stringLit', 'raw', 'addr', 'fnStart', 'fnEnd', 'roSymbol', 'gcMap', 'taggedInt', 'call', 'jmp', 'addq'])
    ins = lambda i, *o: I.call('(*main.peep).ins', [pe, num[i], I.slice(o)])
    ins('movq', src, rax)
    nop = IfaceV(p.by_name['main.labelOp'], 'L')
    m = lambda n, *a: I.call('(*main.peep).' + n, [pe] + list(a))
    if what in ('label', 'raw', 'fnStart'):
        m(what, 'L')
    elif what in ('newLabel', 'stringLit'):
        m(what, '"L"')
    elif what == 'tab':
        m('tab', I.slice(['.data']))
    elif what in ('spacer', 'fnEnd'):
        m(what)
    elif what == 'addr':
        m('addr', nop)
    elif what == 'roSymbol':
        m('roSymbol', 'S', PyFunc(lambda I, a: None))
    elif what == 'gcMap':
        m('gcMap', 'G', I.slice([1]))
    elif what == 'taggedInt':
        m('taggedInt', 3)
    elif what == 'call':
        ins('call', mkop(c, 'fn'))
    elif what == 'jmp':
        ins('jmp', mkop(c, 'lab'))
    else:
        ins('addq', mkop(c, 'imm'), rbx)
    ins('movq', rax, rdi)
    ins('pushq', mkop(c, 'reg', 'r8'))
    I.call('(*main.peep).flush', [pe])
    ev = [e for e in c.rec.ev]
    insn = [e[1] for e in ev if e[0] == 'ins']
    c.ob('peep', 'not-merged-across', insn[0] == 'movq' and insn.count('movq') == 2 and insn[-1] == 'pushq', '%s: %s' % (what, insn))
    pos = [i for i, e in enumerate(ev) if e[0] == 'ins' and e[1] == 'movq']
    mid = ev[pos[0] + 1:pos[1]] if len(pos) == 2 else []
    if what == 'fnEnd':
        pass   # the optimiser ends the pending pair; the writer has nothing to write
    elif what in ('newLabel', 'stringLit'):
        c.ob('peep', 'passed-on', any(e[0] == 'break' for e in mid), what)
    elif what in ('call', 'jmp', 'addq'):
        c.ob('peep', 'passed-on', [e[1] for e in mid] == [what])
    else:
        c.ob('peep', 'passed-on-in-place', any(e[0] == {'gcMap': 'gcmap'}.get(what, what) for e in mid), '%s %s' % (what, mid))


# ---------------------------------------------------------------------------------------------- assembler text
ATT = {r: '%' + r for r in R64}
ATT.update({'dil': '%dil', 'sil': '%sil', 'dl': '%dl', 'cl': '%cl', 'al': '%al', 'bl': '%bl'})


LONG = ['"' + x + '"' for n in (30, 70, 300, 5000) for x in ('a' * n, 'a' * n + 'b', 'a' * n + 'c', 'b' + 'a' * n, 'a' * (n // 2) + 'c' + 'a' * (n // 2), 'A' + 'a' * (n - 1))]


@guarded
def asmtext(ctx, obs, p, sect):
    """text of operands, instructions and data denotes exactly them"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    from .ssa import EXT
    I.ext['strconv.Itoa'] = EXT['strconv.Itoa']
    B = p.by_name
    out = []
    gw = I.new('main.gasWriter', literals=MapV(None))

    def write(I, a):
        # gasWriter.write(format, args...)
        s = gofmt(I, a[1], I.items(a[2]))
        out.append(s if isinstance(s, str) else joins(s))
    I.stubs['(*main.gasWriter).write'] = write
    text = lambda: ''.join(out).encode('latin-1').decode('utf-8')
    what = ctx.pick(['ins', 'mem', 'reg', 'data', 'string', 'strsym', 'label', 'header'])
    W = lambda m, *a: I.call('(*main.gasWriter).' + m, [gw] + list(a))
    num = {n: i for i, n in c.rec.insn.items()}
    if what == 'ins':
        consts = {n: k for k, n in Recorder(p).insn.items()}
        for n in sorted(consts):
            if not re.match(r'[a-z]+$', n):
                continue
            num = consts
            del out[:]
            W('ins', num[n], I.slice([mkop(c, 'imm'), mkop(c, 'reg', 'rbx')]))
            c.ob('asm', 'instruction-and-operand-order', text().split() == [n, '$42,', '%rbx'], text())
        del out[:]
        W('ins', num['ret'], None)
        c.ob('asm', 'no-operands', text().split() == ['ret'])
    elif what == 'reg':
        for r, t in ATT.items():
            o = mkop(c, 'reg', r)
            c.ob('asm', 'register-name', I.invoke(o, 'Print', []) == t, r)
        for r, e in (('rax', 'al'), ('rbx', 'bl'), ('rdi', 'dil'), ('rsi', 'sil'), ('rdx', 'dl'), ('rcx', 'cl')):
            v = I.call('(main.reg)._8bit', [p.const('main.' + r)])
            c.ob('asm', 'byte-register', v == p.const('main.' + e), r)
    elif what == 'mem':
        R = lambda r: p.const('main.' + r)
        f = lambda m, *a: I.call('(main.memOp).' + m, list(a))
        for b in ('rax', 'rbp', 'rsp', 'rdi', 'r8'):
            d = I.call('(main.reg).deref', [R(b)])
            for disp in (0, 8, -8, -32768, 32767, 1):
                for idx in (None, 'rbx', 'rsi'):
                    for sc in (1, 8):
                        o = I.call('(main.reg).displace', [R(b), disp]) if disp else d
                        if idx:
                            o = f('index', o, R(idx))
                        if idx and sc > 1:
                            o = f('scale', o, sc)
                        t = f('Print', o)
                        want = '%s(%%%s%s%s)' % (disp if disp else '', b, ',%' + idx if idx else '', ',%d' % sc if idx and sc > 1 else '')
                        c.ob('asm', 'address-text', t == want, '%s instead of %s' % (t, want))
            c.ob('asm', 'indirect-register', f('Print', I.call('(main.reg).indirect', [R(b)])) == '*%' + b)
            c.ob('asm', 'indirect-memory', f('Print', f('indirect', I.call('(main.reg).displace', [R(b), -16]))) == '*-16(%' + b + ')')
        # structure: each builder changes its own part only
        a = z3.Int(ctx.fresh('d'))
        ctx.assume(z3.And(a >= -32768, a <= 32767))
        o = I.call('(main.reg).displace', [R('rbp'), a])
        op = c.rec.op(I, IfaceV(B['main.memOp'], o))
        c.ob('asm', 'displacement-kept', op[1] == 'rbp' and op[2] is None and op[6] is True and op[5] is False and I.eq(op[4], a))
    elif what == 'data':
        for i in (0, 1, -1, 2, 1 << 46, (5 << 47) | 2):
            del out[:]
            W('taggedInt', i)
            c.ob('asm', 'tagged-word', text().split() == ['.8byte', str(2 * i + 1)], text())
        for offs in ([], [1], [3, 1, 2], list(range(1, 41)), list(range(700, 2, -2))):
            del out[:]
            r = W('gcMap', 'M', I.slice(offs))
            t = [l for l in text().split('\n') if l.strip() and not l.startswith(';')]
            words = []
            for l in t[1:]:
                q = l.split(None, 1)
                words += [x.strip() for x in q[1].split(',')] if len(q) > 1 else []
            c.ob('asm', 'gc-map-text', t[0] == 'M:' and r == 'M' and words == [str(2 * len(offs) + 1)] + [str(2 * o + 1) for o in offs], str(t))
        for n in (0, 1, -5, 123456789012):
            v = I.call('main.intOp', [n])
            c.ob('asm', 'integer-operand', I.invoke(v, 'Print', []) == '$%d' % n)
            v = I.call('main.taggedIntOp', [n])
            c.ob('asm', 'tagged-operand', I.invoke(v, 'Print', []) == '$%d' % (2 * n + 1))
        c.ob('asm', 'booleans', I.invoke(I.gget('main._false'), 'Print', []) == '$0' and I.invoke(I.gget('main._true'), 'Print', []) == '$1')
        for ty, s, want in (('symOp', 'nm', 'nm'), ('fnOp', 'nm', 'nm'), ('labelOp', 'nm', 'nm')):
            del out[:]
            W('addr', IfaceV(B['main.' + ty], s))
            c.ob('asm', 'address-word', text().split() == ['.8byte', want], text())
        c.ob('asm', 'symbol-operand', I.invoke(IfaceV(B['main.symOp'], 'nm'), 'Print', []) == '$nm')
        del out[:]
        W('roSymbol', 'nm', PyFunc(lambda I, a: out.append('BODY\n')))
        t = [l.split() for l in text().split('\n') if l.strip()]
        c.ob('asm', 'read-only-symbol', t[0][0] == '.8byte' and (int(t[0][1]) >> 1) & 3 == 2 and t[1] == ['nm:'] and t[2] == ['BODY'], str(t))
    elif what == 'label':
        a, b = W('newLabel', 'x'), W('newLabel', 'x')
        d = W('newLabel', 'y')
        c.ob('asm', 'new-labels-distinct', len({a, b, d}) == 3)
        W('label', a)
        c.ob('asm', 'label-text', text().strip() == a + ':')
    elif what == 'string':
        lits = ['"abc"', '""', '"a\\nb"', '"q\\"q"', '"\\\\"', '"·é"'.encode('utf-8').decode('latin-1'), '"%d %s"'] + LONG
        ops = [W('stringLit', s) for s in lits]
        again = [W('stringLit', s) for s in lits]
        names = [I.invoke(o, 'Print', []) for o in ops]
        c.ob('asm', 'distinct-literals-distinct-storage', len(set(names)) == len(lits))
        c.ob('asm', 'same-literal-same-storage', names == [I.invoke(o, 'Print', []) for o in again])
        del out[:]
        W('flush')
        blocks = {}
        cur = None
        t = ''.join(out)
        for l in t.split('\n'):
            s = l.strip()
            if s.endswith(':') and not s.startswith('.ascii'):
                cur = s[:-1]
                blocks[cur] = []
            elif cur and s.startswith('.8byte'):
                blocks[cur].append(int(s.split()[1]))
            elif cur and s.startswith('.ascii'):
                blocks[cur].append(s[len('.ascii'):].strip())
        raws = [b'abc', b'', b'a\nb', b'q"q', b'\\', '·é'.encode(), b'%d %s'] + [x[1:-1].encode() for x in LONG]
        for s, nme, raw in zip(lits, names, raws):
            lab = nme.lstrip('$')
            c.ob('asm', 'literal-address-after-header', lab.endswith('+8'))
            b = blocks.get(lab[:-2])
            c.ob('asm', 'literal-emitted', b is not None and len(b) == 3, '%s %s' % (lab, b))
            if b is None or len(b) != 3:
                continue
            c.ob('asm', 'literal-header', ((b[0] >> 1) >> 47) == 4 and ((b[0] >> 1) & 3) == 2)
            c.ob('asm', 'literal-length', b[1] == 2 * len(raw) + 1, '%s %s' % (s, b[1]))
            c.ob('asm', 'literal-bytes', gas_unescape(b[2]) == raw + b'\0', '%s %s' % (s, b[2]))
    elif what == 'strsym':
        ss = [SStr(z3.Int(ctx.fresh('text'))) for _ in range(3)]
        ns = [I.invoke(W('stringLit', s), 'Print', []) for s in ss]
        for i in range(3):
            for j in range(i):
                c.ob('asm', 'literals-share-storage-exactly-when-equal', (ss[i].t == ss[j].t) == (ns[i] == ns[j]))
    elif what == 'header':
        W('fnStart', 'nm')
        t = [l.split() for l in text().split('\n') if l.strip()]
        flat = [x[0] for x in t]
        c.ob('asm', 'function-header', '.8byte' in flat and flat[-1] == 'nm:' and
             ((int(t[flat.index('.8byte')][1]) >> 1) >> 47) == 5 and ((int(t[flat.index('.8byte')][1]) >> 1) & 3) == 2 and
             flat.index('.8byte') > flat.index('.align') and ['.globl', 'nm'] in t, str(t))


def gas_unescape(s):
    if not (s.startswith('"') and s.endswith('"')):
        return None
    b = s[1:-1].encode('latin-1')
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i:i + 1] == b'\\':
            d = b[i + 1:i + 2]
            m = {b'n': 10, b'r': 13, b't': 9, b'\\': 92, b'"': 34, b'b': 8, b'f': 12}
            if d in m:
                out.append(m[d]); i += 2
            elif d.isdigit():
                j = i + 1
                while j < len(b) and j < i + 4 and b[j:j + 1] in b'01234567':
                    j += 1
                out.append(int(b[i + 1:j], 8) & 255); i = j
            else:
                return None
        else:
            out.append(b[i]); i += 1
    return bytes(out)


# ---------------------------------------------------------------------------------------------- names of functions
@guarded
def asmnames(ctx, obs, p, sect):
    """AsmName: two functions of one name whose parameter types differ (other than in results of function types and names of type
    parameters) have different symbols. Bounded: types nested twice, up to 3 parameters"""
    c = CG(obs, p, ctx, 0, sect=sect)
    I = c.I
    basic = [(k, c.type(k)) for k in ('Integer', 'Boolean', 'String', 'Bytes', 'Parameter')]

    def named(kind, name, args=()):
        d = I.new('main.%sType' % kind, Name=name, Types=I.slice([t for _, t in args]) if args else None)
        return ((kind, name, tuple(k for k, _ in args)), c.type(kind, d))

    def arr(x):
        return (('[]', x[0]), c.type('Array', I.new('main.ArrayType', Elem=x[1])))

    def fn(*xs):
        return (('fn', tuple(k for k, _ in xs)), c.type('Function', I.new('main.FunctionType', Params=I.slice([t for _, t in xs]) if xs else None, ret=c.gtype('nothingType'))))
    basic += [named('Struct', 'st'), named('Struct', 's'), named('Enum', 'en')]
    some = [basic[0], basic[2], basic[4], basic[5], basic[7]]
    one = [arr(x) for x in basic] + [fn()] + [fn(x) for x in basic] + [fn(x, y) for x in some[:3] for y in some[:3]]
    for k, n in (('Struct', 'box'), ('Enum', 'opt')):
        one += [named(k, n, [x]) for x in basic] + [named(k, n + '2', [x, y]) for x in some for y in some]
    deep = [one[0], one[2], one[5], fn(), fn(some[0]), fn(some[0], some[1]), named('Struct', 'box', [some[0]]), named('Enum', 'opt2', [some[0], some[1]]), arr(fn(some[3]))]
    two = [f(x) for x in deep for f in (arr, fn, lambda x: named('Struct', 'box', [x]), lambda x: named('Enum', 'opt', [x]))]
    two += [fn(x, y) for x in deep for y in some[:2]] + [fn(y, x) for x in deep for y in some[:2]] + [named('Struct', 'box2', [x, y]) for x in deep for y in deep]
    every = basic + one + two
    few = some + [one[0], one[5], deep[3], deep[4], deep[6], deep[7]]
    lists = [()] + [(x,) for x in every] + [(x, y) for x in few for y in every[::3]] + [(x, y) for x in few for y in few] + [(x, y, z) for x in few[:6] for y in few for z in few[:6]]
    seen = {}
    for xs in lists:
        ft = I.new('main.FunctionType', Params=I.slice([t for _, t in xs]) if xs else None, ret=c.gtype('nothingType'))
        key = tuple(k for k, _ in xs)
        nm = I.call('(*main.FunctionType).AsmName', [ft, 'fun'])
        if not isinstance(nm, str):
            raise Unsupported('the name is not a text')
        if not re.fullmatch(r'[\w.$]+', nm):
            raise Unsupported('another kind of symbol')
        if seen.setdefault(nm, key) != key:
            c.ob('name', 'different-parameters-different-symbols', False, '%s: %s and %s' % (nm, seen[nm], key))
            return
        ft2 = I.new('main.FunctionType', Params=I.slice([t for _, t in xs]) if xs else None, ret=c.gtype('nothingType'))
        if I.call('(*main.FunctionType).AsmName', [ft2, 'other']) == nm:
            c.ob('name', 'different-names-different-symbols', False, nm)
            return
    c.ob('name', 'different-parameters-different-symbols', True, '%d lists' % len(lists))
    c.ob('name', 'different-names-different-symbols', True)
