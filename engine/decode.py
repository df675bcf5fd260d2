"""IR instruction -> python closure."""
import z3
from . import ops
from . import merge
from .llir import UNDEF, Reg, InlineAsm, GRef, I, PTR
from .ops import bv, mask
from .sym import Ptr, Unsupported, PathEnd, NORET, _Uncaught, bit, demangle_ti


def getter(eng, v):
    if isinstance(v, Reg):
        n = v.name
        return lambda r: r[n]
    c = eng.const(v)
    return lambda r: c


def decode_block(eng, dec, lbl):
    f = dec.f
    lines = f.blocks[lbl]
    code = []
    phis = []
    phity = []
    dbgs = set()
    for l in lines:
        ins = eng.mod.parse_ins(l)
        if ins.dbg is not None:
            dbgs.add(ins.dbg)
        if ins.op == 'phi':
            phity.append(ins.ty)
            phis.append((ins.dst, {b: getter(eng, v) for v, b in ins.a}))
            continue
        fn = OPS.get(ins.op)
        if fn is None:
            code.append(unsupported(ins))
        else:
            code.append(fn(eng, ins))
    dec.phis[lbl] = phis
    dec.phity[lbl] = phity
    dec.dbgs[lbl] = dbgs
    return code


def unsupported(ins):
    def ex(st, fr):
        raise Unsupported('instruction %s %s' % (ins.op, ins.x))
    return ex


def norm_int(eng, st, v, ty):
    """operand of integer arithmetic"""
    if v is UNDEF:
        return eng.fresh(st, 64 if ty.k == 'ptr' else ty.n)
    if type(v) is Ptr:
        return eng.addr(st, v)
    return v


def d_int(eng, ins):
    op = ins.op
    ty = ins.ty
    a, b = getter(eng, ins.a[0]), getter(eng, ins.a[1])
    dst = ins.dst
    B = ops.binop
    if ty.k == 'vec':
        w = ty.e.n
        et = ty.e

        def ex(st, fr):
            r = fr.r
            out = []
            for x, y in zip(a(r), b(r)):
                if type(x) is not int or type(y) is not int:
                    x = norm_int(eng, st, x, et)
                    y = norm_int(eng, st, y, et)
                if op in DIVS:
                    divcheck(eng, st, op, x, y, w)
                out.append(B(op, x, y, w))
            r[dst] = out
        return ex
    w = ty.n

    def ex(st, fr):
        r = fr.r
        x = a(r)
        y = b(r)
        if type(x) is not int or type(y) is not int:
            x = norm_int(eng, st, x, ty)
            y = norm_int(eng, st, y, ty)
        if op in DIVS:
            divcheck(eng, st, op, x, y, w)
        r[dst] = B(op, x, y, w)
    return ex


DIVS = ('sdiv', 'udiv', 'srem', 'urem')


def divcheck(eng, st, op, x, y, w):
    if type(y) is int:
        if y == 0:
            eng.report(st, 'arith', 'division by zero')
            raise PathEnd()
        return
    m = eng.sat(st, y == 0)
    if m is not None:
        eng.report(st, 'arith', 'division by zero', m)
        nz = z3.Not(y == 0)
        if eng.sat(st, nz) is None:
            raise PathEnd()
        eng.add_pc(st, nz)


def d_fp(eng, ins):
    op = ins.op
    ty = ins.ty
    a, b = getter(eng, ins.a[0]), getter(eng, ins.a[1])
    dst = ins.dst
    B = ops.fbin
    if ty.k == 'vec':
        w = ty.e.n

        def ex(st, fr):
            r = fr.r
            r[dst] = [B(op, fmat(eng, st, x, w), fmat(eng, st, y, w), w) for x, y in zip(a(r), b(r))]
        return ex
    w = ty.n

    def ex(st, fr):
        r = fr.r
        r[dst] = B(op, fmat(eng, st, a(r), w), fmat(eng, st, b(r), w), w)
    return ex


def fmat(eng, st, v, w):
    if v is UNDEF:
        return eng.fresh(st, w)
    return v


def d_fneg(eng, ins):
    a = getter(eng, ins.a[0])
    dst = ins.dst
    ty = ins.ty
    if ty.k == 'vec':
        w = ty.e.n

        def ex(st, fr):
            fr.r[dst] = [ops.fneg(fmat(eng, st, x, w), w) for x in a(fr.r)]
        return ex
    w = ty.n

    def ex(st, fr):
        fr.r[dst] = ops.fneg(fmat(eng, st, a(fr.r), w), w)
    return ex


def matdeep(eng, st, v, ty):
    if ty.k in ('vec', 'arr'):
        return [matdeep(eng, st, x, ty.e) for x in v]
    if ty.k == 'struct':
        return [matdeep(eng, st, x, t) for x, t in zip(v, ty.fields)]
    return eng.mat(st, v, ty)


def d_freeze(eng, ins):
    a = getter(eng, ins.a[0])
    dst = ins.dst
    ty = ins.ty

    def ex(st, fr):
        fr.r[dst] = matdeep(eng, st, a(fr.r), ty)
    return ex


def lanes(ty):
    if ty.k == 'vec':
        return ty.n, (64 if ty.e.k == 'ptr' else ty.e.n)
    return 1, (64 if ty.k == 'ptr' else ty.n)


def bitcast(eng, st, v, t1, t2):
    n1, w1 = lanes(t1)
    n2, w2 = lanes(t2)
    xs = v if t1.k == 'vec' else [v]
    if w1 == w2:
        xs = list(xs)
    elif w1 < w2:
        k = w2 // w1
        out = []
        for i in range(0, n1, k):
            grp = xs[i:i + k]
            if all(x is UNDEF for x in grp):
                out.append(UNDEF)
                continue
            grp = [norm_bits(eng, st, x, w1) for x in grp]
            if w1 == 1:
                grp = [x if type(x) is int else ops.b2bv1(x, 1) for x in grp]
            out.append(ops.concat([(x, w1) for x in grp])[0])
        xs = out
    else:
        k = w1 // w2
        out = []
        for x in xs:
            if x is UNDEF:
                out.extend([UNDEF] * k)
                continue
            x = norm_bits(eng, st, x, w1)
            for j in range(k):
                if w2 == 1:
                    out.append(bit(x, j))
                elif type(x) is int:
                    out.append((x >> (j * w2)) & mask(w2))
                else:
                    out.append(ops.extract(x, j * w2 + w2 - 1, j * w2))
        xs = out
    if t2.k == 'vec':
        return xs
    return xs[0]


def norm_bits(eng, st, x, w):
    if x is UNDEF:
        return eng.fresh(st, w)
    if type(x) is Ptr:
        return eng.addr(st, x)
    return x


def d_cast(eng, ins):
    op = ins.op
    t1 = ins.x
    t2 = ins.ty
    a = getter(eng, ins.a[0])
    dst = ins.dst
    if op in ('bitcast', 'addrspacecast'):
        if t1.k == 'ptr' and t2.k == 'ptr':
            def ex(st, fr):
                fr.r[dst] = a(fr.r)
            return ex

        def ex(st, fr):
            fr.r[dst] = bitcast(eng, st, a(fr.r), t1, t2)
        return ex
    e1 = t1.e if t1.k == 'vec' else t1
    e2 = t2.e if t2.k == 'vec' else t2

    def one(st, v):
        if v is UNDEF:
            v = eng.fresh(st, 64 if e1.k == 'ptr' else e1.n)
        if op == 'trunc':
            return ops.trunc(v, e1.n, e2.n)
        if op == 'zext':
            return ops.zext(v, e1.n, e2.n)
        if op == 'sext':
            return ops.sext(v, e1.n, e2.n)
        if op == 'ptrtoint':
            v = eng.addr(st, v)
            if e2.n < 64:
                v = ops.trunc(v, 64, e2.n)
            elif e2.n > 64:
                v = ops.zext(v, 64, e2.n)
            return v
        if op == 'inttoptr':
            if e1.n < 64:
                v = ops.zext(v, e1.n, 64)
            return v
        if op == 'fpext':
            return ops.fext(v, e1.n, e2.n)
        if op == 'fptrunc':
            return ops.ftrunc(v, e1.n, e2.n)
        if op == 'sitofp':
            return ops.i2f(v, e1.n, e2.n, True)
        if op == 'uitofp':
            return ops.i2f(v, e1.n, e2.n, False)
        if op == 'fptosi':
            return ops.f2i(v, e1.n, e2.n, True)
        if op == 'fptoui':
            return ops.f2i(v, e1.n, e2.n, False)
        raise Unsupported(op)
    if t1.k == 'vec':
        def ex(st, fr):
            fr.r[dst] = [one(st, x) for x in a(fr.r)]
    else:
        def ex(st, fr):
            fr.r[dst] = one(st, a(fr.r))
    return ex


def ptr_cmp(eng, st, pred, x, y):
    if type(x) is Ptr and type(y) is Ptr and x.o == y.o:
        return ops.icmp(pred, x.off, y.off, 64)
    if pred in ('eq', 'ne'):
        if type(x) is Ptr and type(y) is int and y < (1 << 32):
            return int(pred == 'ne')
        if type(y) is Ptr and type(x) is int and x < (1 << 32):
            return int(pred == 'ne')
    return ops.icmp(pred, norm_bits(eng, st, x, 64), norm_bits(eng, st, y, 64), 64)


def d_icmp(eng, ins):
    pred = ins.x
    ty = ins.ty
    a, b = getter(eng, ins.a[0]), getter(eng, ins.a[1])
    dst = ins.dst
    et = ty.e if ty.k == 'vec' else ty
    isptr = et.k == 'ptr'
    w = 64 if isptr else et.n
    C = ops.icmp

    def one(st, x, y):
        if type(x) is int and type(y) is int:
            return C(pred, x, y, w)
        if isptr:
            return ptr_cmp(eng, st, pred, x, y)
        return C(pred, norm_int(eng, st, x, et), norm_int(eng, st, y, et), w)
    if ty.k == 'vec':
        def ex(st, fr):
            fr.r[dst] = [one(st, x, y) for x, y in zip(a(fr.r), b(fr.r))]
    else:
        def ex(st, fr):
            fr.r[dst] = one(st, a(fr.r), b(fr.r))
    return ex


def d_fcmp(eng, ins):
    pred = ins.x
    ty = ins.ty
    a, b = getter(eng, ins.a[0]), getter(eng, ins.a[1])
    dst = ins.dst
    et = ty.e if ty.k == 'vec' else ty
    w = et.n
    C = ops.fcmp

    def one(st, x, y):
        return C(pred, fmat(eng, st, x, w), fmat(eng, st, y, w), w)
    if ty.k == 'vec':
        def ex(st, fr):
            fr.r[dst] = [one(st, x, y) for x, y in zip(a(fr.r), b(fr.r))]
    else:
        def ex(st, fr):
            fr.r[dst] = one(st, a(fr.r), b(fr.r))
    return ex


def d_load(eng, ins):
    ty = ins.ty
    al = ins.x
    p = getter(eng, ins.a[0])
    dst = ins.dst

    def ex(st, fr):
        fr.r[dst] = eng.load(st, ty, p(fr.r), al)
    return ex


def d_store(eng, ins):
    ty = ins.ty
    al = ins.x
    v = getter(eng, ins.a[0])
    p = getter(eng, ins.a[1])

    def ex(st, fr):
        eng.store(st, ty, v(fr.r), p(fr.r), al)
    return ex


def d_alloca(eng, ins):
    ty = ins.ty
    al = max(ins.x, ty.align())
    cnt = getter(eng, ins.a[0])
    dst = ins.dst

    def ex(st, fr):
        n = cnt(fr.r)
        n = eng.concretize(st, n, 'alloca size')
        o = eng.new_obj(st, ty.size() * n, 'stack', align=al)
        fr.allocas.append(o.id)
        fr.r[dst] = Ptr(o.id, 0)
    return ex


def d_gep(eng, ins):
    bt = ins.ty
    args = [(t, getter(eng, v)) for t, v in ins.a]
    dst = ins.dst

    def ex(st, fr):
        r = fr.r
        fr.r[dst] = eng.gep(st, bt, [(t, g(r)) for t, g in args])
    return ex


def sel(eng, st, c, x, y, ty):
    """select one value by a symbolic condition"""
    if type(c) is int:
        return x if c else y
    if x is y:
        return x
    k = ty.k
    if k in ('int', 'float'):
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        if type(x) is Ptr:
            x = eng.addr(st, x)
        if type(y) is Ptr:
            y = eng.addr(st, y)
        return ops.ite(c, x, y, ty.n)
    if k in ('vec', 'arr'):
        return [sel(eng, st, c, p, q, ty.e) for p, q in zip(x, y)]
    if k == 'struct':
        return [sel(eng, st, c, p, q, t) for p, q, t in zip(x, y, ty.fields)]
    if k == 'ptr':
        if type(x) is Ptr and type(y) is Ptr and x.o == y.o:
            return Ptr(x.o, ops.ite(c, x.off, y.off, 64))
        if type(x) is int and type(y) is int and x == y:
            return x
        return x if eng.decide(st, c) else y
    raise Unsupported('select %r' % ty)


def d_select(eng, ins):
    ty = ins.ty
    ct = ins.x
    c, a, b = [getter(eng, v) for v in ins.a]
    dst = ins.dst
    if ct.k == 'vec':
        def ex(st, fr):
            r = fr.r
            r[dst] = [sel(eng, st, eng.mat(st, k, ct.e), x, y, ty.e) for k, x, y in zip(c(r), a(r), b(r))]
        return ex

    def ex(st, fr):
        r = fr.r
        k = c(r)
        if k is UNDEF:
            k = eng.fresh(st, 1)
        r[dst] = sel(eng, st, k, a(r), b(r), ty)
    return ex


def d_br(eng, ins):
    t = ins.x[0]

    def ex(st, fr):
        eng.goto(st, fr, t)
    return ex


def d_condbr(eng, ins):
    c = getter(eng, ins.a[0])
    t, e = ins.x

    def ex(st, fr):
        k = c(fr.r)
        if type(k) is not int:
            if k is UNDEF:
                eng.report(st, 'undef', 'branch on an undefined value')
                raise PathEnd()
            if eng.o['merge']:
                k = eng.settle(st, k)
                if type(k) is not int and merge.attempt(eng, st, fr, k, t, e):
                    return
            k = eng.decide(st, k)
        eng.goto(st, fr, t if k else e)
    return ex


def d_switch(eng, ins):
    v = getter(eng, ins.a[0])
    d, cases = ins.x
    ty = ins.ty
    cs = [(eng.const(c), l) for c, l in cases]
    tab = {c: l for c, l in cs}

    def ex(st, fr):
        k = v(fr.r)
        if type(k) is int:
            eng.goto(st, fr, tab.get(k, d))
            return
        k = norm_int(eng, st, k, ty)
        if type(k) is int:
            eng.goto(st, fr, tab.get(k, d))
            return
        for c, l in cs:
            if eng.decide(st, ops.icmp('eq', k, c, ty.n)):
                eng.goto(st, fr, l)
                return
        eng.goto(st, fr, d)
    return ex


def d_ret(eng, ins):
    if not ins.a:
        def ex(st, fr):
            eng.ret(st, None)
        return ex
    v = getter(eng, ins.a[0])

    def ex(st, fr):
        eng.ret(st, v(fr.r))
    return ex


def d_unreachable(eng, ins):
    def ex(st, fr):
        eng.report(st, 'unreachable', 'execution reaches undefined behaviour (unreachable)')
        raise PathEnd()
    return ex


def d_call(eng, ins):
    callee, args = ins.a
    dst = ins.dst if ins.ty.k != 'void' else None
    inv = ins.x
    tys = [(t, at) for t, v, at in args]
    gs = [getter(eng, v) if t.k != 'meta' else None for t, v, at in args]
    ret = ins.ty
    if isinstance(callee, InlineAsm):
        from . import externs

        def ex(st, fr):
            r = fr.r
            fr.r[ins.dst] = externs.inline_asm(eng, st, callee, [g(r) for g in gs], tys, ret)
        return ex
    if isinstance(callee, GRef):
        name = callee.name

        def ex(st, fr):
            r = fr.r
            eng.call(st, fr, name, [g(r) if g is not None else None for g in gs], tys, dst, inv, ret)
        return ex
    cg = getter(eng, callee)

    def ex(st, fr):
        r = fr.r
        eng.call(st, fr, cg(r), [g(r) if g is not None else None for g in gs], tys, dst, inv, ret)
    return ex


def d_landingpad(eng, ins):
    clauses = [(k, eng.const(v) if v is not None else None) for k, v in ins.x]
    dst = ins.dst

    def ex(st, fr):
        ptr, tn, dtor = st.exc
        selv = 0
        for k, v in clauses:
            if k == 'catch':
                cn = eng.tname(st, v)
                if cn is None:
                    selv = eng.tid(None)
                    break
                if eng.subtype(tn, cn):
                    selv = eng.tid(cn)
                    break
            elif k == 'filter':
                selv = mask(32)   # exception specification: negative selector
                break
        fr.r[dst] = [ptr, selv]
    return ex


def d_resume(eng, ins):
    def ex(st, fr):
        exc = st.exc
        try:
            eng.unwind(st)
        except _Uncaught:
            eng.report(st, 'exception', 'uncaught exception %s' % demangle_ti(exc[1]))
            raise PathEnd()
    return ex


def d_extractvalue(eng, ins):
    a = getter(eng, ins.a[0])
    idx = ins.x
    dst = ins.dst

    def ex(st, fr):
        v = a(fr.r)
        for i in idx:
            v = v[i] if v is not UNDEF else UNDEF
        fr.r[dst] = v
    return ex


def d_insertvalue(eng, ins):
    a = getter(eng, ins.a[0])
    b = getter(eng, ins.a[1])
    idx = ins.x
    dst = ins.dst

    def ins_(v, idx, e):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = ins_(v[idx[0]], idx[1:], e)
        return v

    def ex(st, fr):
        fr.r[dst] = ins_(a(fr.r), idx, b(fr.r))
    return ex


def d_extractelement(eng, ins):
    a = getter(eng, ins.a[0])
    b = getter(eng, ins.a[1])
    dst = ins.dst
    ty = ins.ty

    def ex(st, fr):
        v = a(fr.r)
        i = b(fr.r)
        if type(i) is int:
            if i >= len(v):
                eng.report(st, 'memory', 'vector element index out of range')
                raise PathEnd()
            fr.r[dst] = v[i]
            return
        w = i.size()
        r = v[-1]
        for j in range(len(v) - 2, -1, -1):
            r = sel(eng, st, i == bv(j, w), v[j], r, ty.e)
        fr.r[dst] = r
    return ex


def d_insertelement(eng, ins):
    a, e, b = [getter(eng, x) for x in ins.a]
    dst = ins.dst
    ty = ins.ty

    def ex(st, fr):
        r = fr.r
        v = list(a(r))
        i = b(r)
        x = e(r)
        if type(i) is int:
            if i >= len(v):
                eng.report(st, 'memory', 'vector element index out of range')
                raise PathEnd()
            v[i] = x
        else:
            w = i.size()
            v = [sel(eng, st, i == bv(j, w), x, v[j], ty.e) for j in range(len(v))]
        r[dst] = v
    return ex


def d_shuffle(eng, ins):
    a = getter(eng, ins.a[0])
    b = getter(eng, ins.a[1])
    m = ins.x
    dst = ins.dst
    n = ins.ty.n

    def ex(st, fr):
        x = a(fr.r)
        y = b(fr.r)
        out = []
        for i in m:
            if i is UNDEF:
                out.append(UNDEF)
            elif i < n:
                out.append(x[i])
            else:
                out.append(y[i - n])
        fr.r[dst] = out
    return ex


def d_fence(eng, ins):
    def ex(st, fr):
        pass
    return ex


OPS = {}
for o in 'add sub mul sdiv udiv srem urem shl lshr ashr and or xor'.split():
    OPS[o] = d_int
for o in 'fadd fsub fmul fdiv frem'.split():
    OPS[o] = d_fp
for o in 'trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split():
    OPS[o] = d_cast
OPS.update({
    'fneg': d_fneg, 'freeze': d_freeze, 'icmp': d_icmp, 'fcmp': d_fcmp, 'load': d_load, 'store': d_store,
    'alloca': d_alloca, 'getelementptr': d_gep, 'select': d_select, 'br': d_br, 'condbr': d_condbr,
    'switch': d_switch, 'ret': d_ret, 'unreachable': d_unreachable, 'call': d_call, 'invoke': d_call,
    'landingpad': d_landingpad, 'resume': d_resume, 'extractvalue': d_extractvalue,
    'insertvalue': d_insertvalue, 'extractelement': d_extractelement, 'insertelement': d_insertelement,
    'shufflevector': d_shuffle, 'fence': d_fence,
})
