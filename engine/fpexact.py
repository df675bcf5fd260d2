"""Bit-precise re-check of a query whose floating point operators were abstracted as uninterpreted functions."""
import time
import z3

SORT = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()
APPROX = ('rsqrt', 'rcp')


def walk(es):
    seen = set()
    stack = list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield e
        stack.extend(e.children())


def ufs(q):
    pc, neg = q
    out = set()
    for e in walk(list(pc) + [neg]):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            out.add(e.decl().name())
    return out


class NotExact(Exception):
    pass


def translate(es):
    cache = {}

    def tofp(b, w):
        return z3.fpBVToFP(b, SORT[w])

    def conv(name, args):
        m = name
        for op, f in (('fadd', z3.fpAdd), ('fmul', z3.fpMul), ('fdiv', z3.fpDiv)):
            if m in (op + '32', op + '64'):
                w = int(m[-2:])
                return z3.fpToIEEEBV(f(RNE, tofp(args[0], w), tofp(args[1], w)))
        if m in ('fsqrt32', 'fsqrt64'):
            w = int(m[-2:])
            return z3.fpToIEEEBV(z3.fpSqrt(RNE, tofp(args[0], w)))
        if m in ('ffma32', 'ffma64'):
            w = int(m[-2:])
            return z3.fpToIEEEBV(z3.fpFMA(RNE, tofp(args[0], w), tofp(args[1], w), tofp(args[2], w)))
        for n, rm in (('ffloor', z3.RTN()), ('fceil', z3.RTP()), ('ftrunc', z3.RTZ()), ('frint', z3.RNE())):
            if m in (n + '32', n + '64'):
                w = int(m[-2:])
                return z3.fpToIEEEBV(z3.fpRoundToIntegral(rm, tofp(args[0], w)))
        if m == 'fpext32_64':
            return z3.fpToIEEEBV(z3.fpFPToFP(RNE, tofp(args[0], 32), SORT[64]))
        if m == 'fptrunc64_32':
            return z3.fpToIEEEBV(z3.fpFPToFP(RNE, tofp(args[0], 64), SORT[32]))
        import re
        r = re.match(r'([su])i(\d+)tofp(\d+)$', m)
        if r:
            w = int(r.group(3))
            f = z3.fpSignedToFP if r.group(1) == 's' else z3.fpUnsignedToFP
            return z3.fpToIEEEBV(f(RNE, args[0], SORT[w]))
        r = re.match(r'f(\d+)to([su])i(\d+)_(trunc|rne)$', m)
        if r:
            w, iw = int(r.group(1)), int(r.group(3))
            rm = z3.RTZ() if r.group(4) == 'trunc' else RNE
            x = tofp(args[0], w)
            f = z3.fpToSBV if r.group(2) == 's' else z3.fpToUBV
            ind = z3.BitVecVal(1 << (iw - 1), iw)
            rx = z3.fpRoundToIntegral(rm, x)
            lim = z3.FPVal(2.0 ** (iw - 1), SORT[w])
            bad = z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x), z3.fpGEQ(rx, lim), z3.fpLT(rx, z3.fpNeg(lim)))
            return z3.If(bad, ind, f(rm, x, z3.BitVecSort(iw)))
        raise NotExact(name)

    def go(root):
        stack = [root]
        while stack:
            e = stack[-1]
            i = e.get_id()
            if i in cache:
                stack.pop()
                continue
            ch = e.children()
            pend = [c for c in ch if c.get_id() not in cache]
            if pend:
                stack.extend(pend)
                continue
            args = [cache[c.get_id()][1] for c in ch]
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and args:
                r = conv(e.decl().name(), args)
            elif args:
                r = e.decl()(*args) if e.decl().arity() == len(args) or True else e
            else:
                r = e
            cache[i] = (e, r)
            stack.pop()
        return cache[root.get_id()][1]
    out = []
    for e in es:
        if e.num_args() and e.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            pass
        out.append(go(e))
    return out


def dump(q):
    pc, neg = q
    s = z3.Solver()
    s.add(*pc)
    s.add(neg)
    return s.to_smt2()


def decide(job):
    """job: (smt2 text of a query with uninterpreted operators, inputs, timeout)"""
    text, inputs, timeout_ms = job
    try:
        fs = translate(list(z3.parse_smt2_string(text)))
    except NotExact as ex:
        return ('inexact', None)
    except Exception as ex:
        return ('error', None)
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return ('unsat', None)
    if r == z3.sat:
        m = s.model()
        ins = []
        for n, k, old in inputs:
            w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'f32': 32, 'f64': 64, 'base': 64}[k]
            nm = 'in_%s' % n if k == 'base' else 'in_%s_%s' % (n, k)
            ins.append((n, k, m.eval(z3.BitVec(nm, w), model_completion=True).as_long()))
        return ('sat', ins)
    return ('unknown', None)
