"""Merging of short branches.

A conditional branch both sides of which reach the same join after a few side effect free instructions, loads and stores
is executed as both sides plus a case distinction on the values which differ, rather than as two paths.
"""
import z3
from . import ops
from .llir import UNDEF
from .ops import bv

MAXBLOCKS = 24
OKCALL = ('llvm.',)
BADCALL = ('llvm.mem', 'llvm.lifetime', 'llvm.stack', 'llvm.va_')


class Abort(Exception):
    pass


def cfg(eng, f):
    c = getattr(f.decoded, 'cfg', None)
    if c is not None:
        return c
    succ = {}
    simple = {}
    for lbl, lines in f.blocks.items():
        ok = True
        ss = []
        for l in lines:
            ins = eng.mod.parse_ins(l)
            if ins.op == 'br':
                ss = [ins.x[0]]
            elif ins.op == 'condbr':
                ss = list(ins.x)
            elif ins.op == 'switch':
                ss = [ins.x[0]] + [l for _, l in ins.x[1]]
                ok = False
            elif ins.op in ('call', 'invoke'):
                nm = getattr(ins.a[0], 'name', None) or str(ins.a[0])
                if ins.op == 'invoke' or ins.x:
                    ok = False
                    ss = [x for x in ins.x or () if x in f.blocks]
                elif not (nm.lstrip('@').startswith(OKCALL) and not nm.lstrip('@').startswith(BADCALL)):
                    ok = False
            elif ins.op in ('ret', 'unreachable', 'resume', 'alloca', 'landingpad', 'atomicrmw', 'cmpxchg', 'fence'):
                ok = False
        succ[lbl] = ss
        simple[lbl] = ok
    f.decoded.cfg = (succ, simple)
    return f.decoded.cfg


def join(eng, f, blk):
    """the block in which both sides of the branch ending blk meet, if the region between is acyclic and simple"""
    cache = f.decoded.joins
    if blk in cache:
        return cache[blk]
    succ, simple = cfg(eng, f)
    r = None
    t, e = (succ[blk] + [None])[:2]
    if t is not None and e is not None and t != e:
        cands = [x for x in reach(succ, t) if x in set(reach(succ, e))]
        for j in cands:
            if region(succ, simple, t, j, blk) and region(succ, simple, e, j, blk):
                r = j
                break
    cache[blk] = r
    return r


def reach(succ, b):
    out = [b]
    for x in out:
        if len(out) > 3 * MAXBLOCKS:
            break
        for s in succ[x]:
            if s not in out:
                out.append(s)
    return out


def region(succ, simple, b, j, start):
    """all paths from b reach j through simple blocks, without a cycle"""
    state = {}
    n = [0]

    def go(x):
        if x == j:
            return True
        if x == start or not simple[x] or not succ[x]:
            return False
        s = state.get(x)
        if s == 1:
            return False
        if s == 2:
            return True
        state[x] = 1
        n[0] += 1
        if n[0] > MAXBLOCKS:
            return False
        for y in succ[x]:
            if not go(y):
                return False
        state[x] = 2
        return True
    return go(b)


def ite(k, a, b):
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta is list or tb is list or ta is tuple or tb is tuple:
        if ta is not tb or len(a) != len(b):
            raise Abort()
        return ta([ite(k, x, y) for x, y in zip(a, b)])
    if a is UNDEF or b is UNDEF:
        raise Abort()
    if hasattr(a, 'off') or hasattr(b, 'off'):
        if hasattr(a, 'off') and hasattr(b, 'off') and a.o == b.o:
            if type(a.off) is int and type(b.off) is int and a.off == b.off:
                return a
        raise Abort()
    if ta is int and tb is int:
        if a == b:
            return a
        raise Abort()       # the width is decided by the caller
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        x = a if ta is not int else z3.BoolVal(bool(a))
        y = b if tb is not int else z3.BoolVal(bool(b))
        return z3.simplify(z3.If(k, x, y))
    if not (isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef)):
        raise Abort()
    w = a.size() if ta is not int else b.size()
    return ops.ite(k, a, b, w)


def itew(k, a, b, w):
    if type(a) is int and type(b) is int:
        if a == b:
            return a
        if w == 1:
            return k if a else z3.Not(k)
        return ops.ite(k, a, b, w)
    return ite(k, a, b)


def itety(k, a, b, ty):
    if ty.k == 'vec' and type(a) is list and type(b) is list:
        return [itety(k, x, y, ty.e) for x, y in zip(a, b)]
    if type(a) is int and type(b) is int:
        if a == b:
            return a
        w = getattr(ty, 'n', None)
        if ty.k == 'ptr' or w is None:
            raise Abort()
        return itew(k, a, b, w)
    return ite(k, a, b)


def side(eng, st, cond, tgt, j):
    s = st.clone()
    fr = s.frames[-1]
    eng.add_pc(s, cond)
    depth = len(s.frames)
    nw = len(eng.work)
    nund = s.nund
    eng.goto(s, fr, tgt)
    n = 0
    while fr.blk != j:
        ip = fr.ip
        fr.ip = ip + 1
        fr.code[ip](s, fr)
        n += 1
        if n > 5000 or len(s.frames) != depth or len(eng.work) != nw or s.nund != nund:
            raise Abort()
    if len(eng.work) != nw or s.nund != nund or fr.ip != 0:
        raise Abort()
    s.steps += n
    return s


def attempt(eng, st, fr, c, t, e):
    """returns True if the branch was executed in both directions and merged"""
    j = join(eng, fr.fn, fr.blk)
    if j is None:
        return False
    from . import sym
    nw = len(eng.work)
    nv = dict(eng.violations)
    obl = (eng.obligations, eng.discharged, eng.trivial)
    try:
        a = side(eng, st, c, t, j)
        b = side(eng, st, z3.Not(c), e, j)
        news = []
        for oid, oa in a.mem.items():
            ob = b.mem.get(oid)
            if ob is oa:
                continue
            o0 = st.mem.get(oid) or eng.base_mem.get(oid)
            if ob is None:
                ob = o0
            if ob is None or oa.alive != ob.alive or oa.wlog != ob.wlog or oa.size != ob.size:
                raise Abort()
            news.append((oid, oa, ob))
        for oid, ob in b.mem.items():
            if oid not in a.mem:
                o0 = st.mem.get(oid) or eng.base_mem.get(oid)
                if o0 is None or o0.alive != ob.alive or o0.wlog != ob.wlog:
                    raise Abort()
                news.append((oid, o0, ob))
        writes = []
        for oid, oa, ob in news:
            keys = {}
            for off, (n, v) in list(oa.cells.items()):
                x = ob.cells.get(off)
                if x is None or x[0] != n or x[1] is not v:
                    keys[(off, n)] = 1
            for off, (n, v) in list(ob.cells.items()):
                x = oa.cells.get(off)
                if x is None or x[0] != n:
                    keys[(off, n)] = 1
            for off, n in keys:
                x = eng._rd(a, oa, off, n)
                y = eng._rd(b, ob, off, n)
                writes.append((oid, off, n, itew(c, x, y, 8 * n)))
        if a.nund != st.nund or b.nund != st.nund:
            raise Abort()
        d = fr.fn.decoded
        phis = []
        ra, rb = a.frames[-1].r, b.frames[-1].r
        for i, (dst, inc) in enumerate(d.phis[j]):
            phis.append((dst, itety(c, ra[dst], rb[dst], d.phity[j][i])))
    except (Abort, sym.PathEnd):
        del eng.work[nw:]
        eng.violations.clear()
        eng.violations.update(nv)
        eng.obligations, eng.discharged, eng.trivial = obl
        eng.merge_aborts += 1
        return False
    for oid, off, n, v in writes:
        if oid not in st.mem:
            o = eng.base_mem[oid].copy(st.token)
            st.mem[oid] = o
        eng._wr(st, eng.wobj(st, oid), off, n, v)
    for dst, v in phis:
        fr.r[dst] = v
    fr.blk = j
    fr.code = d.block(eng, j)
    fr.ip = 0
    st.steps += a.steps - st.steps + 1
    eng.blocks_hit.add((fr.fn.name, j))
    eng.merges += 1
    return True
