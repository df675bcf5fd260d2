"""Environment model: harness API, C/C++ runtime, LLVM and x86 intrinsics.

Everything here is part of the trusted base and is listed in DESIGN.md.
"""
import re
import z3
from . import ops
from .llir import UNDEF, I, PTR, F32, F64
from .ops import bv, mask
from .sym import Ptr, Unsupported, PathEnd, Budget, NORET, SLOT, demangle_ti, bit, _Uncaught

H = {}          # exact name -> handler
RX = []         # (regex, handler factory)


def h(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


def rx(pat):
    def deco(f):
        RX.append((re.compile(pat + r'$'), f))
        return f
    return deco


def lookup(name):
    f = H.get(name)
    if f is not None:
        return f
    for r, f in RX:
        m = r.match(name)
        if m:
            return lambda eng, st, a, inv, tys, ret, f=f, m=m: f(eng, st, a, inv, tys, ret, m)
    return None


def install(eng):
    pass


def cstr(eng, st, p):
    p = eng.resolve(st, p, 'read')
    o = eng.obj(st, p.o)
    out = []
    i = p.off
    while i < o.size:
        c = o.cells.get(i, (1, 0))[1]
        if c == 0:
            break
        out.append(chr(c))
        i += 1
    return ''.join(out)


# ------------------------------------------------------------------ harness API
def newinput(eng, st, a, kind, w):
    name = cstr(eng, st, a[0])
    k = st.names.get(name, 0)
    st.names[name] = k + 1
    full = '%s.%d' % (name, k)
    v = z3.BitVec('in_%s_%s' % (full, kind), w)
    st.inputs.append((full, kind, v))
    return v


@h('vf_select')
def _(eng, st, a, inv, tys, ret):
    c = eng.mat(st, a[0], tys[0][0])
    x = eng.mat(st, a[1], tys[1][0])
    y = eng.mat(st, a[2], tys[2][0])
    if type(c) is int:
        return x if c & 1 else y
    if not z3.is_bool(c):
        c = z3.simplify(z3.Extract(0, 0, c) == 1)
        if z3.is_true(c):
            return x
        if z3.is_false(c):
            return y
    return ops.ite(c, x, y, 64)


@h('vf_u8')
def _(eng, st, a, inv, tys, ret):
    return newinput(eng, st, a, 'u8', 8)


@h('vf_u16')
def _(eng, st, a, inv, tys, ret):
    return newinput(eng, st, a, 'u16', 16)


@h('vf_u32')
def _(eng, st, a, inv, tys, ret):
    return newinput(eng, st, a, 'u32', 32)


@h('vf_u64')
def _(eng, st, a, inv, tys, ret):
    return newinput(eng, st, a, 'u64', 64)


@h('vf_f32')
def _(eng, st, a, inv, tys, ret):
    return newinput(eng, st, a, 'f32', 32)


@h('vf_f64')
def _(eng, st, a, inv, tys, ret):
    return newinput(eng, st, a, 'f64', 64)


def tobool(eng, st, v, ty):
    v = eng.mat(st, v, ty)
    if ty.n == 1:
        return v
    if type(v) is int:
        return int(v != 0)
    return ops.icmp('ne', v, 0, ty.n)


@h('vf_assume')
def _(eng, st, a, inv, tys, ret):
    c = tobool(eng, st, a[0], tys[0][0])
    if type(c) is int:
        if not c:
            raise PathEnd()
        return None
    if eng.sat(st, c) is None:
        raise PathEnd()
    eng.add_pc(st, c)
    return None


@h('vf_check')
def _(eng, st, a, inv, tys, ret):
    c = tobool(eng, st, a[0], tys[0][0])
    eng.check(st, c, 'check', cstr(eng, st, a[1]))
    return None


import os
DBG = os.environ.get('VF_DBGEQ')


def eqf(eng, st, a, w):
    x = eng.fresh(st, w) if a[0] is UNDEF else a[0]
    y = eng.fresh(st, w) if a[1] is UNDEF else a[1]
    if type(x) is not int and type(y) is not int and x.eq(y):
        c = 1
    else:
        if DBG:
            print('EQF', x.sexpr() if type(x) is not int else x, '|||', y.sexpr() if type(y) is not int else y, flush=True)
        c = ops.or_(ops.icmp('eq', x, y, w), ops.and_(ops.isnan(x, w), ops.isnan(y, w)))
    eng.check(st, c, 'check', cstr(eng, st, a[2]))


@h('vf_check_eq_f32')
def _(eng, st, a, inv, tys, ret):
    eqf(eng, st, a, 32)


@h('vf_check_eq_f64')
def _(eng, st, a, inv, tys, ret):
    eqf(eng, st, a, 64)


@h('vf_check_close_f32')
def _(eng, st, a, inv, tys, ret):
    """vf_check_close_f32(actual, expected, maxrel (double), msg): recorded for the real-arithmetic pass"""
    from . import close
    close.check(eng, st, a[0], a[1], a[2], 32, cstr(eng, st, a[3]))


@h('vf_check_close_i32')
def _(eng, st, a, inv, tys, ret):
    from . import close
    close.check_int(eng, st, a[0], a[1], a[2], a[3], cstr(eng, st, a[4]))


@h('vf_check_close_f64')
def _(eng, st, a, inv, tys, ret):
    from . import close
    close.check(eng, st, a[0], a[1], a[2], 64, cstr(eng, st, a[3]))


@h('vf_reach')
def _(eng, st, a, inv, tys, ret):
    nm = cstr(eng, st, a[0])
    m = eng.sat(st, z3.BoolVal(True))
    if m is not None:
        eng.reached[nm] = eng.reached.get(nm, 0) + 1
        if eng.sample_model is None:
            eng.sample_model = [(n, k, m.eval(v, model_completion=True).as_long()) for n, k, v in st.inputs]


@h('vf_live_allocs')
def _(eng, st, a, inv, tys, ret):
    return len(st.live) & mask(32)


@h('vf_is_symbolic')
def _(eng, st, a, inv, tys, ret):
    return 1


@h('vf_ctor', 'vf_dtor', 'vf_use')
def _(eng, st, a, inv, tys, ret):
    raise Unsupported('tracked intrinsic')


@h('vf_sym_heap')
def _(eng, st, a, inv, tys, ret):
    """from here on, heap chunks start at an arbitrary (symbolic) 16-byte aligned address"""
    st.nondet_base = bool(a[0])


@h('vf_alloc_fail_at')
def _(eng, st, a, inv, tys, ret):
    """the k-th heap allocation from now on throws std::bad_alloc (k symbolic or concrete)"""
    st.failk = eng.mat(st, a[0], tys[0][0])
    st.nalloc = 0


@h('vf_thread')
def _(eng, st, a, inv, tys, ret):
    """the following accesses are those of thread 1 or 2; 0: both have ended"""
    st.thr = a[0]
    if a[0] == 1:
        st.acc = {}
    elif a[0] == 0:
        eng.race_check(st)


@h('vf_dev_alloc')
def _(eng, st, a, inv, tys, ret):
    if st.dev is None:
        st.dev = 0
    n = eng.mat(st, a[0], I(64))
    if type(n) is not int:
        n = eng.concretize(st, n, 'allocation size')
    if n == 0:
        return 0
    return alloc(eng, st, n, 'cuda', inv, align=256)


@h('vf_dev_free')
def _(eng, st, a, inv, tys, ret):
    free(eng, st, a[0], 'cuda')


@h('vf_dev_mode')
def _(eng, st, a, inv, tys, ret):
    st.dev = a[0]


@h('vf_dev_copy')
def _(eng, st, a, inv, tys, ret):
    n = eng.mat(st, a[2], I(64))
    if type(n) is not int:
        n = eng.concretize(st, n, 'length of a copy')
    if n == 0:
        return
    for p, dev in ((a[0], a[3] in (1, 3)), (a[1], a[3] in (2, 3))):
        q = eng.resolve(st, p, 'copy')
        if a[3] != 4 and (eng.obj(st, q.o).how == 'cuda') != dev:
            eng.report(st, 'memory', 'copy of the wrong kind')
            raise PathEnd()
    k, st.dev = st.dev, 2
    eng.memcpy(st, a[0], a[1], n)
    st.dev = k


@h('vf_huge')
def _(eng, st, a, inv, tys, ret):
    """a block of any size that nobody releases"""
    o = eng.new_obj(st, a[0], 'huge', align=4096)
    o.init = 'zero'
    return Ptr(o.id, 0)


@h('vf_shared')
def _(eng, st, a, inv, tys, ret):
    return None


@h('vf_concrete_u64')
def _(eng, st, a, inv, tys, ret):
    """fork over the feasible values of the argument"""
    return eng.concretize(st, eng.mat(st, a[0], tys[0][0]), 'explicit concretisation')


# ------------------------------------------------------------------ allocation
def alloc(eng, st, size, how, inv, align=16, zero=False, nothrow=False):
    size = eng.mat(st, size, I(64))
    if type(size) is not int:
        big = z3.UGT(size, bv(eng.o['max_alloc'], 64))
        if eng.decide(st, big):
            return badalloc(eng, st, inv, how, nothrow)
        size = eng.concretize(st, size, 'allocation size')
    if size > eng.o['max_alloc']:
        return badalloc(eng, st, inv, how, nothrow)
    if st.failk is not None:
        k = st.failk
        c = ops.icmp('eq', k, st.nalloc, 32)
        if eng.decide(st, c):
            st.nalloc += 1
            return badalloc(eng, st, inv, how, nothrow)
        st.nalloc += 1
    o = eng.new_obj(st, size, 'heap', how=how, align=align)
    if st.nondet_base:
        k = st.names.get('heapbase', 0)
        st.names['heapbase'] = k + 1
        m = z3.BitVec('in_heapbase.%d' % k, 64)
        st.inputs.append(('heapbase.%d' % k, 'base', m))
        eng.add_pc(st, z3.ULT(m, bv(8192 // 16, 64)))
        if align > 16:
            eng.add_pc(st, (m & bv(align // 16 - 1, 64)) == bv(0, 64))
        o.base = bv((o.id << SLOT) + 0x10000000, 64) + m * bv(16, 64)
    if zero:
        o.init = 'zero'
    st.live.add(o.id)
    return Ptr(o.id, 0)


def badalloc(eng, st, inv, how, nothrow=False):
    if how == 'malloc' or nothrow:
        return 0
    throw_std(eng, st, inv, '_ZTISt9bad_alloc')
    return NORET


def throw_std(eng, st, inv, ti):
    o = eng.new_obj(st, 16, 'exc', how='exc')
    eng.throw_from_extern(st, inv, (Ptr(o.id, 0), ti, 0))
    return NORET


def free(eng, st, p, how, size=None):
    if type(p) is int and p == 0:
        return
    p = eng.resolve(st, p, 'free')
    o = eng.obj(st, p.o)
    off = p.off
    if type(off) is not int:
        off = ops.simp(off)
        if type(off) is not int:
            z = off == bv(0, 64)
            m = eng.sat(st, z3.Not(z))
            if m is not None:
                eng.report(st, 'memory', 'free of a pointer that was not allocated', m)
                raise PathEnd()
            off = 0
    if o.kind != 'heap' or off != 0:
        eng.report(st, 'memory', 'free of a pointer that was not allocated')
        raise PathEnd()
    if not o.alive:
        eng.report(st, 'memory', 'double free')
        raise PathEnd()
    if o.how != how:
        eng.report(st, 'memory', 'mismatched deallocation (%s released by %s)' % (o.how, how))
        raise PathEnd()
    if size is not None:
        size = eng.mat(st, size, I(64))
        c = ops.icmp('eq', size, o.size, 64)
        if type(c) is int:
            if not c:
                eng.report(st, 'memory', 'sized delete with wrong size')
                raise PathEnd()
        else:
            m = eng.sat(st, z3.Not(c))
            if m is not None:
                eng.report(st, 'memory', 'sized delete with wrong size', m)
                raise PathEnd()
    if st.thr:
        eng.note(st, Ptr(p.o, 0), o.size, True)
    o = eng.wobj(st, p.o)
    o.alive = False
    o.cells = {}
    st.live.discard(o.id)


@h('_Znwm')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[0], 'new', inv)


@h('_Znam')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[0], 'new[]', inv)


@h('_ZnwmRKSt9nothrow_t')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[0], 'new', inv, nothrow=True)


@h('_ZnamRKSt9nothrow_t')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[0], 'new[]', inv, nothrow=True)


def conc(eng, st, v):
    return eng.concretize(st, eng.mat(st, v, I(64)), 'alignment')


@h('_ZnwmSt11align_val_t')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[0], 'new-aligned', inv, align=max(16, conc(eng, st, a[1])))


@h('_ZnamSt11align_val_t')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[0], 'new[]-aligned', inv, align=max(16, conc(eng, st, a[1])))


@h('_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(eng, st, a, inv, tys, ret):
    free(eng, st, a[0], 'new-aligned')


@h('_ZdaPvSt11align_val_t', '_ZdaPvmSt11align_val_t')
def _(eng, st, a, inv, tys, ret):
    free(eng, st, a[0], 'new[]-aligned')


@h('malloc')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[0], 'malloc', inv)


@h('calloc')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, ops.binop('mul', eng.mat(st, a[0], I(64)), eng.mat(st, a[1], I(64)), 64), 'malloc', inv,
                 zero=True)


@h('aligned_alloc')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[1], 'malloc', inv, align=max(16, conc(eng, st, a[0])))


@h('posix_memalign')
def _(eng, st, a, inv, tys, ret):
    p = alloc(eng, st, a[2], 'malloc', inv, align=max(16, conc(eng, st, a[1])))
    if p == 0:
        return 12
    eng.store(st, PTR, p, a[0])
    return 0


@h('_mm_malloc')
def _(eng, st, a, inv, tys, ret):
    return alloc(eng, st, a[0], 'malloc', inv, align=max(16, conc(eng, st, a[1])))


@h('free', '_mm_free')
def _(eng, st, a, inv, tys, ret):
    free(eng, st, a[0], 'malloc')


@h('_ZdlPv')
def _(eng, st, a, inv, tys, ret):
    free(eng, st, a[0], 'new')


@h('_ZdlPvm')
def _(eng, st, a, inv, tys, ret):
    free(eng, st, a[0], 'new', a[1])


@h('_ZdaPv')
def _(eng, st, a, inv, tys, ret):
    free(eng, st, a[0], 'new[]')


@h('_ZdaPvm')
def _(eng, st, a, inv, tys, ret):
    free(eng, st, a[0], 'new[]')


# ------------------------------------------------------------------ memory functions
def clen(eng, st, v):
    return eng.concretize(st, eng.mat(st, v, I(64)), 'length')


@h('memcpy', 'memmove')
def _(eng, st, a, inv, tys, ret):
    eng.memcpy(st, a[0], a[1], clen(eng, st, a[2]))
    return a[0]


@rx(r'llvm\.(memcpy|memmove)(\.inline)?\..*')
def _(eng, st, a, inv, tys, ret, m):
    eng.memcpy(st, a[0], a[1], clen(eng, st, a[2]))


def memset(eng, st, p, v, n):
    v = eng.mat(st, v, I(8))
    if n == 0:
        return
    q, o = eng.access(st, p, n, 'write')
    i = 0
    while i < n:
        k = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
        if type(v) is int:
            x = int.from_bytes(bytes([v & 255]) * k, 'little')
        else:
            x = ops.concat([(ops.trunc(v, v.size(), 8) if v.size() > 8 else v, 8)] * k)[0]
        eng.wr(st, Ptr(q.o, eng.offadd(q.off, i)), eng.obj(st, q.o), k, x)
        i += k


@h('memset')
def _(eng, st, a, inv, tys, ret):
    v = eng.mat(st, a[1], I(32))
    memset(eng, st, a[0], ops.trunc(v, 32, 8), clen(eng, st, a[2]))
    return a[0]


@rx(r'llvm\.memset(\.inline)?\..*')
def _(eng, st, a, inv, tys, ret, m):
    memset(eng, st, a[0], a[1], clen(eng, st, a[2]))


@h('memcmp', 'bcmp')
def _(eng, st, a, inv, tys, ret):
    n = clen(eng, st, a[2])
    r = 0
    for i in reversed(range(n)):
        x = eng.load(st, I(8), eng.padd(a[0], i))
        y = eng.load(st, I(8), eng.padd(a[1], i))
        lt = ops.icmp('ult', x, y, 8)
        gt = ops.icmp('ugt', x, y, 8)
        r = ops.ite(lt, mask(32), ops.ite(gt, 1, r, 32), 32)
    return r


@h('strlen')
def _(eng, st, a, inv, tys, ret):
    return len(cstr(eng, st, a[0]))


# ------------------------------------------------------------------ exceptions / termination
@h('__cxa_allocate_exception')
def _(eng, st, a, inv, tys, ret):
    o = eng.new_obj(st, max(clen(eng, st, a[0]), 16), 'exc', how='exc')
    return Ptr(o.id, 0)


@h('__cxa_free_exception')
def _(eng, st, a, inv, tys, ret):
    return None


@h('__cxa_throw')
def _(eng, st, a, inv, tys, ret):
    eng.throw_from_extern(st, inv, (a[0], eng.tname(st, a[1]), a[2]))
    return NORET


@h('__cxa_rethrow', '_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def _(eng, st, a, inv, tys, ret):
    if not st.caught:
        eng.report(st, 'exception', 'rethrow without an active exception (terminate)')
        raise PathEnd()
    eng.throw_from_extern(st, inv, st.caught[-1])
    return NORET


@h('__cxa_begin_catch')
def _(eng, st, a, inv, tys, ret):
    st.caught.append(st.exc)
    return a[0]


@h('__cxa_end_catch')
def _(eng, st, a, inv, tys, ret):
    if st.caught:
        st.caught.pop()


@h('__cxa_get_exception_ptr')
def _(eng, st, a, inv, tys, ret):
    return a[0]


@rx(r'llvm\.eh\.typeid\.for(\..*)?')
def _(eng, st, a, inv, tys, ret, m):
    return eng.tid(eng.tname(st, a[0]))


@h('_ZSt9terminatev', '__clang_call_terminate', '__cxa_call_unexpected', 'abort')
def _(eng, st, a, inv, tys, ret):
    eng.report(st, 'exception', 'program terminates (std::terminate or abort)')
    raise PathEnd()


@h('exit', '_exit')
def _(eng, st, a, inv, tys, ret):
    raise PathEnd()


@h('__assert_fail')
def _(eng, st, a, inv, tys, ret):
    eng.report(st, 'assert', 'assertion failed: %s' % cstr(eng, st, a[0]))
    raise PathEnd()


@rx(r'_ZNSt\d+(out_of_range|invalid_argument|logic_error|length_error|runtime_error|domain_error|range_error|'
    r'overflow_error|underflow_error|bad_alloc|exception|bad_array_new_length)(C[12]E.*|D[012]Ev)')
def _(eng, st, a, inv, tys, ret, m):
    # constructors/destructors of the standard exception classes
    return None


@rx(r'_ZNKSt\d+[a-z_]+4whatEv')
def _(eng, st, a, inv, tys, ret, m):
    o = eng.new_obj(st, 1, 'global', init='zero')
    return Ptr(o.id, 0)


THROWERS = {
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '__cxa_throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
}
for _n, _t in THROWERS.items():
    H[_n] = (lambda t: lambda eng, st, a, inv, tys, ret: throw_std(eng, st, inv, t))(_t)


@h('__cxa_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_guard_release', '__cxa_guard_abort')
def _(eng, st, a, inv, tys, ret):
    return 0


@h('__cxa_guard_acquire')
def _(eng, st, a, inv, tys, ret):
    v = eng.load(st, I(8), a[0])
    if v == 0:
        eng.store(st, I(8), 1, a[0])
        return 1
    return 0


@h('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fflush', 'perror')
def _(eng, st, a, inv, tys, ret):
    return 0


# ---- text output: the sequence of texts and values inserted into a stream is recorded per path
def os_put(st, item):
    log = st.names.get('\0os', ())
    if item[0] == 'text' and log and log[-1][0] == 'text':
        log = log[:-1] + (('text', log[-1][1] + item[1]),)
    elif item != ('text', ''):
        log = log + (item,)
    st.names['\0os'] = log


@h('vf_os')
def _(eng, st, a, inv, tys, ret):
    st.names['\0os'] = ()
    o = eng.new_obj(st, 512, 'global', init='zero')
    return Ptr(o.id, 0)


@rx(r'vf_os_lanes_(f32|f64|i32)')
def _(eng, st, a, inv, tys, ret, m):
    et = {'f32': F32, 'f64': F64, 'i32': I(32)}[m.group(1)]
    n = eng.mat(st, a[1], I(32))
    msg = cstr(eng, st, a[2])
    log = st.names.get('\0os', ())
    texts = [x[1] for x in log if x[0] == 'text']
    vals = [x for x in log if x[0] != 'text']
    shape = ['text', 'val'] * n + ['text']
    ok = ['text' if x[0] == 'text' else 'val' for x in log] == shape and \
        texts == ['['] + [', '] * (n - 1) + [']']
    eng.check(st, int(ok), 'check', msg + ' (punctuation)')
    if not ok:
        return None
    for i in range(n):
        v = eng.mat(st, eng.load(st, et, eng.padd(a[0], i * et.n // 8)), et)
        if m.group(1) == 'f32':
            v = ops.fext(v, 32, 64)
        k = 'int' if m.group(1) == 'i32' else 'double'
        if vals[i][0] != k:
            eng.check(st, 0, 'check', msg + ' (type)')
            continue
        eng.check(st, ops.icmp('eq', v, vals[i][1], 32 if k == 'int' else 64), 'check', msg)
    return None


@rx(r'_ZNSo9_M_insertIdEERSoT_|_ZNSolsEd')
def _(eng, st, a, inv, tys, ret, m):
    os_put(st, ('double', eng.mat(st, a[1], F64)))
    return a[0]


@h('_ZNSolsEf')
def _(eng, st, a, inv, tys, ret):
    os_put(st, ('double', ops.fext(eng.mat(st, a[1], F32), 32, 64)))
    return a[0]


@h('_ZNSolsEi')
def _(eng, st, a, inv, tys, ret):
    os_put(st, ('int', eng.mat(st, a[1], I(32))))
    return a[0]


@rx(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_(PKc|c)')
def _(eng, st, a, inv, tys, ret, m):
    if m.group(1) == 'c':
        c = ops.simp(eng.mat(st, a[1], I(8)))
        os_put(st, ('text', chr(c)) if type(c) is int else ('char', c))
    else:
        os_put(st, ('text', cstr(eng, st, a[1])))
    return a[0]


@rx(r'_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l|_ZNSo5writeEPKcl')
def _(eng, st, a, inv, tys, ret, m):
    n = eng.mat(st, a[2], I(64))
    cs = [eng.mat(st, eng.load(st, I(8), eng.padd(a[1], i)), I(8)) for i in range(n)]
    os_put(st, ('text', ''.join(map(chr, cs))))
    return a[0]


@h('_ZNSo3putEc')
def _(eng, st, a, inv, tys, ret):
    os_put(st, ('text', chr(eng.mat(st, a[1], I(8)))))
    return a[0]


@rx(r'_ZNSo.*|_ZStls.*|_ZNSolsE.*|_ZNSt9basic_ios.*|_ZSt4endl.*|_ZSt5flush.*')
def _(eng, st, a, inv, tys, ret, m):
    if '\0os' in st.names:
        raise Unsupported('stream output by ' + m.group(0))
    return a[0] if a else None


# ------------------------------------------------------------------ generic intrinsics
@rx(r'llvm\.(lifetime|dbg|donothing|var\.annotation|invariant|experimental\.noalias|sideeffect|prefetch)\b.*')
def _(eng, st, a, inv, tys, ret, m):
    return None


@rx(r'llvm\.lifetime\.(start|end)\..*')
def _(eng, st, a, inv, tys, ret, m):
    return None


@rx(r'llvm\.assume')
def _(eng, st, a, inv, tys, ret, m):
    return None


@rx(r'llvm\.(trap|ubsantrap|debugtrap)')
def _(eng, st, a, inv, tys, ret, m):
    eng.report(st, 'unreachable', 'trap')
    raise PathEnd()


@rx(r'llvm\.(expect|launder\.invariant\.group|strip\.invariant\.group|annotation|ssa\.copy)(\..*)?')
def _(eng, st, a, inv, tys, ret, m):
    return a[0]


@rx(r'llvm\.is\.constant\..*')
def _(eng, st, a, inv, tys, ret, m):
    return 0


@rx(r'llvm\.objectsize\..*')
def _(eng, st, a, inv, tys, ret, m):
    return mask(ret.n)


@rx(r'llvm\.ptrmask\..*')
def _(eng, st, a, inv, tys, ret, m):
    p = eng.addr(st, a[0])
    return ops.simp(ops.binop('and', p, eng.mat(st, a[1], I(64)), 64))


@rx(r'llvm\.(stacksave|stackrestore)(\..*)?')
def _(eng, st, a, inv, tys, ret, m):
    return 0


def lift(eng, st, tys, ret, a, fn):
    """apply fn lane-wise"""
    et = ret.e if ret.k == 'vec' else ret
    w = et.n

    def m1(x):
        return eng.fresh(st, w) if x is UNDEF else x
    if ret.k == 'vec':
        return [fn(*[m1(x) for x in xs]) for xs in zip(*a)]
    return fn(*[m1(x) for x in a])


def elw(ret):
    return ret.e.n if ret.k == 'vec' else ret.n


@rx(r'llvm\.(umin|umax|smin|smax)\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)
    p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[m.group(1)]
    return lift(eng, st, tys, ret, [x for x in a], lambda x, y: ops.ite(ops.icmp(p, x, y, w), x, y, w))


@rx(r'llvm\.abs\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)
    f = lambda x: ops.ite(ops.icmp('slt', x, 0, w), ops.binop('sub', 0, x, w), x, w)
    return lift(eng, st, tys, ret, [a[0]], f)


@rx(r'llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\..*')
def _(eng, st, a, inv, tys, ret, m):
    ty = tys[0][0]
    w = ty.n
    op = m.group(1)[1:]
    sg = m.group(1)[0] == 's'
    x, y = eng.mat(st, a[0], ty), eng.mat(st, a[1], ty)
    ext = ops.sext if sg else ops.zext
    W = 2 * w
    r2 = ops.binop(op, ext(x, w, W), ext(y, w, W), W)
    r = ops.trunc(r2, W, w)
    if not sg and op == 'mul' and (type(x) is not int or type(y) is not int):
        ov = ops.not_(z3.BVMulNoOverflow(bv(x, w), bv(y, w), False))
        r = ops.binop('mul', x, y, w)
        return [r, ov]
    ov = ops.icmp('ne', ext(r, w, W), r2, W)
    return [r, ov]


@rx(r'llvm\.(uadd|usub)\.sat\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)

    def f(x, y):
        if m.group(1) == 'uadd':
            s = ops.binop('add', x, y, w)
            return ops.ite(ops.icmp('ult', s, x, w), mask(w), s, w)
        return ops.ite(ops.icmp('ult', x, y, w), 0, ops.binop('sub', x, y, w), w)
    return lift(eng, st, tys, ret, a, f)


@rx(r'llvm\.(ctpop)\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)

    def f(x):
        if type(x) is int:
            return bin(x).count('1')
        r = 0
        for i in range(w):
            r = ops.binop('add', r, ops.zext(bit(x, i), 1, w), w)
        return r
    return lift(eng, st, tys, ret, a, f)


@rx(r'llvm\.(ctlz|cttz)\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)

    def f(x):
        r = w
        rng = range(w) if m.group(1) == 'ctlz' else reversed(range(w))
        for i in rng:
            r = ops.ite(bit(x, i), (w - 1 - i) if m.group(1) == 'ctlz' else i, r, w)
        return r
    return lift(eng, st, tys, ret, [a[0]], f)


@rx(r'llvm\.(bswap)\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)

    def f(x):
        if type(x) is int:
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        return ops.concat([(ops.extract(x, i + 7, i), 8) for i in range(w - 8, -1, -8)])[0]
    return lift(eng, st, tys, ret, a, f)


@rx(r'llvm\.(fshl|fshr)\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)
    left = m.group(1) == 'fshl'

    def f(x, y, s):
        s = ops.binop('urem', s, w, w)
        d = ops.concat([(y, w), (x, w)])[0]
        s2 = ops.zext(s, w, 2 * w)
        if left:
            r = ops.binop('shl', d, s2, 2 * w)
            return (r >> w) & mask(w) if type(r) is int else ops.extract(r, 2 * w - 1, w)
        r = ops.binop('lshr', d, s2, 2 * w)
        return ops.trunc(r, 2 * w, w)
    return lift(eng, st, tys, ret, a, f)


@rx(r'llvm\.(sqrt|floor|ceil|trunc|rint|nearbyint|roundeven)\.(v\d+)?f(32|64)')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)
    n = {'sqrt': 'fsqrt', 'floor': 'ffloor', 'ceil': 'fceil', 'trunc': 'ftrunc', 'rint': 'frint',
         'nearbyint': 'frint', 'roundeven': 'frint'}[m.group(1)]
    return lift(eng, st, tys, ret, a, lambda x: ops.fun1(n, x, w))


for _n, _w in (('sqrtf', 32), ('sqrt', 64)):
    H[_n] = (lambda w: lambda eng, st, a, inv, tys, ret: ops.fun1('fsqrt', eng.mat(st, a[0], ret), w))(_w)


@rx(r'llvm\.fabs\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)
    return lift(eng, st, tys, ret, a, lambda x: ops.binop('and', x, mask(w - 1), w))


@rx(r'llvm\.copysign\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)
    return lift(eng, st, tys, ret, a, lambda x, y: ops.binop('or', ops.binop('and', x, mask(w - 1), w),
                                                             ops.binop('and', y, ops.SIGN[w], w), w))


@rx(r'llvm\.(fma|fmuladd)\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)
    if m.group(1) == 'fma':
        return lift(eng, st, tys, ret, a, lambda x, y, z: ops.ffma(x, y, z, w))
    return lift(eng, st, tys, ret, a, lambda x, y, z: ops.fbin('fadd', ops.fbin('fmul', x, y, w), z, w))


@rx(r'llvm\.(minnum|maxnum)\..*')
def _(eng, st, a, inv, tys, ret, m):
    w = elw(ret)
    p = 'olt' if m.group(1) == 'minnum' else 'ogt'

    def f(x, y):
        r = ops.ite(ops.fcmp(p, x, y, w), x, y, w)
        return ops.ite(ops.isnan(y, w), x, r, w)
    return lift(eng, st, tys, ret, a, f)


@rx(r'llvm\.is\.fpclass\..*')
def _(eng, st, a, inv, tys, ret, m):
    ty = tys[0][0]
    et = ty.e if ty.k == 'vec' else ty
    w = et.n
    test = a[1]

    def f(x):
        if x is UNDEF:
            x = eng.fresh(st, w)
        mag = ops.binop('and', x, mask(w - 1), w)
        neg = ops.icmp('slt', x, 0, w)
        inf = ops.icmp('eq', mag, ops.INFB[w], w)
        nan = ops.icmp('ugt', mag, ops.INFB[w], w)
        zero = ops.icmp('eq', mag, 0, w)
        minn = 1 << (23 if w == 32 else 52)
        sub = ops.and_(ops.not_(zero), ops.icmp('ult', mag, minn, w))
        norm = ops.and_(ops.icmp('uge', mag, minn, w), ops.icmp('ult', mag, ops.INFB[w], w))
        q = ops.icmp('ne', ops.binop('and', x, 1 << (22 if w == 32 else 51), w), 0, w)
        cls = [ops.and_(nan, ops.not_(q)), ops.and_(nan, q), ops.and_(inf, neg), ops.and_(norm, neg),
               ops.and_(sub, neg), ops.and_(zero, neg), ops.and_(zero, ops.not_(neg)), ops.and_(sub, ops.not_(neg)),
               ops.and_(norm, ops.not_(neg)), ops.and_(inf, ops.not_(neg))]
        r = 0
        for i in range(10):
            if test >> i & 1:
                r = ops.or_(r, cls[i])
        return r
    if ty.k == 'vec':
        return [f(x) for x in a[0]]
    return f(a[0])


@rx(r'llvm\.vector\.reduce\.(\w+)\..*')
def _(eng, st, a, inv, tys, ret, m):
    op = m.group(1)
    ty = tys[-1][0]
    w = ty.e.n
    xs = [eng.mat(st, x, ty.e) for x in a[-1]]
    if op in ('and', 'or', 'xor', 'add', 'mul'):
        r = xs[0]
        for x in xs[1:]:
            r = ops.binop(op, r, x, w)
        return r
    if op in ('fadd', 'fmul'):
        r = a[0]
        for x in xs:
            r = ops.fbin(op, r, x, w)
        return r
    if op in ('umin', 'umax', 'smin', 'smax'):
        p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op]
        r = xs[0]
        for x in xs[1:]:
            r = ops.ite(ops.icmp(p, r, x, w), r, x, w)
        return r
    raise Unsupported(m.group(0))


def masked(eng, st, c, fn):
    if type(c) is int:
        return c
    return eng.decide(st, c)


@rx(r'llvm\.masked\.load\..*')
def _(eng, st, a, inv, tys, ret, m):
    # ptr, align, mask, passthru
    es = (64 if ret.e.k == 'ptr' else ret.e.n) // 8
    out = []
    for i in range(ret.n):
        c = a[2][i]
        if masked(eng, st, c, None):
            out.append(eng.load(st, ret.e, eng.padd(a[0], i * es)))
        else:
            out.append(a[3][i])
    return out


@rx(r'llvm\.masked\.store\..*')
def _(eng, st, a, inv, tys, ret, m):
    ty = tys[0][0]
    es = ty.e.n // 8
    cs = [masked(eng, st, c, None) for c in a[3]]
    for i in range(ty.n):
        if cs[i]:
            eng.store(st, ty.e, a[0][i], eng.padd(a[1], i * es))


@rx(r'llvm\.masked\.gather\..*')
def _(eng, st, a, inv, tys, ret, m):
    out = []
    for i in range(ret.n):
        if masked(eng, st, a[2][i], None):
            out.append(eng.load(st, ret.e, a[0][i]))
        else:
            out.append(a[3][i])
    return out


@rx(r'llvm\.masked\.scatter\..*')
def _(eng, st, a, inv, tys, ret, m):
    ty = tys[0][0]
    cs = [masked(eng, st, c, None) for c in a[3]]
    for i in range(ty.n):
        if cs[i]:
            eng.store(st, ty.e, a[0][i], a[1][i])


# ------------------------------------------------------------------ x86 intrinsics
@rx(r'llvm\.x86\.(sse41|avx|avx2)\.(blendvps|blendvpd|blendv\.ps\.256|blendv\.pd\.256|pblendvb)')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    return [ops.ite(sgn(eng, st, c, w), eng.mat(st, y, ret.e), eng.mat(st, x, ret.e), w) for x, y, c in zip(*a)]


def sgn(eng, st, x, w):
    if x is UNDEF:
        x = eng.fresh(st, w)
    return bit(x, w - 1) if type(x) is int else ops.icmp('slt', x, 0, w)


@rx(r'llvm\.x86\.(sse41|avx)\.(ptestz|ptestc|ptestnzc)(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    w = tys[0][0].e.n
    xs = [eng.mat(st, x, tys[0][0].e) for x in a[0]]
    ys = [eng.mat(st, x, tys[0][0].e) for x in a[1]]
    z = 1
    c = 1
    for x, y in zip(xs, ys):
        z = ops.and_(z, ops.icmp('eq', ops.binop('and', x, y, w), 0, w))
        nx = ops.binop('xor', x, mask(w), w)
        c = ops.and_(c, ops.icmp('eq', ops.binop('and', nx, y, w), 0, w))
    k = m.group(2)
    r = z if k == 'ptestz' else c if k == 'ptestc' else ops.and_(ops.not_(z), ops.not_(c))
    return ops.zext(r, 1, 32)


@rx(r'llvm\.x86\.avx\.(vtestz|vtestc|vtestnzc)\.(ps|pd)(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    w = tys[0][0].e.n
    z = 1
    c = 1
    for x, y in zip(a[0], a[1]):
        sx, sy = sgn(eng, st, x, w), sgn(eng, st, y, w)
        z = ops.and_(z, ops.not_(ops.and_(sx, sy)))
        c = ops.and_(c, ops.not_(ops.and_(ops.not_(sx), sy)))
    k = m.group(1)
    r = z if k == 'vtestz' else c if k == 'vtestc' else ops.and_(ops.not_(z), ops.not_(c))
    return ops.zext(r, 1, 32)


@rx(r'llvm\.x86\.(sse|sse2|avx|avx2)\.(movmsk\.(ps|pd)(\.256)?|pmovmskb(\.128)?)')
def _(eng, st, a, inv, tys, ret, m):
    w = tys[0][0].e.n
    bits = [sgn(eng, st, x, w) for x in a[0]]
    v, n = ops.concat([(b if type(b) is int else ops.b2bv1(b, 1), 1) for b in bits])
    return ops.zext(v, n, 32)


@rx(r'llvm\.x86\.(?:sse2|avx)\.(cvt|cvtt)\.?ps2dq(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    mode = 'trunc' if m.group(1) == 'cvtt' else 'rne'
    return [ops.f2i(eng.mat(st, x, F32), 32, 32, True, mode) for x in a[0]]


@rx(r'llvm\.x86\.(?:sse2|avx)\.(cvt|cvtt)\.?pd2dq(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    mode = 'trunc' if m.group(1) == 'cvtt' else 'rne'
    r = [ops.f2i(eng.mat(st, x, F64), 64, 32, True, mode) for x in a[0]]
    return r + [0] * (ret.n - len(r))


@rx(r'llvm\.x86\.avx512\.mask\.(cvt|cvtt)(ps|pd)2dq\.512')
def _(eng, st, a, inv, tys, ret, m):
    mode = 'trunc' if m.group(1) == 'cvtt' else 'rne'
    w = 32 if m.group(2) == 'ps' else 64
    if not (type(a[2]) is int and a[2] == mask(tys[2][0].n)):
        raise Unsupported('masked ' + m.group(0))
    if a[3] != 4:
        raise Unsupported('rounding mode ' + m.group(0))
    t = F32 if w == 32 else F64
    return [ops.f2i(eng.mat(st, x, t), w, 32, True, mode) for x in a[0]]


@rx(r'llvm\.x86\.(?:sse|avx)\.(rsqrt|rcp)\.ps(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    return [approx(m.group(1) + '12', eng.mat(st, x, F32), 32) for x in a[0]]


@rx(r'llvm\.x86\.avx512\.(rsqrt14|rcp14)\.(ps|pd)\.512')
def _(eng, st, a, inv, tys, ret, m):
    w = 32 if m.group(2) == 'ps' else 64
    if not (type(a[2]) is int and a[2] == mask(tys[2][0].n)):
        raise Unsupported('masked ' + m.group(0))
    return [approx(m.group(1), eng.mat(st, x, ret.e), w) for x in a[0]]


def approx(name, x, w):
    r = ops.uf('%s_%d' % (name, w), w, w)(bv(x, w))
    ops._keep.append(r)
    return r


@rx(r'llvm\.x86\.(sse|sse2|avx|avx512)\.(min|max)\.(ps|pd)(\.256|\.512)?')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    p = 'olt' if m.group(2) == 'min' else 'ogt'
    return [ops.ite(ops.fcmp(p, x, y, w), x, y, w) for x, y in zip(a[0], a[1])]


@rx(r'llvm\.x86\.avx2\.gather\.(d|q)\.(ps|pd|d|q)(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    # passthru, base, idx, mask, scale
    n = ret.n
    w = ret.e.n
    it = tys[2][0].e
    out = []
    for i in range(n):
        c = sgn(eng, st, a[3][i], w)
        if not masked(eng, st, c, None):
            out.append(a[0][i])
            continue
        p = eng.gep(st, I(8), [(PTR, a[1]), (I(64), smul(eng, st, a[2][i], it, a[4]))])
        out.append(eng.load(st, ret.e, p))
    return out


def smul(eng, st, v, ty, k):
    v = eng.mat(st, v, ty)
    if ty.n < 64:
        v = ops.sext(v, ty.n, 64)
    return ops.binop('mul', v, k, 64)


@rx(r'llvm\.x86\.avx512\.mask\.gather\.(dpd|dps|dpi|dpq|qpd|qps)\.512')
def _(eng, st, a, inv, tys, ret, m):
    # passthru, base, idx, <n x i1> mask, scale
    it = tys[2][0].e
    out = []
    for i in range(ret.n):
        if not masked(eng, st, a[3][i], None):
            out.append(a[0][i])
            continue
        p = eng.gep(st, I(8), [(PTR, a[1]), (I(64), smul(eng, st, a[2][i], it, a[4]))])
        out.append(eng.load(st, ret.e, p))
    return out


@rx(r'llvm\.x86\.avx512\.mask\.scatter\.(dpd|dps|dpi|dpq|qpd|qps)\.512')
def _(eng, st, a, inv, tys, ret, m):
    # base, <n x i1> mask, idx, vec, scale
    it = tys[2][0].e
    vt = tys[3][0]
    cs = [masked(eng, st, c, None) for c in a[1]]
    for i in range(vt.n):
        if cs[i]:
            p = eng.gep(st, I(8), [(PTR, a[0]), (I(64), smul(eng, st, a[2][i], it, a[4]))])
            eng.store(st, vt.e, a[3][i], p)


@rx(r'llvm\.x86\.avx512\.(add|sub|mul|div)\.(ps|pd)\.512')
def _(eng, st, a, inv, tys, ret, m):
    if a[2] != 4:
        raise Unsupported('rounding mode')
    w = ret.e.n
    return [ops.fbin('f' + m.group(1), eng.mat(st, x, ret.e), eng.mat(st, y, ret.e), w) for x, y in zip(a[0], a[1])]


@rx(r'llvm\.x86\.avx512\.(?:mask\.)?cmp\.(ps|pd)\.512')
def _(eng, st, a, inv, tys, ret, m):
    w = tys[0][0].e.n
    preds = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt',
             'true']
    p = preds[a[2] & 15]
    r = [ops.fcmp(p, eng.mat(st, x, tys[0][0].e), eng.mat(st, y, tys[0][0].e), w) for x, y in zip(a[0], a[1])]
    if type(a[3]) is list:
        r = [ops.and_(x, y) for x, y in zip(r, a[3])]
    return r


@rx(r'llvm\.x86\.(sse3|avx)\.hadd\.(ps|pd)(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    per = 128 // w
    out = []
    for blk in range(0, ret.n, per):
        for src in (a[0], a[1]):
            for i in range(0, per, 2):
                out.append(ops.fbin('fadd', src[blk + i], src[blk + i + 1], w))
    return out


@rx(r'llvm\.x86\.sse41\.insertps')
def _(eng, st, a, inv, tys, ret, m):
    return insertps(a[0], a[1][(a[2] >> 6) & 3], a[2])


def insertps(v, x, imm):
    v = list(v)
    v[(imm >> 4) & 3] = x
    for i in range(4):
        if imm >> i & 1:
            v[i] = 0
    return v


@rx(r'llvm\.x86\.(sse|sse2|avx)\.(sfence|lfence|mfence|vzeroupper|vzeroall)')
def _(eng, st, a, inv, tys, ret, m):
    return None


# ---- further x86 intrinsics (not used by the library today, but natural alternatives to those it uses)
CMPP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']


def mats(eng, st, xs, et):
    return [eng.mat(st, x, et) for x in xs]


def pick(xs, sel, sw, w):
    """xs[sel] for a possibly symbolic selector of sw bits (len(xs) is a power of two; sel already reduced)"""
    if type(sel) is int:
        return xs[sel % len(xs)]
    r = xs[0]
    for i in range(1, len(xs)):
        r = ops.ite(ops.icmp('eq', sel, i, sw), xs[i], r, w)
    return r


def low(x, sw, n):
    return ops.simp(ops.binop('and', x, n - 1, sw))


@rx(r'llvm\.x86\.avx\.vpermilvar\.(ps|pd)(\.256|\.512)?|llvm\.x86\.avx512\.vpermilvar\.(ps|pd)\.512')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    per = 128 // w
    xs, ix = mats(eng, st, a[0], ret.e), mats(eng, st, a[1], tys[1][0].e)
    out = []
    for i in range(ret.n):
        blk = i // per * per
        sel = ix[i] if w == 32 else ops.binop('lshr', ix[i], 1, 64)
        out.append(pick(xs[blk:blk + per], low(sel, w, per), w, w))
    return out


@rx(r'llvm\.x86\.(avx2\.(permd|permps)|avx512\.permvar\.\w+\.\d+)')
def _(eng, st, a, inv, tys, ret, m):
    it = tys[1][0].e
    xs, ix = mats(eng, st, a[0], ret.e), mats(eng, st, a[1], it)
    return [pick(xs, low(i, it.n, ret.n), it.n, ret.e.n) for i in ix]


@rx(r'llvm\.x86\.avx512\.vpermi2var\.\w+\.\d+')
def _(eng, st, a, inv, tys, ret, m):
    it = tys[1][0].e
    xs = mats(eng, st, a[0], ret.e) + mats(eng, st, a[2], ret.e)
    return [pick(xs, low(i, it.n, 2 * ret.n), it.n, ret.e.n) for i in mats(eng, st, a[1], it)]


@rx(r'llvm\.x86\.(ssse3\.pshuf\.b\.128|avx2\.pshuf\.b|avx512\.pshuf\.b\.512)')
def _(eng, st, a, inv, tys, ret, m):
    xs, ix = mats(eng, st, a[0], ret.e), mats(eng, st, a[1], ret.e)
    out = []
    for i in range(ret.n):
        blk = i // 16 * 16
        v = pick(xs[blk:blk + 16], low(ix[i], 8, 16), 8, 8)
        out.append(ops.ite(sgn(eng, st, ix[i], 8), 0, v, 8))
    return out


@rx(r'llvm\.x86\.(avx|avx2)\.maskload\.(ps|pd|d|q)(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    cs = [masked(eng, st, sgn(eng, st, c, w), None) for c in a[1]]
    return [eng.load(st, ret.e, eng.padd(a[0], i * w // 8)) if cs[i] else 0 for i in range(ret.n)]


@rx(r'llvm\.x86\.(avx|avx2)\.maskstore\.(ps|pd|d|q)(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    ty = tys[2][0]
    w = ty.e.n
    cs = [masked(eng, st, sgn(eng, st, c, w), None) for c in a[1]]
    for i in range(ty.n):
        if cs[i]:
            eng.store(st, ty.e, a[2][i], eng.padd(a[0], i * w // 8))


@rx(r'llvm\.x86\.sse2\.maskmov\.dqu')
def _(eng, st, a, inv, tys, ret, m):
    cs = [masked(eng, st, sgn(eng, st, c, 8), None) for c in a[1]]
    for i in range(16):
        if cs[i]:
            eng.store(st, I(8), a[0][i], eng.padd(a[2], i))


@rx(r'llvm\.masked\.compressstore\..*')
def _(eng, st, a, inv, tys, ret, m):
    ty = tys[0][0]
    k = 0
    for x, c in zip(a[0], a[2]):
        if masked(eng, st, c, None):
            eng.store(st, ty.e, x, eng.padd(a[1], k * ty.e.n // 8))
            k += 1


@rx(r'llvm\.masked\.expandload\..*')
def _(eng, st, a, inv, tys, ret, m):
    k = 0
    out = []
    for c, p in zip(a[1], a[2]):
        if masked(eng, st, c, None):
            out.append(eng.load(st, ret.e, eng.padd(a[0], k * ret.e.n // 8)))
            k += 1
        else:
            out.append(p)
    return out


@rx(r'llvm\.x86\.avx512\.mask\.(compress|expand)\.\w+')
def _(eng, st, a, inv, tys, ret, m):
    # source, passthru, mask
    cs = [masked(eng, st, c, None) for c in a[2]]
    out = list(a[1])
    k = 0
    for i in range(ret.n):
        if cs[i]:
            if m.group(1) == 'compress':
                out[k] = a[0][i]
            else:
                out[i] = a[0][k]
            k += 1
    return out


@rx(r'llvm\.x86\.(?:sse3|avx)\.ldu\.dq(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    return [eng.load(st, ret.e, eng.padd(a[0], i * w // 8)) for i in range(ret.n)]


@rx(r'llvm\.x86\.(?:avx2|avx512)\.(psllv|psrlv|psrav)\.(d|q)(\.\d+)?')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    return [shift(m.group(1)[:4], x, y, w) for x, y in zip(mats(eng, st, a[0], ret.e), mats(eng, st, a[1], ret.e))]


def shift(k, x, y, w):
    big = ops.icmp('uge', y, w, w)
    yy = ops.ite(big, w - 1, y, w)
    if k == 'psra':
        return ops.binop('ashr', x, yy, w)
    return ops.ite(big, 0, ops.binop('shl' if k == 'psll' else 'lshr', x, yy, w), w)


@rx(r'llvm\.x86\.(?:sse2|avx2|avx512)\.(psll|psrl|psra)(i?)\.(w|d|q)(\.\d+)?')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    if m.group(2):
        n = a[1]
        if type(n) is not int:
            raise Unsupported(m.group(0))
    else:
        et = tys[1][0].e
        v, _n = ops.concat([(x, et.n) for x in mats(eng, st, a[1][:64 // et.n], et)])
        n = ops.simp(v)
        if type(n) is not int:
            big = ops.icmp('uge', n, w, 64)
            n = ops.ite(big, w, ops.trunc(n, 64, w), w)
    n = min(n, w) if type(n) is int else n
    return [shift(m.group(1), x, n, w) for x in mats(eng, st, a[0], ret.e)]


@rx(r'llvm\.x86\.(?:sse2|sse41|avx2|avx512)\.pack(ss|us)(wb|dw)(\.\d+)?')
def _(eng, st, a, inv, tys, ret, m):
    sw, w = tys[0][0].e.n, ret.e.n
    hi = (1 << (w - 1)) - 1 if m.group(1) == 'ss' else mask(w)
    lo = -(1 << (w - 1)) & mask(sw) if m.group(1) == 'ss' else 0
    per = 128 // sw
    out = []
    srcs = [mats(eng, st, x, tys[0][0].e) for x in a[:2]]
    for blk in range(0, tys[0][0].n, per):
        for src in srcs:
            for x in src[blk:blk + per]:
                v = ops.ite(ops.icmp('sgt', x, hi, sw), hi, ops.ite(ops.icmp('slt', x, lo, sw), lo, x, sw), sw)
                out.append(ops.trunc(v, sw, w))
    return out


@rx(r'llvm\.x86\.sse\.(rsqrt|rcp)\.ss')
def _(eng, st, a, inv, tys, ret, m):
    return [approx(m.group(1) + '12', eng.mat(st, a[0][0], F32), 32)] + list(a[0][1:])


@rx(r'llvm\.x86\.avx512\.(rsqrt14|rcp14)\.(ps|pd)\.(128|256)')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    if not (type(a[2]) is int and a[2] == mask(tys[2][0].n)):
        raise Unsupported('masked ' + m.group(0))
    return [approx(m.group(1), eng.mat(st, x, ret.e), w) for x in a[0]]


@rx(r'llvm\.x86\.(?:sse|sse2|avx)\.cmp\.(ss|sd|ps|pd)(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    p = CMPP[a[2] & 15]
    out = list(a[0])
    for i in range(1 if m.group(1)[0] == 's' else ret.n):
        c = ops.fcmp(p, eng.mat(st, a[0][i], ret.e), eng.mat(st, a[1][i], ret.e), w)
        out[i] = ops.ite(c, mask(w), 0, w)
    return out


@rx(r'llvm\.x86\.sse2?\.u?comi(eq|lt|le|gt|ge|neq)\.(ss|sd)')
def _(eng, st, a, inv, tys, ret, m):
    et = tys[0][0].e
    k = m.group(1)
    p = 'une' if k == 'neq' else 'o' + k
    return ops.zext(ops.fcmp(p, eng.mat(st, a[0][0], et), eng.mat(st, a[1][0], et), et.n), 1, 32)


@rx(r'llvm\.x86\.sse2?\.(cvt|cvtt)(ss|sd)2si(64)?')
def _(eng, st, a, inv, tys, ret, m):
    et = tys[0][0].e
    return ops.f2i(eng.mat(st, a[0][0], et), et.n, ret.n, True, 'trunc' if m.group(1) == 'cvtt' else 'rne')


@rx(r'llvm\.x86\.(?:sse2\.cvtpd2ps|avx\.cvt\.pd2\.ps\.256)')
def _(eng, st, a, inv, tys, ret, m):
    r = [ops.ftrunc(eng.mat(st, x, F64), 64, 32) for x in a[0]]
    return r + [0] * (ret.n - len(r))


@rx(r'llvm\.x86\.avx512\.mask\.cvtpd2ps\.512')
def _(eng, st, a, inv, tys, ret, m):
    if not (type(a[2]) is int and a[2] == mask(tys[2][0].n)) or a[3] != 4:
        raise Unsupported('masked ' + m.group(0))
    return [ops.ftrunc(eng.mat(st, x, F64), 64, 32) for x in a[0]]


@rx(r'llvm\.x86\.sse2\.cvtsd2ss')
def _(eng, st, a, inv, tys, ret, m):
    return [ops.ftrunc(eng.mat(st, a[1][0], F64), 64, 32)] + list(a[0][1:])


@rx(r'llvm\.x86\.(?:sse41|avx)\.round\.(ps|pd)(\.256)?')
def _(eng, st, a, inv, tys, ret, m):
    n = {0: 'frint', 1: 'ffloor', 2: 'fceil', 3: 'ftrunc'}.get(a[1] & 7, 'frint')
    return [ops.fun1(n, x, ret.e.n) for x in mats(eng, st, a[0], ret.e)]


@rx(r'llvm\.x86\.avx512\.mask\.rndscale\.(ps|pd)\.512')
def _(eng, st, a, inv, tys, ret, m):
    if a[1] >> 4 or not (type(a[3]) is int and a[3] == mask(tys[3][0].n)):
        raise Unsupported('masked ' + m.group(0))
    n = {0: 'frint', 1: 'ffloor', 2: 'fceil', 3: 'ftrunc'}.get(a[1] & 7, 'frint')
    return [ops.fun1(n, x, ret.e.n) for x in mats(eng, st, a[0], ret.e)]


@rx(r'llvm\.x86\.avx512\.(?:mask\.)?scatter(div|siv)(\d+)\.(df|sf|si|di)|llvm\.x86\.avx512\.mask\.scatter(div|siv)(\d+)\.(df|sf|si|di)')
def _(eng, st, a, inv, tys, ret, m):
    it = tys[2][0].e
    vt = tys[3][0]
    cs = [masked(eng, st, c, None) for c in a[1]]
    for i in range(min(vt.n, tys[2][0].n)):
        if cs[i]:
            p = eng.gep(st, I(8), [(PTR, a[0]), (I(64), smul(eng, st, a[2][i], it, a[4]))])
            eng.store(st, vt.e, a[3][i], p)


@rx(r'llvm\.x86\.avx512\.mask\.gather3(div|siv)(\d+)\.(df|sf|si|di)')
def _(eng, st, a, inv, tys, ret, m):
    it = tys[2][0].e
    out = []
    for i in range(ret.n):
        if i >= tys[2][0].n:
            out.append(0)
            continue
        if not masked(eng, st, a[3][i], None):
            out.append(a[0][i])
            continue
        p = eng.gep(st, I(8), [(PTR, a[1]), (I(64), smul(eng, st, a[2][i], it, a[4]))])
        out.append(eng.load(st, ret.e, p))
    return out


@rx(r'llvm\.x86\.avx512\.pternlog\.(d|q)\.\d+')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    out = []
    for x, y, z in zip(*[mats(eng, st, v, ret.e) for v in a[:3]]):
        r = 0
        for k in range(8):
            if a[3] >> k & 1:
                t = mask(w)
                for v, b in ((x, k >> 2 & 1), (y, k >> 1 & 1), (z, k & 1)):
                    t = ops.binop('and', t, v if b else ops.binop('xor', v, mask(w), w), w)
                r = ops.binop('or', r, t, w)
        out.append(r)
    return out


@rx(r'llvm\.x86\.sse3\.addsub\.(ps|pd)|llvm\.x86\.avx\.addsub\.(ps|pd)\.256')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.e.n
    return [ops.fbin('fadd' if i & 1 else 'fsub', x, y, w)
            for i, (x, y) in enumerate(zip(mats(eng, st, a[0], ret.e), mats(eng, st, a[1], ret.e)))]


@rx(r'llvm\.x86\.(ssse3\.phadd\.d\.128|avx2\.phadd\.d)')
def _(eng, st, a, inv, tys, ret, m):
    out = []
    srcs = [mats(eng, st, x, ret.e) for x in a[:2]]
    for blk in range(0, ret.n, 4):
        for src in srcs:
            for i in (0, 2):
                out.append(ops.binop('add', src[blk + i], src[blk + i + 1], 32))
    return out


@rx(r'llvm\.x86\.(ssse3\.psign\.d\.128|avx2\.psign\.d)')
def _(eng, st, a, inv, tys, ret, m):
    out = []
    for x, y in zip(mats(eng, st, a[0], ret.e), mats(eng, st, a[1], ret.e)):
        r = ops.ite(ops.icmp('eq', y, 0, 32), 0, x, 32)
        out.append(ops.ite(ops.icmp('slt', y, 0, 32), ops.binop('sub', 0, x, 32), r, 32))
    return out


@rx(r'llvm\.x86\.avx512\.kadd\.(b|w|d|q)')
def _(eng, st, a, inv, tys, ret, m):
    n = ret.n
    f = lambda v: ops.concat([(b if type(b) is int else ops.b2bv1(b, 1), 1) for b in mats(eng, st, v, ret.e)])[0]
    r = ops.binop('add', f(a[0]), f(a[1]), n)
    return [bit(r, i) if type(r) is int else ops.icmp('ne', ops.binop('and', r, 1 << i, n), 0, n) for i in range(n)]


@rx(r'llvm\.x86\.bmi\.(bextr|bzhi)\.(32|64)')
def _(eng, st, a, inv, tys, ret, m):
    w = ret.n
    x, c = eng.mat(st, a[0], ret), eng.mat(st, a[1], ret)
    if type(c) is not int:
        raise Unsupported(m.group(0))
    if m.group(1) == 'bzhi':
        n = c & 255
        return x if n >= w else ops.binop('and', x, mask(n), w)
    s, n = c & 255, c >> 8 & 255
    if s >= w:
        return 0
    return ops.binop('and', ops.binop('lshr', x, s, w), mask(min(n, w)), w)


@rx(r'llvm\.x86\.sse2\.clflush')
def _(eng, st, a, inv, tys, ret, m):
    return None


def inline_asm(eng, st, asm, args, tys, ret):
    s = asm.asm.replace('\\0A', '').strip()
    if re.match(r'v?insertps \$1, \(\$\{2:q\}, \$\{3:q\}, 4\), \$0(, \$0)?$', s):
        imm, base, off, vec = args
        ot = tys[2][0]
        off = eng.mat(st, off, ot)
        if ot.n < 64:
            off = ops.zext(off, ot.n, 64)     # 32-bit register writes zero the upper half
        p = eng.gep(st, I(8), [(PTR, base), (I(64), ops.binop('mul', off, 4, 64))])
        x = eng.load(st, F32, p)
        return insertps(vec, x, imm)
    if s == '':
        return args[0] if args else None
    raise Unsupported('inline asm ' + s)
