"""Path-forking symbolic executor for LLVM IR, deciding with z3.

Every reported violation carries a model of the harness inputs; see runner.py
for the native replay.
"""
import time
import re
import z3
from . import llir
from . import ops
from .llir import UNDEF, Reg, GRef, CExpr, I, PTR
from .ops import bv, mask, signed


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


class Obj:
    __slots__ = ('id', 'size', 'kind', 'how', 'alive', 'cells', 'init', 'base', 'ro', 'owner', 'name', 'nid', 'wlog')

    def copy(self, owner):
        o = Obj()
        o.id = self.id
        o.size = self.size
        o.kind = self.kind
        o.how = self.how
        o.alive = self.alive
        o.cells = dict(self.cells)
        o.init = self.init
        o.base = self.base
        o.ro = self.ro
        o.owner = owner
        o.name = self.name
        o.nid = self.nid
        o.wlog = self.wlog
        return o


SLOT = 40
BASE0 = 0x10000000


class Frame:
    __slots__ = ('fn', 'code', 'ip', 'r', 'dst', 'inv', 'allocas', 'blk', 'varargs', 'ctx')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.code = self.code
        f.ip = self.ip
        f.r = dict(self.r)
        f.dst = self.dst
        f.inv = self.inv
        f.allocas = list(self.allocas)
        f.blk = self.blk
        f.ctx = self.ctx
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcids', 'token', 'inputs', 'exc', 'caught', 'models', 'names', 'live', 'nund',
                 'steps', 'track', 'last', 'log', 'seq', 'nondet_base', 'failk', 'nalloc', 'thr', 'acc', 'dev')

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcids = dict(self.pcids)
        s.token = object()
        self.token = object()
        s.inputs = list(self.inputs)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.models = list(self.models)
        s.names = dict(self.names)
        s.live = set(self.live)
        s.nund = self.nund
        s.steps = self.steps
        s.track = dict(self.track)
        s.last = None
        s.log = list(self.log)
        s.seq = self.seq
        s.nondet_base = self.nondet_base
        s.failk = self.failk
        s.nalloc = self.nalloc
        s.thr = self.thr
        s.dev = self.dev
        s.acc = dict(self.acc)
        return s


COMMUTATIVE = re.compile(r'(fadd|fmul)\d+$')


def commutes(e):
    """instances of commutativity for the abstracted operators of e"""
    from . import fpexact
    out = []
    for t in fpexact.walk([e]):
        if z3.is_app(t) and t.num_args() == 2 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                COMMUTATIVE.match(t.decl().name()):
            out.append(t == t.decl()(t.arg(1), t.arg(0)))
    return out


class Violation:
    def __init__(self, kind, msg, where, inputs, extra=None):
        self.kind = kind
        self.msg = msg
        self.where = where
        self.inputs = inputs
        self.extra = extra or {}

    def key(self):
        return (self.kind, self.msg)

    def __repr__(self):
        return 'Violation(%s: %s @ %s; %s)' % (self.kind, self.msg, self.where, self.inputs)


STD_EXC = {
    '_ZTISt9exception': None,
    '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt11range_error': '_ZTISt13runtime_error',
    '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error',
    '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
    '_ZTISt8bad_cast': '_ZTISt9exception',
}


class Solver:
    """One incremental z3 solver kept in step with the current path condition."""

    def __init__(self, timeout_ms, rlog):
        self.timeout = timeout_ms
        self.new()
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.time = 0.0
        self.fallbacks = 0
        self.slowest = 0.0

    def new(self):
        self.s = z3.SolverFor('QF_UFBV')
        self.s.set('timeout', self.timeout)
        self.stack = []

    def sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        t0 = time.time()
        self.queries += 1
        self.sync(pc)
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        res = None
        if r == z3.sat:
            res = ('sat', self.s.model())
        elif r == z3.unsat:
            res = ('unsat', None)
        self.s.pop()
        if res is None:
            res = self.fallback(pc, extra)
        dt = time.time() - t0
        self.time += dt
        self.slowest = max(self.slowest, dt)
        if res[0] == 'sat':
            self.sat += 1
        elif res[0] == 'unsat':
            self.unsat += 1
        return res

    def fallback(self, pc, extra):
        self.fallbacks += 1
        self.new()
        s = z3.Solver()
        s.set('timeout', self.timeout * 4)
        for c in pc:
            s.add(c)
        s.add(extra)
        r = s.check()
        if r == z3.sat:
            return ('sat', s.model())
        if r == z3.unsat:
            return ('unsat', None)
        return ('unknown', None)


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        o = {'timeout_ms': 20000, 'max_steps': 3000000, 'max_paths': 20000, 'max_conc': 64, 'deadline': None,
             'sym_heap_base': False, 'max_cand': 16384, 'max_alloc': 1 << 31, 'merge': False}
        o.update(opts or {})
        self.o = o
        self.solver = Solver(o['timeout_ms'], None)
        self.violations = {}
        self.inconclusive = []
        self.paths = 0
        self.steps = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.reached = {}
        self.blocks_hit = set()
        self.forks = 0
        self.merges = 0
        self.merge_aborts = 0
        self.gobj = {}
        self.fobj = {}
        self.objfn = {}
        self.nextid = 1
        self.base_mem = {}
        self.tids = {}
        self.handlers = {}
        self.work = []
        self.npathsok = 0
        self.sample_model = None
        from . import externs
        externs.install(self)
        for f in mod.funcs.values():
            f.decoded = None      # decoded closures belong to one engine

    # ------------------------------------------------------------ objects
    def new_id(self):
        i = self.nextid
        self.nextid += 1
        return i

    def new_obj(self, st, size, kind, how=None, align=16, init=None, name=None):
        o = Obj()
        o.id = self.new_id()
        o.size = size
        o.kind = kind
        o.how = how
        o.alive = True
        o.cells = {}
        o.init = init
        o.base = (o.id << SLOT) + BASE0 + align     # aligned to 'align' and to nothing more
        o.ro = False
        o.owner = st.token if st is not None else None
        o.name = name
        o.nid = 0
        o.wlog = ()
        (st.mem if st is not None else self.base_mem)[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner is not st.token:
            o = o.copy(st.token)
            st.mem[oid] = o
        return o

    def global_ptr(self, name):
        g = self.gobj.get(name)
        if g is not None:
            return g
        f = self.mod.funcs.get(name)
        if f is not None:
            o = self.new_obj(None, 1, 'func', name=name)
            self.objfn[o.id] = name
            p = self.gobj[name] = Ptr(o.id, 0)
            return p
        gl = self.mod.get_global(name)
        if gl is None:
            raise Unsupported('global ' + name)
        if gl.external == 'alias':
            p = self.gobj[name] = self.const(gl.init)
            return p
        if gl.external:
            o = self.new_obj(None, 64, 'extern', name=name)
            o.ro = True
            p = self.gobj[name] = Ptr(o.id, 0)
            return p
        al = max(gl.align or 1, gl.ty.align())
        o = self.new_obj(None, gl.ty.size(), 'global', align=al, init='zero', name=name)
        p = self.gobj[name] = Ptr(o.id, 0)
        self.init_cells(o, 0, gl.ty, gl.init)
        o.ro = gl.const
        return p

    def init_cells(self, o, off, ty, v):
        k = ty.k
        if k == 'struct':
            if v is UNDEF:
                return
            for f, fo, x in zip(ty.fields, ty.offsets(), v):
                self.init_cells(o, off + fo, f, x)
        elif k in ('arr', 'vec'):
            es = ty.e.size()
            if v is UNDEF:
                return
            for i, x in enumerate(v):
                self.init_cells(o, off + i * es, ty.e, x)
        else:
            c = self.const(v)
            if c is UNDEF:
                return
            n = ty.size()
            if n == 16 and type(c) is int:
                o.cells[off] = (8, c & mask(64))
                o.cells[off + 8] = (8, c >> 64)
                return
            o.cells[off] = (n, c)

    def const(self, v):
        """parsed constant -> runtime value"""
        if isinstance(v, GRef):
            return self.global_ptr(v.name)
        if isinstance(v, CExpr):
            return self.cexpr(v)
        if isinstance(v, list):
            return [self.const(x) for x in v]
        return v

    def cexpr(self, e):
        if e.op == 'getelementptr':
            return self.gep(None, e.extra, [(t, self.const(v)) for t, v in e.args])
        if e.op == 'inttoptr':
            return self.const(e.args[0][1])
        if e.op == 'ptrtoint':
            return self.addr(None, self.const(e.args[0][1]))
        if e.op in ('bitcast', 'addrspacecast'):
            return self.const(e.args[0][1])
        if e.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv'):
            a = self.const(e.args[0][1])
            b = self.const(e.args[1][1])
            return ops.binop(e.op, a, b, e.args[0][0].n)
        if e.op in ('trunc', 'zext', 'sext'):
            a = self.const(e.args[0][1])
            return getattr(ops, e.op)(a, e.args[0][0].n, e.extra.n)
        if e.op == 'icmp':
            a = self.const(e.args[0][1])
            b = self.const(e.args[1][1])
            a = self.addr(None, a)
            b = self.addr(None, b)
            return ops.icmp(e.extra, a, b, 64)
        raise Unsupported('constant expression ' + e.op)

    # ------------------------------------------------------------ solver helpers
    def sat(self, st, cond):
        """model of pc & cond or None"""
        if type(cond) is int:
            cond = z3.BoolVal(bool(cond))
        for m in reversed(st.models):
            if z3.is_true(m.eval(cond, model_completion=True)):
                return m
        r, m = self.solver.check(st.pc, cond)
        if r == 'unknown':
            raise Budget('solver gave no answer')
        if m is not None:
            st.models.append(m)
            if len(st.models) > 4:
                del st.models[0]
        return m

    def add_pc(self, st, cond):
        if type(cond) is int:
            if not cond:
                raise PathEnd()
            return
        st.pc.append(cond)
        st.pcids[cond.get_id()] = True
        if st.models:
            st.models = [m for m in st.models if z3.is_true(m.eval(cond, model_completion=True))]

    def settle(self, st, cond):
        """the condition as 0 or 1 if the path leaves no choice"""
        if type(cond) is int:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        if st.pcids.get(c.get_id()) is not None:
            return 1
        n = z3.simplify(z3.Not(c))
        if st.pcids.get(n.get_id()) is not None:
            return 0
        if self.sat(st, c) is None:
            self.add_pc(st, n)
            return 0
        if self.sat(st, n) is None:
            self.add_pc(st, c)
            return 1
        return c

    def decide(self, st, cond):
        """fork on cond; returns the truth value on the current path"""
        if type(cond) is int:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        k = st.pcids.get(c.get_id())
        if k is not None:
            return 1
        n = z3.simplify(z3.Not(c))
        if st.pcids.get(n.get_id()) is not None:
            return 0
        mt = self.sat(st, c)
        if mt is None:
            self.add_pc(st, n)
            return 0
        mf = self.sat(st, n)
        if mf is None:
            self.add_pc(st, c)
            return 1
        # both feasible: fork
        self.forks += 1
        s2 = st.clone()
        s2.frames[-1].ip -= 1
        self.add_pc(s2, n)
        s2.models = [mf]
        self.work.append(s2)
        self.add_pc(st, c)
        st.models = [m for m in [mt] if True]
        return 1

    def concretize(self, st, e, what='value', limit=None):
        if type(e) is int:
            return e
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        n = 0
        m = self.sat(st, z3.BoolVal(True))
        if m is None:
            raise PathEnd()
        v = m.eval(e, model_completion=True).as_long()
        c = e == bv(v, e.size())
        if self.sat(st, z3.Not(c)) is not None:
            self.forks += 1
            cnt = st.track.get(('conc', e.get_id()), 0) + 1
            if cnt > (limit or self.o['max_conc']):
                raise Budget('too many values for %s' % what)
            s2 = st.clone()
            s2.frames[-1].ip -= 1
            s2.track[('conc', e.get_id())] = cnt
            s2.log.append(e)
            self.add_pc(s2, z3.Not(c))
            self.work.append(s2)
        self.add_pc(st, c)
        return v

    def fresh(self, st, w, name='undef'):
        st.nund += 1
        nm = '%s!%d' % (name, st.nund)
        if w == 1:
            return z3.Bool(nm)
        return z3.BitVec(nm, w)

    def mat(self, st, v, ty):
        """materialise UNDEF"""
        if v is UNDEF:
            return self.fresh(st, 64 if ty.k == 'ptr' else ty.n)
        return v

    # ------------------------------------------------------------ reporting
    def where(self, st):
        out = []
        for fr in reversed(st.frames):
            out.append('%s:%s' % (fr.fn.name, fr.blk))
        return ' < '.join(out[:4])

    def report(self, st, kind, msg, model=None, uf=False):
        key = (kind, msg)
        if key in self.violations and len(self.violations[key]) >= 4:
            return
        if model is None:
            model = self.sat(st, z3.BoolVal(True))
            if model is None:
                return
        ins = []
        for name, kd, var in st.inputs:
            v = model.eval(var, model_completion=True)
            ins.append((name, kd, v.as_long()))
        v = Violation(kind, msg, self.where(st), ins, {'seq': list(st.last or [])})
        self.violations.setdefault(key, []).append(v)
        if not uf:
            from . import fpexact
            if fpexact.ufs((list(st.pc), z3.BoolVal(True))):
                v.extra['query'] = (list(st.pc), z3.BoolVal(True))
            else:
                self.cut_deadline()

    def cut_deadline(self):
        # a violation is at hand: do not spend much more on finding others
        dl = time.time() + 40
        if not self.o['deadline'] or self.o['deadline'] > dl:
            self.o['deadline'] = dl

    def check(self, st, cond, kind, msg):
        """assert cond on this path: report if it can fail, continue assuming it"""
        self.obligations += 1
        if type(cond) is int:
            if cond:
                self.discharged += 1
                self.trivial += 1
                return
            self.report(st, kind, msg)
            raise PathEnd()
        n = z3.simplify(z3.Not(cond))
        if z3.is_false(n):
            self.discharged += 1
            self.trivial += 1
            return
        m = self.sat(st, n)
        if m is not None:
            ax = commutes(n)
            if ax:
                m = self.sat(st, z3.And(n, *ax))
        if m is None:
            self.discharged += 1
            return
        self.report_uf(st, kind, msg, n, m)
        if self.sat(st, cond) is None:
            raise PathEnd()
        self.add_pc(st, cond)

    def report_uf(self, st, kind, msg, neg, m):
        """a check failed under the UF abstraction of FP arithmetic"""
        self.report(st, kind, msg, m, True)
        v = self.violations.get((kind, msg))
        if v:
            v[-1].extra['query'] = (list(st.pc), neg)
            from . import fpexact
            if not fpexact.ufs((list(st.pc), neg)):
                self.cut_deadline()

    # ------------------------------------------------------------ memory
    def addr(self, st, p):
        if type(p) is Ptr:
            o = (st.mem.get(p.o) if st is not None else None) or self.base_mem.get(p.o)
            b = o.base
            if type(p.off) is int and type(b) is int:
                return (b + p.off) & mask(64)
            return ops.binop('add', b, p.off, 64)
        return p

    def resolve(self, st, p, what):
        """pointer value -> Ptr, or report"""
        if type(p) is Ptr:
            return p
        if p is UNDEF:
            self.report(st, 'memory', '%s through an uninitialised pointer' % what)
            raise PathEnd()
        if type(p) is not int:
            p = ops.simp(p)
        if type(p) is not int:
            m = self.sat(st, z3.BoolVal(True))
            if m is None:
                raise PathEnd()
            v = m.eval(p, model_completion=True).as_long()
            oid = v >> SLOT
            hi = z3.LShR(p, SLOT)
            if not self.decide(st, hi == bv(oid, 64)):
                return self.resolve(st, p, what)   # pragma: no cover (other side continues by fork)
            o = st.mem.get(oid) or self.base_mem.get(oid)
            if o is None:
                self.report(st, 'memory', '%s through a wild pointer' % what)
                raise PathEnd()
            return Ptr(oid, ops.simp(p - bv(o.base, 64)))
        oid = p >> SLOT
        o = st.mem.get(oid) or self.base_mem.get(oid)
        if o is None:
            self.report(st, 'memory', '%s through a %s pointer' % (what, 'null' if p < 4096 else 'wild'))
            raise PathEnd()
        off = ops.binop('sub', p, o.base, 64)
        if type(off) is not int:
            off = ops.simp(off)
        return Ptr(oid, off)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.base_mem.get(oid)
            if o is not None:
                st.mem[oid] = o
        return o

    def access(self, st, p, n, what, align=1, vec=False):
        """validity checks for an access of n bytes; returns (Ptr, obj)"""
        p = self.resolve(st, p, what)
        o = self.obj(st, p.o)
        if not o.alive:
            self.report(st, 'memory', '%s of %s memory' % (what, 'freed' if o.kind == 'heap' else 'dead stack'))
            raise PathEnd()
        off = p.off
        if type(off) is int:
            s = off if off < (1 << 63) else off - (1 << 64)
            if s < 0 or s + n > o.size:
                self.report(st, 'memory', 'out-of-bounds %s (%s object)' % (what, o.kind))
                raise PathEnd()
        else:
            off = z3.simplify(off)
            if z3.is_bv_value(off):
                return self.access(st, Ptr(p.o, off.as_long()), n, what, align, vec)
            p = Ptr(p.o, off)
            if o.size < n:
                self.report(st, 'memory', 'out-of-bounds %s (%s object)' % (what, o.kind))
                raise PathEnd()
            inb = z3.ULE(off, bv(o.size - n, 64))
            key = ('inb', off.get_id(), o.id, n)
            if key not in st.track:
                m = self.sat(st, z3.Not(inb))
                if m is not None:
                    self.report(st, 'memory', 'out-of-bounds %s (%s object)' % (what, o.kind), m)
                    if self.sat(st, inb) is None:
                        raise PathEnd()
                    self.add_pc(st, inb)
                st.track[key] = True
                st.log.append(off)
        if vec and align >= 16:
            a = self.addr(st, p)
            if type(a) is int:
                if a % align:
                    self.report(st, 'memory', 'misaligned %d-byte vector %s' % (align, what))
                    raise PathEnd()
            else:
                c = (z3.Extract(align.bit_length() - 2, 0, a) == 0)
                m = self.sat(st, z3.Not(c))
                if m is not None:
                    self.report(st, 'memory', 'misaligned %d-byte vector %s' % (align, what), m)
                    if self.sat(st, c) is None:
                        raise PathEnd()
                    self.add_pc(st, c)
        if what == 'write' and o.ro:
            self.report(st, 'memory', 'write to constant memory')
            raise PathEnd()
        if st.dev is not None and o.kind == 'heap' and st.dev != (o.how == 'cuda') and st.dev != 2:
            self.report(st, 'memory', 'host memory accessed on the device' if st.dev else 'device memory accessed on the host')
            raise PathEnd()
        if st.thr:
            self.note(st, p, n, what == 'write')
        return p, o

    # two threads, each with the memory it accesses
    def note(self, st, p, n, write):
        off = p.off
        k = (st.thr, p.o, off if type(off) is int else ('e', off.get_id()), n, write)
        if k not in st.acc:
            st.acc[k] = (off, st.frames[-1].fn.name if st.frames else '')

    def race_check(self, st):
        by = {}
        for (t, o, _, n, w), (off, where) in st.acc.items():
            by.setdefault(o, ([], []))[t - 1].append((off, n, w, where))
        pairs = []
        for o, (xs, ys) in by.items():
            for a in xs:
                for b in ys:
                    if not (a[2] or b[2]):
                        continue
                    self.obligations += 1
                    if type(a[0]) is int and type(b[0]) is int:
                        if a[0] < b[0] + b[1] and b[0] < a[0] + a[1]:
                            self.race(st, a, b)
                        else:
                            self.discharged += 1
                            self.trivial += 1
                    else:
                        x, y = [bv(q[0], 64) if type(q[0]) is int else q[0] for q in (a, b)]
                        pairs.append((a, b, z3.And(z3.ULT(x, y + bv(b[1], 64)), z3.ULT(y, x + bv(a[1], 64)))))
        for i in range(0, len(pairs), 32):
            chunk = pairs[i:i + 32]
            m = self.sat(st, z3.Or([c for _, _, c in chunk]))
            if m is None:
                self.discharged += len(chunk)
                continue
            for a, b, c in chunk:
                if z3.is_true(m.eval(c, model_completion=True)):
                    self.race(st, a, b, m)
                    break
        st.acc = {}

    def race(self, st, a, b, m=None):
        self.report(st, 'race', 'conflicting accesses of two threads (%s, %s)' % (
            'write' if a[2] else 'read', 'write' if b[2] else 'read'), m)
        raise PathEnd()

    # concrete offset cell access
    def _rd(self, st, o, off, n):
        """n<=8 bytes at concrete offset -> int | z3 | Ptr"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        cells = o.cells
        parts = []       # (value,width bits)
        b = off
        end = off + n
        anycell = False
        segs = []
        while b < end:
            c = None
            for d in range(8):
                cc = cells.get(b - d)
                if cc is not None:
                    if cc[0] > d:
                        c = (cc, d)
                    break
            if c is None:
                # extent of the hole
                e = b + 1
                while e < end and e not in cells:
                    e += 1
                segs.append((None, b, e - b, 0))
                b = e
            else:
                (cn, cv), d = c
                take = min(cn - d, end - b)
                segs.append((cv, d, take, cn))
                b += take
                anycell = True
        if not anycell and o.init is None:
            v = self.fresh(st, 8 * n)
            w = self.wobj(st, o.id) if o.id in st.mem else o
            w.cells[off] = (n, v)
            return v
        for cv, d, take, cn in segs:
            if cv is None:
                if o.init == 'zero':
                    parts.append((0, 8 * take))
                elif o.init is None:
                    v = self.fresh(st, 8 * take)
                    w = self.wobj(st, o.id)
                    w.cells[d] = (take, v) if take <= 8 else None
                    parts.append((v, 8 * take))
                else:
                    parts.append((int.from_bytes(o.init[d:d + take], 'little'), 8 * take))
            else:
                if type(cv) is Ptr:
                    cv = self.addr(st, cv)
                if type(cv) is int:
                    parts.append(((cv >> (8 * d)) & mask(8 * take), 8 * take))
                else:
                    parts.append((ops.extract(cv, 8 * (d + take) - 1, 8 * d), 8 * take))
        return ops.concat(parts)[0]

    def _wr(self, st, o, off, n, v):
        """o must be writable copy"""
        cells = o.cells
        o.wlog = ()
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        for b in range(off - 7, off + n):
            c = cells.get(b)
            if c is None:
                continue
            cn, cv = c
            if b + cn <= off:
                continue
            del cells[b]
            if type(cv) is Ptr:
                if b < off or b + cn > off + n:
                    cv = self.addr(st, cv)
            if b < off:
                k = off - b
                cells[b] = (k, (cv & mask(8 * k)) if type(cv) is int else ops.extract(cv, 8 * k - 1, 0))
            if b + cn > off + n:
                k = b + cn - (off + n)
                d = cn - k
                cells[off + n] = (k, (cv >> (8 * d)) if type(cv) is int else ops.extract(cv, 8 * cn - 1, 8 * d))
        cells[off] = (n, v)

    def candidates(self, st, off, n, size):
        """possible concrete values of the symbolic offset (superset), ascending"""
        key = ('cand', off.get_id(), size - n)
        r = st.track.get(key)
        if r is not None:
            return r
        stride, res = linstride(off)
        if stride == 0:
            return [res]
        # arithmetic wraps modulo 2^64: only the power-of-two part of the stride is sound
        stride &= -stride
        res %= stride
        lo, hi = self.bounds(st, off, size - n)
        first = lo + ((res - lo) % stride)
        cand = list(range(first, hi + 1, stride))
        if len(cand) > self.o['max_cand']:
            raise Budget('symbolic offset with %d candidates' % len(cand))
        st.track[key] = cand
        st.log.append(off)
        return cand

    def bounds(self, st, e, top):
        w = e.size()
        lo, hi = 0, top
        m = self.sat(st, z3.BoolVal(True))
        v = m.eval(e, model_completion=True).as_long()
        # max
        a, b = v, top
        while a < b:
            mid = (a + b + 1) // 2
            m = self.sat(st, z3.UGE(e, bv(mid, w)))
            if m is None:
                b = mid - 1
            else:
                a = max(mid, m.eval(e, model_completion=True).as_long())
        hi = a
        a, b = 0, v
        while a < b:
            mid = (a + b) // 2
            m = self.sat(st, z3.ULE(e, bv(mid, w)))
            if m is None:
                a = mid + 1
            else:
                b = min(mid, m.eval(e, model_completion=True).as_long())
        lo = a
        return lo, hi

    def rd(self, st, p, o, n):
        off = p.off
        if type(off) is int:
            if o.wlog:
                f = self.forward(st, o, bv(off, 64), n)
                if f is not None:
                    return f[0]
            return self._rd(st, o, off, n)
        if o.wlog:
            f = self.forward(st, o, off, n)
            if f is not None:
                return f[0]
        cand = self.candidates(st, off, n, o.size)
        groups = {}
        for c in cand:
            v = self._rd(st, self.obj(st, o.id), c, n)
            if type(v) is Ptr:
                v = self.addr(st, v)
            k = v if type(v) is int else ('e', v.get_id())
            g = groups.get(k)
            if g is None:
                groups[k] = [v, [c]]
            else:
                g[1].append(c)
        gs = sorted(groups.values(), key=lambda g: len(g[1]))
        r = gs[-1][0]
        w = 8 * n
        r = bv(r, w)
        for v, cs in reversed(gs[:-1]):
            if len(cs) == 1:
                cond = off == bv(cs[0], 64)
            else:
                cond = z3.Or(*[off == bv(c, 64) for c in cs])
            r = z3.If(cond, bv(v, w), r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def forward(self, st, o, off, n):
        """value of the latest write to exactly these bytes, when nothing written since can overlap them"""
        for woff, wn, wv in reversed(o.wlog):
            if wn == n and woff.eq(off):
                return (wv,)
            d = z3.simplify(off - woff)
            if z3.is_bv_value(d):
                d = d.as_long()
                if d == 0 and wn == n:
                    return (wv,)
                if wn <= d <= (1 << 64) - n:
                    continue
                return None
            if len(o.wlog) > 6:
                return None
            key = ('disj', off.get_id(), woff.get_id(), n, wn)
            r = st.track.get(key)
            if r is None:
                ov = z3.Or(z3.ULT(off - woff, bv(wn, 64)), z3.UGT(off - woff, bv((1 << 64) - n, 64)))
                r = self.sat(st, ov) is None
                st.log += [off, woff]
                if r:
                    st.track[key] = r
            if not r:
                return None
        return None

    def wr(self, st, p, o, n, v):
        off = p.off
        o = self.wobj(st, o.id)
        if type(off) is int:
            log = o.wlog
            self._wr(st, o, off, n, v)
            if log:
                o.wlog = log[-15:] + ((bv(off, 64), n, v),)
            return
        log = o.wlog
        self.wr_sym(st, p, o, n, v)
        self.wobj(st, o.id).wlog = log[-15:] + ((off, n, v),)

    def wr_sym(self, st, p, o, n, v):
        off = p.off
        cand = self.candidates(st, off, n, o.size)
        if type(v) is Ptr:
            v = self.addr(st, v)
        w = 8 * n
        stride = cand[1] - cand[0] if len(cand) > 1 else n
        if stride >= n:
            for c in cand:
                old = self._rd(st, o, c, n)
                o = self.wobj(st, o.id)
                if type(old) is Ptr:
                    old = self.addr(st, old)
                self._wr(st, o, c, n, ops.ite(off == bv(c, 64), v, old, w))
        else:
            # overlapping candidates: byte-wise
            span = sorted(set(b for c in cand for b in range(c, c + n)))
            for b in span:
                old = self._rd(st, o, b, 1)
                o = self.wobj(st, o.id)
                new = old
                for k in range(n):
                    if b - k in cand_set(cand):
                        vb = (v >> (8 * k)) & 255 if type(v) is int else ops.extract(v, 8 * k + 7, 8 * k)
                        new = ops.ite(off == bv(b - k, 64), vb, new, 8)
                self._wr(st, o, b, 1, new)

    def load(self, st, ty, p, align=1):
        k = ty.k
        if k == 'int':
            n = ty.n
            if n == 1 or n % 8:
                nb = (n + 7) // 8
                q, o = self.access(st, p, nb, 'read')
                v = self.rd(st, q, o, nb)
                if type(v) is Ptr:
                    v = self.addr(st, v)
                return ops.trunc(v, nb * 8, n)
            nb = n // 8
            if nb > 8:
                q, o = self.access(st, p, nb, 'read')
                parts = []
                for i in range(0, nb, 8):
                    x = self.rd(st, Ptr(q.o, ops.binop('add', q.off, i, 64)), self.obj(st, q.o), 8)
                    if type(x) is Ptr:
                        x = self.addr(st, x)
                    parts.append((x, 64))
                return ops.concat(parts)[0]
            q, o = self.access(st, p, nb, 'read')
            v = self.rd(st, q, o, nb)
            if type(v) is Ptr:
                v = self.addr(st, v)
            return v
        if k == 'float':
            nb = ty.n // 8
            if ty.n == 80:
                raise Unsupported('x86_fp80')
            q, o = self.access(st, p, nb, 'read')
            v = self.rd(st, q, o, nb)
            if type(v) is Ptr:
                v = self.addr(st, v)
            return v
        if k == 'ptr':
            q, o = self.access(st, p, 8, 'read')
            v = self.rd(st, q, o, 8)
            return v
        if k == 'vec':
            e = ty.e
            if e.k == 'int' and e.n == 1:
                nb = (ty.n + 7) // 8
                x = self.load(st, I(nb * 8), p, align)
                return [ops.trunc(x, nb * 8, 1) if i == 0 else bit(x, i) for i in range(ty.n)]
            es = 8 if e.k == 'ptr' else e.n // 8
            q, o = self.access(st, p, es * ty.n, 'read', align, True)
            out = []
            for i in range(ty.n):
                v = self.rd(st, Ptr(q.o, self.offadd(q.off, i * es)), self.obj(st, q.o), es)
                if type(v) is Ptr and e.k != 'ptr':
                    v = self.addr(st, v)
                out.append(v)
            return out
        if k == 'struct':
            return [self.load(st, f, self.padd(p, fo), 1) for f, fo in zip(ty.fields, ty.offsets())]
        if k == 'arr':
            es = ty.e.size()
            return [self.load(st, ty.e, self.padd(p, i * es), 1) for i in range(ty.n)]
        raise Unsupported('load %r' % ty)

    def offadd(self, off, k):
        if k == 0:
            return off
        if type(off) is int:
            return (off + k) & mask(64)
        return z3.simplify(off + bv(k, 64))

    def padd(self, p, k):
        if k == 0:
            return p
        if type(p) is Ptr:
            return Ptr(p.o, self.offadd(p.off, k))
        if type(p) is int:
            return (p + k) & mask(64)
        return p + bv(k, 64)

    def store(self, st, ty, v, p, align=1):
        k = ty.k
        if k == 'int':
            n = ty.n
            nb = (n + 7) // 8
            if v is UNDEF:
                v = self.fresh(st, n)
            if n % 8:
                v = ops.zext(v, n, nb * 8)
            q, o = self.access(st, p, nb, 'write')
            if nb > 8:
                for i in range(0, nb, 8):
                    x = (v >> (8 * i)) & mask(64) if type(v) is int else ops.extract(v, 8 * i + 63, 8 * i)
                    self.wr(st, Ptr(q.o, self.offadd(q.off, i)), self.obj(st, q.o), 8, x)
                return
            self.wr(st, q, o, nb, v)
            return
        if k == 'float':
            if ty.n == 80:
                raise Unsupported('x86_fp80')
            if v is UNDEF:
                v = self.fresh(st, ty.n)
            q, o = self.access(st, p, ty.n // 8, 'write')
            self.wr(st, q, o, ty.n // 8, v)
            return
        if k == 'ptr':
            if v is UNDEF:
                v = self.fresh(st, 64)
            q, o = self.access(st, p, 8, 'write')
            self.wr(st, q, o, 8, v)
            return
        if k == 'vec':
            e = ty.e
            if e.k == 'int' and e.n == 1:
                x, w = ops.concat([(ops.b2bv1(self.mat(st, b, e), 1) if type(b) is not int else b, 1) for b in v])
                nb = (ty.n + 7) // 8
                self.store(st, I(nb * 8), ops.zext(x, w, nb * 8) if w != nb * 8 else x, p)
                return
            es = 8 if e.k == 'ptr' else e.n // 8
            q, o = self.access(st, p, es * ty.n, 'write', align, True)
            for i in range(ty.n):
                x = v[i]
                if x is UNDEF:
                    x = self.fresh(st, es * 8)
                self.wr(st, Ptr(q.o, self.offadd(q.off, i * es)), self.obj(st, q.o), es, x)
            return
        if k == 'struct':
            for f, fo, x in zip(ty.fields, ty.offsets(), v):
                if x is UNDEF and f.k not in ('int', 'float', 'ptr'):
                    continue
                self.store(st, f, x, self.padd(p, fo))
            return
        if k == 'arr':
            es = ty.e.size()
            for i, x in enumerate(v):
                self.store(st, ty.e, x, self.padd(p, i * es))
            return
        raise Unsupported('store %r' % ty)

    def memcpy(self, st, d, s, n, move=False):
        if n == 0:
            return
        sp, so = self.access(st, s, n, 'read')
        dp, do = self.access(st, d, n, 'write')
        if type(sp.off) is int:
            so_off = sp.off
            pieces = []
            b = so_off
            end = so_off + n
            cells = so.cells
            while b < end:
                c = cells.get(b)
                if c is not None and b + c[0] <= end:
                    pieces.append((b - so_off, c[0], c[1]))
                    b += c[0]
                    continue
                # hole or partial cell
                if c is None:
                    cov = False
                    for dd in range(1, 8):
                        cc = cells.get(b - dd)
                        if cc is not None:
                            cov = cc[0] > dd
                            break
                    if not cov:
                        e = b + 1
                        while e < end and e not in cells and e - b < 8:
                            e += 1
                        k = e - b
                        pieces.append((b - so_off, k, self._rd(st, self.obj(st, sp.o), b, k)))
                        cells = self.obj(st, sp.o).cells
                        b = e
                        continue
                pieces.append((b - so_off, 1, self._rd(st, self.obj(st, sp.o), b, 1)))
                cells = self.obj(st, sp.o).cells
                b += 1
            vals = pieces
        else:
            es = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            vals = []
            for i in range(0, n, es):
                vals.append((i, es, self.rd(st, Ptr(sp.o, self.offadd(sp.off, i)), self.obj(st, sp.o), es)))
        for o2, k, v in vals:
            self.wr(st, Ptr(dp.o, self.offadd(dp.off, o2)), self.obj(st, dp.o), k, v)

    # ------------------------------------------------------------ gep
    def gep(self, st, bt, args):
        base = args[0][1]
        if type(base) is list or any(type(a[1]) is list for a in args[1:]):
            return self.gep_vec(st, bt, args)
        off = 0
        ty = bt
        first = True
        for aty, v in args[1:]:
            if first:
                sc = ty.size()
                first = False
            elif ty.k == 'struct':
                if type(v) is not int:
                    raise Unsupported('symbolic struct index')
                off = self._oadd(off, ty.offsets()[v])
                ty = ty.fields[v]
                continue
            else:
                ty = ty.e
                sc = ty.size()
            if v is UNDEF:
                v = self.fresh(st, aty.n)
            if type(v) is int:
                off = self._oadd(off, signed(v, aty.n) * sc)
            else:
                if aty.n < 64:
                    v = ops.sext(v, aty.n, 64)
                off = self._oadd(off, v if sc == 1 else v * bv(sc & mask(64), 64))
        if base is UNDEF:
            base = self.fresh(st, 64)
        if type(base) is Ptr:
            if type(off) is int:
                if type(base.off) is int:
                    return Ptr(base.o, (base.off + off) & mask(64))
                if off & mask(64) == 0:
                    return base
            return Ptr(base.o, ops.simp(ops.binop('add', base.off, off & mask(64) if type(off) is int else off, 64)))
        if type(off) is int:
            off &= mask(64)
        return ops.simp(ops.binop('add', base, off, 64))

    def gep_vec(self, st, bt, args):
        n = max(len(a[1]) for a in args if type(a[1]) is list)
        out = []
        for i in range(n):
            sub = []
            for t, v in args:
                if type(v) is list:
                    sub.append((t.e, v[i]))
                else:
                    sub.append((t, v))
            out.append(self.gep(st, bt, sub))
        return out

    def _oadd(self, a, b):
        if type(a) is int and type(b) is int:
            return a + b
        if type(a) is int:
            a = bv(a & mask(64), 64)
        if type(b) is int:
            b = bv(b & mask(64), 64)
        return a + b

    # ------------------------------------------------------------ run
    def run(self, entry):
        f = self.mod.funcs.get(entry)
        if f is None or f.declared:
            raise Unsupported('no entry ' + entry)
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.pcids = {}
        st.token = object()
        st.inputs = []
        st.exc = None
        st.caught = []
        st.models = []
        st.names = {}
        st.live = set()
        st.nund = 0
        st.steps = 0
        st.track = {}
        st.last = None
        st.log = []
        st.seq = 0
        st.nondet_base = self.o['sym_heap_base']
        st.failk = None
        st.nalloc = 0
        st.thr = 0
        st.dev = None
        st.acc = {}
        self.push_frame(st, f, [], None, None)
        self.work = [st]
        dl = self.o['deadline']
        while self.work:
            st = self.work.pop()
            if self.paths >= self.o['max_paths']:
                self.inconclusive.append('path budget exhausted')
                break
            dl = self.o['deadline']
            if dl and time.time() > dl:
                self.inconclusive.append('time budget exhausted')
                break
            self.paths += 1
            try:
                self.run_path(st)
            except PathEnd:
                pass
            except Budget as e:
                self.inconclusive.append('%s at %s' % (e, self.where(st)))
                if len(self.inconclusive) > 5:
                    break
            except Unsupported as e:
                self.inconclusive.append('unsupported: %s at %s' % (e, self.where(st)))
                if len(self.inconclusive) > 5:
                    break
        return self

    def run_path(self, st):
        maxs = self.o['max_steps']
        dl = self.o['deadline']
        frames = st.frames
        n = 0
        try:
            while frames:
                fr = frames[-1]
                code = fr.code
                ip = fr.ip
                fr.ip = ip + 1
                code[ip](st, fr)
                n += 1
                if not n & 0xfff:
                    if n + st.steps > maxs:
                        raise Budget('instruction budget (unwinding bound) exceeded')
                    dl = self.o['deadline']
                    if dl and time.time() > dl:
                        raise Budget('time budget exhausted')
        finally:
            self.steps += n
            st.steps += n
        self.npathsok += 1

    def push_frame(self, st, f, args, dst, inv):
        d = self.decode(f)
        fr = Frame()
        fr.fn = f
        fr.r = {}
        for (ty, name, at), v in zip(f.params, args):
            if 'byval' in at:
                bt = llir.P(self.mod, at['byval'] + [('eof', '')]).type()
                al = max(at.get('align', 1), bt.align())
                o = self.new_obj(st, bt.size(), 'stack', align=al)
                self.memcpy(st, Ptr(o.id, 0), v, bt.size())
                v = Ptr(o.id, 0)
            fr.r[name] = v
        fr.dst = dst
        fr.inv = inv
        fr.allocas = []
        fr.blk = f.entry
        fr.code = d.block(self, f.entry)
        fr.ip = 0
        fr.ctx = None
        st.frames.append(fr)
        if len(st.frames) > 200:
            raise Budget('call depth')
        self.blocks_hit.add((f.name, f.entry))

    def pop_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = self.wobj(st, oid)
            o.alive = False
            o.cells = {}
        return fr

    def ret(self, st, v):
        fr = self.pop_frame(st)
        if not st.frames:
            return
        c = st.frames[-1]
        if fr.dst is not None:
            c.r[fr.dst] = v
        if fr.inv is not None:
            self.goto(st, c, fr.inv[0])

    def goto(self, st, fr, lbl):
        d = fr.fn.decoded
        src = fr.blk
        code = d.block(self, lbl)
        phis = d.phis[lbl]
        if phis:
            r = fr.r
            vals = []
            for dst, inc in phis:
                g = inc[src]
                vals.append((dst, g(r)))
            for dst, v in vals:
                r[dst] = v
        fr.blk = lbl
        fr.code = code
        fr.ip = 0
        self.blocks_hit.add((fr.fn.name, lbl))

    # ------------------------------------------------------------ exceptions
    def tid(self, name):
        t = self.tids.get(name)
        if t is None:
            t = self.tids[name] = len(self.tids) + 1
        return t

    def tname(self, st, p):
        """typeinfo pointer -> symbol name (or None for catch-all)"""
        if type(p) is int and p == 0:
            return None
        p = self.resolve(st, p, 'typeinfo')
        return self.obj(st, p.o).name

    def subtype(self, a, b):
        """a derived-from-or-equal b"""
        seen = 0
        while a is not None and seen < 10:
            if a == b:
                return True
            if a in STD_EXC:
                a = STD_EXC[a]
            else:
                g = self.mod.get_global(a)
                if g is None or g.init is None or not isinstance(g.init, list) or len(g.init) < 3:
                    return False
                base = g.init[2]
                a = base.name if isinstance(base, GRef) else None
            seen += 1
        return False

    def throw(self, st, exc):
        """exc = (objptr, typeinfo name, dtor)"""
        st.exc = exc
        self.unwind(st)

    def unwind(self, st):
        while st.frames:
            # find innermost frame entered by an invoke
            fr = self.pop_frame(st)
            if not st.frames:
                break
            if fr.inv is not None:
                c = st.frames[-1]
                self.goto(st, c, fr.inv[1])
                return
        st.frames.clear()
        raise _Uncaught()

    def throw_from_extern(self, st, inv, exc):
        """an external function called from the top frame throws"""
        st.exc = exc
        if inv is not None:
            self.goto(st, st.frames[-1], inv[1])
            return
        where = self.where(st)
        try:
            self.unwind(st)
        except _Uncaught:
            self.report(st, 'exception', 'uncaught exception %s' % demangle_ti(exc[1]))
            raise PathEnd()

    # ------------------------------------------------------------ decode
    def decode(self, f):
        if f.decoded is None:
            self.mod.parse_func(f)
            if f.declared:
                raise Unsupported('external function ' + f.name)
            f.decoded = Decoded(f)
        return f.decoded

    def call(self, st, fr, callee, args, argtys, dst, inv, ret):
        """callee: name or Ptr"""
        if type(callee) is Ptr:
            nm = self.objfn.get(callee.o)
            if nm is None:
                self.report(st, 'memory', 'call through a bad function pointer')
                raise PathEnd()
            callee = nm
        elif type(callee) is not str:
            p = self.resolve(st, callee, 'call')
            return self.call(st, fr, p, args, argtys, dst, inv, ret)
        h = self.find_handler(callee)
        if h is not None:
            v = h(self, st, args, inv, argtys, ret)
            if v is NORET:
                return
            if dst is not None:
                fr.r[dst] = v
            if inv is not None:
                self.goto(st, fr, inv[0])
            return
        f = self.mod.funcs.get(callee)
        if f is None:
            g = self.mod.get_global(callee)
            if g is not None and g.external == 'alias':
                p = self.const(g.init)
                return self.call(st, fr, p, args, argtys, dst, inv, ret)
        if f is None or f.declared:
            raise Unsupported('external function ' + callee)
        self.push_frame(st, f, args, dst, inv)

    def find_handler(self, name):
        h = self.handlers.get(name, 0)
        if h != 0:
            return h
        from . import externs
        h = externs.lookup(name)
        if h is None:
            f = self.mod.funcs.get(name)
            if f is not None and not f.declared:
                h = None
        self.handlers[name] = h
        return h


class _Uncaught(Exception):
    pass


class _NoRet:
    pass


NORET = _NoRet()


def demangle_ti(n):
    return {'_ZTISt12out_of_range': 'std::out_of_range', '_ZTISt16invalid_argument': 'std::invalid_argument',
            '_ZTISt9bad_alloc': 'std::bad_alloc', '_ZTISt12length_error': 'std::length_error',
            '_ZTISt11logic_error': 'std::logic_error'}.get(n, n)


def cand_set(c, _cache={}):
    k = id(c)
    r = _cache.get(k)
    if r is None or r[0] is not c:
        r = _cache[k] = (c, set(c))
    return r[1]


def bit(x, i):
    if type(x) is int:
        return (x >> i) & 1
    e = ops.extract(x, i, i)
    if type(e) is int:
        return e
    # Extract of If(b,1,0)-built concat collapses to the boolean itself
    if e.decl().kind() == z3.Z3_OP_ITE:
        a, b = e.arg(1), e.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            return ops.ite(e.arg(0), a.as_long() & 1, b.as_long() & 1, 1)
    return e == ops.bv1_1


def linstride(e, depth=0):
    """(stride,residue): every value of e is residue mod stride (stride 0: constant, residue is the value).
    Works modulo 2^64 because strides returned are combined with gcd and powers of two."""
    import math
    w = e.size()
    if z3.is_bv_value(e):
        return 0, e.as_long()
    k = e.decl().kind()
    if depth > 40:
        return 1, 0
    if k == z3.Z3_OP_BADD:
        s, r = 0, 0
        for i in range(e.num_args()):
            s2, r2 = linstride(e.arg(i), depth + 1)
            s = math.gcd(s, s2)
            r += r2
        return fix(s, r, w)
    if k == z3.Z3_OP_BMUL:
        s, r = linstride(e.arg(0), depth + 1)
        for i in range(1, e.num_args()):
            s2, r2 = linstride(e.arg(i), depth + 1)
            if s == 0 and s2 == 0:
                r = r * r2
            elif s == 0:
                s, r = s2 * r, r2 * r
            elif s2 == 0:
                s, r = s * r2, r * r2
            else:
                # (s a + r)(s2 b + r2) = s s2 ab + s r2 a + s2 r b + r r2
                s, r = math.gcd(math.gcd(s * s2, s * r2), s2 * r), r * r2
        return fix(s, r, w)
    if k == z3.Z3_OP_CONCAT:
        # trailing constant zeros
        last = e.arg(e.num_args() - 1)
        if z3.is_bv_value(last):
            sh = last.size()
            return 1 << sh, last.as_long()
        allz = all(z3.is_bv_value(e.arg(i)) and e.arg(i).as_long() == 0 for i in range(e.num_args() - 1))
        if allz:
            s, r = linstride(last, depth + 1)
            return s, r
        return 1, 0
    if k == z3.Z3_OP_ZERO_EXT:
        return linstride(e.arg(0), depth + 1)
    if k == z3.Z3_OP_BSHL:
        b = e.arg(1)
        if z3.is_bv_value(b):
            s, r = linstride(e.arg(0), depth + 1)
            c = 1 << b.as_long()
            return fix(s * c, r * c, w)
        return 1, 0
    if k == z3.Z3_OP_ITE:
        s1, r1 = linstride(e.arg(1), depth + 1)
        s2, r2 = linstride(e.arg(2), depth + 1)
        s = math.gcd(math.gcd(s1, s2), abs(r1 - r2))
        return fix(s, r1, w) if s else (0, r1)
    return 1, 0


def fix(s, r, w):
    m = (1 << w) - 1
    if s == 0:
        return 0, r & m
    return s, r % s


class Decoded:
    def __init__(self, f):
        self.f = f
        self.blocks = {}
        self.phis = {}
        self.dbgs = {}
        self.phity = {}
        self.joins = {}
        self.cfg = None

    def block(self, eng, lbl):
        b = self.blocks.get(lbl)
        if b is None:
            from . import decode
            b = decode.decode_block(eng, self, lbl)
            self.blocks[lbl] = b
        return b
