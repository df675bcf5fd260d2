"""Accuracy of approximate floating-point results.

The terms of the actual and of the expected result (operators on bit patterns, see ops.py) are read as real numbers, each
operator contributing a factor 1 + d with |d| bounded by its documented error: 2^-24 (2^-53) for rounded operations on
floats (doubles) in the normal range, 1.5 * 2^-12 for rcpps/rsqrtps, 2^-14 for the AVX512 estimates. z3 decides over the
reals whether some choice of the d (and of the inputs, where these don't cancel) lets the two differ by more than the
permitted relative error.

All inputs involved have to be bounded (2^-LIM <= |x| <= 2^LIM, decided on the path), so that no intermediate result
leaves the normal range.
"""
import struct
from fractions import Fraction
import z3
from . import ops
from .ops import bv

LIM = {32: 20, 64: 100}
EPS = {32: Fraction(1, 2 ** 24), 64: Fraction(1, 2 ** 53)}
EST = {'rcp12': Fraction(3, 2 ** 13), 'rsqrt12': Fraction(3, 2 ** 13), 'rcp14': Fraction(1, 2 ** 14),
       'rsqrt14': Fraction(1, 2 ** 14)}
_cache = {}


class Mono:
    """c * prod leaf^e * prod (1+d)^p; d are pairs (number, bound)"""
    __slots__ = ('c', 'e', 'd')

    def __init__(self, c, e, d):
        self.c = c
        self.e = {k: v for k, v in e.items() if v}
        self.d = {k: v for k, v in d.items() if v}


class Tr:
    def __init__(self, eng, st):
        self.eng = eng
        self.st = st
        self.memo = {}
        self.n = 0
        self.leaves = {}

    def err(self, b):
        self.n += 1
        return {(self.n, b): 1}

    # values are lists of monomials (sums)
    def mul1(self, a, b, s=1):
        e = dict(a.e)
        for k, v in b.e.items():
            e[k] = e.get(k, 0) + s * v
        d = dict(a.d)
        for k, v in b.d.items():
            d[k] = d.get(k, 0) + s * v
        return Mono(a.c * (b.c if s == 1 else 1 / b.c), e, d)

    def mul(self, a, b, s=1):
        if s == -1 and len(b) != 1 or len(a) * len(b) > 64:
            raise NotMono()
        return self.collect([self.mul1(x, y, s) for x in a for y in b])

    def collect(self, ms):
        acc = {}
        for m in ms:
            k = (frozenset(m.e.items()), frozenset(m.d.items()))
            acc[k] = acc.get(k, 0) + m.c
        return [Mono(c, dict(e), dict(d)) for (e, d), c in acc.items() if c]

    def root(self, a):
        # sqrt(1+d) = 1+d' with |d'| <= |d|: a fresh d' of the same bound for every factor
        if len(a) != 1:
            raise NotMono()
        a = a[0]
        e = {k: Fraction(v) / 2 for k, v in a.e.items()}
        d = {}
        for (n, b), p in a.d.items():
            q = abs(p)
            for i in range((q + 1) // 2):
                for k in self.err(b):
                    d[k] = 1 if p > 0 else -1
        r = Fraction(a.c)
        s = Fraction(int(r.numerator ** 0.5 + 0.5), int(r.denominator ** 0.5 + 0.5)) if r > 0 else 0
        if a.c <= 0 or s * s != r:
            raise NotMono()
        for k, v in a.e.items():
            if v % 2 or (v // 2) % 2:
                self.positive(k)
        return [Mono(s, e, d)]

    def with_err(self, ms, b):
        x = self.err(b)
        return [Mono(m.c, m.e, dict(list(m.d.items()) + list(x.items()))) for m in ms]

    def leaf(self, t, w):
        k = t.get_id()
        if k not in self.leaves:
            bias = 127 if w == 32 else 1023
            mb = 23 if w == 32 else 52
            ex = z3.Extract(w - 2, mb, t)
            ok = z3.And(z3.UGE(ex, bv(bias - LIM[w], w - 1 - mb)), z3.ULT(ex, bv(bias + LIM[w], w - 1 - mb)))
            if self.eng.sat(self.st, z3.Not(ok)) is not None:
                return None
            self.leaves[k] = (t, w)
        return [Mono(Fraction(1), {k: 1}, {})]

    def positive(self, k):
        t, w = self.leaves[k]
        if self.eng.sat(self.st, t < 0) is not None:
            raise NotMono()

    def term(self, t, w):
        if type(t) is int:
            t = bv(t, w)
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._term(t, w)
        self.memo[k] = r
        return r

    def _term(self, t, w):
        if z3.is_bv_value(t):
            b = t.as_long()
            f = struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]
            if f != f or f in (float('inf'), -float('inf')):
                raise NotMono()
            if f == 0:
                return []
            return [Mono(Fraction(f), {}, {})]
        neg = ops.is_neg_of(t, w)
        if neg is not None:
            return [Mono(-m.c, m.e, m.d) for m in self.term(neg, w)]
        n = t.decl().name()
        if n in ('fmul%d' % w, 'fdiv%d' % w):
            a, b = self.term(t.arg(0), w), self.term(t.arg(1), w)
            return self.with_err(self.mul(a, b, 1 if n[:4] == 'fmul' else -1), EPS[w])
        if n in ('fadd%d' % w, 'fsub%d' % w):
            a, b = self.term(t.arg(0), w), self.term(t.arg(1), w)
            if n[:4] == 'fsub':
                b = [Mono(-m.c, m.e, m.d) for m in b]
            return self.with_err(self.collect(a + b), EPS[w])
        if n == 'ffma%d' % w:
            return self.with_err(self.collect(self.mul(self.term(t.arg(0), w), self.term(t.arg(1), w)) +
                                              self.term(t.arg(2), w)), EPS[w])
        if n == 'fsqrt%d' % w:
            return self.with_err(self.root(self.term(t.arg(0), w)), EPS[w])
        est = n.rsplit('_', 1)[0]
        if est in EST and n.endswith('_%d' % w):
            a = self.term(t.arg(0), w)
            one = [Mono(Fraction(1), {}, {})]
            if est.startswith('rsqrt'):
                a = self.root(a)
            return self.with_err(self.mul(one, a, -1), EST[est])
        if n == 'fpext32_64':
            return self.term(t.arg(0), 32)
        if n == 'fptrunc64_32':
            return self.with_err(self.term(t.arg(0), 64), EPS[32])
        if n in ('si32tofp%d' % w,):
            # ints are exact doubles; as floats they are rounded
            x = t.arg(0)
            k = x.get_id()
            if k not in self.leaves:
                if self.eng.sat(self.st, x == 0) is not None:
                    raise NotMono()
                self.leaves[k] = (x, 32)
            r = [Mono(Fraction(1), {k: 1}, {})]
            return r if w == 64 else self.with_err(r, EPS[32])
        if t.num_args() == 0:
            r = self.leaf(t, w)
            if r is None:
                raise NotMono()
            return r
        raise NotMono()


class NotMono(Exception):
    pass


def bound_query(ms, rel):
    """can the sum of c * prod (1+d)^p leave [1-rel, 1+rel]?  -> 'unsat' (no) | 'sat' | 'unknown'"""
    ds = sorted(set(k for m in ms for k in m.d), key=lambda k: (k[1], k[0]))
    idx = {k: i for i, k in enumerate(ds)}
    key = (tuple(sorted((m.c, tuple(sorted((idx[k], k[1], p) for k, p in m.d.items()))) for m in ms)), rel)
    if key in _cache:
        return _cache[key]
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', 60000)
    v = []
    den = z3.RealVal(1)
    low = []
    for i, k in enumerate(ds):
        d = z3.Real('d%d' % i)
        q = z3.Q(k[1].numerator, k[1].denominator)
        s.add(d >= -q, d <= q)
        v.append(1 + d)
        low.append(min([0] + [int(m.d.get(k, 0)) for m in ms]))
        for _ in range(-low[-1]):
            den = den * v[i]
    num = z3.RealVal(0)
    for m in ms:
        t = z3.Q(m.c.numerator, m.c.denominator)
        for i, k in enumerate(ds):
            for _ in range(int(m.d.get(k, 0)) - low[i]):
                t = t * v[i]
        num = num + t
    r = z3.Q(rel.numerator, rel.denominator)
    s.add(z3.Or(num - den > r * den, den - num > r * den))
    c = str(s.check())
    _cache[key] = c
    return c


def check(eng, st, actual, expected, maxrel, w, msg):
    eng.obligations += 1
    if type(maxrel) is not int:
        from .sym import Unsupported
        raise Unsupported('symbolic error bound')
    rel = Fraction(struct.unpack('<d', struct.pack('<Q', maxrel))[0])
    if type(actual) is int and type(expected) is int:
        a, b = [struct.unpack('<f', struct.pack('<I', x))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', x))[0]
                for x in (actual, expected)]
        if abs(a - b) <= float(rel) * abs(b):
            eng.discharged += 1
            return
        eng.report(st, 'check', msg)
        return
    actual, expected = bv(actual, w), bv(expected, w)
    if actual.eq(expected):
        eng.discharged += 1
        eng.trivial += 1
        return
    if ('check', msg) in eng.violations:
        return
    tr = Tr(eng, st)
    why = None
    try:
        a, b = tr.term(actual, w), tr.term(expected, w)
        q = tr.mul(a, b, -1)
        if any(m.e for m in q):
            raise NotMono()
        else:
            r = bound_query(q, rel)
            eng.solver.queries += 1
            if r == 'unsat':
                eng.solver.unsat += 1
                eng.discharged += 1
                return
            why = 'error bound (%s)' % r
    except NotMono:
        why, ok = general(eng, st, actual, expected, w, rel)
        if ok:
            eng.discharged += 1
            return
    m = None
    ls = [t for t, _ in tr.leaves.values()]
    if len(ls) > 1:
        m = eng.sat(st, z3.Distinct(*ls))
    eng.report(st, 'check', msg, m, True)
    v = eng.violations.get(('check', msg))
    if v:
        v[-1].extra['close'] = why


def general(eng, st, actual, expected, w, rel):
    """the same with sums: the inputs become real variables"""
    key = ('g', actual.sexpr(), expected.sexpr(), rel)
    cons = []
    memo = {}
    cnt = [0]
    bad = []

    def fresh(b):
        cnt[0] += 1
        d = z3.Real('d%d' % cnt[0])
        q = z3.Q(b.numerator, b.denominator)
        cons.append(d >= -q)
        cons.append(d <= q)
        return 1 + d

    def var(name):
        cnt[0] += 1
        return z3.Real('%s%d' % (name, cnt[0]))

    def go(t, w):
        k = t.get_id()
        if k not in memo:
            memo[k] = go1(t, w)
        return memo[k]

    def go1(t, w):
        if z3.is_bv_value(t):
            b = t.as_long()
            f = struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]
            if f != f or abs(f) == float('inf'):
                bad.append(t)
                return z3.RealVal(0)
            q = Fraction(f)
            return z3.Q(q.numerator, q.denominator)
        neg = ops.is_neg_of(t, w)
        if neg is not None:
            return -go(neg, w)
        n = t.decl().name()
        if n in ('fmul%d' % w, 'fadd%d' % w, 'fsub%d' % w):
            a, b = go(t.arg(0), w), go(t.arg(1), w)
            return {'m': a * b, 'a': a + b, 's': a - b}[n[1]] * fresh(EPS[w])
        if n == 'ffma%d' % w:
            return (go(t.arg(0), w) * go(t.arg(1), w) + go(t.arg(2), w)) * fresh(EPS[w])
        if n == 'fdiv%d' % w:
            v = var('q')
            cons.append(v * go(t.arg(1), w) == go(t.arg(0), w))
            return v * fresh(EPS[w])
        if n == 'fsqrt%d' % w:
            v = var('r')
            cons.append(v * v == go(t.arg(0), w))
            cons.append(v >= 0)
            return v * fresh(EPS[w])
        est = n.rsplit('_', 1)[0]
        if est in EST and n.endswith('_%d' % w):
            v = var('e')
            x = go(t.arg(0), w)
            if est.startswith('rcp'):
                cons.append(v * x == 1)
            else:
                cons.append(v * v * x == 1)
                cons.append(v >= 0)
            return v * fresh(EST[est])
        if n == 'fpext32_64':
            return go(t.arg(0), 32)
        if n == 'fptrunc64_32':
            return go(t.arg(0), 64) * fresh(EPS[32])
        if t.num_args() == 0:
            v = var('x')
            lo, hi = z3.Q(1, 2 ** LIM[w]), z3.RealVal(2 ** LIM[w])
            if eng.sat(st, t < 0) is None:
                cons.append(z3.And(v >= lo, v <= hi))
            else:
                cons.append(z3.Or(z3.And(v >= lo, v <= hi), z3.And(v <= -lo, v >= -hi)))
            return v
        bad.append(t)
        return z3.RealVal(0)
    a, e = go(actual, w), go(expected, w)
    if bad:
        return 'operator %s' % bad[0].decl().name(), False
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', 60000)
    s.add(*cons)
    r = z3.Q(rel.numerator, rel.denominator)
    ae = z3.If(e >= 0, e, -e)
    s.add(z3.Or(a - e > r * ae, e - a > r * ae))
    eng.solver.queries += 1
    c = str(s.check())
    return 'error bound over the reals (%s)' % c, c == 'unsat'


def check_int(eng, st, actual, expected, exact, maxrel, msg):
    """actual is exact, or the int next to a float (or double) close to expected"""
    eng.obligations += 1
    rel = Fraction(struct.unpack('<d', struct.pack('<Q', maxrel))[0])
    if type(actual) is int and type(expected) is int and type(exact) is int:
        e = struct.unpack('<d', struct.pack('<Q', expected))[0]
        if actual == exact or abs(ops.signed(actual, 32) - e) <= float(rel) * abs(e) + 1:
            eng.discharged += 1
            return
        eng.report(st, 'check', msg)
        return
    if ('check', msg) in eng.violations:
        return
    actual, exact = bv(actual, 32), bv(exact, 32)
    if actual.eq(exact) or eng.sat(st, actual != exact) is None:
        eng.discharged += 1
        return
    n = actual.decl().name()
    why = 'neither exact nor a converted estimate: ' + n
    if n.startswith(('f32tosi32_', 'f64tosi32_')):
        tr = Tr(eng, st)
        try:
            q = tr.mul(tr.term(actual.arg(0), int(n[1:3])), tr.term(expected, 64), -1)
            if any(m.e for m in q):
                why = 'operands differ'
            else:
                r = bound_query(q, rel)
                eng.solver.queries += 1
                if r == 'unsat':
                    eng.solver.unsat += 1
                    eng.discharged += 1
                    return
                why = 'error bound (%s)' % r
        except NotMono:
            pass
    eng.report(st, 'check', msg, None, True)
    v = eng.violations.get(('check', msg))
    if v:
        v[-1].extra['close'] = why
