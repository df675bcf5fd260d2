"""Value-level semantics: integers/bit-vectors, IEEE-754 values as bit patterns.

Representation
  iN (N>1)   python int (unsigned) when concrete, z3 BitVecRef when symbolic
  i1         python int 0/1 when concrete, z3 BoolRef when symbolic
  float      its IEEE bit pattern, as above (32 or 64 bits)
Rounded floating point arithmetic on symbolic operands is an uninterpreted
function of the operand bit patterns (commutative operators are canonicalised);
comparisons, sign operations and classification are exact.
"""
import math
import struct
import numpy as np
import z3

np.seterr(all='ignore')


def mask(w):
    return (1 << w) - 1


_bvc = {}


def bv(v, w):
    """to z3 (Bool when w==1)"""
    if type(v) is int:
        if w == 1:
            return z3.BoolVal(bool(v))
        key = (v, w)
        r = _bvc.get(key)
        if r is None:
            r = z3.BitVecVal(v, w)
            if len(_bvc) < 200000:
                _bvc[key] = r
        return r
    return v


def isc(v):
    return type(v) is int


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def simp_bool(e):
    """z3 Bool -> int if constant"""
    e = z3.simplify(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def simp(e):
    if type(e) is int:
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def not_(b):
    if type(b) is int:
        return 1 - b
    if z3.is_not(b):
        return b.arg(0)
    return z3.Not(b)


def and_(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    return z3.And(a, b)


def or_(a, b):
    if type(a) is int:
        return 1 if a else b
    if type(b) is int:
        return 1 if b else a
    return z3.Or(a, b)


def binop(op, a, b, w):
    if type(a) is int and type(b) is int:
        return binop_c(op, a, b, w)
    if w == 1:
        if op == 'and':
            return and_(a, b)
        if op == 'or':
            return or_(a, b)
        if op in ('xor', 'add', 'sub'):
            if type(a) is int:
                return not_(b) if a else b
            if type(b) is int:
                return not_(a) if b else a
            return z3.Xor(a, b)
        if op == 'mul':
            return and_(a, b)
        raise NotImplementedError('i1 ' + op)
    m = mask(w)
    # cheap identities
    if op == 'add':
        if type(a) is int:
            if a == 0:
                return b
        elif type(b) is int and b == 0:
            return a
        return bv(a, w) + bv(b, w)
    if op == 'sub':
        if type(b) is int:
            if b == 0:
                return a
        elif type(a) is not int and a.eq(b):
            return 0
        return bv(a, w) - bv(b, w)
    if op == 'mul':
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return 0
            if b == 1:
                return a
        return bv(a, w) * bv(b, w)
    if op == 'and':
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return 0
            if b == m:
                return a
        elif a.eq(b):
            return a
        return bv(a, w) & bv(b, w)
    if op == 'or':
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return a
            if b == m:
                return m
        elif a.eq(b):
            return a
        return bv(a, w) | bv(b, w)
    if op == 'xor':
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return a
            # (x ^ c) ^ c' : keep sign flips canonical
            if a.decl().kind() == z3.Z3_OP_BXOR and a.num_args() == 2:
                l, r = a.arg(0), a.arg(1)
                if z3.is_bv_value(r):
                    c = r.as_long() ^ b
                    return l if c == 0 else l ^ bv(c, w)
                if z3.is_bv_value(l):
                    c = l.as_long() ^ b
                    return r if c == 0 else r ^ bv(c, w)
        elif a.eq(b):
            return 0
        return bv(a, w) ^ bv(b, w)
    if op == 'shl':
        if type(b) is int:
            if b == 0:
                return a
            if b >= w:
                return 0
        return bv(a, w) << bv(b, w)
    if op == 'lshr':
        if type(b) is int:
            if b == 0:
                return a
            if b >= w:
                return 0
        return z3.LShR(bv(a, w), bv(b, w))
    if op == 'ashr':
        if type(b) is int and b == 0:
            return a
        return bv(a, w) >> bv(b, w)
    if op == 'udiv':
        return z3.UDiv(bv(a, w), bv(b, w))
    if op == 'urem':
        if type(b) is int and b and b & (b - 1) == 0:
            return bv(a, w) & bv(b - 1, w)
        return z3.URem(bv(a, w), bv(b, w))
    if op == 'sdiv':
        return bv(a, w) / bv(b, w)
    if op == 'srem':
        return z3.SRem(bv(a, w), bv(b, w))
    raise NotImplementedError(op)


def binop_c(op, a, b, w):
    m = (1 << w) - 1
    if op == 'add':
        return (a + b) & m
    if op == 'sub':
        return (a - b) & m
    if op == 'mul':
        return (a * b) & m
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & m if b < w else 0
    if op == 'lshr':
        return a >> b if b < w else 0
    if op == 'ashr':
        return (signed(a, w) >> min(b, w)) & m
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    if op in ('sdiv', 'srem'):
        x, y = signed(a, w), signed(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & m if op == 'sdiv' else (x - q * y) & m
    raise NotImplementedError(op)


def icmp(pred, a, b, w):
    if type(a) is int and type(b) is int:
        if pred == 'eq':
            return int(a == b)
        if pred == 'ne':
            return int(a != b)
        if pred[0] == 's':
            a, b = signed(a, w), signed(b, w)
        p = pred[1:]
        if p == 'lt':
            return int(a < b)
        if p == 'le':
            return int(a <= b)
        if p == 'gt':
            return int(a > b)
        return int(a >= b)
    if w == 1:
        if pred == 'eq':
            return not_(binop('xor', a, b, 1))
        if pred == 'ne':
            return binop('xor', a, b, 1)
        a = z3.If(bv(a, 1), bv(1, 2), bv(0, 2))
        b = z3.If(bv(b, 1), bv(1, 2), bv(0, 2))
        if pred[0] == 's':
            a, b = -a, -b
        return simp_bool(_icmp_z(pred, a, b))
    if type(b) is int and b == 0:
        k = None
        if pred in ('eq', 'ne') and z3.is_app_of(a, z3.Z3_OP_BAND) and a.num_args() == 2:
            for i in (0, 1):
                m = a.arg(i)
                if z3.is_bv_value(m) and bin(m.as_long()).count('1') == 1:
                    k = bit_of(a.arg(1 - i), m.as_long().bit_length() - 1)
                    break
        if k is None and pred in ('eq', 'ne') and a.decl().kind() in WORDS:
            k = 0
            for i in range(w):
                x = bit_of(a, i)
                if x is None:
                    k = None
                    break
                k = or_(k, x)
        elif pred in ('slt', 'sge'):
            k = bit_of(a, w - 1)
        if k is not None:
            return not_(k) if pred in ('eq', 'sge') else k
    a = bv(a, w)
    b = bv(b, w)
    return _icmp_z(pred, a, b)


def mayset(e, depth=0):
    """bits which may be set"""
    w = e.size()
    if z3.is_bv_value(e):
        return e.as_long()
    if depth > 80:
        return mask(w)
    op = e.decl().kind()
    if op == z3.Z3_OP_ITE:
        return mayset(e.arg(1), depth + 1) | mayset(e.arg(2), depth + 1)
    if op == z3.Z3_OP_BOR:
        r = 0
        for c in e.children():
            r |= mayset(c, depth + 1)
        return r
    if op == z3.Z3_OP_BAND:
        r = mask(w)
        for c in e.children():
            r &= mayset(c, depth + 1)
        return r
    if op == z3.Z3_OP_BADD:
        r = 0
        for c in e.children():
            x = mayset(c, depth + 1)
            if x & r:
                return mask(w)
            r |= x
        return r
    if op == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        n = e.arg(1).as_long()
        return (mayset(e.arg(0), depth + 1) << n) & mask(w) if n < w else 0
    if op == z3.Z3_OP_ZERO_EXT:
        return mayset(e.arg(0), depth + 1)
    if op == z3.Z3_OP_CONCAT:
        r = 0
        for c in e.children():
            r = (r << c.size()) | mayset(c, depth + 1)
        return r
    return mask(w)


WORDS = (z3.Z3_OP_BADD, z3.Z3_OP_ITE, z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT)


def bit_of(e, i, depth=0):
    """bit i of a word assembled from booleans, as 0, 1 or a boolean; None if it is nothing simple"""
    if type(e) is int:
        return (e >> i) & 1
    if depth > 80:
        return None
    if z3.is_bv_value(e):
        return (e.as_long() >> i) & 1
    op = e.decl().kind()
    if op == z3.Z3_OP_ITE:
        a = bit_of(e.arg(1), i, depth + 1)
        b = bit_of(e.arg(2), i, depth + 1)
        if a is None or b is None:
            return None
        return ite(e.arg(0), a, b, 1)
    if op == z3.Z3_OP_BADD:
        # without carries the sum is the disjunction
        m = 0
        for c in e.children():
            x = mayset(c)
            if x & m:
                return None
            m |= x
        op = z3.Z3_OP_BOR
    if op in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR):
        r = None
        f = {z3.Z3_OP_BOR: or_, z3.Z3_OP_BAND: and_, z3.Z3_OP_BXOR: lambda x, y: binop('xor', x, y, 1)}[op]
        for c in e.children():
            k = bit_of(c, i, depth + 1)
            if k is None:
                return None
            r = k if r is None else f(r, k)
        return r
    if op in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(e.arg(1)):
        n = e.arg(1).as_long()
        j = i - n if op == z3.Z3_OP_BSHL else i + n
        if j < 0 or j >= e.size():
            return 0
        return bit_of(e.arg(0), j, depth + 1)
    if op == z3.Z3_OP_CONCAT:
        j = i
        for c in reversed(e.children()):
            if j < c.size():
                return bit_of(c, j, depth + 1)
            j -= c.size()
    if op == z3.Z3_OP_ZERO_EXT:
        x = e.arg(0)
        return bit_of(x, i, depth + 1) if i < x.size() else 0
    if op == z3.Z3_OP_EXTRACT:
        return bit_of(e.arg(0), i + e.params()[1], depth + 1)
    if op == z3.Z3_OP_BNOT:
        k = bit_of(e.arg(0), i, depth + 1)
        return None if k is None else not_(k)
    return None


def _icmp_z(pred, a, b):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return z3.Not(a == b)
    if pred == 'ult':
        return z3.ULT(a, b)
    if pred == 'ule':
        return z3.ULE(a, b)
    if pred == 'ugt':
        return z3.ULT(b, a)
    if pred == 'uge':
        return z3.ULE(b, a)
    if pred == 'slt':
        return a < b
    if pred == 'sle':
        return a <= b
    if pred == 'sgt':
        return b < a
    if pred == 'sge':
        return b <= a
    raise NotImplementedError(pred)


def ite(c, a, b, w):
    """c: 0/1 or Bool; a, b scalars of width w"""
    if type(c) is int:
        return a if c else b
    if type(a) is int and type(b) is int:
        if a == b:
            return a
        if w == 1:
            return c if a else not_(c)
    elif type(a) is not int and type(b) is not int and a.eq(b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def b2bv(b, w):
    """i1 -> iw zero extended"""
    if type(b) is int:
        return b
    return z3.If(b, bv(1, w), bv(0, w))


def zext(v, w, w2):
    if type(v) is int:
        return v
    if w == 1:
        return z3.If(v, bv(1, w2), bv(0, w2))
    return z3.ZeroExt(w2 - w, v)


def sext(v, w, w2):
    if type(v) is int:
        return signed(v, w) & mask(w2)
    if w == 1:
        return z3.If(v, bv(mask(w2), w2), bv(0, w2))
    return z3.SignExt(w2 - w, v)


def trunc(v, w, w2):
    if type(v) is int:
        return v & mask(w2)
    k = v.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        x = v.arg(0)
        if x.size() == w2:
            return x
        if x.size() > w2:
            return trunc(x, x.size(), w2)
    if w2 == 1:
        if k == z3.Z3_OP_ITE:
            a, b = v.arg(1), v.arg(2)
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                return ite(v.arg(0), a.as_long() & 1, b.as_long() & 1, 1)
        return z3.Extract(0, 0, v) == bv1_1
    return extract(v, w2 - 1, 0)


bv1_1 = z3.BitVecVal(1, 1)


def extract(v, hi, lo):
    """v symbolic"""
    w = v.size()
    if lo == 0 and hi == w - 1:
        return v
    k = v.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        pos = w
        for i in range(v.num_args()):
            x = v.arg(i)
            s = x.size()
            pos -= s
            if lo >= pos and hi < pos + s:
                if z3.is_bv_value(x):
                    return (x.as_long() >> (lo - pos)) & mask(hi - lo + 1)
                return extract(x, hi - pos, lo - pos)
    elif k == z3.Z3_OP_EXTRACT:
        l0 = v.params()[1]
        return extract(v.arg(0), hi + l0, lo + l0)
    elif k == z3.Z3_OP_ZERO_EXT:
        x = v.arg(0)
        if hi < x.size():
            return extract(x, hi, lo)
        if lo >= x.size():
            return 0
    elif k == z3.Z3_OP_ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            m = mask(hi - lo + 1)
            return ite(v.arg(0), (a.as_long() >> lo) & m, (b.as_long() >> lo) & m, hi - lo + 1)
    elif k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR):
        # bitwise: part by part (structs passed in registers)
        n = hi - lo + 1
        r = None
        for i in range(v.num_args()):
            x = v.arg(i)
            x = (x.as_long() >> lo) & mask(n) if z3.is_bv_value(x) else extract(x, hi, lo)
            r = x if r is None else binop({z3.Z3_OP_BOR: 'or', z3.Z3_OP_BAND: 'and', z3.Z3_OP_BXOR: 'xor'}[k], r, x, n)
        return r
    elif k == z3.Z3_OP_BSHL and z3.is_bv_value(v.arg(1)):
        sh = v.arg(1).as_long()
        if hi < sh:
            return 0
        if lo >= sh:
            return extract(v.arg(0), hi - sh, lo - sh)
    elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(v.arg(1)):
        sh = v.arg(1).as_long()
        if lo + sh >= w:
            return 0
        if hi + sh < w:
            return extract(v.arg(0), hi + sh, lo + sh)
    return z3.Extract(hi, lo, v)


def concat(parts):
    """parts: list of (value, width), least significant first -> (value,width)"""
    # merge concrete neighbours and adjacent extracts of the same term
    out = []
    for v, w in parts:
        if out:
            pv, pw = out[-1]
            if type(v) is int and type(pv) is int:
                out[-1] = (pv | (v << pw), pw + w)
                continue
            if type(v) is not int and type(pv) is not int:
                if v.decl().kind() == z3.Z3_OP_EXTRACT and pv.decl().kind() == z3.Z3_OP_EXTRACT:
                    h1, l1 = v.params()
                    h0, l0 = pv.params()
                    if l1 == h0 + 1 and v.arg(0).eq(pv.arg(0)):
                        out[-1] = (extract(v.arg(0), h1, l0), pw + w)
                        continue
        out.append((v, w))
    if len(out) == 1:
        return out[0]
    tot = sum(w for _, w in out)
    return z3.Concat(*[b2bv1(v, w) for v, w in reversed(out)]), tot


def b2bv1(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return v


# ------------------------------------------------------------------ floating point
SIGN = {32: 1 << 31, 64: 1 << 63}
INFB = {32: 0x7f800000, 64: 0x7ff0000000000000}
ONE = {32: 0x3f800000, 64: 0x3ff0000000000000}
NAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}


def tof(b, w):
    return (np.frombuffer(struct.pack('<I', b), dtype=np.float32)[0] if w == 32
            else np.frombuffer(struct.pack('<Q', b), dtype=np.float64)[0])


def fromf(x, w):
    if w == 32:
        return struct.unpack('<I', np.float32(x).tobytes())[0]
    return struct.unpack('<Q', np.float64(x).tobytes())[0]


_uf = {}


def uf(name, *sorts):
    key = (name,) + sorts
    f = _uf.get(key)
    if f is None:
        f = z3.Function(name, *[z3.BitVecSort(s) for s in sorts])
        _uf[key] = f
    return f


def fneg(a, w):
    return binop('xor', a, SIGN[w], w)


def is_neg_of(e, w):
    """if e is syntactically fneg(x) return x"""
    if type(e) is int:
        return None
    if e.decl().kind() == z3.Z3_OP_BXOR and e.num_args() == 2:
        l, r = e.arg(0), e.arg(1)
        if z3.is_bv_value(r) and r.as_long() == SIGN[w]:
            return l
        if z3.is_bv_value(l) and l.as_long() == SIGN[w]:
            return r
    return None


def _order(a, b):
    ka = (0, a) if type(a) is int else (1, a.get_id())
    kb = (0, b) if type(b) is int else (1, b.get_id())
    return (a, b) if ka <= kb else (b, a)


_keep = []      # keeps the argument terms alive so that get_id() stays unique


def fbin(op, a, b, w):
    if type(a) is int and type(b) is int:
        x, y = tof(a, w), tof(b, w)
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            r = x * y
        elif op == 'fdiv':
            r = x / y
        elif op == 'frem':
            r = np.fmod(x, y)
        else:
            raise NotImplementedError(op)
        return fromf(r, w)
    if op == 'fsub':
        return fbin('fadd', a, fneg(b, w), w)
    if op == 'fadd':
        if a == SIGN[w] and type(a) is int:
            return b
        if b == SIGN[w] and type(b) is int:
            return a
        a, b = _order(a, b)
    elif op in ('fmul', 'fdiv'):
        neg = 0
        x = is_neg_of(a, w)
        if x is not None:
            a = x
            neg ^= 1
        elif type(a) is int and a & SIGN[w]:
            a ^= SIGN[w]
            neg ^= 1
        x = is_neg_of(b, w)
        if x is not None:
            b = x
            neg ^= 1
        elif type(b) is int and b & SIGN[w]:
            b ^= SIGN[w]
            neg ^= 1
        if type(b) is int and b == ONE[w]:
            r = a
        elif op == 'fmul' and type(a) is int and a == ONE[w]:
            r = b
        else:
            if op == 'fmul':
                a, b = _order(a, b)
            r = uf('%s%d' % (op, w), w, w, w)(bv(a, w), bv(b, w))
            _keep.append(r)
        return fneg(r, w) if neg else r
    r = uf('%s%d' % (op, w), w, w, w)(bv(a, w), bv(b, w))
    _keep.append(r)
    return r


def ffma(a, b, c, w):
    if isc(a) and isc(b) and isc(c):
        from fractions import Fraction
        x, y, z = tof(a, w), tof(b, w), tof(c, w)
        if all(np.isfinite(t) for t in (x, y, z)):
            e = Fraction(float(x)) * Fraction(float(y)) + Fraction(float(z))
            if e == 0:
                return fromf(x * y + z, w)
            return fromf(np.float64(float(e)) if w == 64 else _round32(e), w)
        return fromf(x * y + z, w)
    a, b = _order(a, b)
    return uf('ffma%d' % w, w, w, w, w)(bv(a, w), bv(b, w), bv(c, w))


def _round32(e):
    # correctly rounded Fraction -> float32 (via comparison of neighbours)
    x = np.float32(float(e))
    from fractions import Fraction
    if not np.isfinite(x):
        return x
    best = x
    bd = abs(Fraction(float(x)) - e)
    for c in (np.nextafter(x, np.float32(-np.inf)), np.nextafter(x, np.float32(np.inf))):
        if np.isfinite(c):
            d = abs(Fraction(float(c)) - e)
            if d < bd:
                best, bd = c, d
    return best


def fun1(name, a, w):
    if type(a) is int:
        x = tof(a, w)
        if name == 'fsqrt':
            return fromf(np.sqrt(x), w)
        if name == 'ffloor':
            return fromf(np.floor(x), w)
        if name == 'fceil':
            return fromf(np.ceil(x), w)
        if name == 'ftrunc':
            return fromf(np.trunc(x), w)
        if name == 'frint':
            return fromf(np.rint(x), w)
    r = uf('%s%d' % (name, w), w, w)(bv(a, w))
    _keep.append(r)
    return r


def isnan(a, w):
    if type(a) is int:
        return int((a & ~SIGN[w]) > INFB[w])
    return z3.UGT(a & bv(mask(w - 1), w), bv(INFB[w], w))


def fkey(a, w):
    """order-preserving signed key (valid for non-NaN)"""
    if type(a) is int:
        s = signed(a, w)
        return s if s >= 0 else -(a & mask(w - 1))
    return z3.If(a < 0, -(a & bv(mask(w - 1), w)), a)


def fcmp(pred, a, b, w):
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if type(a) is int and type(b) is int:
        na = isnan(a, w) or isnan(b, w)
        if pred == 'ord':
            return int(not na)
        if pred == 'uno':
            return int(na)
        if na:
            return int(pred[0] == 'u')
        x, y = fkey(a, w), fkey(b, w)
        p = pred[1:]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
    if pred[0] == 'u' and pred != 'uno':
        q = {'ueq': 'one', 'une': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt'}[pred]
        return not_(fcmp(q, a, b, w))
    if pred in ('ogt', 'oge'):
        return fcmp({'ogt': 'olt', 'oge': 'ole'}[pred], b, a, w)
    if pred in ('oeq', 'one', 'uno', 'ord'):
        a, b = _order(a, b)
    n = or_(isnan(a, w), isnan(b, w)) if not (type(a) is not int and type(b) is not int and a.eq(b)) else isnan(a, w)
    if pred == 'ord':
        return not_(n)
    if pred == 'uno':
        return n
    x, y = fkey(a, w), fkey(b, w)
    if type(x) is int:
        x = z3.BitVecVal(x, w)
    if type(y) is int:
        y = z3.BitVecVal(y, w)
    p = pred[1:]
    r = {'eq': lambda: x == y, 'ne': lambda: z3.Not(x == y), 'lt': lambda: x < y, 'le': lambda: x <= y,
         'gt': lambda: y < x, 'ge': lambda: y <= x}[p]()
    return and_(not_(n), r)


def f2i(a, w, iw, sgn, mode='trunc'):
    """float -> int. Out of range concrete -> x86 'integer indefinite' (0x80..0)."""
    if type(a) is int:
        x = float(tof(a, w))
        bad = 1 << (iw - 1)
        if math.isnan(x) or math.isinf(x):
            return bad
        r = math.trunc(x) if mode == 'trunc' else round(x)
        lo, hi = (-(1 << (iw - 1)), (1 << (iw - 1)) - 1) if sgn else (0, (1 << iw) - 1)
        if r < lo or r > hi:
            return bad
        return r & mask(iw)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and (z3.is_bv_value(a.arg(1)) or z3.is_bv_value(a.arg(2))):
        x, y = [f2i(t.as_long() if z3.is_bv_value(t) else t, w, iw, sgn, mode) for t in (a.arg(1), a.arg(2))]
        return ite(a.arg(0), x, y, iw)
    # f2i(i2f(x)) is exact when the mantissa holds the integer
    if a.decl().name() in ('si%dtofp%d' % (iw, w),) and iw <= (24 if w == 32 else 53):
        return a.arg(0)
    if a.decl().name() == 'si32tofp64' and iw == 32 and sgn:
        return a.arg(0)
    # the truncated double quotient of two ints is their int quotient: if x/y is not an integer, its distance to the
    # next integer is at least 1/|y| >= 2^-31, whereas the rounding error is at most 2^31 * 2^-53; division by zero and
    # the one overflow yield the 'integer indefinite' value
    if mode == 'trunc' and w == 64 and iw == 32 and sgn:
        neg = is_neg_of(a, 64)
        d = a if neg is None else neg
        if d.decl().name() == 'fdiv64':
            x, y = _as_i32(d.arg(0)), _as_i32(d.arg(1))
            if x is not None and y is not None:
                ind = bv(1 << 31, 32)
                q = bv(x, 32) / bv(y, 32)
                if neg is None:
                    return z3.If(bv(y, 32) == 0, ind, q)
                # -(2^31) / 1 is representable as an int, its negative is not, and vice versa
                xi, yi = bv(x, 32), bv(y, 32)
                return z3.If(z3.Or(yi == 0, z3.And(xi == ind, yi == 1)), ind, -q)
    r = uf('f%dto%si%d_%s' % (w, 's' if sgn else 'u', iw, mode), w, iw)(a)
    _keep.append(r)
    return r


def _as_i32(e):
    """the int whose conversion to double this term is"""
    if z3.is_bv_value(e):
        d = bits_to_f64(e.as_long())
        if d == d and abs(d) <= 2 ** 31 - 1 and d == int(d) and not (d == 0 and e.as_long()):
            return int(d) & mask(32)
        return None
    return e.arg(0) if e.decl().name() == 'si32tofp64' else None


def i2f(v, iw, w, sgn):
    if iw == 1:
        c = ONE[w] | (SIGN[w] if sgn else 0)
        return ite(v, c, 0, w)
    if type(v) is int:
        x = signed(v, iw) if sgn else v
        if w == 64:
            return fromf(float(x), 64)
        return fromf(_int_to_f32(x), 32)
    r = uf('%si%dtofp%d' % ('s' if sgn else 'u', iw, w), iw, w)(v)
    _keep.append(r)
    return r


def _int_to_f32(x):
    from fractions import Fraction
    if abs(x) < (1 << 53):
        return np.float32(float(x))
    return _round32(Fraction(x))


def fext(a, w, w2):
    if type(a) is int:
        return fromf(np.float64(tof(a, w)), w2)
    r = uf('fpext%d_%d' % (w, w2), w, w2)(a)
    _keep.append(r)
    return r


def ftrunc(a, w, w2):
    if type(a) is int:
        return fromf(np.float32(tof(a, w)), w2)
    if a.decl().name() == 'fpext%d_%d' % (w2, w):
        return a.arg(0)
    # double rounding is innocuous for +,-,*,/,sqrt of extended floats (53 >= 2*24+2)
    nm = a.decl().name()
    if nm in ('fadd64', 'fmul64', 'fdiv64', 'fsqrt64') and w == 64 and w2 == 32:
        args = []
        for i in range(a.num_args()):
            x = a.arg(i)
            if x.decl().name() == 'fpext32_64':
                args.append(x.arg(0))
            elif z3.is_bv_value(x):
                d = bits_to_f64(x.as_long())
                if np.float64(np.float32(d)) == d:
                    args.append(fromf(np.float32(d), 32))
                else:
                    args = None
                    break
            else:
                args = None
                break
        if args is not None:
            if nm == 'fsqrt64':
                return fun1('fsqrt', args[0], 32)
            return fbin(nm[:-2], args[0], args[1], 32)
    r = uf('fptrunc%d_%d' % (w, w2), w, w2)(a)
    _keep.append(r)
    return r


def bits_to_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]
