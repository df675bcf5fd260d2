"""Parser for the LLVM-18 textual IR that clang emits (the subset C++ code needs).

Functions are parsed lazily: parse_module() only splits the text, a body is
parsed on its first call.
"""
import re
import struct


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'fields', 'packed', 'name', '_sz', '_al', '_offs')

    def __init__(self, k, n=0, e=None, fields=None, packed=False, name=None):
        self.k = k          # int float ptr vec arr struct void label meta func
        self.n = n          # width / count
        self.e = e          # element type
        self.fields = fields
        self.packed = packed
        self.name = name
        self._sz = None
        self._al = None
        self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'float':
            return 'f%d' % self.n
        if self.k in ('vec', 'arr'):
            return '%s[%d x %r]' % (self.k, self.n, self.e)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.fields or []))
        return self.k

    def size(self):            # alloc size in bytes
        if self._sz is None:
            self._layout()
        return self._sz

    def align(self):
        if self._al is None:
            self._layout()
        return self._al

    def offsets(self):
        if self._offs is None:
            self._layout()
        return self._offs

    def _layout(self):
        k = self.k
        if k == 'int':
            b = (self.n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            self._al = min(p, 16)
            self._sz = (b + self._al - 1) // self._al * self._al
        elif k == 'float':
            self._sz = 16 if self.n == 80 else self.n // 8
            self._al = self._sz
        elif k == 'ptr':
            self._sz = self._al = 8
        elif k == 'vec':
            bits = self.n * (64 if self.e.k == 'ptr' else self.e.n)
            b = (bits + 7) // 8
            p = 1
            while p < b:
                p *= 2
            self._sz = p
            self._al = p
        elif k == 'arr':
            self._sz = self.n * self.e.size()
            self._al = self.e.align()
        elif k == 'struct':
            off = 0
            al = 1
            offs = []
            for f in self.fields:
                a = 1 if self.packed else f.align()
                al = max(al, a)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size()
            off = (off + al - 1) // al * al
            self._sz = off
            self._al = al
            self._offs = offs
        else:
            raise ParseError('no layout for ' + k)


_int = {}


def I(n):
    t = _int.get(n)
    if t is None:
        t = _int[n] = Ty('int', n)
    return t


F32 = Ty('float', 32)
F64 = Ty('float', 64)
F80 = Ty('float', 80)
F16 = Ty('float', 16)
PTR = Ty('ptr')
VOID = Ty('void')
LABEL = Ty('label')
META = Ty('meta')
OPAQUE = Ty('opaque')


class _Undef:
    def __repr__(self):
        return 'UNDEF'

    def __deepcopy__(self, m):
        return self


UNDEF = _Undef()

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   \s+
 | (?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w.$]*))
 | (?P<attr>\#\d+)
 | (?P<fhex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>[-+]?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)
 | (?P<id>[A-Za-z_.$][\w.$]*)
 | (?P<p>[()\[\]{}<>,=*:|])
 | (?P<cmt>;.*)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if r is None:
            raise ParseError('tokenize: %r' % s[pos:pos + 60])
        pos = r.end()
        k = r.lastgroup
        if k is None or k == 'cmt':
            continue
        t = r.group(k)
        if k == 'loc':
            if t[1] == '"':
                t = t[0] + t[2:-1]
        out.append((k, t))
    out.append(('eof', ''))
    return out


class GRef:
    """Reference to a global in a constant."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class CExpr:
    __slots__ = ('op', 'args', 'extra')

    def __init__(self, op, args, extra=None):
        self.op = op
        self.args = args
        self.extra = extra


class Reg:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class InlineAsm:
    __slots__ = ('asm', 'cons')

    def __init__(self, asm, cons):
        self.asm = asm
        self.cons = cons


class Zero:
    """zeroinitializer of a given type"""
    __slots__ = ()


ZERO = Zero()


def f64bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def f32bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def bits_f32(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]


def bits_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak
linkonce_odr weak_odr external dso_local dso_preemptable default hidden protected dllimport dllexport
unnamed_addr local_unnamed_addr thread_local externally_initialized constinit'''.split())


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.mod = mod
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] in ('p', 'id'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        k, t = self.next()
        if t != v:
            raise ParseError('expected %r got %r near %r' % (v, t, self.t[max(0, self.i - 6):self.i + 6]))

    # ---- types
    def type(self):
        k, t = self.next()
        if k == 'id':
            if t[0] == 'i' and t[1:].isdigit():
                ty = I(int(t[1:]))
            elif t == 'ptr':
                ty = PTR
                if self.accept('addrspace'):
                    self.expect('(')
                    self.next()
                    self.expect(')')
            elif t == 'float':
                ty = F32
            elif t == 'double':
                ty = F64
            elif t == 'void':
                ty = VOID
            elif t == 'label':
                ty = LABEL
            elif t == 'metadata':
                ty = META
            elif t == 'x86_fp80':
                ty = F80
            elif t == 'half':
                ty = F16
            elif t == 'opaque':
                ty = OPAQUE
            elif t == 'token':
                ty = META
            else:
                raise ParseError('type? %r' % t)
        elif k == 'loc' and t[0] == '%':
            ty = self.mod.named(t[1:])
        elif t == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = Ty('arr', n, e)
        elif t == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = self.typelist('}')
                self.expect('>')
                ty = Ty('struct', fields=fs, packed=True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = Ty('vec', n, e)
        elif t == '{':
            ty = Ty('struct', fields=self.typelist('}'))
        else:
            raise ParseError('type? %r' % t)
        # function type:  ret (args)
        if self.peek()[1] == '(' and self.peek()[0] == 'p':
            # function type only if what follows parses as types
            self.next()
            args = []
            while not self.accept(')'):
                if self.peek()[1] == '...':
                    self.next()
                else:
                    args.append(self.type())
                self.accept(',')
            ty = Ty('func', e=ty, fields=args)
        return ty

    def typelist(self, close):
        fs = []
        if self.accept(close):
            return fs
        while True:
            fs.append(self.type())
            if self.accept(close):
                return fs
            self.expect(',')

    # ---- values (constants / registers)
    def value(self, ty):
        k, t = self.next()
        if k == 'loc':
            if t[0] == '%':
                return Reg(t[1:])
            return GRef(t[1:])
        if k == 'num':
            if ty.k == 'int':
                return int(t) & ((1 << ty.n) - 1)
            if ty.k == 'float':
                x = float(t)
                return f64bits(x) if ty.n == 64 else f32bits(x)
            raise ParseError('num for %r' % ty)
        if k == 'fhex':
            if t[2] in 'KLMHR':
                return int(t[3:], 16)
            b = int(t, 16)
            if ty.n == 64:
                return b
            return f32bits_from_doublehex(b)
        if k == 'id':
            if t == 'true':
                return 1
            if t == 'false':
                return 0
            if t == 'null':
                return 0
            if t in ('undef', 'poison'):
                return undef_of(ty)
            if t == 'zeroinitializer':
                return zero_of(ty)
            if t == 'none':
                return 0
            if t == 'asm':
                while self.peek()[0] == 'id':
                    self.next()
                a = self.next()[1][1:-1]
                self.expect(',')
                c = self.next()[1][1:-1]
                return InlineAsm(a, c)
            if t == 'splat':
                self.expect('(')
                et = self.type()
                v = self.value(et)
                self.expect(')')
                return [v] * ty.n
            if t in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            return self.cexpr(t)
        if k == 'cstr':
            return list(unescape(t[2:-1]))
        if t == '<':
            if self.accept('{'):
                vs = self.valuelist('}')
                self.expect('>')
                return vs
            return self.valuelist('>')
        if t == '[':
            return self.valuelist(']')
        if t == '{':
            return self.valuelist('}')
        if k == 'meta':
            # metadata operand: skip a balanced group if any
            if self.peek()[1] == '(':
                self.skip_parens()
            elif self.peek()[1] == '{':
                d = 0
                while True:
                    x = self.next()[1]
                    d += (x == '{') - (x == '}')
                    if d == 0:
                        break
            return 0
        raise ParseError('value? %r' % ((k, t),))

    def valuelist(self, close):
        vs = []
        if self.accept(close):
            return vs
        while True:
            ty = self.type()
            vs.append(self.value(ty))
            if self.accept(close):
                return vs
            self.expect(',')

    def cexpr(self, op):
        while self.peek()[0] == 'id' and self.peek()[1] in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange', 'nneg',
                                                             'disjoint', 'nusw'):
            self.next()
        if op == 'getelementptr':
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = []
            while True:
                if self.peek()[1] == 'inrange':
                    self.next()
                    if self.peek()[1] == '(':
                        self.skip_parens()
                ty = self.type()
                args.append((ty, self.value(ty)))
                if self.accept(')'):
                    break
                self.expect(',')
            return CExpr('getelementptr', args, bt)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast', 'fptrunc', 'fpext',
                  'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            self.expect('(')
            ty = self.type()
            v = self.value(ty)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return CExpr(op, [(ty, v)], t2)
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem'):
            self.expect('(')
            ty = self.type()
            a = self.value(ty)
            self.expect(',')
            ty2 = self.type()
            b = self.value(ty2)
            self.expect(')')
            return CExpr(op, [(ty, a), (ty2, b)])
        if op in ('icmp', 'fcmp'):
            pred = self.next()[1]
            self.expect('(')
            ty = self.type()
            a = self.value(ty)
            self.expect(',')
            ty2 = self.type()
            b = self.value(ty2)
            self.expect(')')
            return CExpr(op, [(ty, a), (ty2, b)], pred)
        if op == 'select':
            self.expect('(')
            args = []
            while True:
                ty = self.type()
                args.append((ty, self.value(ty)))
                if self.accept(')'):
                    break
                self.expect(',')
            return CExpr(op, args)
        raise ParseError('constant expression %r' % op)

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x[0] == 'p':
                d += (x[1] == '(') - (x[1] == ')')
            if d == 0:
                return
            if x[0] == 'eof':
                raise ParseError('unbalanced')

    def skip_attrs(self):
        """parameter/return attributes; returns a dict of interesting ones"""
        res = {}
        while True:
            k, t = self.peek()
            if k == 'id' and t in ATTRS:
                self.next()
                if self.peek()[1] == '(':
                    j = self.i
                    self.skip_parens()
                    res[t] = self.t[j + 1:self.i - 1]
                elif t == 'align':
                    res[t] = int(self.next()[1])
                elif t in ('dereferenceable', 'dereferenceable_or_null'):
                    pass
                else:
                    res[t] = True
                continue
            if k == 'str':       # "key"="value"
                self.next()
                if self.accept('='):
                    self.next()
                continue
            if k == 'attr':
                self.next()
                continue
            return res


ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg byval sret byref
inalloca preallocated returned nofree align dereferenceable dereferenceable_or_null immarg swiftself swifterror
nest allocalign allocptr noinline alwaysinline nounwind range nofpclass dead_on_unwind writable captures
elementtype inrange'''.split())


def f32bits_from_doublehex(b):
    d = bits_f64(b)
    if d != d:
        # preserve NaN payload
        s = b >> 63
        m = (b >> 29) & 0x7fffff
        return (s << 31) | (0xff << 23) | (m or 0x400000)
    return f32bits(d)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)


def zero_of(ty):
    k = ty.k
    if k in ('int', 'float', 'ptr'):
        return 0
    if k in ('vec', 'arr'):
        return [zero_of(ty.e) for _ in range(ty.n)]
    if k == 'struct':
        return [zero_of(f) for f in ty.fields]
    raise ParseError('zero of %r' % ty)


def undef_of(ty):
    k = ty.k
    if k in ('vec', 'arr'):
        return [undef_of(ty.e) for _ in range(ty.n)]
    if k == 'struct':
        return [undef_of(f) for f in ty.fields]
    return UNDEF


# ---------------------------------------------------------------- module
class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'align', 'external')


class Func:
    __slots__ = ('name', 'ret', 'params', 'vararg', 'text', 'blocks', 'entry', 'declared', 'attrs', 'parsed', 'mod',
                 'nregs', 'decoded', 'subprogram')


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'dbg')

    def __init__(self, op, dst, ty, a, x=None, dbg=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.x = x
        self.dbg = dbg


class Module:
    def __init__(self, text):
        self.types = {}
        self.typetext = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.meta = {}
        self.split(text)

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = Ty('struct', fields=[], name=n)
            txt = self.typetext.get(n)
            if txt is None:
                t.k = 'opaque'
                return t
            if txt.strip() == 'opaque':
                t.k = 'opaque'
                return t
            r = P(self, tokenize(txt)).type()
            t.k = r.k
            t.n = r.n
            t.e = r.e
            t.fields = r.fields
            t.packed = r.packed
        return t

    def split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1
                continue
            c = l[0]
            if c == '%':
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', l)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                self.typetext[nm] = m.group(2)
            elif c == '@':
                self.global_line(l)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.func_header(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare '):
                self.func_header(l, None)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', l)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1

    def global_line(self, l):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
        nm = m.group(1)
        if nm[0] == '"':
            nm = nm[1:-1]
        self.globals[nm] = m.group(2)

    def get_global(self, name):
        g = self.globals.get(name)
        if g is None or isinstance(g, Global):
            return g
        p = P(self, tokenize(g))
        r = Global()
        r.name = name
        ext = False
        while True:
            k, t = p.next()
            if k == 'id' and t in LINKAGE:
                if t in ('external', 'extern_weak'):
                    ext = True
                if t == 'thread_local' and p.peek()[1] == '(':
                    p.skip_parens()
                continue
            if k == 'id' and t == 'addrspace':
                p.skip_parens()
                continue
            break
        if t == 'alias':
            ty = p.type()
            p.expect(',')
            ty2 = p.type()
            v = p.value(ty2)
            r.ty = None
            r.init = v
            r.const = True
            r.align = 0
            r.external = 'alias'
            self.globals[name] = r
            return r
        if t not in ('global', 'constant'):
            raise ParseError('global %s: %s' % (name, t))
        r.const = t == 'constant'
        r.ty = p.type()
        r.external = ext
        r.init = None
        if not ext:
            r.init = p.value(r.ty)
        r.align = 0
        while p.peek()[0] != 'eof':
            if p.next()[1] == 'align':
                r.align = int(p.next()[1])
        self.globals[name] = r
        return r

    def func_header(self, l, body):
        # name
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
        nm = m.group(1)
        if nm[0] == '"':
            nm = nm[1:-1]
        f = Func()
        f.name = nm
        f.text = (l, body)
        f.declared = body is None
        f.parsed = False
        f.decoded = None
        f.mod = self
        f.blocks = None
        self.funcs[nm] = f

    def parse_header(self, f):
        l, body = f.text
        p = P(self, tokenize(l.rstrip('{')))
        p.next()
        f.attrs = {}
        while True:
            k, t = p.peek()
            if k == 'id' and (t in LINKAGE or t in ('fastcc', 'ccc', 'coldcc', 'cc', 'tailcc')):
                p.next()
                continue
            if k == 'id' and t in ATTRS:
                p.skip_attrs()
                continue
            break
        p.skip_attrs()
        save = p.i
        f.ret = p.type_noparen() if hasattr(p, 'type_noparen') else self._ret_type(p)
        k, t = p.next()
        if k != 'loc':
            raise ParseError('func header %r' % l[:200])
        p.expect('(')
        f.params = []
        f.vararg = False
        idx = 0
        while not p.accept(')'):
            if p.peek()[1] == '...':
                p.next()
                f.vararg = True
            else:
                ty = p.type()
                at = p.skip_attrs()
                name = None
                if p.peek()[0] == 'loc':
                    name = p.next()[1][1:]
                else:
                    name = str(idx)
                f.params.append((ty, name, at))
                idx += 1
            p.accept(',')
        f.subprogram = None
        m = re.search(r'!dbg !(\d+)', l)
        if m:
            f.subprogram = int(m.group(1))
        return idx

    def _ret_type(self, p):
        # a return type is never a bare function type in our inputs: the '(' belongs to the parameter list,
        # which follows the name, so type() is safe.
        return p.type()

    def parse_func(self, f):
        if f.parsed:
            return f
        unnamed = self.parse_header(f)
        f.parsed = True
        if f.declared:
            return f
        body = f.text[1]
        # join continuation lines
        ins_lines = []
        i = 0
        n = len(body)
        while i < n:
            l = body[i]
            s = l.strip()
            if not s or s[0] == ';':
                i += 1
                continue
            if l.startswith('          '):
                ins_lines[-1] += ' ' + s
            elif s.startswith('switch ') and ']' not in re.sub(r'"[^"]*"', '', s.split('[', 1)[-1] if '[' in s else ''):
                j = i + 1
                while ']' not in body[j]:
                    s += ' ' + body[j].strip()
                    j += 1
                s += ' ' + body[j].strip()
                ins_lines.append('  ' + s)
                i = j
            else:
                ins_lines.append(l)
            i += 1
        blocks = {}
        cur = None
        order = []
        first = None
        for l in ins_lines:
            if l[0] != ' ':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = blocks[nm] = []
                order.append(nm)
                if first is None:
                    first = nm
                continue
            if cur is None:
                # implicit entry label
                first = str(unnamed)
                cur = blocks[first] = []
                order.append(first)
            cur.append(l)
        f.blocks = blocks
        f.entry = first
        return f

    def parse_ins(self, l):
        dbg = None
        j = l.rfind('!dbg !')
        if j >= 0:
            e = j + 6
            k = e
            while k < len(l) and l[k].isdigit():
                k += 1
            dbg = int(l[e:k])
        p = P(self, tokenize(l))
        dst = None
        if p.peek()[0] == 'loc' and p.t[p.i + 1][1] == '=':
            dst = p.next()[1][1:]
            p.next()
        op = p.next()[1]
        tail = None
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        ins = self._ins(p, op, dst)
        ins.dbg = dbg
        return ins

    def _flags(self, p):
        fl = []
        while p.peek()[0] == 'id' and p.peek()[1] in FLAGS:
            fl.append(p.next()[1])
        return fl

    def _ins(self, p, op, dst):
        if op in BINOPS:
            fl = self._flags(p)
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Ins(op, dst, ty, (a, b), fl)
        if op == 'fneg' or op == 'freeze':
            self._flags(p)
            ty = p.type()
            return Ins(op, dst, ty, (p.value(ty),))
        if op in CASTS:
            self._flags(p)
            ty = p.type()
            v = p.value(ty)
            p.expect('to')
            t2 = p.type()
            return Ins(op, dst, t2, (v,), ty)
        if op in ('icmp', 'fcmp'):
            self._flags(p)
            pred = p.next()[1]
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Ins(op, dst, ty, (a, b), pred)
        if op == 'load':
            vol = False
            while p.peek()[1] in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            p.expect(',')
            pt = p.type()
            v = p.value(pt)
            return Ins(op, dst, ty, (v,), self._align(p))
        if op == 'store':
            while p.peek()[1] in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            pt = p.type()
            d = p.value(pt)
            return Ins(op, None, ty, (v, d), self._align(p))
        if op == 'alloca':
            p.accept('inalloca')
            ty = p.type()
            cnt = 1
            al = 1
            while p.accept(','):
                if p.peek()[1] == 'align':
                    p.next()
                    al = int(p.next()[1])
                elif p.peek()[0] == 'meta':
                    break
                elif p.peek()[1] == 'addrspace':
                    p.next()
                    p.skip_parens()
                else:
                    t2 = p.type()
                    cnt = p.value(t2)
            return Ins(op, dst, ty, (cnt,), al)
        if op == 'getelementptr':
            self._flags(p)
            bt = p.type()
            p.expect(',')
            args = []
            while True:
                ty = p.type()
                args.append((ty, p.value(ty)))
                if not p.accept(','):
                    break
                if p.peek()[0] == 'meta':
                    break
            return Ins(op, dst, bt, tuple(args))
        if op == 'phi':
            self._flags(p)
            ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                b = p.next()[1][1:]
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
                if p.peek()[0] == 'meta':
                    break
            return Ins(op, dst, ty, tuple(inc))
        if op == 'select':
            self._flags(p)
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            return Ins(op, dst, ty, (c, a, b), ct)
        if op == 'br':
            ty = p.type()
            if ty is LABEL:
                return Ins(op, None, None, (), (p.next()[1][1:],))
            c = p.value(ty)
            p.expect(',')
            p.type()
            t = p.next()[1][1:]
            p.expect(',')
            p.type()
            e = p.next()[1][1:]
            return Ins('condbr', None, None, (c,), (t, e))
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.type()
            d = p.next()[1][1:]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                t2 = p.type()
                c = p.value(t2)
                p.expect(',')
                p.type()
                cases.append((c, p.next()[1][1:]))
            return Ins(op, None, ty, (v,), (d, cases))
        if op == 'ret':
            ty = p.type()
            if ty is VOID:
                return Ins(op, None, ty, ())
            return Ins(op, None, ty, (p.value(ty),))
        if op == 'unreachable':
            return Ins(op, None, None, ())
        if op in ('call', 'invoke'):
            return self._call(p, op, dst)
        if op == 'landingpad':
            ty = p.type()
            cl = []
            while p.peek()[0] == 'id':
                k = p.next()[1]
                if k == 'cleanup':
                    cl.append(('cleanup', None))
                elif k in ('catch', 'filter'):
                    t2 = p.type()
                    cl.append((k, p.value(t2)))
            return Ins(op, dst, ty, (), cl)
        if op == 'resume':
            ty = p.type()
            return Ins(op, None, ty, (p.value(ty),))
        if op == 'extractvalue':
            ty = p.type()
            v = p.value(ty)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return Ins(op, dst, ty, (v,), idx)
        if op == 'insertvalue':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            t2 = p.type()
            e = p.value(t2)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return Ins(op, dst, ty, (v, e), idx)
        if op == 'extractelement':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            t2 = p.type()
            i = p.value(t2)
            return Ins(op, dst, ty, (v, i))
        if op == 'insertelement':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            t2 = p.type()
            e = p.value(t2)
            p.expect(',')
            t3 = p.type()
            i = p.value(t3)
            return Ins(op, dst, ty, (v, e, i))
        if op == 'shufflevector':
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            p.expect(',')
            t3 = p.type()
            m = p.value(t3)
            return Ins(op, dst, ty, (a, b), m)
        if op == 'fence':
            return Ins(op, None, None, ())
        if op in ('atomicrmw', 'cmpxchg', 'va_arg', 'indirectbr', 'callbr'):
            return Ins('unsupported', dst, None, (), op)
        return Ins('unsupported', dst, None, (), op)

    def _align(self, p):
        al = 1
        while p.peek()[0] != 'eof':
            k, t = p.next()
            if k == 'id' and t == 'align':
                al = int(p.next()[1])
                break
        return al

    def _call(self, p, op, dst):
        while True:
            k, t = p.peek()
            if k == 'id' and (t in FLAGS or t in ('fastcc', 'ccc', 'coldcc', 'cc', 'tailcc')):
                p.next()
                continue
            break
        p.skip_attrs()
        ret = p.type()
        if ret.k == 'func':
            ret = ret.e
        p.skip_attrs()
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type()
            at = p.skip_attrs()
            if ty is META:
                # consume metadata operand
                d = 0
                while True:
                    k, t = p.peek()
                    if d == 0 and t in (',', ')') and k == 'p':
                        break
                    p.next()
                    if k == 'p':
                        d += (t in '([{') - (t in ')]}')
                args.append((ty, 0, at))
            else:
                args.append((ty, p.value(ty), at))
            p.accept(',')
        x = None
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.type()
            n = p.next()[1][1:]
            p.expect('unwind')
            p.type()
            u = p.next()[1][1:]
            x = (n, u)
        return Ins(op, dst, ret, (callee, args), x)


BINOPS = set('add sub mul sdiv udiv srem urem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())
FLAGS = set('''nuw nsw exact inbounds nnan ninf nsz arcp contract afn reassoc fast nneg disjoint samesign nusw'''.split())


def parse_module(text):
    return Module(text)
