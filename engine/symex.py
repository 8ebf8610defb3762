"""Symbolic executor for LLVM IR with state merging at immediate post-dominators.

One run of a harness function (no arguments) yields: the symbolic inputs, the
obligations (path condition, condition that has to hold), cover points, and the
observed values.  Loops are unrolled as far as their guard stays satisfiable, up
to UNWIND; hitting that bound is an error, never a pass.
"""
import re
import struct
import numpy as np
from terms import *
import terms as TT

UNWIND = 600


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('size', 'cells', 'name', 'const')

    def __init__(self, size, cells, name, const=False):
        self.size, self.cells, self.name, self.const = size, cells, name, const


class State:
    __slots__ = ('pc', 'mem', 'env', 'expect', 'visits', 'exc', 'cnt')

    def copy(self):
        s = State()
        s.pc, s.mem, s.env, s.expect = self.pc, dict(self.mem), dict(self.env), self.expect
        s.visits, s.exc, s.cnt = dict(self.visits), self.exc, dict(self.cnt)
        return s


class Obligation:
    __slots__ = ('kind', 'pc', 'cond', 'msg', 'extra', 'idx')

    def __init__(self, kind, pc, cond, msg, extra=None):
        self.kind, self.pc, self.cond, self.msg, self.extra = kind, pc, cond, msg, extra


class Frame:
    def __init__(self, f):
        self.f = f
        self.rets = []
        self.excs = []


EXC_PARENT = {'_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
              '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt11logic_error': '_ZTISt9exception',
              '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
              '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error',
              '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception'}

LIBM1 = ('sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 log log2 log10 expm1 log1p cbrt '
         'sqrt fabs floor ceil trunc round roundeven rint nearbyint exp10').split()
LIBM2 = 'pow atan2 fmod fmin fmax copysign hypot remainder'.split()


class Exec:
    def __init__(self, mod, feasible=None, log=None):
        self.m = mod
        self.obl = []
        self.covers = []
        self.obs = []
        self.inputs = []
        self.innames = {}
        self.gaddr = {}
        self.nobj = 256
        self.gmem = {}
        self.feasible = feasible or (lambda pc: True)
        self.called = set()
        self.instrs = 0
        self.loops_checked = 0
        self.max_unwind = 0
        self.typeids = {}
        self.reach_end = None
        self.merges = 0
        self.assumes = 0
        self.lcount = {}
        self.fcache = {}
        self.expected_aborts = []
        self.eager = False     # drop infeasible paths at every branch

    # ------------------------------------------------------------ types
    def rt(self, t):
        while t[0] == 'named':
            t = self.m.types[t[1]]
        return t

    def size_align(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return (p, min(p, 16)) if t[1] != 128 else (16, 16)
        if k == 'float':
            return 4, 4
        if k in ('double', 'ptr'):
            return 8, 8
        if k == 'x86_fp80':
            return 16, 16
        if k == 'array':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vector':
            s, a = self.size_align(t[2])
            n = s * t[1]
            p = 1
            while p < n:
                p *= 2
            return p, p
        if k == 'struct':
            off, al = 0, 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'opaque':
            return 0, 1
        raise Unsupported(f'size of {t}')

    def field(self, t, i):
        """offset, type of the i-th element of aggregate t"""
        t = self.rt(t)
        if t[0] in ('array', 'vector'):
            return self.size_align(t[2])[0] * i, t[2]
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise Unsupported('field')

    def nfields(self, t):
        t = self.rt(t)
        return t[1] if t[0] in ('array', 'vector') else len(t[1])

    def sort(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'int':
            return t[1]
        if k == 'float':
            return 'f32'
        if k == 'double':
            return 'f64'
        if k == 'x86_fp80':
            return 'f80'
        if k == 'ptr':
            return 64
        raise Unsupported(f'sort of {t}')

    def isagg(self, t):
        return self.rt(t)[0] in ('array', 'struct', 'vector')

    # ------------------------------------------------------------ constants
    def zero(self, t):
        t = self.rt(t)
        if self.isagg(t):
            return tuple(self.zero(self.field(t, i)[1]) for i in range(self.nfields(t)))
        return const(0, self.sort(t))

    def undef(self, t):
        t = self.rt(t)
        if self.isagg(t):
            return tuple(self.undef(self.field(t, i)[1]) for i in range(self.nfields(t)))
        return fresh('undef', self.sort(t))

    def num(self, s, sort):
        if isinstance(sort, int):
            return const(int(s), sort)
        if sort == 'f80':
            if s.startswith('0xK'):
                return const(int(s[3:], 16), 'f80')
            raise Unsupported('f80 literal ' + s)
        if s.startswith('0x'):
            v = struct.unpack('<d', struct.pack('<Q', int(s[2:], 16)))[0]
            if sort == 'f64':
                return const(int(s[2:], 16), 'f64')
            if v != v:
                b = int(s[2:], 16)
                return const(((b >> 63) << 31) | 0x7f800000 | ((b >> 29) & 0x7fffff), 'f32')
        else:
            v = float(s)
        if sort == 'f64':
            return const(struct.unpack('<Q', struct.pack('<d', v))[0], 'f64')
        return const(struct.unpack('<I', struct.pack('<f', v))[0], 'f32')

    def cval(self, t, v, st):
        """evaluate operand v of type t"""
        k = v[0]
        if k == 'local':
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported(f'undefined {v[1]}')
        if k == 'num':
            return self.num(v[1], self.sort(t))
        if k == 'true':
            return TT.TRUE
        if k == 'false':
            return TT.FALSE
        if k == 'null':
            return const(0, 64)
        if k in ('undef', 'poison'):
            return self.undef(t)
        if k == 'zeroinitializer':
            return self.zero(t)
        if k == 'global':
            return self.gptr(v[1])
        if k == 'agg':
            return tuple(self.cval(a, b, st) for a, b in v[1])
        if k == 'str':
            b = self.strbytes(v[1])
            return tuple(const(x, 8) for x in b)
        if k == 'cgep':
            return self.gep(v[1], v[2], st)
        if k == 'ccast':
            x = self.cval(v[2], v[3], st)
            return self.cast(v[1], v[2], x, v[4])
        if k == 'cbin':
            a, b = self.cval(v[2], v[3], st), self.cval(v[2], v[4], st)
            return {'add': add, 'sub': sub, 'mul': mul}[v[1]](a, b)
        raise Unsupported(f'operand {v}')

    @staticmethod
    def strbytes(s):
        s = s[2:-1]
        out = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92)
                    i += 2
                    continue
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return out

    def gptr(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.gaddr:
            return const(self.gaddr[name], 64)
        self.nobj += 1
        oid = self.nobj
        self.gaddr[name] = oid << 32
        if name in self.m.globals:
            t, init, cst = self.m.globals[name]
            try:
                size = self.size_align(t)[0]
            except Unsupported:
                size = 0
            o = Obj(size, {}, name, cst)
            self.gmem[oid] = o
            if init is not None and init[0] != 'zeroinitializer':
                try:
                    v = self.cval(t, init, None)
                    self._put(o, 0, t, v)
                except Unsupported:
                    pass
            elif init is not None:
                self._put(o, 0, t, self.zero(t))
        else:
            self.gmem[oid] = Obj(0, {}, name, True)
        return const(self.gaddr[name], 64)

    def _put(self, o, off, t, v):
        t = self.rt(t)
        if self.isagg(t):
            for i in range(self.nfields(t)):
                fo, ft = self.field(t, i)
                self._put(o, off + fo, ft, v[i])
        else:
            n = self.store_size(t)
            if isinstance(v.sort, int) and v.sort < n * 8:
                v = zext(v, n * 8)
            o.cells[off] = (n, v)

    def store_size(self, t):
        t = self.rt(t)
        if t[0] == 'x86_fp80':
            return 10
        if t[0] == 'int':
            return (t[1] + 7) // 8
        return self.size_align(t)[0]

    def strat(self, ptr, st):
        """NUL terminated constant string at ptr"""
        if not isc(ptr):
            return '?'
        o = self.obj(st, ptr.val >> 32)
        off = ptr.val & 0xffffffff
        out = []
        while True:
            c = o.cells.get(off)
            if c is None or not isc(c[1]) or c[1].val == 0:
                return ''.join(out)
            out.append(chr(c[1].val & 255))
            off += 1

    # ------------------------------------------------------------ memory
    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gmem.get(oid)
        return o

    def alloc(self, st, size, name):
        self.nobj += 1
        st.mem[self.nobj] = Obj(size, {}, name)
        return const(self.nobj << 32, 64)

    def ptr_cases(self, p):
        """[(guard, base const, symbolic offset or None)]"""
        if isc(p):
            return [(TT.TRUE, p.val, None)]
        if p.op == 'ite':
            c, a, b = p.args
            return ([(bvand(c, g), x, y) for g, x, y in self.ptr_cases(a)] +
                    [(bvand(bnot(c), g), x, y) for g, x, y in self.ptr_cases(b)])
        if p.op == 'add' and isc(p.args[1]):
            r = []
            if p.args[1].val >> 32 and (p.args[1].val >> 63) == 0:
                return [(TT.TRUE, p.args[1].val, p.args[0])]
            for g, x, y in self.ptr_cases(p.args[0]):
                r.append((g, (x + p.args[1].val) & mask(64), y))
            return r
        if p.op in ('add', 'sub'):
            # one operand should be pointer-like
            for i in (0, 1) if p.op == 'add' else (0,):
                a, b = p.args[i], p.args[1 - i]
                try:
                    cs = self.ptr_cases(a)
                except Unsupported:
                    continue
                if p.op == 'sub':
                    b = neg(b)
                return [(g, x, b if y is None else add(y, b)) for g, x, y in cs]
        raise Unsupported(f'pointer {p}')

    def resolve(self, st, p, n, what):
        """[(guard, oid, off)] with an out-of-bounds obligation when needed"""
        res = []
        sym = False
        for g, base, so in self.ptr_cases(p):
            if so is None:
                oid, off = base >> 32, base & 0xffffffff
                o = self.obj(st, oid)
                if o is None or off + n > o.size:
                    sym = True
                    continue
                res.append((g, oid, off))
            else:
                oid, off = base >> 32, base & 0xffffffff
                o = self.obj(st, oid)
                if o is None and off >= 1 << 31:     # negative displacement below the object
                    oid += 1
                    off -= 1 << 32
                    o = self.obj(st, oid)
                if o is None:
                    sym = True
                    continue
                step = 1 << min(trailing_zeros(so), 12)
                sym = True
                for x in range(off % step, o.size - n + 1, step):
                    gg = bvand(g, eq(so, const(x - off, 64)))
                    if not (isc(gg) and gg.val == 0):
                        res.append((gg, oid, x))
        if sym:
            ok = lor(*[g for g, _, _ in res])
            self.obl.append(Obligation('oob', st.pc, ok, f'memory {what} out of bounds'))
            st.pc = bvand(st.pc, ok)
        if not res:
            return None
        if len(res) > 1 and any(not isc(g) for g, _, _ in res):
            res = [(g, oid, off) for g, oid, off in res if self.feasible_cached(st.pc, g)] or res[:1]
        return res

    def feasible_cached(self, pc, g):
        c = bvand(pc, g)
        if isc(c):
            return bool(c.val)
        r = self.fcache.get(c.id)
        if r is None:
            r = self.fcache[c.id] = self.feasible(c)
        return r

    def read_cell(self, o, off, n):
        """bits (or fp term when exact) at constant offset"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        out = []
        i = off
        while i < off + n:
            b = self.read_piece(o, i, off + n)
            out.append(b)
            i += b.sort // 8
        return concat(*reversed(out))

    def read_piece(self, o, i, end):
        c = o.cells.get(i)
        if c is not None:
            start = i
        else:
            c = None
            for s, cc in o.cells.items():
                if s < i < s + cc[0]:
                    c, start = cc, s
                    break
            if c is None:
                v = fresh('uninit', 8)
                o.cells[i] = (1, v)
                return v
        k = min(end, start + c[0]) - i
        v = self.asbits(c[1])
        return extract(v, (i - start + k) * 8 - 1, (i - start) * 8)

    def asbits(self, v):
        if isinstance(v.sort, int):
            return v
        return fbits(v)

    def load(self, st, p, t):
        t = self.rt(t)
        if self.isagg(t):
            return tuple(self.load(st, add(p, const(self.field(t, i)[0], 64)), self.field(t, i)[1])
                         for i in range(self.nfields(t)))
        n = self.store_size(t)
        cs = self.resolve(st, p, n, 'read')
        if cs is None:
            return self.undef(t)
        v = None
        for g, oid, off in reversed(cs):
            x = self.conv(self.read_cell(self.obj(st, oid), off, n), self.sort(t))
            v = x if v is None else ite(g, x, v)
        return v

    def conv(self, x, sort):
        if x.sort == sort:
            return x
        if isinstance(sort, int):
            x = self.asbits(x)
            return x if x.sort == sort else extract(x, sort - 1, 0)
        if isinstance(x.sort, int):
            return bitsf(x, sort)
        return bitsf(fbits(x), sort)

    def put_cell(self, st, oid, off, n, v):
        o = self.obj(st, oid)
        cells = dict(o.cells)
        c = cells.get(off)
        if not (c is not None and c[0] == n):
            for s, cc in list(cells.items()):
                if s < off + n and s + cc[0] > off:
                    del cells[s]
                    bits = None
                    for b in range(s, s + cc[0]):
                        if b < off or b >= off + n:
                            if bits is None:
                                bits = self.asbits(cc[1])
                            cells[b] = (1, extract(bits, (b - s) * 8 + 7, (b - s) * 8))
        cells[off] = (n, v)
        st.mem[oid] = Obj(o.size, cells, o.name)

    def store(self, st, p, t, v):
        t = self.rt(t)
        if self.isagg(t):
            for i in range(self.nfields(t)):
                fo, ft = self.field(t, i)
                self.store(st, add(p, const(fo, 64)), ft, v[i])
            return
        n = self.store_size(t)
        if isinstance(v.sort, int) and v.sort < n * 8:
            v = zext(v, n * 8)
        cs = self.resolve(st, p, n, 'write')
        if cs is None:
            return
        if len(cs) == 1 and isc(cs[0][0]):
            self.put_cell(st, cs[0][1], cs[0][2], n, v)
            return
        for g, oid, off in cs:
            old = self.conv(self.read_cell(self.obj(st, oid), off, n), v.sort)
            self.put_cell(st, oid, off, n, ite(g, v, old))

    def memcpy(self, st, d, s, n):
        if not isc(n):
            return self.split_size(st, n, lambda s2, k: self.memcpy(s2, d, s, k))
        n = n.val
        if n == 0:
            return
        if isc(s) and isc(d):
            so = self.obj(st, s.val >> 32)
            off = s.val & 0xffffffff
            do = self.obj(st, d.val >> 32)
            doff = d.val & 0xffffffff
            if so is None or do is None or off + n > so.size or doff + n > do.size:
                self.obl.append(Obligation('oob', st.pc, TT.FALSE, 'memcpy out of bounds'))
                st.pc = TT.FALSE
                return
            # copy whole cells where possible
            items = []
            i = off
            while i < off + n:
                c = so.cells.get(i)
                if c is not None and i + c[0] <= off + n:
                    items.append((i - off, c[0], c[1]))
                    i += c[0]
                else:
                    items.append((i - off, 1, self.read_cell(so, i, 1)))
                    i += 1
            for o, k, v in items:
                self.put_cell(st, d.val >> 32, doff + o, k, v)
            return
        step = 1
        for k in (8, 4, 2):
            if n % k == 0 and self._aligned(s, k) and self._aligned(d, k):
                step = k
                break
        vals = [self.load(st, add(s, const(o, 64)), ('int', step * 8)) for o in range(0, n, step)]
        for i, v in enumerate(vals):
            self.store(st, add(d, const(i * step, 64)), ('int', step * 8), v)

    def split_size(self, st, n, f):
        """case split over the feasible values of a symbolic size"""
        step = 1 << min(trailing_zeros(n), 6)
        out = None
        rest = TT.TRUE
        for k in range(0, 513, step):
            g = eq(n, const(k, n.sort))
            pc = bvand(st.pc, g)
            if isc(pc) and not pc.val or not self.feasible(pc):
                continue
            s2 = st.copy()
            s2.pc = pc
            f(s2, const(k, n.sort))
            rest = bvand(rest, bnot(g))
            if not self.dead(s2):
                out = self.merge(s2, out, g)
        if self.feasible(bvand(st.pc, rest)):
            self.obl.append(Obligation('oob', bvand(st.pc, rest), TT.FALSE, 'memory operation larger than 512 bytes'))
        if out is None:
            st.pc = TT.FALSE
            return
        st.mem, st.pc = out.mem, out.pc

    @staticmethod
    def _aligned(p, k):
        return (1 << trailing_zeros(p)) >= k

    # ------------------------------------------------------------ instructions
    def gep(self, bt, ops, st):
        p = self.cval(ops[0][0], ops[0][1], st)
        if isinstance(p, tuple):
            raise Unsupported('vector gep')
        t = bt
        first = True
        for ty, v in ops[1:]:
            i = self.cval(ty, v, st)
            if first:
                p = add(p, mul(sext(i, 64), const(self.size_align(t)[0], 64)))
                first = False
                continue
            t = self.rt(t)
            if t[0] == 'struct':
                fo, t = self.field(t, i.val)
                p = add(p, const(fo, 64))
            else:
                p = add(p, mul(sext(i, 64) if i.sort < 64 else i, const(self.size_align(t[2])[0], 64)))
                t = t[2]
        return p

    def vmap(self, f, *xs):
        if isinstance(xs[0], tuple):
            return tuple(self.vmap(f, *e) for e in zip(*xs))
        return f(*xs)

    def elt(self, t):
        t = self.rt(t)
        return t[2] if t[0] == 'vector' else t

    def binop(self, op, a, b):
        if op[0] == 'f':
            if op == 'frem':
                return uf('fmod', (a, b), a.sort)
            return fbin(op, a, b)
        return {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem, 'shl': shl,
                'lshr': lshr, 'ashr': ashr, 'and': bvand, 'or': bvor, 'xor': bvxor}[op](a, b)

    def icmp(self, p, a, b):
        if p == 'eq':
            return eq(a, b)
        if p == 'ne':
            return bnot(eq(a, b))
        f = {'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}.get(p)
        if f:
            return f(a, b)
        return {'ugt': ult, 'uge': ule, 'sgt': slt, 'sge': sle}[p](b, a)

    def cast(self, op, t, x, t2):
        if op == 'bitcast':
            return self.bitcast(t, x, t2)
        if isinstance(x, tuple):
            return tuple(self.cast(op, self.elt(t), e, self.elt(t2)) for e in x)
        s = self.sort(t2)
        if op == 'trunc':
            return trunc(x, s)
        if op == 'zext':
            return zext(x, s)
        if op == 'sext':
            return sext(x, s)
        if op in ('ptrtoint', 'inttoptr'):
            return x if x.sort == s else (trunc(x, s) if x.sort > s else zext(x, s))
        if op in ('fpext', 'fptrunc'):
            return fcvt(x, s)
        if op in ('sitofp', 'uitofp'):
            # (int -> double -> float would round twice: never merged)
            return mk(op, (x,), s)
        if op in ('fptosi', 'fptoui'):
            return mk(op, (x,), s)
        raise Unsupported(op)

    def flat(self, t, x):
        if isinstance(x, tuple):
            r = []
            e = self.elt(t)
            for y in x:
                r += self.flat(e, y)
            return r
        return [self.asbits(x)]

    def bitcast(self, t, x, t2):
        t2 = self.rt(t2)
        bits = concat(*reversed(self.flat(t, x)))
        if t2[0] == 'vector':
            w = self.sort(t2[2])
            n = w if isinstance(w, int) else FPBITS[w]
            return tuple(self.conv(extract(bits, (i + 1) * n - 1, i * n), w) for i in range(t2[1]))
        return self.conv(bits, self.sort(t2)) if not (not isinstance(x, tuple) and x.sort == self.sort(t2)) else x

    # ------------------------------------------------------------ control
    def enter(self, st, f, frm, to):
        """take an edge: evaluate the phis of `to`"""
        ph = []
        for ins in f.blocks[to]:
            if ins.op != 'phi':
                break
            t, inc = ins.a
            for v, b in inc:
                if b == frm:
                    ph.append((ins.dest, self.cval(t, v, st)))
                    break
            else:
                raise Unsupported('phi without edge')
        for d, v in ph:
            st.env[d] = v
        st.visits[to] = st.visits.get(to, 0) + 1

    def merge(self, a, b, c):
        """state a when c, else state b"""
        if a is None:
            return b
        if b is None:
            return a
        self.merges += 1
        r = State()
        r.env = {}
        for k, va in a.env.items():
            vb = b.env.get(k)
            if vb is None:
                r.env[k] = va
            elif va is vb:
                r.env[k] = va
            else:
                r.env[k] = self.vite(c, va, vb)
        for k, vb in b.env.items():
            if k not in r.env:
                r.env[k] = vb
        r.mem = {}
        for k, oa in a.mem.items():
            ob = b.mem.get(k)
            if ob is None or oa is ob:
                r.mem[k] = oa
            else:
                r.mem[k] = self.merge_obj(oa, ob, c)
        for k, ob in b.mem.items():
            if k not in r.mem:
                r.mem[k] = ob
        r.expect = ite(c, a.expect, b.expect)
        r.visits = {k: max(a.visits.get(k, 0), b.visits.get(k, 0)) for k in set(a.visits) | set(b.visits)}
        r.exc = a.exc or b.exc
        r.cnt = {k: max(a.cnt.get(k, 0), b.cnt.get(k, 0)) for k in set(a.cnt) | set(b.cnt)}
        r.pc = lor(a.pc, b.pc)
        return r

    def vite(self, c, a, b):
        if isinstance(a, tuple):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        if a.sort != b.sort:
            return a
        return ite(c, a, b)

    def merge_obj(self, a, b, c):
        cells = {}
        offs = set(a.cells) | set(b.cells)
        done = set()
        for o in sorted(offs):
            if o in done:
                continue
            ca, cb = a.cells.get(o), b.cells.get(o)
            if ca is not None and cb is not None and ca[0] == cb[0]:
                va, vb = ca[1], cb[1]
                if va.sort != vb.sort:
                    va, vb = self.asbits(va), self.asbits(vb)
                cells[o] = (ca[0], ite(c, va, vb))
            elif ca is not None and cb is None and not self._covered(b, o, ca[0]):
                cells[o] = ca      # other side uninitialised
            elif cb is not None and ca is None and not self._covered(a, o, cb[0]):
                cells[o] = cb
            else:
                # differing partition: go bytewise over the affected range
                end = o
                grow = True
                start = o
                while grow:
                    grow = False
                    for ob in (a, b):
                        for s, cc in ob.cells.items():
                            if s < max(end, o + 1) and s + cc[0] > start and s + cc[0] > end:
                                end = s + cc[0]
                                grow = True
                for x in range(start, end):
                    cells[x] = (1, ite(c, self.read_cell(a, x, 1), self.read_cell(b, x, 1)))
                done |= set(range(start, end))
        return Obj(a.size, cells, a.name)

    @staticmethod
    def _covered(o, off, n):
        for s, cc in o.cells.items():
            if s < off + n and s + cc[0] > off:
                return True
        return False

    def call_func(self, name, args, st):
        """returns (state, retval, [exception states])"""
        f = self.m.func(name)
        self.called.add(name)
        fr = Frame(f)
        env, visits = st.env, st.visits
        st.env = {}
        st.visits = {}
        for (t, n), v in zip(f.params, args):
            st.env[n] = v
        self.run(fr, st, f.order[0], '<exit>')
        out, rv = None, None
        for s, v in fr.rets:
            if out is None:
                out, rv = s, v
            else:
                c = s.pc
                out.env, s.env = {}, {}
                m = self.merge(s, out, c)
                rv = self.vite(c, v, rv) if v is not None else None
                out = m
        for s in ([out] if out is not None else []) + fr.excs:
            s.env, s.visits = dict(env), dict(visits)
        return out, rv, fr.excs

    def dead(self, st):
        return isc(st.pc) and st.pc.val == 0

    def run(self, fr, st, blk, stop):
        """execute from blk (phis already evaluated) until reaching `stop`;
        returns the state there or None"""
        f = fr.f
        while True:
            if blk == stop:
                return st
            insts = f.blocks[blk]
            for ins in insts[:-1]:
                if ins.op == 'phi':
                    continue
                self.instrs += 1
                st = self.step(fr, st, ins)
                if st is None or self.dead(st):
                    return None
            ins = insts[-1]
            self.instrs += 1
            op = ins.op
            if op == 'jmp':
                self.enter(st, f, blk, ins.a[0])
                blk = ins.a[0]
                continue
            if op == 'ret':
                v = None
                if ins.a[0] is not None:
                    v = self.cval(ins.a[0][0], ins.a[0][1], st)
                fr.rets.append((st, v))
                return None
            if op == 'unreachable':
                return None
            if op == 'resume':
                fr.excs.append(st)
                return None
            if op == 'br':
                c = self.cval(('int', 1), ins.a[0][1], st)
                targets = [(c, ins.a[1]), (bnot(c), ins.a[2])]
            elif op == 'switch':
                x = self.cval(ins.a[0][0], ins.a[0][1], st)
                by = {}
                rest = TT.TRUE
                for (t, v), b in ins.a[2]:
                    g = eq(x, self.cval(t, v, st))
                    by[b] = bvor(by.get(b, TT.FALSE), g)
                    rest = bvand(rest, bnot(g))
                d = ins.a[1]
                by[d] = bvor(by.get(d, TT.FALSE), rest)
                targets = [(g, b) for b, g in by.items()]
            elif op == 'invoke':
                r = self.call(fr, st, ins)
                st2, excs = r
                n, u = ins.a[-2], ins.a[-1]
                if not excs:
                    if st2 is None or self.dead(st2):
                        return None
                    st = st2
                    self.enter(st, f, blk, n)
                    blk = n
                    continue
                j = f.ipdom.get(blk, '<exit>')
                out = None
                alts = []
                for e in excs:
                    c = e.pc
                    self.enter(e, f, blk, u)
                    alts.append((c, self.run(fr, e, u, j)))
                if st2 is not None and not self.dead(st2):
                    self.enter(st2, f, blk, n)
                    out = self.run(fr, st2, n, j)
                for c, s in alts:
                    out = self.merge(s, out, c)
                if out is None or j == '<exit>':
                    return None
                st = out
                blk = j
                continue
            else:
                raise Unsupported(ins.line)
            targets = [(c, b) for c, b in targets if not (isc(c) and c.val == 0)]
            if len(targets) == 1:
                self.enter(st, f, blk, targets[0][1])
                blk = targets[0][1]
                continue
            # loop guard: keep unrolling only while feasible
            cnt = st.visits.get(blk, 0)
            self.max_unwind = max(self.max_unwind, cnt)
            if cnt > UNWIND:
                raise Unsupported(f'loop bound {UNWIND} exceeded in {f.name} block {blk}')
            if self.eager and not self.feasible_cached(st.pc, TRUE):
                return None
            if cnt >= 3:
                self.loops_checked += 1
                targets = [(c, b) for c, b in targets if self.feasible(bvand(st.pc, c))]
                if not targets:
                    return None
                if len(targets) == 1:
                    st.pc = bvand(st.pc, targets[0][0])
                    self.enter(st, f, blk, targets[0][1])
                    blk = targets[0][1]
                    continue
            # a side that cannot reach a return ends in abort/throw: run it apart
            j = f.ipdom.get(blk, '<exit>') if blk in f.live else '<exit>'
            pc0 = st.pc
            alts = []
            for i, (c, b) in enumerate(targets):
                s = st.copy() if i < len(targets) - 1 else st
                s.pc = bvand(pc0, c)
                if self.dead(s):
                    continue
                p1 = s.pc
                self.enter(s, f, blk, b)
                r = self.run(fr, s, b, j)
                alts.append((c, r, p1))
            out = None
            intact = all(r is not None and r.pc is p1 for _, r, p1 in alts) and len(alts) == len(targets)
            for c, r, _ in reversed(alts):
                out = self.merge(r, out, c)
            if out is None or j == '<exit>':
                return None
            if intact:
                out.pc = pc0
            st = out
            blk = j

    def step(self, fr, st, ins):
        op, a = ins.op, ins.a
        env = st.env
        if op == 'call':
            st2, excs = self.call(fr, st, ins)
            fr.excs.extend(excs)
            return st2
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = self.cval(a[0], a[1], st), self.cval(a[0], a[2], st)
            env[ins.dest] = self.vmap(lambda p, q: self.binop(op, p, q), x, y)
        elif op == 'fneg':
            env[ins.dest] = self.vmap(fneg, self.cval(a[0], a[1], st))
        elif op == 'icmp':
            x, y = self.cval(a[1], a[2], st), self.cval(a[1], a[3], st)
            env[ins.dest] = self.vmap(lambda p, q: self.icmp(a[0], p, q), x, y)
        elif op == 'fcmp':
            x, y = self.cval(a[1], a[2], st), self.cval(a[1], a[3], st)
            env[ins.dest] = self.vmap(lambda p, q: fcmp(a[0], p, q), x, y)
        elif op == 'select':
            c = self.cval(a[0][0], a[0][1], st)
            x, y = self.cval(a[1][0], a[1][1], st), self.cval(a[2][0], a[2][1], st)
            if isinstance(c, tuple):
                env[ins.dest] = tuple(ite(p, q, r) for p, q, r in zip(c, x, y))
            else:
                env[ins.dest] = self.vite(c, x, y)
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                    'inttoptr', 'bitcast'):
            env[ins.dest] = self.cast(op, a[0], self.cval(a[0], a[1], st), a[2])
        elif op == 'load':
            p = self.cval(a[1][0], a[1][1], st)
            env[ins.dest] = self.load(st, p, a[0])
        elif op == 'store':
            v = self.cval(a[0][0], a[0][1], st)
            p = self.cval(a[1][0], a[1][1], st)
            self.store(st, p, a[0][0], v)
        elif op == 'getelementptr':
            env[ins.dest] = self.gep(a[0], a[1], st)
        elif op == 'alloca':
            n = 1
            if a[1] is not None:
                k = self.cval(a[1][0], a[1][1], st)
                n = k.val
            env[ins.dest] = self.alloc(st, self.size_align(a[0])[0] * n, ins.dest)
        elif op == 'extractvalue':
            v = self.cval(a[0][0], a[0][1], st)
            for i in a[1]:
                v = v[i]
            env[ins.dest] = v
        elif op == 'insertvalue':
            v = self.cval(a[0][0], a[0][1], st)
            e = self.cval(a[1][0], a[1][1], st)

            def ins_(v, idx):
                if not idx:
                    return e
                l = list(v)
                l[idx[0]] = ins_(l[idx[0]], idx[1:])
                return tuple(l)
            env[ins.dest] = ins_(v, a[2])
        elif op == 'extractelement':
            v = self.cval(a[0][0], a[0][1], st)
            i = self.cval(a[1][0], a[1][1], st)
            if isc(i):
                env[ins.dest] = v[i.val]
            else:
                r = v[-1]
                for k in range(len(v) - 2, -1, -1):
                    r = ite(eq(i, const(k, i.sort)), v[k], r)
                env[ins.dest] = r
        elif op == 'insertelement':
            v = list(self.cval(a[0][0], a[0][1], st))
            e = self.cval(a[1][0], a[1][1], st)
            i = self.cval(a[2][0], a[2][1], st)
            if isc(i):
                v[i.val] = e
            else:
                v = [ite(eq(i, const(k, i.sort)), e, x) for k, x in enumerate(v)]
            env[ins.dest] = tuple(v)
        elif op == 'shufflevector':
            x = self.cval(a[0][0], a[0][1], st)
            y = self.cval(a[1][0], a[1][1], st)
            mt, mv = a[2]
            if mv[0] == 'zeroinitializer':
                idx = [0] * self.rt(mt)[1]
            elif mv[0] in ('undef', 'poison'):
                idx = [None] * self.rt(mt)[1]
            else:
                idx = [None if v[0] in ('undef', 'poison') else int(v[1]) for _, v in mv[1]]
            both = x + y
            et = self.rt(a[0][0])[2]
            env[ins.dest] = tuple(self.undef(et) if i is None else both[i] for i in idx)
        elif op == 'freeze':
            env[ins.dest] = self.cval(a[0][0], a[0][1], st)
        elif op == 'landingpad':
            et, ptr = st.exc
            sel = None
            for kind, t, v in a[2]:
                if kind == 'filter':
                    continue
                if v[0] == 'null':
                    sel = 1
                    break
                if self.exc_match(et, v[1]):
                    sel = self.typeid(v[1])
                    break
            if sel is None:
                if not a[1] and not any(k == 'filter' for k, _, _ in a[2]):
                    fr.excs.append(st)
                    return None
                sel = 0
            env[ins.dest] = (ptr, const(sel, 32))
        elif op == 'nop':
            pass
        else:
            raise Unsupported(ins.line)
        return st

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 2)

    @staticmethod
    def exc_match(et, clause):
        e = et.lstrip('@') if et else None
        c = clause.lstrip('@')
        while e:
            if e == c:
                return True
            e = EXC_PARENT.get(e)
        return False

    # ------------------------------------------------------------ calls
    def abort(self, st, kind, what):
        if kind == 'ub':
            self.obl.append(Obligation('ub', st.pc, TT.FALSE, what))
        else:
            self.obl.append(Obligation('abort', st.pc, st.expect, what))
            self.expected_aborts.append(bvand(st.pc, st.expect))
        return None, []

    def call(self, fr, st, ins):
        a = ins.a
        rt, callee, args = a[0], a[1], a[2]
        if callee[0] == 'asm':
            return st, []
        if callee[0] != 'global':
            p = self.cval(('ptr',), callee, st)
            name = None
            if isc(p):
                for n, ad in self.gaddr.items():
                    if ad == p.val:
                        name = n
            if name is None:
                raise Unsupported('indirect call ' + ins.line)
        else:
            name = callee[1]
        name = self.m.aliases.get(name, name)
        nm = name[1:]
        if nm.startswith('llvm.'):
            return self.intrinsic(st, ins, nm, rt, args)
        vals = [None if t[0] == 'metadata' else self.cval(t, v, st) for t, v in args]
        if nm.startswith('vf_'):
            return self.vf(st, ins, nm, vals)
        if self.m.func(name) is not None and nm not in ('__clang_call_terminate',):
            s2, rv, excs = self.call_func(name, vals, st)
            if s2 is not None and ins.dest is not None:
                s2.env[ins.dest] = rv
            return s2, excs
        # ---------------- external functions
        if nm in ('__assert_fail',):
            return self.abort(st, 'abort', 'assertion ' + self.strat(vals[0], st))
        if nm in ('abort', '_ZSt9terminatev', '__clang_call_terminate'):
            return self.abort(st, 'abort', nm)
        if nm.startswith('__ubsan_handle'):
            return self.abort(st, 'ub', nm)
        if nm == '__cxa_allocate_exception':
            st.env[ins.dest] = self.alloc(st, 64, 'exception')
            return st, []
        if nm in ('_Znwm', '_Znam') and isc(vals[0]) and vals[0].val < 1 << 16:
            st.env[ins.dest] = self.alloc(st, vals[0].val, 'new')
            return st, []
        if nm in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
            return st, []
        if nm == '__cxa_free_exception' or nm == '__cxa_end_catch':
            return st, []
        if nm == '__cxa_begin_catch':
            st.env[ins.dest] = vals[0]
            return st, []
        if nm == '__cxa_throw':
            ti = None
            for n, ad in self.gaddr.items():
                if isc(vals[1]) and ad == vals[1].val:
                    ti = n
            st.exc = (ti, vals[0])
            return None, [st]
        if nm.startswith('_ZSt') and '__throw_' in nm:
            if 'out_of_range' in nm:
                self.gptr('@_ZTISt12out_of_range')
                st.exc = ('@_ZTISt12out_of_range', const(0, 64))
            else:
                st.exc = ('@_ZTISt9exception', const(0, 64))
            return None, [st]
        if re.match(r'_ZNSt(12out_of_range|16invalid_argument|11range_error|11logic_error|13runtime_error)[CD]\d', nm):
            return st, []
        if nm == 'memcpy' or nm == 'memmove':
            self.memcpy(st, vals[0], vals[1], vals[2])
            if ins.dest:
                st.env[ins.dest] = vals[0]
            return st, []
        if nm == 'memset':
            self.memset(st, vals[0], vals[1], vals[2])
            if ins.dest:
                st.env[ins.dest] = vals[0]
            return st, []
        if nm == 'memcmp' or nm == 'bcmp':
            if not isc(vals[2]):
                raise Unsupported('memcmp size')
            r = const(0, 32)
            for i in reversed(range(vals[2].val)):
                x = self.load(st, add(vals[0], const(i, 64)), ('int', 8))
                y = self.load(st, add(vals[1], const(i, 64)), ('int', 8))
                r = ite(eq(x, y), r, ite(ult(x, y), const(-1, 32), const(1, 32)))
            st.env[ins.dest] = r
            return st, []
        if nm == '_ZSt11_Hash_bytesPKvmm':
            n = vals[1].val
            bs = self.load(st, vals[0], ('int', 8 * n))
            st.env[ins.dest] = uf(f'hash_bytes_{n}', (bs, vals[2]), 64)
            return st, []
        r = self.libm(st, nm, vals)
        if r is not None:
            if ins.dest:
                st.env[ins.dest] = r
            return st, []
        raise Unsupported(f'external function {nm}')

    def memset(self, st, p, v, n):
        if not isc(n):
            return self.split_size(st, n, lambda s2, k: self.memset(s2, p, v, k))
        k = 8 if n.val % 8 == 0 and self._aligned(p, 8) else (4 if n.val % 4 == 0 and self._aligned(p, 4) else 1)
        w = concat(*[v] * k)
        for i in range(0, n.val, k):
            self.store(st, add(p, const(i, 64)), ('int', 8 * k), w)

    def libm(self, st, nm, v):
        """math library function (C name, f/l suffix allowed)"""
        base = nm
        if base not in LIBM1 and base not in LIBM2 and base[-1:] in 'fl' and base[:-1] in LIBM1 + LIBM2 + [
                'fma', 'modf', 'frexp', 'ldexp', 'lround', 'llround', 'lrint']:
            base = base[:-1]
        if not v or isinstance(v[0].sort, int):
            return None
        return self.math(st, base, v)

    def math(self, st, base, v):
        s = v[0].sort
        if base == 'fabs':
            return fabs_(v[0])
        rm = {'floor': 'RTN', 'ceil': 'RTP', 'trunc': 'RTZ', 'round': 'RNA', 'roundeven': 'RNE', 'rint': 'RNE',
              'nearbyint': 'RNE'}.get(base)
        if rm:
            return mk('frint', (v[0],), s, rm)
        if base == 'sqrt':
            return mk('fsqrt', (v[0],), s)
        if base == 'fma':
            return fma_(*v)
        if base == 'copysign':
            n = FPBITS[s]
            if s == 'f80':
                return uf('copysign', v, s)
            return bitsf(concat(extract(fbits(v[1]), n - 1, n - 1), extract(fbits(v[0]), n - 2, 0)), s)
        if base == 'fmin':
            return ite(fisnan(v[0]), v[1], ite(fisnan(v[1]), v[0], ite(flt(v[1], v[0]), v[1], v[0])))
        if base == 'fmax':
            return ite(fisnan(v[0]), v[1], ite(fisnan(v[1]), v[0], ite(flt(v[0], v[1]), v[1], v[0])))
        if base == 'modf':
            ip = mk('frint', (v[0],), s, 'RTZ')
            t = {'f32': ('float',), 'f64': ('double',), 'f80': ('x86_fp80',)}[s]
            self.store(st, v[1], t, ip)
            return uf('modf_frac', (v[0],), s)
        if base == 'frexp':
            self.store(st, v[1], ('int', 32), uf('frexp_exp', (v[0],), 32))
            return uf('frexp_man', (v[0],), s)
        if base == 'ldexp':
            return uf('ldexp', v, s)
        if base in LIBM1 or base in LIBM2:
            return uf(base, v, s)
        return None

    def intrinsic(self, st, ins, nm, rt, args):
        base = nm[5:]
        if base.startswith(('lifetime.', 'assume', 'dbg.', 'experimental.noalias', 'donothing', 'invariant.',
                            'stackrestore', 'prefetch')):
            return st, []
        if base.startswith('ubsantrap'):
            return self.abort(st, 'ub', 'undefined behaviour (ubsan trap %s)' % (args[0][1][1] if args else ''))
        if base == 'trap':
            return self.abort(st, 'abort', 'trap')
        v = [None if t[0] == 'metadata' else self.cval(t, x, st) for t, x in args]
        if base.startswith(('memcpy', 'memmove')):
            self.memcpy(st, v[0], v[1], v[2])
            return st, []
        if base.startswith('memset'):
            self.memset(st, v[0], v[1], v[2])
            return st, []
        if base == 'eh.typeid.for' or base.startswith('eh.typeid.for'):
            st.env[ins.dest] = const(self.typeid(args[0][1][1]), 32)
            return st, []
        k = base.split('.')[0]
        if isinstance(v[0], tuple) and not base.startswith('vector.reduce'):
            outs = []
            for i in range(len(v[0])):
                outs.append(self.intr1(st, base, k, [x[i] if isinstance(x, tuple) else x for x in v]))
            st.env[ins.dest] = tuple(outs)
            return st, []
        if base.startswith('vector.reduce.'):
            o = base.split('.')[2]
            f = {'and': bvand, 'or': bvor, 'xor': bvxor, 'add': add, 'mul': mul,
                 'umax': lambda x, y: ite(ult(x, y), y, x), 'umin': lambda x, y: ite(ult(x, y), x, y),
                 'smax': lambda x, y: ite(slt(x, y), y, x), 'smin': lambda x, y: ite(slt(x, y), x, y)}.get(o)
            if f is None:
                raise Unsupported(nm)
            r = v[0][0]
            for x in v[0][1:]:
                r = f(r, x)
            st.env[ins.dest] = r
            return st, []
        if k == 'frexp':
            st.env[ins.dest] = (uf('frexp_man', (v[0],), v[0].sort), uf('frexp_exp', (v[0],), 32))
            return st, []
        r = self.intr1(st, base, k, v)
        if r is None:
            raise Unsupported('intrinsic ' + nm)
        st.env[ins.dest] = r
        return st, []

    def intr1(self, st, base, k, v):
        n = v[0].sort
        if k in ('umin', 'umax', 'smin', 'smax'):
            f = ult if k[0] == 'u' else slt
            return ite(f(v[0], v[1]), *((v[0], v[1]) if k.endswith('min') else (v[1], v[0])))
        if k == 'abs':
            return ite(slt(v[0], const(0, n)), neg(v[0]), v[0])
        if k == 'expect':
            return v[0]
        if k == 'is' and base.startswith('is.constant'):
            return TT.FALSE
        if k == 'bswap':
            return concat(*[extract(v[0], i * 8 + 7, i * 8) for i in range(n // 8)])
        if k == 'bitreverse':
            return concat(*[extract(v[0], i, i) for i in range(n)])
        if k in ('fshl', 'fshr'):
            w = const(n, n)
            s = urem(v[2], w)
            if isc(s):
                x = s.val
                if k == 'fshl':
                    return v[0] if x == 0 else bvor(shl(v[0], s), lshr(v[1], const(n - x, n)))
                return v[1] if x == 0 else bvor(shl(v[0], const(n - x, n)), lshr(v[1], s))
            z = eq(s, const(0, n))
            r = sub(w, s)
            if k == 'fshl':
                return ite(z, v[0], bvor(shl(v[0], s), lshr(v[1], r)))
            return ite(z, v[1], bvor(shl(v[0], r), lshr(v[1], s)))
        if k == 'ctpop':
            r = const(0, n)
            for i in range(n):
                r = add(r, zext(extract(v[0], i, i), n))
            return r
        if k in ('ctlz', 'cttz'):
            r = const(n, n)
            rng = range(n) if k == 'ctlz' else reversed(range(n))
            for i in rng:
                pos = n - 1 - i if k == 'ctlz' else i
                r = ite(eq(extract(v[0], i, i), const(1, 1)), const(pos, n), r)
            return r
        if base.startswith(('sadd.with', 'ssub.with', 'uadd.with', 'usub.with', 'smul.with', 'umul.with')):
            sg = base[0] == 's'
            o = base[1:4]
            ext = sext if sg else zext
            w = n * 2 if o == 'mul' else n + 2
            a, b = ext(v[0], w), ext(v[1], w)
            f = {'add': add, 'sub': sub, 'mul': mul}[o]
            full = f(a, b)
            res = f(v[0], v[1])
            return (res, bnot(eq(ext(res, w), full)))
        if base.startswith(('uadd.sat', 'usub.sat')):
            if base[1] == 'a':
                r = add(v[0], v[1])
                return ite(ult(r, v[0]), const(-1, n), r)
            return ite(ult(v[0], v[1]), const(0, n), sub(v[0], v[1]))
        if k == 'fmuladd':
            return fbin('fadd', fbin('fmul', v[0], v[1]), v[2])
        if k == 'minnum':
            return self.math(st, 'fmin', v)
        if k == 'maxnum':
            return self.math(st, 'fmax', v)
        if k == 'is' and base.startswith('is.fpclass'):
            return self.fpclass(v[0], v[1].val)
        if k in ('fptosi', 'fptoui') and base.startswith(k + '.sat'):
            return self.x86_toint(k, v[0], int(base.split('.')[2][1:]))
        if k == 'powi':
            return uf('powi', v, n)
        if not isinstance(n, int):
            return self.math(st, k, v)
        return None

    def x86_toint(self, k, x, n):
        """conversion to an integer, with what x86 does to unrepresentable values (undefined in C++)"""
        c = lambda e, sign=0: fp_const((-1.0 if sign else 1.0) * 2.0 ** e, x.sort)
        if n < 32:
            return trunc(self.x86_toint('fptosi', x, 32), n)
        if k == 'fptosi':
            return ite(bvand(fle(c(n - 1, 1), x), flt(x, c(n - 1))), mk('fptosi', (x,), n), const(1 << (n - 1), n))
        ok = bvand(flt(fp_const(-1.0, x.sort), x), flt(x, c(n)))
        if n == 32:
            other = trunc(self.x86_toint('fptosi', x, 64), 32)
        else:
            other = ite(flt(x, c(n - 1)), self.x86_toint('fptosi', x, 64), const(0, n))
        return ite(ok, mk('fptoui', (x,), n), other)

    def fpclass(self, x, m):
        s = x.sort
        w = FPBITS[s]
        if s == 'f80':
            raise Unsupported('fpclass f80')
        r = TT.FALSE
        nan = fisnan(x)
        if m & 3:
            r = bvor(r, nan)
        b = fbits(x)
        sign = eq(extract(b, w - 1, w - 1), const(1, 1))
        eb = 8 if s == 'f32' else 11
        mb = w - 1 - eb
        e = extract(b, w - 2, mb)
        man = extract(b, mb - 1, 0)
        inf = bvand(eq(e, const(-1, eb)), eq(man, const(0, mb)))
        zero = bvand(eq(e, const(0, eb)), eq(man, const(0, mb)))
        sub_ = bvand(eq(e, const(0, eb)), bnot(eq(man, const(0, mb))))
        nrm = bvand(bnot(eq(e, const(0, eb))), bnot(eq(e, const(-1, eb))))
        for bit, cl, sg in ((2, inf, 1), (3, nrm, 1), (4, sub_, 1), (5, zero, 1), (6, zero, 0), (7, sub_, 0),
                            (8, nrm, 0), (9, inf, 0)):
            if m & (1 << bit):
                r = bvor(r, bvand(cl, sign if sg else bnot(sign)))
        return r

    # ------------------------------------------------------------ harness API
    IN = {'vf_bool': 1, 'vf_u8': 8, 'vf_u16': 16, 'vf_u32': 32, 'vf_u64': 64, 'vf_f32': 'f32', 'vf_f64': 'f64',
          'vf_f80': 'f80'}

    def vf(self, st, ins, nm, v):
        if nm in self.IN:
            sort = self.IN[nm]
            name = self.strat(v[0], st)
            k = st.cnt.get(name, 0)
            st.cnt[name] = k + 1
            full = f'{name}#{k}' if k else name
            if full not in self.innames:
                t = var('in.' + full, sort)
                self.innames[full] = t
                self.inputs.append((full, sort, t))
            st.env[ins.dest] = self.innames[full]
            return st, []
        if nm == 'vf_assert':
            msg = self.strat(v[1], st)
            self.obl.append(Obligation('assert', st.pc, v[0], msg))
            self.obs.append((st.pc, v[0], msg))
            st.pc = bvand(st.pc, v[0]) if False else st.pc
            return st, []
        if nm == 'vf_assume':
            st.pc = bvand(st.pc, v[0])
            self.assumes += 1
            if self.dead(st):
                return None, []
            return st, []
        if nm in ('vf_same_f32', 'vf_same_f64', 'vf_same_f80'):
            self.obs.append((st.pc, v[0], 'same.a'))
            self.obs.append((st.pc, v[1], 'same.b'))
            st.env[ins.dest] = fsame(v[0], v[1])
            return st, []
        if nm == 'vf_same_u64':
            self.obs.append((st.pc, v[0], 'same.a'))
            self.obs.append((st.pc, v[1], 'same.b'))
            st.env[ins.dest] = isame(v[0], v[1])
            return st, []
        if nm in ('vf_near_f32', 'vf_near_f64'):
            self.obs.append((st.pc, v[0], 'near.a'))
            self.obs.append((st.pc, v[1], 'near.b'))
            msg = self.strat(v[2], st)
            self.obl.append(Obligation('near', st.pc, fsame(v[0], v[1]), msg, (v[0], v[1])))
            return st, []
        if nm == 'vf_expect_abort':
            st.expect = v[0]
            return st, []
        if nm == 'vf_expect_end':
            self.obl.append(Obligation('noabort', st.pc, bnot(st.expect), 'expected assertion failure did not happen: ' + self.strat(v[0], st)))
            st.pc = bvand(st.pc, bnot(st.expect))
            st.expect = TT.FALSE
            if self.dead(st):
                return None, []
            return st, []
        if nm == 'vf_cover':
            self.covers.append((st.pc, self.strat(v[0], st)))
            return st, []
        if nm == 'vf_obs_u64':
            self.obs.append((st.pc, v[0], 'obs'))
            return st, []
        if nm == 'vf_addr':
            # opaque value barrier: identity on integers
            st.env[ins.dest] = v[0]
            return st, []
        raise Unsupported(nm)

    def run_harness(self, name):
        st = State()
        st.pc, st.mem, st.env, st.expect = TT.TRUE, {}, {}, TT.FALSE
        st.visits, st.exc, st.cnt = {}, None, {}
        out, rv, excs = self.call_func('@' + name, [], st)
        for e in excs:
            self.obl.append(Obligation('throw', e.pc, e.expect, f'uncaught exception {e.exc[0] if e.exc else ""}'))
        self.reach_end = out.pc if out is not None else TT.FALSE
        if out is not None and not (isc(out.expect) and out.expect.val == 0):
            self.obl.append(Obligation('noabort', out.pc, bnot(out.expect),
                                       'expected assertion failure did not happen'))
        return self
