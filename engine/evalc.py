"""Concrete evaluation of the term DAG (used to validate the encoding against native runs)."""
import ctypes
import math
import struct
import numpy as np
from terms import *

libm = ctypes.CDLL('libm.so.6')
NP = {'f32': np.float32, 'f64': np.float64, 'f80': np.longdouble}
CT = {'f32': ctypes.c_float, 'f64': ctypes.c_double, 'f80': ctypes.c_longdouble}
SUF = {'f32': 'f', 'f64': '', 'f80': 'l'}


class CannotEval(Exception):
    pass


def frombits(b, s):
    if s == 'f32':
        return np.frombuffer(struct.pack('<I', b), dtype=np.float32)[0]
    if s == 'f64':
        return np.frombuffer(struct.pack('<Q', b), dtype=np.float64)[0]
    return np.frombuffer(b.to_bytes(16, 'little'), dtype=np.longdouble)[0]


def tobits(v, s):
    if s == 'f32':
        return struct.unpack('<I', np.float32(v).tobytes())[0]
    if s == 'f64':
        return struct.unpack('<Q', np.float64(v).tobytes())[0]
    return int.from_bytes(np.longdouble(v).tobytes()[:10], 'little')


def cfun(name, s, n):
    f = getattr(libm, name + SUF[s])
    f.restype = CT[s]
    f.argtypes = [CT[s]] * n
    return f


class Eval:
    """values: bit-vectors as non-negative ints, FP as numpy scalars"""

    def __init__(self, env):
        self.env = env
        self.cache = {}

    def __call__(self, root):
        c = self.cache
        if root.id in c:
            return c[root.id]
        with np.errstate(all='ignore'):
            for t in subterms([root]):
                if t.id not in c:
                    c[t.id] = self.one(t, [c[a.id] for a in t.args])
        return c[root.id]

    def one(self, t, a):
        op, s = t.op, t.sort
        if op == 'const':
            return t.val if isinstance(s, int) else frombits(t.val, s)
        if op == 'var':
            b = self.env.get(t.val, 0)
            return b if isinstance(s, int) else frombits(b, s)
        if op == 'ite':
            return a[1] if a[0] else a[2]
        if op == 'eq':
            return int(a[0] == a[1])
        n = s
        if isinstance(s, int) and not op.startswith('f') and op not in ('uf',):
            m = mask(n)
            w = t.args[0].sort
            if op == 'add':
                return (a[0] + a[1]) & m
            if op == 'sub':
                return (a[0] - a[1]) & m
            if op == 'mul':
                return (a[0] * a[1]) & m
            if op == 'udiv':
                return a[0] // a[1] if a[1] else m
            if op == 'urem':
                return a[0] % a[1] if a[1] else a[0]
            if op in ('sdiv', 'srem'):
                x, y = sgn(a[0], n), sgn(a[1], n)
                if y == 0:
                    raise CannotEval('div0')
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                return (q if op == 'sdiv' else x - q * y) & m
            if op == 'shl':
                return (a[0] << a[1]) & m if a[1] < n else 0
            if op == 'lshr':
                return a[0] >> a[1] if a[1] < n else 0
            if op == 'ashr':
                return (sgn(a[0], n) >> min(a[1], n - 1)) & m
            if op == 'and':
                return a[0] & a[1]
            if op == 'or':
                return a[0] | a[1]
            if op == 'xsr':
                return a[0] ^ (a[0] >> t.val)
            if op == 'xor':
                return a[0] ^ a[1]
            if op == 'not':
                return ~a[0] & m
            if op == 'ult':
                return int(a[0] < a[1])
            if op == 'slt':
                return int(sgn(a[0], w) < sgn(a[1], w))
            if op == 'extract':
                return (a[0] >> t.val[1]) & mask(t.val[0] - t.val[1] + 1)
            if op == 'concat':
                r = 0
                for x, v in zip(t.args, a):
                    r = (r << x.sort) | v
                return r
            if op == 'sext':
                return sgn(a[0], w) & m
        if op == 'fbits':
            return tobits(a[0], t.args[0].sort)
        if op == 'bitsf':
            return frombits(a[0], s)
        if op == 'fneg':
            return NP[s](-a[0])
        if op == 'fabs':
            return NP[s](abs(a[0]))
        if op == 'fadd':
            return NP[s](a[0] + a[1])
        if op == 'fsub':
            return NP[s](a[0] - a[1])
        if op == 'fmul':
            return NP[s](a[0] * a[1])
        if op == 'fdiv':
            return NP[s](a[0] / a[1])
        if op == 'fsqrt':
            return NP[s](np.sqrt(a[0]))
        if op == 'fma':
            return NP[s](cfun('fma', s, 3)(*[float(x) if s != 'f80' else x for x in a]))
        if op == 'feq':
            return int(a[0] == a[1])
        if op == 'flt':
            return int(a[0] < a[1])
        if op == 'fle':
            return int(a[0] <= a[1])
        if op == 'fisnan':
            return int(a[0] != a[0])
        if op == 'fsame':
            if a[0] != a[0] or a[1] != a[1]:
                return int(a[0] != a[0] and a[1] != a[1])
            return int(a[0] == a[1] and bool(np.signbit(a[0])) == bool(np.signbit(a[1])))
        if op == 'frint':
            f = {'RTN': np.floor, 'RTP': np.ceil, 'RTZ': np.trunc, 'RNE': np.rint}.get(t.val)
            if f:
                return NP[s](f(a[0]))
            return NP[s](cfun('round', s, 1)(a[0]))
        if op == 'fcvt':
            return NP[s](a[0])
        if op == 'sitofp':
            return NP[s](sgn(a[0], t.args[0].sort))
        if op == 'uitofp':
            return NP[s](a[0])
        if op in ('fptosi', 'fptoui'):
            x = a[0]
            if x != x or abs(x) == np.inf:
                return 1 << (n - 1)
            v = int(x)
            lo, hi = (-(1 << (n - 1)), mask(n - 1)) if op == 'fptosi' else (0, mask(n))
            if v < lo or v > hi:
                return 1 << (n - 1)
            return v & mask(n)
        if op == 'uf':
            nm = t.val
            s0 = t.args[0].sort
            if nm in ('modf_frac',):
                x = a[0]
                if np.isinf(x):
                    return NP[s](math.copysign(0.0, x))
                return NP[s](np.copysign(x - np.trunc(x), x))
            if nm == 'frexp_man':
                return NP[s](np.frexp(a[0])[0])
            if nm == 'frexp_exp':
                return int(np.frexp(a[0])[1]) & mask(32)
            if nm == 'ldexp':
                return NP[s](np.ldexp(a[0], sgn(a[1], 32)))
            if isinstance(s0, int):
                raise CannotEval(nm)
            try:
                return NP[s](cfun(nm, s0, len(a))(*[float(x) if s0 != 'f80' else x for x in a]))
            except AttributeError:
                raise CannotEval(nm)
        raise CannotEval(op)
