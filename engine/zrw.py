"""Exact rewrites of floating-point arithmetic with constant operands (products with 0 and 1, sums with a
zero); applied before a query is lowered to uninterpreted or IEEE arithmetic, never to the reals."""
from terms import *
import terms as TT

_cache = {}
NEG = {'f32': 1 << 31, 'f64': 1 << 63}
ONE = {'f32': 0x3f800000, 'f64': 0x3ff0000000000000}
INF = {'f32': 0x7f800000, 'f64': 0x7ff0000000000000}
NAN = {'f32': 0x7fc00000, 'f64': 0x7ff8000000000000}


def leaves(t, depth=3):
    """leaves of an ite tree of zeros and NaNs, or None"""
    if isc(t):
        return t.val in (0, NEG[t.sort], NAN[t.sort])
    return bool(depth) and t.op == 'ite' and leaves(t.args[1], depth - 1) and leaves(t.args[2], depth - 1)


def nonfinite(x):
    return lor(fisnan(x), feq(fabs_(x), const(INF[x.sort], x.sort)))


def signbit(x):
    return extract(fbits(x), FPBITS[x.sort] - 1, FPBITS[x.sort] - 1)


def mul0(x, c):
    s = x.sort
    if isc(x):
        v = fconst_value(x)
        if v is None or v in (float('inf'), float('-inf')):
            return const(NAN[s], s)
        return const((x.val ^ c.val) & NEG[s], s)
    neg_ = signbit(x)
    z = ite(neg_, const(NEG[s] ^ c.val, s), const(c.val, s))
    return ite(nonfinite(x), const(NAN[s], s), z)


def plus(x, z):
    """x + z, z a tree of zeros and NaNs"""
    s = x.sort
    if z.op == 'ite':
        return ite(z.args[0], plus(x, z.args[1]), plus(x, z.args[2]))
    if z.val == NAN[s]:
        return z
    if z.val == NEG[s]:
        return x
    if isc(x):
        return const(0, s) if x.val == NEG[s] else x
    if leaves(x):
        return plus_ite(x, z)
    return ite(feq(x, const(0, s)), const(0, s), x)


def plus_ite(x, z):
    return ite(x.args[0], plus(x.args[1], z), plus(x.args[2], z)) if x.op == 'ite' else plus(x, z)


def negz(z):
    if z.op == 'ite':
        return ite(z.args[0], negz(z.args[1]), negz(z.args[2]))
    return z if z.val == NAN[z.sort] else const(z.val ^ NEG[z.sort], z.sort)


def isfp(t):
    return t.sort in NEG


def step(op, args, sort, val):
    if sort in NEG and op in ('fmul', 'fadd', 'fsub', 'fdiv'):
        a, b = args
        if isc(a) and isc(b):
            import evalc
            import numpy as np
            with np.errstate(all='ignore'):
                x, y = evalc.frombits(a.val, sort), evalc.frombits(b.val, sort)
                r = x * y if op == 'fmul' else x + y if op == 'fadd' else x - y if op == 'fsub' else x / y
            return const(NAN[sort] if r != r else evalc.tobits(r, sort), sort)
        if op == 'fmul':
            if isc(a):
                a, b = b, a
            if isc(b) and b.val in (0, NEG[sort]):
                return mul0(a, b)
            if isc(b) and b.val == ONE[sort]:
                return a
        elif op == 'fdiv':
            if isc(b) and b.val == ONE[sort]:
                return a
        elif op == 'fadd':
            if leaves(b):
                return plus(a, b)
            if leaves(a):
                return plus(b, a)
        elif op == 'fsub':
            if leaves(b):
                return plus(a, negz(b))
    if op in ('fadd', 'fmul'):
        return fbin(op, *args)
    if op == 'and':
        return bvand(*args)
    if op == 'or':
        return bvor(*args)
    if op == 'not':
        return bnot(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'fneg':
        return fneg(*args)
    if op == 'fabs':
        return fabs_(*args)
    if op in ('feq', 'flt', 'fle'):
        return TT._fc(op, *args)
    if op == 'fisnan':
        return fisnan(*args)
    if op == 'fsame':
        return fsame(*args)
    if op == 'fbits':
        return fbits(*args)
    return mk(op, args, sort, val)


def zrw(t):
    for x in subterms([t]):
        if x.id in _cache:
            continue
        if not x.args:
            _cache[x.id] = x
            continue
        args = tuple(_cache[a.id] for a in x.args)
        if all(p is q for p, q in zip(args, x.args)) and not (x.op in ('fmul', 'fadd', 'fsub', 'fdiv') and x.sort in NEG):
            _cache[x.id] = x
        else:
            _cache[x.id] = step(x.op, args, x.sort, x.val)
    return _cache[t.id]
