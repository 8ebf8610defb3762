"""Hash-consed term DAG used by the symbolic executor.

Sorts: an int n is the bit-vector sort of width n (width 1 doubles as Bool);
'f32' / 'f64' / 'f80' are the IEEE (x87 extended for f80) floating point sorts.
Constants of FP sort are stored as their bit pattern.
Smart constructors only apply rewrites that are valid for every value.
"""
import struct

FPBITS = {'f32': 32, 'f64': 64, 'f80': 80}


class Term:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', 'tz', '__weakref__')

    def __repr__(self):
        return show(self, 4)


_table = {}
_next = [0]


def mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        t.id = _next[0]
        _next[0] += 1
        t.tz = None
        _table[key] = t
    return t


def reset():
    _table.clear()
    _next[0] = 0
    global TRUE, FALSE
    TRUE = const(1, 1)
    FALSE = const(0, 1)


def show(t, depth=6):
    if t.op == 'const':
        return f'{t.val:#x}:{t.sort}' if not isinstance(t.sort, int) or t.sort > 1 else ('T' if t.val else 'F')
    if t.op == 'var':
        return t.val
    if depth == 0:
        return '..'
    v = '' if t.val is None else f'[{t.val}]'
    return f'({t.op}{v} ' + ' '.join(show(a, depth - 1) for a in t.args) + ')'


def const(v, sort):
    n = sort if isinstance(sort, int) else FPBITS[sort]
    return mk('const', (), sort, v & ((1 << n) - 1))


TRUE = const(1, 1)
FALSE = const(0, 1)


def var(name, sort):
    return mk('var', (), sort, name)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var(f'{prefix}!{_fresh[0]}', sort)


def isc(t):
    return t.op == 'const'


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def mask(n):
    return (1 << n) - 1


# ---------------------------------------------------------------- bit-vectors
def add(a, b):
    n = a.sort
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return const(a.val + b.val, n)
        if b.val == 0:
            return a
        if a.op == 'add' and isc(a.args[1]):
            return add(a.args[0], const(a.args[1].val + b.val, n))
        if a.op == 'ite' and pushable(a):
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
        return mk('add', (a, b), n)
    # float constants outwards
    if a.op == 'add' and isc(a.args[1]):
        return add(add(a.args[0], b), a.args[1])
    if b.op == 'add' and isc(b.args[1]):
        return add(add(a, b.args[0]), b.args[1])
    if a.id > b.id:
        a, b = b, a
    return mk('add', (a, b), n)


def pushable(t, depth=8):
    """an ite-tree whose leaves are constants (used for pointers)"""
    if isc(t):
        return True
    if depth and t.op == 'ite':
        return pushable(t.args[1], depth - 1) and pushable(t.args[2], depth - 1)
    if depth and t.op == 'add' and isc(t.args[1]) and t.sort == 64:
        return True
    return False


def fewconst(t, depth):
    return isc(t) or depth and t.op == 'ite' and fewconst(t.args[1], depth - 1) and fewconst(t.args[2], depth - 1)


def neg(a):
    return sub(const(0, a.sort), a)


def sub(a, b):
    n = a.sort
    if isc(b):
        return add(a, const(-b.val, n))
    if a is b:
        return const(0, n)
    # (x + c) - x
    if a.op == 'add' and isc(a.args[1]) and a.args[0] is b:
        return a.args[1]
    if a.op == 'add' and isc(a.args[1]):
        return add(sub(a.args[0], b), a.args[1])
    if b.op == 'add' and isc(b.args[1]):
        return add(sub(a, b.args[0]), const(-b.args[1].val, n))
    return mk('sub', (a, b), n)


def mul(a, b):
    n = a.sort
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return const(a.val * b.val, n)
        if b.val == 0:
            return b
        if b.val == 1:
            return a
        if b.val == mask(n):
            return neg(a)
        if a.op == 'ite' and pushable(a):
            return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
        return mk('mul', (a, b), n)
    # a product with a choice of a few constants is a choice of products
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and fewconst(x, 3):
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), n)


def udiv(a, b):
    if isc(a) and isc(b) and b.val:
        return const(a.val // b.val, a.sort)
    if isc(b) and b.val == 1:
        return a
    return mk('udiv', (a, b), a.sort)


def urem(a, b):
    if isc(a) and isc(b) and b.val:
        return const(a.val % b.val, a.sort)
    return mk('urem', (a, b), a.sort)


def sdiv(a, b):
    n = a.sort
    if isc(a) and isc(b) and b.val:
        x, y = sgn(a.val, n), sgn(b.val, n)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, n)
    if isc(b) and b.val == 1:
        return a
    return mk('sdiv', (a, b), n)


def srem(a, b):
    n = a.sort
    if isc(a) and isc(b) and b.val:
        x, y = sgn(a.val, n), sgn(b.val, n)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, n)
    return mk('srem', (a, b), n)


def shl(a, b):
    n = a.sort
    if isc(b):
        if b.val == 0:
            return a
        if b.val >= n:
            return const(0, n)
        if isc(a):
            return const(a.val << b.val, n)
        # canonical: concat(low part, zeros)
        return concat(extract(a, n - 1 - b.val, 0), const(0, b.val))
    return mk('shl', (a, b), n)


def lshr(a, b):
    n = a.sort
    if isc(b):
        if b.val == 0:
            return a
        if b.val >= n:
            return const(0, n)
        if isc(a):
            return const(a.val >> b.val, n)
        return zext(extract(a, n - 1, b.val), n)
    return mk('lshr', (a, b), n)


def ashr(a, b):
    n = a.sort
    if isc(b):
        if b.val == 0:
            return a
        k = min(b.val, n - 1)
        if isc(a):
            return const(sgn(a.val, n) >> k, n)
        return sext(extract(a, n - 1, k), n)
    return mk('ashr', (a, b), n)


def parts(t):
    """list of (hi..lo) pieces of a concat, most significant first"""
    if t.op == 'concat':
        return list(t.args)
    return [t]


def concat(*ts):
    out = []
    for t in ts:
        out.extend(parts(t))
    res = []
    for t in out:
        if res and isc(res[-1]) and isc(t):
            p = res.pop()
            res.append(const((p.val << t.sort) | t.val, p.sort + t.sort))
        elif (res and res[-1].op == 'extract' and t.op == 'extract' and res[-1].args[0] is t.args[0]
              and res[-1].val[1] == t.val[0] + 1):
            p = res.pop()
            res.append(extract(t.args[0], p.val[0], t.val[1]))
        elif res and res[-1].op == 'ite' and t.op == 'ite' and res[-1].args[0] is t.args[0]:
            p = res.pop()          # pieces of one value merged at a join
            res.append(ite(t.args[0], concat(p.args[1], t.args[1]), concat(p.args[2], t.args[2])))
        else:
            res.append(t)
    if len(res) == 1:
        return res[0]
    return mk('concat', tuple(res), sum(t.sort for t in res))


def extract(t, hi, lo):
    n = hi - lo + 1
    if n == t.sort:
        return t
    if isc(t):
        return const(t.val >> lo, n)
    if t.op == 'extract':
        b = t.val[1]
        return extract(t.args[0], hi + b, lo + b)
    if t.op == 'concat':
        pos = 0
        sel = []
        for p in reversed(t.args):
            plo, phi = pos, pos + p.sort - 1
            a, b = max(lo, plo), min(hi, phi)
            if a <= b:
                sel.append(extract(p, b - plo, a - plo))
            pos += p.sort
        return concat(*reversed(sel)) if len(sel) > 1 else sel[0]
    if t.op == 'sext' and hi < t.args[0].sort:
        return extract(t.args[0], hi, lo)
    if t.op == 'ite' and (isc(t.args[1]) or isc(t.args[2])):
        return ite(t.args[0], extract(t.args[1], hi, lo), extract(t.args[2], hi, lo))
    if t.op == 'ite' and t.args[1].op in ('concat',) and t.args[2].op in ('concat',):
        return ite(t.args[0], extract(t.args[1], hi, lo), extract(t.args[2], hi, lo))
    if lo == 0 and t.op in ('add', 'mul', 'sub', 'and', 'or', 'xor') and t.sort > n:
        f = {'add': add, 'mul': mul, 'sub': sub, 'and': bvand, 'or': bvor, 'xor': bvxor}[t.op]
        return f(extract(t.args[0], hi, 0), extract(t.args[1], hi, 0))
    if lo > 0 and t.op in ('and', 'or', 'xor') and t.sort > n:
        f = {'and': bvand, 'or': bvor, 'xor': bvxor}[t.op]
        return f(extract(t.args[0], hi, lo), extract(t.args[1], hi, lo))
    if lo > 0 and t.op in ('mul', 'add', 'sub'):
        x, y = t.args
        k = min(lo, trailing_zeros(x if t.op == 'mul' else y))
        if not k and t.op != 'sub':
            x, y = y, x
            k = min(lo, trailing_zeros(x if t.op == 'mul' else y))
        w = t.sort
        if k and t.op == 'mul':
            return extract(mul(extract(x, w - 1, k), extract(y, w - 1 - k, 0)), hi - k, lo - k)
        if k:
            f = add if t.op == 'add' else sub
            return extract(f(extract(x, w - 1, k), extract(y, w - 1, k)), hi - k, lo - k)
    return mk('extract', (t,), n, (hi, lo))


def trailing_zeros(t):
    if isc(t):
        return t.sort if t.val == 0 else (t.val & -t.val).bit_length() - 1
    if t.op == 'concat':
        k = 0
        for p in reversed(t.args):
            z = trailing_zeros(p)
            k += z
            if z < p.sort:
                break
        return k
    return 0


def zext(t, n):
    if n == t.sort:
        return t
    if isc(t):
        return const(t.val, n)
    return concat(const(0, n - t.sort), t)


def sext(t, n):
    if n == t.sort:
        return t
    if isc(t):
        return const(sgn(t.val, t.sort), n)
    if t.op == 'sext':
        return sext(t.args[0], n)
    if t.op == 'concat' and isc(t.args[0]) and (t.args[0].val >> (t.args[0].sort - 1)) == 0:
        return zext(t, n)
    if t.op == 'ite' and fewconst(t, 3):
        return ite(t.args[0], sext(t.args[1], n), sext(t.args[2], n))
    return mk('sext', (t,), n)


def trunc(t, n):
    return extract(t, n - 1, 0)


def _bitop_concat(op, a, b):
    """split a bitwise op over concat boundaries when one side has constant pieces"""
    if a.op != 'concat' and b.op != 'concat':
        return None
    cuts = set()
    for t in (a, b):
        pos = 0
        for p in reversed(parts(t)):
            pos += p.sort
            cuts.add(pos)
    cuts = sorted(cuts)
    if len(cuts) == 1:
        return None
    lo = 0
    out = []
    good = False
    for c in cuts:
        x, y = extract(a, c - 1, lo), extract(b, c - 1, lo)
        if isc(x) or isc(y):
            good = True
        out.append((x, y))
        lo = c
    if not good:
        return None
    return concat(*[op(x, y) for x, y in reversed(out)])


def _split_const(op, a, b):
    """and/or/xor of a non-concat with a constant mask: split at runs of the mask"""
    m = b.val
    n = b.sort
    runs = []
    i = 0
    while i < n:
        bit = (m >> i) & 1
        j = i
        while j < n and (m >> j) & 1 == bit:
            j += 1
        runs.append((j - 1, i))
        i = j
    if len(runs) > 4:
        return None
    return concat(*[op(extract(a, hi, lo), const(m >> lo, hi - lo + 1)) for hi, lo in reversed(runs)])


def bvand(a, b):
    n = a.sort
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return const(a.val & b.val, n)
        if b.val == 0:
            return b
        if b.val == mask(n):
            return a
    if a is b:
        return a
    if n == 1:
        if notof(a) is b:
            return FALSE
    r = _bitop_concat(bvand, a, b)
    if r is not None:
        return r
    if isc(b):
        r = _split_const(bvand, a, b)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), n)


def bvor(a, b):
    n = a.sort
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return const(a.val | b.val, n)
        if b.val == 0:
            return a
        if b.val == mask(n):
            return b
    if a is b:
        return a
    if n == 1:
        if notof(a) is b:
            return TRUE
    r = _bitop_concat(bvor, a, b)
    if r is not None:
        return r
    if isc(b):
        r = _split_const(bvor, a, b)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('or', (a, b), n)


def heavy(t):
    return t.op == 'mul' and t.sort == 64 and isc(t.args[1]) and bin(t.args[1].val).count('1') > 8


def bvxor(a, b):
    n = a.sort
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return const(a.val ^ b.val, n)
        if b.val == 0:
            return a
        if b.val == mask(n):
            return bnot(a)
    if a is b:
        return const(0, n)
    if n == 64:
        for x, y in ((a, b), (b, a)):
            # x ^ (x >> k), as used for mixing hashes, is kept as one invertible operation
            if y.op == 'concat' and isc(y.args[0]) and y.args[0].val == 0 and y.args[0].sort >= 8 and \
                    lshr(x, const(y.args[0].sort, 64)) is y and x.op != 'concat':
                return mk('xsr', (x,), n, y.args[0].sort)
    r = _bitop_concat(bvxor, a, b)
    if r is not None:
        return r
    if a.id > b.id:
        a, b = b, a
    return mk('xor', (a, b), n)


def notof(a):
    return a.args[0] if a.op == 'not' else None


def bnot(a):
    if isc(a):
        return const(~a.val, a.sort)
    if a.op == 'not':
        return a.args[0]
    if a.sort == 1 and a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], bnot(a.args[1]), bnot(a.args[2]))
    return mk('not', (a,), a.sort)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == b.op and a.sort == 64:
        # equal images under an invertible operation
        if a.op == 'xsr' and a.val == b.val:
            return eq(a.args[0], b.args[0])
        if a.op == 'mul' and a.args[1] is b.args[1] and heavy(a) and a.args[1].val & 1:
            return eq(a.args[0], b.args[0])
        if a.op == 'add':
            for i in (0, 1):
                for j in (0, 1):
                    if a.args[i] is b.args[j]:
                        return eq(a.args[1 - i], b.args[1 - j])
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return TRUE if a.val == b.val else FALSE
        if a.sort == 1:
            return a if b.val else bnot(a)
        if a.op == 'add' and isc(a.args[1]):
            return eq(a.args[0], const(b.val - a.args[1].val, a.sort))
        if a.op == 'concat':
            lo = 0
            r = TRUE
            for p in reversed(a.args):
                r = bvand(r, eq(p, const(b.val >> lo, p.sort)))
                lo += p.sort
            return r
        if a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 1)


def _ite_cmp(f, a, b):
    if isc(b) and a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if isc(a) and b.op == 'ite' and isc(b.args[1]) and isc(b.args[2]):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None


def ult(a, b):
    if isc(a) and isc(b):
        return TRUE if a.val < b.val else FALSE
    if a is b or (isc(b) and b.val == 0):
        return FALSE
    r = _ite_cmp(ult, a, b)
    if r is not None:
        return r
    return mk('ult', (a, b), 1)


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    if isc(a) and isc(b):
        return TRUE if sgn(a.val, a.sort) < sgn(b.val, b.sort) else FALSE
    if a is b:
        return FALSE
    r = _ite_cmp(slt, a, b)
    if r is not None:
        return r
    return mk('slt', (a, b), 1)


def sle(a, b):
    return bnot(slt(b, a))


def ite(c, a, b):
    if isc(c):
        return a if c.val else b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == 1:
        if isc(a) and isc(b):
            return c if a.val else bnot(c)
        if isc(a):
            return bvor(c, b) if a.val else bvand(bnot(c), b)
        if isc(b):
            return bvor(bnot(c), a) if b.val else bvand(c, a)
    return mk('ite', (c, a, b), a.sort)


def land(*ts):
    r = TRUE
    for t in ts:
        r = bvand(r, t)
    return r


def lor(*ts):
    r = FALSE
    for t in ts:
        r = bvor(r, t)
    return r


def implies(a, b):
    return bvor(bnot(a), b)


def trailing_zeros(t):
    """a lower bound on the number of trailing zero bits"""
    if t.tz is not None:
        return t.tz
    if isc(t):
        r = t.sort if t.val == 0 else (t.val & -t.val).bit_length() - 1
    elif t.op == 'concat':
        r = 0
        for p in reversed(t.args):
            z = trailing_zeros(p)
            r += z
            if z < p.sort:
                break
    elif t.op in ('add', 'sub', 'or', 'xor'):
        r = min(trailing_zeros(x) for x in t.args)
    elif t.op == 'and':
        r = max(trailing_zeros(x) for x in t.args)
    elif t.op == 'mul':
        r = min(t.sort, sum(trailing_zeros(x) for x in t.args))
    elif t.op == 'ite':
        r = min(trailing_zeros(t.args[1]), trailing_zeros(t.args[2]))
    elif t.op == 'sext':
        r = trailing_zeros(t.args[0])
    else:
        r = 0
    t.tz = r
    return r


# ---------------------------------------------------------------- floating point
def fbits(a):
    """IEEE bit pattern of an FP term"""
    if a.op == 'bitsf':
        return a.args[0]
    n = FPBITS[a.sort]
    if isc(a):
        return const(a.val, n)
    if a.op == 'fneg':
        b = fbits(a.args[0])
        return concat(bnot(extract(b, n - 1, n - 1)), extract(b, n - 2, 0))
    if a.op == 'fabs':
        b = fbits(a.args[0])
        return concat(const(0, 1), extract(b, n - 2, 0))
    if a.op == 'ite':
        return ite(a.args[0], fbits(a.args[1]), fbits(a.args[2]))
    return mk('fbits', (a,), n)


def bitsf(b, sort):
    if isc(b):
        return const(b.val, sort)
    if b.op == 'fbits' and b.args[0].sort == sort:
        return b.args[0]
    if b.op == 'ite':
        return ite(b.args[0], bitsf(b.args[1], sort), bitsf(b.args[2], sort))
    if b.op == 'concat' and len(b.args) == 2 and b.args[1].sort == FPBITS[sort] - 1:
        s, r = b.args
        if r.op == 'extract' and r.val == (FPBITS[sort] - 2, 0) and r.args[0].op == 'fbits':
            x = r.args[0].args[0]
            if isc(s):
                return fneg(fabs_(x)) if s.val else fabs_(x)
    return mk('bitsf', (b,), sort)


def fneg(a):
    if isc(a):
        return const(a.val ^ (1 << (FPBITS[a.sort] - 1)), a.sort)
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', (a,), a.sort)


def fabs_(a):
    if isc(a):
        return const(a.val & ~(1 << (FPBITS[a.sort] - 1)), a.sort)
    if a.op in ('fneg', 'fabs'):
        return fabs_(a.args[0])
    return mk('fabs', (a,), a.sort)


def fbin(op, a, b):
    if op in ('fadd', 'fmul') and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), a.sort)


def fma_(a, b, c):
    if a.id > b.id:
        a, b = b, a
    return mk('fma', (a, b, c), a.sort)


def fun(op, a, val=None, sort=None):
    return mk(op, (a,), sort or a.sort, val)


def uf(name, args, sort):
    return mk('uf', tuple(args), sort, name)


def fcvt(a, sort):
    if a.sort == sort:
        return a
    # widening then narrowing back is the identity (up to NaN payload)
    if a.op == 'fcvt' and a.args[0].sort == sort and FPBITS[sort] < FPBITS[a.sort]:
        return a.args[0]
    if isc(a):
        v = fconst_value(a)
        if v is not None and sort in ('f32', 'f64'):
            try:
                return fp_const(v, sort)
            except OverflowError:
                pass
    return mk('fcvt', (a,), sort)


def fp_const(v, sort):
    if sort == 'f32':
        return const(struct.unpack('<I', struct.pack('<f', v))[0], 'f32')
    return const(struct.unpack('<Q', struct.pack('<d', v))[0], 'f64')


def fconst_value(a):
    if a.sort == 'f32':
        v = struct.unpack('<f', struct.pack('<I', a.val))[0]
    elif a.sort == 'f64':
        v = struct.unpack('<d', struct.pack('<Q', a.val))[0]
    else:
        return None
    if v != v:
        return None
    return v


def fisnan(a):
    if isc(a) and a.sort in ('f32', 'f64'):
        return TRUE if fconst_value(a) is None else FALSE
    if a.op in ('fneg', 'fabs'):
        return fisnan(a.args[0])
    if a.op == 'ite':
        return ite(a.args[0], fisnan(a.args[1]), fisnan(a.args[2]))
    return mk('fisnan', (a,), 1)


def _fc(op, a, b):
    if isc(a) and isc(b) and a.sort in ('f32', 'f64'):
        x, y = fconst_value(a), fconst_value(b)
        if x is None or y is None:
            return FALSE
        return TRUE if {'feq': x == y, 'flt': x < y, 'fle': x <= y}[op] else FALSE
    if op == 'feq' and a.id > b.id:
        a, b = b, a
    if a is b:
        return FALSE if op == 'flt' else bnot(fisnan(a))
    return mk(op, (a, b), 1)


def feq(a, b):
    return _fc('feq', a, b)


def flt(a, b):
    return _fc('flt', a, b)


def fle(a, b):
    return _fc('fle', a, b)


def fsame(a, b):
    """same value: identical except that all NaNs are identified"""
    # fsame(a, a) is deliberately not folded: the solver gives the verdict
    if isc(a) and isc(b) and a.sort in ('f32', 'f64'):
        x, y = fconst_value(a), fconst_value(b)
        if x is None or y is None:
            return TRUE if x is y else FALSE
        return TRUE if a.val == b.val else FALSE
    if a.op == 'fneg' and b.op == 'fneg':
        return fsame(a.args[0], b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk('fsame', (a, b), 1)


def isame(a, b):
    """integer equality asserted by a harness; not folded when a is b"""
    if isc(a) and isc(b):
        return TRUE if a.val == b.val else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 1)


def fund(a, b):
    return bvor(fisnan(a), fisnan(b))


def fcmp(pred, a, b):
    o = lambda t: bvand(bnot(fund(a, b)), t)
    if pred == 'oeq':
        return feq(a, b)
    if pred == 'ogt':
        return flt(b, a)
    if pred == 'oge':
        return fle(b, a)
    if pred == 'olt':
        return flt(a, b)
    if pred == 'ole':
        return fle(a, b)
    if pred == 'one':
        return o(bnot(feq(a, b)))
    if pred == 'ord':
        return bnot(fund(a, b))
    if pred == 'uno':
        return fund(a, b)
    if pred == 'ueq':
        return bvor(fund(a, b), feq(a, b))
    if pred == 'ugt':
        return bnot(fle(a, b))
    if pred == 'uge':
        return bnot(flt(a, b))
    if pred == 'ult':
        return bnot(fle(b, a))
    if pred == 'ule':
        return bnot(flt(b, a))
    if pred == 'une':
        return bnot(feq(a, b))
    if pred == 'true':
        return TRUE
    return FALSE


def subterms(roots):
    """post-order list of all subterms"""
    seen = set()
    out = []
    for r in roots:
        if r.id in seen:
            continue
        stack = [(r, 0)]
        while stack:
            t, i = stack.pop()
            if i == 0:
                if t.id in seen:
                    continue
                seen.add(t.id)
            if i < len(t.args):
                stack.append((t, i + 1))
                if t.args[i].id not in seen:
                    stack.append((t.args[i], 0))
            else:
                out.append(t)
    return out
