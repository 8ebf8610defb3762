"""Lowering of the term DAG to z3, in three interpretations.

 abs      bit-vectors exact, every floating-point operation (comparisons and conversions included)
          uninterpreted; cheap first attempt, UNSAT carries over to all other modes but real.
 uf       bit-vectors, memory, comparisons, sign operations, rounding to integral and
          conversions are exact; rounding arithmetic (+ - * / sqrt fma) and libm calls are
          uninterpreted functions (commutative ones have ordered arguments).  UNSAT here is
          UNSAT in the precise interpretation too.
 precise  everything in the SMT FloatingPoint theory; libm calls stay uninterpreted.
 real     floating point terms become reals (used only for the 'near' obligations).
"""
import z3
from fractions import Fraction
from terms import *

EBSB = {'f32': (8, 24), 'f64': (11, 53), 'f80': (15, 64)}
RM = {}


ABS_OPS = {'feq', 'flt', 'fle', 'fisnan', 'frint', 'fcvt', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fneg', 'fabs'}


class RealUnsupported(Exception):
    pass


def rmode(n):
    return {'RNE': z3.RNE, 'RTN': z3.RTN, 'RTP': z3.RTP, 'RTZ': z3.RTZ, 'RNA': z3.RNA}[n]()


def polykey(z):
    """canonical text of a real term seen as a polynomial"""
    def k(x):
        c = sorted(k(y) for y in x.children()) if z3.is_add(x) or z3.is_mul(x) else None
        return x.sexpr() if c is None else f'({x.decl().name()} {" ".join(c)})'
    return k(z3.simplify(z, som=True))


class Lower:
    def __init__(self, mode):
        self.mode = mode
        self.cache = {}
        self.side = []         # side constraints
        self.sidekeys = {}     # term id -> constraints needed
        self.ufs = {}
        self.vars = {}
        self.k = 0
        self.assumed = set()

    def zsort(self, s):
        if isinstance(s, int):
            return z3.BoolSort() if s == 1 else z3.BitVecSort(s)
        if self.mode == 'real':
            return z3.RealSort()
        return z3.FPSort(*EBSB[s])

    def func(self, name, sorts, rs):
        key = (name, tuple(map(str, sorts)), str(rs))
        f = self.ufs.get(key)
        if f is None:
            nm = name + '_' + '_'.join(str(s) for s in sorts)
            f = z3.Function(nm, *[self.zsort(s) for s in sorts], self.zsort(rs))
            self.ufs[key] = f
        return f

    def side_for(self, roots):
        """side constraints relevant to the given roots"""
        out = []
        if self.sidekeys:
            for t in subterms(roots):
                out.extend(self.sidekeys.get(t.id, ()))
        return out

    def __call__(self, t):
        c = self.cache
        r = c.get(t.id)
        if r is not None:
            return r
        for x in subterms([t]):
            if x.id not in c:
                c[x.id] = self.one(x, [c[a.id] for a in x.args])
        return c[t.id]

    def bool2bv(self, t, z):
        return z3.If(z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if t.sort == 1 else z

    def fresh(self, pre, sort):
        self.k += 1
        return z3.Const(f'{pre}!{self.mode}!{self.k}', sort)

    def addside(self, t, *cs):
        self.sidekeys.setdefault(t.id, []).extend(cs)

    def one(self, t, a):
        op, s = t.op, t.sort
        if self.mode == 'real' and (not isinstance(s, int) or op in ('feq', 'flt', 'fle', 'fisnan', 'fsame', 'fptosi',
                                                                       'fptoui', 'fbits')):
            return self.real(t, a)
        if self.mode == 'abs' and op in ABS_OPS:
            return self.func(op + (str(t.val) if t.val is not None else ''), [x.sort for x in t.args], s)(*a)
        if self.mode in ('abs', 'uf') and heavy(t):
            return self.func(f'mul{t.args[1].val}', [64], 64)(a[0])
        if op == 'xsr':
            return self.func(f'xsr{t.val}', [64], 64)(a[0]) if self.mode in ('abs', 'uf') else a[0] ^ z3.LShR(a[0], t.val)
        if op == 'const':
            if s == 1:
                return z3.BoolVal(bool(t.val))
            if isinstance(s, int):
                return z3.BitVecVal(t.val, s)
            if s == 'f80':
                man = t.val & mask(64)
                e = (t.val >> 64) & 0x7fff
                sg = t.val >> 79
                if e == 0x7fff and man & mask(63):
                    return z3.fpNaN(z3.FPSort(15, 64))
                return z3.fpBVToFP(z3.BitVecVal((sg << 78) | (e << 63) | (man & mask(63)), 79), z3.FPSort(15, 64))
            eb, sb = EBSB[s]
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(t.val, eb + sb), z3.FPSort(eb, sb)))
        if op == 'var':
            if s == 1:
                v = z3.Bool(t.val)
                self.vars[t.val] = v
                return v
            if isinstance(s, int):
                v = z3.BitVec(t.val, s)
                self.vars[t.val] = v
                return v
            if s == 'f80':
                v = z3.FP(t.val, z3.FPSort(15, 64))
                self.vars[t.val] = v
                return v
            eb, sb = EBSB[s]
            v = z3.BitVec(t.val, eb + sb)
            self.vars[t.val] = v
            return z3.fpBVToFP(v, z3.FPSort(eb, sb))
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'eq':
            return a[0] == a[1]
        if isinstance(s, int) and op in ('and', 'or', 'xor', 'not') and s == 1:
            return {'and': lambda: z3.And(*a), 'or': lambda: z3.Or(*a), 'xor': lambda: z3.Xor(*a),
                    'not': lambda: z3.Not(a[0])}[op]()
        if isinstance(s, int) and op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr',
                                         'and', 'or', 'xor', 'not', 'ult', 'slt', 'extract', 'concat', 'sext'):
            a = [self.bool2bv(x, z) for x, z in zip(t.args, a)]
            if op == 'add':
                r = a[0] + a[1]
            elif op == 'sub':
                r = a[0] - a[1]
            elif op == 'mul':
                r = a[0] * a[1]
            elif op == 'udiv':
                r = z3.UDiv(a[0], a[1])
            elif op == 'sdiv':
                r = a[0] / a[1]
            elif op == 'urem':
                r = z3.URem(a[0], a[1])
            elif op == 'srem':
                r = z3.SRem(a[0], a[1])
            elif op == 'shl':
                r = a[0] << a[1]
            elif op == 'lshr':
                r = z3.LShR(a[0], a[1])
            elif op == 'ashr':
                r = a[0] >> a[1]
            elif op == 'and':
                r = a[0] & a[1]
            elif op == 'or':
                r = a[0] | a[1]
            elif op == 'xor':
                r = a[0] ^ a[1]
            elif op == 'not':
                r = ~a[0]
            elif op == 'ult':
                return z3.ULT(a[0], a[1])
            elif op == 'slt':
                return a[0] < a[1]
            elif op == 'extract':
                r = z3.Extract(t.val[0], t.val[1], a[0])
            elif op == 'concat':
                r = z3.Concat(*a)
            elif op == 'sext':
                r = z3.SignExt(t.sort - t.args[0].sort, a[0])
            if s == 1:
                return r == z3.BitVecVal(1, 1)
            return r
        # ---- floating point
        if op == 'fbits':
            if s == 80:
                return self.func('fbits80', ['f80'], 80)(a[0])
            x = t.args[0]
            if x.op == 'var':
                return self.vars[x.val]
            if self.mode == 'abs':
                return self.func('fbits', [x.sort], s)(a[0])
            b = self.fresh('fb', z3.BitVecSort(s))
            eb, sb = EBSB[x.sort]
            self.addside(t, z3.fpBVToFP(b, z3.FPSort(eb, sb)) == a[0])
            return b
        if op == 'bitsf':
            if s == 'f80':
                return self.func('bitsf80', [80], 'f80')(a[0])
            return z3.fpBVToFP(a[0], z3.FPSort(*EBSB[s]))
        if op == 'fneg':
            return z3.fpNeg(a[0])
        if op == 'fabs':
            return z3.fpAbs(a[0])
        if op == 'feq':
            return z3.fpEQ(a[0], a[1])
        if op == 'flt':
            return z3.fpLT(a[0], a[1])
        if op == 'fle':
            return z3.fpLEQ(a[0], a[1])
        if op == 'fisnan':
            return z3.fpIsNaN(a[0])
        if op == 'fsame':
            return a[0] == a[1]
        if op == 'frint':
            return z3.fpRoundToIntegral(rmode(t.val), a[0])
        rne = z3.RNE()
        if op == 'fcvt':
            return z3.fpFPToFP(rne, a[0], z3.FPSort(*EBSB[s]))
        if op == 'sitofp':
            return z3.fpSignedToFP(rne, self.bool2bv(t.args[0], a[0]), z3.FPSort(*EBSB[s]))
        if op == 'uitofp':
            return z3.fpUnsignedToFP(rne, self.bool2bv(t.args[0], a[0]), z3.FPSort(*EBSB[s]))
        if op == 'fptosi':
            if s == 1:
                return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(1)) == z3.BitVecVal(1, 1)
            return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(s))
        if op == 'fptoui':
            if s == 1:
                return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(1)) == z3.BitVecVal(1, 1)
            return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(s))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'fma'):
            if self.mode == 'precise':
                if op == 'fadd':
                    return z3.fpAdd(rne, a[0], a[1])
                if op == 'fsub':
                    return z3.fpSub(rne, a[0], a[1])
                if op == 'fmul':
                    return z3.fpMul(rne, a[0], a[1])
                if op == 'fdiv':
                    return z3.fpDiv(rne, a[0], a[1])
                if op == 'fsqrt':
                    return z3.fpSqrt(rne, a[0])
                return z3.fpFMA(rne, a[0], a[1], a[2])
            return self.func(op, [x.sort for x in t.args], s)(*a)
        if op == 'uf':
            return self.func(t.val, [x.sort for x in t.args], s)(*a)
        raise NotImplementedError(op)

    def real(self, t, a):
        op, s = t.op, t.sort
        if op == 'const':
            v = fconst_value(t)
            if v is None or v != v or v in (float('inf'), float('-inf')):
                return self.fresh('nonfinite', z3.RealSort())     # any value
            f = Fraction(v)
            return z3.RealVal(f'{f.numerator}/{f.denominator}')
        if op == 'var':
            v = z3.Real(t.val)
            self.vars[t.val] = v
            return v
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'fadd':
            return a[0] + a[1]
        if op == 'fsub':
            return a[0] - a[1]
        if op == 'fmul':
            return a[0] * a[1]
        if op == 'fma':
            return a[0] * a[1] + a[2]
        if op == 'fneg':
            return -a[0]
        if op == 'fabs':
            return z3.If(a[0] < 0, -a[0], a[0])
        if op == 'fdiv':
            if t.args[1].op == 'const':
                return a[0] / a[1]
            # x / y  ==  x * (1 / y); one reciprocal per divisor, divisors compared as polynomials
            key = ('inv', polykey(a[1]))
            q = self.cache.get(key)
            if q is None:
                q = self.cache[key] = self.fresh('inv', z3.RealSort())
            self.addside(t, q * a[1] == 1)
            return q if t.args[0].op == 'const' and fconst_value(t.args[0]) == 1.0 else a[0] * q
        if op == 'fsqrt':
            key = ('sqrt', polykey(a[0]))
            q = self.cache.get(key)
            if q is None:
                q = self.cache[key] = self.fresh('sqrt', z3.RealSort())
            self.addside(t, q * q == a[0], q >= 0)
            return q
        if op == 'fcvt':
            return a[0]
        if op in ('feq', 'fsame'):
            return a[0] == a[1]
        if op == 'flt':
            return a[0] < a[1]
        if op == 'fle':
            return a[0] <= a[1]
        if op == 'fisnan':
            return z3.BoolVal(False)
        if op in ('sitofp', 'uitofp'):
            if z3.is_bool(a[0]):
                return z3.If(a[0], z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0))
            return z3.ToReal(z3.BV2Int(a[0], op == 'sitofp'))
        if op == 'uf':
            return self.func(t.val, [x.sort for x in t.args], s)(*a)
        if op == 'frint':
            return self.func('rint' + t.val, [t.args[0].sort], s)(*a)
        raise RealUnsupported(op)


def model_inputs(model, low, inputs):
    """input name -> bit pattern, from a z3 model (uf / precise modes)"""
    r = {}
    for name, sort, t in inputs:
        v = low.vars.get(t.val)
        if v is None:
            r[name] = 0
            continue
        x = model.eval(v, model_completion=True)
        if sort == 1:
            r[name] = 1 if z3.is_true(x) else 0
        elif sort == 'f80':
            b = z3.simplify(z3.fpToIEEEBV(x))
            try:
                n = b.as_long()
            except Exception:
                n = (0x7fff << 63) | (1 << 62)
            e = (n >> 63) & 0x7fff
            r[name] = ((n >> 78) << 79) | (e << 64) | ((1 << 63) if e else 0) | (n & mask(63))
        else:
            r[name] = x.as_long()
    return r
