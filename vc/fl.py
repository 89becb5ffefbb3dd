"""Float back ends of the VC generator.

fp    every float/double operation is the IEEE-754 operation (z3 FP theory, RNE)
real  floats are mathematical reals (declared in the evidence as an assumption);
      infinities/NaN only exist as concrete constants
fpuf  comparisons, min/max, rounding exact as in fp; + - * / are uninterpreted
      functions with commutativity (used where only the data flow matters)
"""
import math, struct
from fractions import Fraction
import z3
from irparse import F32, F64, F80

RNE = z3.RNE()
RTZ = z3.RTZ()
SORT = {'float': z3.Float32(), 'double': z3.Float64()}


def f32(x):
    if x != x or x in (math.inf, -math.inf): return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def rnd(x, ty):
    return f32(x) if ty.k == 'float' else x


def conc(v): return isinstance(v, (float, Fraction))


def mk_if(c, a, b):
    if c is True: return a
    if c is False: return b
    return z3.If(c, a, b)


class Fp:
    name = 'fp'

    def __init__(self, eng): self.e = eng

    def const(self, x, ty): return rnd(x, ty)

    def sym(self, v, ty):
        if isinstance(v, float):
            s = SORT[ty.k]
            return z3.FPVal(v, s) if v == v else z3.fpNaN(s)
        return v

    def fresh(self, name, ty): return z3.FP(name, SORT[ty.k])

    def from_bits(self, b, ty):
        n = ty.size * 8
        if isinstance(b, int):
            return struct.unpack('<f' if n == 32 else '<d', b.to_bytes(n // 8, 'little'))[0]
        if b.decl().name() == 'fp.to_ieee_bv': return b.arg(0)
        return z3.fpBVToFP(b, SORT[ty.k])

    def to_bits(self, v, ty):
        if isinstance(v, float):
            if v != v: return 0x7fc00000 if ty.size == 4 else 0x7ff8 << 48
            return int.from_bytes(struct.pack('<f' if ty.size == 4 else '<d', v), 'little')
        return z3.fpToIEEEBV(v)

    def bin(self, op, a, b, ty):
        if conc(a) and conc(b):
            if op == 'fadd': r = a + b
            elif op == 'fsub': r = a - b
            elif op == 'fmul':
                r = a * b
            elif op == 'fdiv':
                if b == 0:
                    if a == 0 or a != a: return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1, b)
                if b != b: return math.nan
                if abs(a) == math.inf and abs(b) == math.inf: return math.nan
                r = a / b
            elif op == 'frem':
                if b == 0 or abs(a) == math.inf or a != a or b != b: return math.nan
                r = math.fmod(a, b)
            return rnd(r, ty)
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                if conc(x) and x == 1.0: return y
        if op == 'fdiv' and conc(b) and b == 1.0: return a
        a, b = self.sym(a, ty), self.sym(b, ty)
        return self.arith(op, a, b, ty)

    def arith(self, op, a, b, ty):
        if op == 'fadd': return z3.fpAdd(RNE, a, b)
        if op == 'fsub': return z3.fpSub(RNE, a, b)
        if op == 'fmul': return z3.fpMul(RNE, a, b)
        if op == 'fdiv': return z3.fpDiv(RNE, a, b)
        if op == 'frem': return self.e.libm_uf('fmod', [a, b], ty)
        raise Exception(op)

    def neg(self, a, ty):
        return -a if conc(a) else z3.fpNeg(a)

    def fabs(self, a, ty): return abs(a) if conc(a) else z3.fpAbs(a)

    def sqrt(self, a, ty):
        if conc(a): return rnd(math.sqrt(a), ty) if a >= 0 else (a if a == 0 else math.nan)
        return z3.fpSqrt(RNE, a)

    def rint(self, mode, a, ty):
        if conc(a):
            if a != a or abs(a) == math.inf: return a
            f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(mode)
            if mode == 'round': r = math.copysign(math.floor(abs(a) + 0.5) if abs(a) < 2**52 else abs(a), a)
            elif mode == 'rne': r = float(round(a))
            else: r = float(f(a))
            return math.copysign(r, a) if r == 0 else r
        rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': RTZ, 'round': z3.RNA(), 'rne': RNE}[mode]
        return z3.fpRoundToIntegral(rm, a)

    def copysign(self, a, b, ty):
        if conc(a) and conc(b): return math.copysign(a, b)
        a, b = self.sym(a, ty), self.sym(b, ty)
        aa = z3.fpAbs(a)
        return z3.If(z3.fpIsNegative(b), z3.fpNeg(aa), aa)

    def cmp(self, pr, a, b, ty):
        if pr == 'true': return True
        if pr == 'false': return False
        if conc(a) and conc(b):
            un = a != a or b != b
            o = {'eq': a == b, 'ne': a != b and not un, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
            if pr == 'uno': return un
            if pr == 'ord': return not un
            r = o[pr[1:]]
            return (r or un) if pr[0] == 'u' else (r and not un)
        a, b = self.sym(a, ty), self.sym(b, ty)
        same = a.eq(b)
        if pr == 'uno': return z3.fpIsNaN(a) if same else self.nan2(a, b)
        if pr == 'ord': return z3.Not(z3.fpIsNaN(a)) if same else z3.Not(self.nan2(a, b))
        o = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        k = pr[1:]
        if pr[0] == 'o':
            if k == 'ne': return z3.And(z3.Not(self.nan2(a, b)), z3.Not(z3.fpEQ(a, b)))
            return o[k](a, b)
        neg = {'eq': None, 'ne': 'eq', 'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}[k]
        if neg is None: return z3.Or(self.nan2(a, b), z3.fpEQ(a, b))
        return z3.Not(o[neg](a, b))

    def nan2(self, a, b):
        l = [z3.fpIsNaN(x) for x in (a, b) if not (z3.is_fp_value(x))]
        if z3.is_fp_value(a) and a.isNaN() or z3.is_fp_value(b) and b.isNaN(): return z3.BoolVal(True)
        return z3.Or(*l) if len(l) > 1 else l[0] if l else z3.BoolVal(False)

    def ite(self, c, a, b, ty):
        if conc(a) and conc(b) and struct.pack('<d', a) == struct.pack('<d', b): return a
        a, b = self.sym(a, ty), self.sym(b, ty)
        if not (z3.is_ast(a) and z3.is_ast(b)): raise TypeError(f'ite of {a!r:.60} {b!r:.60}')
        if a.eq(b): return a
        return z3.If(c, a, b)

    def from_int(self, v, n, signed, ty):
        if isinstance(v, int):
            if signed and v >> (n - 1): v -= 1 << n
            return rnd_int(v, ty)
        return (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(RNE, v, SORT[ty.k])

    def to_int(self, v, ty, n, signed):
        """returns (value, in_range_condition)"""
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if conc(v):
            if v != v or abs(v) == math.inf: return 0, False
            t = math.trunc(v)
            return t & ((1 << n) - 1), lo <= t <= hi
        s = SORT[ty.k]
        # exact bounds: trunc(v) in [lo,hi]  <=> v > lo-1 and v < hi+1 (both representable or rounded safely)
        tv = z3.fpRoundToIntegral(RTZ, v)
        okc = z3.And(z3.fpGEQ(tv, z3.FPVal(float(lo), s)), z3.fpLT(tv, z3.FPVal(float(hi + 1), s)))
        f = z3.fpToSBV if signed else z3.fpToUBV
        return f(RTZ, v, z3.BitVecSort(n)), okc

    def conv(self, v, frm, to):
        if conc(v): return rnd(v, to)
        return z3.fpFPToFP(RNE, v, SORT[to.k])

    def fpclass(self, v, mask, ty):
        if conc(v):
            neg = math.copysign(1, v) < 0
            mn = 2.0**-126 if ty.size == 4 else 2.0**-1022
            if v != v: b = 2
            elif abs(v) == math.inf: b = 4 if neg else 512
            elif v == 0: b = 32 if neg else 64
            elif abs(v) < mn: b = 16 if neg else 128
            else: b = 8 if neg else 256
            return bool(mask & b)
        c = []
        if mask == 504: return z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))
        if mask == 3: return z3.fpIsNaN(v)
        if mask == 516: return z3.fpIsInf(v)
        n, p = z3.fpIsNegative(v), z3.fpIsPositive(v)
        if mask & 3: c.append(z3.fpIsNaN(v))
        for bn, bp, f in ((4, 512, z3.fpIsInf), (8, 256, z3.fpIsNormal), (16, 128, z3.fpIsSubnormal), (32, 64, z3.fpIsZero)):
            if mask & bn and mask & bp: c.append(f(v))
            elif mask & bn: c.append(z3.And(f(v), n))
            elif mask & bp: c.append(z3.And(f(v), p))
        return z3.Or(*c) if c else False

    def minmax(self, mx, a, b, ty):
        # fmin/fmax (NaN-ignoring)
        lt = self.cmp('ogt' if mx else 'olt', a, b, ty)
        nb = self.cmp('uno', b, b, ty); na = self.cmp('uno', a, a, ty)
        e = self.e
        return e.fite(e.Or(lt, nb), a, b, ty)


def rnd_int(v, ty):
    if ty.k == 'double':
        return float(v)
    # correctly rounded int -> float32
    if abs(v) < (1 << 53): return f32(float(v))
    import numpy
    n = z3.simplify(z3.fpToFP(RNE, z3.RealVal(v), z3.Float32()))
    return fpval_to_py(n)


def fpval_to_py(n):
    if n.isNaN(): return math.nan
    if n.isInf(): return -math.inf if n.isNegative() else math.inf
    b = z3.simplify(z3.fpToIEEEBV(n)).as_long()
    if n.ebits() == 8: return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


class FpUf(Fp):
    name = 'fpuf'

    def __init__(self, eng):
        super().__init__(eng)
        self.f = {}

    def arith(self, op, a, b, ty):
        k = (op, ty.k)
        if k not in self.f:
            s = SORT[ty.k]
            self.f[k] = z3.Function('uf_%s_%s' % k, s, s, s)
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id(): a, b = b, a
        return self.f[k](a, b)

    def sqrt(self, a, ty):
        if conc(a): return super().sqrt(a, ty)
        s = SORT[ty.k]
        return z3.Function('uf_sqrt_' + ty.k, s, s)(a)


class Real(Fp):
    name = 'real'

    def const(self, x, ty):
        x = rnd(x, ty)
        if x != x or abs(x) == math.inf: return x
        return Fraction(x)

    def sym(self, v, ty=None):
        if isinstance(v, Fraction): return z3.RealVal(v)
        if isinstance(v, float):
            if v != v or abs(v) == math.inf: raise Unsupported('inf/nan as a symbolic real')
            return z3.RealVal(Fraction(v))
        return v

    def special(self, v): return isinstance(v, float)

    def fresh(self, name, ty): return z3.Real(name)

    def from_bits(self, b, ty):
        if isinstance(b, int):
            return self.const(Fp.from_bits(self, b, ty), ty)
        raise Unsupported('bits->real')

    def to_bits(self, v, ty):
        if isinstance(v, Fraction): return Fp.to_bits(self, float(v), ty)
        if isinstance(v, float): return Fp.to_bits(self, v, ty)
        raise Unsupported('real->bits')

    def bin(self, op, a, b, ty):
        if conc(a) and conc(b):
            if self.special(a) or self.special(b):
                r = Fp.bin(self, op, float(a), float(b), ty)
                return self.const(r, ty)
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0: return math.nan if a == 0 else math.copysign(math.inf, a)
                return a / b
            if op == 'frem':
                q = a / b
                return a - b * (math.floor(q) if q >= 0 else math.ceil(q))
        if (conc(a) and self.special(a)) or (conc(b) and self.special(b)):
            return self.spec_arith(op, a, b, ty)
        if conc(a):
            if op == 'fadd' and a == 0: return b
            if op == 'fmul' and a == 1: return b
            if op == 'fmul' and a == 0: return a
        if conc(b):
            if op in ('fadd', 'fsub') and b == 0: return a
            if op in ('fmul', 'fdiv') and b == 1: return a
            if op == 'fmul' and b == 0: return b
        a0, b0 = a, b
        a, b = self.sym(a), self.sym(b)
        if op == 'fadd': return a + b
        if op == 'fsub':
            if a.eq(b): return Fraction(0)
            return a - b
        if op == 'fmul': return a * b
        if op == 'fdiv':
            if conc(b0): return a * z3.RealVal(1 / b0) if b0 != 0 else self.e.real_div(a, b)
            return self.e.real_div(a, b)
        if op == 'frem':
            q = a / b
            t = z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
            return a - b * t
        raise Exception(op)

    def spec_arith(self, op, a, b, ty):
        # one operand is inf/nan, the other a symbolic (finite) real
        s, o = (a, b) if conc(a) and self.special(a) else (b, a)
        if s != s: return math.nan
        if op == 'fadd': return s
        if op == 'fsub': return s if s is a else -s
        if op == 'fdiv' and s is b: return Fraction(0)
        if op in ('fmul', 'fdiv'):
            # sign of the symbolic operand decides
            if self.e.decide(o > 0): return s
            if self.e.decide(o < 0): return -s
            return math.nan if op == 'fmul' else s
        raise Unsupported('inf arithmetic ' + op)

    def neg(self, a, ty): return -a

    def fabs(self, a, ty):
        if conc(a): return abs(a)
        return z3.If(a >= 0, a, -a)

    def sqrt(self, a, ty):
        if conc(a):
            if self.special(a): return Fp.sqrt(self, a, ty)
            if a < 0: return math.nan
            n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
            if n * n == a.numerator and d * d == a.denominator: return Fraction(n, d)
        return self.e.real_sqrt(self.sym(a))

    def rint(self, mode, a, ty):
        if conc(a):
            if self.special(a): return a
            f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rne': round}.get(mode)
            if mode == 'round':
                r = math.floor(abs(a) + Fraction(1, 2))
                return Fraction(r if a >= 0 else -r)
            return Fraction(f(a))
        fl = lambda x: z3.ToReal(z3.ToInt(x))
        if mode == 'floor': return fl(a)
        if mode == 'ceil': return -fl(-a)
        if mode == 'trunc': return z3.If(a >= 0, fl(a), -fl(-a))
        if mode == 'round': return z3.If(a >= 0, fl(a + z3.RealVal('1/2')), -fl(-a + z3.RealVal('1/2')))
        f = fl(a + z3.RealVal('1/2'))
        half = z3.And(f == a + z3.RealVal('1/2'), z3.ToInt(f) % 2 == 1)
        return z3.If(half, f - 1, f)

    def copysign(self, a, b, ty):
        if conc(a) and conc(b):
            r = math.copysign(float(a), float(b))
            return self.const(r, F64)
        aa = self.fabs(a, ty)
        # -0.0 does not exist in the reals
        return self.e.fite(self.cmp('olt', b, Fraction(0), ty), self.neg(aa, ty), aa, ty)

    def cmp(self, pr, a, b, ty):
        if pr == 'true': return True
        if pr == 'false': return False
        if conc(a) and conc(b):
            return Fp.cmp(self, pr, a, b, ty)
        sa, sb = conc(a) and self.special(a), conc(b) and self.special(b)
        if sa or sb:
            s = a if sa else b
            if s != s: return pr[0] == 'u'
            if pr in ('uno', 'ord'): return pr == 'ord'
            k = pr[1:]
            lt = (a < 0) if sa else (b > 0)   # a < b ?
            return {'eq': False, 'ne': True, 'lt': lt, 'le': lt, 'gt': not lt, 'ge': not lt}[k]
        if pr == 'uno': return False
        if pr == 'ord': return True
        a, b = self.sym(a), self.sym(b)
        k = pr[1:]
        if a.eq(b): return k in ('eq', 'le', 'ge')
        return {'eq': lambda: a == b, 'ne': lambda: z3.Not(a == b), 'lt': lambda: a < b, 'le': lambda: a <= b,
                'gt': lambda: a > b, 'ge': lambda: a >= b}[k]()

    def ite(self, c, a, b, ty):
        if conc(a) and conc(b) and (a == b or (a != a and b != b)): return a
        if (conc(a) and self.special(a)) or (conc(b) and self.special(b)):
            raise NeedFork(c)
        a, b = self.sym(a), self.sym(b)
        if a.eq(b): return a
        return z3.If(c, a, b)

    def from_int(self, v, n, signed, ty):
        if isinstance(v, int):
            if signed and v >> (n - 1): v -= 1 << n
            return Fraction(v)
        return z3.ToReal(z3.BV2Int(v, signed))

    def to_int(self, v, ty, n, signed):
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if conc(v):
            if self.special(v): return 0, False
            t = math.trunc(v)
            return t & ((1 << n) - 1), lo <= t <= hi
        t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return z3.Int2BV(t, n), z3.And(t >= lo, t <= hi)

    def conv(self, v, frm, to):
        if isinstance(v, Fraction) and to.k == 'float' and False: return Fraction(f32(float(v)))
        return v

    def fpclass(self, v, mask, ty):
        if conc(v): return Fp.fpclass(self, float(v), mask, ty)
        if mask in (504, 3, 516): return mask == 504
        c = []
        if mask & 0b0000011000: c.append(v < 0)   # negative normal/subnormal
        if mask & 0b0001100000: c.append(v == 0)
        if mask & 0b0110000000: c.append(v > 0)
        return z3.Or(*c) if c else False


class Unsupported(Exception): pass


class NeedFork(Exception):
    def __init__(self, cond): self.cond = cond
