"""Functions the VC generator interprets itself: the harness API, the allocator, memory and
string primitives, libm, and the noreturn failure entry points."""
import re, math
from fractions import Fraction
import z3
from irparse import *
from engine import *
import engine as E

TABLE = {}


def reg(*names):
    def d(f):
        for n in names: TABLE['@' + n] = f
        return f
    return d


def cstr(e, p):
    if isinstance(p, Choice): p = e.live_alts(p)[0][1]
    o = e.cur.mem[p.o]
    s = b''
    k = p.off
    while True:
        v = e.load_at(o, k, I8)
        if v == 0: return s.decode()
        s += bytes([v]); k += 1


# ---------------------------------------------------------------- harness API
def inp(kind):
    def f(e, a, ins, st):
        st = e.cur
        nm = cstr(e, a[0])
        k = st.counts.get(nm, 0)
        st.counts[nm] = k + 1
        full = '%s#%d' % (nm, k)
        if full not in e.inputs:
            if kind == 'f32': v = e.fl.fresh(full, F32)
            elif kind == 'f64': v = e.fl.fresh(full, F64)
            elif kind == 'bool': v = z3.Bool(full)
            else: v = z3.BitVec(full, int(kind[1:]))
            e.inputs[full] = (kind, v)
        elif e.inputs[full][0] != kind: raise Unsupported('input %s has two types' % full)
        return e.inputs[full][1]
    return f


for n, k in (('vc_float', 'f32'), ('vc_double', 'f64'), ('vc_bool', 'bool'), ('vc_u8', 'i8'), ('vc_u16', 'i16'),
             ('vc_u32', 'i32'), ('vc_i32', 'i32'), ('vc_u64', 'i64'), ('vc_i64', 'i64'), ('vc_i16', 'i16')):
    TABLE['@' + n] = inp(k)


@reg('vc_count')
def vc_count(e, a, ins, st):
    """an int32 for arithmetic: a mathematical integer in real mode"""
    if e.mode != 'real': return TABLE['@vc_i32'](e, a, ins, st)
    st = e.cur
    nm = cstr(e, a[0]); k = st.counts.get(nm, 0); st.counts[nm] = k + 1
    full = '%s#%d' % (nm, k)
    if full not in e.inputs:
        v = z3.Int(full)
        e.axioms.append(z3.And(v >= -2**31, v < 2**31))
        e.inputs[full] = ('int', v)
    v = e.inputs[full][1]
    return e.is_sint(z3.Int2BV(v, 32), v)


@reg('vc_choose')
def vc_choose(e, a, ins, st):
    """integer in [lo,hi], explored value by value"""
    st = e.cur
    nm = cstr(e, a[0]); lo, hi = (x - (1 << 32) if x >> 31 else x for x in a[1:3])
    k = st.counts.get(nm, 0); st.counts[nm] = k + 1
    full = '%s#%d' % (nm, k)
    if full not in e.inputs: e.inputs[full] = ('i32', z3.BitVec(full, 32))
    v = e.inputs[full][1]
    out = []
    only = e.o.get('choose', {}).get(full)
    for x in range(lo, hi + 1):
        if only is not None and x != only: continue
        s = st.fork() 
        e.learn(s, v == x)
        out.append((s, x & 0xffffffff))
    return out


@reg('vc_split')
def vc_split(e, a, ins, st):
    """case split on a symbolic boolean: both cases are explored, never merged back by this call"""
    c = e.tobool(a[0])
    if isinstance(c, bool): return c
    return e.decide(c)


@reg('vc_assume')
def vc_assume(e, a, ins, st):
    c = e.tobool(a[0])
    if isinstance(c, bool):
        if not c: raise PathEnd()
        return None
    c = z3.simplify(c)
    k = e.lit_known(c)
    if k is False: raise PathEnd()
    if k is None: e.add_pc(e.cur, c)
    return None


def conjuncts(e, c):
    if z3.is_and(c): return [y for x in c.children() for y in conjuncts(e, x)]
    if z3.is_not(c) and z3.is_or(c.arg(0)): return [y for x in c.arg(0).children() for y in conjuncts(e, e.Not(x))]
    return [c]


@reg('vc_assert')
def vc_assert(e, a, ins, st):
    c = e.tobool(a[0])
    if issym(c): c = z3.simplify(c)
    e.check(c if isinstance(c, bool) else c, 'ensures', cstr(e, a[1]))
    if c is False: raise PathEnd()
    if issym(c) and cstr(e, a[1]).startswith('lemma'):
        # a cut: proved once, then available to the obligations that follow
        cs = conjuncts(e, c)
        e.lemmas.extend(cs)
        e.lemma_names.setdefault(cstr(e, a[1])[7:].split(' [by ')[0], []).extend(cs)
        e.add_pc(e.cur, c)
    return None


@reg('vc_ghost')
def vc_ghost(e, a, ins, st):
    """a ghost name for a value: real mode introduces a fresh variable constrained to equal it"""
    x = a[0]
    if e.mode != 'real' or not issym(x): return x
    n = st.counts.get('ghost!', 0); st.counts['ghost!'] = n + 1
    v = z3.Real('ghost!%d' % n)
    e.add_pc(st, v == x)
    return v


@reg('vc_cover')
def vc_cover(e, a, ins, st):
    e.covers.setdefault(cstr(e, a[0]), []).append(list(e.cur.pc))
    return None


@reg('vc_mode')
def vc_mode(e, a, ins, st):
    return {'fp': 0, 'real': 1, 'fpuf': 2}[e.mode]


@reg('vc_near')
def vc_near(e, a, ins, st):
    """real mode: equality; otherwise bitwise-value equality (tolerance only exists natively)"""
    x, y = e.flt(a[0], F32), e.flt(a[1], F32)
    return e.fl.cmp('oeq', x, y, F32)


@reg('vc_within')
def vc_within(e, a, ins, st):
    """|a-b| <= tol, computed exactly in real mode"""
    x, y, t = (e.flt(q, F64) for q in a[:3])
    d = e.fl.fabs(e.fl.bin('fsub', x, y, F64), F64)
    return e.fl.cmp('ole', d, t, F64)


@reg('vc_same')
def vc_same(e, a, ins, st):
    """same float value (NaN equal to NaN; zeros of different sign are equal)"""
    x, y = e.flt(a[0], F32), e.flt(a[1], F32)
    if hasattr(x, 'eq') and hasattr(y, 'eq') and x.eq(y): return True
    return e.Or(e.fl.cmp('oeq', x, y, F32), e.And(e.fl.cmp('uno', x, x, F32), e.fl.cmp('uno', y, y, F32)))


@reg('vc_identical')
def vc_identical(e, a, ins, st):
    """the same term (so certainly the same value); false decides nothing"""
    x, y = e.flt(a[0], F32), e.flt(a[1], F32)
    return bool(x.eq(y)) if hasattr(x, 'eq') and hasattr(y, 'eq') else bool(x == y) if isinstance(x, (int, float)) and isinstance(y, (int, float)) else False


@reg('vc_check_failed')
def vc_check_failed(e, a, ins, st):
    try: m = cstr(e, a[0])
    except Exception: m = ''
    e.check(False, 'check', 'CHECK(%s) in %s' % (m[:80], e.site()))
    raise PathEnd()


# ---------------------------------------------------------------- failure entry points
def fail(kind, what):
    def f(e, a, ins, st):
        e.check(False, kind, '%s in %s' % (what, e.site()))
        raise PathEnd()
    return f


for n in ('__cxa_throw', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__stack_chk_fail', '__assert_fail',
          '_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv',
          '_ZSt20__throw_length_errorPKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc',
          '_ZSt19__throw_logic_errorPKc', '_ZSt25__throw_bad_function_callv', '_ZSt26__throw_bad_variant_accessPKc',
          '_ZSt26__throw_bad_variant_accessb', '_ZSt27__throw_bad_optional_accessv', '_ZSt24__throw_invalid_argumentPKc',
          '_ZSt20__throw_system_errori', 'exit', '_exit', '__clang_call_terminate', 'llvm.trap', 'llvm.ubsantrap'):
    TABLE['@' + n] = fail('throw', 'call to ' + n)
for n in ('OutOfRange', 'LengthError', 'LogicError', 'InvalidArgument', 'BadFunctionCall', 'BadAlloc'):
    for arg in ('PKc', 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'v'):
        m = 'ThrowStd' + n
        TABLE['@_ZN4absl7debian313base_internal%d%sE%s' % (len(m), m, arg)] = fail('throw', 'call to ' + m)


# ---------------------------------------------------------------- allocator
@reg('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def new(e, a, ins, st):
    n = e.num(a[0], 64)
    n = e.conc_int(n, 'allocation size')
    if n > (1 << 40):
        e.check(False, 'throw', 'allocation of %d bytes in %s' % (n, e.site())); raise PathEnd()
    return e.new_obj(e.cur, n, 'heap')


@reg('calloc')
def calloc(e, a, ins, st):
    n = e.conc_int(a[0], 'calloc') * e.conc_int(a[1], 'calloc')
    p = e.new_obj(e.cur, n, 'heap')
    e.zero_fill(e.cur.mem[p.o].cells, 0, n)
    return p


@reg('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
def delete(e, a, ins, st):
    p = a[0]
    alts = e.live_alts(p) if isinstance(p, Choice) else [(True, p)]
    for c, q in alts:
        if isinstance(q, Undef): e.safety(e.Not(c), 'free', 'delete of uninitialised pointer'); continue
        if q.o == 0: continue
        o = e.cur.mem.get(q.o)
        if o is None or o.kind != 'heap': e.safety(e.Not(c), 'free', 'delete of a non-heap object'); continue
        e.safety(e.Or(e.Not(c), e.And(e.Not(o.freed), e.icmp('eq', I64, q.off, 0))), 'free', 'double or invalid delete')
        o = e.cur.wobj(q.o)
        if c is True:
            o.freed = True; o.cells = {}
        else:
            o.freed = e.Or(o.freed, c)
    return None


# ---------------------------------------------------------------- memory / strings
def intr(name, f): TABLE['@' + name] = f


def memcpy(e, a, ins, st):
    e.memcpy(a[0], a[1], a[2]); return a[0]


def memset(e, a, ins, st):
    e.memset(a[0], a[1], a[2]); return a[0]


for n in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove', 'llvm.memcpy.inline.p0.p0.i64'): intr(n, memcpy)
for n in ('llvm.memset.p0.i64', 'memset'): intr(n, memset)


def byte(e, p, i):
    o, off = e.one(e.padd(p, i), 1, 'byte read')
    v = e.load_at(e.cur.mem[o], off, I8)
    return e.num(v, 8)


@reg('memcmp', 'bcmp')
def memcmp(e, a, ins, st):
    n = e.conc_int(a[2], 'memcmp size')
    r = 0
    for i in reversed(range(n)):
        x, y = byte(e, a[0], i), byte(e, a[1], i)
        ne = e.icmp('ne', I8, x, y)
        lt = e.icmp('ult', I8, x, y)
        r = e.ite(ne, e.ite(lt, mask(32), 1, I32), r, I32)
    return r


@reg('strlen')
def strlen(e, a, ins, st):
    i = 0
    while True:
        b = byte(e, a[0], i)
        if e.decide(e.icmp('eq', I8, b, 0)): return i
        i += 1
        if i > 4096: raise Unsupported('strlen')


@reg('memchr')
def memchr(e, a, ins, st):
    n = e.conc_int(a[2], 'memchr size')
    c = e.trunc(a[1], 32, 8)
    r = NULL
    for i in reversed(range(n)):
        r = e.ite(e.icmp('eq', I8, byte(e, a[0], i), c), e.padd(a[0], i), r, PTR)
    return r


# ---------------------------------------------------------------- misc runtime
@reg('__cxa_guard_acquire')
def guard(e, a, ins, st):
    v = e.load(a[0], I8)
    return 0 if v == 1 else 1


@reg('__cxa_guard_release')
def guardr(e, a, ins, st):
    e.store(a[0], 1, I8); return None


@reg('__cxa_atexit', 'pthread_mutex_lock', 'pthread_mutex_unlock')
def zero(e, a, ins, st): return 0


@reg('llvm.stacksave', 'llvm.stacksave.p0')
def ssave(e, a, ins, st): return NULL


@reg('llvm.stackrestore', 'llvm.stackrestore.p0', 'llvm.prefetch.p0', 'llvm.va_start', 'llvm.va_end')
def nothing(e, a, ins, st): return None


@reg('llvm.expect.i1', 'llvm.expect.i64', 'llvm.expect.i32', 'llvm.launder.invariant.group.p0', 'llvm.strip.invariant.group.p0')
def ident(e, a, ins, st): return a[0]


@reg('llvm.threadlocal.address.p0')
def tla(e, a, ins, st): return a[0]


@reg('llvm.objectsize.i64.p0')
def objsize(e, a, ins, st): return mask(64)


@reg('llvm.is.constant.i1', 'llvm.is.constant.i32', 'llvm.is.constant.i64', 'llvm.is.constant.f32', 'llvm.is.constant.i8')
def isconst(e, a, ins, st): return False


PAT = []


def pat(rx):
    def d(f): PAT.append((re.compile(rx), f)); return f
    return d


def el(t): return t.el if t.k == 'vec' else t


def each(e, ins, f, *args):
    t = ins.ty
    if any(isinstance(x, tuple) for x in args):
        return tuple(f(*xs) for xs in zip(*args))
    return f(*args)


def flt_args(e, ins, a):
    out = []
    for (at, v, bv), x in zip(ins.a, a):
        if at.k in ('float', 'double'): x = e.flt(x, at)
        elif at.k == 'vec' and at.el.k in ('float', 'double'): x = tuple(e.flt(y, at.el) for y in x)
        out.append(x)
    return out


@pat(r'@llvm\.(fabs|floor|ceil|trunc|round|rint|nearbyint|roundeven|sqrt|copysign|minnum|maxnum|minimum|maximum|fmuladd|fma|sin|cos|exp|exp2|log|log2|log10|pow)\.(f32|f64|v2f32|v4f32)$')
def fintr(e, m, a, ins, st):
    op = m.group(1); t = el(ins.ty)
    return each(e, ins, lambda *x: fop(e, op, x, t), *flt_args(e, ins, a))


def fop(e, op, x, t):
    fl = e.fl
    if op == 'fabs': return fl.fabs(x[0], t)
    if op in ('floor', 'ceil', 'trunc', 'round'): return fl.rint(op, x[0], t)
    if op in ('rint', 'nearbyint', 'roundeven'): return fl.rint('rne', x[0], t)
    if op == 'sqrt': return fl.sqrt(x[0], t)
    if op == 'copysign': return fl.copysign(x[0], x[1], t)
    if op in ('minnum', 'maxnum', 'fmin', 'fmax'): return fl.minmax(op in ('maxnum', 'fmax'), x[0], x[1], t)
    if op in ('fmuladd',): return fl.bin('fadd', fl.bin('fmul', x[0], x[1], t), x[2], t)
    if op == 'fma':
        if e.mode == 'real': return fl.bin('fadd', fl.bin('fmul', x[0], x[1], t), x[2], t)
        return z3.fpFMA(z3.RNE(), *[fl.sym(y, t) for y in x])
    if op == 'fmod' : return fl.bin('frem', x[0], x[1], t)
    if op == 'fdim': raise Unsupported('fdim')
    return libm(e, op, x, t)


PYM = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2,
       'exp': math.exp, 'log': math.log, 'pow': math.pow, 'hypot': math.hypot, 'exp2': lambda x: 2.0**x, 'log2': math.log2, 'log10': math.log10,
       'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'fmod': math.fmod, 'tanh': math.tanh, 'log1p': math.log1p, 'expm1': math.expm1}


def libm(e, op, x, t):
    if all(conc(y) for y in x):
        try:
            v = e.fl.const(PYM[op](*[float(y) for y in x]), t)
            if op == 'pow' and float(x[0]) >= 0 and float(x[1]) >= 0: e.pow_const(x[0], x[1], v, t)
            return v
        except (ValueError, OverflowError, ZeroDivisionError): return math.nan
    return e.libm_uf(op, [e.fl.sym(y, t) for y in x], t)


@pat(r'@(floor|ceil|trunc|round|rint|nearbyint|roundeven|sqrt|copysign|fmin|fmax|fabs|fmod|sin|cos|tan|asin|acos|atan|atan2|exp|exp2|log|log2|log10|log1p|expm1|pow|hypot|cbrt|tanh)f?$')
def fcall(e, m, a, ins, st):
    return fop(e, m.group(1), flt_args(e, ins, a), ins.ty)


@pat(r'@(vc_uf_\w+)$')
def vcuf(e, m, a, ins, st):
    """uninterpreted function of the contract language: equal arguments give equal results"""
    zs = []
    for (at, v, bv), x in zip(ins.a, a):
        zs.append(e.fl.sym(e.flt(x, at), at) if at.k in ('float', 'double') else e.bv(x, at.n))
    t = ins.ty
    assert t.k in ('float', 'double')
    srt = z3.RealSort() if e.mode == 'real' else SORT[t.k]
    f = z3.Function(m.group(1), *([z.sort() for z in zs] + [srt]))
    return f(*zs)


@pat(r'@(lroundf?|llroundf?|lrintf?|llrintf?)$')
def lround(e, m, a, ins, st):
    t = ins.a[0][0]
    r = e.fl.rint('round' if 'round' in m.group(1) else 'rne', e.flt(a[0], t), t)
    v, ok = e.fl.to_int(r, t, 64, True)
    e.safety(ok, 'fptoint', m.group(1) + ' result out of range')
    return v


@pat(r'@llvm\.is\.fpclass\.')
def fpclass(e, m, a, ins, st):
    t = ins.a[0][0]
    return e.fl.fpclass(e.flt(a[0], t), a[1], t)


@pat(r'@llvm\.(umax|umin|smax|smin)\.i')
def iminmax(e, m, a, ins, st):
    t = ins.ty
    c = e.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[m.group(1)], t, a[0], a[1])
    return e.ite(c, a[0], a[1], t)


@pat(r'@llvm\.abs\.i')
def iabs(e, m, a, ins, st):
    t = ins.ty
    return e.ite(e.icmp('slt', t, a[0], 0), e.intbin('sub', t, 0, a[0], ()), a[0], t)


@pat(r'@llvm\.(ctlz|cttz|ctpop)\.i')
def bits(e, m, a, ins, st):
    n = ins.ty.n
    v = e.num(a[0], n)
    op = m.group(1)
    if isinstance(v, int):
        if op == 'ctpop': return bin(v).count('1')
        if v == 0: return n
        if op == 'ctlz': return n - v.bit_length()
        return (v & -v).bit_length() - 1
    r = z3.BitVecVal(n if op != 'ctpop' else 0, n)
    if op == 'ctpop':
        for i in range(n): r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, v))
        return r
    rng = range(n) if op == 'ctlz' else reversed(range(n))
    for i in rng:
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(n - 1 - i if op == 'ctlz' else i, n), r)
    return r


@pat(r'@llvm\.(fshl|fshr)\.i')
def fsh(e, m, a, ins, st):
    n = ins.ty.n
    x, y = e.bv(e.num(a[0], n), n), e.bv(e.num(a[1], n), n)
    s = e.num(a[2], n)
    if not isinstance(s, int): raise Unsupported('fsh')
    s %= n
    if m.group(1) == 'fshl': r = x << s | z3.LShR(y, n - s) if s else x
    else: r = x << (n - s) | z3.LShR(y, s) if s else y
    r = z3.simplify(r)
    return r.as_long() if z3.is_bv_value(r) else r


@pat(r'@llvm\.bswap\.i')
def bswap(e, m, a, ins, st):
    n = ins.ty.n
    v = e.num(a[0], n)
    if isinstance(v, int): return int.from_bytes(v.to_bytes(n // 8, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n // 8)])


@pat(r'@llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i')
def ovf(e, m, a, ins, st):
    n = ins.ty.els[0].n
    op = m.group(1)
    x, y = e.num(a[0], n), e.num(a[1], n)
    if isinstance(x, int) and isinstance(y, int):
        if op[0] == 's':
            x -= (x >> (n - 1)) << n; y -= (y >> (n - 1)) << n
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op[1:]]
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op[0] == 's' else (0, mask(n))
        return (r & mask(n), not (lo <= r <= hi))
    ext = z3.SignExt if op[0] == 's' else z3.ZeroExt
    w = n if op[1:] == 'mul' else 2
    X, Y = ext(w, e.bv(x, n)), ext(w, e.bv(y, n))
    r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op[1:]]
    t = z3.Extract(n - 1, 0, r)
    return (t, z3.simplify(z3.Not(ext(w, t) == r)))


@pat(r'@llvm\.(uadd|usub|sadd|ssub)\.sat\.i')
def satop(e, m, a, ins, st):
    n = ins.ty.n
    x, y = e.bv(e.num(a[0], n), n), e.bv(e.num(a[1], n), n)
    if m.group(1) == 'usub': r = z3.If(z3.UGT(x, y), x - y, z3.BitVecVal(0, n))
    elif m.group(1) == 'uadd': r = z3.If(z3.ULT(x + y, x), z3.BitVecVal(mask(n), n), x + y)
    else: raise Unsupported('sat')
    r = z3.simplify(r)
    return r.as_long() if z3.is_bv_value(r) else r


@pat(r'@llvm\.vector\.reduce\.')
def vred(e, m, a, ins, st): raise Unsupported('vector reduce')


@pat(r'@llvm\.(ptrmask)')
def ptrmask(e, m, a, ins, st): return e.intbin('and', I64, a[0], a[1], ())


CACHE = {}


def lookup(e, nm):
    h = TABLE.get(nm)
    if h is not None: return h
    if nm in CACHE: return CACHE[nm]
    r = None
    if nm not in e.m.fn_src or nm.startswith('@llvm'):
        for rx, f in PAT:
            m = rx.match(nm)
            if m:
                r = lambda e, a, ins, st, f=f, m=m: f(e, m, a, ins, st)
                break
    CACHE[nm] = r
    return r


@reg('_ZNSt8__detail15_List_node_base7_M_hookEPS0_', )
def nohook(e, a, ins, st): raise Unsupported('list')


def prime_init():
    return [2, 5, 11, 23, 47, 97, 199, 409, 823]


@reg('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def need_rehash(e, a, ins, st):
    # libstdc++ policy, with concrete sizes: grow when n_elt + n_ins > n_bkt
    nb, ne, ni = (e.conc_int(x, 'rehash') for x in a[1:4])
    if ne + ni > nb or nb == 1:
        for p in prime_init():
            if p > max(ne + ni, 2 * nb, 11): return (True, p)
    return (False, 0)
