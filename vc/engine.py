"""Verification-condition generator: symbolic execution of LLVM IR with state merging.

Every execution path of a harness is explored for all input values; every check met on
the way (contract postcondition, callee precondition, memory safety, float->int range,
ABSL_CHECK, division by zero, unreachable) becomes a named proof obligation.
"""
import math, sys, time, re
from fractions import Fraction
import z3
from irparse import *
import irparse
from fl import Fp, Real, FpUf, Unsupported, NeedFork, conc, SORT

sys.setrecursionlimit(20000)


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off): self.o, self.off = o, off

    def __repr__(self): return 'Ptr(%s,%s)' % (self.o, self.off)


NULL = Ptr(0, 0)


class Choice:
    """guarded alternatives [(cond, value)], exhaustive under the path condition"""
    __slots__ = ('alts',)

    def __init__(self, alts): self.alts = alts

    def __repr__(self): return 'Choice%r' % (self.alts,)


class Parts:
    """an integer of n bits made of byte-addressed typed pieces [(byte, size, val, ty)]"""
    __slots__ = ('n', 'ps')

    def __init__(self, n, ps): self.n, self.ps = n, ps


class Obj:
    __slots__ = ('size', 'cells', 'kind', 'freed', 'owner', 'name', 'ro')

    def __init__(self, size, kind, name=''):
        self.size, self.kind, self.name = size, kind, name
        self.cells = {}
        self.freed = False
        self.owner = None
        self.ro = False

    def clone(self, owner):
        o = Obj(self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.freed, o.ro, o.owner = self.freed, self.ro, owner
        return o


class Done(Exception): pass


class PathEnd(Exception): pass


class Stop(Exception): pass


class State:
    __slots__ = ('mem', 'pc', 'known', 'counts', 'last_alloca', 'tok', 'dead')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.known = {}
        self.counts = {}
        self.tok = object()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.counts = dict(self.counts)
        self.tok = object()
        return s

    def wobj(self, i):
        o = self.mem[i]
        if o.owner is not self.tok:
            o = o.clone(self.tok)
            self.mem[i] = o
        return o


def fast_add(s, cs):
    ctx, sv = s.ctx.ref(), s.solver
    for c in cs: z3.z3core.Z3_solver_assert(ctx, sv, c.ast)


def issym(v): return isinstance(v, z3.ExprRef)


class Obligation:
    __slots__ = ('name', 'kind', 'pc', 'cond', 'where', 'status', 'backend', 'time', 'model', 'bounded')

    def __init__(self, name, kind, pc, cond, where):
        self.name, self.kind, self.pc, self.cond, self.where = name, kind, pc, cond, where
        self.status = None; self.backend = None; self.time = 0; self.model = None


def mask(n): return (1 << n) - 1


SAFE_KINDS = ('bounds', 'null', 'free', 'div0', 'fptoint', 'unreachable', 'check', 'throw', 'unwind', 'shift')


def store_size(ty):
    """bytes an access touches: an i48 takes 8 bytes in an array but is read and written as 6"""
    return (ty.n + 7) // 8 if ty.k == 'int' else ty.size

class Engine:
    def __init__(self, mod, mode='fp', opts=None):
        self.m = mod
        self.mode = mode
        o = dict(max_iter=40, check_ms=150, branch_check='loop', max_states=48, max_time=600, uninit=True)
        o.update(opts or {})
        self.o = o
        self.fl = {'fp': Fp, 'real': Real, 'fpuf': FpUf}[mode](self)
        self.obls = []
        self.trivial = {}
        self.inputs = {}       # name -> (kind, const)
        self.axioms = []
        self.alive = []
        self.sints = {}
        self.uints = {}        # real mode: ast id of a bit-vector -> (Int term with its signed value, the bit-vector)
        self.gobj = {}
        self.next = 1
        self.fnused = {}
        self.trusted = set()
        self.nfresh = 0
        self.stack = []
        self.covers = {}
        self.stubs = {}
        self.cur = None        # current state
        self.t0 = time.time()
        self.checks = 0; self.check_time = 0
        self.chk_cache = {}
        self.sqrt_cache = {}
        self.div_seen = set()
        self.libm_apps = {}
        self.pows = []
        self.lemmas = []
        self.lemma_names = {}
        self.ginit = None
        self.bounded_hits = set()
        self.instrs = 0
        self.dem = {}

    # ---------------------------------------------------------------- logic helpers
    def Not(self, a):
        if isinstance(a, bool): return not a
        if z3.is_not(a): return a.arg(0)
        if z3.is_true(a): return False
        if z3.is_false(a): return True
        return z3.Not(a)

    def And(self, *l):
        out = []
        for a in l:
            if a is False: return False
            if a is True: continue
            if z3.is_true(a): continue
            if z3.is_false(a): return False
            out.append(a)
        if not out: return True
        return out[0] if len(out) == 1 else z3.And(*out)

    def Or(self, *l):
        out = []
        for a in l:
            if a is True: return True
            if a is False: continue
            if z3.is_true(a): return True
            if z3.is_false(a): continue
            out.append(a)
        if not out: return False
        return out[0] if len(out) == 1 else z3.Or(*out)

    def zb(self, a): return z3.BoolVal(a) if isinstance(a, bool) else a

    def fresh_name(self, p):
        self.nfresh += 1
        return '%s!%d' % (p, self.nfresh)

    # i1 value -> python bool or z3 Bool
    def tobool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if isinstance(v, Undef): return z3.Bool(self.fresh_name('undef'))
        if isinstance(v, Choice): return self.tobool(self.collapse(v, I1))
        if z3.is_bool(v): 
            if z3.is_true(v): return True
            if z3.is_false(v): return False
            return v
        return z3.simplify(z3.Extract(0, 0, v) == 1)

    def bv(self, v, n):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return z3.BitVecVal(v, n)
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        return v

    def lit_known(self, c, memo=None):
        """decide a Bool syntactically from the path condition"""
        known = self.cur.known
        i = c.get_id()
        k = known.get(i)
        if k is not None: return k
        if memo is None: memo = {}
        elif i in memo: return memo[i]
        r = None
        op = c.decl().kind() if z3.is_app(c) else None
        if op == z3.Z3_OP_NOT:
            k = known.get(c.arg(0).get_id())
            if k is not None: r = not k
        elif op in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = op == z3.Z3_OP_OR
            r = not stop
            for x in c.children():
                k = self.lit_known(x, memo)
                if k is stop: r = stop; break
                if k is None: r = None
        memo[i] = r
        return r

    def add_pc(self, st, c):
        """add conjunct"""
        if c is True: return
        if c is False: raise PathEnd()
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        if z3.is_and(c):
            for x in c.children(): self.add_pc(st, x)
            return
        if z3.is_not(c) and z3.is_or(c.arg(0)):
            for x in c.arg(0).children(): self.add_pc(st, self.Not(x))
            return
        if c.get_id() in st.known and st.known[c.get_id()]: return
        st.pc.append(c)
        self.alive.append(c)
        b, v = (c.arg(0), False) if z3.is_not(c) else (c, True)
        st.known[b.get_id()] = v
        st.known[c.get_id()] = True

    def settled(self, c):
        """path exploration: a comparison that the path condition contains is a constant"""
        if issym(c) and self.o.get('joinequal') and z3.is_bool(c):
            k = self.lit_known(z3.simplify(c))
            if k is not None: return k
        return c

    def sat(self, st, extra, ms=None):
        """True/False/None for pc & extra"""
        key = (tuple(c.get_id() for c in st.pc), extra.get_id())
        if key in self.chk_cache: return self.chk_cache[key][0]
        t = time.time()
        s = z3.Solver()
        s.set('timeout', ms or self.o['check_ms'])
        fast_add(s, st.pc); fast_add(s, self.axioms); fast_add(s, (extra,))
        r = s.check()
        self.checks += 1
        self.check_time += time.time() - t
        if time.time() - self.t0 > self.o['max_time']: raise Stop('time budget')
        res = None if r == z3.unknown else r == z3.sat
        self.chk_cache[key] = (res, st.pc[:], extra)
        return res

    def decide(self, c, force=True):
        """return python bool if c is decided by the pc, else fork"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = self.lit_known(c)
        if k is not None: return k
        if force: raise NeedFork(c)
        return None

    def check(self, cond, kind, name):
        """record an obligation"""
        if isinstance(cond, bool) and cond or issym(cond) and z3.is_true(cond):
            k = (kind, name)
            self.trivial[k] = self.trivial.get(k, 0) + 1
            return
        if issym(cond):
            k = self.lit_known(cond)
            if k is True:
                self.trivial[(kind, name)] = self.trivial.get((kind, name), 0) + 1
                return
        where = self.site()
        self.obls.append(Obligation(name, kind, list(self.cur.pc), self.zb(cond), where))

    def safety(self, cond, kind, what):
        """safety obligation; execution continues under the assumption that it holds"""
        if isinstance(cond, bool):
            if cond: return
        else:
            cond = z3.simplify(cond)
            if z3.is_true(cond): return
            if self.lit_known(cond) is True: return
        self.check(cond, kind, '%s in %s' % (what, self.site()))
        if cond is False or z3.is_false(cond): raise PathEnd()
        self.add_pc(self.cur, cond)

    def site(self):
        """innermost function of the code under verification"""
        for f in reversed(self.stack):
            d = self.dname(f.name)
            if 'ink::' in d.split('(')[0] and not d.startswith(('std::', 'void std::', 'absl::', 'vcshim')): return d[:160]
        for f in reversed(self.stack):
            d = self.dname(f.name)
            if not d.startswith(('std::', 'vcshim', 'absl::')): return d[:160]
        return self.dname(self.stack[-1].name)[:160] if self.stack else ''

    def dname(self, n):
        return self.dem.get(n, n)

    # ---------------------------------------------------------------- values
    def fite(self, c, a, b, ty):
        if isinstance(c, bool): return a if c else b
        return self.fl.ite(c, a, b, ty)

    def collapse(self, ch, ty):
        """Choice -> plain value of type ty"""
        alts = self.live_alts(ch)
        v = self.coerce(alts[-1][1], ty)
        for c, x in reversed(alts[:-1]):
            v = self.ite(c, self.coerce(x, ty), v, ty)
        return v

    def live_alts(self, ch):
        alts = []
        for c, v in ch.alts:
            k = self.lit_known(c) if issym(c) else c
            if k is False: continue
            if k is True: return [(True, v)]
            alts.append((c, v))
        if not alts: raise PathEnd()
        return alts

    def coerce(self, v, ty):
        """v in some representation -> register value of type ty"""
        if isinstance(v, Choice): return self.collapse(v, ty)
        if isinstance(v, Undef):
            return self.fresh_undef(ty)
        if ty.k in ('float', 'double'):
            if isinstance(v, (float, Fraction)): return v
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int): return self.fl.from_bits(v, ty)
            if isinstance(v, Parts):
                if len(v.ps) == 1 and v.ps[0][1] == ty.size: return self.coerce(v.ps[0][2], ty)
                return self.fl.from_bits(self.parts_bv(v), ty)
            if isinstance(v, Ptr): raise Unsupported('ptr->float')
            if z3.is_bv(v): return self.fl.from_bits(v, ty)
            return v
        if ty.k == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, int):
                if v == 0: return NULL
                return Ptr(0, v)
            if issym(v) and z3.is_bv(v):
                v2 = z3.simplify(v)
                if z3.is_bv_value(v2): return self.coerce(v2.as_long(), ty)
                return Ptr(0, v2)
            raise Unsupported('->ptr %r' % (v,))
        if ty.k == 'int':
            if isinstance(v, (Ptr,)): return v
            if isinstance(v, Parts):
                return v
            if isinstance(v, (float, Fraction)):
                return self.fl.to_bits(v, F32 if ty.n == 32 else F64)
            if issym(v) and (z3.is_fp(v) or z3.is_real(v)):
                return Parts(ty.n, [(0, ty.n // 8, v, F32 if ty.n == 32 else F64)])
            if issym(v) and z3.is_bool(v) and ty.n > 1: return self.bv(v, ty.n)
            if isinstance(v, bool) and ty.n > 1: return int(v)
            return v
        return v

    def fresh_undef(self, ty):
        if ty.k == 'int':
            n = self.fresh_name('undef')
            return z3.Bool(n) if ty.n == 1 else z3.BitVec(n, ty.n)
        if ty.k in ('float', 'double'): return self.fl.fresh(self.fresh_name('undef'), ty)
        if ty.k == 'ptr': return UNDEF
        return UNDEF

    def parts_bv(self, p):
        """Parts -> int or bitvector"""
        out = []; pos = 0
        if len(p.ps) == 1 and isinstance(p.ps[0][2], Ptr) and p.n == 64: return p.ps[0][2]
        allc = True
        for off, sz, v, ty in p.ps:
            if isinstance(v, Choice): v = self.coerce(v, IntTy(sz * 8))
            if isinstance(v, Undef): v = z3.BitVec(self.fresh_name('undef'), sz * 8)
            if isinstance(v, Parts): v = self.parts_bv(v)
            if isinstance(v, (float, Fraction)) or (issym(v) and (z3.is_fp(v) or z3.is_real(v))):
                v = self.fl.to_bits(v, F32 if sz == 4 else F64)
            if isinstance(v, Ptr): raise Unsupported('pointer bytes')
            if isinstance(v, bool): v = int(v)
            if not isinstance(v, int): allc = False
            out.append((off, sz, v))
        if allc:
            r = 0
            for off, sz, v in out: r |= v << (8 * off)
            return r
        out.sort(key=lambda x: -x[0])
        l = [self.bv(v, sz * 8) for off, sz, v in out]
        return z3.Concat(*l) if len(l) > 1 else l[0]

    def num(self, v, n):
        """int register value -> int / BV (resolving Parts, Undef)"""
        if isinstance(v, (int,)) : return int(v)
        if isinstance(v, Parts): return self.parts_bv(v)
        if isinstance(v, Undef): return z3.BitVec(self.fresh_name('undef'), n)
        if isinstance(v, Choice):
            w = self.collapse(v, IntTy(n))
            if isinstance(w, Choice): raise Unsupported('num of %r' % w)
            return self.num(w, n)
        return v

    def ite(self, c, a, b, ty):
        """c z3 Bool; a, b register values of type ty"""
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        if isinstance(a, Undef) and isinstance(b, Undef): return a
        if ty.k in ('float', 'double'):
            if isinstance(a, Undef): return b if not self.o['uninit'] else self.fl.ite(c, self.fresh_undef(ty), b, ty)
            if isinstance(b, Undef): return a if not self.o['uninit'] else self.fl.ite(c, a, self.fresh_undef(ty), ty)
            if isinstance(a, (Choice, Parts, int)): a = self.coerce(a, ty)
            if isinstance(b, (Choice, Parts, int)): b = self.coerce(b, ty)
            return self.fl.ite(c, a, b, ty)
        if ty.k == 'int' and not isinstance(a, (Ptr, Parts, Undef, Choice)) and not isinstance(b, (Ptr, Parts, Undef, Choice)):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                if int(a) == int(b): return a
                if ty.n == 1: return c if a else self.Not(c)
            if ty.n == 1:
                a, b = self.tobool(a), self.tobool(b)
                if isinstance(a, bool): return self.Or(c, b) if a else self.And(self.Not(c), b)
                if isinstance(b, bool): return self.Or(self.Not(c), a) if b else self.And(c, a)
                if a.eq(b): return a
                return z3.If(c, a, b)
            a, b = self.bv(a, ty.n), self.bv(b, ty.n)
            if a.eq(b): return a
            return z3.If(c, a, b)
        if ty.k == 'ptr' or ty.k == 'int':
            if self.same(a, b): return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.o != 0 and isinstance(a.o, int):
                return Ptr(a.o, self.ite(c, a.off, b.off, I64))
            if isinstance(a, Parts) and isinstance(b, Parts) and [x[:2] for x in a.ps] == [x[:2] for x in b.ps] \
                    and not any(isinstance(x[2], (Ptr, Choice)) for x in a.ps + b.ps):
                return Parts(a.n, [(x[0], x[1], self.merge_cell(c, x[2], y[2], x[1]), x[3]) for x, y in zip(a.ps, b.ps)])
            if (isinstance(a, Parts) or isinstance(b, Parts)) and not isinstance(a, (Ptr, Choice, Undef)) and not isinstance(b, (Ptr, Choice, Undef)):
                return self.ite(c, self.num(a, ty.n), self.num(b, ty.n), ty)
            return self.mk_choice(c, a, b)
        if ty.k in ('struct', 'packed'):
            if isinstance(a, Undef): a = tuple(UNDEF for _ in ty.els)
            if isinstance(b, Undef): b = tuple(UNDEF for _ in ty.els)
            return tuple(self.ite(c, x, y, t) for x, y, t in zip(a, b, ty.els))
        if ty.k in ('arr', 'vec'):
            if isinstance(a, Undef): a = (UNDEF,) * ty.n
            if isinstance(b, Undef): b = (UNDEF,) * ty.n
            return tuple(self.ite(c, x, y, ty.el) for x, y in zip(a, b))
        raise Unsupported('ite %r' % ty)

    def mk_choice(self, c, a, b):
        alts = []
        for g, v in ((c, a), (self.Not(c), b)):
            if isinstance(v, Choice):
                for c2, v2 in v.alts: alts.append((self.And(g, c2), v2))
            else:
                alts.append((g, v))
        # join equal alternatives
        out = []
        for g, v in alts:
            for i, (g2, v2) in enumerate(out):
                if self.same(v, v2):
                    out[i] = (self.Or(g2, g), v2); break
            else: out.append((g, v))
        if len(out) == 1: return out[0][1]
        if len(out) > 24: raise Unsupported('choice explosion')
        return Choice(out)

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.o == b.o and self.same(a.off, b.off)
        if isinstance(a, Undef) or isinstance(b, Undef): return isinstance(a, Undef) and isinstance(b, Undef)
        if issym(a) and issym(b): return a.eq(b)
        if issym(a) or issym(b): return False
        if isinstance(a, Choice) and isinstance(b, Choice):
            return len(a.alts) == len(b.alts) and all(issym(x[0]) and issym(y[0]) and x[0].eq(y[0]) and self.same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
        if isinstance(a, Parts) and isinstance(b, Parts):
            return len(a.ps) == len(b.ps) and all(x[0] == y[0] and x[1] == y[1] and self.same(x[2], y[2]) for x, y in zip(a.ps, b.ps))
        if type(a) is type(b) or isinstance(a, int) and isinstance(b, int):
            if isinstance(a, tuple): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
            if isinstance(a, float):
                return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
            if isinstance(a, (int, Fraction, bool)): return a == b
        return False

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, size, kind, name=''):
        i = self.next; self.next += 1
        o = Obj(size, kind, name)
        o.owner = st.tok
        st.mem[i] = o
        return Ptr(i, 0)

    def global_ptr(self, st, nm):
        if nm in self.gobj: 
            i = self.gobj[nm]
            if i not in st.mem: st.mem[i] = self.ginitobj[i]
            return Ptr(i, 0)
        if nm in self.m.fn_src or nm in self.m.decls: return Ptr(nm, 0)
        g = self.m.global_def(nm)
        if g[0] == 'alias':
            return self.const(g[1], PTR)
        t, init, const = g
        i = self.next; self.next += 1
        self.gobj[nm] = i
        o = Obj(t.size, 'global', nm)
        o.ro = const
        if not hasattr(self, 'ginitobj'): self.ginitobj = {}
        self.ginitobj[i] = o
        if init is not None: self.init_cells(st, o, 0, init, t)
        elif nm == '@__libc_single_threaded': o.cells[0] = (1, 1)
        st.mem[i] = o
        return Ptr(i, 0)

    def init_cells(self, st, o, off, c, t):
        k = c[0]
        if k == 'zero':
            self.zero_fill(o.cells, off, t.size)
        elif k == 'undef':
            return
        elif k == 'bytes':
            for j, b in enumerate(c[1]): o.cells[off + j] = (1, b)
        elif k == 'agg':
            if t.k in ('struct', 'packed'):
                for j, (et, ec) in enumerate(c[2]): self.init_cells(st, o, off + t.offs[j], ec, layout(et))
            else:
                for j, (et, ec) in enumerate(c[2]): self.init_cells(st, o, off + j * t.el.size, ec, layout(et))
        else:
            o.cells[off] = (t.size, self.const(c, t, st))

    def zero_fill(self, cells, off, n):
        e = off + n
        while off < e:
            s = 8
            while off % s or off + s > e: s //= 2
            cells[off] = (s, 0)
            off += s

    def const(self, c, ty, st=None):
        k = c[0]
        if k == 'int': return c[1]
        if k == 'fp': return self.fl.const(c[1], ty)
        if k == 'null': return NULL
        if k == 'undef': return self.undef_of(ty)
        if k == 'global': return self.global_ptr(st or self.cur, c[1])
        if k == 'zero': return self.zero_of(ty)
        if k == 'agg': return tuple(self.const(x, layout(t), st) for t, x in c[2])
        if k == 'bytes': return tuple(c[1])
        if k == 'gep':
            base = self.const(c[2], PTR, st)
            off = self.gep_off(c[1], [(it, ('c', v)) for (_, v, it) in c[3]], None)
            return self.padd(base, off)
        if k in ('ptrtoint', 'inttoptr', 'bitcast'): 
            return self.coerce(self.const(c[2], c[1], st), c[3])
        if k in ('subexpr', 'addexpr'):
            a, b = self.const(c[2], c[1], st), self.const(c[3], c[1], st)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return (a.off - b.off) & mask(c[1].n)
            if isinstance(a, int) and isinstance(b, int): return (a - b if k == 'subexpr' else a + b) & mask(c[1].n)
        raise Unsupported('const %s' % k)

    def undef_of(self, ty):
        if ty.k in ('struct', 'packed'): return tuple(self.undef_of(t) for t in ty.els)
        if ty.k in ('arr', 'vec'): return tuple(self.undef_of(ty.el) for _ in range(ty.n))
        return UNDEF

    def zero_of(self, ty):
        if ty.k in ('struct', 'packed'): return tuple(self.zero_of(t) for t in ty.els)
        if ty.k in ('arr', 'vec'): return tuple(self.zero_of(ty.el) for _ in range(ty.n))
        if ty.k in ('float', 'double'): return self.fl.const(0.0, ty)
        if ty.k == 'ptr': return NULL
        return 0

    def padd(self, p, off):
        if isinstance(p, Choice):
            return self.map_choice(p, lambda q: self.padd(q, off))
        if isinstance(p, Undef): return p
        if isinstance(p, int): return self.padd(Ptr(0, p), off)
        if isinstance(off, int) and off == 0: return p
        return Ptr(p.o, self.iadd(p.off, off))

    def map_choice(self, ch, f):
        alts = [(c, f(v)) for c, v in self.live_alts(ch)]
        if len(alts) == 1: return alts[0][1]
        return Choice(alts)

    def iadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            r = (a + b) & mask(64)
            return r
        if isinstance(a, int) and a == 0: return b
        if isinstance(b, int) and b == 0: return a
        r = self.bv(a, 64) + self.bv(b, 64)
        return r

    def imul(self, a, k):
        if isinstance(a, int): return (a * k) & mask(64)
        if k == 1: return a
        # push multiplication through ite of constants for readability
        return a * z3.BitVecVal(k, 64)

    def gep_off(self, t, idx, regs):
        off = 0
        first = True
        for it, v in idx:
            i = self.val(v, it, regs) if regs is not None else self.const(v[1], it)
            if first:
                layout(t)
                i = self.sext64(i, it.n)
                off = self.iadd(off, self.imul(i, t.size))
                first = False
            elif t.k in ('struct', 'packed'):
                layout(t); off = self.iadd(off, t.offs[i]); t = t.els[i]
            else:
                layout(t.el); i = self.sext64(i, it.n)
                off = self.iadd(off, self.imul(i, t.el.size)); t = t.el
        return off

    def sext64(self, v, n):
        v = self.num(v, n)
        if isinstance(v, Ptr): raise Unsupported('ptr as index')
        if n == 64: return v
        if isinstance(v, int):
            if v >> (n - 1): v -= 1 << n
            return v & mask(64)
        return z3.SignExt(64 - n, v)

    def sgn64(self, v): return v - (1 << 64) if v >> 63 else v

    def resolve(self, p, size, what):
        """-> [(cond, objid, off)] after null/bounds/free obligations"""
        if isinstance(p, Choice):
            out = []
            live = self.live_alts(p)
            if len(live) > 1:
                # null / invalid alternatives are ruled out by an obligation
                good = [(c, v) for c, v in live if isinstance(v, Ptr) and v.o != 0 and not isinstance(v.o, str)]
                if len(good) < len(live):
                    self.safety(self.Or(*[c for c, v in good]), 'null', what + ' through null/uninitialised pointer')
                    if not good: raise PathEnd()
                live = good
                if len(live) == 1: live = [(True, live[0][1])]
            for c, v in live:
                for c2, o, off in self.resolve1(v, size, what, c):
                    out.append((self.And(c, c2), o, off))
            return out
        return self.resolve1(p, size, what, True)

    def resolve1(self, p, size, what, guard):
        if isinstance(p, Undef):
            self.safety(self.Not(guard) if guard is not True else False, 'null', what + ' through uninitialised pointer'); raise PathEnd()
        if not isinstance(p, Ptr): raise Unsupported('deref %r' % (p,))
        if p.o == 0:
            self.safety(self.Not(guard) if guard is not True else False, 'null', what + ' through null pointer'); raise PathEnd()
        if isinstance(p.o, str): raise Unsupported('deref function')
        o = self.cur.mem.get(p.o)
        if o is None and p.o in self.ginitobj:
            o = self.cur.mem[p.o] = self.ginitobj[p.o]
        if o is None:
            self.safety(self.Not(guard) if guard is not True else False, 'free', what + ' of dead object'); raise PathEnd()
        g = self.Not(guard) if guard is not True else False
        if o.freed is not False:
            self.safety(self.Or(g, self.Not(o.freed)), 'free', what + ' of freed memory')
        off = p.off
        if isinstance(off, int):
            so = self.sgn64(off)
            if isinstance(o.size, int):
                self.safety(True if 0 <= so and so + size <= o.size else g, 'bounds', what + ' out of bounds')
                return [(True, p.o, so)]
            return [(True, p.o, so)]
        off = z3.simplify(off)
        if z3.is_bv_value(off): return self.resolve1(Ptr(p.o, off.as_long()), size, what, guard)
        if size > o.size:
            self.safety(g, 'bounds', what + ' out of bounds'); raise PathEnd()
        cond = z3.ULE(off, z3.BitVecVal(o.size - size, 64))
        self.safety(self.Or(g, cond), 'bounds', what + ' out of bounds')
        cands = self.offsets(off, o, size)
        if not cands: raise Unsupported('symbolic offset %s' % str(off)[:300])
        return [(off == z3.BitVecVal(k, 64), p.o, k) for k in cands]

    def leaf_consts(self, e, acc, depth=0):
        if z3.is_bv_value(e): acc.add(e.as_long()); return True
        if z3.is_app_of(e, z3.Z3_OP_ITE) and depth < 200:
            return self.leaf_consts(e.arg(1), acc, depth + 1) and self.leaf_consts(e.arg(2), acc, depth + 1)
        return False

    def offsets(self, off, o, size):
        acc = set()
        if self.leaf_consts(off, acc) and len(acc) <= 256:
            return sorted(k for k in acc if k + size <= o.size)
        # enumerate with the solver
        if o.size > 65536: raise Unsupported('symbolic offset in huge object')
        # stride: known divisor of the offset expression
        s = z3.Solver(); s.set('timeout', 2000)
        fast_add(s, self.cur.pc)
        out = []
        while len(out) <= 300:
            r = s.check()
            if r == z3.unsat: return sorted(out)
            if r == z3.unknown: raise Unsupported('offset enumeration')
            k = s.model().eval(off, model_completion=True).as_long()
            out.append(k)
            s.add(off != k)
        raise Unsupported('too many offsets')

    def load(self, p, ty):
        if ty.k in ('struct', 'packed'):
            return tuple(self.load(self.padd(p, ty.offs[i]), layout(t)) for i, t in enumerate(ty.els))
        if ty.k in ('arr', 'vec'):
            return tuple(self.load(self.padd(p, i * ty.el.size), ty.el) for i in range(ty.n))
        alts = self.resolve(p, store_size(ty), 'load')
        vals = [(c, self.load_at(self.cur.mem[o], off, ty)) for c, o, off in alts]
        if len(vals) == 1: return vals[0][1]
        v = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            v = self.ite(c, x, v, ty)
        return v

    def load_at(self, o, off, ty):
        size = store_size(ty)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, Undef): return UNDEF
            if ty.k == 'int' and ty.n == 1:
                v = self.coerce(v, I8)
                if isinstance(v, int): return v & 1
                if z3.is_bool(v): return v
                return self.tobool(self.num(v, 8))
            return self.coerce(v, ty)
        ps = self.cover(o, off, size)
        if not ps: return UNDEF
        if ty.k == 'int' and len(ps) == 1 and ps[0][0] == 0 and ps[0][1] == size: return self.coerce(ps[0][2], ty)
        if ty.k in ('float', 'double'):
            return self.coerce(Parts(size * 8, self.fill(ps, size)), ty)
        if ty.k == 'ptr':
            if all(isinstance(v, int) for _, _, v, _ in ps) and sum(x[1] for x in ps) == 8:
                return self.coerce(self.parts_bv(Parts(64, ps)), ty)
            if len(ps) == 1: return self.coerce(ps[0][2], ty)
            raise Unsupported('partial pointer load')
        ps = self.fill(ps, size)
        if all(isinstance(v, int) for _, _, v, _ in ps): return self.parts_bv(Parts(size * 8, ps)) & mask(ty.n)
        if size * 8 != ty.n: 
            return self.trunc(Parts(size * 8, ps), size * 8, ty.n)
        return Parts(ty.n, ps)

    def fill(self, ps, size):
        out = []; pos = 0
        for x in ps:
            if x[0] > pos: out.append((pos, x[0] - pos, UNDEF, None))
            out.append(x); pos = x[0] + x[1]
        if pos < size: out.append((pos, size - pos, UNDEF, None))
        return out

    def cover(self, o, off, size):
        """pieces of [off,off+size) -> [(rel, size, val, ty)]"""
        out = []
        k = off
        end = off + size
        cells = o.cells
        # look back for an overlapping earlier cell
        for b in range(off - 1, max(-1, off - 32), -1):
            c = cells.get(b)
            if c is not None:
                if b + c[0] > off:
                    n = min(end, b + c[0]) - off
                    out.append((0, n, self.subcell(c, off - b, n), None))
                    k = off + n
                break
        while k < end:
            c = cells.get(k)
            if c is None: k += 1; continue
            n = c[0]
            if k + n > end:
                out.append((k - off, end - k, self.subcell(c, 0, end - k), None)); break
            out.append((k - off, n, c[1], None))
            k += n
        return out

    def subcell(self, c, rel, n):
        size, v = c
        if isinstance(v, Undef): return UNDEF
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return (v >> (8 * rel)) & mask(8 * n)
        if isinstance(v, Choice):
            return self.map_choice(v, lambda x: self.subcell((size, x), rel, n))
        if isinstance(v, Parts):
            for o, s, x, t in v.ps:
                if o == rel and s == n: return x
                if o <= rel and rel + n <= o + s: return self.subcell((s, x), rel - o, n)
            ps = [(o - rel, s, x, t) for o, s, x, t in v.ps if o >= rel and o + s <= rel + n]
            if sum(x[1] for x in ps) == n: return Parts(n * 8, ps)
            v = self.parts_bv(v)
        if isinstance(v, Ptr): raise Unsupported('sub-pointer access')
        if isinstance(v, (float, Fraction)) or issym(v) and (z3.is_fp(v) or z3.is_real(v)):
            v = self.fl.to_bits(v, F32 if size == 4 else F64)
            if isinstance(v, int): return (v >> (8 * rel)) & mask(8 * n)
        if z3.is_bool(v): v = self.bv(v, 8 * size)
        return z3.simplify(z3.Extract(8 * (rel + n) - 1, 8 * rel, v))

    def clear_range(self, o, off, size):
        cells = o.cells
        end = off + size
        for b in range(off - 1, max(-1, off - 32), -1):
            c = cells.get(b)
            if c is not None:
                if b + c[0] > off:
                    cells[b] = (off - b, self.subcell(c, 0, off - b))
                    if b + c[0] > end:
                        cells[end] = (b + c[0] - end, self.subcell(c, end - b, b + c[0] - end))
                break
        k = off
        if size > 4 * len(cells):
            ks = sorted(x for x in cells if off <= x < end)
        else:
            ks = [x for x in range(off, end) if x in cells]
        for k in ks:
            c = cells.pop(k)
            if k + c[0] > end:
                cells[end] = (k + c[0] - end, self.subcell(c, end - k, k + c[0] - end))

    def store(self, p, v, ty):
        if ty.k in ('struct', 'packed'):
            if isinstance(v, Undef): v = self.undef_of(ty)
            for i, t in enumerate(ty.els): self.store(self.padd(p, ty.offs[i]), v[i], layout(t))
            return
        if ty.k in ('arr', 'vec'):
            if isinstance(v, Undef): v = self.undef_of(ty)
            for i in range(ty.n): self.store(self.padd(p, i * ty.el.size), v[i], ty.el)
            return
        size = store_size(ty)
        alts = self.resolve(p, size, 'store')
        if len(alts) == 1:
            _, oid, off = alts[0]
            o = self.cur.wobj(oid)
            if o.ro: self.safety(False, 'bounds', 'store to constant'); raise PathEnd()
            if o.cells.get(off, (0,))[0] != size: self.clear_range(o, off, size)
            o.cells[off] = (size, v)
            if isinstance(v, Parts) and v.n == size * 8:
                del o.cells[off]
                for po, ps, pv, pt in v.ps:
                    if not isinstance(pv, Undef): o.cells[off + po] = (ps, pv)
            return
        for c, oid, off in alts:
            old = self.load_at(self.cur.mem[oid], off, ty)
            nv = self.ite(c, v, old, ty) if not isinstance(old, Undef) or issym(c) else v
            o = self.cur.wobj(oid)
            if o.cells.get(off, (0,))[0] != size: self.clear_range(o, off, size)
            o.cells[off] = (size, nv)

    def one(self, p, size, what):
        """resolve to a single location, forking on alternatives"""
        alts = self.resolve(p, size, what)
        for c, o, off in alts[:-1]:
            if self.decide(c): return o, off
        return alts[-1][1], alts[-1][2]

    def memcpy(self, d, s, n, move=False):
        n = self.conc_int(n, 'memcpy size')
        if n == 0: return
        so, soff = self.one(s, n, 'memcpy read')
        do, doff = self.one(d, n, 'memcpy write')
        ps = self.cover(self.cur.mem[so], soff, n)
        o = self.cur.wobj(do)
        self.clear_range(o, doff, n)
        for rel, sz, v, _ in ps:
            if isinstance(v, Parts) and v.n == sz * 8:
                for po, pz, pv, pt in v.ps:
                    if not isinstance(pv, Undef): o.cells[doff + rel + po] = (pz, pv)
            else:
                o.cells[doff + rel] = (sz, v)

    def memset(self, d, v, n):
        n = self.conc_int(n, 'memset size')
        if n == 0: return
        do, doff = self.one(d, n, 'memset')
        o = self.cur.wobj(do)
        self.clear_range(o, doff, n)
        v = self.num(v, 8)
        if isinstance(v, int) and v == 0: self.zero_fill(o.cells, doff, n)
        else:
            for i in range(n): o.cells[doff + i] = (1, v)

    def conc_int(self, v, what, limit=64):
        """value must be concrete; fork on its possible values otherwise"""
        v = self.num(v, 64)
        if isinstance(v, int): return v
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        acc = set()
        if self.leaf_consts(v, acc) and len(acc) <= limit:
            l = sorted(acc)
        else:
            s = z3.Solver(); s.set('timeout', 2000)
            fast_add(s, self.cur.pc)
            l = []
            while True:
                r = s.check()
                if r == z3.unsat: break
                if r == z3.unknown or len(l) > limit: raise Unsupported('concretise ' + what)
                k = s.model().eval(v, model_completion=True).as_long()
                l.append(k); s.add(v != k)
        live = []
        for k in l:
            d = self.decide(v == k, force=False)
            if d is True: return k
            if d is None: live.append(k)
        if not live: raise PathEnd()
        if len(live) == 1 and len(l) > 0:
            # last candidate: all others excluded
            return live[0]
        raise NeedFork(z3.simplify(v == live[0]))

    # ---------------------------------------------------------------- integer ops
    def trunc(self, v, n, m):
        if isinstance(v, Parts):
            if m % 8 == 0:
                r = self.subcell((n // 8, v), 0, m // 8)
                if isinstance(r, Undef): return r
                return self.coerce(r, IntTy(m))
            v = self.parts_bv(v)
        if isinstance(v, Undef): return v
        if isinstance(v, Choice): return self.trunc(self.collapse(v, IntTy(n)), n, m)
        if isinstance(v, Ptr):
            if m < 4 and isinstance(v.off, int): return v.off & mask(m)
            raise Unsupported('trunc ptr')
        if isinstance(v, int): return int(v) & mask(m)
        if m == 1: return self.tobool(v)
        if z3.is_bool(v): return self.bv(v, m)
        if v.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and v.arg(0).size() == m: return v.arg(0)
        return self.fold(z3.Extract(m - 1, 0, v))

    def fold(self, e):
        return e

    def intbin(self, op, ty, a, b, fl):
        n = ty.n
        if n == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and' : return self.And(a, b)
            if op == 'or': return self.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool): return self.Not(a) if b else a
                if isinstance(a, bool): return self.Not(b) if a else b
                return z3.Xor(a, b)
            if op == 'mul': return self.And(a, b)
            raise Unsupported('i1 ' + op)
        # Parts-preserving special cases
        if isinstance(a, Choice): a = self.collapse(a, ty)
        if isinstance(b, Choice): b = self.collapse(b, ty)
        if isinstance(a, Parts) and isinstance(b, int) and not isinstance(b, bool):
            if op == 'lshr' and b % 8 == 0:
                k = b // 8
                ps = [(o - k, s, v, t) for o, s, v, t in a.ps if o >= k]
                if all(not (o < k < o + s) for o, s, v, t in a.ps):
                    ps.append((n // 8 - k, k, 0, None))
                    return Parts(n, ps) if len(ps) > 1 or ps[0][1] != n // 8 else self.coerce(ps[0][2], ty)
            if op == 'shl' and b % 8 == 0:
                k = b // 8
                if all(o + s <= n // 8 - k or isinstance(v, int) and v == 0 for o, s, v, t in a.ps):
                    return Parts(n, [(0, k, 0, None)] + [(o + k, s, v, t) for o, s, v, t in a.ps if o + s <= n // 8 - k])
            if op == 'and' and b and (b & (b + 1)) == 0 and b.bit_length() % 8 == 0:
                k = b.bit_length() // 8
                if all(not (o < k < o + s) for o, s, v, t in a.ps):
                    return Parts(n, [x for x in a.ps if x[0] < k] + [(k, n // 8 - k, 0, None)])
        if op == 'or' and (isinstance(a, Parts) or isinstance(b, Parts)):
            m = self.or_parts(a, b, n)
            if m is not None: return m
        a, b = self.num(a, n), self.num(b, n)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrint(op, a, b, n)
        if isinstance(a, int) and isinstance(b, int):
            return self.cint(op, n, a, b)
        if op in ('and', 'or', 'xor', 'add', 'sub', 'shl', 'lshr'):
            r = self.ite_bin(op, a, b, n)
            if r is not None: return r
        A, B = self.bv(a, n), self.bv(b, n)
        if op == 'add':
            if isinstance(b, int) and b == 0: return a
            if isinstance(a, int) and a == 0: return b
            return A + B
        if op == 'sub':
            if isinstance(b, int) and b == 0: return a
            return A - B
        if op == 'mul':
            if isinstance(b, int) and b == 1: return a
            if isinstance(a, int) and a == 1: return b
            return A * B
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.safety(B != 0, 'div0', 'division by zero')
            if op == 'udiv':
                if isinstance(b, int) and b & (b - 1) == 0: return z3.LShR(A, b.bit_length() - 1)
                return z3.UDiv(A, B)
            if op == 'urem':
                if isinstance(b, int) and b & (b - 1) == 0: return A & (b - 1)
                return z3.URem(A, B)
            if op == 'sdiv':
                if isinstance(b, int) and b & (b - 1) == 0 and 'exact' in fl: return A >> (b.bit_length() - 1)
                return A / B
            return z3.SRem(A, B)
        if op in ('shl', 'lshr', 'ashr'):
            self.safety(z3.ULT(B, n), 'shift', 'shift amount out of range')
            return A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if x == 0: return 0
                    if x == mask(n): return y
            return A & B
        if op == 'or':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and x == 0: return y
            return A | B
        if op == 'xor': return A ^ B
        raise Unsupported(op)

    def or_parts(self, a, b, n):
        """or of integers with disjoint non-zero byte ranges"""
        def pieces(x):
            if isinstance(x, Parts): return [p for p in x.ps if not (isinstance(p[2], int) and p[2] == 0)]
            if isinstance(x, int):
                out = []
                for i in range(n // 8):
                    bt = (x >> (8 * i)) & 255
                    if bt: out.append((i, 1, bt, None))
                return out
            return self.zext_pieces(x, n)
        pa, pb = pieces(a), pieces(b)
        if pa is None or pb is None: return None
        ps = sorted(pa + pb, key=lambda p: p[0])
        for x, y in zip(ps, ps[1:]):
            if x[0] + x[1] > y[0]: return None
        out = []; pos = 0
        for p in ps:
            if p[0] > pos: out.append((pos, p[0] - pos, 0, None))
            out.append(p); pos = p[0] + p[1]
        if pos < n // 8: out.append((pos, n // 8 - pos, 0, None))
        return Parts(n, out)

    def zext_pieces(self, x, n):
        if issym(x) and z3.is_bv(x):
            if x.decl().kind() == z3.Z3_OP_ZERO_EXT and x.arg(0).size() % 8 == 0:
                return [(0, x.arg(0).size() // 8, x.arg(0), None)]
            if x.decl().kind() == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() % 8 == 0:
                k = x.arg(1).as_long() // 8
                y = x.arg(0)
                if y.decl().kind() == z3.Z3_OP_ZERO_EXT and y.arg(0).size() % 8 == 0 and y.arg(0).size() // 8 + k <= n // 8:
                    return [(k, y.arg(0).size() // 8, y.arg(0), None)]
        return None

    def ptrint(self, op, a, b, n):
        if op == 'sub':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    if isinstance(a.off, int) and isinstance(b.off, int): return (a.off - b.off) & mask(64)
                    return self.bv(a.off, 64) - self.bv(b.off, 64)
                raise Unsupported('difference of unrelated pointers')
            if isinstance(a, Ptr): return self.padd(a, (-b) & mask(64) if isinstance(b, int) else -b)
            if isinstance(b, Ptr) and b.o == 0: return self.intbin('sub', I64, a, b.off, ())
        if op == 'add':
            if isinstance(a, Ptr) and not isinstance(b, Ptr): return self.padd(a, b)
            if isinstance(b, Ptr) and not isinstance(a, Ptr): return self.padd(b, a)
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int):
            if b < 16: return a.off & b
            if b >= mask(64) - 15: return Ptr(a.o, a.off & b)
        raise Unsupported('pointer arithmetic ' + op)

    def cint(self, op, n, a, b):
        M = mask(n)
        s = lambda x: x - (1 << n) if x >> (n - 1) else x
        if op == 'add': return (a + b) & M
        if op == 'sub': return (a - b) & M
        if op == 'mul': return (a * b) & M
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= n: self.safety(False, 'shift', 'shift amount out of range')
            return (a << b) & M if op == 'shl' else a >> b if op == 'lshr' else (s(a) >> b) & M
        if b == 0: self.safety(False, 'div0', 'division by zero')
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        x, y = s(a), s(b)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        if op == 'sdiv': return q & M
        return (x - q * y) & M

    def two(self, v):
        """v as (cond, k1, k2) when it takes one of two constants"""
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return (True, v, v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = v.children()
            if z3.is_bv_value(x) and z3.is_bv_value(y): return (c, x.as_long(), y.as_long())
        return None

    def ite_bin(self, op, a, b, n):
        x = self.two(a)
        if x is None: return None
        y = self.two(b)
        if y is None: return None
        c, a1, a2 = x; d, b1, b2 = y
        r = [[self.cint(op, n, p, q) for q in (b1, b2)] for p in (a1, a2)]
        if any(not isinstance(q, int) for p in r for q in p): return None
        vals = sorted({q for p in r for q in p})
        if len(vals) == 1: return vals[0]
        if len(vals) != 2: return None
        hi = vals[1]
        nc, nd = self.Not(c), self.Not(d)
        f = self.Or(*[self.And(cc, dd) for cc, p in ((c, r[0]), (nc, r[1])) for dd, q in ((d, p[0]), (nd, p[1])) if q == hi])
        if isinstance(f, bool): return hi if f else vals[0]
        f = z3.simplify(f)
        if z3.is_true(f): return hi
        if z3.is_false(f): return vals[0]
        return z3.If(f, z3.BitVecVal(hi, n), z3.BitVecVal(vals[0], n))

    def icmp(self, pr, ty, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            if ty.k == 'ptr' or ty.n == 64:
                A = self.live_alts(a) if isinstance(a, Choice) else [(True, a)]
                B = self.live_alts(b) if isinstance(b, Choice) else [(True, b)]
                r = []
                for c, x in A:
                    for d, y in B:
                        r.append(self.And(c, d, self.icmp(pr, ty, x, y)))
                return self.Or(*r)
            if isinstance(a, Choice): a = self.collapse(a, ty)
            if isinstance(b, Choice): b = self.collapse(b, ty)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrcmp(pr, a, b)
        if isinstance(a, Undef) and ty.k == 'ptr' or isinstance(b, Undef) and ty.k == 'ptr':
            return z3.Bool(self.fresh_name('undef'))
        n = ty.n
        if n == 1:
            a, b = self.tobool(a), self.tobool(b)
            if pr in ('eq', 'ne'):
                if isinstance(b, bool): r = a if b else self.Not(a)
                elif isinstance(a, bool): r = b if a else self.Not(b)
                else: r = a == b
                return r if pr == 'eq' else self.Not(r)
            a, b = self.bv(a, 8), self.bv(b, 8)
            n = 8
            if pr[0] == 's': raise Unsupported('signed i1 compare')
        a, b = self.num(a, n), self.num(b, n)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptrcmp(pr, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == 's':
                if a >> (n - 1): a -= 1 << n
                if b >> (n - 1): b -= 1 << n
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr if pr in ('eq', 'ne') else pr[1:]]
        # constants through ite / zext of bool
        r = self.cmp_ite(pr, a, b, n, 0)
        if r is not None: return r
        if self.sints and pr[0] != 'u':
            x, y = self.sint(a, n), self.sint(b, n)
            if x is not None and y is not None:
                return {'eq': lambda: x == y, 'ne': lambda: z3.Not(x == y), 'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[pr]()
        A, B = self.bv(a, n), self.bv(b, n)
        if pr == 'eq': return A == B
        if pr == 'ne': return z3.Not(A == B)
        return {'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
                'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[pr]()

    def sint(self, a, n):
        if isinstance(a, int): return z3.IntVal(a - (1 << n) if a >> (n - 1) else a)
        if z3.is_bv_value(a): return z3.IntVal(a.as_signed_long())
        r = self.sints.get(a.get_id())
        return r[0] if r else None

    def is_sint(self, bv, t):
        self.sints[bv.get_id()] = (t, bv)
        return bv

    def cmp_ite(self, pr, a, b, n, d):
        if d > 12: return None
        def isc(x): return isinstance(x, int) or z3.is_bv_value(x)
        if isc(a) and isc(b):
            x = a if isinstance(a, int) else a.as_long()
            y = b if isinstance(b, int) else b.as_long()
            return self.icmp(pr, IntTy(n), x, y)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isc(y) and issym(x):
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    def go(z): return self.cmp_ite(pr, *((z, y) if not sw else (y, z)), n, d + 1)
                    u = go(x.arg(1))
                    if u is None: return None
                    v = go(x.arg(2))
                    if v is None: return None
                    return self.ite(x.arg(0), u, v, I1)
                if x.decl().kind() == z3.Z3_OP_ZERO_EXT and pr in ('eq', 'ne'):
                    yv = y if isinstance(y, int) else y.as_long()
                    m = x.arg(0).size()
                    if yv >> m: return pr == 'ne'
                    return self.icmp(pr, IntTy(m), x.arg(0), yv)
        return None

    def ptrcmp(self, pr, a, b):
        if isinstance(a, int): a = Ptr(0, a)
        if isinstance(b, int): b = Ptr(0, b)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            if isinstance(a, Undef) or isinstance(b, Undef): return z3.Bool(self.fresh_name('undef'))
            raise Unsupported('ptrcmp %r %r' % (a, b))
        if a.o == b.o and not isinstance(a.o, str):
            return self.icmp(pr, I64, a.off, b.off)
        if a.o == b.o: return pr in ('eq', 'uge', 'ule')
        if pr == 'eq': return False
        if pr == 'ne': return True
        if a.o == 0 or b.o == 0:
            return {'ult': a.o == 0, 'ule': a.o == 0, 'ugt': b.o == 0, 'uge': b.o == 0}[pr]
        # unrelated objects: arbitrary but consistent order
        x, y = str(a.o).zfill(9), str(b.o).zfill(9)
        return {'ult': x < y, 'ule': x < y, 'ugt': x > y, 'uge': x > y}[pr]

    # ---------------------------------------------------------------- real helpers
    def real_div(self, a, b):
        self.safety(b != 0, 'div0', 'real division by zero')
        return a / b

    def real_sqrt(self, a):
        a = z3.simplify(a)
        if z3.is_rational_value(a): return self.fl.sqrt(Fraction(a.numerator_as_long(), a.denominator_as_long()), F64)
        k = a.get_id()
        if k not in self.sqrt_cache:
            s = z3.Real(self.fresh_name('sqrt'))
            self.sqrt_cache[k] = (s, a)
            self.axioms.append(z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)))
        self.safety(a >= 0, 'sqrt', 'square root of a negative number')
        return self.sqrt_cache[k][0]

    def libm_uf(self, name, args, ty):
        """trusted libm function as an axiomatised uninterpreted function"""
        if self.mode == 'real' and len(args) == 1 and z3.is_app(args[0]) and args[0].decl().kind() == z3.Z3_OP_ITE:
            c, x, y = args[0].children()
            return z3.If(c, self.libm_uf(name, [x], ty), self.libm_uf(name, [y], ty))
        key = (name, ty.k) + tuple(a.get_id() for a in args)
        if key in self.libm_apps: return self.libm_apps[key][0]
        if self.mode == 'real':
            s = z3.RealSort(); zero = z3.RealVal(0)
            le = lambda x, y: x <= y
            K = lambda x: z3.RealVal(Fraction(x))
        else:
            s = SORT[ty.k]
            le = z3.fpLEQ
            K = lambda x: z3.FPVal(x, s)
        if name in ('sin', 'cos') and self.mode == 'real':
            # parity
            q = z3.simplify(args[0])
            if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_MUL and q.num_args() == 2 and z3.is_rational_value(q.arg(0)) and q.arg(0).as_fraction() == -1:
                r = self.libm_uf(name, [q.arg(1)], ty)
                r = r if name == 'cos' else -r
                self.libm_apps[key] = (r, args)
                return r
        f = z3.Function('libm_%s_%s' % (name, ty.k), *([a.sort() for a in args] + [s]))
        r = f(*args)
        ax = []
        fin = lambda x: True if self.mode == 'real' else self.fl.fpclass(x, 504, ty)
        x = args[0]
        def rng(lo, hi, pre):
            ax.append(z3.Implies(self.zb(pre), z3.And(le(K(lo), r), le(r, K(hi)))))
        from fl import f32 as _f32
        R = (lambda v: _f32(v)) if ty.k == 'float' else (lambda v: v)
        if name in ('sin', 'cos'):
            rng(-1.0, 1.0, fin(x))
            if self.mode == 'real':
                o = z3.Function('libm_%s_%s' % ('cos' if name == 'sin' else 'sin', ty.k), s, s)(x)
                if (('cos' if name == 'sin' else 'sin'), ty.k, args[0].get_id()) not in self.libm_apps: ax.append(r * r + o * o == 1)
                ax.append(z3.Implies(x == 0, r == (0 if name == 'sin' else 1)))
        elif name in ('atan2', 'atan', 'asin', 'acos'):
            pre = self.And(*[fin(a) for a in args]) if name != 'atan' else True
            hi = R(math.pi) if name in ('atan2', 'acos') else R(math.pi / 2)
            lo = 0.0 if name == 'acos' else -hi
            if name in ('asin', 'acos'): pre = self.And(le(K(-1.0), x), le(x, K(1.0)))
            if self.mode != 'real' and name in ('atan2',):
                pre = self.Not(self.Or(*[self.fl.cmp('uno', a, a, ty) for a in args]))
            rng(lo, hi, pre)
            if name == 'atan2' and self.mode == 'real':
                # polar coordinates: h*(cos r, sin r) = (x, y), h = |(x,y)|
                y, x = args
                h = self.libm_uf('hypot', [x, y], ty)
                ax.append(h * self.libm_uf('cos', [r], ty) == x)
                ax.append(h * self.libm_uf('sin', [r], ty) == y)
            if name == 'acos' and self.mode == 'real':
                c, sn = self.libm_uf('cos', [r], ty), self.libm_uf('sin', [r], ty)
                ok = z3.And(-1 <= x, x <= 1)
                ax.append(z3.Implies(ok, z3.And(c == x, sn >= 0, (r == K(hi)) == (x == -1), (r == 0) == (x == 1))))
        elif name == 'fmod':
            y = args[1]
            if self.mode == 'real':
                self.safety(y != 0, 'div0', 'fmod by zero')
                k = z3.Int(self.fresh_name('fmodk'))
                ay = z3.If(y >= 0, y, -y); ar = z3.If(r >= 0, r, -r)
                ax.append(z3.Implies(y != 0, z3.And(x == z3.ToReal(k) * y + r, ar < ay, z3.Or(r == 0, (r > 0) == (x > 0)),
                    z3.Implies(z3.And(-ay < x, x < ay), r == x))))
            else:
                nx = self.fl.cmp('uno', x, y, ty)
                ok = self.And(self.Not(nx), fin(x), self.Not(z3.fpIsZero(y)))
                ax.append(z3.Implies(self.zb(ok), z3.And(fin(r), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(x)),
                    z3.fpLT(z3.fpAbs(r), z3.fpAbs(y)),
                    z3.fpIsNegative(r) == z3.fpIsNegative(x),
                    z3.Implies(z3.fpLT(z3.fpAbs(x), z3.fpAbs(y)), r == x))))
                ax.append(z3.Implies(z3.Not(self.zb(ok)), z3.fpIsNaN(r)))
        elif name == 'hypot':
            if self.mode == 'real':
                ax.append(z3.And(r >= 0, r * r == args[0] * args[0] + args[1] * args[1]))
            else:
                y = args[1]
                ax.append(z3.Implies(self.zb(self.Not(self.fl.cmp('uno', x, y, ty))), z3.And(z3.fpLEQ(z3.fpAbs(x), r), z3.fpLEQ(z3.fpAbs(y), r))))
                ax.append(z3.Implies(z3.And(z3.fpIsZero(x), z3.fpIsZero(y)), z3.fpIsZero(r)))
                ax.append(z3.Implies(z3.fpIsZero(r), z3.And(z3.fpIsZero(x), z3.fpIsZero(y))))
        elif name in ('exp', 'exp2'):
            if self.mode == 'real': ax.append(r > 0)
            else: ax.append(z3.Implies(self.zb(self.Not(self.fl.cmp('uno', x, x, ty))), z3.fpGEQ(r, K(0.0))))
            if self.mode != 'real':
                ax.append(z3.Implies(z3.fpLEQ(x, K(0.0)), z3.fpLEQ(r, K(1.0))))
            else:
                ax.append(z3.Implies(x <= 0, r <= 1))
        elif name == 'pow':
            self.pow_axioms(args[0], args[1], r, ty, ax)
        self.trusted.add('libm ' + name)
        self.libm_apps[key] = (r, args)
        self.axioms.extend(ax)
        return r

    def pow_axioms(self, x, y, r, ty, ax):
        """pow with a positive exponent on non-negative arguments: bounds, monotonicity, inverse exponents"""
        real = self.mode == 'real'
        if real:
            K = lambda v: z3.RealVal(Fraction(v)); le = lambda a, b: a <= b; ge = lambda a, b: a >= b; ok = lambda v: True
        else:
            s = r.sort()
            K = lambda v: z3.FPVal(v, s); le = z3.fpLEQ; ge = z3.fpGEQ; ok = lambda v: z3.Not(z3.fpIsNaN(v))
        I = z3.Implies; An = lambda *l: self.zb(self.And(*l))
        pre = z3.And(ge(x, K(0.0)), ge(y, K(0.0)))
        one = K(1.0)
        ax.append(I(pre, An(ok(r), ge(r, K(0.0)))))
        ax.append(I(z3.And(pre, le(x, one)), le(r, one)))
        ax.append(I(z3.And(pre, ge(x, one)), ge(r, one)))
        ax.append(I(z3.And(pre, ge(y, one), ge(x, one)), ge(r, x)))
        ax.append(I(z3.And(pre, ge(y, one), le(x, one)), le(r, x)))
        ax.append(I(z3.And(pre, le(y, one), ge(x, one)), le(r, x)))
        ax.append(I(z3.And(pre, le(y, one), le(x, one)), ge(r, x)))
        if ty.k == 'double':
            ax.append(I(z3.And(pre, le(x, K(1e100)), le(y, K(3.0))), le(r, K(1e301))))
        for x2, y2, r2 in self.pows:
            if not z3.eq(y2, y): continue
            p2 = z3.And(ge(x, K(0.0)), ge(x2, K(0.0)), ge(y, K(0.0)))
            ax.append(I(z3.And(p2, le(x, x2)), le(r, r2)))
            ax.append(I(z3.And(p2, le(x2, x)), le(r2, r)))
        if real and z3.is_rational_value(y):
            # (z^w)^y = z when w*y = 1 up to rounding of the exponents
            for x2, y2, r2 in self.pows:
                if z3.is_rational_value(y2) and abs(y2.as_fraction() * y.as_fraction() - 1) < Fraction(1, 10**15):
                    for a, b, c, d in ((x, r, x2, r2), (x2, r2, x, r)):
                        # b = a^y, d = c^y2: if a = d then b = c
                        ax.append(I(z3.And(a == d, c >= Fraction(1, 10**30), c <= 10**30), z3.And(b - c <= c / 10**12, c - b <= c / 10**12)))
        self.pows.append((x, y, r))

    def pow_const(self, x, y, v, ty):
        """register the value of a ground application so that monotonicity relates it to symbolic ones"""
        key = ('powc', ty.k, x, y)
        if key in self.libm_apps: return
        lift = (lambda q: z3.RealVal(Fraction(q))) if self.mode == 'real' else (lambda q: z3.FPVal(float(q), SORT[ty.k]))
        X, Y, R = lift(x), lift(y), lift(v)
        self.libm_apps[key] = (R, (X, Y))
        if self.mode == 'real':
            # the computed value is within one part in 10^14 of the exact power
            q = z3.Real(self.fresh_name('powc'))
            self.axioms.append(z3.And(q >= R - abs(Fraction(v)) / 10**14, q <= R + abs(Fraction(v)) / 10**14))
            R = q
        ax = []
        for x2, y2, r2 in self.pows:
            if z3.eq(y2, Y):
                le = (lambda a, b: a <= b) if self.mode == 'real' else z3.fpLEQ
                if x < 0: continue
                ax.append(z3.Implies(le(X, x2), le(R, r2)))
                ax.append(z3.Implies(z3.And(le(lift(0.0), x2), le(x2, X)), le(r2, R)))
        self.axioms.extend(ax)
        self.pows.append((X, Y, R))
        self.trusted.add('libm pow')

    # ---------------------------------------------------------------- evaluation
    def val(self, o, ty, regs):
        if o[0] == 'r':
            return regs[o[1]]
        return self.const(o[1], ty)

    def flt(self, v, ty):
        if isinstance(v, (Undef, Choice, Parts, int)): return self.coerce(v, ty)
        return v

    # run fn on state: returns list of (state, ret)
    def run(self, nm, args, st):
        f = self.m.func(nm)
        if f is None: raise Unsupported('no body for ' + self.dname(nm))
        if len(self.stack) > 150: raise Unsupported('recursion depth')
        self.fnused[nm] = self.fnused.get(nm, 0) + 1
        self.stack.append(f)
        try:
            return self.run_body(f, args, st)
        except Exception:
            if not getattr(self, 'err_stack', None): self.err_stack = [self.dname(x.name) for x in self.stack]
            raise
        finally:
            self.stack.pop()

    def run_body(self, f, args, st):
        regs = {}
        for (pn, pt, bv), a in zip(f.params, args): regs[pn] = a
        allocas = set()
        rets = []
        pend = {f.entry: [(st, regs, None, 0)]}   # block -> [(state, regs, pred, iters)]
        iters = {}
        while pend:
            b = min(pend, key=lambda x: self.prio(f, x, pend))
            items = pend.pop(b)
            # phi evaluation per incoming edge
            items2 = []
            for (s, rg, pred) in [(x[0], x[1], x[2]) for x in items]:
                rg2 = rg
                phis = []
                for ins in f.code[b]:
                    if ins.op != 'phi': break
                    for v, pb in ins.a:
                        if pb == pred:
                            phis.append((ins.dst, self.cval(v, ins.ty, rg, s)))
                            break
                rg2 = {k: v for k, v in rg.items() if k in f.live[b]}
                for d, v in phis: rg2[d] = v
                items2.append((s, rg2))
            if len(items2) > 1: items2 = self.merge_all(items2, f)
            if b in f.headers:
                it = iters.get(b, 0) + 1
                iters[b] = it
                if it > self.o['max_iter']:
                    for s, rg in items2:
                        self.cur = s
                        self.check(False, 'unwind', 'loop bound %d in %s' % (self.o['max_iter'], self.dname(f.name)))
                    self.bounded_hits.add(self.dname(f.name))
                    continue
                # leaving inner loops resets their counters
                for h in f.loops.get(b, ()):
                    if h != b and h in iters: iters[h] = 0
            if len(items2) > self.o['max_states']: raise Unsupported('too many states in ' + self.dname(f.name))
            for s, rg in items2:
                self.exec_block(f, b, s, rg, pend, rets, allocas)
        # merge returns
        out = []
        for s, v in rets:
            for a in allocas:
                s.mem.pop(a, None)
        if len(rets) > 1:
            l = self.merge_all([(s, {'ret': v}) for s, v in rets], f, final=True)
            return [(s, r['ret']) for s, r in l]
        return rets

    def prio(self, f, b, pend):
        p = f.prio[b]
        if b in f.headers:
            # back edge arrivals wait for the rest of the loop body
            body = f.loops.get(b, ())
            for o in pend:
                if o != b and o in body: return max(f.prio[x] for x in body) + 0.5
        return p

    def cval(self, v, ty, rg, s):
        if v[0] == 'r': return rg.get(v[1], UNDEF)
        self.cur = s
        return self.const(v[1], ty, s)

    def exec_block(self, f, b, st, regs, pend, rets, allocas, start=0):
        """execute block b from instruction index start in state st"""
        work = [(st, regs, start)]
        code = f.code[b]
        while work:
            st, regs, i = work.pop()
            self.cur = st
            try:
                while True:
                    ins = code[i]
                    op = ins.op
                    if op == 'phi': i += 1; continue
                    self.instrs += 1
                    if op == 'br' or op == 'switch' or op == 'ret' or op == 'unreachable':
                        self.terminator(f, b, ins, st, regs, pend, rets)
                        break
                    if op == 'call':
                        r = self.call(ins, regs, st, allocas)
                        if len(r) == 1:
                            st, v = r[0]
                            self.cur = st
                            if ins.dst: regs[ins.dst] = v
                        else:
                            for s2, v in r:
                                rg = dict(regs)
                                if ins.dst: rg[ins.dst] = v
                                work.append((s2, rg, i + 1))
                            break
                    else:
                        self.step(ins, regs, st, allocas)
                    i += 1
            except PathEnd:
                continue
            except NeedFork as e:
                c = e.cond
                c = z3.simplify(c)
                ok1 = self.sat(st, c); ok2 = self.sat(st, z3.Not(c))
                s2 = st.fork() if ok1 is not False and ok2 is not False else st
                if ok1 is not False:
                    self.learn(st, c)
                    work.append((st, dict(regs), i))
                if ok2 is not False:
                    self.learn(s2, self.Not(c))
                    work.append((s2, dict(regs), i))
                if len(work) > 4 * self.o['max_states']: raise Unsupported('fork explosion')

    def learn(self, st, c):
        try:
            self.add_pc(st, c)
        except PathEnd:
            pass
        if issym(c):
            self.alive.append(c)  # 'known' is keyed by term id: the term must outlive it
            if z3.is_not(c): st.known[c.arg(0).get_id()] = False
            st.known[c.get_id()] = True

    def terminator(self, f, b, ins, st, regs, pend, rets):
        op = ins.op
        if op == 'ret':
            rets.append((st, None if ins.a is None else self.val(ins.a, ins.ty, regs)))
            return
        if op == 'unreachable':
            self.check(False, 'unreachable', 'unreachable code in %s' % self.dname(f.name))
            return
        if op == 'br':
            if ins.a is None:
                pend.setdefault(ins.x[0], []).append((st, regs, b)); return
            c = self.tobool(self.val(ins.a, I1, regs))
            if not isinstance(c, bool):
                k = self.decide(c, force=False)
                if k is None: c = z3.simplify(c)
                else: c = k
            if isinstance(c, bool):
                pend.setdefault(ins.x[0 if c else 1], []).append((st, regs, b)); return
            t1, t2 = True, True
            if self.want_check(f, b, ins, st):
                r = self.sat(st, c)
                if r is False: t1 = False
                else:
                    r = self.sat(st, z3.Not(c))
                    if r is False: t2 = False
            if t1 and t2:
                s2 = st.fork()
                self.learn(st, c)
                pend.setdefault(ins.x[0], []).append((st, regs, b))
                self.learn(s2, self.Not(c))
                pend.setdefault(ins.x[1], []).append((s2, dict(regs), b))
            elif t1: pend.setdefault(ins.x[0], []).append((st, regs, b))
            elif t2: pend.setdefault(ins.x[1], []).append((st, regs, b))
            return
        if op == 'switch':
            v = self.num(self.val(ins.a, ins.ty, regs), ins.ty.n)
            d, cases = ins.x
            if isinstance(v, int):
                for k, t in cases:
                    if k == v:
                        pend.setdefault(t, []).append((st, regs, b)); return
                pend.setdefault(d, []).append((st, regs, b)); return
            # group by target
            tg = {}
            for k, t in cases: tg.setdefault(t, []).append(k)
            n = ins.ty.n
            eqs = {k: self.zb(self.icmp('eq', ins.ty, v, k)) for k, t in cases}
            dflt = self.And(*[self.Not(x) for x in eqs.values()])
            outs = [(t, self.Or(*[eqs[k] for k in ks])) for t, ks in tg.items() if t != d]
            if d in tg: dflt = self.Or(dflt, *[eqs[k] for k in tg[d]])
            outs.append((d, dflt))
            live = []
            for t, c in outs:
                if isinstance(c, bool):
                    if c: live.append((t, c))
                    continue
                c = z3.simplify(c)
                k = self.decide(c, force=False)
                if k is False: continue
                if k is None and self.sat(st, c) is False: continue
                live.append((t, True if k is True else c))
            for j, (t, c) in enumerate(live):
                s2 = st.fork() if j < len(live) - 1 else st
                if c is not True: self.learn(s2, c)
                pend.setdefault(t, []).append((s2, dict(regs), b))
            return

    def want_check(self, f, b, ins, st):
        bc = self.o['branch_check']
        if bc == 'always': return True
        if bc == 'never': return False
        for h, body in f.loops.items():
            if b in body: return True
        return len(st.pc) < 40 and self.mode != 'real' or len(self.stack) < 3

    # ---------------------------------------------------------------- merging
    def merge_all(self, items, f, final=False):
        """items: [(state, regs)] -> merged list"""
        items = list(items)
        if self.o.get('nomerge'): return self.merge_equal(items) if self.o.get('joinequal') else items
        failed = set()
        while len(items) > 1:
            best = None
            # closest pair first (longest common pc prefix)
            for i in range(len(items)):
                for j in range(i + 1, len(items)):
                    if (id(items[i][0]), id(items[j][0])) in failed: continue
                    p, q = items[i][0].pc, items[j][0].pc
                    k = 0; m = min(len(p), len(q))
                    while k < m and p[k].get_id() == q[k].get_id(): k += 1
                    if best is None or k > best[0]: best = (k, i, j)
            if best is None: break
            k, i, j = best
            m = self.merge(items[i], items[j], k, f, force=len(items) > self.o['max_states'] // 2)
            if m is None:
                failed.add((id(items[i][0]), id(items[j][0])))
                continue
            keep = items[j]
            items[i] = m
            del items[j]
            # keep objects alive so ids stay unique
            self._keep = getattr(self, '_keep', []); self._keep.append(keep)
        return items

    def merge(self, A, B, k, f, force=False):
        s1, r1 = A; s2, r2 = B
        x1, x2 = s1.pc[k:], s2.pc[k:]
        if not x1:
            g = self.Not(x2[0]) if False else None
        # selection condition
        if not x1 and not x2:
            c = True
        elif not x1 or not x2:
            # one path condition implies the other: choose by the longer one
            if x1: c = self.And(*x1)
            else: c = self.Not(self.And(*x2))
        else:
            n1 = self.Not(x1[0])
            if n1.eq(x2[0]) or self.Not(x2[0]).eq(x1[0]): c = x1[0]
            else: c = self.And(*x1)
        if c is True: return A
        self.merging = True
        # state for facts during merging: prefix only
        base = State()
        try:
            # memory
            mem = {}
            ids = set(s1.mem) | set(s2.mem)
            for i in ids:
                a, b = s1.mem.get(i), s2.mem.get(i)
                if a is b or b is None: mem[i] = a; continue
                if a is None: mem[i] = b; continue
                m = self.merge_obj(c, a, b, force)
                if m is None: return None
                mem[i] = m
            regs = {}
            for r in set(r1) | set(r2):
                a, b = r1.get(r, UNDEF), r2.get(r, UNDEF)
                regs[r] = self.merge_reg(c, a, b)
        except NeedFork:
            return None
        except Unsupported:
            return None
        st = State()
        st.mem = mem
        st.pc = s1.pc[:k]
        rest1, rest2 = self.And(*x1), self.And(*x2)
        d = self.simp_or(x1, x2)
        # known facts: those of both
        st.known = {q: v for q, v in s1.known.items() if s2.known.get(q) == v}
        st.counts = {q: max(s1.counts.get(q, 0), s2.counts.get(q, 0)) for q in set(s1.counts) | set(s2.counts)}
        if d is not True: 
            st.pc.append(d); self.alive.append(d); st.known[d.get_id()] = True
        return (st, regs)

    def same_obj(self, a, b):
        if a is b or a.cells is b.cells and a.freed is b.freed: return True
        if a is None or b is None: return (a or b).freed is True
        if not self.same(a.freed, b.freed): return False
        if a.freed is True: return True
        if a.size is not b.size and a.size != b.size or len(a.cells) != len(b.cells): return False
        for k, x in a.cells.items():
            y = b.cells.get(k)
            if y is None or x is not y and (x[0] != y[0] or not self.same(x[1], y[1])): return False
        return True

    def same_state(self, A, B):
        s1, r1 = A; s2, r2 = B
        if s1.counts != s2.counts or r1.keys() != r2.keys(): return False
        for r, a in r1.items():
            if not self.same(a, r2[r]): return False
        for i, a in s1.mem.items():
            b = s2.mem.get(i)
            if a is not b and not (a.freed is True if b is None else self.same_obj(a, b)): return False
        for i, b in s2.mem.items():
            if i not in s1.mem and b.freed is not True: return False
        return True

    def merge_equal(self, items):
        """join states that differ only in how they were reached"""
        groups = []
        for it in items:
            for g in groups:
                if self.same_state(g[0], it): g.append(it); break
            else: groups.append([it])
        out = []
        for g in groups:
            if len(g) == 1: out.append(g[0]); continue
            g.sort(key=lambda it: [c.get_id() for c in it[0].pc])
            lcp = lambda p, q: next((i for i, (x, y) in enumerate(zip(p, q)) if x.get_id() != y.get_id()), min(len(p), len(q)))
            while len(g) > 1:
                k, i = max((lcp(g[i][0].pc, g[i + 1][0].pc), i) for i in range(len(g) - 1))
                s1, s2 = g[i][0], g[i + 1][0]
                st = s1.fork()
                x1, x2 = s1.pc[k:], s2.pc[k:]
                st.pc = s1.pc[:k]
                d = self.simp_or(x1, x2)
                st.known = {q: v for q, v in s1.known.items() if s2.known.get(q) == v}
                if d is not True:
                    if issym(d): d = z3.simplify(d)
                    self.alive += [d, s1, s2]
                    self.add_pc(st, d)
                g[i:i + 2] = [(st, g[i][1])]
            out.append(g[0])
        return out

    def simp_or(self, x1, x2):
        if not x1 or not x2: return True
        a, b = x1[0], x2[0]
        if self.Not(a).eq(b) or self.Not(b).eq(a):
            if len(x1) == 1 and len(x2) == 1: return True
            if len(x1) == 1: return self.Or(a, self.And(*x2[1:]))
            if len(x2) == 1: return self.Or(b, self.And(*x1[1:]))
        return self.Or(self.And(*x1), self.And(*x2))

    def merge_reg(self, c, a, b):
        if a is b: return a
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.merge_reg(c, x, y) for x, y in zip(a, b))
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, Undef): return tuple(self.merge_reg(c, UNDEF, y) for y in b)
            if isinstance(b, Undef): return tuple(self.merge_reg(c, x, UNDEF) for x in a)
            raise Unsupported('merge')
        return self.merge_val(c, a, b)

    def merge_val(self, c, a, b):
        if self.same(a, b): return a
        t = self.kind(a), self.kind(b)
        if t[0] == t[1] and t[0] is not None:
            return self.ite(c, a, b, t[0])
        # int constant vs bitvector / bool
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (int, bool)) and issym(y):
                if z3.is_bool(y): return self.ite(c, a, b, I1)
                if z3.is_bv(y): return self.ite(c, a, b, IntTy(y.size()))
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            # width unknown: keep guarded
            return self.mk_choice(c, a, b)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return self.ite(c, a, b, I1)
        return self.mk_choice(c, a, b)

    def kind(self, v):
        if isinstance(v, Ptr): return PTR
        if isinstance(v, bool): return I1
        if isinstance(v, Fraction): return F32
        if isinstance(v, float): return None if self.mode != 'real' else F32
        if issym(v):
            if z3.is_fp(v): return F32 if v.sort().ebits() == 8 else F64
            if z3.is_real(v): return F32
            if z3.is_bool(v): return I1
            if z3.is_bv(v): return IntTy(v.size())
        return None

    def merge_obj(self, c, a, b, force):
        o = Obj(a.size, a.kind, a.name)
        o.ro = a.ro
        o.freed = a.freed if a.freed is b.freed else self.ite(c, a.freed, b.freed, I1)
        if o.freed is True: return o
        ca, cb = a.cells, b.cells
        if ca is cb: o.cells = dict(ca); return o
        cells = {}
        keys = set(ca) | set(cb)
        irregular = False
        for k in keys:
            x, y = ca.get(k), cb.get(k)
            if x is y: cells[k] = x; continue
            if x is not None and y is not None and x[0] == y[0]:
                v = self.merge_cell(c, x[1], y[1], x[0])
                if isinstance(v, Choice) and not force and not a.freed and not b.freed:
                    if any(isinstance(w, Ptr) for _, w in v.alts) and not any(isinstance(w, Undef) for _, w in v.alts):
                        if self.o.get('fork_ptr', True) and a.kind != 'stack?': return None
                cells[k] = (x[0], v)
            else:
                irregular = True
        if irregular:
            # different cell structure on the two sides: cut at all common boundaries
            cells2 = {}
            done = set()
            for k in sorted(keys):
                if k in done: continue
                x, y = ca.get(k), cb.get(k)
                if x is not None and y is not None and x[0] == y[0]:
                    cells2[k] = cells[k] if k in cells else x
                    continue
                # extent of the irregular cluster
                end = k + max(x[0] if x else 0, y[0] if y else 0)
                ch = True
                while ch:
                    ch = False
                    for q in keys:
                        if k <= q < end:
                            for cc in (ca.get(q), cb.get(q)):
                                if cc and q + cc[0] > end: end = q + cc[0]; ch = True
                pa = self.cover(a, k, end - k); pb = self.cover(b, k, end - k)
                cuts = sorted({p[0] for p in pa} | {p[0] + p[1] for p in pa} | {p[0] for p in pb} | {p[0] + p[1] for p in pb} | {0, end - k})
                coarse_a = {(p[0], p[1]): p[2] for p in pa}; coarse_b = {(p[0], p[1]): p[2] for p in pb}
                if not pa or not pb:
                    for p in pa or pb:
                        cells2[k + p[0]] = (p[1], self.mk_choice(c, p[2], UNDEF) if pa else self.mk_choice(c, UNDEF, p[2]))
                else:
                    for lo, hi in zip(cuts, cuts[1:]):
                        u = self.piece(a, k + lo, hi - lo); w = self.piece(b, k + lo, hi - lo)
                        if u is UNDEF and w is UNDEF: continue
                        cells2[k + lo] = (hi - lo, self.merge_cell(c, u, w, hi - lo))
                for q in keys:
                    if k <= q < end: done.add(q)
            cells = cells2
        o.cells = cells
        return o

    def piece(self, o, off, n):
        ps = self.cover(o, off, n)
        if not ps: return UNDEF
        if len(ps) == 1 and ps[0][0] == 0 and ps[0][1] == n: return ps[0][2]
        ps = self.fill(ps, n)
        return Parts(n * 8, ps)

    def merge_cell(self, c, a, b, size):
        if self.same(a, b): return a
        ka, kb = self.kind(a), self.kind(b)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        isint = lambda v: isinstance(v, int) or (issym(v) and (z3.is_bv(v) or z3.is_bool(v)))
        isfl = lambda v: isinstance(v, (float, Fraction)) or (issym(v) and (z3.is_fp(v) or z3.is_real(v)))
        if isint(a) and isint(b):
            if isinstance(a, int) and isinstance(b, int): 
                return z3.If(c, z3.BitVecVal(a, size * 8), z3.BitVecVal(b, size * 8))
            if issym(a) and z3.is_bool(a) and size == 1 and (issym(b) and z3.is_bool(b) or b in (0, 1)):
                return self.ite(c, a, b, I1)
            if issym(b) and z3.is_bool(b) and size == 1 and (a in (0, 1) if isinstance(a, int) else False):
                return self.ite(c, a, b, I1)
            return self.ite(c, self.bv(a, size * 8), self.bv(b, size * 8), IntTy(size * 8))
        if isfl(a) and isfl(b): return self.fl.ite(c, a, b, F32 if size == 4 else F64)
        if isint(a) and isfl(b) or isfl(a) and isint(b):
            # zero-filled memory vs float
            ft = F32 if size == 4 else F64
            x, y = (a, b) if isfl(a) else (b, a)
            if isinstance(y, int):
                a2 = a if isfl(a) else self.fl.from_bits(a, ft)
                b2 = b if isfl(b) else self.fl.from_bits(b, ft)
                return self.fl.ite(c, a2, b2, ft)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and isinstance(a.o, int) and a.o != 0:
            return Ptr(a.o, self.ite(c, a.off, b.off, I64))
        return self.mk_choice(c, a, b)

    # ---------------------------------------------------------------- instructions
    def step(self, ins, regs, st, allocas):
        op = ins.op
        V = lambda o, t: self.val(o, t, regs)
        ty = ins.ty
        if op == 'alloca':
            n = 1
            if ins.a is not None: n = self.conc_int(V(ins.a[1], ins.a[0]), 'alloca')
            p = self.new_obj(st, ty.size * n, 'stack', ins.dst)
            allocas.add(p.o)
            regs[ins.dst] = p
        elif op == 'load':
            regs[ins.dst] = self.load(V(ins.a[0], PTR), ty)
        elif op == 'store':
            self.store(V(ins.a[1], PTR), V(ins.a[0], ty), ty)
        elif op == 'getelementptr':
            off = self.gep_off(ty, ins.x, regs)
            p = V(ins.a, PTR)
            if issym(off):
                off = z3.simplify(off)
                if z3.is_bv_value(off): off = off.as_long()
            regs[ins.dst] = self.padd(p, off)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if ty.k == 'vec':
                a, b = V(ins.a[0], ty), V(ins.a[1], ty)
                regs[ins.dst] = tuple(self.fl.bin(op, self.flt(x, ty.el), self.flt(y, ty.el), ty.el) for x, y in zip(a, b))
            else:
                regs[ins.dst] = self.fl.bin(op, self.flt(V(ins.a[0], ty), ty), self.flt(V(ins.a[1], ty), ty), ty)
        elif op in BIN:
            a, b = V(ins.a[0], ty), V(ins.a[1], ty)
            if ty.k == 'vec':
                regs[ins.dst] = tuple(self.intbin(op, ty.el, x, y, ins.x) for x, y in zip(a, b))
            else:
                regs[ins.dst] = self.intbin(op, ty, a, b, ins.x)
        elif op == 'fneg':
            a = V(ins.a[0], ty)
            regs[ins.dst] = tuple(self.fl.neg(self.flt(x, ty.el), ty.el) for x in a) if ty.k == 'vec' else self.fl.neg(self.flt(a, ty), ty)
        elif op == 'icmp':
            a, b = V(ins.a[0], ty), V(ins.a[1], ty)
            if ty.k == 'vec': regs[ins.dst] = tuple(self.icmp(ins.x, ty.el, x, y) for x, y in zip(a, b))
            else: regs[ins.dst] = self.settled(self.icmp(ins.x, ty, a, b))
        elif op == 'fcmp':
            a, b = V(ins.a[0], ty), V(ins.a[1], ty)
            if ty.k == 'vec': regs[ins.dst] = tuple(self.fl.cmp(ins.x, self.flt(x, ty.el), self.flt(y, ty.el), ty.el) for x, y in zip(a, b))
            else: regs[ins.dst] = self.settled(self.fl.cmp(ins.x, self.flt(a, ty), self.flt(b, ty), ty))
        elif op == 'select':
            c = V(ins.a[0], ins.x)
            a, b = V(ins.a[1], ty), V(ins.a[2], ty)
            if ins.x.k == 'vec':
                regs[ins.dst] = tuple(self.ite(self.tobool(q), x, y, ty.el) for q, x, y in zip(c, a, b))
            else:
                c = self.tobool(c)
                if not isinstance(c, bool):
                    # addresses stay concrete on every path
                    addr = self.o.get('nomerge') and (ty.k == 'ptr' or ty.k == 'int' and ty.n == 64)
                    k = self.decide(c, force=bool(addr))
                    c = z3.simplify(c) if k is None else k
                regs[ins.dst] = self.ite(c, a, b, ty)
        elif op in CAST:
            src, fl = ins.x
            v = V(ins.a[0], src)
            if ty.k == 'vec' and op != 'bitcast':
                regs[ins.dst] = tuple(self.cast(op, x, src.el, ty.el) for x in v)
            else:
                regs[ins.dst] = self.cast(op, v, src, ty)
        elif op == 'freeze':
            v = V(ins.a[0], ty)
            regs[ins.dst] = self.coerce(v, ty) if isinstance(v, Undef) else v
        elif op == 'extractvalue':
            v = V(ins.a[0], ty)
            t = ty
            for k in ins.x:
                v = v[k] if not isinstance(v, Undef) else v
            regs[ins.dst] = v
        elif op == 'insertvalue':
            v = V(ins.a[0], ty)
            if isinstance(v, Undef): v = self.undef_of(ty)
            regs[ins.dst] = self.insval(v, V(ins.a[1], None if ins.a[1][0] == 'r' else self.elty(ty, ins.x)), ins.x)
        elif op == 'extractelement':
            v = V(ins.a[0], ty); i = self.conc_int(V(ins.a[1], I64), 'vector index')
            regs[ins.dst] = v[i]
        elif op == 'insertelement':
            v = V(ins.a[0], ty); i = self.conc_int(V(ins.a[2], I64), 'vector index')
            if isinstance(v, Undef): v = self.undef_of(ty)
            e = V(ins.a[1], ty.el)
            regs[ins.dst] = v[:i] + (e,) + v[i + 1:]
        elif op == 'shufflevector':
            v = V(ins.a[0], ty); w = V(ins.a[1], ty); m = V(ins.a[2], ins.x)
            if isinstance(v, Undef): v = self.undef_of(ty)
            if isinstance(w, Undef): w = self.undef_of(ty)
            vw = v + w
            regs[ins.dst] = tuple(UNDEF if isinstance(k, Undef) else vw[k] for k in m)
        elif op == 'atomicrmw':
            p = V(ins.a[0], PTR); v = V(ins.a[1], ty)
            old = self.load(p, ty)
            if ins.x in BIN: nv = self.intbin(ins.x, ty, old, v, ())
            elif ins.x == 'xchg': nv = v
            else: raise Unsupported('atomicrmw ' + ins.x)
            self.store(p, nv, ty)
            regs[ins.dst] = old
        elif op == 'cmpxchg':
            p = V(ins.a[0], PTR); c = V(ins.a[1], ty); n = V(ins.a[2], ty)
            old = self.load(p, ty)
            eq = self.icmp('eq', ty, old, c)
            self.store(p, self.ite(eq, n, old, ty), ty)
            regs[ins.dst] = (old, eq)
        else:
            raise Unsupported('instruction ' + op + ' ' + str(ins.x))

    def elty(self, ty, idx):
        for k in idx:
            ty = ty.els[k] if ty.k in ('struct', 'packed') else ty.el
        return layout(ty)

    def insval(self, v, w, idx):
        if not idx: return w
        if isinstance(v, Undef): raise Unsupported('insertvalue undef')
        return v[:idx[0]] + (self.insval(v[idx[0]], w, idx[1:]),) + v[idx[0] + 1:]

    def cast(self, op, v, src, ty):
        if op == 'bitcast':
            return self.bitcast(v, src, ty)
        if op == 'trunc':
            return self.trunc(v, src.n, ty.n)
        if op in ('zext', 'sext'):
            if isinstance(v, Choice): v = self.collapse(v, src)
            if src.n == 1:
                v = self.tobool(v)
                one = 1 if op == 'zext' else mask(ty.n)
                if isinstance(v, bool): return one if v else 0
                return z3.If(v, z3.BitVecVal(one, ty.n), z3.BitVecVal(0, ty.n))
            if op == 'zext' and isinstance(v, Parts):
                return Parts(ty.n, v.ps + [(src.n // 8, (ty.n - src.n) // 8, 0, None)])
            if op == 'zext' and issym(v) and (z3.is_fp(v) or z3.is_real(v)): raise Unsupported('zext float')
            v = self.num(v, src.n)
            if isinstance(v, int):
                if op == 'sext' and v >> (src.n - 1): v -= 1 << src.n
                return v & mask(ty.n)
            if isinstance(v, Ptr): raise Unsupported('ext ptr')
            if op == 'sext' and v.get_id() in self.sints: return self.is_sint(z3.SignExt(ty.n - src.n, v), self.sint(v, src.n))
            if op == 'zext' and v.get_id() in self.uints:
                r = z3.ZeroExt(ty.n - src.n, v)
                self.uints[r.get_id()] = (self.uints[v.get_id()][0], r)
                return r
            return z3.ZeroExt(ty.n - src.n, v) if op == 'zext' else z3.SignExt(ty.n - src.n, v)
        if op in ('fpext', 'fptrunc'):
            return self.fl.conv(self.flt(v, src), src, ty)
        if op in ('fptosi', 'fptoui'):
            r, ok = self.fl.to_int(self.flt(v, src), src, ty.n, op == 'fptosi')
            self.safety(ok, 'fptoint', 'float to int conversion out of range')
            if issym(r) and z3.is_app_of(r, z3.Z3_OP_INT2BV):
                if op == 'fptosi': self.is_sint(r, r.arg(0))
                else: self.uints[r.get_id()] = (r.arg(0), r)
            return r
        if op in ('sitofp', 'uitofp'):
            v = self.num(v, src.n)
            if src.n == 1:
                b = self.tobool(v)
                one = self.fl.const(1.0 if op == 'uitofp' else -1.0, ty)
                return self.fite(b, one, self.fl.const(0.0, ty), ty)
            if op == 'uitofp' and issym(v) and v.get_id() in self.uints: return z3.ToReal(self.uints[v.get_id()][0])
            if op == 'sitofp' and issym(v) and v.get_id() in self.sints: return z3.ToReal(self.sint(v, src.n))
            return self.fl.from_int(v, src.n, op == 'sitofp', ty)
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.o == 0: return self.trunc(v.off, 64, ty.n) if ty.n != 64 else v.off
            if ty.n != 64: raise Unsupported('ptrtoint narrow')
            return v
        if op == 'inttoptr':
            return self.coerce(v, PTR)
        raise Unsupported(op)

    def bitcast(self, v, src, ty):
        if src.k == 'ptr' and ty.k == 'ptr': return v
        if isinstance(v, Undef): return self.undef_of(ty)
        if src.k == 'vec' or ty.k == 'vec':
            # through bytes
            o = Obj(max(src.size, ty.size), 'tmp')
            if src.k == 'vec':
                for i, x in enumerate(v):
                    if not isinstance(x, Undef): o.cells[i * src.el.size] = (src.el.size, x)
            else:
                if isinstance(v, Parts):
                    for po, ps, pv, pt in v.ps:
                        if not isinstance(pv, Undef): o.cells[po] = (ps, pv)
                else: o.cells[0] = (src.size, v)
            if ty.k == 'vec': return tuple(self.load_at(o, i * ty.el.size, ty.el) for i in range(ty.n))
            return self.load_at(o, 0, ty)
        return self.coerce(v, ty)

    # ---------------------------------------------------------------- calls
    def call(self, ins, regs, st, allocas):
        callee = ins.x
        if callee[0] == 'c' and callee[1][0] == 'global':
            nm = callee[1][1]
        else:
            p = self.val(callee, PTR, regs)
            if isinstance(p, Choice):
                alts = self.live_alts(p)
                for c, v in alts[:-1]:
                    if self.decide(c): p = v; break
                else: p = alts[-1][1]
            if not isinstance(p, Ptr) or not isinstance(p.o, str):
                self.safety(False, 'null', 'call through invalid pointer'); raise PathEnd()
            nm = p.o
        if nm.startswith('@llvm.'):
            if nm.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.assume', '@llvm.experimental.noalias', '@llvm.invariant', '@llvm.donothing')):
                return [(st, None)]
        args = []
        for at, v, bv in ins.a:
            if v is None: args.append(None); continue
            x = self.val(v, at, regs)
            if bv is not None:
                q = self.new_obj(st, layout(bv).size, 'stack', 'byval')
                allocas.add(q.o)
                self.memcpy(q, x, bv.size)
                x = q
            args.append(x)
        stub = self.stubs.get(nm)
        if stub and not (self.stack and self.stack[-1].name == stub):
            nm = stub
        h = self.builtin(nm)
        if h is not None:
            r = h(self, args, ins, st)
            if isinstance(r, list): return r
            return [(self.cur, r)]
        if nm in self.m.fn_src or (nm in self.m.glob_src):
            return self.run(nm, args, st)
        raise Unsupported('external function %s' % self.dname(nm))

    def builtin(self, nm):
        import builtins_vc
        return builtins_vc.lookup(self, nm)
