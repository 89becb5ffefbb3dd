"""Parser for the subset of LLVM 18 textual IR that clang produces for /repo."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
  "(?:[^"\\]|\\.)*"            |
  c"(?:[^"\\]|\\.)*"           |
  [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+) |
  [!\#][-a-zA-Z$._0-9]*        |
  0x[KMLHR]?[0-9A-Fa-f]+       |
  [-+]?\d+\.\d*(?:e[-+]?\d+)?  |
  [-+]?\d+                     |
  [a-zA-Z_][a-zA-Z_0-9.]*      |
  \.\.\.                       |
  [=,(){}\[\]<>*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'size', 'align', 'offs', 'name')

    def __init__(self, k, n=0, el=None, els=None):
        self.k, self.n, self.el, self.els = k, n, el, els
        self.size = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.els))
        return self.k


_int = {}


def IntTy(n):
    if n not in _int:
        t = Ty('int', n)
        b = max(1, (n + 7) // 8)
        p = 1
        while p < b: p *= 2
        t.size = b if b in (1, 2, 4, 8, 16) else p
        t.align = min(p, 16)
        _int[n] = t
    return _int[n]


F32 = Ty('float'); F32.size = F32.align = 4
F64 = Ty('double'); F64.size = F64.align = 8
F80 = Ty('x86_fp80'); F80.size = F80.align = 16
PTR = Ty('ptr'); PTR.size = PTR.align = 8
VOID = Ty('void'); VOID.size = 0; VOID.align = 1
META = Ty('metadata'); META.size = 0; META.align = 1
I1, I8, I16, I32, I64 = map(IntTy, (1, 8, 16, 32, 64))


def layout(t):
    if t.size is not None: return t
    if t.k == 'arr':
        layout(t.el); t.size = t.n * t.el.size; t.align = t.el.align
    elif t.k == 'vec':
        layout(t.el)
        t.size = t.n * t.el.size
        p = 1
        while p < t.size: p *= 2
        t.size = p; t.align = min(p, 16) if p else 1
    elif t.k in ('struct', 'packed'):
        o = 0; al = 1; offs = []
        for e in t.els:
            layout(e)
            a = 1 if t.k == 'packed' else e.align
            o = (o + a - 1) // a * a
            offs.append(o); o += e.size
            al = max(al, a)
        t.offs = offs
        t.align = al
        t.size = (o + al - 1) // al * al
    elif t.k == 'opaque':
        t.size = 0; t.align = 1
    else:
        raise Exception('layout ' + t.k)
    return t


class Parser:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x: raise Exception('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit(): t = IntTy(int(x[1:]))
        elif x == 'float': t = F32
        elif x == 'double': t = F64
        elif x == 'x86_fp80': t = F80
        elif x == 'ptr': t = PTR
        elif x == 'void': t = VOID
        elif x == 'metadata': t = META
        elif x == 'label': t = META
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = Ty('packed', els=self.typelist('}')); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vec', n, e)
        elif x == '{':
            t = Ty('struct', els=self.typelist('}'))
        elif x[0] == '%':
            t = self.m.named_type(x)
        else:
            raise Exception('type? %s in %s' % (x, ' '.join(self.t)))
        while self.peek() == '(':   # function type
            d = 0
            while True:
                y = self.next()
                if y == '(': d += 1
                if y == ')':
                    d -= 1
                    if d == 0: break
            t = Ty('fn', el=t)
        return t

    def typelist(self, end):
        out = []
        if self.accept(end): return out
        while True:
            out.append(self.type())
            if self.accept(end): return out
            self.expect(',')

    PATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture',
             'readonly', 'writeonly', 'readnone', 'returned', 'nofree', 'immarg', 'swiftself',
             'nest', 'allocptr', 'noext', 'allocalign', 'noreturn', 'writable', 'dead_on_unwind'}

    def pattrs(self):
        byval = None
        while True:
            p = self.peek()
            if p in self.PATTR: self.next()
            elif p == 'align': self.next(); self.skip_num()
            elif p in ('dereferenceable', 'dereferenceable_or_null'):
                self.next(); self.expect('('); self.next(); self.expect(')')
            elif p in ('sret', 'byval', 'elementtype', 'inalloca', 'preallocated', 'byref'):
                self.next()
                if self.accept('('):
                    t = self.type(); self.expect(')')
                    if p == 'byval': byval = t
            else:
                return byval

    def skip_num(self):
        if self.accept('('): self.next(); self.expect(')')
        else: self.next()

    # operand: ('c', const) | ('r', name)
    def value(self, ty):
        x = self.peek()
        if x[0] == '%':
            self.next(); return ('r', x)
        return ('c', self.const(ty))

    def const(self, ty):
        x = self.next()
        if x[0] == '@': return ('global', x)
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x in ('null',): return ('null',)
        if x == 'none': return ('null',)
        if x in ('undef', 'poison'): return ('undef', ty)
        if x == 'zeroinitializer': return ('zero', ty)
        if x[0] == 'c' and len(x) > 1 and x[1] == '"': return ('bytes', unesc(x[2:-1]))
        if x.startswith('0x'):
            if ty.k == 'x86_fp80': return ('fp', float('nan'))
            v = struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
            return ('fp', v)
        if re.match(r'[-+]?\d', x):
            if ty.k in ('float', 'double', 'x86_fp80'): return ('fp', float(x))
            return ('int', int(x) & ((1 << ty.n) - 1))
        if x == '[' or x == '{' or x == '<':
            if x == '<' and self.peek() == '{':
                self.next(); end = '}'
            else:
                end = {'[': ']', '{': '}', '<': '>'}[x]
            out = []
            if not self.accept(end):
                while True:
                    t = self.type(); out.append((t, self.const(t)))
                    if self.accept(end): break
                    self.expect(',')
            if x == '<' and end == '}': self.expect('>')
            return ('agg', ty, out)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and False: pass
            self.expect('(')
            t = self.type(); self.expect(',')
            pt = self.type(); base = self.const(pt)
            idx = []
            while self.accept(','):
                if self.accept('inrange'): pass
                it = self.type(); idx.append(('c', self.const(it), it))
            self.expect(')')
            return ('gep', t, base, idx)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext'):
            self.expect('('); t = self.type(); v = self.const(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return (x, t, v, t2)
        if x in ('sub', 'add'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.expect('('); t = self.type(); a = self.const(t); self.expect(','); self.type(); b = self.const(t); self.expect(')')
            return (x + 'expr', t, a, b)
        raise Exception('const? %s in %s' % (x, ' '.join(self.t[:60])))


def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'dbg')

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x

    def __repr__(self): return '%s=%s %r %r %r' % (self.dst, self.op, self.ty, self.a, self.x)


class Func:
    def __init__(self, name): self.name = name


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
        'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'disjoint', 'nneg', 'nusw'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.globals = {}
        self.glob_src = {}
        self.fn_src = {}
        self.fns = {}
        self.decls = set()
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.fn_src['@' + m.group(1)] = lines[i:j]
                i = j
            elif l.startswith('%'):
                nm, rest = l.split(' = type ', 1)
                self.type_src[nm] = rest
            elif l.startswith('@'):
                nm, rest = l.split(' = ', 1)
                self.glob_src[nm] = rest
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls.add('@' + m.group(1))
            i += 1

    def named_type(self, nm):
        if nm in self.types: return self.types[nm]
        src = self.type_src.get(nm)
        if src is None or src.strip() == 'opaque':
            t = Ty('opaque'); t.size = 0; t.align = 1
            self.types[nm] = t
            return t
        t = Ty('struct')
        self.types[nm] = t
        t2 = Parser(self, tokenize(src)).type()
        t.k, t.n, t.el, t.els = t2.k, t2.n, t2.el, t2.els
        t.name = nm
        return t

    def global_def(self, nm):
        """returns (type, const initialiser or None, is_constant) or ('alias', target)"""
        if nm in self.globals: return self.globals[nm]
        src = self.glob_src[nm]
        p = Parser(self, tokenize(src))
        const = False; ext = False
        while True:
            x = p.peek()
            if x in ('constant', 'global'):
                const = x == 'constant'; p.next(); break
            if x in ('external', 'extern_weak'): ext = True
            if x == 'alias':
                p.next(); t = p.type(); p.expect(','); p.type(); v = p.const(PTR)
                self.globals[nm] = ('alias', v)
                return self.globals[nm]
            if x in ('addrspace', 'thread_local') and p.peek(1) == '(':
                p.i += 4; continue
            p.next()
        t = layout(p.type())
        init = None
        if not ext: init = p.const(t)
        self.globals[nm] = (t, init, const)
        return self.globals[nm]

    def func(self, nm):
        if nm in self.fns: return self.fns[nm]
        src = self.fn_src.get(nm)
        if src is None:
            g = self.glob_src.get(nm)
            if g and 'alias' in g.split():
                d = self.global_def(nm)
                return self.func(d[1][1])
            return None
        f = Func(nm)
        hdr = src[0]
        p = Parser(self, tokenize(hdr[:]))
        while p.peek() != nm: p.next()
        p.next(); p.expect('(')
        f.params = []
        anon = 0
        while not p.accept(')'):
            if p.peek() == '...': p.next(); continue
            t = p.type(); bv = p.pattrs()
            if p.peek() and p.peek()[0] == '%': nm2 = p.next(); 
            else: nm2 = '%%%d' % anon
            if re.match(r'%\d+$', nm2): anon += 1
            f.params.append((nm2, layout(t) if t.k != 'metadata' else t, bv))
            p.accept(',')
        # blocks
        f.blocks = {}; order = []
        cur = None
        # entry block name
        for l in src[1:]:
            if not l.strip() or l.lstrip().startswith(';'): continue
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                cur = '%' + m.group(1); f.blocks[cur] = []; order.append(cur)
                continue
            if cur is None:
                # unnamed entry block: number = count of anonymous params
                cur = '%%%d' % anon
                f.blocks[cur] = []; order.append(cur)
            f.blocks[cur].append(l)
        f.order = order; f.entry = order[0]
        f.code = {}
        for b in order:
            f.code[b] = self.parse_block(f.blocks[b])
        f.blocks = None
        self.analyse(f)
        self.fns[nm] = f
        return f

    def parse_block(self, lines):
        out = []
        i = 0
        while i < len(lines):
            l = lines[i]
            if ' switch ' in ' ' + l and l.rstrip().endswith('['):
                while not lines[i].strip().endswith(']') and not lines[i].strip().startswith(']'):
                    i += 1
                    l += ' ' + lines[i]
            ins = self.parse_inst(l)
            if ins is not None: out.append(ins)
            i += 1
        return out

    def parse_inst(self, l):
        c = l.find(', !')
        toks = tokenize(l)
        # cut metadata
        for k, t in enumerate(toks):
            if t[0] == '!' and k > 0 and toks[k - 1] == ',' :
                toks = toks[:k - 1]; break
        p = Parser(self, toks)
        dst = None
        if len(toks) > 1 and toks[1] == '=':
            dst = p.next(); p.next()
        op = p.next()
        fl = set()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op == 'call':
            while p.peek() in FLAGS: p.next()
            if p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
            p.pattrs()
            t = p.type()
            if t.k == 'fn': t = t.el
            callee = p.value(PTR) if p.peek()[0] == '%' else ('c', p.const(PTR)) if p.peek() not in ('asm',) else None
            if callee is None: return Inst('asm', dst, t, None, l)
            p.expect('(')
            args = []
            while not p.accept(')'):
                if p.peek() == '...': p.next(); continue
                at = p.type()
                bv = p.pattrs()
                if at.k == 'metadata':
                    # skip metadata operand
                    d = 0
                    while True:
                        x = p.peek()
                        if x is None: break
                        if x in ('(', '{'): d += 1
                        if x in (')', '}') and d == 0: break
                        if x in (')', '}'): d -= 1
                        if x == ',' and d == 0: break
                        p.next()
                    args.append((at, None, None))
                else:
                    args.append((layout(at), p.value(at), bv))
                p.accept(',')
            return Inst('call', dst, layout(t) if t.k != 'fn' else t, args, callee)
        while p.peek() in FLAGS: fl.add(p.next())
        if op in BIN:
            t = layout(p.type()); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, dst, t, (a, b), fl)
        if op == 'fneg':
            t = layout(p.type()); return Inst(op, dst, t, (p.value(t),))
        if op in CAST:
            t = layout(p.type()); a = p.value(t); p.expect('to'); t2 = layout(p.type())
            return Inst(op, dst, t2, (a,), (t, fl))
        if op in ('icmp', 'fcmp'):
            pr = p.next(); 
            while pr in FLAGS: pr = p.next()
            t = layout(p.type()); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, dst, t, (a, b), pr)
        if op == 'ret':
            t = p.type()
            if t.k == 'void': return Inst('ret', None, t, None)
            return Inst('ret', None, layout(t), p.value(t))
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return Inst('br', None, None, None, (p.next(),))
            t = p.type(); c = p.value(t); p.expect(','); p.next(); a = p.next(); p.expect(','); p.next(); b = p.next()
            return Inst('br', None, t, c, (a, b))
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.const(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()))
            return Inst('switch', None, t, v, (d, cases))
        if op == 'unreachable': return Inst(op, None, None, None)
        if op == 'alloca':
            if p.peek() == 'inalloca': p.next()
            t = layout(p.type()); n = None
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type(); n = (nt, p.value(nt))
            return Inst(op, dst, t, n)
        if op == 'load':
            at = p.accept('atomic'); p.accept('volatile')
            t = layout(p.type()); p.expect(','); pt = p.type(); a = p.value(pt)
            return Inst(op, dst, t, (a,))
        if op == 'store':
            p.accept('atomic'); p.accept('volatile')
            t = layout(p.type()); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            return Inst(op, None, t, (v, a))
        if op == 'getelementptr':
            t = p.type(); p.expect(','); pt = p.type(); base = p.value(pt); idx = []
            while p.accept(','):
                it = p.type(); idx.append((it, p.value(it)))
            return Inst(op, dst, t, base, idx)
        if op == 'phi':
            t = layout(p.type()); inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']')
                inc.append((v, b))
                if not p.accept(','): break
            return Inst(op, dst, t, inc)
        if op == 'select':
            ct = layout(p.type()); c = p.value(ct); p.expect(','); t = layout(p.type()); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
            return Inst(op, dst, t, (c, a, b), ct)
        if op == 'extractvalue':
            t = layout(p.type()); v = p.value(t); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Inst(op, dst, t, (v,), idx)
        if op == 'insertvalue':
            t = layout(p.type()); v = p.value(t); p.expect(','); t2 = layout(p.type()); w = p.value(t2); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Inst(op, dst, t, (v, w), idx)
        if op == 'extractelement':
            t = layout(p.type()); v = p.value(t); p.expect(','); it = p.type(); i = p.value(it)
            return Inst(op, dst, t, (v, i))
        if op == 'insertelement':
            t = layout(p.type()); v = p.value(t); p.expect(','); et = p.type(); e = p.value(et); p.expect(','); it = p.type(); i = p.value(it)
            return Inst(op, dst, t, (v, e, i))
        if op == 'shufflevector':
            t = layout(p.type()); v = p.value(t); p.expect(','); p.type(); w = p.value(t); p.expect(','); mt = layout(p.type()); m = p.value(mt)
            return Inst(op, dst, t, (v, w, m), mt)
        if op == 'freeze':
            t = layout(p.type()); return Inst(op, dst, t, (p.value(t),))
        if op == 'atomicrmw':
            p.accept('volatile'); o = p.next(); pt = p.type(); a = p.value(pt); p.expect(','); t = layout(p.type()); v = p.value(t)
            return Inst(op, dst, t, (a, v), o)
        if op == 'fence': return None
        if op == 'cmpxchg':
            p.accept('weak'); p.accept('volatile'); pt = p.type(); a = p.value(pt); p.expect(','); t = layout(p.type()); c = p.value(t); p.expect(','); p.type(); n = p.value(t)
            return Inst(op, dst, t, (a, c, n))
        if op == 'va_arg' or op == 'resume' or op == 'landingpad' or op == 'invoke':
            return Inst('unsupported', dst, None, None, l)
        raise Exception('inst? ' + l)

    # CFG: RPO index, preds, loop headers, liveness
    def analyse(self, f):
        succ = {}
        for b, code in f.code.items():
            t = code[-1]
            if t.op == 'br': succ[b] = list(dict.fromkeys(t.x))
            elif t.op == 'switch': succ[b] = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            else: succ[b] = []
        preds = {b: [] for b in f.code}
        for b in succ:
            for s in succ[b]: preds[s].append(b)
        seen = set(); post = []; onst = set(); headers = set()
        st = [(f.entry, iter(succ[f.entry]))]
        seen.add(f.entry); onst.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); onst.add(s); st.append((s, iter(succ[s]))); break
                elif s in onst: headers.add(s)
            else:
                st.pop(); onst.discard(b); post.append(b)
        f.rpo = {b: i for i, b in enumerate(reversed(post))}
        f.preds, f.succ, f.headers = preds, succ, headers
        # natural loops: body of each header
        f.loops = {}
        for b in seen:
            for s in succ[b]:
                if s in headers and f.rpo[s] <= f.rpo[b]:
                    body = f.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body: continue
                        body.add(x)
                        stack.extend(p for p in preds[x] if p in seen)
        # RPO adjusted so that loop bodies come before loop exits
        f.prio = self.loop_order(f, seen, succ, headers)
        # liveness
        use = {}; dfn = {}
        phiuse = {b: set() for b in f.code}
        def regs(o, acc):
            if isinstance(o, tuple):
                if len(o) == 2 and o[0] == 'r': acc.add(o[1])
                else:
                    for x in o: regs(x, acc)
            elif isinstance(o, list):
                for x in o: regs(x, acc)
        for b, code in f.code.items():
            u = set(); d = set()
            for ins in code:
                if ins.op == 'phi':
                    for v, pb in ins.a:
                        if v[0] == 'r' and pb in phiuse: phiuse[pb].add(v[1])
                    d.add(ins.dst); continue
                acc = set(); regs(ins.a, acc)
                if ins.op in ('getelementptr', 'call'): regs(ins.x, acc)
                u |= acc - d
                if ins.dst: d.add(ins.dst)
            use[b], dfn[b] = u, d
        live_in = {b: set() for b in f.code}; live_out = {b: set() for b in f.code}
        ch = True
        rev = sorted([b for b in f.code if b in f.rpo], key=lambda b: -f.rpo[b])
        while ch:
            ch = False
            for b in rev:
                o = set(phiuse[b])
                for s in succ[b]: o |= live_in[s]
                i = use[b] | (o - dfn[b])
                if o != live_out[b] or i != live_in[b]:
                    live_out[b], live_in[b] = o, i; ch = True
        # registers needed after the phis of b were assigned
        f.live = {b: live_in[b] | {i.dst for i in f.code[b] if i.op == 'phi'} for b in f.code}

    def loop_order(self, f, seen, succ, headers):
        """Topological order of the loop-forest: blocks of a loop before its exits."""
        depth = {b: 0 for b in seen}
        for h, body in f.loops.items():
            for b in body:
                if b in depth: depth[b] += 1
        # Repeatedly: order by rpo but ensure that exits of a loop come after all its body.
        base = sorted(seen, key=lambda b: f.rpo[b])
        order = []; placed = set()
        def place_region(blocks, loops_here):
            blocks = [b for b in base if b in blocks]
            for b in blocks:
                if b in placed: continue
                # outermost loop headed here among remaining
                inner = [h for h in f.loops if h == b and h not in loops_here]
                if inner:
                    place_region(f.loops[b] & set(blocks) | {b}, loops_here | {b})
                else:
                    placed.add(b); order.append(b)
        place_region(set(base), frozenset())
        return {b: i for i, b in enumerate(order)}
