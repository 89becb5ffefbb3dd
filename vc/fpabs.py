"""Abstraction of IEEE arithmetic by facts that hold for every rounding-to-nearest result.

Each application of + - * / sqrt on floats is replaced by an uninterpreted function
application constrained by the lemmas below (sign rules, NaN/infinity rules, monotonicity
bounds).  Unsatisfiability of the abstracted formula implies unsatisfiability of the
original; a satisfying assignment of the abstraction is never used as a counterexample.
"""
import z3

OPS = {z3.Z3_OP_FPA_ADD: 'add', z3.Z3_OP_FPA_SUB: 'sub', z3.Z3_OP_FPA_MUL: 'mul', z3.Z3_OP_FPA_DIV: 'div', z3.Z3_OP_FPA_SQRT: 'sqrt'}


def abstract(fs):
    memo = {}
    ax = []
    funcs = {}
    apps = []
    convs = []

    def fn(op, s):
        k = (op, s.ebits())
        if k not in funcs:
            funcs[k] = z3.Function('abs_%s_%d' % k, *([s] * (1 if op == 'sqrt' else 2) + [s]))
        return funcs[k]

    def lemmas(op, r, a, b):
        s = r.sort()
        nan, inf, zero, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative
        A, Bq = z3.fpAbs(a), z3.fpAbs(b) if b is not None else None
        R = z3.fpAbs(r)
        one = z3.FPVal(1.0, s); Z = z3.FPVal(0.0, s); INF = z3.fpPlusInfinity(s)
        I = z3.Implies; le = z3.fpLEQ; ge = z3.fpGEQ
        out = []
        if op == 'mul':
            nn = z3.Or(nan(a), nan(b), z3.And(zero(a), inf(b)), z3.And(inf(a), zero(b)))
            out.append(nan(r) == nn)
            ok = z3.Not(nn)
            out.append(I(ok, neg(r) == z3.Xor(neg(a), neg(b))))
            out.append(I(z3.And(ok, z3.Or(zero(a), zero(b))), zero(r)))
            out.append(I(z3.And(ok, z3.Or(inf(a), inf(b))), inf(r)))
            for x, y, ya in ((A, b, Bq), (Bq, a, A)):
                out.append(I(z3.And(ok, le(x, one)), le(R, ya)))
                out.append(I(z3.And(ok, ge(x, one)), ge(R, ya)))
            out.append(I(z3.fpEQ(a, one), r == b)); out.append(I(z3.fpEQ(b, one), r == a))
        elif op == 'div':
            nn = z3.Or(nan(a), nan(b), z3.And(zero(a), zero(b)), z3.And(inf(a), inf(b)))
            out.append(nan(r) == nn)
            ok = z3.Not(nn)
            out.append(I(ok, neg(r) == z3.Xor(neg(a), neg(b))))
            out.append(I(z3.And(ok, z3.Or(zero(a), inf(b))), zero(r)))
            out.append(I(z3.And(ok, z3.Or(inf(a), zero(b))), inf(r)))
            out.append(I(z3.And(ok, le(A, Bq)), le(R, one)))
            out.append(I(z3.And(ok, ge(A, Bq)), ge(R, one)))
            out.append(I(z3.And(ok, ge(Bq, one)), le(R, A)))
            out.append(I(z3.And(ok, le(Bq, one)), ge(R, A)))
            out.append(I(z3.fpEQ(b, one), r == a))
        elif op == 'add':
            nn = z3.Or(nan(a), nan(b), z3.And(inf(a), inf(b), z3.Xor(neg(a), neg(b))))
            out.append(nan(r) == nn)
            ok = z3.Not(nn)
            out.append(I(z3.And(ok, z3.Or(inf(a), inf(b))), inf(r)))
            for x, y in ((a, b), (b, a)):
                out.append(I(z3.And(ok, ge(x, Z)), ge(r, y)))
                out.append(I(z3.And(ok, le(x, Z)), le(r, y)))
                out.append(I(z3.And(ok, zero(x), z3.Not(zero(y))), r == y))
            out.append(I(ok, zero(r) == z3.fpEQ(a, z3.fpNeg(b))))
            out.append(I(z3.And(ok, z3.fpGT(a, z3.fpNeg(b))), z3.fpGT(r, Z)))
            out.append(I(z3.And(ok, z3.fpLT(a, z3.fpNeg(b))), z3.fpLT(r, Z)))
        elif op == 'sqrt':
            nn = z3.Or(nan(a), z3.fpLT(a, Z))
            out.append(nan(r) == nn)
            out.append(I(z3.Not(nn), ge(r, Z)))
            out.append(zero(r) == zero(a))
            out.append(I(z3.And(z3.Not(nn), le(a, one)), z3.And(le(r, one), ge(r, a))))
            out.append(I(z3.And(z3.Not(nn), ge(a, one)), z3.And(ge(r, one), le(r, a))))
            out.append(I(z3.And(z3.Not(nn), z3.Not(inf(a))), z3.Not(inf(r))))
        return out

    def go(root):
        st = [root]
        while st:
            e = st[-1]
            k = e.get_id()
            if k in memo: st.pop(); continue
            if not z3.is_app(e): memo[k] = (e, e); st.pop(); continue
            ch = e.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo: st.extend(todo); continue
            st.pop()
            nc = [memo[c.get_id()][1] for c in ch]
            op = OPS.get(e.decl().kind())
            if op:
                a = nc[1]; b = nc[2] if len(nc) > 2 else None
                if op == 'sub': op, b = 'add', z3.fpNeg(b)
                if op in ('add', 'mul') and a.get_id() > b.get_id(): a, b = b, a
                r = fn(op, e.sort())(*([a] if b is None else [a, b]))
                ax.extend(lemmas(op, r, a, b))
                apps.append((op, r, a, b))
                memo[k] = (e, r)
            elif e.decl().kind() == z3.Z3_OP_FPA_TO_FP and len(nc) == 2 and z3.is_fp(nc[1]) and nc[1].sort() != e.sort():
                a = nc[1]
                r = z3.Function('abs_conv_%d_%d' % (a.sort().ebits(), e.sort().ebits()), a.sort(), e.sort())(a)
                wide = e.sort().ebits() > a.sort().ebits()
                if wide: r = e.decl()(*nc)      # exact: kept as it is
                else:
                    nan, inf, zero, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative
                    ax.extend([nan(r) == nan(a), z3.Implies(z3.Not(nan(a)), neg(r) == neg(a)), z3.Implies(inf(a), inf(r)), z3.Implies(zero(a), zero(r))])
                    mx = z3.FPVal(3.0e38, a.sort()); mr = z3.FPVal(3.0e38, r.sort())
                    ax.append(z3.Implies(z3.fpLEQ(z3.fpAbs(a), mx), z3.fpLEQ(z3.fpAbs(r), mr)))
                convs.append((wide, r, a))
                memo[k] = (e, r)
            elif nc and any(x.get_id() != y.get_id() for x, y in zip(ch, nc)):
                memo[k] = (e, e.decl()(*nc))
            else: memo[k] = (e, e)
        return memo[root.get_id()][1]

    out = [go(f) for f in fs]
    # conversions: widening is exact and order preserving, narrowing is monotone and exact on widened values
    for i, (w, r, a) in enumerate(convs):
        for w2, r2, a2 in convs[i + 1:] if len(convs) <= 24 else []:
            if w and w2 and a.sort() == a2.sort(): ax.append(z3.fpLEQ(a, a2) == z3.fpLEQ(r, r2))
            elif not w and not w2 and r.sort() == r2.sort() and a.sort() == a2.sort():
                ax.append(z3.Implies(z3.fpLEQ(a, a2), z3.fpLEQ(r, r2))); ax.append(z3.Implies(z3.fpLEQ(a2, a), z3.fpLEQ(r2, r)))
            elif w != w2 and (r if w else a).sort() == (r2 if w2 else a2).sort():
                (p, x), (q, t) = ((r, a), (a2, r2)) if w else ((r2, a2), (a, r))
                ax.append(z3.Implies(z3.fpLEQ(p, q), z3.fpLEQ(x, t))); ax.append(z3.Implies(z3.fpLEQ(q, p), z3.fpLEQ(t, x)))
    # rounding is monotone: pairs of applications of the same operation
    if len(apps) <= 24:
        seen = set(); nan, le, ab = z3.fpIsNaN, z3.fpLEQ, z3.fpAbs
        for i, (op, r, a, b) in enumerate(apps):
            for op2, r2, a2, b2 in apps[i + 1:]:
                if op != op2 or r.sort() != r2.sort() or r.get_id() == r2.get_id(): continue
                ok = z3.Not(z3.Or(nan(r), nan(r2)))
                pairs = [((a, b, r), (a2, b2, r2)), ((a2, b2, r2), (a, b, r))]
                for (p, q, x), (p2, q2, x2) in pairs:
                    if op == 'sqrt': ax.append(z3.Implies(z3.And(ok, le(p, p2)), le(x, x2)))
                    elif op == 'add':
                        ax.append(z3.Implies(z3.And(ok, le(p, p2), le(q, q2)), le(x, x2)))
                        ax.append(z3.Implies(z3.And(ok, le(p, q2), le(q, p2)), le(x, x2)))
                    elif op == 'mul':
                        ax.append(z3.Implies(z3.And(ok, le(ab(p), ab(p2)), le(ab(q), ab(q2))), le(ab(x), ab(x2))))
                        ax.append(z3.Implies(z3.And(ok, le(ab(p), ab(q2)), le(ab(q), ab(p2))), le(ab(x), ab(x2))))
                    elif op == 'div': ax.append(z3.Implies(z3.And(ok, le(ab(p), ab(p2)), le(ab(q2), ab(q))), le(ab(x), ab(x2))))
    return out, ax, len(ax)
