"""Staged proving of real-arithmetic obligations.

libm applications are replaced by fresh real variables (congruence is dropped, so the
hypotheses only get weaker) and the query goes to nlsat; ever larger hypothesis sets are tried:
none, axioms that share variables with the goal, everything.  Only 'unsat' is used.
"""
import time
import z3


def prove(pc, axioms, neg, lemmas=(), hints=()):
    cache = {}
    keep = []

    def abst(f):
        subs = []
        seen = set()
        st = [f]
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(e):
                k = e.get_id()
                if k not in cache:
                    cache[k] = z3.Real('uf!%d' % len(cache)); keep.append(e)
                subs.append((e, cache[k]))
                continue
            st.extend(e.children())
        return z3.substitute(f, *subs) if subs else f

    def vars_(f):
        out = set(); seen = set(); st = [f]
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.get_id())
            st.extend(e.children())
        return out

    g = abst(z3.simplify(neg))
    P = [abst(z3.simplify(c)) for c in pc]
    A = [abst(z3.simplify(c)) for c in axioms]
    gv = vars_(g)
    rel = [h for h in P + A if vars_(h) & gv]
    lid = {c.get_id() for c in lemmas}
    L = [abst(z3.simplify(c)) for c in pc if c.get_id() in lid]
    lrel = [h for h in L if vars_(h) & gv]
    near = [h for h in P + A if vars_(h) <= gv]
    H = [abst(z3.simplify(c)) for c in hints]
    stages = ([(H, 4000)] if H else []) + [([], 300), (lrel, 800), (near, 1500), (rel, 1500), (P + A, 3000)]
    done = set()
    for hyp, tmo in stages:
        key = tuple(sorted({h.get_id() for h in hyp}))
        if key in done: continue
        done.add(key)
        if leaf(hyp, g, tmo): return NAME
    # case split on the conditions of conditional terms, then decide each case
    t0 = time.time()
    for hyp in (lrel, near, rel):
        if split(list(hyp), g, 0, t0 + 12): return NAME + ' (case split)'
        if time.time() > t0 + 24: break
    return None


NAME = 'z3 %s nlsat' % z3.get_version_string()


def leaf(hyp, g, tmo):
    for mk in (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'solve-eqs', 'simplify', 'qfnra').solver(),
               lambda: z3.Then('simplify', 'propagate-values', 'elim-term-ite', 'purify-arith', 'tseitin-cnf', 'qfnra-nlsat').solver()):
        try:
            s = mk(); s.set('timeout', tmo)
            for h in hyp: s.add(h)
            s.add(g)
            r = s.check()
            if r == z3.unsat: return True
            if r == z3.sat: return False
        except z3.Z3Exception: continue
    return False


def ite_cond(fs):
    """an atomic condition of some if-then-else in fs"""
    seen = set()
    st = list(fs)
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c = e.arg(0)
            while z3.is_not(c) or z3.is_and(c) or z3.is_or(c): c = c.arg(0)
            if z3.is_app(c) and not any(has_ite(x) for x in c.children()): return c
            st.insert(0, c)
        st.extend(e.children())
    return None


def has_ite(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return True
        st.extend(x.children())
    return False


def split(hyp, g, d, deadline):
    if time.time() > deadline: return False
    if z3.is_false(g) or any(z3.is_false(h) for h in hyp): return True
    c = ite_cond([g]) if d < 7 else None
    if c is None: c = ite_cond(hyp) if d < 7 else None
    if c is None:
        return leaf([], g, 200) or leaf(hyp, g, 1500)
    for v in (True, False):
        sub = lambda f: z3.simplify(z3.substitute(f, (c, z3.BoolVal(v))))
        h2 = [sub(h) for h in hyp]
        h2 = [h for h in h2 if not z3.is_true(h)] + [c if v else z3.Not(c)]
        if not split(h2, sub(g), d + 1, deadline): return False
    return True
