"""Coefficient containers, monomial vectors and symmetry detection represent the polynomial."""
import itertools
import sympy as sp
from sympy import symbols, Poly, S
from sympy.combinatorics import Permutation as P, PermutationGroup as PG, SymmetricGroup, CyclicGroup, AlternatingGroup, DihedralGroup
from symx.case import LemmaCase
from symx import stubs
ABC = symbols("a:f")
U = "triples.utils."
GR = {"C3": lambda: CyclicGroup(3), "S3": lambda: SymmetricGroup(3), "S2": lambda: SymmetricGroup(2), "C2": lambda: PG(P(2)(0, 1)), "C4": lambda: CyclicGroup(4), "S4": lambda: SymmetricGroup(4),
      "A4": lambda: AlternatingGroup(4), "D4": lambda: DihedralGroup(4), "C22": lambda: PG(P(0, 1)(2, 3)), "C32": lambda: PG(P(0, 1, 2)(3, 4)), "I3": lambda: PG(P([0, 1, 2])), "C3r": lambda: PG(P(0, 2, 1))}


def prepare():
    stubs.install()


def monoms(n, d, hom=True):
    out = [m for m in itertools.product(range(d, -1, -1), repeat=n) if (sum(m) == d if hom else sum(m) <= d)]
    return sorted(out, reverse=True)


def mono(m, gens):
    return sp.Mul(*[g**e for g, e in zip(gens, m)])


def expr(d, gens):
    return sp.Add(*[v * mono(m, gens) for m, v in d.items()])


def act(p, gens, e):
    """the image of the expression under the permutation of the variables"""
    return e.xreplace({gens[i]: gens[j] for i, j in enumerate(p.array_form)})


def allperm(G):
    return sorted(G.elements, key=lambda p: tuple(p.array_form))


def full(d):
    """drop the terms that vanish on this path (as Poly does)"""
    return {m: v for m, v in d.items() if v != 0}


def mkpoly(d, gens):
    d = full(d)
    return Poly.from_dict(d, gens) if d else Poly(0, *gens)


def orbdict(L, ks, G, ms):
    """coefficients constant on orbits of G, one symbol per orbit, plus the rest of ks ignored"""
    seen, out, i = set(), {}, 0
    for m in ms:
        if m in seen:
            continue
        o = {tuple(p(m)) for p in allperm(G)}
        seen |= o
        v = ks[i % len(ks)] if i < len(ks) else S(i + 2)
        i += 1
        for x in o:
            out[x] = v
    return out


# -- Coeff -------------------------------------------------------------------
def coeff(n, ms):
    def prog(L, *ks):
        C = L.use(U + "expression.coeff:Coeff")
        gens = ABC[:n]
        d = full(dict(zip(ms, ks)))
        e = expr(d, gens)
        for form in ("poly", "dict"):
            if form == "dict" and not d:
                continue
            c = C(mkpoly(d, gens)) if form == "poly" else C(dict(d))
            L.eq(f"{form}: as_poly", c.as_poly(*gens).as_expr(), e)
            L.eq(f"{form}: as_poly of a sequence", c.as_poly(list(gens)).as_expr(), e)
            for m in ms[:8]:
                L.eq(f"{form}: coefficient {m}", c(m), d.get(m, 0), gens=())
                L.eq(f"{form}: coefficient {m} listed", c(*m), d.get(m, 0), gens=())
            L.eq(f"{form}: poly111", c.poly111(), e.xreplace({g: S.One for g in gens}), gens=())
            L.true(f"{form}: zero", c.is_zero == (not d))
            if d:
                L.true(f"{form}: nvars", c.nvars == n)
                L.true(f"{form}: total degree", c.total_degree() == max(sum(m) for m in d))
                if len({sum(m) for m in d}) == 1:
                    L.true(f"{form}: degree", c.degree() == sum(next(iter(d))))
            L.true(f"{form}: homogeneous", c.is_homogeneous() == (len({sum(m) for m in d}) <= 1))
            if n == 3:
                a, b, _ = gens
                L.eq(f"{form}: reflect", c.reflect().as_poly(*gens).as_expr(), e.xreplace({a: b, b: a}))
            if d:
                com, q = c.cancel_abc()
                L.eq(f"{form}: cancel_abc", mono(com, gens) * q.as_poly(*gens).as_expr(), e)
                L.true(f"{form}: cancel_abc complete", all(min(m[i] for m in q.coeffs) == 0 for i in range(n)))
                t, q = c.cancel_k()
                if t:
                    L.eq(f"{form}: cancel_k", q.as_poly(*gens).as_expr().xreplace({g: g**t for g in gens}), e)
                    import math
                    L.true(f"{form}: cancel_k complete", math.gcd(*[i for m in q.coeffs for i in m]) <= 1)
    return prog


def arith(n, ms1, ms2, f=0):
    def prog(L, *ks):
        C = L.use(U + "expression.coeff:Coeff")
        gens = ABC[:n]
        d1, d2 = full(dict(zip(ms1, ks))), full(dict(zip(ms2, ks[len(ms1):])))
        c1, c2 = C(mkpoly(d1, gens)), C(mkpoly(d2, gens))
        e1, e2 = expr(d1, gens), expr(d2, gens)
        for lab, o, e in (("sum", c1 + c2, e1 + e2), ("difference", c1 - c2, e1 - e2)):
            L.eq(lab, expr(o.coeffs, gens), e)
            if d1 and d2:
                L.true(lab + " keeps no zero coefficient", not o.is_zero or not o.coeffs)
        L.eq("operands are unchanged", expr(c1.coeffs, gens), e1)
        L.eq("operands are unchanged (2)", expr(c2.coeffs, gens), e2)
        c1.coeffs[ms1[0]] = S.Zero
        c1.clear_zero()
        L.true("clear_zero", all(v != 0 for v in c1.coeffs.values()))
        L.eq("clear_zero keeps the value", expr(c1.coeffs, gens), expr({m: v for m, v in d1.items() if m != ms1[0]}, gens))
    return prog


# -- symmetry ----------------------------------------------------------------
def diffs(d, p):
    """coefficient differences between the polynomial and its image"""
    img = {}
    for m, v in d.items():
        t = [0] * len(m)
        for i, j in enumerate(p.array_form):
            t[j] = m[i]
        img[tuple(t)] = v
    return [d.get(m, 0) - img.get(m, 0) for m in set(d) | set(img)]


def symmetric(L, lab, answer, d, perms, gens):
    e = expr(d, gens)
    if answer:
        for p in perms:
            L.eq(f"{lab} true: invariant under {p.array_form}", act(p, gens, e), e)
    else:
        L.impossible(f"{lab} false: not invariant", [("==", x) for p in perms for x in map(sp.sympify, diffs(d, p))])


def detect(n, ms, groups, hom=True):
    def prog(L, *ks):
        C = L.use(U + "expression.coeff:Coeff")
        gens = ABC[:n]
        d = full(dict(zip(ms, ks)))
        if not d:
            return
        c = C(mkpoly(d, gens))
        symmetric(L, "is_cyclic()", c.is_cyclic(), d, CyclicGroup(n).generators, gens)
        symmetric(L, "is_symmetric()", c.is_symmetric(), d, SymmetricGroup(n).generators, gens)
        for g in groups:
            G = GR[g]()
            symmetric(L, f"is_cyclic({g})", c.is_cyclic(G), d, G.generators, gens)
            symmetric(L, f"is_symmetric({g}) on generators", c.is_symmetric(list(G.generators)), d, G.generators, gens)
            symmetric(L, f"is_cyclic({g} generator)", c.is_cyclic(G.generators[0]), d, G.generators[:1], gens)
    return prog


def identify(n, ms, homogenizer=False):
    def prog(L, *ks):
        f = L.use(U + "expression.coeff:identify_symmetry")
        gens = ABC[:n]
        d = full(dict(zip(ms, ks)))
        if not d:
            return
        G = f(mkpoly(d, gens), *([gens[-1]] if homogenizer else []))
        e = expr(d, gens)
        L.true("degree of the group", G.degree == n)
        for p in G.generators:
            L.eq(f"invariant under {p.array_form}", act(p, gens, e), e)
        if n > 1 and not G.is_symmetric:
            L.impossible("a symmetric polynomial is recognised", [("==", sp.sympify(x)) for p in SymmetricGroup(n).generators for x in diffs(d, p)])
        if n > 2 and G.order() == 1:
            L.impossible("a cyclic polynomial is recognised", [("==", sp.sympify(x)) for p in CyclicGroup(n).generators for x in diffs(d, p)])
    return prog


def homcyc(ms, fast, pre=None):
    def prog(L, *ks):
        f = L.use(U + "polytools:verify_hom_cyclic")
        g = L.use(U + "polytools:verify_is_symmetric")
        gens = ABC[:3]
        d = full(dict(zip(ms, ks)))
        if not d:
            return
        p = mkpoly(d, gens)
        hom, cyc = f(p, fast=fast) if fast is not None else f(p)
        L.true("homogeneous", bool(hom) == (len({sum(m) for m in d}) == 1))
        if hom:
            symmetric(L, "cyclic", cyc, d, CyclicGroup(3).generators, gens)
        if hom and cyc:
            symmetric(L, "symmetric", g(p), d, SymmetricGroup(3).generators, gens)
    return prog


# -- vectors -----------------------------------------------------------------
OPTS = {"hom": {}, "nonhom": {"hom": False}, "cyc": {"cyc": True}, "sym": {"sym": True}}


def options(o):
    return dict(OPTS[o]) if o in OPTS else {"symmetry": GR[o]()}


def grp(o, n):
    return {"hom": PG(P(list(range(n)))), "nonhom": PG(P(list(range(n)))), "cyc": CyclicGroup(n), "sym": SymmetricGroup(n)}.get(o) or GR[o]()


def vector(n, deg, o, extra=None):
    """arraylize/invarraylize on invariant polynomials, and expand_cyc on arbitrary ones"""
    def prog(L, *ks):
        arr, inv, gm = L.use(U + "monomials:arraylize_sp"), L.use(U + "monomials:invarraylize"), L.use(U + "monomials:generate_monoms")
        gens = ABC[:n]
        G = grp(o, n)
        opts = options(o)
        if extra:
            opts.update(extra)
        hom = opts.get("hom", True)
        ms = monoms(n, deg, hom)
        D, I = gm(n, deg, **opts)
        L.true("index and list agree", len(D) == len(I) and all(I[i] == m for m, i in D.items()))
        orbits = {frozenset(tuple(p(m)) for p in G.elements) for m in ms}
        L.true("one representative per orbit", sorted(map(sorted, orbits)) == sorted(sorted({tuple(p(m)) for p in G.elements}) for m in I))
        d = full(orbdict(L, ks, G, ms))
        if hom or any(sum(m) == deg for m in d):
            v = arr(mkpoly(d, gens), **opts)
            if d:
                L.true("length", v.shape == (len(I), 1))
                for i, m in enumerate(I):
                    L.eq(f"entry {m}", v[i, 0], d.get(m, 0), gens=())
                for lab, w in (("matrix", v), ("list", list(v))):
                    L.eq(f"round trip through {lab}", inv(w, gens, deg, **opts).as_expr(), expr(d, gens))
        # an arbitrary polynomial
        d = full({m: (ks[i % len(ks)] * (i // len(ks) + 1)) for i, m in enumerate(ms)})
        if d and (hom or any(sum(m) == deg for m in d)):
            e = expr(d, gens)
            v = arr(mkpoly(d, gens), expand_cyc=True, **opts)
            L.eq("expand_cyc", inv(v, gens, deg, **opts).as_expr(), sp.Add(*[act(p, gens, e) for p in allperm(G)]))
    return prog


def permvec(n, deg, o, hom=True):
    def prog(L, *ks):
        MM = L.use(U + "monomials:MonomialManager")
        gens = ABC[:n]
        G = GR[o]()
        m_ = MM(n, G, is_homogeneous=hom)
        ms = m_.base().inv_monoms(deg)
        d = full({m: (ks[i % len(ks)] * (1 + i // len(ks))) for i, m in enumerate(ms)})
        vec = sp.Matrix([d.get(m, 0) for m in ms])
        M = m_.permute_vec(vec, deg)
        L.true("shape", M.shape == (len(ms), G.order()))
        e = expr(d, gens)
        want = [act(p, gens, e) for p in allperm(G)]
        L.eq("columns add up to the sum over the group", sp.Add(*[expr(dict(zip(ms, M[:, j])), gens) for j in range(M.cols)]), sp.Add(*want))
        # each column is the image under one permutation
        for j in range(M.cols):
            col = sp.expand(expr(dict(zip(ms, M[:, j])), gens))
            L.true(f"column {j} is an image of the polynomial", any(sp.expand(w - col) == 0 for w in want))
        for m in ms:
            L.true(f"standard representative {m}", tuple(m_.standard_monom(m)) == max(tuple(p(m)) for p in G.elements))
            i = m_.index(m)
            L.true(f"index of {m}", m_.inv_monoms(sum(m))[i] == m_.standard_monom(m))
    return prog


class Exact(list):
    """what numpy.array(...) gives before rounding: the entries, exactly"""
    def astype(self, _t):
        return self


class NP:
    float64 = float

    @staticmethod
    def array(v):
        return Exact(v)


def numeric(n, deg, o, extra=None):
    """arraylize_np carries the same numbers as arraylize_sp (before rounding to floats), and the other ways of asking a MonomialManager agree"""
    def prog(L, *ks):
        MM = L.use(U + "monomials:MonomialManager")
        arr, an = L.use(U + "monomials:arraylize_sp"), L.use(U + "monomials:arraylize_np")
        opts = {**options(o), **(extra or {})}
        hom = opts.get("hom", True)
        gens = ABC[:n]
        ms = monoms(n, deg, hom)
        d = full({m: (ks[i % len(ks)] * (i // len(ks) + 1)) for i, m in enumerate(ms)})
        if not d or not any(sum(m) == deg for m in d):
            return
        p = mkpoly(d, gens)
        old = an.__globals__["np"]
        an.__globals__["np"] = NP
        try:
            for ex in (False, True):
                v, w = arr(p, expand_cyc=ex, **opts), an(p, expand_cyc=ex, **opts)
                L.true("same length", len(w) == v.shape[0])
                for i, x in enumerate(w):
                    L.eq(f"entry {i} ({'summed' if ex else 'plain'})", sp.sympify(x), v[i, 0], gens=())
        finally:
            an.__globals__["np"] = old
        G = grp(o, n)
        for m_ in (MM(n, G, is_homogeneous=hom), MM.from_perm_group(G, is_homogeneous=hom), MM(n, MM(n, G), is_homogeneous=hom)):
            first = list(m_.inv_monoms(deg))
            B, C = m_.base(), m_.copy()
            L.true("base has every monomial", sorted(B.inv_monoms(deg)) == sorted(ms) and B.perm_group.order() == 1)
            L.true("the copy is equal", C == m_ and hash(C) == hash(m_) and list(C.inv_monoms(deg)) == first)
            L.true("equality tells groups apart", (B == m_) == (G.order() == 1))
            L.true("the original is unchanged", list(m_.inv_monoms(deg)) == first and m_.length(deg) == len(first) and m_.perm_group.order() == G.order())
            if hom:
                for m in ms:
                    L.true(f"{m} is stored iff standard", (m in m_) == (m in first) == (m == max(tuple(p(m)) for p in G.elements)))
        e = expr(d, gens)
        L.eq("cyclic_sum", sp.sympify(m_.cyclic_sum(e, gens)).doit(), sp.Add(*[act(p, gens, e) for p in allperm(G)]))
    return prog


def uncentered(deg, sym):
    """sos_struct_handle_uncentered around a solver that returns its input"""
    def prog(L, *ks):
        wrap = L.use("triples.core.structsos.ternary.utils:sos_struct_handle_uncentered")
        C = L.use(U + "expression.coeff:Coeff")
        a, b, c = gens = ABC[:3]
        ms = monoms(3, deg)
        G = SymmetricGroup(3) if sym else CyclicGroup(3)
        d = full(orbdict(L, ks, G, ms))
        if not d:
            return
        seen = []
        @wrap
        def solver(q, *args, **kw):
            seen.append((q, args, kw))
            L.eq("the inner polynomial vanishes at (1,1,1)", q.poly111(), 0, gens=())
            return q.as_poly(a, b, c).as_expr()
        e = expr(d, gens)
        for form in ("coeff", "poly"):
            del seen[:]
            p = mkpoly(d, gens)
            r = solver(C(p) if form == "coeff" else p, 7, real=3)
            bias = sp.Add(*d.values())
            if r is None:
                L.impossible(f"{form}: refused only below zero", [(">=", bias)])
            else:
                L.ge(f"{form}: accepted only above zero", bias)
                L.eq(f"{form}: same polynomial", r, e)
                L.true(f"{form}: arguments are passed on", seen[0][1:] == ((7,), {"real": 3}))
    return prog


def cases(tier):
    q = tier == "quick"
    kw = dict(max_paths=600 if q else 6000, budget_s=25 if q else 240, path_s=15 if q else 60, query_ms=2000, validate=12)
    out = []
    def add(name, prog, nk, gens="a b c d e f", **k):
        out.append(LemmaCase(name, prog, nk, gens, **{**kw, **k}))
    add("coeff.3.2", coeff(3, monoms(3, 2)), 6, fork=True)
    add("coeff.3.mixed", coeff(3, [(4, 2, 2), (2, 4, 0), (0, 2, 2), (2, 2, 6), (3, 1, 1), (0, 0, 3)]), 6, fork=True)
    add("coeff.2", coeff(2, [(3, 0), (2, 1), (1, 2), (4, 2), (2, 4), (0, 3)]), 6, fork=True)
    add("coeff.4", coeff(4, [(2, 2, 2, 0), (2, 2, 4, 0), (2, 2, 0, 6), (4, 4, 2, 2), (2, 3, 1, 0), (0, 0, 0, 6)]), 6, fork=True)
    add("coeff.1", coeff(1, [(6,), (4,), (3,), (0,)]), 4, fork=True)
    add("arith.3", arith(3, monoms(3, 2)[:4], monoms(3, 2)[1:5]), 8, fork=True)
    add("arith.2", arith(2, [(2, 0), (1, 1), (0, 1)], [(1, 1), (0, 2), (2, 0)]), 6, fork=True)
    for n, ms, gs, nm in [(3, monoms(3, 2), ["C3", "S3", "C2", "C3r"], "3.2"), (3, monoms(3, 3), ["C3", "S3", "C2", "C3r"], "3.3"), (2, monoms(2, 4), ["S2"], "2.4"),
                          (4, monoms(4, 1) + [(1, 1, 0, 0), (0, 1, 1, 0), (0, 0, 1, 1), (1, 0, 0, 1)], ["C4", "S4", "A4", "D4", "C22"], "4"), (3, monoms(3, 2, False)[:7], ["C3", "C2"], "3.nonhom"),
                          (4, [(2, 1, 0, 0), (0, 2, 1, 0), (1, 0, 2, 0), (0, 1, 2, 0), (2, 0, 1, 0), (1, 2, 0, 0)], ["C4"], "4.part"), (5, monoms(5, 1), ["C32"], "5")]:
        for f in (True, False):
            add(f"symmetry.{nm}" + (".sparse" if f else ""), detect(n, ms, gs), len(ms), fork=f)
            add(f"identify.{nm}" + (".sparse" if f else ""), identify(n, ms), len(ms), fork=f)
    add("identify.4.homogenizer", identify(4, [(2, 0, 0, 0), (0, 2, 0, 0), (0, 0, 2, 0), (0, 0, 0, 2), (1, 1, 0, 0), (0, 1, 1, 0), (1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1)], True), 10)
    add("identify.3.homogenizer", identify(3, monoms(3, 2), True), 6)
    for fast in (True, False, None):
        for nm, ms in [("2", monoms(3, 2)), ("3", monoms(3, 3)), ("4", monoms(3, 4)), ("mixed", monoms(3, 2, False)), ("34", [(3, 0, 0), (0, 3, 0), (0, 0, 3), (2, 1, 0), (1, 1, 2), (0, 2, 1), (1, 0, 2), (4, 0, 0)]),
                       ("5", [(5, 0, 0), (0, 5, 0), (0, 0, 5), (2, 2, 1), (2, 1, 2), (1, 2, 2), (4, 1, 0), (0, 4, 1), (1, 0, 4)])]:
            for f in (True, False):
                if f and len(ms) > 10 or not f and nm in ("mixed", "34"):
                    continue
                add(f"homcyc.{nm}.{fast}" + (".sparse" if f else ""), homcyc(ms, fast), len(ms), fork=f)
    for n, dg, o in [(1, 3, "hom"), (1, 3, "nonhom"), (2, 3, "hom"), (3, 2, "hom"), (3, 3, "cyc"), (3, 4, "cyc"), (3, 3, "sym"), (3, 4, "sym"), (3, 2, "nonhom"), (4, 3, "cyc"), (4, 3, "sym"), (4, 2, "A4"), (4, 3, "D4"), (3, 3, "C2"), (4, 2, "C22"),
                     (5, 2, "C32"), (3, 3, "C3r"), (2, 2, "S2")]:
        add(f"vector.{n}.{dg}.{o}", vector(n, dg, o), 4, fork=True)
        if o in ("cyc", "sym"):
            add(f"vector.{n}.{dg}.{o}.nonhom", vector(n, min(dg, 3), o, {"hom": False}), 4, fork=True)
    for n, dg, o, x in [(2, 3, "hom", 0), (3, 2, "nonhom", 0), (3, 3, "cyc", 0), (3, 3, "sym", 0), (4, 2, "D4", 0), (3, 2, "cyc", {"hom": False}), (5, 2, "C32", 0), (3, 3, "C3r", 0), (4, 2, "A4", 0), (4, 4, "sym", 0)]:
        add(f"numeric.{n}.{dg}.{o}" + (".nonhom" if x else ""), numeric(n, dg, o, x or None), 3, fork=True)
    for n, dg, o, h in [(3, 2, "C3", True), (3, 3, "S3", True), (4, 2, "D4", True), (4, 2, "A4", True), (4, 3, "S4", True), (3, 2, "C2", False), (5, 2, "C32", True), (3, 3, "C3r", True)]:
        add(f"permute.{n}.{dg}.{o}", permvec(n, dg, o, h), 4, fork=True)
    for dg in (2, 3, 4, 5, 6):
        for s in (False, True):
            add(f"uncentered.{dg}.{'s' if s else 'c'}", uncentered(dg, s), 5, fork=True)
    return out


EXPLANATION = "The polynomial's coefficients are symbols; every support pattern and every coefficient equality the code inspects becomes a branch decided by z3."
