"""LinearSOS: from linear-program weights to a proof."""
import itertools
import numpy as np
import sympy as sp
from sympy import S, Poly, symbols, Rational, Function, Symbol
from sympy.core.function import AppliedUndef
from sympy.combinatorics import PermutationGroup, Permutation, CyclicGroup, SymmetricGroup
from symx.case import LemmaCase
from symx import stubs, rt, cert

LS = "triples.core.linsos."
a, b, c, d = symbols("a b c d")


# ---- stand-ins ------------------------------------------------------------------------
def np_vector(orig, self, poly, expand_cyc=False):
    """the floating point vector, exactly"""
    p = poly if isinstance(poly, Poly) else None
    dom = poly.domain if p is not None else poly.dom
    if rt.ENGINE is None or not rt.ENGINE.symbolic_domain(dom):
        return orig(self, poly, expand_cyc=expand_cyc)
    M = self.arraylize_sp(poly, expand_cyc=expand_cyc)
    r = np.empty(len(M), dtype=object)
    for i, x in enumerate(M):
        r[i] = x
    return r


def linprog(orig, cost, A_eq=None, b_eq=None, **kw):
    """The linear program at the path's witness: its answer is only a proposal for the
    code that follows."""
    if rt.ENGINE is None or not isinstance(A_eq, np.ndarray) or A_eq.dtype != object:
        return orig(cost, A_eq=A_eq, b_eq=b_eq, **kw)
    E = rt.ENGINE
    def run():
        A = np.array([[float(sp.sympify(x).xreplace(E.shadow)) for x in row] for row in A_eq])
        r = orig(cost, A_eq=A, b_eq=b_eq, **kw)
        return [float(x) for x in r.x] if r.success else None
    x = stubs.oracle(run, alts=[("c", None)])
    class R:
        success = x is not None
    if x is not None:
        R.x = np.array([float(y) for y in x])
    return R


class NP:
    """numpy, with a dot product that multiplies truth values with symbols"""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def dot(x, y):
        if getattr(y, "dtype", None) == object and getattr(x, "dtype", None) == bool:
            x = x.astype(int).astype(object)
        return np.dot(x, y)


def prepare():
    import importlib
    importlib.import_module(LS + "basis").np = NP()
    stubs.REPL[LS + "linsos:linprog"] = linprog
    stubs.install()
    from triples.utils.monomials import MonomialManager as M
    orig = M.arraylize_np
    M.arraylize_np = lambda self, poly, expand_cyc=False: np_vector(orig, self, poly, expand_cyc)


# ---- meaning of an expression with constraint values -----------------------------------
def value(e, names):
    """Expression e with every cyclic sum written out and every constraint value F(x..)
    replaced by a symbol; names: F -> function giving the constraint.  Returns
    (expression over symbols, {symbol: constraint})."""
    e = cert.expand_cyclic(sp.sympify(e))
    fs = [f for f in e.atoms(AppliedUndef) if f.func.__name__ in names]
    rep = {f: Symbol("v" + str(f).replace(" ", "")) for f in fs}
    return e.xreplace(rep), {rep[f]: names[f.func.__name__](*f.args) for f in fs}


def check(L, label, e, P, ineqs, eqs=None, gens=None, signs=True):
    eqs = eqs or {}
    r, back = value(e, {**ineqs, **eqs})
    L.eq(label + " value", r.xreplace(back), P, gens=gens)
    if signs:
        r0, _ = value(e, eqs)
        zero = {s: S.Zero for s in r0.free_symbols if any(str(s).startswith("v" + n + "(") for n in eqs)}
        r0, bk = value(sp.sympify(e), {**ineqs, **eqs})
        r0 = r0.xreplace({s: S.Zero for s in bk if any(str(s).startswith("v" + n + "(") for n in eqs)})
        L.signs(label + " sign", r0, {s for s in bk if not any(str(s).startswith("v" + n + "(") for n in eqs)})


def orbit_sum(e, gens, G):
    return sp.Add(*[e.xreplace(dict(zip(gens, [gens[j] for j in p.array_form]))) for p in G.elements])


GROUPS = {"trivial": lambda n: PermutationGroup(Permutation(list(range(n)))), "cyc": CyclicGroup, "sym": SymmetricGroup,
          "swap": lambda n: PermutationGroup(Permutation([1, 0] + list(range(2, n))))}


def manager(L, n, g):
    return L.use("triples.utils.monomials:MonomialManager")(n, GROUPS[g](n))


F = {n: Function(n) for n in ("G", "H", "T")}


# ---- collecting weights and basis elements into an expression -----------------------------
# constraint values: G(x) stands for x (>= 0), T(x,y,z) for y + z - x, H(x,y,z) for a vanishing x*y - z**2
IN = {"G": lambda x: x, "T": lambda x, y, z: y + z - x}
EQ = {"H": lambda x, y, z: x*y - z**2}
EQ_SYM = {"H": lambda x, y, z: x + y + z}


def basis_of(L, spec, gens):
    T = L.use(LS + "basis:LinearBasisTangent")
    Te = L.use(LS + "basis:LinearBasisTangentEven")
    X = L.use(LS + "basis:LinearBasisExpr")
    out = []
    for kind, powers, t in spec:
        if kind == "neg":
            out.append(T(powers, t, gens).__neg__())
        elif kind == "even":
            out.append(Te(powers, t, gens))
        elif kind == "expr":
            out.append(X(t, gens))
        else:
            out.append(T(powers, t, gens))
    return out


G, H, T = F["G"], F["H"], F["T"]
SPECS = [
    # (basis: (kind, powers, tangent)), multipliers
    ([("t", (1, 0, 0), (a - b)**2), ("t", (0, 1, 0), (a - b)**2), ("t", (1, 1, 1), S.One)], [S.One], {}),
    ([("t", (1, 0, 0), G(a)*(a - b)**2), ("t", (0, 1, 0), G(a)*(a - b)**2), ("t", (0, 0, 0), G(a)*G(b)*(a - b)**2)], [G(a)], {}),
    ([("t", (0, 0, 0), G(a)*T(b, c, a)*(a - b)**2), ("t", (0, 0, 0), T(b, c, a)*(b - c)**2), ("t", (2, 0, 0), T(a, b, c))], [Rational(2, 3)*a**2, Rational(4, 3)*b*c], {}),
    ([("t", (1, 0, 0), H(a, b, c)), ("neg", (0, 1, 0), H(a, b, c)), ("t", (0, 0, 0), (a - c)**2*G(b)), ("expr", None, a**2*b + G(c)*b**2)], [a*b, 2*c**2], EQ),
    ([("t", (1, 0, 0), 2*H(a, b, c)), ("neg", (0, 1, 0), H(a, b, c)*(a - b)**2), ("t", (0, 0, 1), H(a, b, c)**2), ("t", (0, 1, 0), -H(a, b, c))], [3*a**2, 6*a*b], EQ_SYM),
    ([("t", (0, 0, 0), -T(a, b, c)*(a - b)), ("t", (0, 1, 0), 3*T(a, b, c)*(a - b)**2), ("even", (2, 0, 0), 3*T(a, b, c)*(a - b)**4*(a + b)), ("t", (0, 2, 0), -2*(a - b)**2)], [S(5)], {}),
    ([("t", (0, 0, 0), (a**2 - b*c)**2), ("t", (1, 0, 0), (a**2 - b*c)**2*(a - b)**2), ("t", (1, 0, 0), (a**2 - b*c)**2*(b - c)**2), ("t", (0, 1, 0), (a**2 - b*c)**2*(b - c)**2*(a - b)**2)], [G(a)*G(b), G(a)**2], {}),
]


def collect(i, grp, flag):
    spec, mult, eqs = SPECS[i]
    gens = (a, b, c)

    def prog(L, *k):
        ys = k[:len(spec)]
        sy = manager(L, 3, grp)
        Gp = sy.perm_group
        basis = basis_of(L, spec, gens)
        # numeric weights of the multipliers, as the solver normalises them
        zs = [Rational(3, 4)] if len(mult) == 1 else [Rational(3, 5), Rational(6, 5)]
        M = L.use(LS + "updegree:LinearBasisMultiplier")
        P = Poly(a + b + c, *gens)
        ms = [M.from_expr(P, m) for m in mult]
        ineq = {Poly(x, *gens): G(x) for x in gens}
        ineq.update({Poly(IN["T"](*p), *gens): T(*p) for p in [(a, b, c), (b, c, a), (c, a, b)]})
        eq = {}
        if eqs:
            args = [(a, b, c), (b, c, a), (c, a, b)] if eqs is EQ else [(a, b, c)]
            eq = {Poly(eqs["H"](*p), *gens): H(*p) for p in args}
        S_ = L.use(LS + "solution:SolutionLinear")
        sol = S_._from_y_basis(P, list(ys) + list(zs), basis + ms, sy, ineq_constraints=ineq, eq_constraints=eq, collect=flag)
        e = sol.solution
        L.note(type(e).__name__ if not ys else "ok")
        want = sp.Add(*[y * bs for y, bs in zip(ys, [sp.Mul(*[g**q for g, q in zip(gens, p or ())]) * (-t if kind == "neg" else t) for kind, p, t in spec])])
        want = orbit_sum(want, gens, Gp)
        mul = orbit_sum(sp.Add(*[z * m for z, m in zip(zs, mult)]), gens, Gp)
        nm = {**IN, **eqs}
        w, bk = value(want, nm)
        m_, bm = value(mul, nm)
        r, br = value(e, nm)
        L.eq("value", r.xreplace(br), w.xreplace(bk) / m_.xreplace(bm), gens=gens)
        if i not in (3, 4, 5):
            for y in ys:
                L.assume(">=", y)
            nn = set(gens) | set(br)
            L.signs("sign", r, nn)
    return prog


# ---- rational correction of a numerical solution -------------------------------------------
def correct(i, grp, drop=None):
    """linear_correction told the exact weights (or some that are not), poly = the
    combination of the basis with symbolic weights"""
    gens = (a, b, c)
    spec = [x for x in [
        [("t", (1, 0, 0), (a - b)**2), ("t", (1, 1, 1), S.One), ("t", (2, 1, 0), S.One)],
        [("t", (0, 0, 0), (a**2 - b*c)**2), ("t", (2, 0, 0), (b - c)**2), ("t", (2, 1, 1), S.One)],
        [("t", (0, 0, 0), (a + b - c)*(a - b)**2), ("neg", (1, 0, 0), a**2 - b*c), ("t", (1, 2, 0), S.One)],
    ]][i]
    def prog(L, *k):
        ys = k[:3]
        guess = list(k[3:6])
        scale = k[6]       # the weight the multiplier got
        for x in guess:                # what a linear program with y >= 0 can answer
            L.assume(">=", x)
        L.assume(">", scale)
        sy = manager(L, 3, grp)
        basis = basis_of(L, spec, gens)
        E_ = [sp.Mul(*[g**q for g, q in zip(gens, p)]) * (-t if kind == "neg" else t) for kind, p, t in spec]
        f = sp.expand(orbit_sum(sp.Add(*[y * e for y, e in zip(ys, E_)]), gens, sy.perm_group))
        if not L.nonzero(ys[0]):
            return
        P = Poly(f / len(list(sy.perm_group.elements)), *gens)
        M = L.use(LS + "updegree:LinearBasisMultiplier")
        basis = basis + [M.from_expr(P, S.One)]
        import importlib
        mod = importlib.import_module("triples.core.linsos.correction")
        keep = mod.rationalize_array
        mod.rationalize_array = lambda *x, **kw: list(guess) + [scale]
        try:
            y, bs, ok = L.use(LS + "correction:linear_correction")([1.0] * len(basis), basis, 1, sy)
        finally:
            mod.rationalize_array = keep
        L.note(ok)
        if not ok:
            return
        tot = S.Zero
        mul = S.Zero
        for v, x in zip(y, bs):
            if isinstance(x, M):
                mul += v
            else:
                j = basis.index(x)
                tot += v * E_[j]
                L.ge("weight", v)
        L.eq("combination", orbit_sum(tot, gens, sy.perm_group), len(list(sy.perm_group.elements)) * P.as_expr() * mul, gens=gens)
        L.eq("normalised", mul, S.One)
    return prog


# ---- basis elements and their coefficient vectors ---------------------------------------------
def vectors(tangent, degree, order, grp, even, n=3, alias=False):
    gens = (a, b, c, d)[:n]

    def prog(L, *k):
        t = tangent(*k)
        tp = Poly(t, *gens)
        if tp.is_zero:
            return
        sy = manager(L, n, grp)
        cls = L.use(LS + "basis:" + ("LinearBasisTangentEven" if even else "LinearBasisTangent"))
        te = Function("K")(*gens) if alias else t
        basis, mat = cls.generate_quad_diff(te, gens, degree, sy.perm_group, tangent_p=tp, quad_diff_order=order)
        L.true("one row per element", len(basis) == (len(mat) if mat.size else 0), f"{len(basis)} {mat.shape}")
        L.note(len(basis))
        mons = sy.inv_monoms(degree)
        for i in range(min(len(basis), len(mat) if mat.size else 0)):
            e = basis[i].as_expr(gens)
            v = e.xreplace({Function("K")(*gens): t})
            v = orbit_sum(v, gens, sy.perm_group)
            p = Poly(sp.expand(v), *gens)
            cf = dict(p.terms())
            row = S.Zero
            tag = Symbol("tag")
            for j, m in enumerate(mons):
                x = mat[i][j]
                x = Rational(x) if not isinstance(x, sp.Basic) else x
                row += x * tag**j
                cf_m = cf.pop(tuple(m), S.Zero)
                row -= cf_m * tag**j
            L.eq(f"row {i}", sp.expand(row), 0, gens=(tag,))
            q = basis[i].as_poly(gens)
            L.eq(f"poly {i}", q.as_expr(), e.xreplace({Function("K")(*gens): t}), gens=gens)
        if basis:
            e = sp.Add(*[x.as_expr(gens) for x in basis[:40]])
            pos = value(e.xreplace({Function("K")(*gens): G(a), t: G(a)}), {"G": lambda x: x})[0] if alias else None
            if alias:
                L.signs("sign", pos, ({Symbol("vG(a)")} | (set() if even else set(gens))))
    return prog


VEC = [
    (lambda x, y, z: x*a + y*b + z*c, 3, 8),
    (lambda x, y, z: x*a**2 + y*a*b + z*b*c, 4, 8),
    (lambda x, y, z: (x*a + y*b + z*c)**2, 4, 2),
    (lambda x, y, z: x*a**2 + y*b**2 - z*c**2, 5, 0),
]


# ---- multipliers and products of constraints -------------------------------------------------------
def pairs(L, label, lst, gens, ineqs, degree=None, base=()):
    for i, (p, e) in enumerate(lst):
        r, back = value(e, ineqs)
        L.eq(f"{label} {i} value", r.xreplace(back), p.as_expr(), gens=gens)
        L.signs(f"{label} {i} sign", r, set(back) | set(base))
        if degree is not None:
            L.true(f"{label} {i} degree", p.is_zero or p.total_degree() <= degree, str(p))


def multipliers(cons, n_plus, grp, n=3):
    gens = (a, b, c, d)[:n]

    def prog(L, *k):
        ineqs, names = {}, {}
        for j, q in enumerate(cons):
            e = q(*k)
            if not sp.sympify(e).free_symbols & set(gens):
                continue
            nm = f"C{j}"
            ineqs[Poly(e, *gens)] = Function(nm)(*gens)
            names[nm] = lambda *x, e=e: e.xreplace(dict(zip(gens, x)))
        sy = manager(L, n, grp)
        r = L.use(LS + "updegree:_get_multipliers")(ineqs, gens, n_plus, symmetry=sy)
        L.note(len(r))
        pairs(L, "multiplier", r, gens, names)
        if n_plus:
            for p, e in r:
                L.true("degree", p.is_zero or p.total_degree() == n_plus, str(p))
        # the basis element standing for -multiplier * polynomial
        P = Poly(a**2 + k[0]*b**2, *gens)
        M = L.use(LS + "updegree:LinearBasisMultiplier")
        for p, e in r[:6]:
            m = M.from_expr(P, e, p)
            L.eq("element", m.as_poly(gens).as_expr(), -p.as_expr() * P.as_expr(), gens=gens)
            L.true("expression", m.multiplier == e, str(m.multiplier))
    return prog


MULT = [
    [lambda x, y, z: a, lambda x, y, z: b, lambda x, y, z: c],
    [lambda x, y, z: x*a + y*b, lambda x, y, z: z*c],
    [lambda x, y, z: x*a + y*b + z*c, lambda x, y, z: a*b - c**2, lambda x, y, z: b],
    [],
]


def qmodule(cons, deg, allnn, order, which):
    gens = (a, b, c)

    def prog(L, *k):
        ineqs, names = {}, {}
        for j, q in enumerate(cons):
            e = sp.sympify(q(*k))
            if not e.free_symbols & set(gens):
                continue
            nm = f"C{j}"
            ineqs[Poly(e, *gens)] = Function(nm)(*gens)
            names[nm] = lambda *x, e=e: e.xreplace(dict(zip(gens, x)))
        P = Poly(sum(m**deg for m in gens), *gens)
        if which == "linsos":
            r = L.use(LS + "linsos:_get_qmodule_list")(P, ineqs, all_nonnegative=allnn, preordering=order)
        else:
            # the levels of the quadratic module, smallest first
            ls = list(L.use("triples.core.sdpsos.sdpsos:_get_qmodule_list")(P, ineqs.items(), preordering=order))
            L.true("levels grow", all(len(p) <= len(q) for p, q in zip(ls, ls[1:])) and len(ls) > 0)
            L.true("degrees fit", all(p.total_degree() <= deg and (deg - p.total_degree()) % 2 == 0 for p, _ in ls[-1]))
            r = ls[-1]
        L.note(len(r))
        pairs(L, "element", r, gens, names, base=())
    return prog


QM = [
    [lambda x, y, z: a, lambda x, y, z: b, lambda x, y, z: c],
    [lambda x, y, z: x*a, lambda x, y, z: b + y*c, lambda x, y, z: z*c],
    [lambda x, y, z: x*a + y*b + z*c, lambda x, y, z: x*a*b - c**2, lambda x, y, z: b],
    [lambda x, y, z: x*a*b, lambda x, y, z: y*a**2 - z*b*c, lambda x, y, z: -x*c],
]


# ---- odd powers of variables known nonnegative -----------------------------------------------------
def to_even(cons, powers, tangent):
    gens = (a, b, c)

    def prog(L, x, y, z):
        names, ineqs = {}, {}
        for j, q in enumerate(cons):
            e = sp.sympify(q(x, y, z))
            if not e.free_symbols & set(gens):
                continue
            nm = f"C{j}"
            ineqs[Poly(e, *gens)] = Function(nm)(*gens)
            names[nm] = lambda *s, e=e: e.xreplace(dict(zip(gens, s)))
        sg = L.use(LS + "linsos:_get_signs_of_vars")(ineqs, gens)
        for v, s in sg.items():
            if s:
                cands = [p.as_expr() for p in ineqs if p.is_monomial and p.total_degree() == 1 and p.free_symbols & set(gens) == {v}]
                L.true("a constraint gives the sign", len(cands) > 0, str(sg))
                if len(cands) == 1:
                    L.ge("sign of a variable", s * cands[0].coeff(v))
        known = {v for v, s in sg.items() if s > 0}
        t = tangent(x, y, z)
        T_ = L.use(LS + "basis:LinearBasisTangent")
        old = [T_(p, t, gens) for p in powers] + [L.use(LS + "basis:LinearBasisTangentEven")((2, 0, 2), t, gens)]
        new = L.use(LS + "linsos:_odd_basis_to_even")(old, gens, ineqs)
        L.true("as many", len(new) == len(old))
        L.note(",".join(str(s) for s in sg.values()))
        for o, n in zip(old, new):
            r, back = value(n.as_expr(gens), names)
            L.eq("value", r.xreplace(back), o.as_expr(gens), gens=gens)
            odd = {g for g, p in zip(gens, getattr(o, "powers", ())) if p % 2}
            if odd <= known:
                L.signs("sign", r, set(back))
            L.true("even", not isinstance(n, T_) or all(p % 2 == 0 for p in n.powers), str(n.powers))
    return prog


EVEN = [
    [lambda x, y, z: a, lambda x, y, z: b, lambda x, y, z: c],
    [lambda x, y, z: x*a, lambda x, y, z: y*b, lambda x, y, z: z*c],
    [lambda x, y, z: x*a, lambda x, y, z: a*b, lambda x, y, z: y*b + z*c],
    [lambda x, y, z: -a, lambda x, y, z: x*b, lambda x, y, z: y*c - b],
]


# ---- the whole solver -----------------------------------------------------------------------------
def cyc(m, gens=(a, b, c)):
    n = len(gens)
    return sum(sp.Mul(*[gens[(i + j) % n]**e for j, e in enumerate(m)]) for i in range(n))


def symm(m, gens=(a, b, c)):
    return sum(sp.Mul(*[x**e for x, e in zip(gens, p)]) for p in set(itertools.permutations(m)))


def whole(terms, grp, cons, eqs=(), n=3, lift=2, order=8, pre="linear"):
    """cons: list of (function name, meaning, list of argument tuples)"""
    gens = (a, b, c, d)[:n]

    def prog(L, *k):
        f = L.use(LS + "linsos:_LinearSOS")
        sy = manager(L, n, grp)
        P = Poly(sp.expand(sum(x * t for x, t in zip(k, terms))), *gens)
        if P.is_zero:
            return
        I = {Poly(fn(*x), *gens): Function(nm)(*x) for nm, fn, args in cons for x in args}
        Q = {Poly(fn(*x), *gens): Function(nm)(*x) for nm, fn, args in eqs for x in args}
        kw = {}
        sol = f(P, ineq_constraints=dict(I), eq_constraints=dict(Q), symmetry=sy, tangents=[], rootsinfo=L.use("triples.utils:RootsInfo")(),
                lift_degree_limit=lift, quad_diff_order=order, preordering=pre)
        if sol is None:
            L.note("None")
            return
        L.note("solution")
        L.true("exact", sol.is_equal)
        check(L, "proof", sol.solution, P.as_expr(), {nm: fn for nm, fn, _ in cons}, {nm: fn for nm, fn, _ in eqs}, gens=gens)
    return prog


def V(n=3):
    return ("G", lambda x: x, [(g,) for g in (a, b, c, d)[:n]])


def tri(x, y, z):
    return y + z - x


WHOLE = [
    # name, terms, group, constraints, eqs, n, lift, seeds
    ("quadratic", [cyc((2, 0, 0)), cyc((1, 1, 0))], "cyc", [], (), 3, 0, [(1, 1), (1, -1), (2, -1), (1, 2), (1, -2)]),
    ("quadratic.pos", [cyc((2, 0, 0)), cyc((1, 1, 0))], "sym", [V()], (), 3, 0, [(1, 1), (1, -1), (2, -1), (0, 2)]),
    ("cubic", [cyc((3, 0, 0)), cyc((2, 1, 0)), cyc((1, 2, 0)), a*b*c], "cyc", [V()], (), 3, 1, [(1, 0, 0, -3), (1, -1, 0, 0), (0, 1, 1, -6), (2, -1, -1, 3)]),
    ("cubic.tri", [cyc((3, 0, 0)), symm((2, 1, 0)), a*b*c], "sym", [("T", tri, [(a, b, c), (b, c, a), (c, a, b)])], (), 3, 1, [(-1, 1, -2), (1, 0, -3), (-1, 1, -1), (0, 1, -6)]),
    ("cubic.free", [a**3, a**2*b, a*b**2, b**3, a*b*c], "trivial", [V()], (), 3, 0, [(1, -1, -1, 1, 0), (1, 1, 1, 1, 1), (2, -1, -1, 3, 1)]),
    ("quartic", [cyc((4, 0, 0)), cyc((3, 1, 0)), cyc((2, 2, 0)), cyc((1, 3, 0)), cyc((2, 1, 1))], "cyc", [V()], (), 3, 1, [(1, 0, 0, 0, -1), (1, -1, 1, -1, 0), (2, -1, 1, 0, -2), (0, 1, -1, 1, -1)]),
    ("quartic.real", [cyc((4, 0, 0)), cyc((2, 2, 0)), cyc((2, 1, 1))], "sym", [], (), 3, 0, [(1, 0, -1), (1, 1, 1), (0, 1, -1), (2, -1, -1)]),
    ("scaled", [cyc((2, 0, 0)), cyc((1, 1, 0)), a*b], "trivial", [("G", lambda x: 2*x, [(a,)]), ("K", lambda x: x/3, [(b,)]), ("M", lambda x: 5*x, [(c,)])], (), 3, 1, [(1, 1, 1), (1, -1, 0), (1, 0, -1)]),
    ("partial", [cyc((2, 0, 0)), a*b, b*c, c*a], "trivial", [("G", lambda x: x, [(a,), (b,)])], (), 3, 1, [(1, 1, 1, 1), (1, -1, -1, -1), (1, 3, 1, 1), (2, 1, -2, 2)]),
    ("equality", [cyc((2, 0, 0)), cyc((1, 1, 0))], "sym", [V()], [("H", lambda x, y, z: x + y - 2*z, [(a, b, c), (b, c, a), (c, a, b)])], 3, 0, [(1, 1), (1, -1), (-1, 1), (1, -3)]),
    ("equality.deg3", [cyc((3, 0, 0)), cyc((2, 1, 0)), a*b*c], "cyc", [V()], [("H", lambda x, y, z: x*y + y*z + z*x, [(a, b, c)])], 3, 0, [(1, 1, 1), (1, -1, 1), (1, 0, -3)]),
    ("four", [symm((2, 0, 0, 0), (a, b, c, d)), symm((1, 1, 0, 0), (a, b, c, d))], "sym", [V(4)], (), 4, 0, [(1, 1), (3, -2), (3, -1)]),
    ("four.cyc", [cyc((2, 0, 0, 0), (a, b, c, d)), cyc((1, 1, 0, 0), (a, b, c, d)), a*c + b*d], "cyc", [V(4)], (), 4, 0, [(1, 1, 1), (1, -1, 0), (1, -1, 1)]),
    ("sextic", [symm((4, 2, 0)), symm((3, 3, 0)), symm((4, 1, 1)), a**2*b**2*c**2], "sym", [], (), 3, 0, [(1, 0, 0, -6), (1, -1, 0, 0), (1, 0, 1, 0)]),
    ("lift", [cyc((3, 0, 0)), symm((2, 1, 0)), a*b*c], "sym", [("T", tri, [(a, b, c), (b, c, a), (c, a, b)]), V()], (), 3, 2, [(1, -1, 0), (1, 0, -3), (2, 0, -6)]),
]


def cases(tier):
    q = tier == "quick"
    kw = dict(max_paths=40 if q else 400, budget_s=25 if q else 240, path_s=20 if q else 60, query_ms=3000, validate=4)
    out = []
    def add(name, prog, nk, **k):
        out.append(LemmaCase(name, prog, nk, k.pop("gens", "a b c"), **{**kw, **k}))
    for i, (sp_, _, _) in enumerate(SPECS):
        for g in ("cyc", "sym", "trivial"):
            add(f"collect.{i}.{g}", collect(i, g, True), len(sp_), fork=True)
        add(f"collect.{i}.plain", collect(i, "cyc", False), len(sp_), fork=False)
    for i in range(3):
        for g in ("cyc", "trivial"):
            add(f"correct.{i}.{g}", correct(i, g), 7, fork=True, max_paths=150)
    for i, (t, dg, od) in enumerate(VEC):
        for g in ("cyc", "sym", "swap"):
            for even in (False, True):
                add(f"vectors.{i}.{g}{'.even' if even else ''}", vectors(t, dg, od, g, even, alias=(i % 2 == 0)), 3, fork=True)
    add("vectors.4", vectors(lambda x, y: x*a + y*b, 3, 2, "cyc", False, n=4), 2, fork=True)
    for i, cs in enumerate(MULT):
        for n in range(0, 5 if len(cs) < 3 else 4):
            add(f"multipliers.{i}.{n}", multipliers(cs, n, ("trivial", "cyc", "swap")[(i + n) % 3] if i in (0, 3) else "trivial"), 3, fork=True)
    for i, cs in enumerate(QM):
        for allnn in (False, True):
            add(f"module.{i}.{'pos' if allnn else 'any'}", qmodule(cs, 3, allnn, "linear", "linsos"), 3, fork=True)
        add(f"module.{i}.none", qmodule(cs, 3, False, "none", "linsos"), 3, fork=True)
        add(f"module.{i}.sdp", qmodule(cs, 4, False, "linear", "sdpsos"), 3, fork=True)
        add(f"module.{i}.sdpprog", qmodule(cs, 3, False, "linear-progressive", "sdpsos"), 3, fork=True)
        add(f"module.{i}.sdp.none", qmodule(cs, 4, False, "none", "sdpsos"), 3, fork=True)
    for i, cs in enumerate(EVEN):
        add(f"even.{i}", to_even(cs, [(1, 0, 2), (3, 1, 0), (1, 1, 1)], lambda x, y, z: (x*a + y*b)**2), 3, fork=True)
    for nm, terms, g, cons, eqs, n, lift, seeds in WHOLE:
        add(f"whole.{nm}", whole(terms, g, cons, eqs, n, lift), len(terms), gens="a b c d" if n == 4 else "a b c",
            seeds=[{f"k{i}": v for i, v in enumerate(s)} for s in seeds], max_paths=25 if q else 300, path_s=30 if q else 90)
    return out


EXPLANATION = "Weights of the basis, coefficients of the polynomial and of the constraints are symbols; the constraints' own values are opaque functions: the returned expression must equal the polynomial after they are replaced, every weight must be nonnegative and every sign must come from a constraint."
