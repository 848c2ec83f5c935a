"""Changes of variables for symmetric polynomials, the proofs built on them, and standard forms of polynomials."""
import itertools
import sympy as sp
from sympy import Poly, S, symbols, Rational
from symx.case import LemmaCase
from symx import stubs, rt, cert
from . import c13

M = "triples.core.symsos."
F = "triples.utils.expression.form:"
Q = "triples.utils.expression.pqr:"
a, b, c, d, x, y, z, w, p, q, r, t, u = symbols("a b c d x y z w p q r t u")


def prepare():
    c13.prepare()


def sym(n, monos):
    """the symmetric polynomial with one coefficient per orbit of exponents"""
    g = (a, b, c, d)[:n]

    def build(*k):
        out = {}
        for m, v in zip(monos, k):
            for mm in set(itertools.permutations(m)):
                out[mm] = v
        return Poly(out, *g)
    return build


def parts(deg, n):
    """exponents of the orbits of a given degree, largest first"""
    out = [m for m in itertools.product(range(deg, -1, -1), repeat=n) if sum(m) == deg and tuple(sorted(m, reverse=True)) == m]
    return out


LINES = {3: [{a: t, b: S(1), c: S(-2)}, {a: t, b: 2*t + 1, c: S(3)}], 4: [{a: t, b: S(1), c: S(-2), d: S(5)}]}


def transform(method, n, monos, as_poly=True, line=None, shape=None):
    """putting the new variables' meaning back gives the polynomial again"""
    def prog(L, *k):
        P = shape(*k) if shape else sym(n, monos)(*k)
        if P.is_zero or (stubs.sym(P) and not L.nonzero(sum(v**2 for v in P.coeffs()))):
            return
        g = P.gens
        new = (x, y, z, w)[:n]
        rep = L.use(M + "representation:sym_representation")
        inv = L.use(M + "representation:sym_representation_inv")
        if as_poly:
            N, D = rep(P, new, return_poly=True, method=method)
            L.true("over the new variables", N.gens == new)
            e = inv(N.as_expr(), g, new, method=method)
        else:
            e, D = inv(rep(P, new, return_poly=False, method=method), g, new, method=method), S.One
        D = inv(D, g, new, method=method)
        e, D = [cert.expand_cyclic(v) for v in (e, D)]
        if line is not None:
            e, D = [v.xreplace(line) for v in (e, D)]
            L.eq("identity", e/D, P.as_expr().xreplace(line), (t,))
        else:
            L.eq("identity", e/D, P.as_expr(), g)
    return prog


POINTS4 = [dict(zip((a, b, c, d), v)) for v in ((0, 1, 3, -5), (1, 2, 5, 9), (-3, 1, 4, 5))]


def elementary(n, build):
    """as transform, from the form in elementary symmetric polynomials, at given points (all coefficients)"""
    g, new, el = (a, b, c, d)[:n], (x, y, z, w)[:n], (p, q, r, u)[:n]

    def prog(L, *k):
        if not L.nonzero(k[0]):
            return
        P = Poly(build(*k), *el)
        R_ = L.use(M + "symmetric:SymmetricReal")
        N, D = R_._transform_pqr(P, g, new)
        inv = R_.get_inv_dict(g, new)
        for pt in POINTS4:
            pt = {v: S(pt[v]) for v in g}
            sub = dict(zip(el, [sum(sp.Mul(*[pt[v] for v in s]) for s in itertools.combinations(g, i + 1)) for i in range(n)]))
            back = {v: cert.expand_cyclic(e).xreplace(pt) for v, e in inv.items()}
            L.eq("identity", N.as_expr().xreplace(back), cert.expand_cyclic(D).xreplace(pt).xreplace(back)*P.as_expr().xreplace(sub), ())
    return prog


def zero(method, n):
    def prog(L, k):
        g, new = (a, b, c, d)[:n], (x, y, z, w)[:n]
        N, D = L.use(M + "representation:sym_representation")(Poly(k - k, *g), new, return_poly=True, method=method)
        L.eq("zero", N.as_expr(), S.Zero, new)
    return prog


def constraints(method, cyc=False):
    """a transformed constraint is the old one times the reported factor"""
    def prog(L, *k):
        g, new = (a, b, c), (x, y, z)
        P = sym(3, [(2, 0, 0), (1, 1, 0)])(k[0], k[1])
        I1, I2 = Poly(k[2]*(a + b + c), *g), Poly(k[2]*a**2 + b if not cyc else k[2]*(a**2*b + b**2*c + c**2*a) + a*b*c, *g)
        E1 = sym(3, [(3, 0, 0), (2, 1, 0), (1, 1, 1)])(k[2], k[3], 1)
        if not (L.nonzero(k[0]) and L.nonzero(k[2])):
            return
        A, B, C_, D_ = symbols("A B C D")
        I3 = Poly(k[0]*a*b + k[0]*b*c + k[0]*c*a + (a + b + c)**2, *g)
        N, I, E_, D = L.use(M + "representation:sym_transform")(P, {I1: A, I2: B, I3: D_}, {E1: C_}, new, method=method)
        inv = L.use(M + "representation:sym_representation_inv")
        back = {A: I1.as_expr(), B: I2.as_expr(), C_: E1.as_expr(), D_: I3.as_expr()}
        full = lambda e: cert.expand_cyclic(inv(sp.sympify(e), g, new, method=method)).xreplace(back)
        L.eq("polynomial", full(N.as_expr())/full(D), P.as_expr(), g)
        for what, coll in (("inequality", I), ("equation", E_)):
            for n, v in coll.items():
                L.eq(what, full(n.as_expr()), full(v), g)
        L.true("unsymmetric constraint dropped", not any(sp.sympify(v).has(B) for v in I.values()))
        L.true("equation kept", any(sp.sympify(v).has(C_) for v in E_.values()))
    return prog


def defaults(method, n):
    """the default constraints say that these expressions are nonnegative for real (nonnegative) variables"""
    def prog(L, *v):
        g, new = (a, b, c, d)[:n], (x, y, z, w)[:n]
        mod = L.use(M + "symmetric:" + ("SymmetricReal" if method == "real" else "SymmetricPositive"))
        ineq, eq = mod.get_default_constraints(new)
        L.true("no equations", not eq)
        D = mod.get_inv_dict(g, new)
        for P, e in ineq.items():
            L.eq("constraint", P.as_expr(), e, new)
            val = cert.expand_cyclic(e.xreplace(D))
            num, den = sp.fraction(sp.factor(val.xreplace(dict(zip(g, v)))))
            for s in v:
                if method == "positive":
                    L.assume(">", s)
            if not L.nonzero(den):
                return
            L.ge("nonnegative", num/den)
    return prog


def factor_out(fac, deg, points, rest):
    def prog(L, *k):
        f = L.use(M + "basic:extract_factor")
        R_ = Poly(rest(*k), x, y, z)
        if stubs.sym(R_) and not L.nonzero(sum(v**2 for v in R_.coeffs())):
            return
        if not stubs.sym(R_) and R_.is_zero:
            return
        fp = Poly(fac, x, y, z)
        P = R_*fp**deg
        n, rem = f(P, fp, points)
        L.true("degree", n >= deg)
        L.eq("product", rem.as_expr()*fac**n, P.as_expr(), (x, y, z))
        n2, rem2 = f(rem, fp, [])
        L.true("largest degree", n2 == 0)
    return prog


def pqr(monos, n=3):
    def prog(L, *k):
        P = sym(n, monos)(*k)
        e = L.use(Q + "pqr_sym")(P, (p, q, r, u)[:n])
        g = P.gens
        el = [sum(sp.Mul(*s) for s in itertools.combinations(g, i + 1)) for i in range(n)]
        L.true("in the new symbols", not (e.free_symbols & set(g)))
        L.eq("value", e.subs(dict(zip((p, q, r, u), el)), simultaneous=True), P.as_expr(), g)
    return prog


def pqr_cyclic(monos):
    def prog(L, *k):
        P = Poly({m[i:] + m[:i]: v for m, v in zip(monos, k) for i in range(3)}, a, b, c)
        f, g = L.use(Q + "pqr_cyc")(P)
        back = {p: a + b + c, q: a*b + b*c + c*a, r: a*b*c}
        L.true("in the new symbols", not ((sp.sympify(f) + sp.sympify(g)).free_symbols & {a, b, c}))
        v = [sp.sympify(e).subs(back, simultaneous=True) for e in (f, g)]
        L.eq("value", v[0] + (a - b)*(b - c)*(c - a)*v[1], P.as_expr(), (a, b, c))
    return prog


def pqr_general(deg, nk):
    """a polynomial that need not be cyclic is refused or represented"""
    monos = [m for m in itertools.product(range(deg, -1, -1), repeat=3) if sum(m) == deg][:nk]

    def prog(L, *k):
        P = Poly(dict(zip(monos, k)), a, b, c)
        try:
            f, g = L.use(Q + "pqr_cyc")(P)
        except ValueError:
            return
        back = {p: a + b + c, q: a*b + b*c + c*a, r: a*b*c}
        v = [sp.sympify(e).subs(back, simultaneous=True) for e in (f, g)]
        L.eq("value", v[0] + (a - b)*(b - c)*(c - a)*v[1], P.as_expr(), (a, b, c))
    return prog, len(monos)


def kernel(L, *v):
    e = L.use(Q + "pqr_ker")()
    A, B, C = v
    L.eq("square of the differences", e.subs({p: A + B + C, q: A*B + B*C + C*A, r: A*B*C}, simultaneous=True), ((A - B)*(B - C)*(C - A))**2, ())


# ---- end to end -------------------------------------------------------------------------------------------------
def prove(n, monos, cons=None, shape=None):
    """the proof equals the polynomial and needs the given constraints only"""
    def prog(L, *k):
        f = L.use(M + "symsos:SymmetricSOS")
        P = shape(*k) if shape else sym(n, monos)(*k)
        if not stubs.sym(P) and P.is_zero:
            return
        g = P.gens
        names = symbols("A B C")
        ineqs = {Poly(e, *g): s for e, s in zip(cons(*g) if cons else [], names)}
        sol = f(P, ineqs, {})
        if sol is None:
            return
        e = sol.solution if hasattr(sol, "solution") else sol
        e = cert.expand_cyclic(sp.sympify(e))
        back = {s: q_.as_expr() for q_, s in ineqs.items()}
        L.true("uses the constraints only", not e.atoms(sp.core.function.AppliedUndef))
        for i, ln in enumerate(LINES[3]):
            L.eq("identity", e.xreplace(back).xreplace(ln), P.as_expr().xreplace(ln), (t,))
        L.signs("sign", e, set(back))
    return prog


# ---- standard forms -----------------------------------------------------------------------------------------------
def at(*v):
    return {f"k{i}": s for i, s in enumerate(v)}


def shapes3(deg):
    m = parts(deg, 3)
    return m, len(m)


SCHUR = lambda n: (lambda v: Poly(sp.expand(v*(a**n*(a - b)*(a - c) + b**n*(b - a)*(b - c) + c**n*(c - a)*(c - b))), a, b, c))


def cases(tier):
    C = LemmaCase
    out = []
    lk = dict(max_paths=30, budget_s=40, query_ms=4000)
    e1, e2, e3 = a + b + c, a*b + b*c + c*a, a*b*c
    for method in ("real", "positive"):
        for deg in (1, 2, 3, 4, 5, 6):
            m, nk = shapes3(deg)
            if deg <= 4:
                out.append(C(f"{method}.3.{deg}", transform(method, 3, m), nk, fork=deg <= 3, **lk))
            for i, ln in enumerate(LINES[3]):
                if deg <= 4 and i:
                    continue
                out.append(C(f"{method}.3.{deg}.line{i}", transform(method, 3, m, line=ln), nk, fork=deg in (4, 5), **lk))
            out.append(C(f"{method}.3.{deg}.expr", transform(method, 3, m, as_poly=False, line=LINES[3][0]), nk, max_paths=6, budget_s=30))
        D3 = (a - b)**2 + (b - c)**2 + (c - a)**2
        out.append(C(f"{method}.3.centred", transform(method, 3, None, line=LINES[3][0], shape=lambda v, s: Poly(sp.expand(v*D3*(a**2 + b**2 + c**2) + s*D3**2), a, b, c)), 2, **lk))
        out.append(C(f"{method}.3.centred.6", transform(method, 3, None, line=LINES[3][1], shape=lambda v, s: Poly(sp.expand(v*D3**3 + s*((a - b)*(b - c)*(c - a))**2), a, b, c)), 2, **lk))
        out.append(C(f"{method}.3.schur", transform(method, 3, None, shape=SCHUR(1)), 1, **lk))
        out.append(C(f"{method}.3.schur2", transform(method, 3, None, shape=SCHUR(2), line=LINES[3][1]), 1, **lk))
        for i, f in enumerate((lambda v, s: v*e1**4 + s*e1**3*e2*0, lambda v, s: v*e1**5 + s*e1**3*e2, lambda v, s: v*e1**7, lambda v, s: v*e2**4 + s*e1**8, lambda v, s: v*e1*e2**5, lambda v, s: v*e1**2*e2**2*e3**2 + s*e1**6*e2**3, lambda v, s: v*e2**4*e1**4 + s*e2**6)):
            out.append(C(f"{method}.3.elem.{i}", transform(method, 3, None, line=LINES[3][i % 2], shape=lambda v, s, f=f: Poly(sp.expand(f(v, s)), a, b, c)), 2, **lk))
        out.append(C(f"{method}.zero", zero(method, 3), 1))
        out.append(C(f"{method}.constraints", constraints(method), 4, max_paths=16, budget_s=60))
        out.append(C(f"{method}.constraints.cyclic", constraints(method, True), 4, max_paths=8, budget_s=60))
        out.append(C(f"{method}.defaults", defaults(method, 3), 3, max_paths=8, budget_s=60))
    for deg in (1, 2, 3, 4):
        m = parts(deg, 4)
        out.append(C(f"real.4.{deg}", transform("real", 4, m, line=LINES[4][0]), len(m), fork=deg <= 3, **lk))
        out.append(C(f"real.4.{deg}.expr", transform("real", 4, m, as_poly=False, line=LINES[4][0]), len(m), max_paths=4, budget_s=40))
    f1, f2 = a + b + c + d, sum(u_*v for u_, v in itertools.combinations((a, b, c, d), 2))
    for i, f in enumerate((lambda v, s: v*f1**3 + s*f1*f2, lambda v, s: v*f1**4, lambda v, s: v*f1**5, lambda v, s: v*f1**2*f2**2, lambda v, s: v*f2**3 + s*f1**2*f2**2, lambda v, s: v*a*b*c*d, lambda v, s: v*(a*b*c*d)*f1**2)):
        out.append(C(f"real.4.elem.{i}", transform("real", 4, None, line=LINES[4][0], shape=lambda v, s, f=f: Poly(sp.expand(f(v, s)), a, b, c, d)), 2, max_paths=6, budget_s=40))
    for i, f in enumerate((lambda v, s: v*u**3 + s*u**2*q**2, lambda v, s: v*r**4 + s*q**6, lambda v, s: v*u**2 + s*p*q**2*r, lambda v, s: v*q**3*r**2 + s*p**3*u*q*r, lambda v, s: v*u**4, lambda v, s: v*p**2*r**3 + s*p*q*u**2, lambda v, s: v*r*u + s*q**2*r, lambda v, s: v*r**3 + s*p*u**2, lambda v, s: v*u*q*p + s*r**2*p, lambda v, s: v*u**2*q + s*q**5)):
        out.append(C(f"real.4.high.{i}", elementary(4, f), 2, max_paths=4, budget_s=40))
    for i, f in enumerate((lambda v, s: v*r**3 + s*q**3*r, lambda v, s: v*(p**2 - 3*q)**3*q + s*(p**2 - 3*q)**4, lambda v, s: v*(p**3 - 4*p*q + 9*r)**2*(p**2 - 3*q) + s*r**2*p**2, lambda v, s: v*p**2*q**4 + s*p**7*r, lambda v, s: v*(p*q - 9*r)**3 + s*(p**2 - 3*q)**2*q*r)):
        out.append(C(f"real.3.high.{i}", elementary(3, f), 2, max_paths=4, budget_s=40))
    out.append(C("real.4.zero", zero("real", 4), 1))
    D4 = sum((s - v)**2 for s, v in itertools.combinations((a, b, c, d), 2))
    out.append(C("real.4.centred", transform("real", 4, None, line=LINES[4][0], shape=lambda v, s: Poly(sp.expand(v*D4*(a + b + c + d)**2 + s*D4**2), a, b, c, d)), 2, **lk))
    for nm, fac, deg, pts, rest, nk in (
            ("line", y - x, 2, [(1, 1, 0)], lambda u_, v: u_*x + v*y, 2), ("conic", (y - 2*x)**2 + z, 1, [(2, 1, -9)], lambda u_, v, s: u_*x**2 + v*y*z + s*z**2, 3),
            ("curve", y**2 + z, 2, [(3, 2, -4)], lambda u_, v: u_*z + v*y**2, 2), ("nothing", y**2 + z, 0, [(3, 2, -4)], lambda u_, v, s: u_*x**2 + v*y**2 + s*z*x, 3)):
        out.append(C(f"factor.{nm}", factor_out(fac, deg, pts, rest), nk, fork=True, max_paths=30, budget_s=30))
    for deg in (2, 3, 4, 5, 6):
        m, nk = shapes3(deg)
        out.append(C(f"pqr.3.{deg}", pqr(m), nk, fork=deg <= 3, max_paths=8, budget_s=30))
    for deg in (2, 3, 4):
        m = parts(deg, 4)
        out.append(C(f"pqr.4.{deg}", pqr(m, 4), len(m), max_paths=4, budget_s=30))
    for deg in (2, 3, 4):
        m = sorted({max((e[i:] + e[:i]) for i in range(3)) for e in itertools.product(range(deg + 1), repeat=3) if sum(e) == deg}, reverse=True)
        out.append(C(f"pqr.cyc.{deg}", pqr_cyclic(m), len(m), max_paths=8, budget_s=40))
    for deg, n in ((1, 3), (2, 6), (3, 7), (3, 10), (4, 6)):
        pr, nk = pqr_general(deg, n)
        out.append(C(f"pqr.cyc.general.{deg}.{n}", pr, nk, fork=True, max_paths=16, budget_s=30))
    out.append(C("pqr.kernel", kernel, 3))
    pos = lambda *g: list(g)
    pk = dict(max_paths=12, budget_s=50, path_s=20, query_ms=4000)
    out.append(C("prove.2", prove(3, parts(2, 3)), 2, fork=True, seeds=[at(1, -1), at(1, 0), at(1, 1), at(2, -1), at(1, 2)], **pk))
    out.append(C("prove.2.pos", prove(3, parts(2, 3), pos), 2, fork=True, seeds=[at(1, -1), at(1, 1), at(1, 3), at(0, 1)], **pk))
    out.append(C("prove.3.pos", prove(3, parts(3, 3), pos), 3, seeds=[at(1, -1, 3), at(1, 0, -3), at(1, 0, 0), at(0, 1, -6), at(1, 1, 1), at(1, -1, 4)], **pk))
    out.append(C("prove.4", prove(3, parts(4, 3)), 4, seeds=[at(1, -1, 0, 1), at(1, 0, -1, 0), at(1, 0, 0, -1), at(3, -2, 0, 0), at(1, -2, 2, 0)], **pk))
    out.append(C("prove.4.pos", prove(3, parts(4, 3), pos), 4, seeds=[at(1, -1, 0, 1), at(1, 0, -1, 0), at(0, 1, -2, 0), at(1, -1, 1, 0)], **pk))
    out.append(C("prove.schur.1", prove(3, None, pos, SCHUR(1)), 1, seeds=[at(1)], **pk))
    scaled = lambda x, y, z: (2*x, 3*y, z/5)
    pairs = lambda x, y, z: (x*y, y*z, z*x)
    out.append(C("prove.schur.scaled", prove(3, None, scaled, SCHUR(1)), 1, seeds=[at(1)], **pk))
    out.append(C("prove.3.scaled", prove(3, parts(3, 3), scaled), 3, seeds=[at(1, -1, 3), at(1, 0, -3), at(0, 1, -6)], **pk))
    out.append(C("prove.3.pairs", prove(3, parts(3, 3), pairs), 3, seeds=[at(1, -1, 3), at(0, 1, -6)], **pk))
    out.append(C("prove.schur.2", prove(3, None, None, SCHUR(2)), 1, seeds=[at(1)], **pk))
    return out
