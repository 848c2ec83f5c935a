"""Building blocks shared by the structural provers."""
import itertools
import sympy as sp
from sympy import S, sqrt, Poly, symbols
from symx.case import LemmaCase, ProofCase
from symx import stubs, rt
from symx.engine import OutOfReach

U = "triples.core.structsos.utils:"
TU = "triples.core.structsos.ternary.utils:"
SP = "triples.core.structsos.sparse:"
a, b, c, d, e = symbols("a b c d e")
MARK = None


def prepare():
    stubs.install()


def weighting(mode):
    def prog(L, x, y, z):
        f = L.use(U + "quadratic_weighting")
        P = x*a**2 + y*a*b + z*b**2
        if mode == "formal":
            r = f(x, y, z, formal=True)
            if r is not None:
                r = sum(w * (p*a + q*b)**2 for w, (p, q) in r)
        elif mode == "mapping":
            r = f(x, y, z, mapping=lambda p, q: (p*a + q*b)**2)
        elif mode == "given":
            r = f(x, y, z, a=a, b=b)
        elif mode == "other":
            r = f(x, y, z, c - d, a*d)
            P = P.xreplace({a: c - d, b: a*d})
        else:
            r = f(x, y, z)
        if r is None:
            L.note("None")
            L.impossible("refused a nonnegative form", [(">=", 4*x*z - y**2), (">=", x), (">=", z)])
            return
        L.note("ok")
        L.proof("form", r, P, (a, b, c, d), ())
    return prog


def sum_y(L, x, y, z):
    f = L.use(U + "sum_y_exprs")
    E = [(a - b)**2/2, a*b/(a + b), (a**2 + sqrt(2)*b**2)/3, a*(1 + sqrt(2))/(b + c)]
    ys = [x, y/(1 + z**2), x*z/3, y]
    r = sp.sympify(f(ys, E))
    L.eq("sum", r, sum(v * w for v, w in zip(ys, E)), gens=(a, b, c))
    L.eq("surd weights", f([x/(1 + sqrt(2)), sqrt(3)*y], [a*b, b*c]), x/(1 + sqrt(2))*a*b + sqrt(3)*y*b*c, gens=(a, b, c))


def rads(L, x, y):
    f = L.use(U + "radsimp")
    for i, v in enumerate([x + y, x/(1 + y**2), (x + sqrt(2)*y)/(1 - sqrt(2)), x*sqrt(3)/(sqrt(2) + sqrt(3)), S(3)/7, 1/(1 + sqrt(2) + sqrt(3)), (x - sqrt(5))**2/(sqrt(5) - 1), sqrt(6 + 2*sqrt(5)) - 1]):
        L.eq(f"value {i}", f(v), v, gens=())
    r = f([x/(2 + sqrt(3)), sp.Integer(5), y])
    L.true("list", len(r) == 3)
    for v, w in zip(r, [x/(2 + sqrt(3)), sp.Integer(5), y]):
        L.eq("list value", v, w, gens=())


def common(L):
    C = L.use(TU + "CommonExpr")
    cs = lambda x: x + x.xreplace({a: b, b: c, c: a}) + x.xreplace({a: c, b: a, c: b})
    for n in (2, 3, 5):
        r = C.schur(n)
        if r is not None:
            L.proof(f"schur {n}", r, cs(a**(n-2)*(a-b)*(a-c)), (a, b, c), (a, b, c))
    for n in (2, 4, 6):
        r = C.schurinv(n)
        if r is not None:
            m = (n - 2)//2
            L.proof(f"schurinv {n}", r, cs(b**m*c**m*(a-b)*(a-c)), (a, b, c), (a, b, c))
    mons = {n: [(i, j, n - i - j) for i in range(n + 1) for j in range(n + 1 - i)] for n in (2, 3, 4, 5, 6, 7, 8)}
    got = 0
    for n in mons:
        for d1, d2 in itertools.product(mons[n], repeat=2):
            r = C.amgm(d1, d2)
            if r is not None:
                got += 1
                m = lambda d: a**d[0]*b**d[1]*c**d[2]
                L.proof(f"amgm {d1} {d2}", r, cs(m(d1)) - cs(m(d2)), (a, b, c), (a, b, c))
    L.true("the table of AM-GM inequalities is reachable", got > 0)


def quad3(L, x, y):
    r = L.use(TU + "CommonExpr").quadratic(x, y)
    if r is None:
        L.note("None")
        L.impossible("refused a nonnegative form", [(">=", x), (">=", x + y)])
        return
    L.proof("form", r, x*(a**2 + b**2 + c**2) + y*(a*b + b*c + c*a), (a, b, c), (a, b, c))


def flat(x):
    from symx.cert import expand_cyclic
    return expand_cyclic(x)


def samples(L, x, y, z):
    CS, CP = L.use("triples.utils.expression.cyclic:CyclicSum"), L.use("triples.utils.expression.cyclic:CyclicProduct")
    return [x*a*CS(a**2*b + y*b*c**2), CS(a**2*(x*b + y*c)**2), CS(x*a**3*b**2*c + y*a*b*c*(a - z*b)**2), CP(a + x*b)*CS(b*(y*a - c)**2),
            x*CS(a**3*b**2*c**2*(y*a - b)**2) + y*CP(a**2), CS(a)*CS(x*a*b**2) / CS(a**2 + z**2*b*c), x*(a - b)**2*c + y*CP(a)*CS(z*a*b + b**2), S(2)*a - x*b,
            CS(a*b**4*c**2*(x*a**2 + b*c))**2, CP(b**3)*x + CS(a**2*b*c),
            CP((a + b)**2)*CS(x*a) + y*CP((a - b)**2)*z, CS(a*b*c*(x*a - y*b)**2)*CP(a*b) + CP((x*a + b*c)**2)]


def reflect(L, x, y, z):
    f = L.use(TU + "reflect_expression")
    for i, s in enumerate(samples(L, x, y, z)):
        L.eq(f"expression {i}", flat(f(s)), flat(s).xreplace({b: c, c: b}), gens=(a, b, c))


def inverse(L, x, y, z):
    f = L.use(TU + "inverse_substitution")
    for i, s in enumerate(samples(L, x, y, z)):
        want = flat(s).xreplace({a: b*c, b: c*a, c: a*b})
        L.eq(f"expression {i}", flat(f(s)), want, gens=(a, b, c))
        L.eq(f"expression {i} divided", flat(f(s, 2)), want/(a*b*c)**2, gens=(a, b, c))


def perturb(deg):
    """poly - t*perturbation is handed to the prover; its answer plus t*perturbation must be the poly"""
    def prog(L, p, q):
        import triples.core.structsos.ternary as T
        from triples.core.shared import SS
        f = L.use(TU + "try_perturbations")
        CS = L.use("triples.utils.expression.cyclic:CyclicSum")
        pert = CS(a**2*(a - b)**2)
        P = Poly(p*(a**4 + b**4 + c**4) + q*(a*b**3 + b*c**3 + c*a**3) + a*b*c*(a + b + c), a, b, c)
        seen = []
        cont = SS.structsos.ternary
        old = dict(cont)
        def fake(coeff, *A, **kw):
            seen.append(coeff)
            return coeff.as_poly(a, b, c).as_expr() if len(seen) >= deg else None
        cont["_structural_sos_3vars_cyclic"] = fake
        try:
            L.assume(">=", p)
            L.assume(">=", q)
            r = f(P, p, q, pert)
        finally:
            cont.clear()
            cont.update(old)
        if r is None:
            L.note("None")
            return
        L.eq("sum", flat(r), P.as_expr(), gens=(a, b, c))
        t = sp.Poly(sp.expand(P.as_expr() - seen[-1].as_poly(a, b, c).as_expr()), a, b, c)
        w = sp.Poly(flat(pert), a, b, c)
        m = w.monoms()[0]
        L.ge("the perturbation is not negative", t.coeff_monomial(m) / w.coeff_monomial(m))
    return prog


def uncentred(m, kind):
    """the bias at (1,1,1) is taken out, what is left goes to the solver, the answer gets it back"""
    n = sum(m[0])
    def prog(L, *k):
        f = L.use(TU + "sos_struct_handle_uncentered")
        Coeff = L.use("triples.utils:Coeff")
        seen = []
        def solver(poly, flag=None):
            seen.append((poly, flag))
            return Cert(poly)
        Cert = lambda q: q.as_poly(a, b, c).as_expr()
        g = (a, b, c)
        P = sp.expand(sum(x * a**(e[i % 3]) * b**(e[(i + 1) % 3]) * c**(e[(i + 2) % 3]) for x, e in zip(k, m) for i in range(3)))
        for x in k[1:]:
            L.nonzero(x)
        if not L.nonzero(k[0]) or P == 0:
            return
        p = Poly(P, *g)
        bias = sp.expand(P.subs({a: 1, b: 1, c: 1}))
        r = f(solver)(Coeff(p) if kind else p, flag=5)
        if r is None:
            L.note("refused")
            L.impossible("refused a polynomial that is not negative at (1,1,1)", [(">=", bias)])
            return
        L.ge("the bias", bias)
        q, fl = seen[-1]
        L.true("arguments", fl == 5)
        qp = q.as_poly(a, b, c)
        L.true("homogeneous", qp.is_homogeneous and (qp.is_zero or qp.total_degree() == n), str(qp))
        L.eq("centred", qp.as_expr().subs({a: 1, b: 1, c: 1}), S.Zero, gens=())
        L.eq("sum", flat(r), P, gens=g)
        L.eq("what is added", flat(r).subs({a: 1, b: 1, c: 1}), bias, gens=())
        L.signs("sign", sp.expand(flat(r) - qp.as_expr()), set(g))
    return prog


def linear(gens):
    def call(f, dct, g):
        return f(Poly(dct, *g) if dct else Poly(0, *g))
    n = len(gens.split())
    mons = [tuple(int(i == j) for i in range(n)) for j in range(n + 1)]
    def complete(self, E, ks):
        yield ("refused a nonnegative form", [(">=", k) for k in ks])
    def complete_concrete(ks, dct):
        return "refused a nonnegative form" if all(k >= 0 for k in ks) else None
    C = ProofCase(f"linear.{n}", SP + "sos_struct_linear", lambda *k: dict(zip(mons, k)), n + 1, gens=gens, nonneg=gens, call=call, complete=complete)
    C.complete_concrete = complete_concrete
    return C


def quadratic(gens, hom, sparse=None):
    n = len(gens.split())
    mons = [m for m in itertools.product(range(3), repeat=n) if (sum(m) == 2 if hom else sum(m) <= 2)]
    if sparse:
        mons = [m for i, m in enumerate(mons) if i not in sparse]
    def call(f, dct, g):
        return f(Poly(dct, *g) if dct else Poly(0, *g))
    return ProofCase(f"quadratic.{n}{'h' if hom else ''}{'s' if sparse else ''}", SP + "sos_struct_quadratic", lambda *k: dict(zip(mons, k)), len(mons), gens=gens, nonneg="", call=call)


def factors(mono, power, real, gens="a b c", neg=False):
    """the solver behind the wrapper may use nonnegativity of its own variables only when told so"""
    def prog(L, x, y, z):
        f = L.use(SP + "sos_struct_extract_factors")
        Coeff = L.use("triples.utils:Coeff")
        g = symbols(gens)
        core = {(2, 0, 0): x, (0, 2, 0): x, (0, 0, 2): x, (1, 1, 0): y, (0, 1, 1): y, (1, 0, 1): y}
        x1 = x if L.nonzero(x) else S.Zero
        y1 = y if L.nonzero(y) else S.Zero
        if x1 == 0 and y1 == 0:
            return
        dct = {tuple(power*i + j for i, j in zip(m, mono)): v for m, v in core.items() if not (v == x and x1 == 0) and not (v == y and y1 == 0)}
        seen = []
        def solver(p, real=True, **kw):
            seen.append((p, real))
            q = p if isinstance(p, Poly) else p.as_poly(*g)
            return q.as_expr()
        P = Poly(dct, *g)
        arg = P if neg else Coeff(P)
        r = f(arg, solver, real=real)
        L.eq("product", flat(r), P.as_expr(), gens=g)
        # for even powers or odd monomials a proof over the reals is neither needed nor possible
        p, rl = seen[-1]
        odd = any(m % 2 for m in mono)
        L.true("the solver is asked for no more than needed", not (rl and (not real) and (any(mono) or power % 2 == 0)))
        if any(mono) and odd:
            L.true("an odd factor is not proved over the reals", not seen[0][1])
    return prog


def cases(tier):
    q = tier == "quick"
    kw = dict(max_paths=200 if q else 4000, budget_s=20 if q else 240, path_s=20 if q else 60, query_ms=3000, validate=10)
    out = []
    def add(name, prog, nk, **k):
        out.append(LemmaCase(name, prog, nk, "a b c d", **{**kw, **k}))
    for m in ("plain", "given", "formal", "mapping", "other"):
        add(f"quadratic_weighting.{m}", weighting(m), 3)
    add("sum_y_exprs", sum_y, 3)
    add("radsimp", rads, 2)
    add("common", lambda L, x: common(L), 1)
    add("common.quadratic", quad3, 2)
    add("reflect", reflect, 3)
    add("inverse_substitution", inverse, 3)
    for i, m in enumerate([[(2,0,0),(1,1,0)], [(3,0,0),(2,1,0),(1,1,1)], [(4,0,0),(2,2,0),(2,1,1)], [(5,0,0),(4,1,0),(2,2,1)], [(4,2,0),(3,3,0),(2,2,2)], [(5,1,0),(4,1,1),(3,0,3)], [(7,0,0),(4,2,1),(3,2,2)], [(5,3,0),(3,3,2)], [(1,0,0)], [(5,0,0),(3,1,1)], [(7,0,0),(3,3,1)]]):
        for kind in (0, 1):
            add(f"uncentred.{i}{'pc'[kind]}", uncentred(m, kind), len(m))
    for n in (1, 2, 3):
        add(f"perturbations.{n}", perturb(n), 2)
    for i, (m, p, r) in enumerate(itertools.product([(0, 0, 0), (1, 1, 1), (2, 2, 2), (1, 0, 0), (2, 0, 2), (0, 3, 1)], (1, 2, 3), (True, False))):
        add(f"factors.{i}", factors(m, p, r, neg=i % 2), 3)
        add(f"factors.{i}p", factors(m, p, r, neg=True, gens="d a e"), 3)
    out += [linear("a b"), linear("a b c"), linear("x y z w"), quadratic("a b", False), quadratic("a b c", True), quadratic("a b c", False, {0, 5, 7, 8}), quadratic("x y z w", True, {1, 4, 6})]
    for o in out:
        for k, v in kw.items():
            if isinstance(o, ProofCase):
                setattr(o, k, v)
    return out


EXPLANATION = "Weights and coefficients are symbols; the decompositions the real functions return are checked as identities whose every weight is nonnegative on the path."
