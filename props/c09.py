"""Signs are assumed only where the problem gives them; sanitising keeps the problem."""
import itertools
import sympy as sp
from sympy import S, sqrt, Poly, symbols, Rational, Function, Symbol
from sympy.core.function import AppliedUndef
from symx.case import LemmaCase
from symx import stubs, rt, cert
from symx.engine import OutOfReach

ST = "triples.core.structsos.structsos:"
SO = "triples.core.structsos.solution:"
SH = "triples.core.shared:"
a, b, c, d = symbols("a b c d")
u, v, w, s = symbols("u v w s")


def prepare():
    stubs.install()


def unfunc(e, names):
    """e with every G(x) for G in names replaced by the symbol p_x"""
    rep = {f: Symbol("p_" + str(f.args[0])) for f in e.atoms(AppliedUndef) if f.func.__name__ in names}
    return e.xreplace(rep), {q: f.args[0] for f, q in rep.items()}


# ---- which symbols a structural proof needs nonnegative ---------------------------
def extract(make, gens="a b c"):
    def prog(L, x, y, z):
        CS, CP = L.use("triples.utils:CyclicSum"), L.use("triples.utils:CyclicProduct")
        e = make(x, y, z, CS, CP)
        r = L.use(SO + "SolutionStructural")._extract_nonnegative_exprs(e, func_name="_G")
        if r is None:
            L.note("None")
            return
        L.note("ok")
        r = cert.expand_cyclic(r)
        r, back = unfunc(r, {"_G"})
        L.eq("value", r.xreplace(back), e, gens=symbols(gens))
        L.signs("sign", r, set(back))
    return prog


EXPRS = [
    lambda x, y, z, CS, CP: x*a**2 + y*a*b + z*b,
    lambda x, y, z, CS, CP: x*a**3*b + y*(a - b)**2*c + z*(a - b)**4*(a + b)**3/(a + c),
    lambda x, y, z, CS, CP: (x*a + y*b)/(z**2*a + b) + a**2*b/c**3,
    lambda x, y, z, CS, CP: x/a + y/a**2 + z/(a + b)**3,
    lambda x, y, z, CS, CP: x*CS(a**2, (a, b, c)) + y*CS(a*b, (a, b, c)) + z*CP(a, (a, b, c)),
    lambda x, y, z, CS, CP: CS(x*a*(b - c)**2 + y*a**3, (a, b, c)) + z*CP((a - b)**2, (a, b, c)),
    lambda x, y, z, CS, CP: CS((x*a + y*b + z*c)**2, (a, b, c)) * CS(a, (a, b, c)),
    lambda x, y, z, CS, CP: CS(a*(x*a + y*b + z*c)**2*(b - c)**2, (a, b, c)) / CP(a + b, (a, b, c)),
    lambda x, y, z, CS, CP: CP(x*a**2 + y*b, (a, b, c)) * z,
    lambda x, y, z, CS, CP: sqrt(2)*x*(a - sqrt(3)*b)**2*c + (y + z)*(1 + sqrt(2))*a**2,
    lambda x, y, z, CS, CP: x*a**3 + y*(a**2 + b**2)**3*a + z*(a*b)**3,
    lambda x, y, z, CS, CP: CS(CS(a*(b - c)**2, (a, b, c))*x*a + y*b**3, (a, b, c)) + z*a*b*c,
    lambda x, y, z, CS, CP: x*sqrt(a)*b**2 + y*(a + b)**Rational(3, 2) + z*a,
    lambda x, y, z, CS, CP: x*(y*a + z*b)**3,
    lambda x, y, z, CS, CP: CS(x*(a - b)**3*c + y, (a, b, c)) + z,
]


def monomial(L, x, y, z):
    f = L.use(ST + "_structural_sos_monomial")
    if not L.nonzero(x):
        return
    P = Poly(x*a**3*b**2*c, a, b, c)
    cons = {Poly(y*a, a, b, c): u, Poly(z*c, a, b, c): v, Poly(a*b, a, b, c): w, Poly(b**2 - c, a, b, c): s}
    r = f(P, cons)
    if r is None:
        L.note("None")
        return
    L.note("ok")
    L.eq("value", r.xreplace({u: y*a, v: z*c}), P.as_expr())
    L.assume(">=", x)
    L.signs("sign", r, {u, v})


def whole(terms, gens, cons, eqs=()):
    """_structural_sos on sum of coefficients times orbits, with constraints {key: value symbol}"""
    gens = symbols(gens)
    def prog(L, *k):
        f = L.use(ST + "_structural_sos")
        n = len(terms)
        P = sp.expand(sum(x * t for x, t in zip(k, terms)))
        L.nonzero(k[0]); L.nonzero(k[1])
        # signs of the constraints' leading coefficients as sanitized input has them
        keys = [sp.sympify(q) for q in cons]
        vals = symbols("u v w s")[:len(keys)]
        Pp = Poly(P, *gens)
        if Pp.is_zero:
            return
        try:
            r = f(Pp, {Poly(q, *gens): x for q, x in zip(keys, vals)}, {Poly(sp.sympify(q), *gens): S.Zero for q in eqs})
        except Exception as e:
            if type(e).__name__ in ("PolynomialNonpositiveError", "PolynomialUnsolvableError"):
                return
            raise
        if r is None:
            L.note("None")
            return
        L.note("ok")
        back = dict(zip(vals, keys))
        r = cert.expand_cyclic(sp.sympify(r))
        L.eq("value", r.xreplace(back), P, gens=gens)
        L.signs("sign", r, set(vals))
    return prog


def cyc(m, gens="a b c"):
    g = symbols(gens)
    n = len(g)
    return sum(sp.Mul(*[g[(i + j) % n]**e for j, e in enumerate(m)]) for i in range(n))


def sym(m, gens="a b c"):
    g = symbols(gens)
    return sum(sp.Mul(*[x**e for x, e in zip(g, p)]) for p in set(itertools.permutations(m)))


WHOLE = [
    ("quadratic", [cyc((2, 0, 0)), cyc((1, 1, 0))], "a b c", 1),
    ("cubic", [cyc((3, 0, 0)), cyc((2, 1, 0)), cyc((1, 2, 0)), a*b*c], "a b c", 1),
    ("quartic", [cyc((4, 0, 0)), cyc((2, 2, 0)), cyc((3, 1, 0)), cyc((1, 3, 0)), cyc((2, 1, 1))], "a b c", 1),
    ("quartic4", [sym((4, 0, 0, 0), "a b c d"), sym((2, 2, 0, 0), "a b c d"), sym((2, 1, 1, 0), "a b c d")], "a b c d", 1),
    ("cubic4", [sym((3, 0, 0, 0), "a b c d"), sym((2, 1, 0, 0), "a b c d"), sym((1, 1, 1, 0), "a b c d")], "a b c d", 1),
]


def rename(e, old, new):
    return sp.sympify(e).xreplace(dict(zip(symbols(old), symbols(new))))


CONS = {
    "none": [], "all": ["a", "b", "c", "d"], "two": ["a", "b"], "neg": ["-a", "b", "c", "d"], "scaled": ["2*a", "b/3", "c", "5*d"],
    "products": ["a*b", "b*c", "a + b", "c"], "swapped": ["b", "c", "a", "d"],
}


# ---- standard form of a constraint --------------------------------------------------
class Sqf:
    """`_sqf_list` answering with the factorisation the harness built the polynomial from"""

    def __init__(self, L, c, lst):
        self.m, self.c, self.lst = L.use(SH + "_std_ineq_constraints").__globals__, c, lst

    def __enter__(self):
        self.old = self.m["_sqf_list"]
        self.m["_sqf_list"] = lambda p: (self.c, [(q, e) for q, e in self.lst])

    def __exit__(self, *a):
        self.m["_sqf_list"] = self.old


def std(kind, exps):
    def prog(L, x, y, z):
        g = (a, b, c)
        if not L.nonzero(x):
            return
        qs = [Poly(a + y*b, *g), Poly(z*a**2 + c*b + 1, *g), Poly(b - c, *g)]
        lst = [(q, e) for q, e in zip(qs, exps) if e]
        P = Poly(x, *g)
        for q, e in lst:
            P = P * q**e
        with Sqf(L, x, lst):
            ret, e2 = L.use(SH + f"_std_{kind}_constraints")(P, u)
        L.note(kind)
        Q = sp.Mul(*[q.as_expr()**e for q, e in lst], evaluate=False)
        red = ret.as_expr()
        if kind == "ineq":
            # value: u = P gives e2 = ret; factor: positive
            L.eq("value", e2.xreplace({u: x*Q}), red)
            f = sp.factor_list(red)
            sgn = 1 if L.decide(">", x) else -1
            L.eq("sign", red, sgn * sp.Mul(*[q.as_expr() for q, e in lst if e % 2]))
            L.signs("factor", e2 / u, set())
        else:
            m = max([e for _, e in lst], default=1)
            sgn = 1 if L.decide(">", x) else -1
            L.eq("sign", red, sgn * sp.Mul(*[q.as_expr() for q, e in lst]))
            if m == 1:
                L.eq("value", e2.xreplace({u: x*Q}), red)
            else:
                # up to the sign of the root: the m-th powers agree
                core = (e2 * sgn)
                L.true("root", isinstance(core, sp.Pow) and core.exp == Rational(1, m), str(core))
                L.eq("value", core.base.xreplace({u: x*Q}), sp.Mul(*[q.as_expr()**m for q, e in lst]))
    return prog


# ---- the whole wrapper ---------------------------------------------------------------
def sanitize(poly, ineqs, eqs, hom=True, symmetry=None, wrap=False, infer=False, sol="sum", names=None):
    """run sanitize_input around a solver which builds a sum of what it is given; afterwards
    every piece of the sum must still equal the constraint it stands for"""
    def prog(L, x, y, z):
        SI = L.use(SH + "sanitize_input")
        Sol = L.use("triples.utils:SolutionSimple")
        CS = L.use("triples.utils:CyclicSum")
        loc = dict(x=x, y=y, z=z)
        P = sp.sympify(poly, locals=loc)
        I = [sp.sympify(q, locals=loc) for q in ineqs]
        Q = [sp.sympify(q, locals=loc) for q in eqs]
        uv = symbols(names or "u0:9")[:len(I)]      # the names must not clash with the homogenizer
        hv = symbols("h0:9")[:len(Q)]
        seen = {}
        one = Symbol("one_")
        marks = []

        def solver(p, ineq_constraints, eq_constraints, symmetry=None):
            seen["poly"], seen["ineq"], seen["eq"], seen["sym"] = p, dict(ineq_constraints), dict(eq_constraints), symmetry
            G = symmetry.perm_group if symmetry is not None else None
            out = S.Zero
            for i, (k, vv) in enumerate(list(seen["ineq"].items()) + list(seen["eq"].items())):
                m = Symbol(f"m{i}_")
                t = vv
                if wrap:      # a solver may use any permutation of it under the group
                    g = p.gens
                    t = sum(Symbol(f"m{i}_{j}_") * vv.xreplace(dict(zip(g, q(g)))) for j, q in enumerate(G.elements))
                    out += t
                else:
                    out += m * t
            return Sol(problem=p, solution=out + Symbol("mp_") * p.as_expr(), is_equal=True)
        f = SI(homogenize=hom, wrap_constraints=wrap, infer_symmetry=infer)(solver)
        kw = {} if symmetry is None else dict(symmetry=symmetry())
        try:
            r = f(Poly(P, a, b, c) if wrap else P, dict(zip(I, uv)), dict(zip(Q, hv)), **kw)
        except ValueError as e:
            L.note("refused")
            L.true("refusal", "not symmetric" in str(e) and any(symmetry is not None for _ in [0]), str(e))
            return
        L.note("ok")
        p = seen["poly"]
        gens = p.gens
        extra = [g for g in gens if g not in P.free_symbols and all(g not in q.free_symbols for q in I + Q)]
        at1 = {g: S.One for g in extra if g not in (a, b, c, d)}
        L.true("generators", len(at1) == (0 if not hom or (sp.Poly(P, *symbols("a b c d")).is_homogeneous and all(Poly(q, *symbols("a b c d")).is_homogeneous for q in I + Q)) else 1), str(gens))
        L.eq("polynomial", p.as_expr().xreplace(at1), P, gens=(a, b, c, d))
        if hom:
            L.true("homogeneous", p.is_homogeneous and all(k.is_homogeneous for k in seen["ineq"]) and all(k.is_homogeneous for k in seen["eq"]))
        back = {**dict(zip(uv, I)), **dict(zip(hv, Q))}
        e = sp.sympify(r.solution)
        L.true("no leftover", not e.atoms(AppliedUndef) and not (e.free_symbols & set(at1)), str(e))
        e = e.xreplace(back)
        want = Symbol("mp_") * P
        G = seen["sym"].perm_group
        for i, (k, vv) in enumerate(list(seen["ineq"].items()) + list(seen["eq"].items())):
            ke = k.as_expr()
            if wrap:
                for j, q in enumerate(G.elements):
                    want += Symbol(f"m{i}_{j}_") * ke.xreplace(dict(zip(gens, q(gens)))).xreplace(at1)
            else:
                want += Symbol(f"m{i}_") * ke.xreplace(at1)
        ms = sorted(e.free_symbols | want.free_symbols, key=str)
        L.eq("restored", e, want, gens=tuple(m for m in ms if m not in rtK(L)))
        # the constraints the solver may use follow from the given ones
        L.true("count", len(seen["ineq"]) <= len(I) + 1 and len(seen["eq"]) <= len(Q))
        n = sp.Mul()
    return prog


def rtK(L):
    return L.E.K if L.E is not None else set()


def hom_list(L, x, y, z):
    f = L.use(SH + "homogenize_expr_list")
    t = Symbol("t")
    es = [x*a**2 + y*b + z, (a + x)/(b + y**2 + 1), Poly(x*a*b + y*c + z, a, b, c), x*a*b, (a*b + x*c**3)/(c + 1) + y, sp.sympify(x + 1), a/b + x]
    r = f(es, t)
    L.true("count", len(r) == len(es))
    for i, (e, h) in enumerate(zip(es, r)):
        h = sp.sympify(h.as_expr())
        L.eq(f"value {i}", h.xreplace({t: S.One}), e.as_expr())
        lam = Symbol("lam_")
        n, q = sp.fraction(sp.together(h))
        gs = (a, b, c, t)
        L.true(f"homogeneous {i}", Poly(n, *gs).is_homogeneous and Poly(q, *gs).is_homogeneous, str(h))


def hom_poly(L, x, y, z):
    f = L.use(SH + "homogenize")
    for i, e in enumerate([x*a**2 + y*b*c + z, a**3 + x*b**2 + y*c + z, a**2 + x*b*c]):
        P = Poly(e, a, b, c)
        r, t = f(P)
        L.true(f"homogeneous {i}", r.is_homogeneous)
        L.eq(f"value {i}", r.as_expr().xreplace({t: S.One} if t is not None else {}), e)
        L.true(f"none {i}", (t is None) == P.is_homogeneous)
    q, t = f(Poly(x*a + y, a), Symbol("q"))
    if q.is_homogeneous and not (x*y == 0):
        L.eq("given", q.as_expr(), x*a + y*Symbol("q"), gens=(a, Symbol("q")))


def distinct(L, ks):
    """forks on which of the values coincide"""
    out = []
    for k in ks:
        for o in out:
            if not L.nonzero(k - o):
                k = o
                break
        out.append(k)
    return out


def symmetry_lists(build, n, has_hom):
    gens = symbols("a b c d e")[:n]
    def prog(L, *k):
        f = L.use(SH + "identify_symmetry_from_lists")
        k = distinct(L, k)
        lists = [[Poly(p, *gens) for p in l] for l in build(gens, k)]
        G = f(lists, has_homogenized=has_hom)
        L.note(str(G.order()))
        L.true("degree", G.degree == n)
        for g in G.elements:
            for l in lists:
                for p in l:
                    q = Poly(p.as_expr().xreplace(dict(zip(gens, g(gens)))), *gens)
                    L.true("invariant", any(same(q, o) for o in l), f"{p} under {g}")
    return prog


def same(p, q):
    return (p - q).is_zero if not rt.ENGINE else sp.expand(p.as_expr() - q.as_expr()) == 0


SYM = [
    (lambda g, k: [[k[0]*g[0] + k[1]*g[1] + k[2]*g[2]]], 3, 3, False),
    (lambda g, k: [[g[0]**2*k[0] + g[1]**2*k[1] + g[2]**2*k[2]], [g[0], g[1], g[2]]], 3, 3, False),
    (lambda g, k: [[g[0]**2*k[0] + g[1]**2*k[0] + g[2]**2*k[1]], [k[2]*g[0] + 1, k[2]*g[1] + 1]], 3, 3, False),
    (lambda g, k: [[g[0]*g[1]*k[0] + g[1]*g[2]*k[1] + g[2]*g[0]*k[2] + g[3]**2]], 3, 4, True),
    (lambda g, k: [[k[0]*g[0] + k[1]*g[1] + k[2]*g[2] + k[3]*g[3]]], 4, 4, False),
    (lambda g, k: [[g[0]*g[1]*k[0] + g[2]*g[3]*k[1] + g[0]*g[3]*k[2] + g[1]*g[2]*k[3]]], 4, 4, False),
    (lambda g, k: [[k[0]*g[0]*g[2] + k[1]*g[1]*g[3] + g[4]**2], [k[2]*g[0] - g[4], k[3]*g[1] - g[4], k[2]*g[2] - g[4], k[3]*g[3] - g[4]]], 4, 5, True),
    (lambda g, k: [[g[0] + g[1] + g[2]], [k[0]*g[0] + k[1]*g[1], k[0]*g[1] + k[1]*g[2], k[0]*g[2] + k[2]*g[0]]], 3, 3, False),
    (lambda g, k: [[k[0]*g[0]*g[1]**2 + k[1]*g[1]*g[0]**2 + k[2]]], 3, 2, False),
]


def clear(build, perms, n):
    gens = symbols("a b c d")[:n]
    def prog(L, *k):
        f = L.use(SH + "clear_polys_by_symmetry")
        MM = L.use("triples.utils:MonomialManager")
        from sympy.combinatorics import Permutation, PermutationGroup
        G = PermutationGroup(*[Permutation(p) for p in perms])
        k = distinct(L, k)
        for i in range(len(k)):
            for j in range(i):
                if k[i] != k[j]:
                    L.decide("<", k[i] - k[j])
        ps = [sp.expand(p) for p in build(gens, k)]
        r = f(list(ps), gens, MM(n, G))
        L.note(str(len(r)))
        for q in r:
            L.true("member", any(q is p or q == p for p in ps), str(q))
        for p in ps:
            orb = {sp.expand(p.xreplace(dict(zip(gens, g(gens))))) for g in G.elements}
            L.true("covered", any(sp.expand(q) in orb for q in r), str(p))
    return prog


CLEAR = [
    (lambda g, k: [k[0]*g[0] + k[1]*g[1], k[1]*g[1] + k[2]*g[2], k[2]*g[2] + k[0]*g[0]], 3, [[1, 2, 0]], 3),
    (lambda g, k: [k[0]*g[0] - g[1], k[1]*g[1] - g[2], k[2]*g[2] - g[0], g[0]**2 + k[0]*g[1]*g[2]], 3, [[1, 2, 0], [1, 0, 2]], 3),
    (lambda g, k: [k[0]*g[0]**2 + k[1]*g[1]*g[2], k[1]*g[0]*g[2] + k[2]*g[1]**2, g[0] - g[1]], 3, [[1, 0, 2]], 3),
    (lambda g, k: [k[0]*g[0] + g[3], k[1]*g[1] + g[3], k[2]*g[2] + g[3]], 3, [[1, 2, 0, 3]], 4),
]


# ---- solution objects -----------------------------------------------------------------
def sol_forms(x, y, z, CS, CP):
    return [
        (x*a**2 + y*b)/3 + z*c**2/(2*a + 2*b),
        (x*CS(a*(b - c)**2, (a, b, c)) + y*CP(a, (a, b, c)))/CS(a, (a, b, c)),
        -x*(a - b)**2/(-2*a - 4*b) + Rational(2, 3)*y*a,
        CS((x*a - y*b)**2/(a + b), (a, b, c)) + z,
        x*a**2/4 - y*b/6,
        (a**2/2 + b**2/3)*x/(Rational(3, 4)*a + c) + y*CS(a/b, (a, b, c))*z,
        sp.Mul(Rational(-1, 2), sp.Add(-a*x - b*x, -c*y), evaluate=False)/CS(-a - 1, (a, b, c)),
    ]


def fraction(i):
    def prog(L, x, y, z):
        Sol = L.use("triples.utils:SolutionSimple")
        CS, CP = L.use("triples.utils:CyclicSum"), L.use("triples.utils:CyclicProduct")
        L.nonzero(x)
        e = sol_forms(x, y, z, CS, CP)[i]
        so = Sol(problem=Poly(a, a, b, c), solution=e)
        for tg in (True, False):
            n, m = so.as_fraction(together=tg)
            L.eq(f"fraction {tg}", n / m, e)
        n, m = so.as_fraction()
        q = so.as_eq()
        L.eq("equation left", q.lhs / m, a)
        L.eq("equation right", q.rhs / m, e)
        q = so.as_eq(lhs_expr=b, cancel=False)
        L.eq("equation left kept", q.lhs, b)
        L.eq("equation right kept", q.rhs, e)
        so2 = so.copy()
        so2.as_fraction(inplace=True)
        L.eq("in place", so2.solution, e)
        L.eq("doit", so.doit().solution, e)
        L.eq("signsimp", so.signsimp().solution, e)
        L.eq("collect", so.collect(a).solution, e)
        L.eq("xreplace", so.xreplace({c: b + 1}).solution, cert.expand_cyclic(e).xreplace({c: b + 1}))
        L.eq("original untouched", so.solution, e)
    return prog


def equal(i):
    def prog(L, x, y, z):
        import warnings
        Sol = L.use("triples.utils:SolutionSimple")
        CS = L.use("triples.utils:CyclicSum")
        P, e = [
            (a**2 + b**2 + x*a*b, (a + y*b)**2 + z*b**2),
            (CS(a**3, (a, b, c)).doit() + x*a*b*c, (CS(a*(b - c)**2, (a, b, c))/2*y + CS(a*(a - b)*(a - c), (a, b, c)))),
            (x*a**2 + y*b**2, ((a**2*x + b**2*z)*(a + b))/(a + b)),
            (x*a + y*b + z*c, CS(x*a, (a, b, c))),
            (a**2 + x, (a**3 + y*a + z)/a),
        ][i]
        if i == 2:
            e = sp.Mul(a**2*x + b**2*z, a + b, 1/(a + b + c), evaluate=False) + sp.Mul(a**2*x + b**2*z, c, 1/(a + b + c), evaluate=False)
        p = Poly(P, a, b, c)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            so = Sol(problem=p, solution=e)
            r = bool(so.is_equal)
        L.note(str(r))
        if r:
            L.eq("equal", e, P)
        else:
            ks = sorted(rtK(L), key=str)
            res = cert.identity_residue(e, P, (a, b, c), ks)
            L.impossible("said to differ", [("==", v) for v in res.values()])
    return prog


def dehom(i):
    def prog(L, x, y, z):
        from sympy.combinatorics import Permutation, PermutationGroup as PG
        Sol = L.use("triples.utils:SolutionSimple")
        CS, CP = L.use("triples.utils:CyclicSum"), L.use("triples.utils:CyclicProduct")
        t = Symbol("t")
        g3 = PG(Permutation([1, 2, 0, 3])); g4 = PG(Permutation([1, 2, 3, 0])); g2 = PG(Permutation([1, 0, 3, 2]))
        S4 = (a, b, c, t)
        es = [x*CS(a**2*t + y*b*t**2, S4, g3) + z*t**3, CS(x*a**2*t + y*b*t**2, S4, g4)*z, CP(a + x*t, S4, g3)/CS(y*t + a, S4, g2),
              CS(x*t*CS(a*t**2, S4, g3), S4, g4) + CP(x*t + y*a*b, S4, g3), x*CS(a**2, (a, b, c)) + y*CS((t - a)**2, (t, a, c)), CS(x*(a - t)**2*b, (t, a, b), PG(Permutation([0, 2, 1])))]
        e = es[i]
        p = Poly(x*a**3 + y*b*t**2 + z*t**3, *S4)
        r = Sol(problem=p, solution=e, is_equal=True).dehomogenize(t)
        L.eq("solution", r.solution, cert.expand_cyclic(e).xreplace({t: S.One}))
        L.eq("problem", r.problem.as_expr(), x*a**3 + y*b + z)
        L.true("gone", t not in cert.expand_cyclic(r.solution).free_symbols)
    return prog


def cyc_syms(n):
    from sympy.combinatorics.named_groups import CyclicGroup, SymmetricGroup
    return CyclicGroup(n)


def symg(n):
    from sympy.combinatorics.named_groups import SymmetricGroup
    return lambda: SymmetricGroup(n)


def cycg(n):
    return lambda: cyc_syms(n)


SAN = [
    ("x*a**2 + y*b + z", ["a", "b - x", "y*a*b + 1"], []),
    ("x*a**2 + y*b + z", ["a", "-x*b**3"], ["a + y*b - z"]),
    ("x*a**2 + y*a*b + z*b**2", ["a", "b"], []),
    ("x*a**2 + y*a*b + z*b**2", ["-3*(a + x*b)**2*c", "5*(a + y*b)*b**2"], ["x*a - b"]),
    ("x*a*b + y*c**2", ["-2*a", "b**3*(c + x)**2", "7"], ["z*a*b - 1"]),
    ("x + y*a**4", ["2*a - 3", "a**2*(a + z)"], []),
    ("x*a**2 + y", [], ["a**2 + b**2 - 1", "3*a*b - x"]),
]
SANW = [
    ("x*(a**2 + b**2 + c**2) + y*(a*b + b*c + c*a)", ["a", "b", "c"], [], cycg(3)),
    ("x*(a**2 + b**2 + c**2) + y*a*b*c", ["2*a", "2*b", "2*c", "a + b - x*c", "b + c - x*a", "c + a - x*b"], ["a + b + c - z"], symg(3)),
    ("x*(a**2 + b**2 + c**2) + y*a*b*c + z", ["-(a - 2*b)*a**2", "-(b - 2*c)*b**2", "-(c - 2*a)*c**2"], [], cycg(3)),
    ("x*(a**2 + b**2) + y*c", ["a*c", "b*c", "c - z"], ["a*b - 1"], None),
    ("x*(a**2 + b**2 + c**2) + y*a*b*c + z", ["a", "b"], [], cycg(3)),
]


def cases(tier):
    q = tier == "quick"
    kw = dict(max_paths=200 if q else 4000, budget_s=25 if q else 240, path_s=20 if q else 60, query_ms=3000, validate=6)
    out = []
    def add(name, prog, nk, **k):
        out.append(LemmaCase(name, prog, nk, k.pop("gens", "a b c"), **{**kw, **k}))
    for i, e in enumerate(EXPRS):
        add(f"extract.{i}", extract(e), 3, fork=True)
    add("monomial", monomial, 3)
    for nm, terms, g, _ in WHOLE:
        for cn, cs in CONS.items():
            cs = [x for x in cs if sp.sympify(x).free_symbols <= set(symbols(g))]
            add(f"structural.{nm}.{cn}", whole(terms, g, cs), len(terms), fork=True, max_paths=40 if q else 400)
        if len(symbols(g)) == 3:
            n2 = "x y z"
            add(f"structural.{nm}.renamed", whole([rename(t, g, n2) for t in terms], n2, [rename(x, g, n2) for x in CONS["swapped"][:3]]), len(terms), fork=True, max_paths=40 if q else 400)
            if nm != "quartic":
                for n2 in ("b a c", "a b x", "x a b", "c b y"):
                    add(f"structural.{nm}.gens.{n2.replace(' ', '')}", whole([rename(t, g, n2) for t in terms], n2, n2.split()), len(terms), fork=True, max_paths=12 if q else 400)
    for i, es in enumerate([(1, 0, 0), (2, 0, 0), (3, 1, 0), (2, 2, 1), (4, 3, 2), (1, 1, 1), (0, 0, 0), (5, 0, 2)]):
        add(f"standard.ineq.{i}", std("ineq", es), 3)
        add(f"standard.eq.{i}", std("eq", es), 3)
    for i, (p, I, Q) in enumerate(SAN):
        add(f"sanitize.{i}", sanitize(p, I, Q), 3, fork=True)
        add(f"sanitize.{i}.names", sanitize(p, I, Q, names="t t0 t1 t2 t3 t4 t5 t6 t7"), 3, fork=True)
        add(f"sanitize.{i}.plain", sanitize(p, I, Q, hom=False), 3, fork=True)
        add(f"sanitize.{i}.infer", sanitize(p, I, Q, infer=True), 3, fork=True)
    for i, (p, I, Q, G) in enumerate(SANW):
        add(f"sanitize.wrap.{i}", sanitize(p, I, Q, wrap=True, symmetry=G), 3, fork=True)
        if G is not None:
            add(f"sanitize.wrap.{i}.infer", sanitize(p, I, Q, wrap=True, infer=True), 3, fork=True)
    add("homogenize.list", hom_list, 3)
    add("homogenize.poly", hom_poly, 3, fork=True)
    for i, (b_, nk, n, h) in enumerate(SYM):
        add(f"symmetry.{i}", symmetry_lists(b_, n, h), nk, fork=True)
    for i, (b_, nk, pm, n) in enumerate(CLEAR):
        add(f"duplicates.{i}", clear(b_, pm, n), nk, fork=True)
    for i in range(7):
        add(f"solution.fraction.{i}", fraction(i), 3)
    for i in range(5):
        add(f"solution.equal.{i}", equal(i), 3)
    for i in range(6):
        add(f"solution.dehomogenize.{i}", dehom(i), 3)
    return out


EXPLANATION = "Coefficients of polynomials and constraints are symbols, the constraints' own values are opaque symbols u, v, w: the returned expression must equal the input after u -> constraint and be nonnegative for u >= 0 and every real a, b, c."
