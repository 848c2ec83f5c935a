"""Proofs of forms in four and more variables, and of ternary forms under acute-triangle conditions."""
import itertools, json, os
import sympy as sp
from sympy import Poly, symbols
from symx.case import LemmaCase, ProofCase
from symx import stubs, cert
from .famlib import HERE

S = "triples.core.structsos."
a, b, c, d = symbols("a b c d")


def prepare():
    stubs.install()


def orbit(m, perms):
    return {tuple(m[i] for i in p) for p in perms}


SYM4 = list(itertools.permutations(range(4)))
CYC4 = [(0, 1, 2, 3), (1, 2, 3, 0), (2, 3, 0, 1), (3, 0, 1, 2)]
CYC3 = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
PART = [(0, 1, 2, 3), (1, 2, 0, 3), (2, 0, 1, 3), (1, 0, 2, 3), (0, 2, 1, 3), (2, 1, 0, 3)]
P4 = [(4, 0, 0, 0), (3, 1, 0, 0), (3, 0, 1, 0), (3, 0, 0, 1), (2, 2, 0, 0), (2, 1, 1, 0), (2, 1, 0, 1), (2, 0, 2, 0), (2, 0, 1, 1), (1, 1, 1, 1)]


def build(monos, perms):
    orbs = [orbit(m, perms) for m in monos]

    def f(*k):
        return {m: x for o, x in zip(orbs, k) for m in o}
    return f


def at(*v):
    return {f"k{i}": x for i, x in enumerate(v)}


def quartic_seeds():
    """sums of squares of the shapes the quartic solvers look for"""
    out = []
    g = (a, b, c, d)

    def coeffs(p):
        p = Poly(sp.sympify(p).doit(), *g)
        return at(*[p.coeff_monomial(m) for m in P4])

    def cyc(f):
        return sum(f.xreplace(dict(zip(g, [g[i] for i in p]))) for p in CYC4)
    out.append(coeffs(cyc((2*a**2 + a*b - b**2 - c*d - d**2)**2) + cyc(a*b - a*c)**2))
    out.append(coeffs(cyc((a**2 - b**2 + a*b - b*c)**2) + cyc((a - c)**2*(b - d)**2)))
    out.append(coeffs(cyc((a**2 - 2*a*b + b*c)**2)))
    out.append(coeffs(cyc(a**4) + 2*cyc((a*b - c*d)**2) + a*b*c*d))
    return out


# ---- acute triangles -------------------------------------------------------------------------------------
X, Y, Z, A, B, C = symbols("X Y Z A B C")


def acute(terms, gens="a b c", signs=True, order=(0, 1, 2)):
    """the solver is given b^2+c^2-a^2 = X, ..., a = A, ...: what it returns must be the
    polynomial once these are put back, and nonnegative for all nonnegative X..C"""
    def prog(L, *k):
        g = symbols(gens)
        f = L.use(S + "constrained.acute:constrained_acute")
        x, y, z = g
        cons = [(y**2 + z**2 - x**2, X), (z**2 + x**2 - y**2, Y), (x**2 + y**2 - z**2, Z)] + ([(x, A), (y, B), (z, C)] if signs else [])
        ineqs = {Poly(p, *g): e for p, e in cons}
        t = {m: v for m, v in terms(*k).items() if v != 0}
        if not t:
            return
        P = Poly(t, *g)
        sol = f(P, ineqs, {})
        if sol is None:
            return
        sol = cert.expand_cyclic(sp.sympify(sol))
        back = {e: p for p, e in cons}
        L.true("uses the constraints only", not sol.atoms(sp.core.function.AppliedUndef))
        L.eq("identity", sol.xreplace(back), P.as_expr(), g)
        L.signs("sign", sol, set(back))
    return prog


def cyc3(*monos):
    return build(list(monos), CYC3)


def sym3(*monos):
    perms = list(itertools.permutations(range(3)))
    return build(list(monos), perms)


def spec(f, degree):
    """the symmetric form of the given degree, as a function of few parameters"""
    def terms(*k):
        P = Poly(sp.expand(sp.sympify(f(*k)).doit()), a, b, c)
        return {m: sp.expand(v) for m, v in P.terms()}
    return terms


def s3(e):
    return sum(e.xreplace(dict(zip((a, b, c), [(a, b, c)[i] for i in p]))) for p in CYC3)


def cub(u, v, w):
    return u*s3(a**3) + v*s3(a**2*b + a**2*c) + w*a*b*c


WALL = (b**2 + c**2 - a**2)*(a - b)*(a - c)
SLICES = [
    ("cubic.five", lambda x: cub(-1, x, 5 - 6*x), 1, [(1,), (2,), (sp.Rational(8, 7),), (7,)]),
    ("cubic.mid", lambda x: cub(-4, 4*x, 18 - 24*x), 1, [(1,), (2,), (sp.Rational(11, 10),), (5,)]),
    ("cubic.three", lambda x: cub(-1, x, 3 - 6*x), 1, [(2,), (sp.Rational(9, 5),), (3,)]),
    ("cubic.bottom", lambda x: cub(-10, 10*x, 32 - 60*x), 1, [(sp.Rational(6, 5),), (sp.Rational(7, 5),), (2,)]),
    ("cubic.one", lambda y: cub(-1, 1, y), 1, [(-2,), (-1,), (0,), (-3,)]),
    ("cubic.curve", lambda t: cub(t**2 - 2*t - 7, t**2 - 2*t + 9, -16*t), 1, [(0,), (1,), (2,), (3,), (-1,), (sp.Rational(3, 2),)]),
    ("cubic.above", lambda t: cub(t**2 - 2*t - 7, t**2 - 2*t + 10, -16*t - 2), 1, [(0,), (1,), (2,), (3,)]),
    ("quartic.va0", lambda x, y: s3(-x*a**4 + 2*a**3*b + y*a**3*c + 3*a**2*b*c), 2, [(0, 1), (1, 1), (-1, 0)]),
    ("quartic.vab", lambda x, y: s3(x*a**4 - a**3*b + 2*a**3*c + y*a**2*b**2), 2, [(0, 2), (1, 1), (-1, 4)]),
    ("quartic.vbc", lambda x, y: s3(x*a**4 + a**3*b + a**3*c + y*a**2*b**2 - 3*a**2*b*c), 2, [(0, 2), (0, 1), (-1, 4)]),
    ("quartic.vac", lambda x, y: s3(x*a**4 + 2*a**3*b - a**3*c + y*a**2*b**2), 2, [(0, 2), (1, 1), (-1, 4)]),
    ("quartic.neg", lambda x, y: s3(x*a**4 - a**3*b - a**3*c + y*a**2*b**2 - a**2*b*c), 2, [(0, 4), (1, 3), (-1, 6)]),
    ("quartic.real", lambda x, y: s3(x*(a**2 - a*b)**2 + y*WALL), 2, [(1, 1), (1, 2), (2, 1)]),
    ("six", lambda x, y: s3(WALL*(x*a**2 + a*b + a*c + b*c)) + y*(a - b)**2*(b - c)**2*(c - a)**2, 2, [(1, 0), (1, 1), (2, 1)]),
    ("six.center", lambda x, y: s3(WALL*(a**2 + x*b*c)) + y*(b**2 + c**2 - a**2)*(c**2 + a**2 - b**2)*(a**2 + b**2 - c**2), 2, [(1, 1), (0, 1), (2, 3)]),
    ("six.plain", lambda x, y: s3(x*a**2*(a - b)**2*(a - c)**2) + y*(b**2 + c**2 - a**2)*(c**2 + a**2 - b**2)*(a**2 + b**2 - c**2), 2, [(1, 1), (0, 1), (2, 3)]),
]


# ---- more variables ----------------------------------------------------------------------------------------
def nquartic(n, only=None):
    """symmetric quartic forms in n variables"""
    monos = [m + (0,)*(n - len(m)) for m in ((4,), (3, 1), (2, 2), (2, 1, 1), (1, 1, 1, 1))]
    perms = set(itertools.permutations(range(n))) if n <= 5 else None

    def terms(*k):
        out = {}
        for m, x in zip(monos, k):
            for mm in set(itertools.permutations(m)):
                out[mm] = x
        return out
    return terms


def npoly(f, dd, gens):
    return f(Poly(dd, *gens)) if dd else None


def seed_cases(tier, kw):
    """cells around forms that reach code none of the other cases reaches"""
    grp = {}
    for x in json.load(open(os.path.join(HERE, "data", "seeds4.json"))):
        grp.setdefault((x["kind"], x["nv"], x["deg"], x["np"], x["signs"]), []).append(x)
    out = []
    perms = {3: CYC3, 4: CYC4, 24: SYM4, 120: list(itertools.permutations(range(5)))}
    fn = {"qc": "quarternary.cubic:quarternary_cubic_symmetric", "qp": "quarternary.cubic:_quarternary_cubic_partial_symmetric", "qq": "quarternary.quartic:quarternary_quartic",
          "nv": "nvars:sos_struct_nvars_quartic_symmetric"}
    for (kind, nv, deg, np_, signs), xs in sorted(grp.items()):
        monos = [tuple(m) for m in xs[0]["O"]]
        P = PART if kind == "qp" else list(itertools.permutations(range(3))) if (nv, np_) == (3, 6) else perms[np_]
        n = -(-len(xs) // 4)
        for i in range(n):
            name = f"seed.{kind}.{nv}.{deg}.{np_}{'' if signs else 'r'}.{i}"
            seeds = [at(*map(sp.sympify, x["v"])) for x in xs[i::n]]
            if kind == "acute":
                out.append(LemmaCase(name, acute(build(monos, P), signs=signs), len(monos), gens="", seeds=seeds, raises=("PolynomialNonpositiveError", "PolynomialUnsolvableError"), **kw))
            else:
                g = "a b c d e"[:2*nv - 1]
                out.append(ProofCase(name, S + fn[kind], build(monos, P), len(monos), gens=g, nonneg="" if kind == "nv" else g, pattern="."*len(monos), seeds=seeds,
                                     **({"call": npoly} if kind == "nv" else {}), **kw))
    return out


def cases(tier):
    big = tier != "quick"
    kw = dict(budget_s=400 if big else 13, query_ms=4000 if big else 1200, path_s=40 if big else 10, max_paths=600 if big else 40)
    q = dict(gens="a b c d", nonneg="a b c d")
    out = []
    Q = S + "quarternary."
    out.append(ProofCase("cubic.sym", Q + "cubic:quarternary_cubic_symmetric", build([(3, 0, 0, 0), (2, 1, 0, 0), (1, 1, 1, 0)], SYM4), 3, **q, **kw))
    part = build([(1, 0, 0, 2), (0, 0, 0, 3), (2, 0, 0, 1), (1, 1, 0, 1), (1, 1, 1, 0)], PART)
    pseeds = [at(4, 4, 9, -14, 4), at(0, 1, sp.Rational(29, 3), sp.Rational(-58, 3), 15), at(sp.Rational(13, 3), 1, sp.Rational(29, 3), sp.Rational(-58, 3), 15),
              at(0, 1, 1, -2, 2), at(1, 0, 2, -4, 3), at(-2, 4, 1, -1, 2), at(3, 0, 4, -8, 4), at(2, 1, 2, -3, 0), at(0, 4, 1, -2, 1), at(0, 5, 1, -2, 1), at(3, 0, 2, -4, 1), at(4, 1, 3, -5, 1), at(1, 3, 1, -2, 1)]
    out.append(ProofCase("cubic.partial", Q + "cubic:_quarternary_cubic_partial_symmetric", part, 5, pattern=".....", seeds=pseeds, **q, **kw))
    for i, pat in enumerate(["..nnn", "0.nnn", ".0nnn", "00nnn"]):
        out.append(ProofCase(f"cubic.partial.{pat}", Q + "cubic:_quarternary_cubic_partial_symmetric", part, 5, pattern=pat, **q, **kw))
    flu = [m for m in P4 if 3 not in m and 4 not in m]
    fl = build(flu, CYC4)
    out.append(ProofCase("quartic.fluroite", Q + "quartic:quarternary_quartic", fl, len(flu), pattern="."*len(flu),
                         seeds=[at(26, 90, -36, 32, -108, -37), at(1, 0, 0, 1, 0, 0), at(2, 1, 1, 1, 0, 5)], **q, **kw))
    out.append(ProofCase("quartic.real", Q + "quartic:quarternary_quartic", build(P4, CYC4), 10, pattern="."*10, seeds=quartic_seeds(), **q, **{**kw, "path_s": 60 if big else 12}))
    for i, s in enumerate(quartic_seeds()[:3]):
        free = (4, 7, 9) if i == 0 else (0, 4, 6) if i == 1 else (5, 8, 9)
        out.append(ProofCase(f"quartic.near{i}", Q + "quartic:quarternary_quartic", build(P4, CYC4), 10, fixed={j: s[f"k{j}"] for j in range(10) if j not in free}, pattern="."*10, seeds=[{f"k{j}": s[f"k{j}"] for j in free}], **q, **kw))
    for n in (4, 5) + ((6,) if big else ()):
        g = "a b c d e f"[:2*n - 1]
        seeds = [at(1, 0, 0, 0, 0), at(3, -4, 6, 0, 0), at(n - 1, -2, 2, 1, 0), at(1, 0, -2, 2, 0), at(2, -1, 1, -1, 6), at(1, 2, 3, 4, 24), at(4, 4, 7, 14, 28), at(3, -2, 2, 1, -1), at(3, -2, 2, -1, 6), at(2, 1, 0, -1, 3), at(8, 1, 3, -1, 3), at(5, 4, 7, 14, 22)]
        for tag, fx in (("", {}), (".a", {1: sp.S(-2), 3: sp.S(1)}), (".b", {0: sp.S(1), 2: sp.S(1), 4: sp.S(0)}),
                        (".c", {1: sp.S(4), 2: sp.S(7), 3: sp.S(14)}), (".d", {0: sp.S(3), 1: sp.S(-2), 2: sp.S(2)}), (".e", {1: sp.S(1), 3: sp.S(-1), 4: sp.S(3)})):
            out.append(ProofCase(f"nvars.{n}{tag}", S + "nvars:sos_struct_nvars_quartic_symmetric", nquartic(n), 5, gens=g, nonneg="", fixed=fx, pattern=".....",
                                 seeds=[{x: y for x, y in s.items() if int(x[1:]) not in fx} for s in seeds], call=npoly, **{**kw, "path_s": 60 if big else 12}))
    lk = dict(kw)
    for name, terms, nk, seeds in (
        ("quadratic", cyc3((2, 0, 0), (1, 1, 0)), 2, [(1, -1), (-1, 2), (-1, 5), (-2, 3)]),
        ("cubic", sym3((3, 0, 0), (2, 1, 0), (1, 1, 1)), 3, [(-1, 1, -2), (-7, 9, -32), (-1, 2, -6), (-31, 33, -96), (-1, 2, -9), (-10, 12, -40), (-10, 15, -55), (-10, 18, -77), (-4, 5, -15), (-1, 1, 3)]),
        ("cubic.cyc", cyc3((3, 0, 0), (2, 1, 0), (1, 2, 0), (1, 1, 1)), 4, [(-1, 2, 1, -3), (-1, 1, 2, 0), (1, -2, 1, 3), (-1, 3, 2, -6)]),
        ("quartic", cyc3((4, 0, 0), (3, 1, 0), (1, 3, 0), (2, 2, 0), (2, 1, 1)), 5, [(-1, 1, 1, 2, -1), (0, -1, -1, 4, 0), (1, -2, -2, 3, 1), (-1, 0, 0, 2, 0), (1, 0, 0, 1, -2), (-1, 1, 2, 0, 1), (0, -1, 2, 1, -2)]),
    ):
        out.append(LemmaCase("acute." + name, acute(terms), nk, gens="", fork=nk < 4, seeds=[at(*s) for s in seeds],
                             raises=("PolynomialNonpositiveError", "PolynomialUnsolvableError"), **lk))
    for name, f, nk, seeds in SLICES:
        out.append(LemmaCase("acute." + name, acute(spec(f, None)), nk, gens="", seeds=[at(*s) for s in seeds],
                             raises=("PolynomialNonpositiveError", "PolynomialUnsolvableError"), **{**lk, "budget_s": 300 if big else 12}))
    out.append(LemmaCase("acute.xyz", acute(sym3((3, 0, 0), (2, 1, 0), (1, 1, 1)), "x y z"), 3, gens="", fork=True, seeds=[at(-1, 2, -6), at(-1, 1, -2)],
                         raises=("PolynomialNonpositiveError", "PolynomialUnsolvableError"), **lk))
    out.append(LemmaCase("acute.nosign", acute(cyc3((4, 0, 0), (3, 1, 0), (1, 3, 0), (2, 2, 0), (2, 1, 1)), signs=False), 5, gens="", seeds=[at(-1, 1, 1, 2, -1), at(1, -2, -2, 3, 1), at(1, -1, -1, 2, -1)],
                         raises=("PolynomialNonpositiveError", "PolynomialUnsolvableError"), **lk))
    return out + seed_cases(tier, kw)
