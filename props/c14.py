"""Search helpers: rational points near roots, sign-safe rounding, rational conic points, constraint pruning."""
import itertools
import sympy as sp
from sympy import Poly, S, symbols, Rational, sqrt
from symx.case import LemmaCase
from symx import stubs, rt
from symx.engine import Prune

R = "triples.utils.roots.rationalize:"
U = "triples.core.structsos.utils:"
a, b, c, x, y, z, t = symbols("a b c x y z t")


class Kind(type):
    def __instancecheck__(cls, v):
        return isinstance(v, int)


class Int(int, metaclass=Kind):
    """rounding a symbolic number towards zero: the integer it gives at the witness of the path"""

    def __new__(cls, v, *w):
        if rt.ENGINE is None or not stubs.sym(v):
            return int(v, *w)
        return stubs.oracle(lambda: int(stubs.at(v, rt.ENGINE.shadow), *w), defaults=["q"])


def prepare():
    stubs.install()
    import sys, triples.utils.roots
    m = sys.modules["triples.utils.roots.rationalize"]
    m.__dict__["int"] = Int
    orig = m.cancel_denominator

    def shape(nums):
        """what follows is number theory of these numbers: fix them at the path's witness"""
        if rt.ENGINE is not None and rt.ENGINE.shadow is None and stubs.sym(list(nums)):
            stubs.pin(Poly({(i,): v for i, v in enumerate(nums)}, t))
        return orig(nums)
    m.cancel_denominator = shape


def real(f):
    """the function of the repository itself, not its stand-in"""
    return getattr(f, "__wrapped__", f)


def some(g, n=4):
    return list(itertools.islice(g, n))


# ---- rational values on the right side --------------------------------------------------------------
def bound(irr, direction, compulsory=True):
    def prog(L, *k):
        f = real(L.use(R + "rationalize_bound"))
        v = irr(*k)
        if stubs.sym(v):
            rt.ENGINE.inexact |= v.free_symbols & rt.ENGINE.K
        else:
            v = sp.Float(v)
        for q in some(f(v, direction=direction, compulsory=compulsory), 6):
            L.true("rational", sp.sympify(q).is_rational or stubs.sym(q))
            if direction > 0:
                L.ge("not below", q - v)
            elif direction < 0:
                L.ge("not above", v - q)
    return prog


def near_root(n, direction, val, rough=None):
    """what rationalize_func returns satisfies the test it was given, on the side asked for"""
    def prog(L, *k):
        f = real(L.use(U + "rationalize_func"))
        cs, rest = k[:n + 1], k[n + 1:]
        P = Poly({(n - i,): v for i, v in enumerate(cs) if v != 0} or {(0,): S.Zero}, t)
        if P.is_zero:
            return
        ok = lambda v: rt.sx_cmp(">=", val(v, *rest), S.Zero)
        if n == 0:
            r = f(cs[0], ok, rough, direction)
        else:
            r = f(P, ok, rough, direction)
        if r is None:
            L.note("none")
            return
        L.note("some")
        L.ge("satisfies the test", val(r, *rest))
        if direction and n:
            L.ge("on the side asked for", direction*P(r))
    return prog


# ---- a common shift making a ratio a square -------------------------------------------------------------
def square(e):
    """e is the square of a rational function"""
    e = sp.factor(e)
    num, den = sp.fraction(e)
    c0, fs = sp.factor_list(num)
    c1, gs = sp.factor_list(den)
    return all(m % 2 == 0 for _, m in fs + gs) and bool(sp.sqrt(sp.sympify(c0)/c1).is_rational)


def perturbed(L, p, q, times=2):
    f = real(L.use(R + "square_perturbation"))
    L.assume(">", p)
    L.assume(">", q)
    L.assume("!=", p - q)
    if not stubs.sym((p, q)) and sp.sqrt(p/q).is_rational:
        return      # outside the documented precondition
    for s in f(p, q, times):
        L.ge("shift", s)
        L.ge("not beyond the first", p - s)
        L.ge("not beyond the second", q - s)
        L.true("square ratio", square((p - s)/(q - s)))


# ---- conics ---------------------------------------------------------------------------------------------
def conic_at(p, q, u):
    k0, k1, k2, k3, k4 = u
    X, Y = x - p, y - q
    return sp.expand(k0*X**2 + k1*X*Y + k2*Y**2 + k3*X + k4*Y)


def curve_point(L, *k):
    """the parametrisation from a given point stays on the curve"""
    f = L.use(R + "rationalize_quadratic_curve")
    p, q, u = k[5], k[6], k[:5]
    L.assume("!=", u[0]**2 + u[1]**2 + u[2]**2)
    C = Poly(conic_at(p, q, u), x, y)
    r = f(C, t, (p, q))
    L.true("both variables", set(r) == {x, y})
    L.eq("on the curve", C.as_expr().subs({x: r[x], y: r[y]}, simultaneous=True), S.Zero, (t,))
    r = f(C, t, {x: p, y: q}, True)
    L.eq("the point", C.as_expr().subs(r), S.Zero, ())


def curve_graph(L, *k):
    """curves linear in x: the parametrisation and the single point are on the curve"""
    f = L.use(R + "rationalize_quadratic_curve")
    C = Poly(k[0]*x*y + k[1]*x + k[2]*y**2 + k[3]*y + k[4], x, y)
    L.assume("!=", k[0]**2 + k[1]**2)
    L.assume("!=", k[0]**2 + k[2]**2)
    if C.degree(y) < 1:
        return
    r = f(C, t)
    if r is not None:
        L.true("both variables", set(r) == {x, y})
        L.eq("on the curve", C.as_expr().subs({x: r[x], y: r[y]}, simultaneous=True), S.Zero, (t,))
    r = f(C, t, None, True)
    if r is not None:
        L.true("a number", not (set(sp.Tuple(*r.values()).free_symbols) & {x, y, t}))
        L.eq("the point", C.as_expr().subs(r), S.Zero, ())


def curve_parabola(L, *k):
    f = L.use(R + "rationalize_quadratic_curve")
    C = Poly(k[0]*(x - k[1]*y)**2 + k[2]*x + k[3]*y + k[4], x, y)
    L.assume("!=", k[0])
    for one in (False, True):
        r = f(C, t, None, one)
        if r is None:
            continue
        L.eq("on the curve", C.as_expr().subs({x: r[x], y: r[y]}, simultaneous=True), S.Zero, (t,))


def curve_centred(L, *k):
    """u (x - p y - q)^2 + v (y - r)^2 = w: the slices on which the diophantine equation of
    (u, v, w) is the one at the witness, p, q and r being arbitrary"""
    f = L.use(R + "rationalize_quadratic_curve")
    u, v, w, p, q, r = k
    L.assume("!=", u)
    L.assume("!=", v)
    C = Poly(u*(x - p*y - q)**2 + v*(y - r)**2 - w, x, y)
    for one in (True, False):
        s = f(C, t, None, one)
        if s is None:
            L.note("none")
            continue
        L.note("some")
        L.eq("on the curve", C.as_expr().subs({x: s[x], y: s[y]}, simultaneous=True), S.Zero, (t,))


def region(*builders):
    """a point, in numbers, at which every conic is nonnegative"""
    def prog(L, *k):
        f = real(L.use(R + "common_region_of_conics"))
        ps = [Poly(sp.expand(g(*k)), x, y) for g in builders]
        r = f(list(ps))
        if r is None:
            L.note("none")
            return
        L.true("a pair of numbers", len(r) == 2 and all(not (sp.sympify(v).free_symbols & {x, y}) for v in r))
        for i, p in enumerate(ps):
            L.ge(f"conic {i}", p.as_expr().subs({x: r[0], y: r[1]}, simultaneous=True))
    return prog


# ---- weights, sums, pruning -----------------------------------------------------------------------------------
def weighting(formal):
    def prog(L, *k):
        f = L.use(U + "quadratic_weighting")
        want = k[0]*a**2 + k[1]*a*b + k[2]*b**2
        if formal == "map":
            r = f(*k, mapping=lambda u, v: (u*(x - y) + v*z)**2)
            want = want.subs({a: x - y, b: z}, simultaneous=True)
            gens = (x, y, z)
        else:
            r = f(*k, a, b, formal=bool(formal))
            gens = (a, b)
        L.note("none" if r is None else "some")
        if r is None:
            L.impossible("refuses a nonnegative form", [(">=", k[0]), (">=", k[2]), (">=", 4*k[0]*k[2] - k[1]**2)])
            return
        if formal is True:
            for w, _ in r:
                L.ge("weight", w)
            r = sum(w*(u*a + v*b)**2 for w, (u, v) in r)
        L.eq("identity", r, want, gens)
        L.signs("sign", sp.sympify(r), set())
    return prog


def sums(L, *k):
    f = L.use(U + "sum_y_exprs")
    es = [(a - b)**2, (a - b*k[3])**2/(a + b), a*b*c]
    L.eq("sum", f(list(k[:3]), es), sum(v*e for v, e in zip(k, es)), (a, b, c))


def rads(form):
    def prog(L, *k):
        f = real(L.use(U + "radsimp"))
        e, den = form(*k)
        if den is not None:
            L.assume("!=", den)
        L.eq("same value", f(e), e, ())
        L.eq("same values of a list", sum(f([e, 2*e])), 3*e, ())
    return prog


def longest(L, *k):
    """the i-th tuple has the i-th item of each generator, or its last one"""
    f = L.use(U + "zip_longest")
    n = len(k)//2
    for lists in ([list(k[:n]), list(k[n:2*n + 1]), [k[0]]], [[k[1]], list(k[:n]), list(k[2:4])], [list(k[2:4]), [k[0]], list(k)]):
        got = list(f(*[iter(v) for v in lists]))
        L.true("length", len(got) == max(len(v) for v in lists))
        for i, tup in enumerate(got):
            for v, w in zip(tup, lists):
                L.eq("item", v, w[min(i, len(w) - 1)], ())


def cleared(pat):
    """constraints which share no path of symbols with the polynomial go, nothing else does"""
    def prog(L, *k):
        f = L.use(U + "clear_free_symbols")
        g = (a, b, c, x, y, z)
        u, ineqs, eqs = pat(*k)
        P = Poly(u, *g)
        I = {Poly(e, *g): sp.Symbol(f"i{i}") for i, e in enumerate(ineqs)}
        Q = {Poly(e, *g): sp.Symbol(f"e{i}") for i, e in enumerate(eqs)}
        p2, i2, e2 = f(P, dict(I), dict(Q))
        L.eq("polynomial", p2.as_expr(), P.as_expr(), g)
        act = set(P.free_symbols) & set(g)
        ch = True
        allp = list(I) + list(Q)
        while ch:
            ch = False
            for q in allp:
                v = set(q.free_symbols) & set(g)
                if v & act and not v <= act:
                    act |= v
                    ch = True
        if not act:
            L.true("nothing foreign", set(i2.values()) <= set(I.values()) and set(e2.values()) <= set(Q.values()))
            L.true("symbols", len(p2.gens) == 1)
            return
        for name, old, new in (("inequality", I, i2), ("equation", Q, e2)):
            keep = [(q, e) for q, e in old.items() if set(q.free_symbols) & set(g) & act]
            L.true(f"{name}: exactly the connected ones", sorted(map(str, new.values())) == sorted(str(e) for _, e in keep))
            by = {e: q for q, e in new.items()}
            for q, e in keep:
                if e in by:
                    L.eq(name, by[e].as_expr(), q.as_expr(), g)
        L.true("symbols", set(p2.gens) == act)
    return prog


def cancelled(L, *k):
    """every number is an integer multiple of what comes back, and a positive number comes back"""
    f = real(L.use(R + "cancel_denominator"))
    L.assume(">", k[0])
    L.ge("positive", f([k[0], k[0]*2, k[0]*3]))


def cases(tier):
    C = LemmaCase
    out = []
    IRR = [("plain", lambda u: u, 1, [{"k0": 1}, {"k0": -3}, {"k0": Rational(1, 7)}]),
           ("shift", lambda u, v: u + v, 2, [{"k0": 1, "k1": 2}, {"k0": -1, "k1": 0}, {"k0": Rational(1, 100), "k1": 5}])]
    for nm, f, nk, seeds in IRR:
        for d in (1, -1, 0):
            out.append(C(f"bound.{nm}.{d}", bound(f, d), nk, fork=True, seeds=seeds, max_paths=12, budget_s=40, query_ms=3000))
    out.append(C("bound.optional", bound(IRR[0][1], 1, False), 1, fork=True, seeds=IRR[0][3], max_paths=12, budget_s=40, query_ms=3000))
    LIN = lambda v, p, q: p*v + q
    QUA = lambda v, p, q: p - q*v**2
    for d in (0, 1, -1):
        out.append(C(f"near.number.{d}", near_root(0, d, LIN), 3, fork=True, max_paths=12, budget_s=30, query_ms=3000))
        out.append(C(f"near.linear.{d}", near_root(1, d, LIN), 4, seeds=[dict(zip(("k0", "k1", "k2", "k3"), v)) for v in ((1, -2, 1, 0), (2, 3, 1, 5), (-1, 1, -1, 4))],
                     max_paths=16, budget_s=40, query_ms=3000))
        out.append(C(f"near.quadratic.{d}", near_root(2, d, LIN), 5, seeds=[dict(zip(("k0", "k1", "k2", "k3", "k4"), v)) for v in
                     ((1, 0, -2, 1, 0), (1, 0, -2, -1, 0), (1, -3, 1, 1, -1), (-1, 0, 3, 1, 0), (2, 1, -5, -1, 3), (1, -3, 2, 1, -1))], max_paths=24, budget_s=60, query_ms=3000))
        out.append(C(f"near.quadratic.bounded.{d}", near_root(2, d, QUA), 5, seeds=[dict(zip(("k0", "k1", "k2", "k3", "k4"), v)) for v in
                     ((1, 0, -2, 3, 1), (1, 0, -2, 2, 1), (-1, 0, 3, 4, 1), (1, 0, -5, 5, 1))], max_paths=16, budget_s=50, query_ms=3000))
    for n, seeds in ((0, ((1, 1, -2), (3, 1, -2), (-1, 2, 0))), (1, ((1, -2, 1, -3), (1, -2, 1, 0), (2, 3, 1, 5))), (2, ((1, -3, 2, -1, 0), (1, -3, 2, 1, -3), (1, 0, -2, -1, 0), (1, 0, -2, 1, 1), (1, -1, 0, 1, -1)))):
        out.append(C(f"near.rough.{n}", near_root(n, 0, LIN, lambda v: True), n + 3, seeds=[{f"k{i}": u for i, u in enumerate(v)} for v in seeds], max_paths=12, budget_s=30, query_ms=3000))
    out.append(C("near.cubic.1", near_root(3, 1, LIN), 6, seeds=[dict(zip(("k0", "k1", "k2", "k3", "k4", "k5"), v)) for v in
                 ((1, 0, -3, 1, 1, 0), (1, 0, 0, -2, 1, 0), (-1, 0, 3, 1, 1, 1))], max_paths=12, budget_s=60, query_ms=3000))
    out.append(C("square", perturbed, 2, seeds=[{"k0": 2, "k1": 1}, {"k0": 1, "k1": 2}, {"k0": 7, "k1": 3}, {"k0": 1, "k1": 50}, {"k0": 99, "k1": 1}, {"k0": 3, "k1": 4}],
                 max_paths=40, budget_s=60, query_ms=4000))
    out.append(C("curve.point", curve_point, 7, max_paths=40, budget_s=60, seeds=[dict(zip((f"k{i}" for i in range(7)), v)) for v in
                 ((1, 0, 1, 2, 0, 1, 0), (1, 1, 0, 1, 1, 0, 0), (0, 1, 0, 1, 1, 2, 3), (1, 2, 3, 4, 5, 6, 7), (0, 0, 1, 1, 0, 0, 0))]))
    out.append(C("curve.graph", curve_graph, 5, fork=True, max_paths=60, budget_s=60, seeds=[dict(zip((f"k{i}" for i in range(5)), v)) for v in
                 ((1, 0, 0, 0, -1), (0, 1, -1, 0, 0), (1, 1, 0, 0, 1), (1, 0, 0, 0, 0), (2, -1, 3, 1, 1))]))
    out.append(C("curve.parabola", curve_parabola, 5, fork=True, max_paths=40, budget_s=60, seeds=[dict(zip((f"k{i}" for i in range(5)), v)) for v in
                 ((1, 0, 0, 1, 0), (1, 1, 0, 0, -1), (1, 0, 0, 0, -4), (2, 1, 3, -1, 5), (-1, 2, 1, 0, 3))]))
    out.append(C("curve.centred", curve_centred, 6, max_paths=40, budget_s=60, seeds=[dict(zip((f"k{i}" for i in range(6)), v)) for v in
                 ((1, 1, 1, 0, 0, 0), (1, -2, 1, 1, 0, 2), (2, 3, 5, 0, 1, -1), (1, 2, 5, 0, 0, 1), (-1, -1, -2, 1, 1, 1), (1, 1, 0, 2, 3, 1), (3, 4, 7, 0, 0, 0), (Rational(1, 2), 1, Rational(3, 2), 0, 1, 1), (1, -1, 3, 0, 0, 0))]))
    REG = [("one.hyperbola", [lambda u, v: u*x*y - v], 2, [(1, 1), (1, -1), (-2, 3), (0, 1)]),
           ("one.circle", [lambda u, v: u*x**2 + v*y**2 - 1], 2, [(1, 1), (2, 1), (-1, -1), (3, 5)]),
           ("one.line", [lambda u, v, w: u*x + v*y + w], 3, [(1, 1, -1), (0, 1, -2), (1, 0, 3), (1, 2, -1)]),
           ("one.parabola", [lambda u, v: u*x**2 + v*y - 1], 2, [(1, 1), (-1, 1), (-1, -2)]),
           ("equal", [lambda u, v: u*x**2 + y**2 - v, lambda u, v: 2*u*x**2 + 2*y**2 - 2*v], 2, [(1, 1), (1, 4), (2, 9)]),
           ("opposite", [lambda u, v: u*x**2 + y**2 - v, lambda u, v: -u*x**2 - y**2 + v], 2, [(1, 1), (1, 4), (2, 9), (1, 3)]),
           ("two.circles", [lambda u: 1 - x**2 - y**2, lambda u: u - (x - 2)**2 - y**2], 1, [(1,), (4,), (2,), (Rational(1, 2),), (9,), (0,)]),
           ("two.hyperbolas", [lambda u, v: x*y - u, lambda u, v: v - x*y], 2, [(1, 4), (1, 1), (2, 1), (-1, -2)]),
           ("common.line", [lambda u, v: (x + y - u)*(x - y), lambda u, v: (x + y - u)*(x + v)], 2, [(1, 2), (0, 1), (3, -1)]),
           ("lens", [lambda u, v: u - x**2 - y, lambda u, v: y - v*x**2 - 1], 2, [(2, 1), (1, 1), (3, -2), (0, 1)]),
           ("three", [lambda u, v: 4 - x**2 - y**2, lambda u, v: x*y - u, lambda u, v: x + v*y - 1], 2, [(1, 1), (2, 1), (Rational(1, 2), -1)]),
           ("four", [lambda u, v: 4 - x**2 - y**2, lambda u, v: 9 - x**2 - 2*y**2, lambda u, v: u + 3 - x*y, lambda u, v: x - v], 2, [(1, 1), (1, Rational(1, 2)), (1, -1), (1, 3), (-4, 1)]),
           ("five", [lambda u, v: x - u, lambda u, v: y + 7, lambda u, v: x + y + 9, lambda u, v: 5 - x*v, lambda u, v: y - x - v], 2, [(1, 1), (0, -1), (2, 3)]),
           ("constants", [lambda u, v: u + 0*x, lambda u, v: v + 0*x, lambda u, v: 1 - x**2 - y**2], 2, [(1, 1), (0, 1), (1, -1), (-1, 0)])]
    for nm, bs, nk, seeds in REG:
        out.append(C(f"region.{nm}", region(*bs), nk, fork=True, max_paths=30, budget_s=25, path_s=12, query_ms=3000, seeds=[dict(zip((f"k{i}" for i in range(nk)), v)) for v in seeds]))
    for form in (True, False, "map"):
        out.append(C(f"weighting.{form}", weighting(form), 3, fork=True, max_paths=60, budget_s=30))
    out.append(C("sums", sums, 4, fork=True, max_paths=40, budget_s=30))
    RADS = [("root", lambda u, v: (u/(v + sqrt(2)), v + sqrt(2)), 2), ("quotient", lambda u, v, w: ((u + v*sqrt(3))/(w - sqrt(3)), w - sqrt(3)), 3),
            ("plain", lambda u, v: (u + v*sqrt(5), None), 2), ("nested", lambda u: (u/(1 + sqrt(2) + sqrt(3)), None), 1), ("deep", lambda u: (u/sqrt(2 + sqrt(3)), None), 1)]
    for nm, f, nk in RADS:
        out.append(C(f"radsimp.{nm}", rads(f), nk, fork=True, max_paths=12, budget_s=30))
    out.append(C("longest", longest, 6, max_paths=8, budget_s=20))
    PATS = [("chain", lambda p, q, r: (p*a + q*b, [p*a - x, q*x*y + 1, r*z], [x + c*r]), 3),
            ("alone", lambda p, q, r: (a**2 + p*a, [p*b - c, q*y], [r*z + x]), 3),
            ("constant", lambda p, q, r: (p + 0*a, [q*b, a - r], [c]), 3),
            ("late.0", lambda p, q, r: (p*a + 1, [b*c - q, x*y - 1, c*x + r, a*b - y], [z - 1]), 3),
            ("late.1", lambda p, q, r: (p*y + 1, [a*x - q, b*z - 1, x*z + r, a*c - 1], [b*y - 1]), 3),
            ("late.2", lambda p, q, r: (p*z + 1, [x*y - q, a*b - 1, b*x + r, z*a - 1], [c - r]), 3),
            ("late.3", lambda p, q, r: (p*b*x + 1, [c*y - q, a*z - 1, y*z + r, x*y - 1], []), 3),
            ("late", lambda p, q, r: (p*c**2 + 1, [q*x - y, r*y - z], [z*p - c]), 3)]
    for nm, f, nk in PATS:
        out.append(C(f"clear.{nm}", cleared(f), nk, fork=True, max_paths=40, budget_s=30))
    return out
