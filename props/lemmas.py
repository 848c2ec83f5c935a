"""The sub-solvers behind the ternary solvers, each against the inequality its documentation says it proves."""
import sympy as sp
from sympy import Poly, S, Rational, symbols
from symx.case import LemmaCase

T = "triples.core.structsos.ternary."
G = a, b, c = symbols("a b c")
POS = set(G)


def cyc(f):
    return f + f.xreplace({a: b, b: c, c: a}) + f.xreplace({a: c, b: a, c: b})


def sigma(f):
    return sp.expand(cyc(sp.sympify(f)))


D = sp.expand(((a - b)*(b - c)*(c - a))**2)
AXIS = sp.expand((2*a - b - c)*(2*b - c - a)*(2*c - a - b))**2
S1 = a + b + c


def frm(x, y):
    """s(x a^2 + y a b)"""
    return x*(a**2 + b**2 + c**2) + y*(a*b + b*c + c*a)


# ---- degree 6 ----------------------------------------------------------------------
def F6(x, y):
    f = frm(x, y)
    return sigma(a**6 + a**5*b + a**5*c + a**4*b*c - 2*a**3*b**2*c - 2*a**3*b*c**2) - 2*sigma(a**4 - a**2*b*c)*f + sigma(a**2 - a*b)*f**2


SX = T + "sextic_symmetric:_sextic_sym_axis."


def direct6(fn):
    def prog(L, x, y, w):
        sol, flg = L.use(SX + fn)(x, y, w)
        if sol is None:
            return L.note("none")
        L.note(f"flg{flg}")
        L.proof("F(x,y) + w p(a-b)^2", sol, F6(x, y) + w*D, G, POS if flg else set())
    return prog


def lifted6(fn, *extra):
    def prog(L, x, y, *z):
        r = L.use(SX + fn)(x, y, *(z or extra))
        if r is None:
            return L.note("none")
        p1, c1, c2, m = r
        L.eq("F(x,y) s(m a^2 + n a b)", p1 + frm(c1, c2)*D, F6(x, y)*frm(*m), G)
        L.signs("p1", p1, set())
    return prog


def rem6(fn, mult, oo):
    def prog(L, t, r, q=None, *m):
        L.assume(">=", t)
        L.assume(">", r)
        q = sp.oo if oo else q
        mm = mult or m
        if not mult:
            L.assume(">=", mm[0])
            L.assume(">=", mm[0] + mm[1])
            mm = tuple(mm)
        res = L.use(SX + fn)(t, r, q, mm)
        if res is None:
            return L.note("none")
        p2, c1, c2 = res
        tail = frm(0, 1)**2 if oo else frm(1, q)**2
        L.eq("remainder", p2 + frm(c1, c2)*D, frm(*mm)*(t/4*AXIS + r*frm(1, -1)*tail), G)
        if not oo:
            L.signs("p2", p2, POS)
    return prog


def solve6(oo, seed=None):
    def prog(L, x, y, w, t, r, q=None):
        L.assume(">=", t)
        L.assume(">=", r)
        q = sp.oo if oo else q
        sol = L.use(SX + "solve")(S.One, x, y, w, t, r, q)
        if sol is None:
            return L.note("none")
        L.note("solved")
        tail = frm(0, 1)**2 if oo else frm(1, q)**2
        L.proof("quadratic form", sol, F6(x, y) + w*D + t/4*AXIS + r*frm(1, -1)*tail, G, POS)
    return prog


def restructure(L, *k):
    z = symbols("a")
    p = Poly(list(k), z)
    r = L.use(T + "sextic_symmetric:_restructure_quartic_polynomial")(p)
    if r is None:
        return L.note("none")
    t, s, x, y, rem, q = r
    if any(v is S.NaN or v is S.ComplexInfinity for v in r):
        return L.note("nan")
    tail = rem*(2*z + 1)**2 if q is sp.oo else rem*(z**2 + 2*q*z + q + 2)**2
    L.eq("decomposition", t*(z - 1)**4 + s*((x - 1)*z**2 - (2 - 2*y)*z + (2*x + y - 2))**2 + tail, p.as_expr(), (z,))
    for n, v in (("t", t), ("coeff", s), ("rem", rem)):
        L.ge(n + " >= 0", v)


def two_roots(kind):
    """forms with a double root on the border and one on the symmetric axis"""
    def prog(L, m, x, k, w):
        from triples.utils import Coeff
        L.assume(">", m)
        if kind == "border":
            f, roots = sigma(a**3 - (x - 1)*a**2*(b + c) + (2*x - 3)*a*b*c)**2, [[x], [], []]
        else:
            f = sigma(a**2*(a - b)*(a - c)*(a - x*b)*(a - x*c)) + (3*x - 5)*D
            roots = [[S(2)], {"axis": [x], "axis0": [x, S.Zero], "0axis": [S.Zero, x]}[kind], []]
        F = sp.expand(m*f + k*sigma(a**3*b*c*(a - b - c) + a**2*b**2*c**2) + w*D)
        co = Coeff({e: S(v) for e, v in Poly(F, *G).as_dict().items()})
        sol = L.use(T + "sextic_symmetric:_sos_struct_sextic_symmetric_ultimate_2roots")(co, co.as_poly(*G), roots)
        if sol is None:
            return L.note("none")
        L.note("solved")
        L.proof("form", sol, F, G, POS)
    return prog


# ---- degree 7 ----------------------------------------------------------------------
SE = T + "septic_symmetric:_septic_sym_axis."


def F7(x, y):
    f = frm(x, y)
    return sigma(a**7 + a**6*b + a**6*c + a**5*b*c - 2*a**4*b**3 - 2*a**4*c**3) - 2*sigma(a**5 - a**3*b**2 + a**3*b*c - a**3*c**2)*f \
        + sigma(a*(a - b)*(a - c))*f**2


def G7(x, y):
    g = frm(x, y)
    h = a**2 + a*(b + c) + 2*b*c
    return sigma((b + c)*h**2*(a - b)*(a - c)) - 2*sigma((b + c)*h*(a - b)*(a - c))*g + sigma(a*(b - c)**2)*g**2


def seven(fn, base, *extra):
    def prog(L, x, y):
        p, w = L.use(SE + fn)(x, y, *extra)
        if p is None:
            return L.note("none")
        L.note("solved")
        L.proof("form + w s(a) p(a-b)^2", p, base(x, y) + w*S1*D, G, POS)
    return prog


def solve7(L, fx, fy, gx, gy, w):
    sol = L.use(SE + "solve")(S.One, fx, fy, S.One, gx, gy, w)
    if sol is None:
        return L.note("none")
    L.note("solved")
    L.proof("quadratic forms", sol, F7(fx, fy) + G7(gx, gy) + w*S1*D, G, POS)


def fast_quartic(L, m, p, n, q, rem, *, mul=True):
    sol = L.use(T + "septic:_fast_solve_quartic")(m, p, n, q, rem, mul)
    if sol is None:
        return L.note("none")
    L.note("solved")
    f = sigma(m*a**4 + p*a**3*b + n*a**2*b**2 + q*a*b**3 + (rem - m - p - n - q)*a**2*b*c)
    L.proof("quartic", sol, f*(a*b*c), G, POS)


def inverse_quartic(L, m, p, n, r):
    sol = L.use(T + "octic_symmetric:_solve_inverse_quartic")(m, p, n, r)
    if sol is None:
        return L.note("none")
    L.note("solved")
    L.proof("inverse quartic", sol, sigma(m*a**4*b**4 + p*(a**4*b**3*c + a**4*b*c**3) + n*a**4*b**2*c**2 + r*a**3*b**3*c**2), G, POS)


# ---- any degree, symmetric ------------------------------------------------------------
DS = T + "dense_symmetric:"


def orbsum(deg, ks):
    """cyclic form with one coefficient for each orbit"""
    out, ks = {}, list(ks)
    for i in range(deg, -1, -1):
        for j in range(deg - i, -1, -1):
            m = (i, j, deg - i - j)
            o = {m, (m[1], m[2], m[0]), (m[2], m[0], m[1])}
            if m == max(o):
                v = ks.pop(0)
                out.update({x: v for x in o})
    return out


def additive(deg):
    def prog(L, *ks):
        from triples.utils import Coeff
        d = orbsum(deg, ks)
        sol = L.use(DS + "_sos_struct_trivial_additive")(Coeff({m: S(v) for m, v in d.items()}))
        if sol is None:
            return L.note("none")
        L.note("solved")
        L.proof("nonnegative coefficients", sol, Poly(d, *G).as_expr(), G, POS)
    return prog


def axis_of(deg):
    def prog(L, *ks):
        from triples.utils import Coeff
        d = orbsum(deg, ks)
        f = L.use(DS + "sym_axis")(Coeff({m: S(v) for m, v in d.items()}))
        L.eq("f(a,1,1)", f.as_expr(), Poly(d, *G).as_expr().xreplace({b: S.One, c: S.One}), (a,))
    return prog


def homogenize(deg, low):
    def prog(L, *ks):
        f = Poly(list(ks), a)
        h = L.use(DS + "_homogenize_sym_axis")(f, deg)
        L.eq("axis kept", h.xreplace({b: S.One, c: S.One}), f.as_expr(), (a,))
        L.eq("symmetric in b and c", h.xreplace({b: c, c: b}), h, G)
        t = symbols("t")
        L.eq("homogeneous", sp.expand(h.xreplace({a: t*a, b: t*b, c: t*c})), sp.expand(t**deg*h), (a, b, c, t))
    return prog


def homproof(deg):
    def prog(L, u, v, *ks):
        L.assume(">=", u)
        L.assume(">=", v)
        L.assume("!=", ks[0])
        L.assume("!=", ks[2])
        f, g = Poly(list(ks[:2]), a), Poly(list(ks[2:]), a)
        raw = [(S.One, [u], [f]), (a, [v], [g])]
        h = L.use(DS + "_homogenize_sym_proof")(raw, deg)
        L.eq("axis kept", h.xreplace({b: S.One, c: S.One}), u*f.as_expr()**2 + a*v*g.as_expr()**2, (a,))
        t = symbols("t")
        L.eq("homogeneous", sp.expand(h.xreplace({a: t*a, b: t*b, c: t*c})), sp.expand(t**deg*h), (a, b, c, t))
        L.signs("lifted", h, POS)
    return prog


# ---- degree 5 ----------------------------------------------------------------------
Q5 = T + "quintic:"


def lifted_cubic(L, x, y, mul):
    L.assume(">=", mul)
    sol = L.use(Q5 + "_solve_sa2minusab_mul_cubic")(x, y, mul)
    if sol is None:
        return L.note("none")
    L.note("solved")
    L.proof("s(a^2-ab) cubic", sol, mul*sigma(a**2 - a*b)*sigma(a**3 + x*a**2*b + y*a*b**2 - (x + y + 1)*a*b*c), G, POS)


def windmill(L, u, v):
    r = L.use(Q5 + "_sos_struct_quintic_windmill_uv")(u, v)
    if r is None:
        return L.note("none")
    mult, sol = r
    if sol is None:
        return L.note("none")
    L.note("solved")
    q = a**2 - b**2 + u*(a*b - a*c) + v*(b*c - a*b)
    L.proof("windmill", sol / mult, sigma((b - a + (2*u - 1)*c)*q**2), G, POS)


def hexagon(L, p, q, z, mul):
    L.assume(">=", mul)
    sol = L.use(Q5 + "_solve_quintic_hexagon_pqz")(p, q, z, mul)
    if sol is None:
        return L.note("none")
    L.note("solved")
    L.proof("hexagon", sol, mul*sigma(a**4*b + p*a**3*b**2 + q*a**2*b**3 + a*b**4 + z*a**3*b*c - (p + q + z + 2)*a**2*b**2*c), G, POS)

# ---- sparse forms -----------------------------------------------------------------
SP = T + "sparse:"


def mon(m):
    return a**m[0]*b**m[1]*c**m[2]


def largest(deg):
    """one monomial of each cyclic orbit"""
    ms = [(i, j, deg - i - j) for i in range(deg + 1) for j in range(deg - i + 1)]
    return [m for m in ms if m == max(m, (m[1], m[2], m[0]), (m[2], m[0], m[1]))]


def amgm(deg, part, parts):
    """u s(m1) + v s(m2) for every two monomials of the degree"""
    def prog(L, u, v):
        f = L.use(SP + "AMGM3").solve
        ms, n = largest(deg), 0
        for m1, m2 in [(x, y) for x in ms for y in ms if x != y][part::parts]:
            sol = f(u, m1, v, m2)
            if sol is not None:
                n += 1
                L.proof(f"{m1} {m2}", sol, u*sigma(mon(m1)) + v*sigma(mon(m2)), G, POS)
        L.note(f"solved {n}")
    return prog


def prod_P(n, r, m, s):
    return sp.expand(sigma(a**n*(b**r - c**r))*sigma(a**m*(b**s - c**s)))


def prod_H(n, m, r):
    return sigma((a**n if n >= 0 else (b*c)**-n)*(b**m + c**m)*(a**r - b**r)*(a**r - c**r))


def raw_signs(e):
    """the templates that are not sums of nonnegative terms, which the callers have to refuse later"""
    return not any(isinstance(t, sp.Add) and any(x.could_extract_minus_sign() for x in t.args) and not isinstance(p, sp.Pow)
                   for p in sp.preorder_traversal(e) for t in p.args)


def table(cls, ref, params):
    def prog(L, v):
        L.assume(">", v)
        f = L.use(SP + cls)
        for q in params:
            want = v*ref(*q)
            L.eq(f"coeff{q}", f.coeff(*q, v).as_poly(*G).as_expr(), want, G)
            e = f.as_expr(*q, v)
            if raw_signs(e):
                L.proof(f"expr{q}", e, want, G, POS)
            else:
                L.eq(f"expr{q}", e, want, G)
    return prog


def heuristic(f, tail):
    def prog(L, v, k):
        from triples.utils import Coeff
        L.assume("!=", v)
        F = v*f + k*sigma(tail)
        d = Poly(F, *G).as_dict()
        sol = L.use(SP + "sos_struct_heuristic")(Coeff({m: S(x) for m, x in sorted(d.items(), reverse=True)}))
        if sol is None:
            return L.note("none")
        L.note("solved")
        L.proof("form", sol, F, G, POS)
    return prog


HEUR_P = [(q, a*b*c) for q in ()]
for q in ((4, 1, 3, 1), (3, 1, 3, 1), (4, 1, 4, 1), (4, 2, 3, 1), (4, 1, 3, 2), (5, 1, 4, 1), (5, 1, 3, 1), (5, 2, 4, 1), (4, 2, 4, 2), (5, 2, 5, 1)):
    HEUR_P.append((q, a**(sum(q) - 4)*b**2*c**2))
HEUR_H = []
for q in ((4, 1, 1), (3, 2, 1), (5, 1, 1), (4, 2, 1), (3, 3, 1), (2, 1, 2), (3, 1, 2), (3, 2, 2), (4, 1, 2), (2, 4, 1), (2, 5, 1), (1, 3, 2), (2, 3, 2), (-1, 3, 2), (-2, 3, 1), (-2, 1, 2), (-3, 1, 1), (-3, 2, 1), (-1, 4, 1), (-1, 2, 2)):
    n = abs(q[0])*(2 if q[0] < 0 else 1) + q[1] + 2*q[2]
    HEUR_H.append((q, a**(n - 4)*b**2*c**2))
HEUR_B = [(sigma(a**5*b**2 - 2*a**4*b**3 + a**3*b**4), a**5*b**2), (sigma(a**6*b**2 - a**5*b**3 - a**3*b**5 + a**2*b**6), a**4*b**4),
          (sigma(a*b*c*(a**4*b - 2*a**3*b**2 + a**2*b**3)), a**4*b**3*c), (sigma(a**7*b - 3*a**5*b**3 + 2*a**4*b**4), a**5*b**3)]


def sparse_cases():
    two = [at(1, -1), at(-1, 1), at(3, -2), at(-2, 3), at(1, 1), at(-1, -1)]
    out = [(f"amgm.{d}.{i}", amgm(d, i, p), 2, dict(seeds=two)) for d, p in ((4, 1), (5, 1), (6, 1), (7, 1), (8, 2), (9, 3)) for i in range(p)]
    out += [(f"H.{r}.{i}", table("Hnmr", prod_H, [(n, m, r) for n in ns for m in range(6)]), 1, {})
            for r in (1, 2, 3) for i, ns in enumerate((range(-4, 0), range(0, 4), range(4, 9)))]
    out += [(f"P.{n}", table("Pnrms", prod_P, [(n, r, m, s) for r in range(4) for m in range(5) for s in range(4)]), 1, {}) for n in range(1, 7)]
    one = [at(1, 1), at(1, 0), at(2, 5), at(1, -1)]
    for q, t in HEUR_P:
        out.append(("heur.P" + "".join(map(str, q)), heuristic(prod_P(*q), t), 2, dict(seeds=one)))
    for q, t in HEUR_H:
        out.append(("heur.H" + "".join(map(str, q)), heuristic(prod_H(*q), t), 2, dict(seeds=one)))
    for i, (f, t) in enumerate(HEUR_B):
        out.append((f"heur.border{i}", heuristic(f, t), 2, dict(seeds=one)))
    return out


def group(spec, tier, kw):
    big = tier != "quick"
    out = []
    for name, prog, nk, k in spec:
        quick = k.pop("quick", True)
        if not quick and not big:
            continue
        mp, bs = k.pop("cost", (30, 25))
        out.append(LemmaCase("lem." + name, prog, nk, "a b c", max_paths=mp*(10 if big else 1), budget_s=bs*(6 if big else 1),
                             path_s=20 if big else 10, query_ms=4000 if big else 1500, **{**kw, **k}))
    return out


def at(*v):
    return {f"k{i}": S(x) for i, x in enumerate(v)}


def quintic_cases(tier):
    R = Rational
    return group([
        ("cubic", lifted_cubic, 3, dict(seeds=[at(1, 2, 3), at(-2, 4, 1), at(5, -3, 1), at(-1, -1, 1), at(-2, R(13, 4), 2)])),
        ("windmill", windmill, 2, dict(seeds=[at(2, 0), at(3, 1), at(R(3, 2), 1), at(R(7, 3), 3), at(3, -2), at(R(1, 2), 10), at(1, 8), at(R(1, 3), 9), at(5, 7), at(2, R(5, 2))])),
        ("hexagon", hexagon, 4, dict(seeds=[at(1, 2, 0, 1), at(-1, 3, 0, 2), at(4, 1, -2, 1), at(0, 0, 0, 1), at(3, 3, -2, 1), at(1, 1, 5, 2), at(-1, 0, 0, 1)])),
    ], tier, {})


def sextic_cases(tier):
    R = Rational
    xy = [at(2, 3), at(R(1, 2), 1), at(3, -1), at(0, 0), at(2, -1), at(4, 0)]
    xyw = [at(2, R(-1, 3), 0), at(2, R(-1, 3), -R(40, 4)), at(2, 3, 1), at(2, 3, R(1, 3)), at(R(1, 2), R(7, 6), 1), at(3, 0, 0), at(R(3, 2), R(1, 2), -1)]
    return group([
        ("F_square", direct6("_F_square"), 3, dict(seeds=xyw)),
        ("F_trivial", direct6("_F_trivial"), 3, dict(seeds=xyw)),
        ("F_border", direct6("_F_tighter_bound_border"), 3, dict(seeds=[at(2, -2, 0), at(2, 0, 1), at(3, -1, 1), at(2, -R(3, 2), 3), at(3, -4, 5)])),
        ("F_regular", lifted6("_F_regular"), 2, dict(seeds=xy)),
        ("F_sos2.0", lifted6("_F_sos2", 0), 2, dict(seeds=xy)),
        ("F_sos2.1", lifted6("_F_sos2", 1), 2, dict(seeds=xy)),
        ("F_alternative", lifted6("_F_alternative"), 3, dict(seeds=[at(2, 3, 1), at(1, 1, 0), at(0, 0, 0)])),
        ("rem_regular", rem6("_rem_regular", (2, -2), False), 3, dict(seeds=[at(1, 1, 2)])),
        ("rem_regular.m", rem6("_rem_regular", None, False), 5, dict(seeds=[at(1, 1, 2, 1, 1), at(1, 1, 2, 1, -1), at(1, 1, 2, 1, 3), at(1, 1, 2, 0, 1)])),
        ("rem_regular.oo", rem6("_rem_regular", (2, -2), True), 2, dict(seeds=[at(1, 1)])),
        ("rem_sos", rem6("_rem_sos", (2, -2), False), 3, dict(seeds=[at(1, 1, 2)])),
        ("axis", solve6(False), 6, dict(seeds=[at(*s, *r) for s in ((2, R(-1, 3), 0), (2, 3, 1), (R(1, 2), R(7, 6), 1), (3, 0, 0), (R(3, 2), 1, R(-1, 10)), (2, -2, 0), (3, -1, -1), (2, -2, -3))
                                              for r in ((0, 0, 0), (1, 1, 1), (0, 1, -1))], cost=(60, 40))),
        ("axis.oo", solve6(True), 5, dict(seeds=[at(*s, *r) for s in ((2, R(-1, 3), 0), (2, 3, 1), (3, 0, 0), (2, -2, 0), (3, -1, -1)) for r in ((0, 1), (1, 1))])),
        *((f"2roots.{n}", two_roots(n), 4, dict(seeds=[at(1, x, k, w) for x in xs for k, w in ((0, 0), (0, 1), (1, 0))]))
          for n, xs in (("border", (3, R(5, 2))), ("axis", (2, R(3, 2), 4, 1, R(1, 2), -1)), ("axis0", (3, R(1, 3))), ("0axis", (3, 4, R(1, 3))))),
        ("restructure", restructure, 5, dict(seeds=[at(1, 0, 0, 0, 1), at(1, -2, 3, -2, 1), at(2, 0, 1, 0, 0), at(1, 2, 3, 4, 5), at(0, 0, 1, 0, 1), at(1, 0, -2, 0, 1)])),
    ], tier, {})


def septic_cases(tier):
    R = Rational
    xy = [at(2, 3), at(2, R(-1, 3)), at(R(1, 2), R(7, 6)), at(R(1, 2), 1), at(3, -1), at(0, 0), at(2, -1), at(4, 0), at(1, 1), at(-1, 3), at(2, 1), at(-2, 1), at(0, 1)]
    out = []
    for n, fn, base, ex in (("F_regular", "_F_regular", F7, ()), ("F_square", "_F_square", F7, ()), ("F_sos.0", "_F_sos", F7, (0,)), ("F_sos.1", "_F_sos", F7, (1,)),
                            ("F_border", "_F_border", F7, ()), ("G_regular", "_G_regular", G7, ()), ("G_trivial", "_G_trivial", G7, ()), ("G_border", "_G_border", G7, ()),
                            ("G_sos.0", "_G_sos", G7, (0,)), ("G_sos.1", "_G_sos", G7, (1,))):
        out.append((n, seven(fn, base, *ex), 2, dict(seeds=xy)))
    out += [("axis7", solve7, 5, dict(seeds=[at(*f, *g, w) for f in ((2, R(-1, 3)), (R(1, 2), R(7, 6)), (2, 1), (0, 1)) for g in ((2, 1), (0, 0), (2, R(-1, 2))) for w in (0, 3)])),
            ("fast", fast_quartic, 5, dict(seeds=[at(1, 0, 0, 0, 0), at(1, -1, 1, -1, 1), at(0, 1, 1, 1, 0), at(1, 2, 3, -1, 2), at(0, 1, -1, 1, 0), at(1, -3, 8, -3, 0)])),
            ("additive.4", additive(4), 5, dict(cost=(40, 25))), ("additive.6", additive(6), 10, dict(seeds=[at(*[1]*10)])), ("axis_of.5", axis_of(5), 7, {}), ("axis_of.6", axis_of(6), 10, {}),
            *((f"homogenize.{d}{n}", homogenize(d, n), n + 1, {}) for d, n in ((4, 2), (5, 3), (6, 3), (7, 4))),
            *((f"homproof.{d}", homproof(d), 6, dict(seeds=[at(1, 1, 1, -1, 2, 3)])) for d in (3, 4, 5, 6)),
            ("inverse", inverse_quartic, 4, dict(seeds=[at(1, -1, 0, 1), at(1, -1, 1, 1), at(0, 1, 1, 1), at(0, 1, -2, 1), at(1, 1, -1, 0)]))]
    return group(out + sparse_cases(), tier, {})
