"""Univariate and bivariate proofs: prove_univariate, prove_univariate_interval, structural_sos_2vars, prove_by_pivoting."""
import sympy as sp
from sympy import Poly, S, Matrix, symbols, Rational
from symx.case import LemmaCase
from symx import stubs, rt
from symx.engine import Prune

U = "triples.core.structsos.pivoting.univariate:"
B = "triples.core.structsos.pivoting.bivariate:"
PV = "triples.core.symsos.basic:"
x, y, z, a, b = symbols("x y z a b")


def count_roots(orig, f, inf=None, sup=None):
    """the number of real roots in [inf, sup] of a squarefree polynomial of degree at most two (closed form)"""
    p = f if isinstance(f, Poly) else Poly(f)
    p = stubs.clean(p)
    if rt.ENGINE is None or not stubs.sym(p):
        return orig(p, inf, sup)
    if p.degree() > 2:
        stubs.pin(p)
    n = p.degree()
    if n <= 0:
        return 0
    half = inf == 0 and sup is None
    if not half and (inf is not None or sup is not None):
        stubs.pin(p)
    dec = lambda op, e: rt.sx_cmp(op, sp.expand(e), S.Zero)
    if n == 1:
        u, v = p.all_coeffs()
        return 1 if not half or dec("<=", u*v) else 0
    u, v, w = p.all_coeffs()
    disc = v**2 - 4*u*w
    if dec("<", disc):
        return 0
    if dec("==", disc):
        raise Prune("not irreducible")
    if not half:
        return 2
    if dec("==", w):
        return 1 + (1 if dec("<", u*v) else 0)
    if dec("<", u*w):
        return 1
    return 2 if dec("<", u*v) else 0


def prepare():
    from . import c07
    c07.prepare()
    import triples.core.structsos.pivoting.univariate as m
    # the functions under test are the real ones here
    for name in ("prove_univariate", "prove_univariate_interval", "radsimp"):
        w = m.__dict__.get(name)
        if name != "radsimp" and hasattr(w, "__wrapped__"):
            setattr(m, name, w.__wrapped__)
    import triples.core.structsos.pivoting.bivariate as m2
    w = m2.__dict__.get("prove_univariate_interval")
    if hasattr(w, "__wrapped__"):
        m2.prove_univariate_interval = w.__wrapped__
    # rounding a symbolic entry: the integer it gives at the witness of the path
    m.__dict__["round"] = lambda v, *a: round(v, *a) if rt.ENGINE is None or not stubs.sym(v) else \
        stubs.oracle(lambda: round(stubs.at(v, rt.ENGINE.shadow), *a), defaults=["q"])
    import sympy.polys as pl
    orig = pl.count_roots
    pl.count_roots = lambda f, *a, **k: count_roots(orig, f, *a, **k)


def total(proof):
    return sp.Add(*[m*sp.Add(*[c*p.as_expr()**2 for c, p in zip(cs, ps)]) for m, cs, ps in proof])


def claim(L, proof, f, muls, gen=x):
    """`proof` is a raw proof of f with the given multipliers"""
    L.true("one list per multiplier", len(proof) <= len(muls))
    for i, (m, cs, ps) in enumerate(proof):
        if not cs:
            continue
        L.true("as many weights as squares", len(cs) == len(ps))
        if len(muls) == 2 and len(proof) == 2:
            L.eq(f"multiplier {i}", m, muls[i], (gen,))
        for c in cs:
            L.ge("weight", c)
    L.eq("identity", total(proof), f, (gen,))


def poly(cs):
    """the polynomial with the given coefficients, highest degree first"""
    cs = [sp.sympify(c) for c in cs]
    n = len(cs) - 1
    return Poly({(n - i,): c for i, c in enumerate(cs) if c != 0} or {(0,): S.Zero}, x)


# ---- the pieces ----------------------------------------------------------------------------------------------
def simple(L, *k):
    P = poly(k)
    if not any(k):
        return
    r = L.use(U + "_prove_univariate_simple")(P)
    L.note("none" if r is None else "some")
    c = [S.Zero]*(3 - len(k)) + list(k)
    if r is None:
        # refused although positive for every x >= 0
        L.impossible("refuses a positive one", [(">", c[0]), (">=", c[1]), (">=", c[2])])
        L.impossible("refuses a definite one", [(">", c[0]), ("<", c[1]**2 - 4*c[0]*c[2])])
        L.impossible("refuses a linear one", [("==", c[0]), (">=", c[1]), (">=", c[2])])
        return
    claim(L, r, P.as_expr(), (S.One, x) if len(r) == 2 else (S.One,))


def symm(n, k):
    it = iter(k)
    M = sp.zeros(n, n)
    for i in range(n):
        for j in range(i, n):
            M[i, j] = M[j, i] = next(it)
    return M


def vec(n):
    return Matrix([x**(n - 1 - i) for i in range(n)])


def size(n):
    return n*(n + 1)//2


def diagonal(deg, zeros=()):
    """a symmetric matrix completed to a Gram matrix of the polynomial"""
    n = deg//2 + 1

    def prog(L, *k):
        M = symm(n, k[:size(n)])
        c = [S.Zero if i in zeros else v for i, v in enumerate(k[size(n):])]
        L.assume("!=", c[0])
        P = poly(c)
        R = L.use(U + "_determine_diagonal_entries")(M, P)
        L.true("symmetric", R == R.T)
        L.eq("gram", (vec(n).T*R*vec(n))[0], P.as_expr(), (x,))
    return prog, size(n) + deg + 1


def diagonals(deg, zeros=()):
    """the same for the pair used on the half line"""
    n1, n2 = (deg//2 + 1, deg//2) if deg % 2 == 0 else (deg//2 + 1, deg//2 + 1)

    def prog(L, *k):
        M1, M2 = symm(n1, k[:size(n1)]), symm(n2, k[size(n1):size(n1) + size(n2)])
        c = [S.Zero if i in zeros else v for i, v in enumerate(k[size(n1) + size(n2):])]
        L.assume(">", c[0])
        P = poly(c)
        R1, R2 = L.use(U + "_determine_diagonal_entries")([M1, M2], P)
        L.true("symmetric", R1 == R1.T and R2 == R2.T)
        L.eq("gram", (vec(n1).T*R1*vec(n1))[0] + x*(vec(n2).T*R2*vec(n2))[0], P.as_expr(), (x,))
    return prog, size(n1) + size(n2) + deg + 1


def roots(n):
    """the averaged Gram matrix of a product of n conjugate pairs"""
    def prog(L, *k):
        lc = k[0]
        rs = [k[1 + 2*i] + sp.I*k[2 + 2*i] for i in range(n)]
        f = L.use(U + "_construct_matrix_from_roots")
        M = f([], [(r, k[1 + 2*i] - sp.I*k[2 + 2*i]) for i, r in enumerate(rs)], leading_coeff=lc, positive=False)
        L.true("symmetric", M == M.T)
        e = lc*sp.Mul(*[(x - k[1 + 2*i])**2 + k[2 + 2*i]**2 for i in range(n)])
        L.eq("gram", (vec(n + 1).T*M*vec(n + 1))[0], e, (x,))
    return prog, 2*n + 1


def mixed(n):
    """one negative root and n conjugate pairs"""
    def prog(L, *k):
        lc, r = k[0], -k[1]**2
        f = L.use(U + "_construct_matrix_from_roots")
        L.assume(">", k[1])
        ps = [(k[2 + 2*i] + sp.I*k[3 + 2*i], k[2 + 2*i] - sp.I*k[3 + 2*i]) for i in range(n)]
        M1, M2 = f([r], ps, leading_coeff=lc, positive=True)
        q = sp.Mul(*[(x - k[2 + 2*i])**2 + k[3 + 2*i]**2 for i in range(n)])
        L.eq("gram", (vec(n + 1).T*M1*vec(n + 1))[0] + x*(vec(n + 1).T*M2*vec(n + 1))[0], lc*(x - r)*q, (x,))
    return prog, 2*n + 2


def create(n):
    def prog(L, *k):
        Um = Matrix(n, n, list(k[:n*n]))
        Sm = Matrix(n, 1, list(k[n*n:]))
        s, ps = L.use(U + "_create_sos_from_US")(Um, Sm, x)
        L.eq("value", total([(S.One, s, ps)]), (vec(n).T*Um.T*sp.diag(*Sm)*Um*vec(n))[0], (x,))
        L.true("weights kept", list(s) == list(Sm))
    return prog, n*n + n


def reduced(degs):
    """weights k, polynomials with symbolic coefficients: collected without changing the value"""
    nk = len(degs) + sum(d + 1 for d in degs)

    def prog(L, *k):
        cs, it = list(k[:len(degs)]), iter(k[len(degs):])
        for c in cs:
            L.assume(">=", c)
        L.assume("!=", k[len(degs)])
        ps = [poly([next(it) for _ in range(d + 1)]) for d in degs]
        r = L.use(U + "_reduce_sos")(cs, ps, x=x)
        for c in r[0]:
            L.ge("weight", c)
            L.true("no zero weight", L.decide("!=", c) if sp.sympify(c).free_symbols else c != 0)
        L.eq("value", total([(S.One, r[0], r[1])]), sp.Add(*[c*p.as_expr()**2 for c, p in zip(cs, ps)]), (x,))
    return prog, nk


# ---- the provers -----------------------------------------------------------------------------------------
def univariate(build, raw=True):
    def prog(L, *k):
        P = build(*k)
        r = L.use(U + "prove_univariate")(P, return_raw=raw)
        if r is None:
            return
        if raw:
            L.true("two lists", len(r) == 2)
            claim(L, r, P.as_expr(), (S.One, x))
        else:
            L.eq("identity", r, P.as_expr(), (x,))
            L.signs("sign", sp.sympify(r), {x})
    return prog


def irreducible(build):
    """the whole search for one factor; the numerical roots are those at the witness of the path"""
    def prog(L, *k):
        P = build(*k)
        L.assume("!=", P.as_expr().subs(x, 0))
        if L.E is None and sp.Poly(P, x).discriminant() == 0:
            return                  # not irreducible
        r = L.use(U + "_prove_univariate_irreducible")(P)
        if r is not None:
            claim(L, r, P.as_expr(), (S.One, x) if len(r) == 2 else (S.One,))
    return prog


def interval(build, lo, hi, raw=True, nk=0):
    """lo/hi: None, a number, or an index of a symbol"""
    def prog(L, *k):
        P = build(*k)
        get = lambda e: e if e is None or not isinstance(e, str) else k[int(e)]
        u, v = get(lo), get(hi)
        if u is not None and v is not None:
            L.assume(">", v - u)
        r = L.use(U + "prove_univariate_interval")(P, (u, v), return_raw=raw)
        if r is None:
            return
        left, right = (S.One if u is None else x - u), (S.One if v is None else v - x)
        n = max(P.degree(), 0)
        if u is None and v is None:
            muls = (S.One,)
            r = [t for t in r if t[1]]
            L.true("no multiplier on the whole line", len(r) <= 1 and all(t[0] == 1 for t in r))
        elif u is None or v is None:
            muls = (S.One, left*right)
        elif n % 2 == 0:
            muls = (S.One, left*right)
        else:
            muls = (right, left)
        claim(L, r, P.as_expr(), muls)
    return prog


def check(build, positive):
    def prog(L, *k):
        P = build(*k)
        if P.is_zero:
            return
        ok = L.use(U + "check_univariate")(P, positive=positive)
        if not ok:
            c = [P.coeff_monomial(x**i) for i in range(P.degree() + 1)]
            if len(c) <= 3:
                L.impossible("refuses a positive one", [(">=", t) for t in c] + [(">" , c[-1])] + ([] if positive else [("<", c[1]**2 - 4*c[0]*c[2])] if len(c) == 3 else [("==", S.One)]))
        if ok:
            L.ge("negative somewhere", P.as_expr(), {x} if positive else set())
    return prog


# ---- two variables -----------------------------------------------------------------------------------------
def halfspaces(n, nz=True):
    def prog(L, *k):
        H = L.use(B + "HalfspaceIntersection2D")()
        ns = [(k[2*i], k[2*i + 1]) for i in range(n)]
        for i, (u, v) in enumerate(ns):
            L.assume(">", u**2 + v**2)
            H.add((u, v), i)
        if H.degenerated:
            L.note("degenerate")
            # no common interior point: the normals are positively dependent
            return
        bd = H.as_bounds()
        L.true("at most two", 1 <= len(bd) <= 2)
        for m, i in bd:
            L.true("one of those given", 0 <= i < n)
            L.eq("normal", m[0], ns[i][0], ())
            L.eq("normal", m[1], ns[i][1], ())
        kept = [i for _, i in bd]
        L.note(kept)
        p, q = k[2*n], k[2*n + 1]
        for u, v in ns:
            L.impossible("implied by those kept", [(">", ns[i][0]*p + ns[i][1]*q) for i in kept] + [("<", u*p + v*q)])
    return prog, 2*n + 2


def form2(deg, idx=None):
    def f(*k):
        return Poly({(deg - i, i): c for i, c in zip(idx or range(deg + 1), k) if c != 0} or {(0, 0): S.Zero}, a, b)
    return f, len(idx or range(deg + 1))


G0, G1, G2 = symbols("G0 G1 G2")


def bivariate(fm, cons, lemma=False):
    """cons(k) -> [(u, v)]: the half planes; their expressions are arbitrary symbols"""
    f, nk = fm

    def prog(L, *k):
        P = f(*k[:nk])
        if P.is_zero:
            return
        cs = cons(*k[nk:])
        gs = (G0, G1, G2)[:len(cs)]
        ineqs = {}
        for g, (u, v) in zip(gs, cs):
            ineqs[Poly(u*a + v*b, a, b)] = g
        r = L.use(B + ("_sos_struct_bivariate_linear_ineq" if lemma else "structural_sos_2vars"))(P, ineqs, {})
        if r is None:
            return
        back = {g: u*a + v*b for g, (u, v) in zip(gs, cs)}
        r = sp.sympify(r)
        L.eq("identity", r.xreplace(back), P.as_expr(), (a, b))
        L.signs("sign", r, set(gs))
    return prog


def pivoting(terms, gens, nonneg):
    g = symbols(gens)
    nn = set(symbols(nonneg + " ,")) if nonneg else set()

    def prog(L, *k):
        t = {m: c for m, c in zip(terms, k) if c != 0}
        if not t:
            return
        P = Poly(t, *g)
        r = L.use(PV + "prove_by_pivoting")(P, nn)
        if r is None:
            return
        r = sp.sympify(r)
        L.eq("identity", r, P.as_expr(), g)
        L.signs("sign", r, nn)
    return prog


def quad(*k):
    return poly(k)


def at(*v):
    return {f"k{i}": t for i, t in enumerate(v)}


def lead(*head):
    return lambda *k: poly(list(head) + list(k))


def cases(tier):
    big = tier != "quick"
    kw = dict(budget_s=300 if big else 14, query_ms=4000 if big else 1500, path_s=60 if big else 14, max_paths=600 if big else 60)
    out = []
    add = lambda name, prog, nk, **k: out.append(LemmaCase(name, prog, nk, gens="", **{**kw, **k}))
    for n in (1, 2, 3):
        add(f"simple.{n}", simple, n, fork=True)
    for d in (2, 4, 6, 8, 10, 12):
        p, nk = diagonal(d)
        add(f"diagonal.{d}", p, nk)
    p, nk = diagonal(4, (1, 3))
    add("diagonal.4.even", p, nk)
    for d, zs in ((3, ()), (3, (1,)), (4, ()), (5, ()), (5, (1, 2)), (6, ()), (7, ()), (8, ()), (9, ()), (10, ()), (11, ())):
        p, nk = diagonals(d, zs)
        add(f"diagonals.{d}" + "".join(map(str, zs)), p, nk)
    for n in (1, 2, 3):
        p, nk = roots(n)
        add(f"roots.{n}", p, nk)
    for n in (1, 2):
        p, nk = mixed(n)
        add(f"roots.mixed.{n}", p, nk)
    for n in (2, 3):
        p, nk = create(n)
        add(f"create.{n}", p, nk)
    for ds in ((1,), (1, 1), (2, 1), (1, 1, 0), (2, 0)):
        p, nk = reduced(ds)
        add("reduce." + "".join(map(str, ds)), p, nk)
    # searches
    R = Rational
    add("irr.3", irreducible(lead(1)), 3, seeds=[at(0, -1, 1), at(-2, 6, 1), at(-2, 2, 1), at(-1, 0, 1), at(-3, 3, 1), at(-4, 30, 1), at(1, 2, 3)])
    add("irr.3.lead", irreducible(lambda k0, k1, k2: poly([k0, -1, -1, k1 + k2])), 3, seeds=[at(1, 2, 0), at(7, 1, 0), at(R(1, 3), 9, 0), at(R(2, 7), 9, 1), at(10**20 + 1, 10**20, 0)])
    add("irr.3.big", irreducible(lambda k0, k1: poly([10**20 + 1, 0, -k0, k1])), 2, seeds=[at(10**20, 10**20), at(10**19, 10**20 + 7)])
    add("irr.4", irreducible(lead(1)), 4, seeds=[at(0, 0, 0, 1), at(1, -1, 1, 1), at(-2, 2, -1, 1), at(0, -3, 1, 3), at(-2, 1, 0, 1), at(3, -3, 0, 1), at(-4, 9, -7, 3)])
    add("irr.4.half", irreducible(lead(1)), 4, seeds=[at(5, -2, 1, R(1, 9)), at(4, -5, 3, 1), at(2, -3, 3, 2), at(10, 1, -3, 2)])
    add("irr.5", irreducible(lambda *k: poly([1, 0] + list(k))), 4, seeds=[at(0, 0, -1, 1), at(-1, 0, 1, 1), at(-3, 4, 0, 1), at(0, -2, 1, 2)])
    add("irr.5.gap", irreducible(lambda *k: poly([1, k[0], 0, 0, k[1], k[2]])), 3, seeds=[at(0, -1, 1), at(-2, 6, 2), at(-1, 3, 1), at(-2, 30, 1)])
    add("irr.6", irreducible(lambda *k: poly([1, 0] + list(k[:3]) + [0, k[3]])), 4, seeds=[at(0, -1, 0, 1), at(-2, 1, 1, 2), at(-1, -1, 1, 2), at(1, 1, -1, 1)])
    add("uni.2", univariate(quad), 3, fork=True)
    add("uni.2.expr", univariate(quad, False), 3, fork=True)
    add("uni.3", univariate(lambda *k: poly([1] + list(k))), 3, seeds=[at(0, -1, 1), at(-2, 6, 1), at(-1, 0, 1)])
    add("uni.4", univariate(lambda *k: poly([2] + list(k))), 4, seeds=[at(1, -1, 1, 1), at(0, -3, 1, 3), at(5, -2, 1, R(1, 9))])
    sq = lambda f: lambda *k: Poly(sp.expand(f(*k)), x)
    add("uni.sq.lin", univariate(sq(lambda p, q, r: (x - p)**2*(q*x + r))), 3, seeds=[at(1, 1, 1), at(2, 0, 3), at(-1, 3, 0)])
    add("uni.sq.quad", univariate(sq(lambda p, q, r: (x - p)**2*(x**2 + q*x + r))), 3, seeds=[at(1, -1, 1), at(2, 3, 1), at(0, -1, 2)])
    add("uni.quad.quad", univariate(sq(lambda p, q, r: (x**2 + p)*(x**2 + q*x + r))), 3, seeds=[at(1, -1, 1), at(2, 3, 1), at(3, 1, 0)])
    add("uni.cube", univariate(sq(lambda p, q: (x + p)**3*(x**2 - q*x + 1))), 2, seeds=[at(1, 1), at(0, 1), at(2, -1), at(3, 2)])
    add("uni.cub.lin", univariate(sq(lambda p, q: (x + p)*(x**3 - q*x + 1))), 2, seeds=[at(1, 1), at(0, 1), at(2, R(3, 2))])
    add("uni.x", univariate(sq(lambda p, q: x*(x**2 - p*x + 1)*(x + q))), 2, seeds=[at(1, 1), at(0, 1), at(-1, 2), at(1, 0)])
    add("uni.scaled", univariate(sq(lambda p, q: p*(x**2 - q*x + 1)**2*(x**2 + q**2 + 1))), 2, seeds=[at(1, 1), at(3, 1), at(-1, 2), at(1, 0)])
    # intervals
    for lo, hi, tag in (("0", "1", "both"), ("0", None, "right"), (None, "0", "left")):
        off = 2 if tag == "both" else 1
        s0 = (0, 2) if off == 2 else (1,)
        bl = lambda d, off=off: lambda *k: poly(k[off:off + d + 1])
        add(f"int.{tag}.0", interval(bl(0), lo, hi), off + 1, seeds=[at(*s0, 3), at(*s0, 0), at(*s0, -1)])
        add(f"int.{tag}.1", interval(bl(1), lo, hi), off + 2, seeds=[at(*s0, 1, 1), at(*s0, -1, 3), at(*s0, 1, 0), at(*s0, -1, 2), at(*s0, 1, -1), at(*s0, -1, 1)])
        add(f"int.{tag}.2", interval(bl(2), lo, hi), off + 3, seeds=[at(*s0, 1, -1, 1), at(*s0, -1, 2, 0), at(*s0, -1, 0, 5), at(*s0, 1, 1, 0), at(*s0, 1, -5, 10), at(*s0, -1, 0, 1), at(*s0, 0, 1, 1)])
        ex = {"right": "left", "left": "right"}.get(tag)
        r_ = {"both": lambda p, q, t, *_: (x - p)*(q - x)*(x + t) + 1, "right": lambda p, t, *_: (x - p)*(x**2 - t*x + t**2 + 1), "left": lambda p, t, *_: (p - x)*(x**2 - t*x + t**2 + 1)}[tag]
        add(f"int.{tag}.root", interval(lambda *k, r_=r_: Poly(sp.expand(r_(*k)), x), lo, hi), off + 1, seeds=[at(*s0, 1), at(*s0, 3), at(*s0, -1)])
        add(f"int.{tag}.3", interval(lambda *k, off=off: poly([k[off], -1, 0, k[off + 1]]), lo, hi), off + 2, seeds=[at(*s0, 1, 1), at(*s0, 1, 9), at(*s0, -1, 40), at(*s0, 0, 9)])
    add("int.unit.4", interval(lambda *k: poly([k[0], -1, k[1], 0, k[2]]), S.Zero, S.One), 3, seeds=[at(1, 1, 1), at(0, 1, 1), at(-1, 1, 3), at(1, 0, 1)])
    add("int.line", interval(quad, None, None), 3, seeds=[at(1, 1, 1), at(1, 3, 1), at(0, 0, 2), at(1, 0, 0)], fork=True)
    add("int.line.4", interval(lead(1), None, None), 4, seeds=[at(0, -1, 0, 1), at(-2, 3, -2, 1), at(0, 0, 0, 1)])
    # higher degrees, factored
    cc = [x**2 - x + 1, x**2 + 1, x**2 + x + 2, x**2 - 3*x + 4, x**2 - x + 5]
    add("uni.prod.7", univariate(sq(lambda p, q: p*(x + 1)*(x + q)*(x + 5)*cc[0]*cc[2])), 2, seeds=[at(1, 2), at(3, 0), at(-1, 2)])
    add("uni.prod.8", univariate(sq(lambda p, q: (x + 1)*(x + q)*(x + 5)*(x + 7)*(x + 9)*cc[3]*(x**2 + p))), 2, seeds=[at(1, 2), at(3, 0), at(2, 11)])
    add("uni.prod.9", univariate(sq(lambda p, q: (x + 2)*(x**2 + 3*x + 1)*(x**2 + p*x + 5)*cc[0]*(x**2 + q))), 2, seeds=[at(1, 2), at(-3, 1), at(2, 11)])
    add("uni.powers", univariate(sq(lambda p, q: (x + 2)**5*(x**2 + p*x + q)**3*(x - 1)**4)), 2, seeds=[at(1, 2), at(-1, 1), at(0, 3)])
    ends = ((S.Zero, S(2)), (-S.One, R(5, 2)), (S(3), S(7)), (None, S(2)), (R(1, 3), None))
    for i, (u, v) in enumerate(ends):
        base = [e for e, o in ((x - (u or 0), u), ((v or 0) - x, v)) if o is not None]
        l, r_ = base[0], base[-1]
        add(f"int.deg5.{i}", interval(sq(lambda p, q, l=l: p*(l + 1)*(x**2 + q**2 + 1)*cc[3]), u, v), 2, seeds=[at(1, 2), at(3, 0)])
        add(f"int.deg5.root.{i}", interval(sq(lambda p, q, l=l, r_=r_: p*l*(r_ + q**2)*(x**2 + 1)*(x - 1) **2), u, v), 2, seeds=[at(1, 2), at(3, 0)])
        add(f"int.deg6.{i}", interval(sq(lambda p, q, r_=r_: p*r_*(r_ + 2)*cc[0]*(x**2 + x + q**2 + 1)), u, v), 2, seeds=[at(1, 2), at(3, 0)])
        add(f"int.deg7.{i}", interval(sq(lambda p, q, r_=r_: p*r_*(x - q)**4*cc[3]), u, v), 2, seeds=[at(1, 1), at(3, 0)])
        add(f"int.deg8.{i}", interval(sq(lambda p, q, l=l: p*l**3*(l + 1)*(x - q)**2*cc[4]), u, v), 2, seeds=[at(1, 1), at(3, 0)])
    # checks
    add("check.half.2", check(quad, True), 3, fork=True)
    add("check.line.2", check(quad, False), 3, fork=True)
    add("check.half.1", check(quad, True), 2, fork=True)
    add("check.half.prod", check(sq(lambda p, q, r: (x - p)**2*(x + q)*(x**2 + r)), True), 3)
    add("check.line.prod", check(sq(lambda p, q, r: (x - p)**2*(x**2 + q*x + r)), False), 3)
    add("check.half.cube", check(sq(lambda p, q: (x - p)**3*(x + q)*x), True), 2)
    # two variables
    for n in (1, 2, 3) + ((4,) if big else ()):
        p, nk = halfspaces(n)
        add(f"halfplanes.{n}", p, nk, max_paths=2000)
    none = lambda *k: []
    one = lambda u, v: [(u, v)]
    axes = lambda *k: [(S.One, S.Zero), (S.Zero, S.One)]
    skew = lambda u, v: [(S.One, u), (v, S.One)]
    opp = lambda u: [(S.One, u), (-S.One, -u)]
    three = lambda u: [(S.One, S.Zero), (u, S.One), (S.Zero, S.One)]
    add("biv.2.none", bivariate(form2(2), none), 3, fork=True)
    add("biv.2.one", bivariate(form2(2), one), 5, seeds=[at(1, -1, 1, 1, 1), at(1, 0, 2, 1, 0), at(1, 2, 1, 0, 1)])
    add("biv.1.one", bivariate(form2(1), one), 4, seeds=[at(1, -1, 1, -1), at(2, 4, 1, 2), at(1, 0, 1, 0), at(-1, 0, -2, 0)])
    add("biv.1.axes", bivariate(form2(1), axes), 2, fork=True)
    add("biv.2.axes", bivariate(form2(2), axes), 3, fork=True)
    add("biv.1.skew", bivariate(form2(1), skew), 4, seeds=[at(1, 1, 0, 0), at(1, 0, 2, 1), at(1, 3, 2, 0), at(0, -1, 0, -1)])
    add("biv.2.skew", bivariate(form2(2), skew), 5, seeds=[at(1, 1, 1, 0, 0), at(1, 0, 2, 2, 1), at(-1, 3, -2, -1, 3), at(1, -5, 7, -1, 2)])
    add("biv.3.skew", bivariate(form2(3, [0, 1, 3]), skew), 5, seeds=[at(1, 0, 1, 0, 0), at(1, -1, 1, 0, 1), at(2, 1, 3, -1, 0)])
    add("biv.3.axes", bivariate(form2(3), axes), 4, seeds=[at(1, -1, 0, 1), at(1, 1, 1, 1), at(1, 0, -1, 1), at(0, 1, -1, 1)])
    add("biv.4.none", bivariate(form2(4, [0, 1, 2, 4]), none), 4, seeds=[at(1, -1, 1, 1), at(1, 1, 0, 1), at(2, 0, -1, 1)])
    add("biv.4.one", bivariate(form2(4, [0, 2, 4]), one), 5, seeds=[at(1, -1, 1, 1, 2), at(1, 1, 1, 1, 0)])
    add("biv.2.opp", bivariate(form2(2), opp), 4, seeds=[at(1, 1, 1, 0), at(1, 2, 3, 1), at(1, 0, 0, 2)])
    add("biv.1.opp", bivariate(form2(1), opp), 3, seeds=[at(1, 1, 0), at(1, 2, 2), at(1, 0, 0)])
    add("biv.2.three", bivariate(form2(2), three), 4, seeds=[at(1, 1, 1, 1), at(1, 2, 3, -1), at(1, 0, 0, 2), at(-1, 0, 3, -2)])
    f2 = lambda *k: Poly(sp.expand((a - k[0]*b)**2*(k[1]*a + b)), a, b)
    add("biv.factored", bivariate((f2, 2), axes), 2, seeds=[at(1, 1), at(2, 0), at(-1, 3), at(1, -1)])
    f3 = lambda *k: Poly(sp.expand((k[0]*b - a)*(k[1]*b - a)*(a**2 + b**2)), a, b)
    add("biv.negative", bivariate((f3, 2), skew), 4, seeds=[at(-1, -1, 0, 0), at(-1, -2, 0, 0), at(2, 2, 0, 0)])
    for tag, cons_ in (("axes", axes), ("skew", skew)):
        off = 0 if cons_ is axes else 2
        s0 = () if off == 0 else (1, 2)
        add(f"biv.4.{tag}", bivariate((lambda *k, o=0: Poly(sp.expand(k[o]*a**4 - a**3*b + 5*a**2*b**2 + k[o + 1]*a*b**3 + 3*b**4), a, b), 2), cons_), off + 2, seeds=[at(1, -1, *s0), at(2, 1, *s0), at(3, -5, *s0)])
        add(f"biv.5.{tag}", bivariate((lambda *k, o=0: Poly(sp.expand(a**5 - k[o]*a**4*b + 3*a**3*b**2 + 2*a**2*b**3 - a*b**4 + k[o + 1]*b**5), a, b), 2), cons_), off + 2, seeds=[at(1, 1, *s0), at(2, 3, *s0), at(0, 5, *s0)])
        add(f"biv.6.{tag}", bivariate((lambda *k, o=0: Poly(sp.expand(a**6 - k[o]*a**5*b + 3*a**4*b**2 + 2*a**2*b**4 - a*b**5 + k[o + 1]*b**6), a, b), 2), cons_), off + 2, seeds=[at(1, 1, *s0), at(2, 3, *s0), at(0, 5, *s0)])
        # positive on the cone only
        cone = {axes: (), skew: (0, 0)}[cons_]
        for dg, ft in ((4, lambda *k: k[0]*a**4 + 7*a**3*b + a**2*b**2 + k[1]*a*b**3 + b**4), (5, lambda *k: k[0]*a**5 + 9*a**4*b + 2*a**3*b**2 + a**2*b**3 + k[1]*a*b**4 + 2*b**5),
                       (6, lambda *k: k[0]*a**6 + 11*a**5*b - a**4*b**2 + 5*a**3*b**3 + a**2*b**4 + k[1]*a*b**5 + 3*b**6)):
            add(f"biv.{dg}.cone.{tag}", bivariate((lambda *k, ft=ft: Poly(sp.expand(ft(*k)), a, b), 2), cons_), off + 2, seeds=[at(1, 1, *cone), at(2, 5, *cone), at(1, -1, *cone)])
    f4 = lambda *k: Poly(sp.expand((k[0]*b - a)**3*(k[1]*b - a)), a, b)
    add("biv.negative.cube", bivariate((f4, 2), skew), 4, seeds=[at(-1, -1, 0, 0), at(-1, -2, 0, 0), at(-2, -1, 0, 0), at(-3, -5, -1, 0)])
    f5 = lambda *k: Poly(sp.expand((k[0]*b - a)**3*(k[1]*b + a)**5*a), a, b)
    add("biv.odd.powers", bivariate((f5, 2), skew), 4, seeds=[at(-1, 1, 0, 0), at(-1, 2, 0, 0), at(-2, 1, 0, 0)])
    # pivoting
    t2 = [(2, 0), (1, 1), (0, 2)]
    add("piv.2", pivoting(t2, "x y", "x y"), 3, fork=True)
    add("piv.2.real", pivoting(t2, "x y", ""), 3, fork=True)
    add("piv.2.half", pivoting(t2, "x y", "y"), 3, fork=True)
    t3 = [(2, 0, 0), (1, 1, 0), (0, 2, 0), (0, 1, 1), (1, 0, 1), (0, 0, 2)]
    add("piv.3", pivoting(t3, "x y z", "x y z"), 6, seeds=[at(1, 1, 1, 1, 1, 1), at(1, -1, 1, 1, 1, 1), at(2, 1, -1, 1, 0, 3)])
    add("piv.3.z", pivoting([(2, 0, 0), (1, 1, 0), (0, 2, 0), (1, 0, 1), (0, 1, 1), (0, 0, 2), (0, 0, 1)], "x y z", "z"), 7, seeds=[at(1, -1, 1, 0, 0, 1, 2), at(1, 2, 1, 0, 0, 0, 1), at(1, 1, 1, 1, 1, 1, 1)])
    add("piv.uni", pivoting([(2,), (1,), (0,)], "x ,", "x"), 3, fork=True)
    add("piv.uni.real", pivoting([(4,), (2,), (1,), (0,)], "x ,", ""), 4, seeds=[at(1, 0, 1, 1), at(1, -1, 1, 2), at(0, 1, 1, 1)])
    add("piv.mixed", pivoting([(2, 2, 0), (1, 1, 1), (0, 0, 3), (1, 0, 2), (0, 3, 0)], "x y z", "x y z"), 5, fork=True)
    add("piv.sq", pivoting([(2, 0, 2), (1, 1, 2), (0, 2, 2), (0, 0, 4)], "x y z", ""), 4, fork=True)
    many = [(6, 8, 0), (4, 0, 8), (2, 1, 0), (1, 1, 1), (0, 0, 8)]
    add("piv.late", pivoting(many, "x y z", "y z"), 5, seeds=[at(1, 1, 1, 1, 1), at(1, 2, 0, 1, 1), at(1, 1, 1, 0, 1), at(2, 0, 1, -1, 1)])
    add("piv.late.2", pivoting([(8, 9, 0), (6, 0, 9), (4, 2, 0), (2, 2, 0), (3, 2, 2), (0, 4, 4)], "x y z", "y z"), 6, seeds=[at(1, 1, 1, 1, 1, 1), at(1, 1, 1, 1, 0, 1), at(2, 0, 1, 3, -1, 1)])
    return out
