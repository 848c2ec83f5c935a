"""SDPSOS: from Gram matrices to a proof; semidefinite problems and their transformations."""
import itertools
import numpy as np
import sympy as sp
from sympy import S, Poly, Matrix, Rational, Symbol, Function, symbols
from symx.case import LemmaCase
from symx import stubs, rt
from props import c07, c10
from props.c10 import value, check, orbit_sum, manager, cyc, symm, tri

SS = "triples.core.sdpsos.sdpsos:"
SD = "triples.sdp."
a, b, c, d = symbols("a b c d")
G3 = (a, b, c)


# ---- stand-ins ------------------------------------------------------------------------------
class ExactDomains:
    """sympy, whose ZZ also equals the domain symbolic coefficients have"""
    class Z:
        def __getattr__(self, n):
            return getattr(sp.ZZ, n)

        def __eq__(self, o):
            return o == sp.ZZ or (rt.ENGINE is not None and rt.ENGINE.symbolic_domain(o))

        def __hash__(self):
            return hash(sp.ZZ)
    ZZ = Z()

    def __getattr__(self, n):
        return getattr(sp, n)


def big(cast, rep, *x, **kw):
    if rt.ENGINE is not None and rep.domain == sp.EXRAW:
        raise OverflowError("Python int too large to convert to C long")
    return cast(rep, *x, **kw)


def exact(M):
    return Matrix(M.rows, M.cols, [sp.sympify(x).xreplace(rt.ENGINE.shadow) for x in M])


def numeric_sdp(orig, x0_and_space, *args, **kw):
    """The numerical solver at the path's witness: its answer is only a proposal for the
    code that follows."""
    E = rt.ENGINE
    if E is None or not any(E.touches(m.free_symbols) for xs in x0_and_space.values() for m in xs):
        return orig(x0_and_space, *args, **kw)
    def run():
        r = orig({k: tuple(exact(m) for m in xs) for k, xs in x0_and_space.items()}, *args, **kw)
        return None if r is None else [float(x) for x in np.asarray(r).flatten()]
    r = stubs.oracle(run, alts=[("c", None)])
    return None if r is None else np.array([float(x) for x in r])


def prepare():
    c07.prepare()
    stubs.REPL[SD + "dual:solve_numerical_dual_sdp"] = numeric_sdp
    stubs.install()
    import importlib
    importlib.import_module("triples.core.sdpsos.sdpsos").sp = ExactDomains()
    # coefficient vectors have expressions as entries
    from triples.utils import monomials
    vec = monomials.MonomialManager.arraylize_sp

    def entries_(self, *x, **kw):
        M = vec(self, *x, **kw)
        if rt.ENGINE is not None and rt.ENGINE.symbolic_domain(M._rep.domain):
            M = Matrix(M.rows, M.cols, [M._rep.domain.to_sympy(e) if not isinstance(e, sp.Expr) else e for e in M._rep.to_list_flat()])
        return M
    monomials.MonomialManager.arraylize_sp = entries_
    # matrices with symbolic entries take the path of numbers that exceed 64 bits; the
    # 64-bit products are C07's
    m = importlib.import_module(SD + "arithmetic")
    cast = m._cast_sympy_matrix_to_numpy
    m._cast_sympy_matrix_to_numpy = lambda rep, *x, **kw: big(cast, rep, *x, **kw)


class Roots:
    """Stands for the numerical search for equality cases: the given points, or none."""
    points = ()

    def __init__(self, poly, symmetry=None):
        self.poly, self.sym = poly, symmetry

    def nullspace(self, con, ineqs=(), eqs=()):
        m = self.sym.base()
        n = len(self.poly.gens)
        vecs = []
        half = (self.poly.total_degree() - con.total_degree()) // 2
        mons = m.inv_monoms(half)
        for p in self.points:
            if con(*p) == 0:
                continue        # the multiplier vanishes there: nothing is implied
            vecs.append(Matrix([sp.Mul(*[x**e for x, e in zip(p, mm)]) for mm in mons]))
        return Matrix.hstack(*vecs) if vecs else sp.zeros(len(mons), 0)


def roots(points):
    return type("RootSubspace", (Roots,), {"points": points})


class planted:
    """the module with the search for equality cases replaced"""

    def __init__(self, points):
        self.p = points

    def __enter__(self):
        import importlib
        self.m = importlib.import_module("triples.core.sdpsos.sdpsos")
        self.o = self.m.RootSubspace
        self.m.RootSubspace = roots(self.p)

    def __exit__(self, *e):
        self.m.RootSubspace = self.o


def same(L, lab, X, Y):
    L.true(lab + ": shape", X.shape == Y.shape, f"{X.shape} {Y.shape}")
    if X.shape == Y.shape:
        for i, (x, y) in enumerate(zip(X, Y)):
            L.eq(f"{lab}: entry {i}", x, y, gens=())


# ---- from Gram matrices to an expression -------------------------------------------------------
def decomp(i, grp, n=3):
    """symbolic factors U, weights S and multipliers of the equalities"""
    gens = (a, b, c, d)[:n]
    deg, keys, eqs = DEC[i]

    def prog(L, *k):
        sy = manager(L, n, grp)
        it = itertools.cycle(k)
        dec, I, want, names = {}, {}, S.Zero, {}
        for j, (q, rows) in enumerate(keys):
            q = sp.sympify(q)
            key = Poly(q, *gens)
            if not q.is_number:
                I[key] = Function(f"C{j}")(*gens)
                names[f"C{j}"] = lambda *x, q=q: q.xreplace(dict(zip(gens, x)))
            mons = sy.base().inv_monoms((deg - key.total_degree()) // 2)
            U = Matrix(rows, len(mons), lambda r, s: 0 if s < r else 1 if s == r else next(it) if (r + s) % 3 != 2 else 0)
            Ss = Matrix([next(it) + j for r in range(rows)])
            dec[key] = (U, Ss)
            v = U * Matrix([sp.Mul(*[g**e for g, e in zip(gens, m)]) for m in mons])
            e = I.get(key, q)
            want += sum(s * e * x**2 for s, x in zip(Ss, v))
        ev, Q = {}, {}
        for j, q in enumerate(eqs):
            q = sp.sympify(q)
            key = Poly(q, *gens)
            Q[key] = Function(f"E{j}")(*gens)
            names[f"E{j}"] = lambda *x, q=q: q.xreplace(dict(zip(gens, x)))
            mons = sy.base().inv_monoms(deg - key.total_degree())
            vec = Matrix([next(it) * (-1)**s for s in range(len(mons))])
            ev[key] = vec
            want += Q[key] * sum(x * sp.Mul(*[g**e for g, e in zip(gens, m)]) for x, m in zip(vec, mons))
        for w in {x for _, Ss in dec.values() for x in Ss}:
            L.assume(">=", w)
        f = L.use("triples.core.sdpsos.solution:SolutionSDP")
        sol = f.from_decompositions(Poly(sum(g**deg for g in gens), *gens), dec, ev, sy, ineq_constraints=I, eq_constraints=Q)
        L.note("ok")
        e = sol.solution
        want = orbit_sum(want, gens, sy.perm_group)
        w, bw = value(want, names)
        r, br = value(e, names)
        L.eq("value", r.xreplace(br), w.xreplace(bw), gens=gens)
        if not eqs:
            L.signs("sign", r, set(br))
    return prog


DEC = [
    (2, [(1, 2)], []),
    (3, [(a + 2*b, 2)], [a*b - c**2]),
    (4, [(1, 2), (a*b, 2)], []),
    (4, [(1, 1), (a*b + c**2, 1)], [a + b - 2*c]),
    (3, [(a, 2), (a*b*c, 1), (a + b + c, 1)], []),
]


# ---- Gram matrices of a polynomial ---------------------------------------------------------------
def gram(terms, grp, cons, eqs=(), n=3, points=(), ny=4, deparam=True):
    """the coefficients and the point y of the parametrised Gram matrices are symbols"""
    gens = (a, b, c, d)[:n]

    def prog(L, *k):
        ks, ys = k[:len(terms)], k[len(terms):]
        P = Poly(sp.expand(sum(x * t for x, t in zip(ks, terms))), *gens)
        if P.is_zero:
            return
        sy = manager(L, n, grp)
        with planted(points):
            pr = L.use(SS + "SOSProblem")(P, sy)
            I, Q, names = {}, {}, {}
            for tgt, lst, w in ((I, cons, "C"), (Q, eqs, "E")):
                for j, q in enumerate(lst):
                    q = sp.sympify(q)
                    if q.is_number:
                        tgt[Poly(q, *gens)] = q
                        continue
                    tgt[Poly(q, *gens)] = Function(f"{w}{j}")(*gens)
                    names[f"{w}{j}"] = lambda *x, q=q: q.xreplace(dict(zip(gens, x)))
            try:
                pr.construct([sp.sympify(q) for q in cons], [sp.sympify(q) for q in eqs], deparametrize=deparam)
            except ValueError as e:
                L.note("infeasible")
                return
            dof = pr.dof
            L.true("enough inputs", dof <= len(ys), str(dof))
            if dof > len(ys):
                return
            try:
                sol = pr.as_solution(y=Matrix(dof, 1, list(ys[:dof])), ineq_constraints=dict(I), eq_constraints=dict(Q))
            except ValueError:
                L.note("refused")
                return
        L.note(f"dof {dof}")
        L.true("exact", sol.is_equal is True or L.symbolic)
        check(L, "proof", sol.solution, P.as_expr(), {nm: f for nm, f in names.items() if nm[0] == "C"}, {nm: f for nm, f in names.items() if nm[0] == "E"}, gens=gens)
    return prog


GRAM = [
    # name, terms, group, constraints, equalities, n, points, number of y
    ("2.free", [a**2, a*b, b**2], "trivial", [1], [], 2, (), 1),
    ("2.sym3", [cyc((2, 0, 0)), cyc((1, 1, 0))], "sym", [1], [], 3, (), 2),
    ("2.ab", [cyc((2, 0, 0)), cyc((1, 1, 0))], "cyc", [1, a*b], [], 3, (), 2),
    ("2.dup", [a**2, a*b, b**2], "trivial", [1, a*b, b*a], [], 2, (), 3),
    ("3.bin", [a**3, a**2*b, a*b**2, b**3], "trivial", [a, b], [], 2, (), 3),
    ("3.dup", [a**3, a**2*b, a*b**2, b**3], "trivial", [a, a*b**2, b, a*b**2], [], 2, (), 5),
    ("3.eq", [a**3, a**2*b, a*b**2, b**3], "trivial", [a], [a - 2*b], 2, (), 5),
    ("2.eqhigh", [a**2, a*b, b**2], "trivial", [1], [a**3 - b**3], 2, (), 2),
    ("2.eqs", [a**2, a*b, b**2], "trivial", [1, a*b], [a - b, a**2 - b**2, a - b], 2, (), 6),
    ("3.lin", [cyc((3, 0, 0)), cyc((2, 1, 0)), cyc((1, 2, 0)), a*b*c], "cyc", [a], [], 3, ((1, 1, 1),), 4),
    ("4.bin", [a**4, a**3*b, a**2*b**2, a*b**3, b**4], "trivial", [1], [], 2, (), 2),
    ("4.binmod", [a**4, a**3*b, a**2*b**2, a*b**3, b**4], "trivial", [1, a*b], [], 2, (), 4),
    ("4.zero", [a**4, a**3*b, a**2*b**2], "trivial", [1, a*b, 2*a - b**1*0], [], 2, (), 4),
    ("4.root", [a**4 - a**3*b, a**3*b - a**2*b**2, a**2*b**2 - a*b**3, a*b**3 - b**4], "trivial", [1, a*b], [], 2, ((1, 1),), 4),
    ("4.eq", [a**4, a**3*b, a**2*b**2, a*b**3, b**4], "trivial", [1], [a**2 - 2*b**2], 2, (), 4),
    ("4.sym2", [symm((4, 0), (a, b)), symm((3, 1), (a, b)), a**2*b**2], "sym", [1, a*b], [], 2, (), 4),
    ("2.four", [symm((2, 0, 0, 0), (a, b, c, d)), symm((1, 1, 0, 0), (a, b, c, d))], "sym", [1, a*b], [], 4, (), 2),
    ("4.sym3", [symm((4, 0, 0)), symm((2, 2, 0)), symm((2, 1, 1))], "sym", [a*b, (a - b)**2], [], 3, (), 8),
]


# ---- the certificate exists, so the problem must be accepted ------------------------------------------
def feasible(build, grp, cons, eqs=(), n=3, points=()):
    gens = (a, b, c, d)[:n]

    def prog(L, *k):
        sy = manager(L, n, grp)
        e, dec = build(*k)
        P = Poly(sp.expand(orbit_sum(e, gens, sy.perm_group)), *gens)
        if P.is_zero:
            return
        with planted(points):
            pr = L.use(SS + "SOSProblem")(P, sy)
            try:
                pr.construct([sp.sympify(q) for q in cons], [sp.sympify(q) for q in eqs])
            except ValueError as ex:
                L.impossible("a sum of squares was refused", [(o, x) for o, x in dec])
                return
        L.note("ok")
    return prog


# ---- solving, with the numerical solver as a proposal ---------------------------------------------------
def whole(terms, grp, cons, eqs=(), n=3, points=(), pre="linear-progressive", trivial=True):
    """cons: list of (function name, meaning, list of argument tuples)"""
    gens = (a, b, c, d)[:n]

    def prog(L, *k):
        P = Poly(sp.expand(sum(x * t for x, t in zip(k, terms))), *gens)
        if P.is_zero:
            return
        sy = manager(L, n, grp)
        I = {Poly(fn(*x), *gens): Function(nm)(*x) for nm, fn, args in cons for x in args}
        Q = {Poly(fn(*x), *gens): Function(nm)(*x) for nm, fn, args in eqs for x in args}
        with planted(points):
            sol = L.use(SS + "_SDPSOS")(P, ineq_constraints=dict(I), eq_constraints=dict(Q), symmetry=sy, preordering=pre, ineq_constraints_with_trivial=trivial)
        if sol is None:
            L.note("None")
            return
        L.note("solution")
        check(L, "proof", sol.solution, P.as_expr(), {nm: fn for nm, fn, _ in cons}, {nm: fn for nm, fn, _ in eqs}, gens=gens)
    return prog


def V(n=3):
    return ("G", lambda x: x, [(g,) for g in (a, b, c, d)[:n]])


WHOLE = [
    ("2", [a**2, a*b, b**2], "trivial", [], (), 2, (), [(1, -1, 1), (1, 3, 1), (2, -2, 1), (1, 2, 1)]),
    ("2.pos", [a**2, a*b, b**2], "trivial", [V(2)], (), 2, (), [(1, -1, 1), (1, 3, 1), (0, 1, 0)]),
    ("2.sym", [cyc((2, 0, 0)), cyc((1, 1, 0))], "sym", [], (), 3, (), [(1, 0), (2, -1), (1, 1)]),
    ("3", [cyc((3, 0, 0)), cyc((2, 1, 0)), cyc((1, 2, 0)), a*b*c], "cyc", [V()], (), 3, (), [(1, 0, 0, 0), (1, -1, 1, 0), (1, 1, -1, 3)]),
    ("3.dup", [a**3, a**2*b, a*b**2, b**3, a*b*c], "trivial", [("G", lambda x: x, [(a,), (b,)]), ("K", lambda x, y: x*y, [(a, c), (b, c)])], (), 3, (), [(1, -1, 0, 1, -1), (1, -2, 1, 0, -1), (1, -1, 0, 1, 1)]),
    ("3.tri", [cyc((3, 0, 0)), symm((2, 1, 0)), a*b*c], "sym", [("T", tri, [(a, b, c), (b, c, a), (c, a, b)])], (), 3, (), [(-1, 1, -1), (1, 0, -3), (-1, 1, -2)]),
    ("4.root", [cyc((4, 0, 0)) - cyc((2, 1, 1)), cyc((2, 2, 0)) - cyc((2, 1, 1)), symm((3, 1, 0)) - 2*cyc((2, 1, 1))], "sym", [], (), 3, ((1, 1, 1),), [(1, 0, 0), (1, 1, -1), (1, 2, 0)]),
    ("4.bin", [a**4, a**3*b, a**2*b**2, a*b**3, b**4], "trivial", [], (), 2, (), [(1, 0, 0, 0, 1), (1, -1, 1, -1, 1), (1, -4, 6, -4, 2)]),
    ("2.eq", [a**2, a*b, b**2], "trivial", [V(2)], [("H", lambda x, y: x - y, [(a, b)])], 2, (), [(1, -3, 3), (1, -1, 1), (-1, -1, 2)]),
    ("3.eqhigh", [a**3, a**2*b, a*b**2, b**3], "trivial", [V(2)], [("H", lambda x, y: x**4 - y**4, [(a, b)]), ("K", lambda x, y: x - 2*y, [(a, b)])], 2, (), [(1, -1, 0, 1), (1, -3, 1, 1)]),
]


# ---- semidefinite problems -------------------------------------------------------------------------------
p, q, r, s, t, u = symbols("p q r s t u")


def start(f):
    """with a fresh record of the 64-bit products"""
    def prog(L, *k):
        c07.start(L)
        return f(L, *k)
    return prog


def accept(L, sdp, y):
    """register y at the last child; the parents must agree"""
    ch = sdp.get_last_child()
    try:
        ch.register_y(y, propagate_to_parent=False)
    except ValueError:
        L.note("refused")
        L.impossible("refused a positive semidefinite matrix", [x for M in ch.S_from_y(y).values() for x in c07.psd_conds(M)])
        return False
    ch.propagate_to_parent(recursive=True)
    return True


def registered(L, sdp, lab):
    """y, S and the decompositions of a problem agree, and every matrix is semidefinite"""
    Sy = sdp.S_from_y(sdp.y)
    L.true(lab + ": keys", set(Sy) == set(sdp.S) == set(sdp.decompositions))
    for key, M in Sy.items():
        same(L, f"{lab}: matrix {key}", sdp.S[key], M)
        U, D = sdp.decompositions[key]
        n = M.rows
        same(L, f"{lab}: decomposition {key}", U.T * sp.diag(*list(D)) * U if len(D) else sp.zeros(n, n), M)
        for x in D:
            L.ge(f"{lab}: weight", x)
            if sp.sympify(x).is_number:
                L.true(f"{lab}: weight", x >= 0)


def linear(mats, step, claim, ny, dof):
    """the child of a step that only restricts the unknowns: every point of it satisfies the request"""
    def prog(L, *k):
        ks, ys = k[:-ny], k[-ny:]
        P = L.use(SD + "dual:SDPProblem")
        Ms = mats(*ks)
        unknowns = sorted({x for M in Ms.values() for x in M.free_symbols} & {p, q, r, s, t, u}, key=str)
        sdp = problem(P, Ms, unknowns)
        try:
            ch = getattr(sdp, step[0])(*(step[1](*ks) if step[1] else ()))
        except ValueError:
            L.note("infeasible")
            return
        L.true("keeps the freedom that is left", ch.dof == dof, str(ch.dof))
        if ch.dof > len(ys):
            return
        S_ = ch.S_from_y(Matrix(ch.dof, 1, list(ys[:ch.dof])))
        claim(L, S_, *ks)
        sol = {}
        for key, M in Ms.items():       # the values are those of one point of the problem itself
            for i in range(M.rows):
                for j in range(M.cols):
                    if M[i, j] in unknowns:
                        sol.setdefault(M[i, j], S_[key][i, j])
        L.true("every unknown is an entry", set(sol) == set(unknowns))
        for key, M in Ms.items():
            same(L, f"value {key}", M.xreplace(sol), S_[key])
    return prog


def transform(mats, steps, ny=3, form="matrix"):
    """mats(k) -> {name: matrix over unknowns}; steps: list of (method, arguments(k), claims(S, k))"""
    def prog(L, *k):
        ks, ys = k[:-ny], k[-ny:]
        P = L.use(SD + "dual:SDPProblem")
        Ms = mats(*ks)
        if form == "matrix":
            unknowns = sorted({x for M in Ms.values() for x in M.free_symbols} & {p, q, r, s, t, u}, key=str)
            sdp = problem(P, Ms, unknowns)
        else:
            sdp = form(P, *ks)
        claims = []
        cur = sdp
        for name, args, cl in steps:
            kw = {}
            ar = args(*ks) if args else ()
            if isinstance(ar, tuple) and len(ar) and isinstance(ar[-1], dict) and "to_child" in ar[-1]:
                ar, kw = ar[:-1], ar[-1]
            try:
                cur = getattr(sdp if kw.get("to_child") else cur, name)(*ar, **kw)
            except ValueError as e:
                L.note("infeasible")
                return
            claims.append(cl)
        ch = sdp.get_last_child()
        L.true("enough inputs", ch.dof <= len(ys), str(ch.dof))
        if ch.dof > len(ys):
            return
        if not accept(L, sdp, Matrix(ch.dof, 1, list(ys[:ch.dof]))):
            return
        L.note("registered")
        node = ch
        seen = 0
        while True:
            registered(L, node, f"node {seen}")
            seen += 1
            ps = node.parents
            if not ps:
                break
            node = ps[-1]
        L.true("reaches the problem", node is sdp)
        if form == "matrix":
            vals = sdp.as_params()
            for key, M in Ms.items():
                same(L, f"value {key}", M.xreplace(vals), sdp.S[key])
        for cl in claims:
            if cl:
                cl(L, sdp.S, *ks)
    return prog


def problem(P, Ms, unknowns):
    """the problem of matrices over the unknowns (the coefficients being numbers)"""
    return P.from_matrix(Ms)


def kills(key, N):
    def f(L, Sd, *k):
        M = Sd[key] * Matrix(N(*k))
        for i, x in enumerate(M):
            L.eq(f"nullspace {key} {i}", x, 0, gens=())
    return f


def zero_rows(key, rows):
    def f(L, Sd, *k):
        for i in rows:
            for x in Sd[key][i, :]:
                L.eq(f"row {i} of {key}", x, 0, gens=())
    return f


def symmetric(*keys):
    def f(L, Sd, *k):
        for key in keys:
            M = Sd[key]
            for i in range(M.rows):
                for j in range(i):
                    L.eq(f"symmetric {key} {i}{j}", M[i, j], M[j, i], gens=())
    return f


def equal(key, pairs):
    def f(L, Sd, *k):
        for x, y in pairs:
            L.eq(f"entries {x} {y}", Sd[key][x], Sd[key][y], gens=())
    return f


def full(*names):
    """a generic symmetric matrix over unknowns"""
    n = {1: 1, 3: 2, 6: 3}[len(names)]
    M = sp.zeros(n, n)
    it = iter(names)
    for i in range(n):
        for j in range(i, n):
            M[i, j] = M[j, i] = next(it)
    return M


TR = [
    # name, matrices, steps, number of k, number of y
    ("null", lambda x, y: {"A": full(p, q, r, s, t, u)}, [("constrain_nullspace", lambda x, y: ({"A": Matrix([1, x, y])},), kills("A", lambda x, y: [1, x, y]))], 2, 3),
    ("null2", lambda x: {"A": full(p, q, r, s, t, u)}, [("constrain_nullspace", lambda x: ({"A": Matrix([1, x, 1])},), kills("A", lambda x: [1, x, 1])), ("constrain_nullspace", lambda x: ({"A": Matrix([2, 1, 0])}, {"to_child": True}), kills("A", lambda x: [2, 1, 0]))], 1, 1),
    ("null2.second", lambda x: {"A": full(p, q, r, s, t, u)}, [("constrain_nullspace", lambda x: ({"A": Matrix([1, 1, 1])},), kills("A", lambda x: [1, 1, 1])), ("constrain_nullspace", lambda x: ({"A": Matrix([2, 1, x])}, {"to_child": True}), kills("A", lambda x: [2, 1, x]))], 1, 3),
    ("nullwide", lambda x, y: {"A": full(p, q, r, s, t, u)}, [("constrain_nullspace", lambda x, y: ({"A": Matrix([[1, x], [x, 1], [0, y]])},), kills("A", lambda x, y: [[1, x], [x, 1], [0, y]]))], 2, 3),
    ("two", lambda x, y: {"A": full(p, q, r), "B": full(q + x, s, p - y*r)}, [("constrain_nullspace", lambda x, y: ({"A": Matrix([1, x]), "B": sp.zeros(2, 0)},), kills("A", lambda x, y: [1, x]))], 2, 3),
    ("both", lambda x, y: {"A": full(p, q, r), "B": full(q + x, s, t)}, [("constrain_nullspace", lambda x, y: ({"A": Matrix([1, x]), "B": Matrix([y, 1])},), lambda L, Sd, x, y: (kills("A", lambda x, y: [1, x])(L, Sd, x, y), kills("B", lambda x, y: [y, 1])(L, Sd, x, y)))], 2, 3),
    ("sub", lambda x, y: {"A": full(p, q, r, s, t, u)}, [("constrain_subspace", lambda x, y: ({"A": Matrix([[1, 0], [x, 1], [0, y]])},), kills("A", lambda x, y: [x*y, -y, 1]))], 2, 3),
    ("sub.only", lambda x, y: {"A": full(p, q, r)}, [("constrain_subspace", lambda x, y: ({"A": Matrix([x, y])},), kills("A", lambda x, y: [-y, x]))], 2, 3),
    ("zero", lambda x, y: {"A": Matrix([[0, q + x*p, r], [q + x*p, s, t], [r, t, y + p]])}, [("constrain_zero_diagonals", None, zero_rows("A", [0]))], 2, 3),
    ("zeros", lambda x, y: {"A": Matrix([[0, p - x, q], [p - x, p - x, t], [q, t, y + s]])}, [("constrain_zero_diagonals", None, zero_rows("A", [0, 1]))], 2, 3),
    ("zeros.two", lambda x, y: {"A": Matrix([[0, p - q*x], [p - q*x, s]]), "B": Matrix([[p - x*q, r], [r, t + y]])}, [("constrain_zero_diagonals", None, lambda L, Sd, *k: (zero_rows("A", [0])(L, Sd), zero_rows("B", [0])(L, Sd)))], 2, 3),
    ("zero.null", lambda x, y: {"A": Matrix([[0, p, q, p], [p, r, s, t], [q, s, u, 1 + x], [p, t, 1 + x, y]])}, [("constrain_zero_diagonals", None, zero_rows("A", [0])), ("constrain_nullspace", lambda x, y: ({"A": Matrix([5, 1, 0, 0])}, {"to_child": True}), kills("A", lambda x, y: [5, 1, 0, 0]))], 2, 3),
    ("null.zero", lambda x, y: {"A": full(p, q, r, s, t, u)}, [("constrain_nullspace", lambda x, y: ({"A": Matrix([1, x, 0])},), kills("A", lambda x, y: [1, x, 0])), ("constrain_zero_diagonals", None, None)], 2, 3),
    ("symmetry", lambda x, y: {"A": Matrix([[p, q], [r + x, s]]), "B": Matrix([[q, y], [t, r]])}, [("constrain_symmetry", None, symmetric("A", "B"))], 2, 4),
    ("symmetry.null", lambda x, y: {"A": Matrix([[p, q], [x*r, s]])}, [("constrain_symmetry", None, symmetric("A")), ("constrain_nullspace", lambda x, y: ({"A": Matrix([y, 1])}, {"to_child": True}), kills("A", lambda x, y: [y, 1]))], 2, 3),
    ("equal", lambda x, y: {"A": Matrix([[p, q, x], [q, r, s + y], [x, s + y, t]])}, [("constrain_equal_entries", lambda x, y: ({"A": [((0, 0), (1, 1)), ((0, 1), (1, 2)), ((2, 2), (2, 2))]},), equal("A", [((0, 0), (1, 1)), ((0, 1), (1, 2))]))], 2, 3),
    ("equal.null", lambda x, y: {"A": full(p, q, r, s, t, u)}, [("constrain_equal_entries", lambda x, y: ({"A": [((0, 0), (1, 1)), ((1, 1), (2, 2))]},), equal("A", [((0, 0), (1, 1)), ((0, 0), (2, 2))])), ("constrain_nullspace", lambda x, y: ({"A": Matrix([1, x, y])}, {"to_child": True}), kills("A", lambda x, y: [1, x, y]))], 2, 2),
    ("plain", lambda x, y: {"A": Matrix([[x + p, q, 0], [q, 2, y*p - 1], [0, y*p - 1, q + 3]]), "B": Matrix([[x]])}, [], 2, 2),
]


def entries(L, *k):
    """problems given as vectors and as equations"""
    P = L.use(SD + "dual:SDPProblem")
    x0 = Matrix(list(k[:5]))
    x0 = Matrix([k[0], k[1], k[1], k[2], k[3]])
    sps = Matrix([[1, k[4]], [k[0], 0], [k[0], 0], [0, 2], [k[1], 1]])
    sdp = P.from_full_x0_and_space(x0, sps, {"A": 2, "B": 1})
    L.true("keys", list(sdp.keys()) == ["A", "B"] and sdp.size == {"A": 2, "B": 1} and sdp.dof == 2)
    v = x0 + sps * Matrix([k[2], k[3]])
    M = sdp.S_from_y(Matrix([k[2], k[3]]))
    same(L, "A", M["A"], v[:4, :].reshape(2, 2))
    same(L, "B", M["B"], v[4:, :].reshape(1, 1))
    sy = sdp.S_from_y()
    fs = dict(zip(sdp.free_symbols, (k[2], k[3])))
    same(L, "symbolic A", sy["A"].xreplace(fs), M["A"])
    same(L, "row vector", sdp.S_from_y(Matrix([[k[2], k[3]]]))["A"], M["A"])
    same(L, "dict", sdp.S_from_y(fs)["A"], M["A"])
    same(L, "partial dict", sdp.S_from_y({sdp.free_symbols[0]: k[2]})["A"].xreplace(fs), M["A"])


def equations(rows, splits, ny=3):
    """eq * [vec(S1); vec(S2)] = rhs: every point of the problem satisfies the equations"""
    def prog(L, *k):
        ks, ys = k[:-ny], k[-ny:]
        env = {f"k{i}": x for i, x in enumerate(ks)}
        A = Matrix([[env.get(x, x) if isinstance(x, str) else x for x in row] for row in rows])
        P = L.use(SD + "dual:SDPProblem")
        try:
            sdp = P.from_equations(A[:, :-1], A[:, -1:], splits)
        except ValueError:
            L.note("infeasible")
            return
        L.true("enough inputs", sdp.dof <= ny, str(sdp.dof))
        Sd = sdp.S_from_y(Matrix(sdp.dof, 1, list(ys[:sdp.dof])))
        L.note(sdp.dof)
        v = Matrix([x for M in Sd.values() for x in M])
        res = A[:, :-1] * v - A[:, -1:]
        for i, x in enumerate(res):
            L.eq(f"equation {i}", x, 0, gens=())
        symmetric(*Sd)(L, Sd)
    return prog


def primal(rows, splits, steps=(), dual=False, ny=None):
    """symmetric equations of a primal problem, a symmetric candidate, projected and registered"""
    def prog(L, *k):
        n2 = sum(m * (m + 1) // 2 for m in splits.values())
        env = {f"k{i}": x for i, x in enumerate(k)}
        A = Matrix([[env.get(x, x) if isinstance(x, str) else x for x in row] for row in rows])
        P = L.use(SD + "primal:SDPPrimal")
        x0 = A[:, -1:]
        sdp = P.from_full_x0_and_space(x0, A[:, :-1], dict(splits))
        L.true("size", sdp.size == splits and sdp.dof == sum(m * m for m in splits.values()))
        sy = sdp.S_from_y()
        for key, m in splits.items():
            L.true("symbols", sy[key].shape == (m, m) and sy[key] == sy[key].T and len(sy[key].free_symbols) == m * (m + 1) // 2)
        for name, args in steps:
            try:
                getattr(sdp, name)(*(args(*k) if args else ()), **({"to_child": True} if name == "constrain_nullspace" else {}))
            except ValueError:
                L.note("infeasible")
                return
        ch = sdp.get_last_child()
        ys = []
        it = itertools.cycle(k)
        for key, m in ch.size.items():
            M = sp.zeros(m, m)
            for i in range(m):
                for j in range(i, m):
                    M[i, j] = M[j, i] = next(it) + i + j if ch.is_primal else 0
            ys.extend(list(M))
        y = Matrix(len(ys), 1, ys)
        if not ch.is_primal:
            y = Matrix(ch.dof, 1, [next(it) for _ in range(ch.dof)])
        try:
            ch.register_y(y)
        except ValueError as e:
            L.note("refused")
            return
        L.note("registered")
        registered(L, sdp, "problem")
        v = A[:, :-1] * sdp.y - x0
        for i, x in enumerate(v):
            L.eq(f"equation {i}", x, 0, gens=())
        for name, args in steps:
            if name == "constrain_nullspace":
                for key, N in args(*k)[0].items():
                    for i, x in enumerate(sdp.S[key] * N):
                        L.eq(f"nullspace {key} {i}", x, 0, gens=())
    return prog


PR = [
    ("trace", [["k0", 0, 0, 1, "k1"]], {"A": 2}, (), 4),
    ("two", [[1, "k0", "k0", 0, 0, 2], [0, 0, 0, 1, -1, "k1"]], {"A": 2, "B": 1}, (), 4),
    ("dependent", [[1, 0, 0, 1, "k0"], [2, 0, 0, 2, "k1"]], {"A": 2}, (), 4),
    ("square", [[1, 0, 0, 0, "k0"], [0, 1, 1, 0, "k1"], [0, 1, 1, 0, "k1"], [0, 0, 0, 1, 2]], {"A": 2}, (), 4),
    ("null", [[1, 0, 0, 1, "k0"]], {"A": 2}, [("constrain_nullspace", lambda *k: ({"A": Matrix([1, k[1]])},))], 4),
    ("zero", [[1, 0, 0, 0, 0, 0], [0, 1, 1, 1, 0, "k0"], [0, 0, 0, 0, 1, "k1"]], {"A": 2, "B": 1}, [("constrain_zero_diagonals", None)], 4),
    ("notzero", [[1, 2, 2, 0, 0], [0, 0, 0, 1, "k0"]], {"A": 2}, [("constrain_zero_diagonals", None)], 4),
    ("notzero.upper", [[1, 2, 0, 0, 0]], {"A": 2}, [("constrain_zero_diagonals", None)], 4),
    ("dual", [["k0", 0, 0, 1, "k1"], [0, 1, 1, 0, 1]], {"A": 2}, [("to_dual", None)], 4),
    ("dual.two", [[1, "k0", "k0", 0, 2, 2]], {"A": 2, "B": 1}, [("to_dual", None)], 5),
]


def solve(mats, objective=None, constraints=None, steps=()):
    """SDPProblem.solve: what it reports as solved is solved"""
    def prog(L, *k):
        P = L.use(SD + "dual:SDPProblem")
        Ms = mats(*k)
        sdp = P.from_matrix(Ms)
        for name, args in steps:
            try:
                getattr(sdp, name)(*(args(*k) if args else ()))
            except ValueError:
                return
        Err = L.use(SD + "abstract:SDPRationalizeError")
        try:
            ok = sdp.solve()
        except Err:
            L.note("not rational")
            return
        L.note(ok)
        if not ok:
            L.true("nothing is claimed", sdp.y is None)
            return
        registered(L, sdp, "problem")
        vals = sdp.as_params()
        for key, M in Ms.items():
            same(L, f"value {key}", M.xreplace(vals), sdp.S[key])
    return prog


SOLVE = [
    ("doc", lambda x, y: {"A": Matrix([[p + x, 0, q], [0, 2, -p - y], [q, -p - y, 2]])}, (), [(1, 1), (2, 1), (1, 0)], 2),
    ("fixed", lambda x, y: {"A": Matrix([[x, y], [y, 1]])}, (), [(1, 0), (1, 1), (4, 2), (1, 2)], 2),
    ("two", lambda x, y: {"A": Matrix([[p, x], [x, q]]), "B": Matrix([[y - p, 0], [0, 3 - q]])}, (), [(1, 2), (0, 1), (1, 3)], 2),
    ("null", lambda x, y: {"A": Matrix([[p, q, x], [q, r, y], [x, y, 2]])}, [("constrain_nullspace", lambda x, y: ({"A": Matrix([1, 1, 0])},))], [(1, -1), (0, 0), (2, -2)], 2),
    ("zero", lambda x, y: {"A": Matrix([[0, p - x, q], [p - x, p + y, 1], [q, 1, 2]])}, [("constrain_zero_diagonals", None)], [(1, 1), (0, 1), (2, 0)], 2),
]


def cases(tier):
    qk = tier == "quick"
    kw = dict(max_paths=40 if qk else 400, budget_s=20 if qk else 240, path_s=15 if qk else 60, query_ms=3000, validate=4)
    out = []
    free = lambda *k: {"A": Matrix([[p, q], [r, s]])}
    free3 = lambda x, y: {"A": Matrix([[p, q, r], [s, t, y], [u, x + p, q]])}

    def add(name, prog, nk, **k):
        out.append(LemmaCase(name, start(prog), nk, k.pop("gens", ""), **{**kw, **k}))
    for i in range(len(DEC)):
        for g in ("trivial", "cyc", "sym"):
            add(f"decomp.{i}.{g}", decomp(i, g), 4, fork=True, gens="a b c")
    add("decomp.0.four", decomp(0, "cyc", 4), 4, fork=True, gens="a b c d")
    for nm, terms, g, cons, eqs, n, pts, ny in GRAM:
        add(f"gram.{nm}", gram(terms, g, cons, eqs, n, pts, ny), len(terms) + ny, gens="a b c d"[:2*n - 1])
    for nm, terms, g, cons, eqs, n, pts, seeds in WHOLE:
        add(f"whole.{nm}", whole(terms, g, cons, eqs, n, pts), len(terms), gens="a b c d"[:2*n - 1],
            seeds=[{f"k{i}": v for i, v in enumerate(x)} for x in seeds], max_paths=20 if qk else 200, path_s=25 if qk else 90)
    for nm, mats, steps, nk, ny in TR:
        add(f"transform.{nm}", transform(mats, steps, ny), nk + ny)
    two = lambda x, y: {"A": Matrix([[p, q + x], [r, s]]), "B": Matrix([[q, t], [u, r + y]])}
    for nm, mats, key, pairs, nk, ny, dof in (
            ("mirror", free, "A", [((0, 1), (1, 0))], 2, 4, 3), ("mirror.3", free3, "A", [((2, 0), (0, 2)), ((1, 0), (0, 1)), ((2, 1), (1, 2))], 2, 6, 3),
            ("row", free3, "A", [((0, 1), (0, 2)), ((2, 0), (2, 2))], 2, 6, 4), ("column", free3, "A", [((0, 1), (1, 1)), ((1, 2), (2, 2))], 2, 6, 4),
            ("diagonal", free3, "A", [((0, 0), (1, 1)), ((2, 2), (2, 2)), ((1, 1), (2, 2))], 2, 6, 4), ("other", two, "B", [((1, 0), (0, 0)), ((0, 1), (1, 0))], 2, 6, 4),
            ("nothing", free, "A", [((0, 1), (0, 1))], 2, 4, 4)):
        add(f"linear.{nm}", linear(mats, ("constrain_equal_entries", lambda *k, key=key, pairs=pairs: ({key: pairs},)), equal(key, pairs), ny, dof), nk + ny)
    add("linear.symmetric", linear(free, ("constrain_symmetry", None), symmetric("A"), 4, 3), 6)
    add("linear.symmetric.3", linear(free3, ("constrain_symmetry", None), symmetric("A"), 6, 3), 8)
    add("entries", entries, 5)
    EQN = [("1", [["k0", 1, 1, "k1", 0, "k2"]], {"A": 2, "B": 1}, 4), ("2", [[1, "k0", "k0", 0, 1, 2], [0, 1, 0, "k1", 0, "k2"]], {"A": 2, "B": 1}, 4), ("3", [[1, "k0", 0, 0, 2], [0, 1, 1, 1, "k1"]], {"A": 2}, 3)]
    for nm, rows, sp_, ny in EQN:
        add(f"equations.{nm}", equations(rows, sp_, ny), c07_count(rows) + ny)
    for nm, rows, sp_, steps, nk in PR:
        add(f"primal.{nm}", primal(rows, sp_, steps), nk)
    for nm, mats, steps, seeds, nk in SOLVE:
        add(f"solve.{nm}", solve(mats, steps=steps), nk, seeds=[{f"k{i}": v for i, v in enumerate(x)} for x in seeds])
    return out


def c07_count(rows):
    return 1 + max([int(x[1:]) for r in rows for x in r if isinstance(x, str)])


EXPLANATION = "The coefficients, the points y of the parametrised matrices and the entries of the matrices are symbols; the numerical solver is replaced by its answer at the path's witness and the search for equality cases by given points."
