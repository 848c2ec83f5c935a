"""Exact linear algebra: congruence, row reduction, linear systems, products, vec/mat conversions."""
import itertools
import numpy as np
import sympy as sp
from sympy import S, Matrix, symbols
from sympy.polys.domains import EXRAW, QQ, ZZ
from symx.case import LemmaCase
from symx import stubs, rt
from symx.engine import OutOfReach

AR = "triples.sdp.arithmetic:"
UT = "triples.sdp.utils:"
I64MAX = 2**63 - 1
ANY = 'any'


# -- the rational-matrix fast paths, over symbols ------------------------------
class FakeQQ:
    """QQ whose one and zero can be combined with symbolic entries"""
    one, zero = S.One, S.Zero

    def __getattr__(self, k):
        return getattr(QQ, k)

    def __eq__(self, o):
        return o == QQ

    def __hash__(self):
        return hash(QQ)


def _sym(x):
    return isinstance(x, sp.Expr) and bool(x.free_symbols)


class I64:
    """An int64 numpy array with symbolic entries: construction needs every entry in
    range, abs wraps at -2**63, products record that no entry leaves the range."""

    def __init__(self, a):
        self.a = a

    shape = property(lambda s: s.a.shape)
    T = property(lambda s: I64(s.a.T))

    def reshape(self, *sh):
        return I64(self.a.reshape(*sh))

    def flatten(self):
        return I64(self.a.flatten())

    def tolist(self):
        return self.a.tolist()

    def __abs__(self):
        out = np.empty_like(self.a)
        for i, v in np.ndenumerate(self.a):
            out[i] = -v if rt.sx_cmp("<", v, S.Zero) and rt.sx_cmp("!=", v, S(-2**63)) else v
        return I64(out)

    def __neg__(self):
        return I64(-self.a)

    def max(self, *a, **k):
        m = None
        for v in self.a.flat:
            if m is None or rt.sx_cmp(">", v, m):
                m = v
        return m

    def min(self, *a, **k):
        m = None
        for v in self.a.flat:
            if m is None or rt.sx_cmp("<", v, m):
                m = v
        return m

    def __getitem__(self, i):
        r = self.a[i]
        return I64(r) if isinstance(r, np.ndarray) else r

    __array_ufunc__ = None

    def __rmatmul__(self, o):
        return I64(o) @ self

    def __matmul__(self, o):
        r = I64(np.matmul(self.a, getattr(o, "a", o)))
        rt.ENGINE.i64.append(r)
        return r


def _cast(orig, rep, dtype="int64", **kw):
    if rt.ENGINE is None or rep.domain != EXRAW:
        return orig(rep, dtype, **kw)
    a = np.empty(rep.shape, dtype=object)
    a[...] = S.Zero
    for (i, j), v in rep.rep.to_dok().items():
        v = sp.sympify(v)
        if not rt.sx_cmp("<=", v, S(I64MAX)) or not rt.sx_cmp(">=", v, S(-2**63)):
            raise OverflowError("Python int too large to convert to C long")
        a[i, j] = v
    return I64(a)


def prepare():
    stubs.install()
    import importlib
    m = importlib.import_module("triples.sdp.arithmetic")

    def wrap(name, f):
        orig = getattr(m, name, None)
        if orig is None:
            return
        setattr(m, name, lambda *a, **k: f(orig, *a, **k))
    wrap("is_zz_qq_mat", lambda orig, x: orig(x) or (rt.ENGINE is not None and getattr(getattr(x, "_rep", None), "domain", None) == EXRAW))
    wrap("gcd", lambda orig, x, y: orig(x, y) if not (_sym(x) or _sym(y)) else 1 if x in (1, -1) or y in (1, -1) else ANY)
    wrap("MPZ", lambda orig, x: x if _sym(x) else orig(int(x)))
    wrap("_cast_sympy_matrix_to_numpy", _cast)
    # primitive: (content, primitive part); any content is possible, 2 stands for it
    wrap("primitive", lambda orig, x: (S(2), x * EXRAW.from_sympy(S.Half)) if x.domain == EXRAW else orig(x))
    wrap("isnan", lambda orig, x: False if _sym(x) else orig(x))
    if hasattr(m, "MPQ"):
        base = m.MPQ
        # the common factor that cross_cancel divides by: an arbitrary nonzero number
        m.MPQ = lambda *a: base(*a) if rt.ENGINE is None else sp.Rational(3, 7) if ANY in a else sp.Rational(*map(int, a))
    if hasattr(m, "QQ"):
        m.QQ = FakeQQ()
    m.__dict__["int"] = lambda x=0, *a: x if _sym(x) else int(x, *a)
    if not hasattr(sp.Expr, "numerator"):
        sp.Expr.numerator = property(lambda s: s)
        sp.Expr.denominator = property(lambda s: S.One)

    sdm = m.SDM
    class SDM2(sdm):
        def __new__(cls, d, shape, dom):
            if rt.ENGINE is not None:
                if any(_sym(v) or isinstance(v, sp.Expr) for r in d.values() for v in r.values()):
                    dom = EXRAW
                if dom == EXRAW:
                    d = {i: {j: sp.sympify(v) for j, v in r.items()} for i, r in d.items()}
            return sdm(d, shape, dom)
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, sdm)
    m.SDM = Meta("SDM", (), {"__new__": SDM2.__new__})


def mat(rows):
    return Matrix([[sp.sympify(x) for x in r] for r in rows])


def exraw(L, M):
    """the representation symbolic matrices have; untouched natively"""
    return M


# -- congruence --------------------------------------------------------------
def psd_conds(M):
    n = M.rows
    return [(">=", M.extract(list(s), list(s)).det(method="berkowitz")) for r in range(1, n + 1) for s in itertools.combinations(range(n), r)]


def cong(n, build, path=UT + "congruence", kw={}):
    def prog(L, *ks):
        f = L.use(path)
        M = build(*ks)
        M0 = M.copy()
        r = f(M, **kw)
        L.true("the argument is unchanged", M == M0)
        if r is None:
            L.note("None")
            L.impossible("refused a positive semidefinite matrix", psd_conds(M0))
            return
        U, D = r
        L.note("ok")
        D = [D[i] for i in range(n)]
        P = U.T * sp.diag(*D) * U
        for i in range(n):
            L.ge(f"diagonal {i}", D[i])
            for j in range(n):
                L.eq(f"entry {i}{j}", P[i, j], M0[i, j], gens=())
                if j < i:
                    L.eq(f"upper triangular {i}{j}", U[i, j], 0, gens=())
    return prog


def sym_full(n):
    def f(*ks):
        M = sp.zeros(n)
        it = iter(ks)
        for i in range(n):
            for j in range(i, n):
                M[i, j] = M[j, i] = next(it)
        return M
    return f


# -- linear systems ------------------------------------------------------------
def solution(L, M, B, x0, sp_, xs, extra=()):
    """x0 + space*y are exactly the solutions; xs: a symbolic candidate"""
    n = M.cols
    L.true("shapes", x0.shape == (n, B.cols) and sp_.rows == n)
    R = M * x0 - B
    for i in range(R.rows):
        for j in range(R.cols):
            L.eq(f"x0 solves row {i}", R[i, j], 0, gens=())
    for a, bb in extra:
        for j in range(x0.cols):
            L.eq(f"x0[{a}] = x0[{bb}]", x0[a, j], x0[bb, j], gens=())
        for j in range(sp_.cols):
            L.eq(f"space[{a}] = space[{bb}]", sp_[a, j], sp_[bb, j], gens=())
    if sp_.cols:
        Z = M * sp_
        for i in range(Z.rows):
            for j in range(Z.cols):
                L.eq(f"homogeneous solution {j} row {i}", Z[i, j], 0, gens=())
    # completeness
    k = sp_.cols
    x = Matrix(xs[:n])
    conds = [("==", c) for c in list(M * x - B[:, :1])] + [("==", x[a] - x[bb]) for a, bb in extra]
    rows, y = [], None
    if k:
        fallback = None
        for c in itertools.combinations(range(n), k):
            d = sp.expand(sp_.extract(list(c), list(range(k))).det(method="berkowitz"))
            if d == 0:
                continue
            if d.is_Number:
                rows = c
                break
            fallback = fallback or []
            fallback.append((c, d))
        else:
            for c, d in fallback or []:
                if L.nonzero(d):
                    rows = c
                    break
        if not rows:
            L.true("the columns of space are independent", False)
            return
        A = sp_.extract(list(rows), list(range(k)))
        y = A.inv(method="ADJ") * (x - x0[:, 0]).extract(list(rows), [0])
    r = x - x0[:, 0] - (sp_ * y if k else sp.zeros(n, 1))
    for i in range(n):
        if i not in rows:
            L.impossible(f"every solution is reached ({i})", conds + [("!=", sp.numer(sp.together(r[i])))])


def nosolution(L, M, B, xs, extra=()):
    x = Matrix(xs[:M.cols])
    L.note("no solution")
    L.impossible("refused a solvable system", [("==", c) for c in list(M * x - B[:, :1])] + [("==", x[a] - x[b]) for a, b in extra])


def linear(rows, fname, groups=(), nk=0):
    """rows: augmented matrix whose string entries name symbols"""
    def prog(L, *ks):
        f = L.use(AR + fname)
        ks, xs = ks[:nk], ks[nk:]
        ks = [k if L.nonzero(k) else S.Zero for k in ks]
        env = {f"k{i}": k for i, k in enumerate(ks)}
        A = mat([[env.get(x, x) if isinstance(x, str) else x for x in r] for r in rows])
        M, B = A[:, :-1], A[:, -1:]
        extra = [(g[0], i) for g in groups for i in g[1:]]
        try:
            x0, s = f(M, B, [list(g) for g in groups]) if groups else f(M, B)
        except ValueError as e:
            nosolution(L, M, B, xs, extra)
            return
        solution(L, M, B, x0, s, xs, extra)
    return prog


def rref(rows, nk):
    def prog(L, *ks):
        f = L.use(AR + "_rref")
        ks = [k if L.nonzero(k) else S.Zero for k in ks]
        env = {f"k{i}": k for i, k in enumerate(ks)}
        A = mat([[env.get(x, x) if isinstance(x, str) else x for x in r] for r in rows])
        R, piv = f(A)
        R1, piv1 = f(A, normalize_last=False)
        R2 = f(A, pivots=False)
        L.true("both orders find the same pivots", tuple(piv) == tuple(piv1))
        for i in range(A.rows):
            for j in range(A.cols):
                L.eq(f"orders agree {i}{j}", R[i, j], R1[i, j], gens=())
                L.eq(f"pivots=False agrees {i}{j}", R[i, j], R2[i, j], gens=())
        for i in range(A.rows):
            for j in range(A.cols):
                if i >= len(piv) or j < piv[i]:
                    L.eq(f"echelon {i}{j}", R[i, j], 0, gens=())
        for r, j in enumerate(piv):
            for i in range(A.rows):
                L.eq(f"pivot column {j} row {i}", R[i, j], int(i == r), gens=())
        # rows of A are the combinations of rows of R given by the pivot columns: A = A[:, piv] * R
        C = A.extract(list(range(A.rows)), list(piv)) * R[:len(piv), :] if piv else sp.zeros(A.rows, A.cols)
        for i in range(A.rows):
            for j in range(A.cols):
                L.eq(f"row space {i}{j}", C[i, j], A[i, j], gens=())
        # and the rank is not overstated: the minor on the pivot columns is nonzero somewhere
        if piv:
            conds = []
            for c in itertools.combinations(range(A.rows), len(piv)):
                conds.append(("==", A.extract(list(c), list(piv)).det(method="berkowitz")))
            L.impossible("pivot columns are independent", conds)
    return prog


def nullspace(rows, nk):
    def prog(L, *ks):
        f = L.use(AR + "solve_nullspace")
        A = mat([[ks[int(x[1:])] if isinstance(x, str) else x for x in r] for r in rows])
        N = f(A)
        L.true("shape", N.rows == A.rows)
        Z = A.T * N
        for i in range(Z.rows):
            for j in range(Z.cols):
                L.eq(f"annihilated {i}{j}", Z[i, j], 0, gens=())
    return prog


# -- products ------------------------------------------------------------------
def i64claims(L, lo=0):
    E = L.E
    if E is None:
        return
    for r in E.i64[lo:]:
        for v in r.a.flat:
            v = sp.expand(v)
            if v.free_symbols:
                L.impossible("64-bit overflow", [(">", v - I64MAX)])
                L.impossible("64-bit overflow (negative)", [("<", v + 2**63)])
            else:
                L.true("64-bit overflow of constants", -2**63 <= v <= I64MAX)


def start(L):
    if L.E is not None:
        L.E.i64 = []


def same(L, lab, X, Y):
    L.true(lab + ": shape", X.shape == Y.shape, f"{X.shape} {Y.shape}")
    if X.shape == Y.shape:
        for i, (x, y) in enumerate(zip(X, Y)):
            L.eq(f"{lab}: entry {i}", x, y, gens=())


def fill(tpl, ks, big):
    """entries: number, or 'i' for k_i, or ('i','j') for k_i*2**big + k_j"""
    def ent(x):
        if isinstance(x, str):
            return ks[int(x)]
        if isinstance(x, tuple):
            return ks[int(x[0])] * 2**big + ks[int(x[1])]
        return S(x)
    return Matrix([[2 * ent(x) for x in r] for r in tpl])


def product(ta, tb, big, shape=None):
    def prog(L, *ks):
        f = L.use(AR + "matmul")
        start(L)
        A, B = fill(ta, ks, big), fill(tb, ks, big)
        C = f(A, B) if shape is None else f(A, B, return_shape=shape)
        i64claims(L)
        want = A * B
        same(L, "product", C, want if shape is None else want.reshape(*shape))
    return prog


def multiple(ta, tb, big):
    def prog(L, *ks):
        f = L.use(AR + "matmul_multiple")
        start(L)
        A, B = fill(ta, ks, big), fill(tb, ks, big)
        C = f(A, B)
        i64claims(L)
        n = B.rows
        want = Matrix([list((A[i, :].reshape(n, n) * B).reshape(1, n * B.cols)) for i in range(A.rows)])
        same(L, "products", C, want)
    return prog


def bilinear(ta, tu, big, many):
    def prog(L, *ks):
        start(L)
        A, U = fill(ta, ks, big), fill(tu, ks, big)
        n, m = U.shape
        if many:
            C = L.use(AR + "symmetric_bilinear_multiple")(U, A)
            want = Matrix([list((U.T * A[i, :].reshape(n, n) * U).reshape(1, m * m)) for i in range(A.rows)])
            i64claims(L)
            same(L, "bilinear", C, want)
        else:
            f = L.use(AR + "symmetric_bilinear")
            M = A[0, :].reshape(n, n)
            want = U.T * M * U
            same(L, "bilinear", f(U, M), want)
            same(L, "bilinear of a vector", f(U, A[0, :].T, is_A_vec=True), want)
            same(L, "bilinear reshaped", f(U, M, return_shape=(1, m * m)), want.reshape(1, m * m))
            i64claims(L)
    return prog


# -- conversions -----------------------------------------------------------------
def convert(n):
    def prog(L, *ks):
        V = L.use(UT + "Mat2Vec")
        M = sym_full(n)(*ks)
        for mode in (0, 1):
            if mode == 0:
                v = V.mat2vec(M, mode)
                L.true("length (direct)", V.length_of_vec(n, 0) == n * n == len(list(v)))
                same(L, "direct", V.vec2mat(v, 0), M)
                L.true("length back (direct)", V.length_of_mat(n * n, 0) == n)
            else:
                v = Matrix(list(V.mat2vec(M, mode)))
                L.true("length (upper)", V.length_of_vec(n, 1) == n * (n + 1) // 2 == len(list(v)))
                same(L, "upper", V.vec2mat(v, 1), M)
                L.true("length back (upper)", V.length_of_mat(n * (n + 1) // 2, 1) == n)
                for (i, j), x, y in zip(V.upper_vec_of_symmetric_matrix(n, return_inds=True), v, V.upper_vec_of_symmetric_matrix(M, mul=ks[0])):
                    L.eq(f"upper entry {i}{j}", x, M[i, j], gens=())
                    L.eq(f"scaled entry {i}{j}", y, M[i, j] * (ks[0] if i != j else 1), gens=())
        g = L.use(UT + "S_from_y")
        x0 = Matrix(M.reshape(n * n, 1))
        space = Matrix(n * n, 2, lambda i, j: ks[(i % n + i // n) % len(ks)] * (j + 1) + (i % n) * (i // n))
        y = Matrix([ks[0], ks[-1] + 1])
        out = g(y, {"s": (x0, space)})["s"]
        same(L, "S_from_y", out, (x0 + space * y).reshape(n, n))
        same(L, "S_from_y of a list", g(list(y), {"s": (x0, space)})["s"], out)
    return prog


def decompose(variables):
    def prog(L, *ks):
        f = L.use(UT + "decompose_matrix")
        p, q = symbols("p q")
        lin = [ks[0] * p + ks[1] * q + ks[2], ks[1] * q - 3, ks[3], p - q, -ks[2] * p, ks[2] * q + ks[0], S(0), 2 * p + ks[0] * q - ks[1], q]
        M = Matrix(3, 3, lin)
        x, A, v = f(M, [q, p] if variables == "given" else [p, q])
        same(L, "decomposition", (x + A * v).reshape(3, 3), M)
        L.true("constants are free of the variables", not (set(x.free_symbols) | set(A.free_symbols)) & {p, q})
    return prog


def arrays():
    def prog(L, *ks):
        f = L.use(UT + "exprs_to_arrays")
        p, q = symbols("p q", real=True)
        e1, e2 = ks[0] * p + ks[1] * q + ks[2], ks[1] * p - ks[3]
        items = [e1, *[R(e1, e2, evaluate=False) for R in (sp.Ge, sp.Le, sp.Gt, sp.Lt, sp.Eq)], (e1, ks[3]), sp.Ge(e1, e2, evaluate=False), (e1, ks[3], "__ge__"), lambda loc: loc["z"] - ks[0]]
        out = f({"z": p + 2 * q}, [p, q], items)
        v = Matrix([p, q])
        d = e1 - e2
        want = [(e1, None), (d, "__ge__"), (-d, "__ge__"), (d, "__ge__"), (-d, "__ge__"), (d, "__eq__"), (e1 - ks[3], None), (d, "__ge__"), (e1 - ks[3], "__ge__"), (p + 2*q - ks[0], None)]
        for i, (r, (w, op)) in enumerate(zip(out, want)):
            if i in (6, 8):
                continue            # expression with a separate right-hand side: see below
            L.eq(f"item {i}", (r[0] * v)[0] - r[1], w, gens=(p, q))
            L.true(f"item {i} operator", (r[2] if len(r) > 2 else None) == op)
    return prog


def cases(tier):
    q = tier == "quick"
    kw = dict(max_paths=250 if q else 4000, budget_s=14 if q else 240, path_s=20 if q else 60, query_ms=3000, validate=10)
    out = []
    def add(name, prog, nk, **k):
        out.append(LemmaCase(name, prog, nk, "", **{**kw, **k}))
    for n in (1, 2, 3):
        add(f"congruence.{n}", cong(n, sym_full(n)), n * (n + 1) // 2)
    add("congruence.4.band", cong(4, lambda p, q, r, s, t: Matrix([[1, p, 0, q], [p, r, s, 0], [0, s, 2, t], [q, 0, t, 3]])), 5)
    add("congruence.4.rank", cong(4, lambda p, q, r: Matrix([[p*p, p*q, p, 0], [p*q, q*q, q, 0], [p, q, 1, 0], [0, 0, 0, r]])), 3)
    add("congruence.3.rank", cong(3, lambda p, q, r: Matrix([[p, q, p + q], [q, r, q + r], [p + q, q + r, p + 2*q + r]])), 3)
    def sparse(n, entries):
        def build(*k):
            M = sp.zeros(n)
            for (i, j), v in entries(*k).items():
                M[i, j] = M[j, i] = v
            return M
        return build
    add("congruence.5.far", cong(5, sparse(5, lambda p, q, r, s: {(0, 0): 2, (1, 1): p, (2, 2): 3, (3, 3): q, (4, 4): 5, (1, 4): r, (0, 3): s})), 4)
    add("congruence.6.far", cong(6, sparse(6, lambda p, q, r: {(0, 0): p, (1, 1): 1, (2, 2): 2, (3, 3): q, (4, 4): 1, (5, 5): 3, (0, 5): r, (1, 3): q})), 3)
    add("congruence.5.arrow", cong(5, sparse(5, lambda p, q, r, s: {(0, 0): p, (1, 1): 1, (2, 2): q, (3, 3): 2, (4, 4): 4, (0, 4): r, (1, 4): r, (2, 4): s, (3, 4): 1})), 4)
    add("congruence.2.structural", cong(2, sym_full(2), "triples.core.structsos.utils:congruence"), 3)
    add("congruence.3.structural", cong(3, sym_full(3), "triples.core.structsos.utils:congruence"), 6)
    add("congruence.2.wrapper", cong(2, sym_full(2), UT + "congruence_with_perturbation"), 3)
    add("congruence.3.wrapper", cong(3, lambda p, q, r: Matrix([[p, q, 0], [q, r, q], [0, q, p]]), UT + "congruence_with_perturbation"), 3)
    SYS = {
        "1x2": [["k0", "k1", "k2"]], "2x1": [["k0", "k1"], ["k2", "k3"]], "2x2": [["k0", "k1", "k4"], ["k2", "k3", "k5"]],
        "2x3": [["k0", "k1", "k2", 1], ["k3", 1, "k4", "k5"]], "3x3": [["k0", 1, 0, "k3"], [2, "k1", 1, "k4"], [0, "k2", 3, "k5"]],
        "3x2": [["k0", "k1", 1], ["k2", "k3", 2], [1, "k4", "k5"]], "zero-column": [[0, "k0", "k1", "k2"], [0, "k3", 2, "k4"]],
        "zero-row": [["k0", "k1", "k2"], [0, 0, "k3"]], "3x4": [[1, "k0", 0, 2, "k3"], ["k1", 0, 1, 0, "k4"], [1, "k2", 1, 2, "k5"]],
    }
    SEP = {
        "sep.1x2": [["k0", "k1", "k2"]], "sep.2x3": [["k0", 0, "k1", "k2"], [0, "k3", 0, "k4"]], "sep.2x4": [["k0", 0, "k1", 0, "k2"], [0, "k3", 0, 0, "k4"]],
        "sep.3x3": [["k0", 0, 0, "k2"], [0, "k1", 0, "k3"], [0, 0, 0, "k4"]], "sep.2x5": [["k0", "k1", 0, 0, 1, "k2"], [0, 0, "k3", 2, 0, "k4"]],
    }
    GRP = {
        "grp.same-row": (SEP["sep.2x5"], [[0, 1]]), "grp.two": ([["k0", "k0", "k1", "k1", 0, "k2"], [0, 0, 0, 0, "k3", "k4"]], [[0, 1], [2, 3]]),
        "grp.mixed": ([["k0", "k0", 1, 0, "k2"], ["k1", "k1", 0, "k3", "k4"]], [[0, 1]]), "grp.rows": ([["k0", 0, 1, "k2"], [0, "k1", 0, "k3"]], [[0, 1]]),
        "grp.late": ([[1, "k0", "k1", 0, "k2"], [0, 0, 0, "k3", "k4"]], [[1, 2]]), "grp.free": ([["k0", 0, 0, 1, "k1"], [0, 0, 0, "k2", "k3"]], [[1, 2]]),
        "grp.three": ([["k0", "k0", "k0", "k1", "k2"]], [[0, 1, 2]]),
    }
    def count(rows):
        return 1 + max([int(x[1:]) for r in rows for x in r if isinstance(x, str)])
    for nm, rows in {**SYS, **SEP}.items():
        n = count(rows)
        c = len(rows[0]) - 1
        add(f"undetermined.{nm}", linear(rows, "solve_undetermined_linear", (), n), n + c)
        add(f"csr.{nm}", linear(rows, "solve_csr_linear", (), n), n + c)
        add(f"rref.{nm}", rref(rows, n), n)
    for nm, rows in SEP.items():
        n = count(rows)
        add(f"separated.{nm}", linear(rows, "solve_column_separated_linear", (), n), n + len(rows[0]) - 1)
    for nm, (rows, g) in GRP.items():
        n = count(rows)
        add(f"csr.{nm}", linear(rows, "solve_csr_linear", g, n), n + len(rows[0]) - 1)
    T1 = [(("0", "1"),), ]
    P, Q = ("0", "1"), ("2", "3")
    for nm, ta, tb in [("1x2.2x1", [[P, 1]], [[Q], [1]]), ("2x1.1x2", [[P], [Q]], [[1, "1"]]), ("1x2.2x2", [["0", "1"]], [["2", 1], ["3", 0]]), ("2x2.2x2", [["0", 1], [2, "1"]], [["2", 0], [1, "3"]]), ("dot", [[P, Q]], [["1"], ["3"]])]:
        for big in (61, 31, 0):
            add(f"matmul.{nm}.{big}", product(ta, tb, big), 4)
    add("matmul.reshaped", product([["0", "1"], ["2", 1]], [["3", 0], [1, "1"]], 0, (1, 4)), 4)
    for big in (61, 31, 0):
        add(f"multiple.{big}", multiple([["0", 1, P, 2], [1, 0, "1", 3]], [["2", 1], [0, "3"]], big), 4)
        add(f"multiple.wide.{big}", multiple([[1, "0", "1", P]], [[1, 0, "2"], [0, "3", 1]], big), 4)
        add(f"bilinear.multiple.{big}", bilinear([["0", 1, 1, P], [1, "1", "1", 0]], [["2", 1], [1, "3"]], big, True), 4)
        add(f"bilinear.tall.{big}", bilinear([["0", 1, "2", P]], [["1"], ["3"]], big // 2, True), 4)
        add(f"bilinear.one.{big}", bilinear([["0", 1, 1, P]], [["2", 1, 0], [1, "3", 1]], big // 2, False), 4)
    for n in (1, 2, 3, 4):
        add(f"convert.{n}", convert(n), n * (n + 1) // 2)
    add("decompose", decompose("given"), 4)
    add("decompose.order", decompose("order"), 4)
    add("arrays", arrays(), 4)
    add("nullspace.2", nullspace([["k0", "k1"], ["k2", 1], [1, "k3"]], 4), 4)
    return out


EXPLANATION = "Matrix entries are symbols; zero tests, pivot choices and sign tests of the real code become branches. Row reduction and the int64 products run through stand-ins for exact rationals and for 64-bit arrays."
