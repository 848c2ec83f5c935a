"""Case: one symbolic harness over the real code."""
import os, sys, time, importlib
import sympy as sp
from sympy import Rational, S, Add, Symbol, Poly
from . import rt
from .engine import Engine, OutOfReach, Prune, Degenerate
from . import cert


class Case:
    """Subclasses define body(E) (run the real code on symbols of E), checks(E, value)
    (yield (label, conds) where conds, together with the path condition, must be
    unsatisfiable) and concrete(vals) (run the real, untransformed code on rational
    values; return None or a description of the violation)."""
    max_paths = 400
    query_ms = 3000
    path_s = 40
    budget_s = 120
    supplement = 4           # witnesses replayed for paths the engine could not finish
    validate = 3             # finished paths whose witness is replayed and compared
    stubs = ()
    cost = 1
    replay_s = 25
    slices = True            # on "unknown", ask again on the lines through the path's witness
    seeds = None             # concrete starting assignments: concolic exploration
    crash_ok = False         # internal failures belong to another property
    concretise = True        # answers of numeric heuristics: the real ones at the path's witness, else arbitrary values within their contract

    def __init__(self, name):
        self.name = name

    def body(self, E):
        raise NotImplementedError

    def checks(self, E, value):
        return []

    def concrete(self, vals):
        return None

    def outcome(self, value):
        """A coarse, comparable summary of a result (symbolic or native)."""
        return "None" if value is None else "value"

    def bounds(self):
        return ""


# ---------------------------------------------------------------------------------
class Unresolved(Exception):
    """the entry point a harness uses is not there (renamed, moved): not a violation"""


def resolve(path):
    mod, fn = path.split(":")
    try:
        m = importlib.import_module(mod)
        for part in fn.split("."):
            m = getattr(m, part)
    except (ImportError, AttributeError) as e:
        raise Unresolved(str(e))
    return m


def check_proof_concrete(expr, P, gens, nonneg, denom_ok=True):
    """None if `expr` is a termwise nonnegative rewriting of P, else a message.
    Everything rational / radical numbers."""
    expr = sp.sympify(expr)
    if expr.has(sp.nan, sp.zoo, sp.oo):
        return f"result is not finite: {expr}"
    if expr.has(sp.Float):
        return f"returned expression has floating point coefficients, so it is not an exact identity: {expr}"
    res = cert.identity_residue(expr, P, gens, [])
    bad = {k: v for k, v in res.items() if not numzero(v)}
    if bad:
        k = sorted(bad, key=str)[0]
        return f"returned expression differs from the input: coefficient of {dict(zip(map(str, gens), k)) if isinstance(k, tuple) else k} is off by {bad[k]}; returned {expr} for {P}"
    for o in cert.obligations(expr, set(nonneg), []):
        msg = obl_concrete(o, nonneg)
        if msg:
            return f"{msg} in the returned proof {expr} of {P}"
    return None


def obl_concrete(o, nonneg):
    if o.kind == "alt" and all(obl_concrete(x, nonneg) is None for x in o.parts):
        return None
    if o.kind == "weight" or not expand_free(o.term):
        if numneg(o.term):
            return f"negative weight {o.term}"
        return None
    pt = negative_point(o.term, nonneg)
    if pt is not None:
        return f"term {o.term} is negative at {pt},"
    return None


def expand_free(t):
    return cert.expand_cyclic(t).free_symbols


def uncert(E, value, nonneg):
    """(value with opaque certificates replaced by squares, value with them replaced by
    the polynomial they certify)."""
    from sympy.core.function import AppliedUndef
    if not E.certs or not value.has(AppliedUndef):
        return value, value
    fl, ex = cert.expand_cyclic(value), {}
    a2 = {}
    for f in value.atoms(AppliedUndef):
        for x in f.args:
            if x.free_symbols - set(nonneg) or not monomial_nonneg(x):
                raise OutOfReach("certificate used outside its region")
        a2[f] = sp.Function(f.func.__name__ + "s")(*f.args)**2
    for f in fl.atoms(AppliedUndef):
        args, p = E.certs[f.func.__name__]
        ex[f] = p.xreplace(dict(zip(args, f.args)))
    return value.xreplace(a2), fl.xreplace(ex)


def monomial_nonneg(x):
    return x.is_Symbol or (x.is_Rational and x >= 0) or (x.is_Mul and all(monomial_nonneg(y) for y in x.args)) or \
        (x.is_Pow and monomial_nonneg(x.base) and x.exp.is_Integer) or (x.is_Add and all(monomial_nonneg(y) for y in x.args))


def numzero(v):
    v = sp.sympify(v)
    if v.is_Rational:
        return v == 0
    return abs(v.evalf(60)) < Rational(1, 10**40)


def numneg(v):
    v = sp.sympify(v)
    if v.is_Rational:
        return v < 0
    w = v.evalf(60)
    if not w.is_real:
        return True
    return w < -Rational(1, 10**40)


def negative_point(term, nonneg, ms=4000):
    """A rational point of the region where term < 0, or None."""
    t = cert.expand_cyclic(term)
    gens = sorted(t.free_symbols, key=str)
    E = Engine(query_ms=ms)
    E.K = set(gens)
    E.pc = [(">=", g) for g in gens if g in nonneg]
    n, d = sp.fraction(sp.together(t))
    for m in E.models(extra=[("<", sp.expand(n * d))], n=2, ms=ms, syms=gens):
        v = t.xreplace({k: x for k, x in m.items()})
        if v.is_finite and numneg(v):
            return {str(k): str(x) for k, x in m.items()}
    return None


class Nonneg:
    """A nonnegativity obligation, discharged part by part or as a whole."""

    def __init__(self, o, nonneg):
        self.o, self.nonneg = o, nonneg

    def check(self, E, ms, o=None):
        """('unsat', None) when it holds, else (verdict, conditions of the failure)"""
        o = o or self.o
        if o.kind == "alt":
            bad = None
            for x in o.parts:
                if x.kind == "weight" and not x.term.free_symbols:
                    r = ("sat" if numneg(x.term) else "unsat", [])
                else:
                    r = self.check(E, ms, x)
                if r[0] != "unsat":
                    bad = r
                    break
            if bad is None:
                return "unsat", None
            if bad[0] == "unknown":
                return bad
        if o.kind == "weight":
            c = [self.neg(o.term)]
        else:
            t = cert.expand_cyclic(o.term)
            if t.atoms(sp.core.function.AppliedUndef):
                raise OutOfReach("sign of an opaque certificate combination")
            gs = t.free_symbols - E.K
            if t.count_ops() > 3000:
                raise OutOfReach("term too large")
            n, q = sp.fraction(sp.together(t))
            c = [(">=", g) for g in sorted(gs, key=str) if g in self.nonneg] + [("<", sp.expand(n * q))]
        r = E.check(E.pc + c, ms=ms)[0]
        if os.environ.get("SYMX_DEBUG"):
            print("obligation", o.kind, str(o.term)[:300], r, file=sys.stderr)
        return r, c

    @staticmethod
    def neg(w):
        n, q = sp.fraction(sp.together(w))
        return ("<", sp.expand(n * q) if q.free_symbols else (n / q))


class ProofCase(Case):
    """func(poly) returns a proof expression or None; coefficients symbolic."""

    def __init__(self, name, func, build, nk, gens="a b c", nonneg="a b c", call=None, constrain=None,
                 nonzero=False, complete=None, pattern=None, fixed=None, target=None, post=None, **kw):
        super().__init__(name)
        self.func, self.build, self.nk = func, build, nk
        self.gens = sp.symbols(gens)
        if not isinstance(self.gens, tuple):
            self.gens = (self.gens,)
        self.nonneg = set(sp.symbols(nonneg)) if " " in nonneg else ({sp.Symbol(nonneg)} if nonneg else set())
        self.call = call
        self.constrain = constrain
        self.pattern = pattern          # tuple of '0' (absent), 'n' (nonzero), '*' (fork)
        self.complete = complete
        self.fixed = fixed or {}
        self.target = target
        self.post = post
        for k, v in kw.items():
            setattr(self, k, v)

    def ks(self, E=None):
        return [E.symbol(f"k{i}") if E else Symbol(f"k{i}", real=True) for i in range(self.nk)]

    def terms(self, ks):
        """dict monomial -> coefficient expression (may contain zeros)"""
        return self.build(*ks)

    def call_real(self, d):
        f = resolve(self.func)
        if self.call is not None:
            return self.call(f, d, self.gens)
        from triples.utils import Coeff
        return f(Coeff(Poly(d, *self.gens)) if d else Coeff({}))

    def body(self, E):
        ks = self.ks(E)
        for i, v in self.fixed.items():
            E.K.discard(ks[i])
        ks = [self.fixed.get(i, k) for i, k in enumerate(ks)]
        if self.constrain:
            for op, e in self.constrain(*ks):
                E.assume(op, e)
        d = {}
        pat = self.pattern
        vals = []
        for i, k in enumerate(ks):
            if not isinstance(k, Symbol):
                vals.append(sp.sympify(k)); continue
            p = pat[i] if pat else "*"
            if p == "0":
                E.assume("==", k); vals.append(S.Zero)
            elif p == "n":
                E.assume("!=", k); vals.append(k)
            elif p == ".":
                vals.append(k)
            else:
                vals.append(self.fork0(E, k))
        for m, c in self.terms(vals).items():
            c = sp.sympify(c)
            if c.free_symbols:
                if (c.is_Symbol) or rt.sx_cmp("!=", c, 0):
                    d[m] = sp.expand(c)
            elif c != 0:
                d[m] = c
        self.E_d = d
        self.E_vals = vals
        v = self.call_real(d)
        if isinstance(v, sp.Expr) and v.has(sp.Abs, sp.Max, sp.Min, sp.sign):
            E.restarts = False
            v = E.split(v)
            E.restarts = True
        return v

    @staticmethod
    def fork0(E, k):
        E.restarts = False
        try:
            return k if rt.sx_cmp("!=", k, 0) else S.Zero
        finally:
            E.restarts = True

    def poly_expr(self, d):
        if self.target:
            return self.target(d, self.gens)
        return Add(*[c * sp.Mul(*[g**e for g, e in zip(self.gens, m)]) for m, c in d.items()])

    def checks(self, E, value):
        ks = sorted(E.K, key=str)
        if value is None:
            if self.complete:
                yield from self.complete(self, E, self.E_vals)
            return
        if self.post:
            value = self.post(value)
        value = sp.sympify(value)
        if value.has(S.NaN, S.ComplexInfinity, sp.oo):
            yield ("finite", [])
            return
        if value.has(sp.Float):
            yield ("exact", [])
            return
        P = self.poly_expr(self.E_d)
        value, proxy = uncert(E, value, self.nonneg)
        res = cert.identity_residue(proxy, P, self.gens, ks)
        yield ("identity", [("or", [("!=", v) for v in res.values()])] if res else None)
        for o in cert.obligations(value, self.nonneg, ks):
            yield ("weight>=0" if o.kind == "weight" else "term>=0", Nonneg(o, self.nonneg))

    def concrete(self, vals):
        ks = [sp.sympify(self.fixed.get(i, vals.get(f"k{i}", 0))) for i in range(self.nk)]
        d = {m: sp.sympify(c) for m, c in self.terms(ks).items()}
        d = {m: c for m, c in d.items() if c != 0}
        try:
            v = self.call_real(d)
        except Unresolved:
            return None, "None"
        except Exception as e:
            if self.raises_ok(e) or self.crash_ok:
                return None, "None"
            return f"raised {type(e).__name__}: {e} on {d}", "raise"
        if v is not None and self.post:
            v = self.post(v)
        if v is None:
            if self.complete:
                msg = self.complete_concrete(ks, d)
                if msg:
                    return msg, "None"
            return None, "None"
        return check_proof_concrete(v, self.poly_expr(d), self.gens, self.nonneg), "value"

    def raises_ok(self, e):
        return type(e).__name__ in ("PolynomialNonpositiveError", "PolynomialUnsolvableError")

    def complete_concrete(self, ks, d):
        return None


# ---------------------------------------------------------------------------------
class Skip(Exception):
    """the values do not satisfy the assumptions of the harness"""


class Ledger:
    """Collects the claims a harness program makes; the same program runs symbolically
    and natively."""

    def __init__(self, E=None, gens=()):
        self.E, self.obl, self.notes, self.gens = E, [], [], tuple(gens)

    @property
    def symbolic(self):
        return self.E is not None

    def use(self, path):
        return resolve(path)

    def assume(self, op, e):
        e = sp.sympify(e)
        if self.E is not None and e.free_symbols:
            self.E.assume(op, e)
        elif not rt._OPS[op](e, 0):
            if self.E is not None:
                raise Prune("assumption")
            raise Skip()

    def nonzero(self, e):
        """forks on e == 0"""
        e = sp.sympify(e)
        return bool(rt.sx_cmp("!=", e, S.Zero))

    def decide(self, op, e):
        return bool(rt.sx_cmp(op, sp.sympify(e), S.Zero))

    def eq(self, label, x, y=0, gens=None):
        self.obl.append(("eq", label, (sp.sympify(x), sp.sympify(y), self.gens if gens is None else gens)))

    def ge(self, label, x, nonneg=()):
        self.obl.append(("ge", label, (sp.sympify(x), set(nonneg))))

    def lt(self, label, x):
        self.obl.append(("lt", label, sp.sympify(x)))

    def proof(self, label, expr, P, gens, nonneg):
        self.obl.append(("proof", label, (sp.sympify(expr), sp.sympify(P), tuple(gens), set(nonneg))))

    def signs(self, label, expr, nonneg):
        """expr >= 0 whenever the symbols of nonneg are, every other one being arbitrary"""
        self.obl.append(("signs", label, (sp.sympify(expr), set(nonneg))))

    def true(self, label, b, why=""):
        self.obl.append(("true", label, (bool(b), why)))

    def note(self, x):
        self.notes.append(str(x))

    def impossible(self, label, conds):
        """conds: list of (op, expr): must be unsatisfiable together with the path"""
        self.obl.append(("imp", label, [(o, sp.sympify(e)) for o, e in conds]))

    # -- symbolic verdicts
    def claims(self):
        E = self.E
        ks = sorted(E.K, key=str)
        for kind, label, x in self.obl:
            if kind == "true":
                yield (label, None if x[0] else [])
            elif kind == "eq":
                l, r, gens = x
                yield (label, residue_conds(l, r, gens, ks))
            elif kind == "ge":
                t, nn = x
                if not t.free_symbols:
                    yield (label, [] if numneg(t) else None)
                else:
                    yield (label, Nonneg(cert.Obl("term" if t.free_symbols - E.K else "weight", t), nn))
            elif kind == "lt":
                yield (label, [(">=", x)] if x.free_symbols else (None if x < 0 else []))
            elif kind == "imp":
                conds = []
                dead = False
                for o, e in x:
                    if e.free_symbols:
                        conds.append((o, e))
                    elif not rt._OPS[o](e, 0):
                        dead = True
                yield (label, None if dead else conds)
            elif kind == "signs":
                for o in cert.obligations(x[0], x[1], ks):
                    yield (label + ": " + ("weight>=0" if o.kind == "weight" else "term>=0"), Nonneg(o, x[1]))
            elif kind == "proof":
                v, P, gens, nn = x
                if v.has(S.NaN, S.ComplexInfinity, sp.oo):
                    yield (label + ": finite", [])
                    continue
                v, proxy = uncert(E, v, nn)
                yield (label + ": identity", residue_conds(proxy, P, gens, ks))
                for o in cert.obligations(v, nn, ks):
                    yield (label + ": " + ("weight>=0" if o.kind == "weight" else "term>=0"), Nonneg(o, nn))

    # -- native verdict
    def verdict(self):
        for kind, label, x in self.obl:
            if kind == "true" and not x[0]:
                return f"{label} fails {x[1]}"
            if kind == "eq":
                l, r, gens = x
                res = cert.identity_residue(l, r, gens, [])
                bad = {k: v for k, v in res.items() if not numzero(v)}
                if bad:
                    return f"{label}: {str(l)[:300]} is not equal to {str(r)[:300]}"
            if kind == "ge":
                t, nn = x
                m = obl_concrete(cert.Obl("term" if t.free_symbols else "weight", t), nn)
                if m:
                    return f"{label}: {m}"
            if kind == "lt" and not (x < 0):
                return f"{label}: {x} is not negative"
            if kind == "imp" and all(rt._OPS[o](e, 0) for o, e in x):
                return f"{label}: {x}"
            if kind == "signs":
                for o in cert.obligations(x[0], x[1], []):
                    m = obl_concrete(o, x[1])
                    if m:
                        return f"{label}: {m} in {x[0]}"
            if kind == "proof":
                v, P, gens, nn = x
                m = check_proof_concrete(v, P, gens, nn)
                if m:
                    return f"{label}: {m}"
        return None


def residue_conds(l, r, gens, ks):
    if l.has(S.NaN, S.ComplexInfinity, sp.oo):
        return []
    res = cert.identity_residue(l, r, gens, ks)
    if not res:
        return None
    if any(not v.free_symbols and not numzero(v) for v in res.values()):
        return []
    return [("or", [("!=", v) for v in res.values() if v.free_symbols])]


class LemmaCase(Case):
    """prog(L, *ks): runs the real code, records claims on the Ledger."""

    def __init__(self, name, prog, nk, gens="a b c", fork=False, doc="", raises=(), **kw):
        super().__init__(name)
        self.prog, self.nk, self.fork, self.doc, self.raises = prog, nk, fork, doc, tuple(raises)
        self.gens = tuple(sp.symbols(gens + " ,")) if gens else ()
        for k, v in kw.items():
            setattr(self, k, v)

    def body(self, E):
        E.rdepth = 0
        ks = [E.symbol(f"k{i}") for i in range(self.nk)]
        if self.fork:
            ks = [k if rt.sx_cmp("!=", k, 0) else S.Zero for k in ks]
        L = Ledger(E, self.gens)
        try:
            self.prog(L, *ks)
        except Unresolved as e:
            raise OutOfReach(f"entry point missing: {e}")
        except Exception as e:
            if type(e).__name__ in self.raises:
                L.note(type(e).__name__)
            else:
                raise
        return L

    def checks(self, E, L):
        yield from L.claims()

    def concrete(self, vals):
        ks = [sp.sympify(vals.get(f"k{i}", 0)) for i in range(self.nk)]
        L = Ledger(None, self.gens)
        try:
            self.prog(L, *ks)
        except (Skip, Unresolved):
            return None, "skip"
        except Exception as e:
            if type(e).__name__ in self.raises:
                L.note(type(e).__name__)
            else:
                return f"raised {type(e).__name__}: {e} on {dict(vals)}", "raise"
        return L.verdict(), self.outcome(L)

    def outcome(self, L):
        return ";".join(L.notes)

    def bounds(self):
        return f"{self.nk} real symbols; {self.doc or self.name}"
