"""Contracts for numeric heuristics and recursive provers, used only while an Engine is
active and only when an argument depends on the symbolic inputs.  A heuristic (root
finder, rationaliser, ...) becomes an oracle returning arbitrary values, constrained by
nothing but its documented contract; a recursive prover becomes an opaque certificate of
exactly the polynomial it was given.  What the code under test then does with those
values is executed symbolically.  The contracts themselves are checked by C14 and by
induction on the provers' own harnesses."""
import sys, functools
import sympy as sp
from sympy import Rational, Integer, S, Poly, Expr, Symbol
from . import rt
from .engine import Prune, OutOfReach, Degenerate, ShadowFail


def sym(x):
    """x depends on the engine's symbols."""
    E = rt.ENGINE
    if E is None or x is None:
        return False
    if isinstance(x, (list, tuple)):
        return any(sym(y) for y in x)
    fs = getattr(x, "free_symbols", None)
    if fs is None:
        cs = getattr(x, "coeffs", None)
        return isinstance(cs, dict) and any(sym(v) for v in cs.values())
    if isinstance(x, Poly):
        dom = x.domain
        if not (getattr(dom, "symbols", None) or dom.is_EX):
            return False
        fs = set().union(*[c.free_symbols for c in x.coeffs()])
    return bool(fs) and E.touches(fs)


def clean(x):
    """A polynomial whose coefficients are in fact numbers, over the numbers."""
    if isinstance(x, Poly) and (getattr(x.domain, "symbols", None) or x.domain.is_EX) and not sym(x):
        return Poly(x.as_expr(), *x.gens) if not x.is_zero else Poly(0, *x.gens)
    if type(x) in (list, tuple):
        return type(x)(clean(y) for y in x)
    return x


def at(x, model):
    if isinstance(x, Poly):
        return Poly(x.as_expr().xreplace(model), *x.gens)
    if isinstance(x, (list, tuple)):
        return type(x)(at(y, model) for y in x)
    if isinstance(x, Expr):
        return x.xreplace(model)
    return x


class Concrete:
    """A heuristic's actual answer at the witness of the path, kept as a number."""

    def __init__(self, v):
        self.value, self.key = v, str(v)

    def __eq__(self, o):
        return isinstance(o, Concrete) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


# ---- oracle -----------------------------------------------------------------------
def structure(v):
    if v is None or isinstance(v, (bool, str)):
        return ("c", v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(structure(x) for x in v)
    v = sp.sympify(v)
    if isinstance(v, Integer) and False:
        return ("c", v)
    return "q" if isinstance(v, Rational) else "x"


def leaves(v, out):
    if isinstance(v, (list, tuple)):
        for x in v:
            leaves(x, out)
    elif not (v is None or isinstance(v, (bool, str))):
        out.append(v)
    return out


def oracle(fn, defaults=(), alts=(), conc="all"):
    """The structure of fn()'s result at the current model, with every number replaced
    by a fresh symbol.  `defaults`: structures tried when there is no model."""
    E = rt.ENGINE
    i = len(E.trace)
    vals = None
    if i < len(E.prefix):
        st = E.prefix[i]
        if isinstance(st, Concrete):        # same value as when the prefix was recorded
            E.trace.append(st)
            E.stubbed = True
            return st.value
        if E.model is not None:
            r = E.shadow_call(fn)
            if r is not None and structure(r) == st:
                vals = leaves(r, [])
    else:
        r = E.shadow_call(fn)
        known = E.model is not None and not (r is None and None not in [d[1] for d in alts if isinstance(d, tuple) and d and d[0] == "c"])
        if r is None and E.model is not None and ("c", None) not in alts:
            E.model = None
        if E.model is not None:
            st = structure(r)
            vals = leaves(r, [])
            if E.concretise and vals and (conc == "all" or conc == "x" and "q" not in str(st)):
                st = Concrete(r)
            for a in alts:
                if a != st:
                    E.push(E.trace + [a], None)
        else:
            opts = list(defaults or alts)
            if not opts:
                raise OutOfReach("numeric heuristic without a model")
            st = opts[0]
            for o in reversed(opts[1:]):
                E.push(E.trace + [o], None)
    E.trace.append(st)
    E.stubbed = True
    if isinstance(st, Concrete):
        return st.value
    it = iter(vals) if vals is not None else None

    def build(s):
        if isinstance(s, tuple):
            if s[0] == "c":
                return s[1]
            return (list if s[0] == "list" else tuple)(build(x) for x in s[1:])
        v = next(it) if it is not None else None
        if v is not None:
            v = sp.sympify(v)
            if not v.is_Rational:
                v = Rational(str(v.evalf(30))) if v.is_real else None
        f = E.fresh("q" if s == "q" else "x", v)
        if s == "x":
            E.inexact.add(f)
        return f
    return build(st)


def pin(poly):
    """Restrict the path to the slice on which the polynomial is the one at the path's
    witness (other slices are separate paths); the inputs this determines are eliminated
    and the path starts again, so that the real routine then runs on numbers."""
    E = rt.ENGINE
    if not (E.concolic and E.restarts) or E.shadow is not None:
        raise OutOfReach("symbolic polynomial given to a numeric routine")
    for c in poly.coeffs():
        if not E.touches(c.free_symbols):
            continue
        while True:
            i = len(E.trace)
            if i < len(E.prefix):
                st = E.prefix[i]
            else:
                v = c.xreplace(E.model) if E.model is not None else None
                if v is None or not v.is_Rational:
                    raise OutOfReach("symbolic polynomial given to a numeric routine")
                st = Concrete(v)
            E.trace.append(st)
            if E.decide("==", c - st.value):
                break
    raise OutOfReach("symbolic polynomial given to a numeric routine")


def approx(fn):
    """a number near the value of fn()"""
    return oracle(fn, defaults=["x"])


# ---- replacements -----------------------------------------------------------------------
REPL = {}


def stub(*names):
    def deco(f):
        for n in names:
            REPL[n] = f
        return f
    return deco


@stub("triples.core.structsos.utils:rationalize_func")
def rationalize_func(orig, poly, validation, validation_initial=None, direction=0):
    E = rt.ENGINE
    if E is None or E.shadow is not None:
        return orig(poly, validation, validation_initial, direction)
    m = lambda: E.shadow
    def run():
        return orig(at(poly, E.shadow), validation, validation_initial, direction)
    t = oracle(run, defaults=["q", ("c", None)], alts=[("c", None), "q"])
    if t is None:
        return None
    if isinstance(poly, Poly) and direction:
        E.assume(">=" if direction > 0 else "<=", poly(t))
    if not rt.sx_truth(validation(t)):
        raise Prune()
    return t


def _oracle_of(orig, args, kw, defaults=(), alts=(), conc="all"):
    E = rt.ENGINE
    return oracle(lambda: orig(*[at(x, E.shadow) for x in args], **kw), defaults, alts, conc)


@stub("triples.utils.roots.rationalize:nroots")
def nroots(orig, poly, *a, **kw):
    if not sym(poly):
        return orig(poly, *a, **kw)
    r = _oracle_of(orig, (poly,) + a, kw, defaults=[("list", "x"), ("list", "q"), ("list",)], conc="x")
    for v in r:
        if v not in rt.ENGINE.inexact and v.free_symbols:
            rt.ENGINE.assume("==", poly(v))
        if kw.get("nonnegative"):
            rt.ENGINE.assume(">=", v)
    return r


@stub("sympy.polys.polytools:nroots")
def sp_nroots(orig, f, *a, **kw):
    if not sym(f):
        return orig(f, *a, **kw)
    return _oracle_of(orig, (f,) + a, kw, defaults=[("list", "x"), ("list",)])


@stub("sympy.polys.polyroots:roots")
def sp_roots(orig, f, *a, **kw):
    if not sym(f):
        return orig(f, *a, **kw)
    E = rt.ENGINE
    def run():
        d = orig(at(f, E.shadow), *a, **kw)
        return [r for r in d if r.is_real]
    rs = oracle(run, defaults=[("list", "q"), ("list", "x"), ("list",)], conc="none")
    for v in rs:
        E.assume("==", f(v))
        E.inexact.discard(v)     # exact algebraic number
        E.irrational.add(v)
    return {r: 1 for r in rs}


@stub("sympy.polys.polytools:intervals")
def sp_intervals(orig, F, *a, **kw):
    if not sym(F):
        return orig(F, *a, **kw)
    E = rt.ENGINE
    def run():
        return [[list(i[0]), 0] for i in orig(at(F, E.shadow), *a, **kw)]
    r = oracle(run, defaults=[("list",), ("list", ("list", ("list", "q", "q"), "q"))])
    return [((i[0][0], i[0][1]), 1) for i in r]


@stub("triples.utils.roots.rationalize:univariate_intervals")
def univariate_intervals(orig, polys):
    if not sym(polys):
        return orig(polys)
    E = rt.ENGINE
    return iter(oracle(lambda: list(orig(at(polys, E.shadow))), defaults=[("list",), ("list", "q")]))


@stub("triples.core.structsos.utils:intervals")
def intervals(orig, polys):
    if not sym(polys):
        return orig(polys)
    E = rt.ENGINE
    return oracle(lambda: orig(at(polys, E.shadow)), defaults=[("list", "q")])


@stub("triples.utils.roots.rationalize:rationalize")
def rationalize(orig, v, *a, **kw):
    if not sym(v):
        return orig(v, *a, **kw)
    if rt.ENGINE.rational_like(v):
        return v
    return _oracle_of(orig, (v,) + a, kw, defaults=["q"])


@stub("triples.utils.roots.rationalize:rationalize_bound")
def rationalize_bound(orig, v, direction=1, roundings=None, compulsory=True):
    if not sym(v):
        yield from orig(v, direction, roundings, compulsory)
        return
    E = rt.ENGINE
    if E.rational_like(v):
        yield v
        return
    qs = oracle(lambda: list(orig(at(v, E.shadow).evalf(20), direction, roundings, compulsory))[:6], defaults=[("list", "q")])
    for q in qs:
        if direction:
            E.assume(">" if direction > 0 else "<", q - v)
        yield q


@stub("triples.utils.roots.rationalize:square_perturbation")
def square_perturbation(orig, a, b, times=4):
    if not (sym(a) or sym(b)):
        yield from orig(a, b, times)
        return
    E = rt.ENGINE
    gt = rt.sx_cmp(">", a, b)
    def run():
        out = []
        x, y = at(a, E.shadow), at(b, E.shadow)
        for t in orig(x, y, times):
            z = sp.sqrt((x - t) / (y - t) if x > y else (y - t) / (x - t))
            if z.is_Rational:
                out.append(z)
        return out[:2]
    zs = oracle(run, defaults=[("list", "q"), ("list",)])
    for z in zs:
        E.assume(">", z - 1)
        t = (a - z*z*b) / (1 - z*z) if gt else (b - z*z*a) / (1 - z*z)
        E.assume(">=", t)
        E.assume(">=", (b if gt else a) - t)
        yield t


@stub("triples.utils.roots.rationalize:common_region_of_conics")
def common_region_of_conics(orig, polys, *a, **kw):
    if not sym(polys):
        return orig(polys, *a, **kw)
    E = rt.ENGINE
    r = oracle(lambda: orig(at(list(polys), E.shadow)), defaults=[("tuple", "q", "q"), ("c", None)], alts=[("c", None)])
    if r is not None:
        for p in polys:
            E.assume(">=", p(*r))
    return r


@stub("triples.utils.roots.rationalize:cancel_denominator")
def cancel_denominator(orig, nums):
    nums = list(nums)
    if not sym(nums):
        return orig(nums)
    E = rt.ENGINE
    r = oracle(lambda: orig([x for x in at(nums, E.shadow)]), defaults=["q"])
    E.assume(">", r)
    return r


@stub("triples.core.structsos.utils:radsimp")
def radsimp(orig, expr):
    """Contract: value-preserving (checked by its own harness)."""
    E = rt.ENGINE
    if E is None:
        return orig(expr)
    if isinstance(expr, (list, tuple, sp.MatrixBase)):
        return [radsimp(orig, e) for e in expr]
    if isinstance(expr, Expr) and expr.free_symbols and E.touches(expr.free_symbols):
        return expr
    return orig(expr)


@stub("sympy.functions.elementary.integers:floor")
def floor(orig, x, *a, **kw):
    return rt.sx_floor(x) if sym(x) else orig(x, *a, **kw)


@stub("sympy.simplify.simplify:nsimplify")
def nsimplify(orig, expr, *a, **kw):
    if not sym(expr):
        return orig(expr, *a, **kw)
    return _oracle_of(orig, (expr,) + a, kw, defaults=["q"])


# ---- opaque certificates ------------------------------------------------------------------
def opaque(poly_expr, args):
    E = rt.ENGINE
    E.ncert += 1
    f = sp.Function(f"Cert{E.ncert}")
    E.certs[f"Cert{E.ncert}"] = (tuple(args), poly_expr)
    return f(*args)


def _coeff_expr(coeff):
    if isinstance(coeff, Poly):
        return coeff.as_expr(), coeff.gens
    gens = sp.symbols("a b c d e f g h")[:len(next(iter(coeff.coeffs)))] if coeff.coeffs else sp.symbols("a b c")
    return sp.Add(*[v * sp.Mul(*[g**e for g, e in zip(gens, m)]) for m, v in coeff.coeffs.items()]), gens


def outcome(key, fn):
    """Does the recursive prover succeed?  Taken from a concrete run at the current
    model (a None alternative is explored only on request)."""
    E = rt.ENGINE
    E.stubbed = True
    i = len(E.trace)
    if i < len(E.prefix):
        r = E.prefix[i]
        E.trace.append(r)
        return r == 0
    if E.shadow is not None:
        raise ShadowFail()
    first = 0
    if E.model is not None:
        ck = (key, tuple(sorted((s.name, v) for s, v in E.model.items())))
        if ck not in E.rcache:
            E.rcache[ck] = E.shadow_call(lambda: "none" if fn() is None else "some")
        first = 1 if E.rcache[ck] == "none" else 0
    if E.explore_none:
        return E.choose(2, first) == 0
    E.trace.append(first)
    return first == 0


def recursive(orig, coeff, *a, **kw):
    if rt.ENGINE is None or not sym(coeff):
        return orig(coeff, *a, **kw)
    E = rt.ENGINE
    if E.shadow is not None:
        from triples.utils import Coeff
        return orig(at(coeff, E.shadow) if isinstance(coeff, Poly) else Coeff({m: at(v, E.shadow) for m, v in coeff.coeffs.items()}), *a, **kw)
    if E.rdepth == 0:
        E.rdepth = 1
        return orig(coeff, *a, **kw)
    e, gens = _coeff_expr(coeff)
    if not outcome(e, lambda: recursive(orig, coeff, *a, **kw)):
        return None
    return opaque(e, gens)


for _n in ("triples.core.structsos.ternary.solver:_structural_sos_3vars_cyclic",
           "triples.core.structsos.ternary.solver:_structural_sos_3vars_acyclic",):
    REPL[_n] = recursive


@stub("triples.core.structsos.pivoting.univariate:prove_univariate")
def prove_univariate(orig, poly, return_raw=False, *a, **kw):
    if not sym(poly):
        return orig(poly, return_raw, *a, **kw)
    E = rt.ENGINE
    if return_raw:
        if E.shadow is not None:
            return orig(at(poly, E.shadow), return_raw, *a, **kw)
        pin(poly)
    if E.shadow is not None:
        return orig(at(poly, E.shadow), return_raw, *a, **kw)
    if not outcome(poly.as_expr(), lambda: orig(at(poly, E.shadow), return_raw, *a, **kw)):
        return None
    x = poly.gen if isinstance(poly, Poly) else None
    return opaque(poly.as_expr(), (x,))


@stub("triples.core.structsos.pivoting.univariate:prove_univariate_interval")
def prove_univariate_interval(orig, poly, interval, *a, **kw):
    if not sym(poly) and not sym(interval):
        return orig(poly, interval, *a, **kw)
    raise OutOfReach("interval certificate of a symbolic polynomial")


def resolve(path):
    import importlib
    mod, fn = path.split(":")
    m = importlib.import_module(mod)
    for part in fn.split("."):
        m = getattr(m, part)
    return m


def install(names=None):
    """Replace the originals everywhere in triples.* (and in sympy.polys for the sympy
    root functions, in a way which falls through for concrete arguments)."""
    done = []
    for path, f in REPL.items():
        if names is not None and path not in names:
            continue
        try:
            orig = resolve(path)
        except Exception:
            continue

        def wrap(orig=orig, f=f):
            @functools.wraps(orig)
            def w(*a, **k):
                if rt.ENGINE is None:
                    return orig(*a, **k)
                return f(orig, *[clean(x) for x in a], **k)
            return w
        w = wrap()
        for name, m in list(sys.modules.items()):
            if m is None or not (name.startswith("triples") or name.startswith("sympy.polys") or name == "sympy" or name == "sympy.simplify"):
                continue
            for k, v in list(vars(m).items()):
                if v is orig and not (name.startswith("sympy.polys.poly") and name != "sympy.polys.polytools" and False):
                    if name.startswith("sympy.") and name not in ("sympy.polys", "sympy.polys.polytools", "sympy.polys.polyroots", "sympy.simplify"):
                        continue
                    setattr(m, k, w)
                elif isinstance(v, dict) and name.startswith("triples"):
                    for kk, vv in list(v.items()):
                        if vv is orig:
                            v[kk] = w
        reg_patch(orig, w)
        done.append(path)
    patch_methods()
    return done


def reg_patch(orig, w):
    """Solver registries (SS.structsos.ternary...)"""
    try:
        from triples.core.shared import SS
    except Exception:
        return
    seen = set()
    def walk(o, d):
        if id(o) in seen or d > 5:
            return
        seen.add(id(o))
        for k, v in list(getattr(o, "__dict__", {}).items()):
            if v is orig:
                setattr(o, k, w)
            elif isinstance(v, dict):
                for kk, vv in list(v.items()):
                    if vv is orig:
                        v[kk] = w
            elif type(v).__module__.startswith("triples"):
                walk(v, d + 1)
    walk(SS, 0)


_patched = False


def patch_methods():
    global _patched
    if _patched:
        return
    _patched = True

    def guard(cls, name, f):
        orig = getattr(cls, name)

        @functools.wraps(orig)
        def w(self, *a, **k):
            if rt.ENGINE is None or not sym(self):
                return orig(self, *a, **k)
            return f(orig, self, *a, **k)
        setattr(cls, name, w)

    def out(what):
        def f(orig, self, *a, **k):
            raise OutOfReach(what)
        return f
    guard(Poly, "intervals", lambda orig, self, *a, **k: sp_intervals(lambda F, *aa, **kk: orig(F, *aa, **kk), self, *a, **k))
    guard(Poly, "nroots", lambda orig, self, *a, **k: sp_nroots(lambda F, *aa, **kk: orig(F, *aa, **kk), self, *a, **k))

    def settled(orig, self, *a, **k):
        """degree and leading coefficient: is the symbolic leading coefficient zero?"""
        if len(self.gens) == 1 and rt.ENGINE.symbolic_domain(self.domain):
            p = self
            while not p.is_zero and sym(orig_LC(p)):
                if not rt.ENGINE.decide("==", orig_LC(p)):
                    break
                p = Poly(dict(p.terms()[1:]) or {(0,): 0}, *p.gens)
            if p is not self:
                return orig(clean(p), *a, **k)
        return orig(self, *a, **k)
    orig_LC = Poly.LC
    for n in ("degree", "LC", "all_coeffs"):
        guard(Poly, n, settled)

    def pinned(orig, self, *a, **k):
        E = rt.ENGINE
        if E.shadow is not None:
            return orig(at(self, E.shadow), *a, **k)
        pin(self)
    for n in ("count_roots", "real_roots", "refine_root"):
        guard(Poly, n, pinned)
    extraction()
    from sympy.core.expr import Expr as _E

    def keep(orig, self, *a, **k):
        return self
    guard(_E, "radsimp", keep)


def weights(e):
    """the numerical factors of every product as one number, as they are on numbers"""
    E = rt.ENGINE
    if not isinstance(e, Expr) or not e.args or not sym(e):
        return e
    if e.free_symbols <= E.K:
        return e
    if isinstance(e, sp.Mul):
        num = [x for x in e.args if x.free_symbols <= E.K]
        rest = [weights(x) for x in e.args if not x.free_symbols <= E.K]
        n = sp.Mul(*num)
        return sp.Mul(*([n] if n != 1 else []), *rest, evaluate=False) if len(num) > 1 else sp.Mul(*num, *rest, evaluate=False)
    if isinstance(e, sp.Add):
        num = [x for x in e.args if x.free_symbols <= E.K]
        rest = [weights(x) for x in e.args if not x.free_symbols <= E.K]
        return sp.Add(*([sp.Add(*num)] if num else []), *rest, evaluate=False)
    if isinstance(e, sp.Pow):
        return sp.Pow(weights(e.base), e.exp, evaluate=False)
    if type(e).__name__ in ("CyclicSum", "CyclicProduct"):
        return e.func(weights(e.args[0]), *e.args[1:], evaluate=False)
    return e


def extraction():
    """SolutionStructural._extract_nonnegative_exprs looks at the arguments of products:
    there a number is one argument, never several"""
    try:
        from triples.core.structsos.solution import SolutionStructural as C
        orig = C.__dict__["_extract_nonnegative_exprs"].__func__
    except (ImportError, KeyError, AttributeError):
        return

    @functools.wraps(orig)
    def w(cls, expr, *a, **k):
        if rt.ENGINE is not None and isinstance(expr, Expr) and sym(expr):
            expr = weights(expr)
        return orig(cls, expr, *a, **k)
    C._extract_nonnegative_exprs = classmethod(w)
