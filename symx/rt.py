"""Runtime called by the transformed code of /repo.  With no engine active every
function here falls through to the native operation."""
import builtins, operator, sys
import sympy as sp
from sympy.core.relational import Relational
from sympy.core.expr import Expr
from sympy import Rational, Number, Poly, MatrixBase, QQ
from sympy.polys.domains.domain import Domain
from sympy.polys.rings import PolyElement
from sympy.polys.fields import FracElement

ENGINE = None          # the active Engine, or None
_OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def _is_symbolic(x):
    """A value whose truth depends on the symbolic inputs only."""
    e = ENGINE
    if e is None or not isinstance(x, Expr) or isinstance(x, Number):
        return False
    fs = x.free_symbols
    return bool(fs) and e.owns(fs)


def _ring(x):
    return x.as_expr() if isinstance(x, (PolyElement, FracElement)) and ENGINE.symbolic_domain(_dom(x)) else x


def _dom(x):
    return x.ring.to_domain() if isinstance(x, PolyElement) else x.field.to_domain()


def sx_cmp(op, l, r):
    if ENGINE is not None:
        if isinstance(l, (PolyElement, FracElement)):
            l, r = _ring(l), _ring(r)
        h = getattr(l, "__sx_cmp_hook__", None) or getattr(r, "__sx_cmp_hook__", None)
        if h is not None:
            return h(op, l, r)
        if op in ("==", "!=") and isinstance(l, MatrixBase) and isinstance(r, MatrixBase) and (ENGINE.touches(l.free_symbols) or ENGINE.touches(r.free_symbols)):
            same = l.shape == r.shape and all(sx_cmp("==", x - y, sp.S.Zero) for x, y in zip(l, r))
            return same == (op == "==")
        if isinstance(l, Expr) and not isinstance(r, str):
            if _is_symbolic(l) and (isinstance(r, (int, float)) or (isinstance(r, Expr) and (not r.free_symbols or _is_symbolic(r)))):
                return ENGINE.decide_cmp(op, l, sp.sympify(r))
            if isinstance(r, Expr) and _is_symbolic(r) and not l.free_symbols:
                return ENGINE.decide_cmp(op, l, r)
            if op in ("==", "!=") and isinstance(r, (int, Number)) and ENGINE.touches(l.free_symbols) and not ENGINE.owns(l.free_symbols):
                return ENGINE.decide_zero_poly(op, l, r)
        elif isinstance(l, (int, float)) and _is_symbolic(r):
            return ENGINE.decide_cmp(op, sp.sympify(l), r)
    return _OPS[op](l, r)


def sx_chain(ops, first, second, *rest):
    left, right = first, second
    for i, op in enumerate(ops):
        v = sx_cmp(op, left, right)
        if not v:
            return v
        if i + 1 < len(ops):
            left, right = right, rest[i]()
    return v


def sx_truth(x):
    if ENGINE is not None:
        if isinstance(x, (PolyElement, FracElement)):
            x = _ring(x)
        h = getattr(x, "__sx_truth_hook__", None)
        if h is not None:
            return h()
        if isinstance(x, Relational) and ENGINE.touches(x.free_symbols):
            return ENGINE.decide_rel(x)
        if _is_symbolic(x):
            return ENGINE.decide_cmp("!=", x, sp.S.Zero)
    return bool(x)


def sx_div(l, r):
    if ENGINE is not None and _is_symbolic(r):
        if not ENGINE.decide_cmp("!=", r, sp.S.Zero):
            raise ENGINE.Degenerate("division by zero")
    return l / r


def sx_floordiv(l, r):
    if ENGINE is not None and (_is_symbolic(l) or _is_symbolic(r)):
        return sx_floor(sx_div(sp.sympify(l), sp.sympify(r)))
    return l // r


def sx_floor(x):
    """Integer part: concretised at the current model, the bracket becomes a branch."""
    e = ENGINE
    if e is None or not _is_symbolic(x):
        return sp.floor(x)
    n = e.concrete_floor(x)
    return sp.Integer(n)


def sx_pow(l, r):
    if ENGINE is not None and isinstance(l, Expr) and _is_symbolic(l):
        if isinstance(r, (int, Number)):
            if r < 0:
                if not ENGINE.decide_cmp("!=", l, sp.S.Zero):
                    raise ENGINE.Degenerate("division by zero")
    return l ** r


def sx_attr(x, name):
    if name == "free_symbols":      # the inputs stand for numbers
        v = x.free_symbols
        return v if ENGINE is None or not isinstance(v, (set, frozenset)) else set(v) - ENGINE.K
    if ENGINE is not None and isinstance(x, Expr) and not isinstance(x, Number) and _is_symbolic(x):
        e = ENGINE
        if name == "is_zero":
            return e.decide_cmp("==", x, sp.S.Zero)
        if name == "is_nonzero":
            return e.decide_cmp("!=", x, sp.S.Zero)
        if name == "is_positive":
            return e.decide_cmp(">", x, sp.S.Zero)
        if name == "is_negative":
            return e.decide_cmp("<", x, sp.S.Zero)
        if name == "is_nonnegative":
            return e.decide_cmp(">=", x, sp.S.Zero)
        if name == "is_nonpositive":
            return e.decide_cmp("<=", x, sp.S.Zero)
        if name in ("is_rational", "is_Rational", "is_Number"):
            return e.rational_like(x)
        if name in ("is_real", "is_number", "is_finite"):
            return True
        if name in ("is_Float",):
            return False
    if ENGINE is not None and name in ("is_zero", "is_ground") and isinstance(x, Poly) and ENGINE.symbolic_domain(x.domain):
        if name == "is_ground" and getattr(x, name):
            return True
        return all(ENGINE.decide_cmp("==", c, sp.S.Zero) if _is_symbolic(c) else c == 0
                   for m, c in x.terms() if name == "is_zero" or any(m))
    if ENGINE is not None and name == "is_zero_matrix" and isinstance(x, MatrixBase) and ENGINE.touches(x.free_symbols):
        return all(ENGINE.decide_cmp("==", c, sp.S.Zero) if _is_symbolic(c) else c == 0 for c in x)
    if ENGINE is not None and name in ("is_Numerical",):
        return True if getattr(x, name) or ENGINE.symbolic_domain(x) else False
    return getattr(x, name)


_RECAST = (sp.Symbol, sp.Add, sp.Mul)


def sx_isinstance(x, cls):
    if ENGINE is not None and isinstance(x, Expr) and not isinstance(x, Number):
        t = cls if isinstance(cls, tuple) else (cls,)
        native = builtins.isinstance(x, tuple(c for c in t if isinstance(c, type)))
        if not native and not any(c is Rational or c is Number for c in t):
            return False
        if native and not any(c in _RECAST for c in t) or not _is_symbolic(x):
            return native
        if ENGINE.rational_like(x):  # the inputs stand for rational numbers
            t = tuple(c for c in t if c not in (sp.Symbol, sp.Add, sp.Mul))
        if isinstance(x, tuple(c for c in t if isinstance(c, type))):
            return True
        if any(c is Rational or c is Number for c in t):
            return ENGINE.rational_like(x)
        return False
    return builtins.isinstance(x, cls)


def sx_any(it):
    for x in it:
        if sx_truth(x):
            return True
    return False


def sx_all(it):
    for x in it:
        if not sx_truth(x):
            return False
    return True


def sx_in(x, xs):
    """membership; the domain of a polynomial in the inputs counts as the rationals"""
    if ENGINE is not None and isinstance(x, Domain) and ENGINE.symbolic_domain(x) and \
            sys._getframe(1).f_globals.get("__name__", "").startswith("triples.core."):
        return any(y == QQ for y in xs)
    return x in xs


INJECT = {"__sx_in__": sx_in, "__sx_cmp__": sx_cmp, "__sx_chain__": sx_chain, "__sx_truth__": sx_truth, "__sx_div__": sx_div,
          "__sx_pow__": sx_pow, "__sx_floordiv__": sx_floordiv, "__sx_attr__": sx_attr, "isinstance": sx_isinstance, "any": sx_any, "all": sx_all}

_native_bool = Relational.__bool__


def _rel_bool(self):
    if ENGINE is not None:
        g = sys._getframe(1).f_globals.get("__name__", "")
        if g.startswith("triples") and ENGINE.touches(self.free_symbols):
            return ENGINE.decide_rel(self)
    return _native_bool(self)


def _patch_evalf():
    """Numerical evaluation of a symbolic value by the code under test: any number close
    to it, so an unconstrained fresh one."""
    from sympy.core.evalf import EvalfMixin
    for nm in ("evalf", "n"):
        orig = getattr(EvalfMixin, nm)

        def w(self, *a, __orig=orig, **k):
            if ENGINE is not None and _is_symbolic(self) and sys._getframe(1).f_globals.get("__name__", "").startswith("triples"):
                if ENGINE.shadow is not None:
                    return __orig(self.xreplace(ENGINE.shadow), *a, **k)
                from . import stubs
                return stubs.approx(lambda: __orig(self.xreplace(ENGINE.shadow), *a, **k))
            return __orig(self, *a, **k)
        setattr(EvalfMixin, nm, w)
    from sympy.core.expr import Expr as E2
    for nm in ("evalf", "n"):
        if nm in E2.__dict__:
            raise RuntimeError("evalf layout")


def _patch_pivots():
    """sympy's own row reduction picks pivots as it would on numbers: the first entry
    that is not zero, by a decision of the engine"""
    import sympy.matrices.reductions as red
    import sympy.matrices.determinant as det
    orig = red._find_reasonable_pivot

    def pivot(col, iszerofunc=None, simpfunc=None, *a, **k):
        col = list(col)
        if ENGINE is None or not any(_is_symbolic(x) for x in col):
            return orig(col, *((iszerofunc,) if iszerofunc else ()), *((simpfunc,) if simpfunc else ()), *a, **k)
        new = []
        for i, x in enumerate(col):
            if not sx_cmp("==", x, sp.S.Zero):
                return i, x, False, new
            new.append((i, sp.S.Zero))
        return None, None, False, new
    red._find_reasonable_pivot = pivot
    det._find_reasonable_pivot = pivot


def install():
    _patch_evalf()
    _patch_pivots()
    Relational.__bool__ = _rel_bool
    Relational.__nonzero__ = _rel_bool
