"""Helpers of the demonstrations: is a returned expression a genuine proof?"""
import os, sys, random
sys.path.insert(0, os.getcwd())
import sympy as sp
from sympy import *
from triples.utils import *
from triples.utils.expression.cyclic import *
a, b, c, d = sp.symbols("a b c d")


def flat(e):
    for _ in range(6):
        n = e.doit()
        if n == e:
            break
        e = n
    return e


def terms(e):
    """sub-expressions that a reader takes to be nonnegative one by one"""
    if isinstance(e, (CyclicSum, CyclicProduct)):
        yield from terms(e.args[0])
    elif e.is_Add:
        for x in e.args:
            yield x
            yield from terms(x)
    elif e.is_Mul:
        for x in e.args:
            if x.is_number:
                yield x
            elif not (x.is_Pow and x.exp.is_integer and x.exp % 2 == 0):
                yield x
                yield from terms(x)
    elif e.is_Pow and e.exp.is_integer and e.exp % 2 == 1:
        yield from terms(e.base)


def genuine(sol, poly, gens, pts=40):
    """'' if sol equals poly and its additive terms are nonnegative on the nonnegative
    orthant (sampled), else a message"""
    poly = poly.as_expr() if isinstance(poly, Poly) else sp.sympify(poly)
    if sp.simplify(flat(sol) - poly) != 0 and sp.expand(sp.numer(sp.together(flat(sol) - poly))) != 0:
        return f"{sol} is not equal to {poly}"
    rnd = random.Random(1)
    P = [{g: sp.Rational(rnd.choice([0, 1, 1, 2, 3, 5, 7, 11, 30]), rnd.choice([1, 2, 3])) + sp.Rational(1, 10**6) for g in gens} for _ in range(pts)]
    top = sol.args if sol.is_Add else [sol]
    out = []
    for e in top:
        fs = [e] if not e.is_Mul else [e] + [x for x in e.args if x.is_Add]
        for f in fs:
            for x in ([f] if not f.is_Add else f.args):
                v = flat(x)
                if not v.free_symbols:
                    if v < 0:
                        return f"negative constant {x} in {sol}"
                    continue
                for p in P:
                    w = v.xreplace(p)
                    if w.is_finite and w < 0:
                        return f"the term {x} of {sol} is negative at {p}"
    return ""


def check(sol, poly, gens=(a, b, c)):
    m = genuine(sp.sympify(sol), poly, gens) if sol is not None else ""
    if m:
        print("NOT A PROOF:", m[:600])
        sys.exit(1)
    print("fine:", str(sol)[:200])
