"""Families of polynomials around recorded inequalities, with symbolic coefficients."""
import json, os
import sympy as sp
from sympy import Rational
from .case import ProofCase
from . import stubs

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_F = None
T = "triples.core.structsos.ternary.solver:"


def families():
    global _F
    if _F is None:
        _F = json.load(open(os.path.join(HERE, "data", "families.json")))
        for i, x in enumerate(_F):
            x["id"] = i
            x["d"] = {tuple(map(int, k.split(","))): sp.sympify(v) for k, v in x["coeffs"].items()}
            x["cyc"] = all(x["d"].get((m[1], m[2], m[0]), 0) == v for m, v in x["d"].items())
            x["sym"] = x["cyc"] and all(x["d"].get((m[1], m[0], m[2]), 0) == v for m, v in x["d"].items())
    return _F


def orbit(m, cyc, sym):
    if not cyc:
        return {m}
    o = {m, (m[1], m[2], m[0]), (m[2], m[0], m[1])}
    if sym:
        o |= {(y, x, z) for x, y, z in o}
    return o


def build(x, nk=2, pick=0):
    """terms(k...) for P0 + k0*(O1 - r*Oc) + k1*Oc; pick='ker' (symmetric, degree >= 6):
    P0 + k0*(a-b)^2(b-c)^2(c-a)^2*sum(monomial), which keeps the symmetric axis;
    pick='bump': P0 + k0*Oc"""
    d, deg = x["d"], x["deg"]
    if pick == "ker":
        a, b, c = sp.symbols("a b c")
        e = deg - 6
        m = (e - 2 * (e // 3), e // 3, e // 3)
        o = orbit(m, True, True)
        q = sp.Poly(((a - b)*(b - c)*(c - a))**2 * sum(a**i*b**j*c**k for i, j, k in o), a, b, c)

        def terms(*k):
            out = dict(d)
            for m, v in q.terms():
                out[m] = out.get(m, 0) + k[0] * v
            return out
        return terms, "(a-b)^2(b-c)^2(c-a)^2*" + str(m), ""
    q, r = divmod(deg, 3)
    cen = orbit((q + (r > 0), q + (r > 1), q), x["cyc"], x["sym"])
    if not x["cyc"]:
        cen = orbit((deg - 2, 1, 1), False, False)
    orbs = []
    for m in sorted(d, reverse=True):
        o = frozenset(orbit(m, x["cyc"], x["sym"]))
        if o not in orbs and o != frozenset(cen):
            orbs.append(o)
    cand = [o for o in orbs if not any(deg in m for m in o)] or orbs
    if pick == "bump":
        def terms(*k):
            out = dict(d)
            for m in cen:
                out[m] = out.get(m, 0) + k[0]
            return out
        return terms, sorted(cen)[-1], ""
    o1 = cand[pick % len(cand)]

    def terms(*k):
        out = dict(d)
        for m in o1:
            out[m] = out.get(m, 0) + k[0]
        for m in cen:
            out[m] = out.get(m, 0) - k[0] * Rational(len(o1), len(cen))
            if nk > 1:
                out[m] += k[1]
        return out
    return terms, sorted(o1)[-1], sorted(cen)[-1]


class FamilyCase(ProofCase):
    def __init__(self, x, nk=2, pick=0, **kw):
        terms, o1, cen = build(x, nk, pick)
        self.x = x
        super().__init__(f"{x['func'].replace('_sos_struct_', '').replace('sos_struct_', '')}#{x['id']}" + (f".{pick}" if pick else ""),
                         T + ("_structural_sos_3vars_cyclic" if x["cyc"] else "_structural_sos_3vars_acyclic"),
                         terms, nk, pattern=("." * nk), seeds=[{f"k{i}": 0 for i in range(nk)}], **kw)
        self.dirs = (o1, cen)

    def body(self, E):
        E.rdepth = 0
        return super().body(E)

    def bounds(self):
        return f"degree {self.x['deg']}: {self.x['text']} + k0*orbit{self.dirs[0]} (sum kept) + k1*orbit{self.dirs[1]}, k real"


class CellCase(ProofCase):
    """Every orbit coefficient symbolic; exploration starts from the recorded inequalities
    of the group, so each decided path is a cell of the whole coefficient space."""

    def __init__(self, name, xs, **kw):
        self.xs = xs
        x0 = xs[0]
        deg, cyc, sym = x0["deg"], x0["cyc"], all(x["sym"] for x in xs)
        self.orbs = []
        for m in sorted({m for x in xs for m in x["d"]} if not cyc else
                        {(i, j, deg - i - j) for i in range(deg + 1) for j in range(deg + 1 - i)}, reverse=True):
            o = sorted(orbit(m, cyc, sym), reverse=True)
            if o[0] == m:
                self.orbs.append(o)

        def terms(*k):
            return {m: v for o, v in zip(self.orbs, k) for m in o}
        seeds = [{f"k{i}": x["d"].get(o[0], 0) for i, o in enumerate(self.orbs)} for x in xs]
        super().__init__(name, T + ("_structural_sos_3vars_cyclic" if cyc else "_structural_sos_3vars_acyclic"),
                         terms, len(self.orbs), seeds=seeds, **kw)

    def body(self, E):
        E.rdepth = 0
        return super().body(E)

    def bounds(self):
        return f"all {len(self.orbs)} orbit coefficients of degree {self.xs[0]['deg']} real, exploration seeded with {len(self.xs)} recorded inequalities"
