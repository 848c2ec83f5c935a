"""Cyclic sums and products denote the sum/product over the whole permutation group."""
import sympy as sp
from sympy import symbols, Add, Mul
from sympy.combinatorics import Permutation as P, PermutationGroup as PG, SymmetricGroup, CyclicGroup, DihedralGroup, AlternatingGroup
from symx.case import LemmaCase
from symx import stubs, cert
a, b, c, d, e, f, x, y, z, u, v, w = symbols("a b c d e f x y z u v w")
M = "triples.utils.expression.cyclic:"
S3, S4, V4 = (a, b, c), (a, b, c, d), (a, b, c, d)
GROUPS = {
    "C3": ((a, b, c), lambda: CyclicGroup(3)), "S3": ((a, b, c), lambda: SymmetricGroup(3)),
    "C2": ((a, b, c), lambda: PG(P(2)(0, 1))), "C2b": ((a, b, c), lambda: PG(P(0, 2))),
    "C3o": ((c, a, b), lambda: CyclicGroup(3)), "C3r": ((b, a, c), lambda: CyclicGroup(3)),
    "C4": ((a, b, c, d), lambda: CyclicGroup(4)), "D4": ((a, b, c, d), lambda: DihedralGroup(4)), "D4o": ((d, a, c, b), lambda: DihedralGroup(4)),
    "A4": ((a, b, c, d), lambda: AlternatingGroup(4)), "S4": ((a, b, c, d), lambda: SymmetricGroup(4)),
    "V4": ((a, b, c, d), lambda: PG(P(0, 1)(2, 3), P(0, 2)(1, 3))), "C2C2": ((a, b, c, d), lambda: PG(P(3)(0, 1), P(2, 3))),
    "C22": ((a, b, c, d), lambda: PG(P(0, 1)(2, 3))), "C32": ((a, b, c, d, e), lambda: PG(P(0, 1, 2)(3, 4))),
    "C33": ((a, b, c, x, y, z), lambda: PG(P(0, 1, 2)(3, 4, 5))), "M": ((a, b, c, d, e, f), lambda: PG(P(5)(0, 1)(2, 3), P(4, 5))),
    "S3b": ((a, b, c, d), lambda: PG(P(3)(0, 1, 2), P(3)(0, 1))), "C5": ((a, b, c, d, e), lambda: CyclicGroup(5)),
}


def prepare():
    stubs.install()


def explicit(kind, arg, syms, grp):
    """the definition: combine the images of the argument under every group element"""
    out = []
    for p in sorted(grp.elements, key=lambda p: tuple(p.array_form)):
        m = {syms[i]: syms[j] for i, j in enumerate(p.array_form)}
        out.append(arg.xreplace(m))
    return (Add if kind == "CyclicSum" else Mul)(*out)


def args_for(syms, k0, k1, kind):
    s = list(syms)
    p, q, r = s[0], s[1], s[-1]
    if kind == "CyclicProduct":
        return [k0*p + k1*q**2, k0*p*(q - k1*r), (p - q)**2*(k0 + p), 2*p - 2*k1*q, k0*p*q*r**2]
    return [k0*p**2*q + k1*r, k0*p*(q - r)**2, (p - k0*q)**2*(r + k1), 6*p*q**3 - 4*k0*p, k0*p**3*r + k0*k1*q*r, (k0*q - r)**2*q*p**2 + k1]


def construct(kind, g):
    def prog(L, k0, k1):
        cls = L.use(M + kind)
        syms, mk = GROUPS[g]
        grp = mk()
        for i, t in enumerate(args_for(syms, k0, k1, kind)):
            obj = cls(t, syms, grp)
            ref = explicit(kind, sp.sympify(t), syms, grp)
            L.eq(f"{kind}[{g}] arg {i}: value", obj, ref)
            L.eq(f"{kind}[{g}] arg {i}: doit", obj.doit(), ref)
            ct, pr = obj.as_content_primitive()
            L.eq(f"{kind}[{g}] arg {i}: content", ct * pr, ref)
            if i < 3:
                L.eq(f"{kind}[{g}] arg {i}: expand", sp.expand(obj), ref)
                L.eq(f"{kind}[{g}] arg {i}: unevaluated", cls(t, syms, grp, evaluate=False).doit(), ref)
    return prog


def nested(g):
    def prog(L, k0, k1):
        CS, CP = L.use(M + "CyclicSum"), L.use(M + "CyclicProduct")
        syms, mk = GROUPS[g]
        grp = mk()
        p, q, r = syms[0], syms[1], syms[-1]
        inner = CS(k0*p*q**2, syms, grp)
        iref = explicit("CyclicSum", k0*p*q**2, syms, grp)
        for i, (t, ref) in enumerate([((k1*p + q)*inner, (k1*p + q)*iref), (p*inner**2*3, p*iref**2*3), (inner - k1*p, iref - k1*p), (5*q*(inner + k1), 5*q*(iref + k1)),
                                      (p*CP(q, syms, grp)*k1, p*explicit("CyclicProduct", q, syms, grp)*k1)]):
            L.eq(f"sum of nested {i}", CS(t, syms, grp), explicit("CyclicSum", ref, syms, grp))
            if grp.order() <= 6:
                L.eq(f"product of nested {i}", CP(t, syms, grp), explicit("CyclicProduct", ref, syms, grp))
    return prog


def rules(syms, k0, k1):
    p, q, r = syms[0], syms[1], syms[-1]
    out = [{p: k0}, {p: q}, {p: k0*p, q: k0*q, r: k0*r}, {s: s**2 + k1 for s in syms}, {p: q*r}, {p: k0, q: k1}, {p: u, q: v}, {p: q, q: p},
           dict(zip(syms, syms[1:] + syms[:1])), {**dict(zip(syms, syms[1:] + syms[:1])), w: k0*p*u}, {p: q, q: p, w: p*u + q}, {w: p*k0}, {w: u, p: q, q: p},
           {**{s_: s_ for s_ in syms}, w: p*q}, dict(zip(syms, [symbols(f"t{i}") for i in range(len(syms))])),
           {s: k0*s + k1*t for s, t in zip(syms, syms[1:] + syms[:1])}, {p: u}, {r: p}]
    if len(syms) > 3:
        out += [{syms[2]: k0}, {syms[2]: k0, syms[3]: k1}, {p: syms[2], q: syms[3]}, {syms[2]: u + p}]
    return out


def replace(kind, g):
    def prog(L, k0, k1):
        cls = L.use(M + kind)
        syms, mk = GROUPS[g]
        grp = mk()
        p, q, r = syms[0], syms[1], syms[-1]
        for i, t in enumerate([p**2*q + w*r, p*q**3*(syms[2] + 2)] if kind == "CyclicSum" else [p + w*q**2, p - r]):
            obj = cls(t, syms, grp)
            ref = explicit(kind, t, syms, grp)
            for j, rule in enumerate(rules(syms, k0, k1)):
                if sp.expand(obj.doit() - ref) != 0:
                    continue
                L.eq(f"{kind}[{g}] arg {i} xreplace rule {j}", obj.xreplace(rule), ref.xreplace(rule))
                if j < 6:
                    L.eq(f"{kind}[{g}] arg {i} subs rule {j}", obj.subs(rule, simultaneous=True), ref.xreplace(rule))
    return prog


def rewrite(g, h):
    def prog(L, k0, k1):
        CS, CP, rw = L.use(M + "CyclicSum"), L.use(M + "CyclicProduct"), L.use(M + "rewrite_symmetry")
        syms, mk = GROUPS[g]
        grp, small = mk(), GROUPS[h][1]()
        p, q, r = syms[0], syms[1], syms[-1]
        for i, t in enumerate([k0*p**3*q**2*r + k1*p*q**4, p*(q - r)**2 + k0, p*(q - r)**2*k0, (p + q)*k1]):
            obj = CS(t, syms, grp)*k1 + CS(p*q, syms, small)
            ref = explicit("CyclicSum", t, syms, grp)*k1 + explicit("CyclicSum", p*q, syms, small)
            L.eq(f"rewrite sum {g}->{h} arg {i}", rw(obj, syms, small), ref)
        if grp.order() <= 8:
            t = k0*p + q**2
            L.eq(f"rewrite product {g}->{h}", rw(CP(t, syms, grp), syms, small), explicit("CyclicProduct", t, syms, grp))
    return prog


def cases(tier):
    kw = dict(max_paths=20, budget_s=60 if tier == "quick" else 300, path_s=50 if tier == "quick" else 250, query_ms=2000)
    out = []
    small = [g for g in GROUPS if g not in ("S4", "A4")]
    for g in GROUPS:
        out.append(LemmaCase(f"sum.{g}", construct("CyclicSum", g), 2, "a b c d e f x y z", **kw))
        out.append(LemmaCase(f"replace.sum.{g}", replace("CyclicSum", g), 2, "a b c d e f x y z u v w", **kw))
    for g in small:
        if g in ("M", "C33", "C5", "D4o"):
            continue
        out.append(LemmaCase(f"prod.{g}", construct("CyclicProduct", g), 2, "a b c d e f x y z", **kw))
    for g in ("C3", "S3", "C2", "C22", "C4", "C2C2"):
        out.append(LemmaCase(f"replace.prod.{g}", replace("CyclicProduct", g), 2, "a b c d e f x y z u v w", **kw))
    for g in ("C3", "S3", "C2", "C4", "D4", "C22", "C3o", "C32"):
        out.append(LemmaCase(f"nested.{g}", nested(g), 2, "a b c d e f x y z", **kw))
    for g, h in [("S3", "C3"), ("S3", "C2"), ("S3", "C2b"), ("C3", "S3"), ("C2", "S3"), ("S4", "C4"), ("S4", "D4"), ("D4", "C4"), ("D4", "C22"), ("A4", "S3b"), ("A4", "V4"), ("S4", "S3b"), ("V4", "C4")]:
        out.append(LemmaCase(f"rewrite.{g}.{h}", rewrite(g, h), 2, "a b c d e f x y z", **kw))
    return out


EXPLANATION = "The argument of the cyclic expression carries symbolic coefficients; every claim is an identity in all variables and coefficients."
