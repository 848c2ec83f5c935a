"""Obligations on a returned proof expression: it equals the input polynomial
identically, and every term of it is nonnegative on the stated region.

Both the symbolic check (coefficients symbolic under a path condition) and the
concrete check (replay) use this module."""
import sympy as sp
from sympy import S, Rational, Integer, Pow, Mul, Add, Symbol, Float
from sympy.polys.rings import ring
from sympy.polys.domains import QQ
from sympy.core.expr import Expr
from .engine import OutOfReach, TooBig, radicands


MAXTERMS = 60000


def is_cyc(e):
    return type(e).__name__ in ("CyclicSum", "CyclicProduct", "CyclicExpr")


def expand_cyclic(e):
    """Value of the cyclic expression objects, from their definition (not through
    the library's own doit, except for which elements the group has)."""
    if not e.args or not isinstance(e, Expr):
        return e
    if is_cyc(e):
        arg, syms, grp = e.args[0], list(e.args[1]), e.args[2]
        arg = expand_cyclic(arg)
        els = list(grp.elements) if hasattr(grp, "elements") else list(grp.args[0].elements)
        terms = []
        for p in sorted(els, key=lambda p: tuple(p.array_form)):
            af = list(p.array_form)
            terms.append(arg.xreplace(dict(zip(syms, [syms[af[i]] for i in range(len(syms))]))))
        return Add(*terms) if type(e).__name__ == "CyclicSum" else Mul(*terms)
    args = [expand_cyclic(a) for a in e.args]
    if all(x is y for x, y in zip(args, e.args)):
        return e
    return e.func(*args)


class RatFun:
    """Exact rational-function arithmetic over QQ[gens][k][radicals]."""

    def __init__(self, gens, ks, exprs, maxterms=MAXTERMS):
        self.maxterms = maxterms
        self.gens, self.ks = list(gens), list(ks)
        rads = set()
        def walk(e):
            for b, q in radicands2(e):
                walk(b)
                rads.add((b, q))
        for e in exprs:
            walk(e)
        # nested radicals: inner first
        order = sorted(rads, key=lambda r: (len(radicands2(r[0])), r[0].count_ops(), str(r)))
        names = [str(g) for g in self.gens] + [str(k) for k in self.ks] + [f"r_{i}" for i in range(len(order))]
        self.R, *vs = ring(names, QQ) if names else ring("dummy_", QQ)
        n1, n2 = len(self.gens), len(self.ks)
        self.map = dict(zip(self.gens + self.ks, vs))
        self.radvar = {}
        self.red = []      # (var index, q, num, den)
        self.radinfo = order
        for i, (b, q) in enumerate(order):
            self.radvar[(b, q)] = vs[n1 + n2 + i]
        self.radpolys = {}
        self.cache = {}

    def one(self):
        return self.R.one

    def conv(self, e):
        c = self.cache.get(e)
        if c is None:
            c = self.cache[e] = self._conv(e)
            if len(c[0]) > self.maxterms or len(c[1]) > self.maxterms:
                raise TooBig()
        return c

    def _conv(self, e):
        R = self.R
        if isinstance(e, int):
            return R(e), R.one
        if isinstance(e, Rational):
            return R(QQ(int(e.p), int(e.q))), R.one
        if isinstance(e, Float):
            raise OutOfReach("float in result")
        if isinstance(e, Symbol):
            return self.map[e], R.one
        if isinstance(e, Add):
            n, d = R.zero, R.one
            groups = {}
            for a in e.args:
                an, ad = self.conv(a)
                groups[ad] = groups.get(ad, R.zero) + an
            for ad, an in groups.items():
                if ad == d:
                    n = n + an
                elif ad.is_ground:
                    n = n + an * d * (1 / ad.LC)
                else:
                    g = d.gcd(ad) if not d.is_ground else R.one
                    if g == 1 or g.is_ground:
                        n, d = n * ad + an * d, d * ad
                    else:
                        q1, q2 = ad.exquo(g), d.exquo(g)
                        n, d = n * q1 + an * q2, d * q1
                if len(n) > self.maxterms:
                    raise TooBig()
            return n, d
        if isinstance(e, Mul):
            n, d = R.one, R.one
            for a in e.args:
                an, ad = self.conv(a)
                if len(n) * len(an) > 40 * self.maxterms or len(d) * len(ad) > 40 * self.maxterms:
                    raise TooBig()
                n, d = n * an, d * ad
                if len(n) > self.maxterms:
                    raise TooBig()
            return n, d
        if isinstance(e, Pow):
            b, x = e.args
            if isinstance(x, Integer):
                n, d = self.conv(b)
                x = int(x)
                if max(len(n), len(d)) > 2 and max(len(n), len(d)) * abs(x) > self.maxterms:
                    raise TooBig()
                return (n ** x, d ** x) if x >= 0 else (d ** -x, n ** -x)
            if isinstance(x, Rational):
                v = self.radvar[(b, int(x.q))]
                p = int(x.p)
                return (v ** p, R.one) if p >= 0 else (R.one, v ** -p)
        raise OutOfReach(f"cannot expand {type(e).__name__}")

    def reduce(self, n):
        """Reduce radicals: r^q -> radicand.  Returns num only up to a positive
        denominator factor (exact zero test)."""
        for i in range(len(self.radinfo) - 1, -1, -1):
            b, q = self.radinfo[i]
            bn, bd = self.conv(b)
            v = self.radvar[(b, q)]
            idx = self.R.gens.index(v)
            while True:
                m = max((mon[idx] for mon in n.itermonoms()), default=0)
                if m < q:
                    break
                # n = sum_j n_j v^j ; replace v^q by bn/bd, times bd
                lo, hi = self.R.zero, self.R.zero
                for mon, c in n.iterterms():
                    if mon[idx] >= q:
                        mm = list(mon); mm[idx] -= q
                        hi += self.R.term_new(tuple(mm), c)
                    else:
                        lo += self.R.term_new(mon, c)
                n = lo * bd + hi * bn
        return n

    def reduce_pos(self, n):
        """reduce(), keeping the sign: only when the radicands are polynomial."""
        for b, q in self.radinfo:
            if not self.conv(b)[1].is_ground:
                return n
        return self.reduce(n)

    def unrad(self, e):
        back = {Symbol(k.name): k for k in self.gens + self.ks}
        back.update({Symbol(str(v)): Pow(b, Rational(1, q)) for (b, q), v in self.radvar.items()})
        return e.xreplace(back)

    def coeffs_in_gens(self, n):
        """dict monomial-in-gens -> sympy coefficient over k and radicals"""
        g = len(self.gens)
        out = {}
        for mon, c in n.iterterms():
            key = mon[:g]
            out.setdefault(key, self.R.zero)
            out[key] += self.R.term_new((0,) * g + tuple(mon[g:]), c)
        back = {str(k): k for k in self.ks}
        res = {}
        subs = []
        for (b, q), v in self.radvar.items():
            subs.append((Symbol(str(v)), Pow(b, Rational(1, q))))
        for k, p in out.items():
            e = p.as_expr().xreplace({Symbol(str(kk)): kk for kk in self.ks})
            res[k] = e.xreplace(dict(subs)) if subs else e
        return res


def radicands2(e):
    out = []
    for p in e.atoms(Pow):
        x = p.args[1]
        if isinstance(x, Rational) and not isinstance(x, Integer):
            out.append((p.args[0], int(x.q)))
    return out


def identity_residue(expr, poly_expr, gens, ks):
    """Coefficients (expressions in ks and radicals) which must all vanish."""
    e1, e2 = expand_cyclic(sp.sympify(expr)), expand_cyclic(sp.sympify(poly_expr))
    extra = (e1.free_symbols | e2.free_symbols) - set(gens) - set(ks)
    gens = list(gens) + sorted(extra, key=str)
    rf = RatFun(gens, ks, [e1, e2])
    n1, d1 = rf.conv(e1)
    n2, d2 = rf.conv(e2)
    n = n1 * d2 - n2 * d1
    if d1 == 0 or d2 == 0:
        return {"zero denominator": S.One}
    n = rf.reduce(n)
    if n == 0:
        return {}
    return rf.coeffs_in_gens(n)


class Obl:
    """One thing that must be >= 0: `term` on the region, for every k of the path.
    kind 'weight' (k only), 'term' (involves the polynomial variables) or 'alt' (all of
    `parts` hold, or else `term` as a whole does)."""

    def __init__(self, kind, term, parts=()):
        self.kind, self.term, self.parts = kind, term, list(parts)


def package(out, parts, whole):
    """parts sufficient for whole >= 0; whole is tried when they do not all hold"""
    if not parts:
        return
    if len(parts) == 1 and parts[0].kind != "weight" and parts[0].term == whole:
        out.append(parts[0])
    else:
        out.append(Obl("alt", whole, parts))


def any_term(obs):
    return any(o.kind == "term" or o.kind == "alt" for o in obs)


def obligations(e, nonneg, ks, out=None, w=S.One):
    """Decompose w*e >= 0 (w over ks only) into weights and irreducible terms."""
    if out is None:
        out = []
    e = sp.sympify(e)
    ksset = ks if isinstance(ks, (set, frozenset)) else set(ks)
    fs = e.free_symbols

    def weight(v):
        if not v.free_symbols and v.is_nonnegative:
            return
        out.append(Obl("weight", v))
    if fs <= ksset and not is_cyc(e):
        weight(w * e)
        return out
    if isinstance(e, Symbol):
        if e in nonneg:
            weight(w)
        else:
            out.append(Obl("term", w * e))
        return out
    if isinstance(e, Pow) and isinstance(e.exp, Integer) and e.exp % 2 == 0:
        weight(w)
        return out
    if isinstance(e, Pow) and isinstance(e.exp, (Integer, Rational)):
        return obligations(e.base, nonneg, ksset, out, w)
    if isinstance(e, Add):
        groups = {}
        for a in e.args:
            k, g = split(a, ksset)
            groups.setdefault(g, []).append(k)
        parts = []
        for g, kk in groups.items():
            obligations(g, nonneg, ksset, parts, w * Add(*kk))
        package(out, parts, w * e)
        return out
    if isinstance(e, Mul):
        k, g = split(e, ksset)
        args = g.args if isinstance(g, Mul) else (g,)
        hard = []
        for a in args:
            if obligations(a, nonneg, ksset, []):
                hard.append(a)
        w = w * k
        if not hard:
            weight(w)
        elif len(hard) == 1:
            obligations(hard[0], nonneg, ksset, out, w)
        else:
            terms = [a for a in hard if any_term(obligations(a, nonneg, ksset, []))]
            if len(terms) >= 2:
                for a in hard:
                    if a not in terms:
                        obligations(a, nonneg, ksset, out)
                out.append(Obl("term", w * Mul(*terms)))
            else:
                weight(w)
                for a in hard:
                    obligations(a, nonneg, ksset, out)
        return out
    if is_cyc(e):
        syms = list(e.args[1])
        flags = [s in nonneg for s in syms]
        if all(flags) or not any(flags):
            if type(e).__name__ == "CyclicSum":
                parts = obligations(e.args[0], nonneg, ksset, [], w)
                if all(o.kind == "weight" for o in parts):
                    out.extend(parts)
                else:
                    package(out, parts, w * e)
                return out
            o = obligations(e.args[0], nonneg, ksset, [])
            if not any_term(o):
                weight(w)
                out.extend(o)
                return out
        out.append(Obl("term", w * e))
        return out
    if type(e).__name__.startswith("Cert"):
        weight(w)
        return out
    out.append(Obl("term", w * e))
    return out


def split(e, ksset):
    """(factor over ks, the rest)"""
    if not isinstance(e, Mul):
        return (e, S.One) if e.free_symbols <= ksset and not is_cyc(e) else (S.One, e)
    k, g = [], []
    for a in e.args:
        (k if a.free_symbols <= ksset and not is_cyc(a) else g).append(a)
    return Mul(*k), Mul(*g)
