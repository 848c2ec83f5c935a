"""Path-exploring symbolic executor.  Inputs are sympy symbols owned by the engine;
each branch the real code takes on them is decided by Z3 (real arithmetic); both
feasible sides are explored by re-execution with a recorded decision prefix."""
import os, sys, time, functools, threading
import z3
import sympy as sp
from sympy.core.expr import Expr
from sympy import Rational, Integer, Float, Pow, Add, Mul, Symbol, Abs, Max, Min, S
from . import rt


class PathStop(BaseException):
    """Base of the exceptions that steer exploration (not Exception: the code under
    test must not swallow them)."""


class Prune(PathStop):
    """This path contradicts an assumption."""


class Degenerate(PathStop):
    """The real code would divide by zero / leave the reals here."""


class Restart(PathStop):
    """An equality lets an input be eliminated: run again on the smaller space."""


class OutOfReach(PathStop):
    pass


class Budget(PathStop):
    pass


class TooBig(Exception):
    pass


class Unencodable(Exception):
    pass


class ShadowFail(PathStop):
    pass


def zcheck(s, ms):
    """check() with a hard stop: z3 does not always honour its own timeout"""
    t = threading.Timer(ms / 1000 * 1.3 + 0.3, s.ctx.interrupt)
    t.daemon = True
    t.start()
    try:
        return str(s.check())
    except z3.Z3Exception:
        return "unknown"
    finally:
        t.cancel()


class Z3T:
    """Translation of sympy expressions to Z3 real terms."""

    def __init__(self):
        self.vars = {}
        self.side = []        # definitions of auxiliary variables
        self.aux = {}
        self.n = 0

    def var(self, s):
        v = self.vars.get(s)
        if v is None:
            v = self.vars[s] = z3.Real(s.name)
        return v

    def fresh(self, pre):
        self.n += 1
        return z3.Real(f"{pre}!{self.n}")

    def __call__(self, e):
        if isinstance(e, int):
            return z3.RealVal(e)
        if isinstance(e, Rational):
            return z3.RealVal(f"{e.p}/{e.q}")
        if isinstance(e, Float):
            r = Rational(str(e)) if False else Rational(e)
            return z3.RealVal(f"{r.p}/{r.q}")
        if isinstance(e, Symbol):
            return self.var(e)
        if isinstance(e, Add):
            return z3.Sum([self(a) for a in e.args])
        if isinstance(e, Mul):
            return z3.Product([self(a) for a in e.args])
        if isinstance(e, Pow):
            b, x = e.args
            if isinstance(x, Integer):
                n = int(x)
                if n > 0:
                    t = self(b)
                    return z3.Product([t] * n)
                key = ("inv", b)
                if key not in self.aux:
                    d = self(b)
                    w = self.fresh("inv")
                    self.aux[key] = w
                    self.side.append(w * d == 1)
                return z3.Product([self.aux[key]] * (-n))
            if isinstance(x, Rational) and x.q == 2:
                key = ("sqrt", b)
                if key not in self.aux:
                    r = self(b)
                    s = self.fresh("sqrt")
                    self.aux[key] = s
                    self.side.append(s * s == r)
                    self.side.append(s >= 0)
                t = z3.Product([self.aux[key]] * abs(int(x.p)))
                if x.p > 0:
                    return t
                key2 = ("inv", Pow(b, Rational(1, 2)))
                if key2 not in self.aux:
                    w = self.fresh("inv")
                    self.aux[key2] = w
                    self.side.append(w * self.aux[key] == 1)
                return z3.Product([self.aux[key2]] * abs(int(x.p)))
            if isinstance(x, Rational) and x.q == 3:
                key = ("cbrt", b)
                if key not in self.aux:
                    r = self(b)
                    s = self.fresh("cbrt")
                    self.aux[key] = s
                    self.side.append(s * s * s == r)
                    self.side.append(s >= 0)      # principal root of a nonnegative radicand
                if x.p > 0:
                    return z3.Product([self.aux[key]] * int(x.p))
        if isinstance(e, Abs):
            t = self(e.args[0])
            return z3.If(t >= 0, t, -t)
        if isinstance(e, (Max, Min)):
            ts = [self(a) for a in e.args]
            r = ts[0]
            for t in ts[1:]:
                r = z3.If(r >= t, r, t) if isinstance(e, Max) else z3.If(r <= t, r, t)
            return r
        if isinstance(e, sp.sign):
            t = self(e.args[0])
            return z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0)))
        raise Unencodable(type(e).__name__)


def radicands(e):
    out = []
    for p in e.atoms(Pow):
        x = p.args[1]
        if isinstance(x, Rational) and not isinstance(x, Integer) and p.args[0].free_symbols:
            out.append((p.args[0], x.q))
    return out


@functools.lru_cache(100000)
def _rational_shape(x):
    return not radicands(x) and not x.atoms(Float) and not any(isinstance(p.args[1], Rational) and not isinstance(p.args[1], Integer) for p in x.atoms(Pow))


class Engine:
    Degenerate = Degenerate

    def __init__(self, query_ms=3000, max_paths=2000, deadline=None, max_decisions=400):
        self.K = set()
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.stats = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, decisions=0, undecided_branches=0)
        self.flip_ms = min(query_ms, 800)
        self.explore_none = False
        self.concretise = False
        self.rcache = {}
        self.visits, self.cov = {}, {}
        self.qcache = {}
        self.model = self.shadow = None
        self.concolic = False
        self.nfresh = self.ncert = 0
        self.subst, self.restarts, self.base = {}, True, None
        self.inexact, self.irrational, self.certs = set(), set(), {}
        self.rdepth = 1          # 0: the next recursive prover call is run for real

    # ---- ownership -----------------------------------------------------------
    def owns(self, fs):
        return fs <= self.K

    def touches(self, fs):
        return not self.K.isdisjoint(fs)

    def symbolic_domain(self, dom):
        syms = getattr(dom, "symbols", None)
        return bool(syms) and set(syms) <= self.K

    def rational_like(self, x):
        if self.inexact and not self.inexact.isdisjoint(x.free_symbols) or self.irrational and not self.irrational.isdisjoint(x.free_symbols):
            return False
        return _rational_shape(x)

    # ---- symbols -------------------------------------------------------------
    def symbol(self, name, **kw):
        s = Symbol(name, real=True, **kw)
        if s in self.subst:
            return self.subst[s]
        self.K.add(s)
        return s

    def fresh(self, pre="t", value=None):
        self.nfresh += 1
        s = self.symbol(f"{pre}_f{self.nfresh}")
        if self.model is not None:
            if value is not None:
                self.model = {**self.model, s: sp.sympify(value)} if s not in self.model or len(self.trace) >= len(self.prefix) else self.model
            elif s not in self.model:
                self.model = None
        return s

    # ---- solver ----------------------------------------------------------------
    def check(self, conds, ms=None, want_model=False):
        """conds: list of (op, sympy expr) meaning expr op 0, or ('or', [...])."""
        key = None
        if not want_model:
            key = (frozenset(self._k(c) for c in conds), ms)
            if key in self.qcache:
                return self.qcache[key], None
        t = Z3T()
        try:
            fs = [self._z(t, c) for c in conds]
        except Unencodable as e:
            self.stats["unknown"] += 1
            self.unenc = str(e)
            if os.environ.get("SYMX_DEBUG"):
                print("unencodable", e, conds[-1], file=sys.stderr)
            return "unknown", None
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", ms or self.query_ms)
        for f in t.side:
            s.add(f)
        for f in fs:
            s.add(f)
        t0 = time.time()
        r = zcheck(s, ms or self.query_ms)
        dt = time.time() - t0
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        self.stats[r] += 1
        m = None
        if r == "sat" and want_model:
            m = self.rational_model(s.model(), t)
        if key is not None:
            self.qcache[key] = r
        return r, m

    def rational_model(self, zm, t):
        out = {}
        for x, v in t.vars.items():
            y = zm.eval(v, model_completion=True)
            if not z3.is_rational_value(y):
                return None
            out[x] = Rational(y.numerator_as_long(), y.denominator_as_long())
        for x in self.K:
            out.setdefault(x, self.model.get(x, S.One) if self.model else S.One)
        return out

    def _k(self, c):
        return (c[0], tuple(self._k(x) for x in c[1])) if c[0] in ("or", "and") else c

    def _z(self, t, c):
        op, e = c
        if op == "or":
            return z3.Or([self._z(t, x) for x in e])
        if op == "and":
            return z3.And([self._z(t, x) for x in e])
        x = t(e)
        z = z3.RealVal(0)
        return {"==": x == z, "!=": x != z, "<": x < z, "<=": x <= z, ">": x > z, ">=": x >= z}[op]

    # ---- conditions ------------------------------------------------------------
    NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}

    def normal(self, op, d):
        """Reduce `d op 0` to (op, polynomial expr) without denominators (their
        vanishing is excluded separately), or to a bool."""
        from .cert import RatFun
        if not d.free_symbols:
            return self._const(op, d)
        if d.has(Abs, Max, Min, sp.sign):
            return self._normal_slow(op, d)
        fl = d.atoms(Float)
        if fl:
            d = d.xreplace({f: Rational(f) for f in fl})
            if not d.free_symbols:
                return self._const(op, d)
        try:
            syms = sorted(d.free_symbols, key=lambda s: s.name)
            rf = RatFun([], syms, [d], maxterms=1500)
            n, q = rf.conv(d)
            n = rf.reduce_pos(n) if rf.radinfo else n
            if len(n) > 600 or (len(n) > 100 and max(sum(m) for m in n.monoms()) > 14):
                raise TooBig()
        except TooBig:
            raise
        except (OutOfReach, KeyError):
            return self._normal_slow(op, d)
        if n == 0:
            return self._const(op, S.Zero)
        sgn = 1
        if op not in ("==", "!=") and not q.is_ground:
            odd = rf.R.one
            if len(q) <= 80:
                try:
                    c, fl = q.factor_list()
                    sgn = -1 if c < 0 else 1
                    for f, m in fl:
                        if m % 2:
                            odd = odd * f
                except Exception:
                    odd = q
            else:
                odd = q
            n = n * odd
        elif q.is_ground and q.LC < 0 and op not in ("==", "!="):
            sgn = -1
        c, n = n.primitive()
        if n.is_ground:
            return self._const(op, sp.Rational(str(n.LC)) * sgn if not n.is_zero else S.Zero)
        if n.LC < 0:
            n = -n
            sgn = -sgn
        if sgn < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        e = n.as_expr()
        if rf.radinfo:
            e = rf.unrad(e)
        else:
            e = e.xreplace({Symbol(k.name): k for k in syms})
        return (op, e)

    @staticmethod
    def _const(op, v):
        r = {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
        if r in (True, S.true):
            return True
        if r in (False, S.false):
            return False
        w = sp.N(v, 50)
        return {"==": False, "!=": True, "<": w < 0, "<=": w <= 0, ">": w > 0, ">=": w >= 0}[op] in (True, S.true)

    def _normal_slow(self, op, d):
        d = sp.together(d)
        n, q = sp.fraction(d)
        if q.free_symbols and op not in ("==", "!="):
            n = n * q
        elif not q.free_symbols and q.is_negative:
            n = -n
        n = sp.expand(n)
        if not n.free_symbols:
            return self._const(op, n)
        return (op, n)

    def decide_rel(self, rel):
        op = {"StrictGreaterThan": ">", "GreaterThan": ">=", "StrictLessThan": "<", "LessThan": "<=", "Equality": "==", "Unequality": "!="}[type(rel).__name__]
        if not self.owns(rel.free_symbols):
            raise OutOfReach(f"relation over polynomial variables: {rel}")
        return self.decide_cmp(op, rel.lhs, rel.rhs)

    def decide_zero_poly(self, op, l, r):
        """l == const where l also contains the polynomial variables: true iff all
        coefficients vanish."""
        try:
            gens = sorted(l.free_symbols - self.K, key=lambda s: s.name)
            n, _ = sp.fraction(sp.together(l - r))
            cs = sp.Poly(n, *gens).coeffs()
        except Exception:
            return (l == r) if op == "==" else (l != r)
        ok = True
        for c in cs:
            if not self.decide_cmp("==", c, S.Zero) if self.touches(c.free_symbols) else c != 0:
                ok = False
                break
        return ok if op == "==" else not ok

    def decide_cmp(self, op, l, r):
        for v in (l, r):
            if v in (S.Infinity, S.NegativeInfinity):
                pos = (v is S.Infinity) == (v is r)
                return {"==": False, "!=": True, "<": pos, "<=": pos, ">": not pos, ">=": not pos}[op]
            if v.has(S.NaN, S.ComplexInfinity):
                raise Degenerate("nan")
            if v.has(sp.I):
                raise OutOfReach("complex value")
        return self.decide(op, l - r)

    def too_big(self, d):
        n = w = 0
        st = [d]
        while st:
            e = st.pop()
            n += 1
            if isinstance(e, Pow) and isinstance(e.args[1], Rational) and not isinstance(e.args[1], Integer):
                w += 1 if e.args[1].q == 2 else 3
            if n > 4000 or w and n * w > 1200:
                return True
            st.extend(e.args)
        return False

    def decide_big(self, op, d):
        """A condition too large to encode: the path takes its truth at the witness and
        goes on without recording it, so everything shown for the path is shown for all
        inputs satisfying the recorded conditions, a superset."""
        if self.shadow is not None:
            r = self.holds((op, d), self.shadow)
            if r is None:
                raise ShadowFail()
            return r
        ck = (op, d)
        if ck in self.known:
            return self.known[ck]
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            val = self.holds(ck, self.model) if self.model is not None else None
            if val is None:
                raise OutOfReach("condition too large")
        self.trace.append(val)
        self.known[ck] = val
        self.known[(self.NEG[op], d)] = not val
        self.relaxed = True
        return val

    def decide(self, op, d):
        if self.too_big(d):
            return self.decide_big(op, d)
        for b, q in radicands(d):
            if q % 2 == 0 and not getattr(b, "is_nonnegative", False):
                if not self._decide(">=", b):
                    raise Degenerate("square root of a negative number")
        d = self.split(d)
        return self._decide(op, d) if d.free_symbols else self._const(op, d)

    def split(self, e):
        """absolute values, maxima and signs of the inputs replaced by the case that holds
        on this path"""
        for _ in range(40):
            at = [x for x in e.atoms(Abs, Max, Min, sp.sign) if x.free_symbols and self.owns(x.free_symbols) and not any(y.has(Abs, Max, Min, sp.sign) for y in x.args)]
            if not at:
                return e
            x = min(at, key=str)
            if isinstance(x, Abs):
                r = x.args[0] if self._decide(">=", x.args[0]) else -x.args[0]
            elif isinstance(x, sp.sign):
                r = S.Zero if self._decide("==", x.args[0]) else S.One if self._decide(">", x.args[0]) else -S.One
            else:
                r = x.args[0]
                for y in x.args[1:]:
                    if self._decide(">=", y - r) == isinstance(x, Max):
                        r = y
            e = e.xreplace({x: r})
        return e

    def holds(self, cond, model):
        """Concrete truth of a condition at a rational model; None if undetermined."""
        op, e = cond
        if op in ("or", "and"):
            rs = [self.holds(c, model) for c in e]
            if None in rs:
                return None
            return any(rs) if op == "or" else all(rs)
        try:
            v = e.xreplace(model)
            if v.free_symbols:
                return None
            if not v.is_Rational:
                if not v.is_number or v.has(S.NaN, S.ComplexInfinity):
                    return None
                w = v.evalf(40)
                if not w.is_real:
                    return None
                if abs(w) < Rational(1, 10**30):
                    w = S.Zero
                v = w
            return bool({"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op])
        except Exception:
            return None

    def _decide(self, op, d):
        if self.shadow is not None:
            r = self.holds((op, d), self.shadow)
            if r is None:
                raise ShadowFail()
            return r
        ck = (op, d)
        nf = self.ncache.get(ck)
        if nf is None:
            try:
                nf = self.normal(op, d)
            except TooBig:
                nf = "big"
            self.ncache[ck] = nf
        if isinstance(nf, str):
            return self.decide_big(op, d)
        if isinstance(nf, bool):
            return nf
        if nf in self.known:
            return self.known[nf]
        neg = (self.NEG[nf[0]], nf[1])
        site = self.site()
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            self.stats["decisions"] += 1
            if len(self.trace) > self.max_decisions:
                raise OutOfReach("decision bound")
            if self.deadline and time.time() > self.deadline:
                raise Budget()
            val = self.holds(nf, self.model) if self.model is not None else None
            if val is None:
                a, _ = self.check(self.pc + [nf])
                if a == "unsat":
                    val = False
                else:
                    val = True
                    self.push(self.trace + [False], None, (site, False), (self.pc, len(self.pc), neg))
            else:
                self.push(self.trace + [not val], None, (site, not val), (self.pc, len(self.pc), neg if val else nf))
        self.trace.append(val)
        self.cov[(site, val)] = self.cov.get((site, val), 0) + 1
        self._learn(nf, val)
        if self.restarts and self.concolic and (nf[0] == "==") == val and nf[0] in ("==", "!="):
            self.eliminate(nf[1])
        return val

    def eliminate(self, e):
        """e == 0 holds from here on: if it determines an input, start the path again with
        that input replaced, so that polynomial arithmetic sees the equality."""
        fs = e.free_symbols
        if any("_f" in x.name for x in fs) or not fs <= self.K or e.count_ops() > 60 or radicands(e):
            return
        best = None
        for x in sorted(fs, key=lambda x: (-len(x.name), x.name), reverse=False):
            try:
                q = sp.Poly(e, x)
            except sp.PolynomialError:
                return
            if q.degree() != 1:
                continue
            c = q.LC()
            if c.is_Rational:
                best = (x, sp.expand(-q.nth(0) / c))
                break
            if best is None and len(sp.Add.make_args(c)) <= 3 and self.known.get(("!=", c), self.known.get(("!=", -c))):
                best = (x, sp.cancel(-q.nth(0) / c))
        if best is None:
            return
        x, r = best
        sub = {y: sp.cancel(v.xreplace({x: r})) for y, v in self.subst.items()}
        sub[x] = r
        pre = tuple((o, c) for o, c in ((o, c.xreplace({x: r})) for o, c in self.pc if o not in ("or", "and")) if not any("_f" in y.name for y in c.free_symbols))
        base = (sub, pre, (tuple(sorted(((str(k), str(v)) for k, v in sub.items()))), pre))
        self.bases_pending = (base, self.model)
        raise Restart()

    def _learn(self, nf, val):
        """Record a decision and the comparisons it implies syntactically."""
        op, e = nf
        if not val:
            op = self.NEG[op]
        self.pc.append((op, e))
        imp = {"==": {"==": 1, "!=": 0, "<": 0, ">": 0, "<=": 1, ">=": 1}, "!=": {"==": 0, "!=": 1},
               "<": {"==": 0, "!=": 1, "<": 1, "<=": 1, ">": 0, ">=": 0}, ">": {"==": 0, "!=": 1, ">": 1, ">=": 1, "<": 0, "<=": 0},
               "<=": {"<=": 1, ">": 0}, ">=": {">=": 1, "<": 0}}[op]
        for o, v in imp.items():
            self.known[(o, e)] = bool(v)

    def site(self):
        """the program point of the code under test asking for this decision, and how
        often this path has been there"""
        f = sys._getframe(2)
        while f is not None:
            n = f.f_globals.get("__name__", "")
            if n.startswith("triples"):
                k = (f.f_code.co_filename, f.f_lineno)
                break
            f = f.f_back
        else:
            k = ("", 0)
        n = self.visits.get(k, 0)
        self.visits[k] = n + 1
        return k + (min(n, 7),)

    def push(self, prefix, model, key=None, flip=None):
        """flip: (path condition, its length here, negated condition), decided only when
        the path is picked"""
        k = (self.base and self.base[2], tuple(prefix))
        if k not in self.pushed:
            self.pushed.add(k)
            self.stack.append((prefix, model, key, flip, self.base))

    def next_path(self):
        while self.stack:
            if self.deadline and time.time() > self.deadline:
                return None
            prefix, model, key, flip, base = self.pick()
            if flip is not None:
                pc, n, cond = flip
                r, m = self.check_model(pc[:n] + [cond], self.flip_ms if self.concolic else self.query_ms)
                if r == "unsat":
                    continue
                if r == "unknown":
                    self.stats["undecided_branches"] += 1
                    if self.concolic:
                        continue
                model = m
                if m is None and self.concolic and key is not None and self.stack:
                    # only irrational values: after the paths with rational ones
                    self.stack.append((prefix, None, ("irrational", key), None, base))
                    continue
            return prefix, model, base
        return None

    def pick(self):
        """Next path: the least exercised branch outcome, the most recent among equals."""
        best, bi = None, -1
        for i in range(len(self.stack) - 1, -1, -1):
            k = self.stack[i][2]
            n = 0.5 if k is None else 1e6 if k[0] == "irrational" else self.cov.get(k, 0)
            if best is None or n < best:
                best, bi = n, i
                if n == 0:
                    break
        return self.stack.pop(bi)

    def check_model(self, conds, ms=None):
        """check() plus, when concolic, a rational model for the new path."""
        if not self.concolic:
            return self.check(conds, ms=ms)[0], None
        r, m = self.check(conds, ms=ms, want_model=True)
        return r, m

    def choose(self, n=2, first=0):
        """A nondeterministic choice not tied to a condition (stub outcomes);
        `first` is explored first (it must be the same on every re-execution)."""
        if self.shadow is not None:
            return first
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            val = first
            for v in range(n - 1, -1, -1):
                if v != first:
                    self.push(self.trace + [v], self.model)
        self.trace.append(val)
        return val

    def concrete_floor(self, x):
        if self.shadow is not None:
            v = x.xreplace(self.shadow)
            if not v.is_number:
                raise ShadowFail()
            return int(sp.floor(v))
        i = len(self.trace)
        if i < len(self.prefix):
            n = self.prefix[i]
            self.trace.append(n)
        else:
            if self.model is None:
                m = self.models(n=1)
                if not m:
                    raise OutOfReach("integer part without a model")
                self.model = m[0]
            v = x.xreplace(self.model)
            if v.free_symbols:
                raise OutOfReach("integer part without a model")
            n = int(sp.floor(v))
            self.trace.append(n)
        # other integer parts: explored as separate paths when feasible
        for off in (-1, 1):
            key = self.trace[:-1] + [n + off]
            if len(self.trace) > len(self.prefix):
                r, m = self.check_model(self.pc + [(">=", sp.expand(sp.numer(sp.together(x - n - off)) * sp.denom(sp.together(x)))),
                                                   ("<", sp.expand(sp.numer(sp.together(x - n - off - 1)) * sp.denom(sp.together(x))))], ms=self.flip_ms)
                if r == "sat":
                    self.push(key, m)
        self.assume(">=", x - n)
        self.assume("<", x - n - 1)
        return n

    def assume(self, op, e):
        try:
            nf = self.normal(op, sp.sympify(e))
        except TooBig:
            self.relaxed = True
            return
        if nf is True:
            return
        if nf is False:
            raise Prune()
        if nf in self.known:
            if not self.known[nf]:
                raise Prune()
            return
        self._learn(nf, True)
        if self.model is not None and self.holds(nf, self.model) is not True:
            self.model = None

    def shadow_call(self, f):
        """Run f() with every symbolic comparison decided at the current concrete
        model and nothing recorded.  None if that is impossible."""
        if self.model is None or self.shadow is not None:
            return None
        self.shadow = dict(self.model)
        signal_left = None
        try:
            return f()
        except (ShadowFail, PathStop):
            return None
        except Exception:
            return None
        finally:
            self.shadow = None

    def assume_raw(self, cond):
        self.pc.append(cond)

    # ---- models ----------------------------------------------------------------
    def slice_models(self, extra, ms=800):
        """The solver gave no answer on pc + extra: ask it on the lines through the path's
        witness parallel to the axes (all symbols but one fixed)."""
        syms = sorted(self.K, key=lambda s: s.name)
        if self.model is None or not all(x in self.model and self.model[x].is_Rational for x in syms):
            return []
        def sub(c, m):
            return (c[0], [sub(x, m) for x in c[1]]) if c[0] in ("or", "and") else (c[0], sp.sympify(c[1]).xreplace(m))
        for x in [None] + syms[:8]:
            m = {y: self.model[y] for y in syms if y != x}
            try:
                r, z = self.check([sub(c, m) for c in list(self.pc) + list(extra)], ms=ms, want_model=True)
            except (OutOfReach, TypeError):
                continue
            if r == "sat" and z is not None:
                return [{**m, **({x: z.get(x, self.model[x])} if x is not None else {})}]
        return []

    def models(self, extra=(), n=3, ms=None, syms=None):
        """Up to n rational assignments of the engine's symbols satisfying the path
        condition (and extra); asks Z3 for small rational values first."""
        out = []
        syms = sorted(syms if syms is not None else self.K, key=lambda s: s.name)
        block = []
        if self.model is not None and not extra and all(x in self.model for x in syms) and all(self.holds(c, self.model) for c in self.pc):
            got = {x: self.model[x] for x in syms}
            got.update({x: v.xreplace(got) for x, v in self.subst.items()})
            if all(v.is_Rational for v in got.values()):
                if n == 1:
                    return [got]
                out.append(got)
                block.append(z3.Or([z3.Real(x.name) != z3.RealVal(f"{got[x].p}/{got[x].q}") for x in syms]))
                n -= 1
        for k in range(n):
            got = None
            for grid in ((1, 12), (2, 40), (6, 200), None):
                t = Z3T()
                try:
                    fs = [self._z(t, c) for c in list(self.pc) + list(extra)]
                except Unencodable:
                    return out
                s = z3.SolverFor("QF_NRA") if grid is None else z3.Solver()
                s.set("timeout", ms or self.query_ms)
                s.add(t.side); s.add(fs); s.add(block)
                vs = [t.var(x) for x in syms]
                if grid is not None:
                    q, b = grid
                    for j, v in enumerate(vs):
                        iv = z3.Int(f"grid!{j}")
                        s.add(v * q == z3.ToReal(iv), iv <= b, iv >= -b)
                t0 = time.time()
                r = zcheck(s, ms or self.query_ms)
                self.stats["queries"] += 1
                self.stats["solver_s"] += time.time() - t0
                self.stats[r] += 1
                if r == "sat":
                    m = s.model()
                    vals, ok = {}, True
                    for x, v in zip(syms, vs):
                        y = m.eval(v, model_completion=True)
                        if z3.is_rational_value(y):
                            vals[x] = Rational(y.numerator_as_long(), y.denominator_as_long())
                        else:
                            ok = False
                            break
                    if ok:
                        got = vals
                        break
                elif r == "unsat" and grid is None:
                    return out
            if got is None:
                return out
            for x, v in self.subst.items():
                w = v.xreplace(got)
                if w.is_Rational:
                    got = {**got, x: w}
            if any(x not in got for x in self.subst):
                return out
            out.append(got)
            block.append(z3.Or([z3.Real(x.name) != z3.RealVal(f"{v.p}/{v.q}") for x, v in got.items() if x not in self.subst]))
        return out

    # ---- exploration -------------------------------------------------------------
    def explore(self, body, on_path, seeds=None):
        """body(engine) runs the real code once; on_path(engine, kind, value) is
        called for every finished path, kind in return/raise/degenerate/out.
        seeds: concrete starting assignments (concolic order), name -> rational."""
        self.pushed = set()
        self.stack = [([], {self.byname(k): Rational(v) for k, v in m.items()}, None, None, None) for m in reversed(seeds)] if seeds else [([], None, None, None, None)]
        self.cov = {}
        self.concolic = bool(seeds)
        self.ncache = {}
        self.npaths = 0
        K0 = set(self.K)
        done = set()
        exhausted = True
        pending, nseeds = None, 0
        while self.stack or pending:
            if self.npaths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                exhausted = False
                break
            if pending is None and nseeds < len(seeds or ()):
                self.prefix, self.model = self.stack.pop(next(i for i in range(len(self.stack) - 1, -1, -1) if not self.stack[i][0]))[:2]
                base = None
            elif pending is not None:
                base, self.model = pending
                self.prefix = []
                pending = None
                nseeds -= 1
            else:
                nx = self.next_path()
                if nx is None:
                    exhausted = not self.stack
                    break
                self.prefix, self.model, base = nx
            self.trace, self.pc, self.known, self.visits = [], [], {}, {}
            self.nfresh = self.ncert = 0
            self.stubbed = False
            self.inexact, self.irrational, self.certs = set(), set(), {}
            self.shadow = None
            self.K = set(K0)
            self.base = base
            self.subst = base[0] if base else {}
            self.npaths += 1
            nseeds += 1
            rt.ENGINE = self
            try:
                for o, e in (base[1] if base else ()):
                    self.assume(o, e)
                v = body(self)
                kind = "return"
            except Restart:
                pending = self.bases_pending
                self.npaths -= 1
                continue
            except Prune:
                kind, v = "prune", None
            except Degenerate as e:
                kind, v = "degenerate", e
            except OutOfReach as e:
                kind, v = "out", e
            except Budget as e:
                kind, v = "budget", e
                exhausted = False
            except RecursionError as e:
                kind, v = "out", e
            except Exception as e:
                kind, v = "raise", e
            finally:
                rt.ENGINE = None
                self.shadow = None
            tk = (base and base[2], tuple(self.trace))
            if tk in done and self.concolic:
                kind, v = "prune", None
            done.add(tk)
            on_path(self, kind, v)
        return exhausted

    def byname(self, n):
        return Symbol(n, real=True)
