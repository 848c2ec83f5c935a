from sympy import Rational as Q
from symx import stubs
from symx.case import ProofCase
from .lemmas import sextic_cases, at
from .famlib import family_cases, cell_cases, seed_cases
def prepare(): stubs.install()
FILES = {"sextic","sextic_symmetric"}


def hexagram(same):
    """the six pointed star: only a^3b^3, a^4bc, a^3b^2c, a^2b^3c, a^2b^2c^2"""
    def build(*k):
        w, (x, y, z) = (1, k) if same else (k[0], k[1:])
        d = {}
        for m, v in (((3, 3, 0), 1), ((4, 1, 1), w), ((3, 2, 1), x), ((2, 3, 1), y)):
            for i in range(3):
                d[m[i:] + m[:i]] = v
        d[2, 2, 2] = z
        return d
    return build


def hexagrams(tier):
    """seeds: s(ab(ab+c2+u ac+v bc)2) + e p(a)s(a(b-c)2) + f p(a2), moved a little to both sides of the border"""
    big = tier != "quick"
    kw = dict(gens="a b c", nonneg="a b c", crash_ok=True, path_s=30 if big else 10, query_ms=5000 if big else 1500, max_paths=400 if big else 30, budget_s=300 if big else 40)
    F = "triples.core.structsos.ternary.sextic:_sos_struct_sextic_hexagram"
    out, seeds = [], []
    for u, v in ((-4, Q(3, 2)), (Q(-11, 4), Q(-3, 2)), (-3, -1), (-4, 1), (Q(1, 2), -3), (-3, Q(-1, 2)), (Q(-5, 2), Q(-5, 2))):
        for e, f in ((0, 0), (Q(1, 3), 0), (0, 1), (0, -(u + v + 2)**2), (Q(1, 4), -2 * (u + v + 2)**2)):
            x, y = v**2 + 4*u + e, u**2 + 4*v + e
            z = 6*u*v + 6 - 6*e + f
            seeds.append(at(x, y, z))
    seeds.append(at(Q(-27, 4), Q(-27, 4), Q(31, 2)))
    for i in range(4):
        out.append(ProofCase(f"hexagram.same{i}", F, hexagram(True), 3, pattern="...", seeds=seeds[i::4], **kw))
    return out


def cases(tier): return sextic_cases(tier) + hexagrams(tier) + seed_cases(tier, (6,)) + cell_cases(tier, FILES) + family_cases(tier, FILES, crash_ok=True)
