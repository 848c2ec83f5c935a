from symx import stubs
from symx.case import ProofCase
from .lemmas import quintic_cases
from .famlib import family_cases, cell_cases, seed_cases
def prepare(): stubs.install()
FILES = {"quintic","quintic_symmetric"}
T = "triples.core.structsos.ternary."


def cyc(d):
    return {m: v for (i, j, k), v in d.items() for m in {(i, j, k), (k, i, j), (j, k, i)}}


def hexagon(m, p, q, n, z, rem):
    return cyc({(4, 1, 0): m, (3, 2, 0): p, (2, 3, 0): q, (1, 4, 0): n, (3, 1, 1): z, (2, 2, 1): rem - m - n - p - q - z})


def at(*v):
    return {f"k{i}": x for i, x in enumerate(v)}


def direct_cases(tier):
    """the two hexagon solvers called directly: their last resorts are hidden behind easier proofs"""
    from sympy import Rational as R
    big = tier != "quick"
    kw = dict(pattern="......", max_paths=300 if big else 30, budget_s=240 if big else 30, query_ms=5000 if big else 1500, path_s=20 if big else 10, crash_ok=True)
    sy = lambda m, p, z, rem: hexagon(m, p, p, m, z, rem)
    out = [ProofCase(f"hexagon.sym.{i}", T + "quintic_symmetric:_sos_struct_quintic_symmetric_hexagon", sy, 4, seeds=[at(*v)], **kw)
           for i, v in enumerate([(1, 1, R(-5, 2), R(9, 4)), (1, R(3, 2), R(-23, 2), 1), (1, R(-8, 3), -34, 0), (1, R(-1, 2), -2, 0), (2, 4, -16, 1)])]
    out += [ProofCase(f"hexagon.equal.{i}", T + "quintic:_sos_struct_quintic_hexagon", lambda m, p, q, z, rem: hexagon(m, p, q, m, z, rem), 5, seeds=[at(*v)], **kw)
            for i, v in enumerate([(1, R(77, 4), R(77, 4), -23, 0), (1, 15, R(37, 4), 4, 0), (1, 10, 13, R(-21, 2), 1), (2, 11, R(25, 2), 1, 1), (1, 24, 24, R(-61, 2), 0)])]
    out += [ProofCase(f"hexagon.free.{i}", T + "quintic:_sos_struct_quintic_hexagon", hexagon, 6, seeds=[at(*v)], **kw)
            for i, v in enumerate([(1, 2, 1, 0, -2, 0), (1, -1, 3, 2, 1, 0), (2, 3, -1, 1, 2, 1), (0, 1, -2, 1, 2, 0), (1, 4, 2, 2, -3, 0)])]
    return out


def cases(tier): return quintic_cases(tier) + direct_cases(tier) + seed_cases(tier, (5,)) + cell_cases(tier, FILES) + family_cases(tier, FILES, crash_ok=True)
