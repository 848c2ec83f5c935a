"""Structural proofs of ternary forms of degree two to four."""
from symx.case import ProofCase
from symx import stubs
from .famlib import family_cases, cell_cases, seed_cases
T = "triples.core.structsos.ternary."


def prepare():
    stubs.install()


def cyc(d):
    out = {}
    for (i, j, k), v in d.items():
        for m in {(i, j, k), (k, i, j), (j, k, i)}:
            out[m] = v
    return out


def cubic(m, p, q, r):
    return cyc({(3, 0, 0): m, (2, 1, 0): p, (1, 2, 0): q, (1, 1, 1): r})


def quartic(m, p, n, q, r):
    return cyc({(4, 0, 0): m, (3, 1, 0): p, (2, 2, 0): n, (1, 3, 0): q, (2, 1, 1): r})


def cases(tier):
    big = tier != "quick"
    mon = [(2,0,0),(1,1,0),(1,0,1),(0,2,0),(0,1,1),(0,0,2)]
    mon3 = [(i, j, 3-i-j) for i in range(4) for j in range(4-i)]
    mon4 = [(i, j, 4-i-j) for i in range(5) for j in range(5-i)]
    hexm = [m for m in mon3 if 3 not in m]
    sy = lambda x0, x1, x2, x3, x4, x5: {(0,0,3):x0,(1,0,2):x1,(0,1,2):x1,(2,0,1):x2,(0,2,1):x2,(3,0,0):x3,(0,3,0):x3,(2,1,0):x4,(1,2,0):x4,(1,1,1):x5}
    kw = dict(budget_s=600 if big else 45, query_ms=5000 if big else 1500, path_s=40 if big else 12)
    out = [
        ProofCase("acyclic_quadratic", T + "quadratic:sos_struct_acyclic_quadratic", lambda *k: dict(zip(mon, k)), 6, max_paths=3000 if big else 400, **kw),
        ProofCase("quadratic", T + "quadratic:sos_struct_quadratic", lambda x, y: cyc({(2,0,0): x, (1,1,0): y}), 2, **kw),
        ProofCase("acyclic_cubic_hexagon", T + "cubic:sos_struct_acyclic_cubic", lambda *k: dict(zip(hexm, k)), 7, max_paths=2000 if big else 120, **kw),
        ProofCase("acyclic_cubic_sym", T + "cubic:sos_struct_acyclic_cubic", sy, 6, max_paths=1000 if big else 60, **kw),
        ProofCase("acyclic_cubic_sym_c", T + "cubic:sos_struct_acyclic_cubic", sy, 6, max_paths=300 if big else 40,
                  seeds=[dict(k0=9, k1=-135, k2=27, k3=81, k4=-77, k5=225), dict(k0=9, k1=4, k2=-8, k3=2, k4=2, k5=21)], **kw),
        ProofCase("cubic_c", T + "cubic:sos_struct_cubic", cubic, 4, max_paths=300 if big else 40,
                  seeds=[dict(k0=4, k1=-15, k2=12, k3=-1), dict(k0=1, k1=2, k2=-3, k3=0), dict(k0=1, k1=2, k2=2, k3=0)], **kw),
        ProofCase("quartic_c", T + "quartic:sos_struct_quartic", quartic, 5, max_paths=300 if big else 40,
                  seeds=[dict(k0=1, k1=-3, k2=3, k3=0, k4=0), dict(k0=2, k1=-3, k2=3, k3=1, k4=1)], **kw),
        ProofCase("acyclic_quartic_c", T + "quartic:sos_struct_acyclic_quartic", lambda *k: dict(zip(mon4, k)), 15, max_paths=400 if big else 80,
                  seeds=[{f"k{i}": (6 if 4 in m else -1 if 2 in m else 1) for i, m in enumerate(mon4)}], **kw),
    ]
    for i, pat in enumerate(["nn..", "0n..", "n0..", "00.."]):
        out.append(ProofCase(f"cubic_{pat}", T + "cubic:sos_struct_cubic", cubic, 4, pattern=pat, max_paths=500 if big else 40, **kw))
    return out + seed_cases(tier, (2, 3, 4), crash_ok=False) + cell_cases(tier, {"quadratic", "cubic", "quartic"}, crash_ok=False) + family_cases(tier, {"quadratic", "cubic", "quartic"})
