"""Family cases of the ternary solvers, grouped by source file."""
import json, os
import sympy as sp
from symx.family import families, FamilyCase, CellCase, HERE

OK = None


def solvable():
    """families the unmodified solvers were able to solve when this was written"""
    global OK
    if OK is None:
        OK = set(map(int, open(os.path.join(HERE, "data", "okids.txt")).read().split()))
    return OK


def family_cases(tier, files, crash_ok=False, quick=(16, 8), thorough=(120, 60), every=True, variants=None):
    mp, b = quick if tier == "quick" else thorough
    out = []
    for x in families():
        if x["id"] not in solvable() or os.path.basename(x["file"])[:-3] not in files:
            continue
        vs = (0, "bump") + (("ker",) if x["sym"] and x["deg"] >= 6 else ())
        if tier != "quick":
            vs += (1, 2, 3, 4)
        elif x["sym"] and x["deg"] == 5:
            vs += (1, 2)
        for p in vs:
            if variants and p not in variants:
                continue
            out.append(FamilyCase(x, nk=1, pick=p, max_paths=mp, budget_s=b, path_s=8 if tier == "quick" else 20,
                                  query_ms=1000 if tier == "quick" else 4000, crash_ok=crash_ok))
    return out


def cell_cases(tier, files, crash_ok=True, chunk=6, quick=(30, 25), thorough=(300, 200)):
    mp, b = quick if tier == "quick" else thorough
    grp = {}
    for x in families():
        if x["id"] in solvable() and os.path.basename(x["file"])[:-3] in files and all(v.is_Rational for v in x["d"].values()):
            grp.setdefault((x["func"], x["deg"], x["cyc"], x["sym"]), []).append(x)
    out = []
    for (f, deg, cyc, sym), xs in sorted(grp.items()):
        n = -(-len(xs) // chunk)
        for i in range(n):
            out.append(CellCase(f"cell.{f.replace('_sos_struct_', '').replace('sos_struct_', '')}.{deg}{'s' if sym else 'c' if cyc else ''}.{i}", xs[i::n],
                                max_paths=mp, budget_s=b, path_s=8 if tier == "quick" else 20, query_ms=1500 if tier == "quick" else 5000, crash_ok=crash_ok))
    return out


def seed_cases(tier, degs, crash_ok=True, chunk=4, quick=(30, 25), thorough=(300, 200)):
    """cells of the coefficient space around polynomials that reach code none of the recorded inequalities reaches"""
    mp, b = quick if tier == "quick" else thorough
    grp = {}
    for x in json.load(open(os.path.join(HERE, "data", "seeds.json"))):
        if x["deg"] in degs:
            x["d"] = {tuple(map(int, k.split(","))): sp.sympify(v) for k, v in x["d"].items()}
            grp.setdefault((x["deg"], x["cyc"], x["sym"]), []).append(x)
    out = []
    for (deg, cyc, sym), xs in sorted(grp.items()):
        n = -(-len(xs) // chunk)
        for i in range(n):
            out.append(CellCase(f"seed.{deg}{'s' if sym else 'c' if cyc else ''}.{i}", xs[i::n],
                                max_paths=mp, budget_s=b, path_s=8 if tier == "quick" else 20, query_ms=1500 if tier == "quick" else 5000, crash_ok=crash_ok))
    return out
