"""Runs the untransformed code of /repo on concrete values (replay)."""
import os, sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.set_int_max_str_digits(0)
import importlib, json, signal
from contextlib import redirect_stdout


class TO(BaseException):
    pass


def load(prop):
    import triples
    assert list(map(str, triples.__path__))[0].startswith(REPO), triples.__path__
    mod = importlib.import_module(f"props.{prop.lower()}")
    cs = {}
    for tier in ("quick", "thorough"):
        for c in mod.cases(tier):
            cs.setdefault(c.name, c)
    return cs


def one(cases, job):
    import sympy as sp
    def h(s, f):
        raise TO()
    signal.signal(signal.SIGALRM, h)
    vals = {k: sp.Rational(v) for k, v in job["vals"].items()}
    signal.setitimer(signal.ITIMER_REAL, job.get("secs", 25))
    try:
        r = cases[job["case"]].concrete(vals)
        signal.setitimer(signal.ITIMER_REAL, 0)
        msg, outcome = r if isinstance(r, tuple) else (r, "?")
        return dict(status="done", violation=msg, outcome=outcome)
    except TO:
        return dict(status="timeout")
    except Exception as e:
        import traceback
        return dict(status="error", violation=None, outcome="error", error=traceback.format_exc()[-800:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


if __name__ == "__main__":
    real = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    cases = load(sys.argv[1])
    if len(sys.argv) > 2:          # replay a recorded violation
        rec = json.load(open(sys.argv[2]))
        r = one(cases, dict(case=rec["case"], vals=rec["vals"], secs=300))
        real.write(json.dumps(r, indent=1) + "\n"); real.flush()
        sys.exit(1 if r.get("violation") else 0)
    real.write("ready\n"); real.flush()
    for line in sys.stdin:
        r = one(cases, json.loads(line))
        real.write(json.dumps(r) + "\n"); real.flush()
