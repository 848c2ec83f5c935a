"""Debug: first divergence between symbolic path 1 and the native run."""
import sys, os, json
sys.path.insert(0,'/verif'); sys.set_int_max_str_digits(0); sys.setrecursionlimit(4000)
prop, case, vals, mode = sys.argv[1], sys.argv[2], json.loads(sys.argv[3]), sys.argv[4]
import sympy as sp
if mode == "sym":
    from symx import loader, rt
    loader.install(); rt.install()
else:
    sys.path.insert(0,'/repo')
import importlib
mod = importlib.import_module(f"props.{prop.lower()}")
cases = [c for c in mod.cases("quick") if c.name == case]
import triples.core
if mode == "sym" and hasattr(mod,"prepare"): mod.prepare()
c = cases[0]
depth=[0]
SKIP=("triples.utils.expression","triples.utils.roots.rationalize")
def prof(fr, ev, arg):
    g=fr.f_globals.get("__name__","")
    if not g.startswith("triples.core"): return
    if mode=="sym":
        from symx import rt
        if rt.ENGINE is None or rt.ENGINE.shadow is not None: return
    n=fr.f_code.co_qualname
    if "<" in n.split(".")[-1] : return
    if ev=="call":
        depth[0]+=1; print("  "*depth[0]+">", n)
    elif ev=="return":
        print("  "*depth[0]+"<", n, "None" if arg is None else type(arg).__name__, fr.f_lineno); depth[0]-=1
if mode=="sym":
    from symx import engine as eng
    E=eng.Engine(query_ms=1500,max_paths=1)
    def body(E):
        sys.setprofile(prof)
        try: return c.body(E)
        finally: sys.setprofile(None)
    def on_path(E,k,v): print("RESULT",k,v,E.pc,E.subst)
    E.explore(body,on_path,[vals])
else:
    sys.setprofile(prof)
    v=c.concrete({k:sp.Rational(x) for k,x in vals.items()})
    sys.setprofile(None)
    print("RESULT",v)
