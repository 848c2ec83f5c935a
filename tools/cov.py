"""tools/cov.py DUMP.json FILE...: lines of FILE (below triples/) that no symbolic path executed."""
import sys, json, os
repo = os.environ.get("SYMX_REPO", "/repo")
cov = {}
for d in sys.argv[1].split(","):
    for k, v in json.load(open(d)).items():
        cov.setdefault(k, set()).update(v)


def lines(code, out):
    for _, _, l in code.co_lines():
        if l:
            out.add(l)
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            lines(c, out)


for f in sys.argv[2:]:
    src = open(os.path.join(repo, "triples", f)).read()
    L = set()
    lines(compile(src, f, "exec"), L)
    miss = sorted(L - cov.get(f, set()))
    print(f"== {f}: {len(L) - len(miss)}/{len(L)}")
    T = src.splitlines()
    for l in miss:
        t = T[l - 1].strip()
        if t.startswith(("return ", "def ")) and t not in ("return None", "return False"):
            print(f"   {l}: {t[:110]}")
