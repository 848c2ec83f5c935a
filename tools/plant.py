#!/usr/bin/env python3
"""Creates /verif/seeded/<id> from a description file and confirms it in a scratch copy:
the patch applies, the package builds, the stable tests pass and the demo tells the trees
apart.  usage: plant.py DESC.py...   (DESC.py defines ID, PROP, EDITS, DEMO, NEEDS, BREAKS)"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
LIB = open(os.path.join(H, "tools", "demolib.py")).read()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(desc):
    g = {}
    exec(open(desc).read(), g)
    wt = f"/tmp/wt_{g['ID']}"
    shutil.rmtree(wt, ignore_errors=True)
    sh(f"cp -a /repo {wt}")
    try:
        for f, old, new in g["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit matches {s.count(old)} times in {f}: {old!r}"
            open(p, "w").write(s.replace(old, new))
        d = sh(f"git -C {wt} diff").stdout
        out = os.path.join(H, "seeded", g["ID"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(d)
        open(out + "/demolib.py", "w").write(LIB)
        open(out + "/demo.py", "w").write("from demolib import *\n" + g["DEMO"])
        open(out + "/demo.sh", "w").write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        a = sh(f"sh {out}/demo.sh", cwd="/repo", timeout=280)
        b = sh(f"sh {out}/demo.sh", cwd=wt, timeout=280)
        msg = f"clean={a.returncode} patched={b.returncode}"
        if a.returncode:
            msg += "\nCLEAN FAILS: " + (a.stdout + a.stderr)[-800:]
        msg += "\n   patched: " + (b.stdout + b.stderr).strip()[-300:]
        bs = open("/opt/vp/build.sh").read().replace("/repo", wt)
        r = subprocess.run(["bash", "-c", bs], capture_output=True, text=True)
        msg += f"\n   build={r.returncode}"
        if "--notest" not in sys.argv:
            ts = open("/opt/vp/test.sh").read().replace("/opt/vp/reports", "@REP@").replace("/repo", wt).replace("@REP@", wt + "_rep")
            open(wt + ".sh", "w").write(ts)
            subprocess.run(["bash", wt + ".sh", wt + ".json"], capture_output=True, text=True)
            res = json.load(open(wt + ".json"))
            passed = set(res.get("passed", []))
            stable = set(BASE.get("passed") or BASE.get("stable") or [])
            msg += f"\n   stable tests lost: {sorted(stable - passed)}"
        ok = a.returncode == 0 and b.returncode != 0 and r.returncode == 0
        return ("OK " if ok else "BAD ") + msg
    finally:
        for x in (wt, wt + "_rep"):
            shutil.rmtree(x, ignore_errors=True)
        for x in (wt + ".sh", wt + ".json"):
            if os.path.exists(x):
                os.unlink(x)


for d in sys.argv[1:]:
    if d.startswith("--"):
        continue
    print(os.path.basename(d), main(d), flush=True)
