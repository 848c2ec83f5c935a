"""Runs the symbolic harnesses of one property: python -m symx.run C01"""
import importlib, json, os, pickle, signal, subprocess, sys, time, traceback, multiprocessing as mp, random, collections
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.set_int_max_str_digits(0)
sys.setrecursionlimit(4000)
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = int(os.environ.get("SYMX_PROCS", "8"))
TOTAL_S = int(os.environ.get("SYMX_TOTAL", "600" if TIER == "quick" else "780"))


class Alarm(BaseException):
    pass


def run_case(case, deadline, part=None):
    """Executed in a forked worker.  Returns a plain dict."""
    from symx import engine as eng, rt
    import sympy as sp
    funcs, files = set(), {}
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
        def on_line(code, line):
            if "/triples/" in code.co_filename:
                files.setdefault(code.co_filename, set()).add(line)
            return mon.DISABLE
        def on_start(code, off):
            if "/triples/" in code.co_filename:
                funcs.add(code.co_filename.split("/triples/")[1][:-3].replace("/", ".") + ":" + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(tool, mon.events.LINE, on_line)
        mon.register_callback(tool, mon.events.PY_START, on_start)
        mon.set_events(tool, mon.events.LINE | mon.events.PY_START)
    except Exception:
        pass
    E = eng.Engine(query_ms=case.query_ms, max_paths=case.max_paths, deadline=deadline)
    R = dict(case=case.name, kinds=collections.Counter(), obligations=0, discharged=0, inconclusive=0, trivial=0,
             cex=[], supp=[], valid=[], outs=collections.Counter(), samples=[], decisions=0)

    def handler(sig, frm):
        raise eng.OutOfReach("path time limit")
    signal.signal(signal.SIGALRM, handler)

    def body(E):
        signal.setitimer(signal.ITIMER_REAL, case.path_s, 3)
        try:
            return case.body(E)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def vals(m):
        return {k.name: str(v) for k, v in m.items() if "_f" not in k.name}

    def on_path(E, kind, value):
        R["kinds"][kind] += 1
        R["decisions"] += len(E.trace)
        if kind in ("prune", "budget"):
            return
        if kind in ("raise", "degenerate") and case.crash_ok:
            return
        if kind != "return":
            R["outs"][f"{kind}: {type(value).__name__} {str(value)[:120]}"] += 1
            lim = case.supplement * (3 if kind in ("raise", "degenerate") else 1)
            if sum(1 for s in R["supp"] if s["kind"] == kind) < lim:
                if kind == "raise" and len(R["samples"]) < 50 and os.environ.get("SYMX_DEBUG"):
                    traceback.print_exception(value)
                for m in E.models(n=2 if kind in ("raise", "degenerate") else 1, ms=1500):
                    R["supp"].append(dict(kind=kind, why=str(value)[:200], vals=vals(m)))
            return
        signal.setitimer(signal.ITIMER_REAL, case.path_s, 3)
        try:
            obs = []
            for lab, conds in case.checks(E, value):
                R["obligations"] += 1
                if conds is None:
                    R["discharged"] += 1
                    R["trivial"] += 1
                    continue
                if hasattr(conds, "check"):
                    r, conds = conds.check(E, case.query_ms)
                else:
                    r, _ = E.check(E.pc + conds, ms=case.query_ms)
                sliced = E.slice_models(conds) if r == "unknown" and len(R["cex"]) < 12 and case.slices else []
                if r == "unsat":
                    R["discharged"] += 1
                elif r == "sat" or sliced:
                    if len(R["cex"]) < 12:
                        ms = sliced or E.models(extra=conds, n=4)
                        R["cex"].append(dict(label=lab, claim=str(conds)[:400], fullvals=[{k.name: str(v) for k, v in m.items()} for m in ms[:2]], vals=[vals(m) for m in ms], path=[f"{e} {o} 0" if not isinstance(e, (list, tuple)) else o for o, e in E.pc][:40],
                                             fresh=any("_f" in k.name for k in E.K)))
                else:
                    R["inconclusive"] += 1
                    R["outs"][f"inconclusive: {lab}"] += 1
            if len(R["samples"]) < 2:
                R["samples"].append(dict(path=[f"{e} {o} 0" if not isinstance(e, (list, tuple)) else o for o, e in E.pc][:12], result=str(value)[:300]))
            if len(R["valid"]) < case.validate and not E.stubbed:
                for m in E.models(n=1, ms=1500):
                    R["valid"].append(dict(vals=vals(m), expect=case.outcome(value)))
        except (eng.OutOfReach, eng.PathStop) as e:
            R["inconclusive"] += 1
            R["outs"][f"inconclusive: {str(e)[:100]}"] += 1
            if len(R["supp"]) < 3 * case.supplement:
                signal.setitimer(signal.ITIMER_REAL, 0)
                for m in E.models(n=1, ms=1500):
                    R["supp"].append(dict(kind="inconclusive", why=str(e)[:200], vals=vals(m)))
        except Exception as e:
            R["inconclusive"] += 1
            R["outs"][f"inconclusive: {type(e).__name__} {str(e)[:100]}"] += 1
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exception(e)
            if len(R["supp"]) < 3 * case.supplement:
                signal.setitimer(signal.ITIMER_REAL, 0)
                for m in E.models(n=1, ms=1500):
                    R["supp"].append(dict(kind="inconclusive", why=str(e)[:200], vals=vals(m)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    t0 = time.time()
    E.concretise = case.concretise
    last = [0]

    def finish(exhausted):
        R["exhausted"] = exhausted
        R["stats"] = E.stats
        R["wall"] = time.time() - t0
        R["functions"] = sorted(funcs)
        R["files"] = {k: sorted(v) for k, v in files.items()}
        R["bounds"] = case.bounds()

    def on_path2(E, kind, value):
        on_path(E, kind, value)
        if time.time() > last[0] + 1 and part:
            finish(False)
            with open(part + ".tmp", "wb") as f:
                pickle.dump(R, f)
            os.replace(part + ".tmp", part)
            last[0] = time.time()
    finish(E.explore(body, on_path2, case.seeds))
    try:
        mon.free_tool_id(tool)
    except Exception:
        pass
    return R


def worker(case, path, deadline):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if not os.environ.get("SYMX_DEBUG"):
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
        r = run_case(case, deadline, path + ".part")
    except BaseException as e:
        r = dict(case=case.name, crash=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-1500:])
    with open(path, "wb") as f:
        pickle.dump(r, f)
    os._exit(0)


def run_all(cases, tmp, confirm=None):
    """confirm(result) replays a counterexample on the real code; once one is confirmed the remaining cases are not needed"""
    import threading
    ctx = mp.get_context("fork")
    found, checked, ths = [], set(), []
    todo = sorted(cases, key=lambda c: -c.cost)
    running, results = [], []
    hard = T0 + TOTAL_S * 0.75
    while todo or running:
        while todo and len(running) < NPROC:
            c = todo.pop(0)
            if time.time() > hard:
                results.append(dict(case=c.name, crash="not started: total time budget"))
                continue
            p = os.path.join(tmp, f"{len(results)}-{len(running)}-{c.name.replace('/', '_')}-{time.time()}.pkl")
            dl = min(time.time() + c.budget_s, hard)
            pr = ctx.Process(target=worker, args=(c, p, dl))
            pr.start()
            running.append((pr, c, p, dl + c.path_s + 8))
        time.sleep(0.02)
        if confirm:
            for r in results:
                if r.get("cex") and r["case"] not in checked and len(checked) < 40:
                    checked.add(r["case"])
                    ths.append(threading.Thread(target=lambda r=r: confirm(r) and found.append(r["case"]), daemon=True))
                    ths[-1].start()
            if found:
                for pr, c, p, dl in running:
                    pr.kill()
                    pr.join()
                results += [dict(case=c.name, crash="not needed: a violation is confirmed") for c in [x[1] for x in running] + todo]
                break
        for item in list(running):
            pr, c, p, dl = item
            if not pr.is_alive():
                pr.join()
                if os.path.exists(p):
                    with open(p, "rb") as f:
                        results.append(pickle.load(f))
                    os.unlink(p)
                else:
                    results.append(dict(case=c.name, crash=f"worker died (exit {pr.exitcode})"))
                running.remove(item)
            elif time.time() > dl:
                pr.kill()
                pr.join()
                try:
                    with open(p + ".part", "rb") as f:
                        r = pickle.load(f)
                    r["outs"]["stopped at time limit"] += 1
                    results.append(r)
                except Exception:
                    results.append(dict(case=c.name, crash="killed at time limit"))
                running.remove(item)
    for t in ths:
        t.join(90)
    return results


class Native:
    """Pool of processes running the untransformed code of /repo."""
    def __init__(self, prop, n):
        self.prop = prop
        self.n = n

    def run(self, jobs, until):
        """jobs: list of (case name, vals, seconds).  Returns list of dict."""
        out = [None] * len(jobs)
        env = dict(os.environ, PYTHONHASHSEED="0")
        import threading, queue
        q = queue.Queue()
        for i, j in enumerate(jobs):
            q.put((i, j))
        def serve():
            proc = None
            while True:
                try:
                    i, (name, vals, secs) = q.get_nowait()
                except queue.Empty:
                    break
                if time.time() > until:
                    out[i] = dict(status="skipped")
                    continue
                if proc is None or proc.poll() is not None:
                    proc = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "symx.native", self.prop], cwd=VERIF, env=env,
                                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                    proc.stdout.readline()
                proc.stdin.write(json.dumps(dict(case=name, vals=vals, secs=secs)) + "\n")
                proc.stdin.flush()
                box = []
                def rd():
                    box.append(proc.stdout.readline())
                t = threading.Thread(target=rd, daemon=True)
                t.start()
                t.join(secs + 30)
                if not box or not box[0]:
                    proc.kill()
                    out[i] = dict(status="timeout")
                    proc = None
                else:
                    out[i] = json.loads(box[0])
            if proc is not None:
                proc.kill()
        ths = [threading.Thread(target=serve) for _ in range(min(self.n, max(1, len(jobs))))]
        [t.start() for t in ths]
        [t.join() for t in ths]
        return out


def main(prop):
    from symx import loader, rt
    import tempfile, shutil
    loader.install()
    rt.install()
    import z3
    z3.set_param("smt.random_seed", SEED % 1000)
    mod = importlib.import_module(f"props.{prop.lower()}")
    cases = mod.cases(TIER)
    only = os.environ.get("SYMX_ONLY")
    if only:
        cases = [c for c in cases if any(o in c.name for o in only.split(","))]
    assert len({c.name for c in cases}) == len(cases), "duplicate case names"
    import triples.core
    if hasattr(mod, "prepare"):
        mod.prepare()
    tmp = tempfile.mkdtemp(prefix="symx")
    try:
        byname = {c.name: c for c in cases}
        def confirm(r):
            for ce in r["cex"][:4]:
                for v in ce["vals"][:2]:
                    o = Native(prop, 1).run([(r["case"], v, byname[r["case"]].replay_s)], T0 + TOTAL_S)[0]
                    if o and o.get("status") == "done" and o["violation"] and not match_known(load_known(), r["case"], v, o["violation"]):
                        return True
            return False
        results = run_all(cases, tmp, None if os.environ.get("SYMX_ALL") else confirm)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    stopped = any("not needed" in r.get("crash", "") for r in results)
    # ---- replay ---------------------------------------------------------------
    known = [k for k in load_known() if k["property"] == prop]
    jobs, meta = [], []
    for r in results:
        if "crash" in r:
            continue
        c = byname[r["case"]]
        for ce in r["cex"]:
            for v in ce["vals"]:
                jobs.append((c.name, v, c.replay_s)); meta.append(("cex", r, ce))
        if stopped:
            continue
        for s in r["supp"]:
            jobs.append((c.name, s["vals"], c.replay_s)); meta.append(("supp", r, s))
        for s in r["valid"]:
            jobs.append((c.name, s["vals"], c.replay_s)); meta.append(("valid", r, s))
    order = sorted(range(len(jobs)), key=lambda i: {"cex": 0, "valid": 1, "supp": 2}[meta[i][0]])
    jobs = [jobs[i] for i in order]; meta = [meta[i] for i in order]
    outs = Native(prop, NPROC).run(jobs, T0 + TOTAL_S)
    violations, unreproduced, validated, mismatches, suppn = [], [], 0, [], 0
    seen = set()
    for (kind, r, x), j, o in zip(meta, jobs, outs):
        if o is None or o.get("status") != "done":
            continue
        if kind == "supp":
            suppn += 1
        if o["violation"]:
            violations.append((kind, r["case"], j[1], o["violation"], x))
            if kind == "cex":
                x["reproduced"] = True
        elif kind == "valid":
            if o["outcome"] != x["expect"]:
                mismatches.append(dict(case=r["case"], vals=j[1], symbolic=x["expect"], native=o["outcome"]))
            else:
                validated += 1
    for r in results:
        for ce in r.get("cex", []):
            if not ce.get("reproduced"):
                unreproduced.append(dict(case=r["case"], label=ce["label"], vals=ce["vals"][:2], path=ce["path"], fresh=ce.get("fresh")))
    # ---- report -----------------------------------------------------------------
    code = 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    known_seen = set()
    for kind, cname, vals, msg, x in violations:
        k = match_known(known, cname, vals, msg)
        if k is not None:
            if k["id"] not in known_seen:
                known_seen.add(k["id"])
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
            continue
        nviol += 1
        if nviol <= int(os.environ.get("SYMX_NV", "5")):
            path = os.path.join(rdir, f"{prop}-{nviol}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, case=cname, vals=vals, message=msg, found_by=kind, detail={k: v for k, v in x.items() if k != "vals"}), f, indent=1, default=str)
            print(f"# {cname}: {msg[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        code = 1
    for k in known:
        if k.get("status", "open") == "open" and k["id"] not in known_seen:
            o = Native(prop, 1).run([(k["case"], k["vals"], 60)], T0 + TOTAL_S + 60)[0] if k.get("vals") is not None and k["case"] in byname else None
            if o and o.get("status") == "done" and o["violation"]:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
    write_evidence(prop, mod, cases, results, nviol, validated, mismatches, unreproduced, suppn, known_seen)
    crashed = [r for r in results if "crash" in r]
    good = [r for r in results if "crash" not in r and r["obligations"] > 0]
    tot = collections.Counter()
    for r in good:
        tot.update(dict(paths=sum(r["kinds"].values()), obl=r["obligations"], ok=r["discharged"], inc=r["inconclusive"]))
    print(f"# {prop} {TIER}: cases={len(cases)} crashed={len(crashed)} paths={tot['paths']} obligations={tot['obl']} discharged={tot['ok']} "
          f"inconclusive={tot['inc']} validated={validated} mismatches={len(mismatches)} unreproduced={len(unreproduced)} violations={nviol} wall={time.time()-T0:.1f}s")
    if os.environ.get("SYMX_DEBUG") or os.environ.get("SYMX_V"):
        for r in results:
            if "crash" in r:
                print("  CRASH", r["case"], r["crash"], r.get("tb", ""))
            else:
                print(f"  {r['case']}: wall={r['wall']:.1f} {dict(r['kinds'])} obl={r['obligations']} ok={r['discharged']} inc={r['inconclusive']} exh={r['exhausted']} cex={len(r['cex'])} q={r['stats']['queries']} s={r['stats']['solver_s']:.1f}")
                for k, v in sorted(r["outs"].items(), key=lambda kv: -kv[1])[:6]:
                    print("       ", v, k)
                for ce in r["cex"][:3]:
                    print("       CEX", ce["label"], ce["fullvals"], ce["claim"], ce["path"][-int(os.environ.get("SYMX_PATHN", "10")):], "reproduced" if ce.get("reproduced") else "NOT reproduced")
        for m in mismatches:
            print("  MISMATCH", m)
    if code == 0 and not good:
        print("# nothing was decided")
        code = 3
    if code == 0 and unreproduced:
        for u in unreproduced[:5]:
            print("# counterexample not reproduced:", u["case"], u["label"], u["vals"])
        if os.environ.get("SYMX_STRICT", "0") == "1":
            code = 4
    return code


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def match_known(known, cname, vals, msg):
    for k in known:
        if k.get("status", "open") != "open":
            continue
        if k["case"] != cname:
            continue
        if k.get("message_contains") and k["message_contains"] not in msg:
            continue
        if k.get("vals_match") is not None:
            if any(str(vals.get(a)) != str(b) for a, b in k["vals_match"].items()):
                continue
        return k
    return None


def write_evidence(prop, mod, cases, results, nviol, validated, mismatches, unreproduced, suppn, known_seen):
    ok = [r for r in results if "crash" not in r]
    funcs = sorted({f for r in ok for f in r["functions"]})
    files = {}
    for r in ok:
        for k, v in r["files"].items():
            files.setdefault(k, set()).update(v)
    if os.environ.get("SYMX_COV"):
        json.dump({k.split("/triples/")[1]: sorted(v) for k, v in files.items()}, open(os.environ["SYMX_COV"], "w"))
    kinds = collections.Counter()
    outs = collections.Counter()
    for r in ok:
        kinds.update(r["kinds"])
        outs.update(r["outs"])
    st = collections.Counter()
    for r in ok:
        st.update({k: v for k, v in r["stats"].items()})
    cov = dict(
        states=sum(kinds.values()), transitions=sum(r["decisions"] for r in ok),
        traces_validated_against_impl=validated,
        samples=[dict(case=r["case"], **s) for r in ok for s in r["samples"][:1]][:8],
        harnesses=len(cases), path_outcomes=dict(kinds),
        obligations=sum(r["obligations"] for r in ok), discharged=sum(r["discharged"] for r in ok),
        discharged_by_normal_form=sum(r["trivial"] for r in ok),
        inconclusive=sum(r["inconclusive"] for r in ok),
        solver_queries=st["queries"], solver_seconds=round(st["solver_s"], 2), solver_sat=st["sat"], solver_unsat=st["unsat"], solver_unknown=st["unknown"],
        functions_encoded=funcs, lines_executed_symbolically={k.split("/triples/")[1]: len(v) for k, v in files.items()},
        cases_exhausted=sum(bool(r["exhausted"]) for r in ok), cases_truncated=[r["case"] for r in ok if not r["exhausted"]],
        cases_failed=[dict(case=r["case"], why=r["crash"]) for r in results if "crash" in r],
        outside_the_claim=[f"{v} x {k}" for k, v in outs.most_common(25)],
        witnesses_of_unfinished_paths_replayed=suppn, symbolic_native_mismatches=mismatches[:5],
        unreproduced_counterexamples=unreproduced[:5], known_findings_seen=sorted(known_seen),
        bounds=sorted({r["bounds"] for r in ok if r["bounds"]}),
        explanation=getattr(mod, "EXPLANATION", ""))
    ev = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - T0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
