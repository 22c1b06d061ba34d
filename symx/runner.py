"""Decides one property: explores its cases in parallel, writes evidence, reports violations."""
import importlib, json, os, pickle, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["id"]: e for e in d["known"]}


def prop_known(pid):
    return {k: v for k, v in load_known().items() if pid in v["properties"]}


def start_worker(pid, tmp):
    path = os.path.join(tmp, "w.sock")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TZ="UTC")
    err = open(os.path.join(tmp, "worker.err"), "w")
    p = subprocess.Popen([PY, "-B", "-m", "symx.worker", path, pid], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=err, text=True, start_new_session=True)
    line = p.stdout.readline()
    if line.strip() != "ready":
        p.wait(5)
        raise RuntimeError("the real package does not load: " + open(os.path.join(tmp, "worker.err")).read()[-1500:])
    return p, path


def run_case(pid, name, case, sock, out, known, seed, tier):
    """In a forked child."""
    from . import core, loader, explore, worker

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(5000)
    loader.start_tracing()
    opts = dict(case["opts"])
    if tier == "thorough":
        opts.update(case.get("thorough", {}))
    ex = explore.Explorer(name, case["fn"], worker.Client(sock), opts, known, seed)
    err = None
    try:
        res = ex.run()
    except MemoryError:
        err = "memory"
        res = ex.res
    except BaseException as e:
        import traceback

        err = "".join(traceback.format_exception(e))[-3000:]
        res = ex.res
    d = dict(case=name, err=err, claims=res.claims, violations=res.violations, unreproduced=res.unreproduced, known=res.known, inconclusive=res.inconclusive,
             paths=res.paths, full_paths=res.full_paths, replays=res.replays, replays_ok=res.replays_ok, replay_refuted=res.replay_refuted, replay_err=res.replay_err, samples=res.samples,
             unexplored=res.unexplored, reached=res.reached, time=res.time, queries=res.stats.queries, solver_s=res.stats.solver_s, sat=res.stats.sat, unsat=res.stats.unsat,
             unknown=res.stats.unknown, branches=res.stats.branches, infeasible=res.stats.infeasible, funcs=sorted(loader.FUNCS))
    with open(out + ".tmp", "w") as f:
        json.dump(d, f, default=str)
    os.rename(out + ".tmp", out)


def check(pid, tier="quick", only=None, verbose=False, jobs=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = prop_known(pid)
    sys.path.insert(0, VERIF)
    tmp = tempfile.mkdtemp(prefix="vp_" + pid + "_")
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    results, problems = [], []
    w = None
    try:
        try:
            w, sock = start_worker(pid, tmp)
        except RuntimeError as e:
            print("ERROR %s: %s" % (pid, e))
            return 2
        mod = importlib.import_module("harness." + pid)
        cases = [(n, c) for n, c in mod.CASES.items() if (tier == "thorough" or c.get("tier", "quick") == "quick") and (only is None or n == only)]
        todo = list(cases)
        running = {}
        stop = False
        while todo or running:
            while todo and len(running) < jobs and not stop:
                n, c = todo.pop(0)
                out = os.path.join(tmp, "r%d" % len(os.listdir(tmp)))
                out = os.path.join(tmp, "case_%s.json" % n.replace("/", "_"))
                p = os.fork()
                if p == 0:
                    try:
                        os.setpgid(0, 0)
                        run_case(pid, n, c, sock, out, list(known), seed, tier)
                    finally:
                        sys.stdout.flush()
                        os._exit(0)
                o = dict(c["opts"])
                if tier == "thorough":
                    o.update(c.get("thorough", {}))
                running[p] = (n, out, time.time() + o.get("time", 60) + 60)
            if not running:
                break
            p, st = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                now = time.time()
                for q, (n, out, dl) in list(running.items()):
                    if now > dl:
                        os.kill(q, signal.SIGKILL)
                        running[q] = (n, out, now + 1000)
                time.sleep(0.02)
                continue
            if p not in running:
                continue
            n, out, dl = running.pop(p)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r["violations"] and not verbose:
                    stop = True
                    todo = []
                    for q in running:
                        try:
                            os.kill(q, signal.SIGKILL)
                        except OSError:
                            pass
            elif not stop:
                problems.append("case %s ended without an answer (status %s)" % (n, st))
    finally:
        if w is not None:
            try:
                os.killpg(w.pid, signal.SIGKILL)
            except OSError:
                pass
            w.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, tier, seed, results, problems, known, cases, mod, time.time() - t0, verbose)


def report(pid, tier, seed, results, problems, known, cases, mod, wall, verbose):
    viol = [v for r in results for v in r["violations"]]
    unrep = [(r["case"], c) for r in results for c in r["unreproduced"]]
    inc = [(r["case"], s) for r in results for s in r["inconclusive"]]
    for r in results:
        if r["err"]:
            problems.append("case %s: %s" % (r["case"], r["err"]))
    tot = lambda k: sum(r[k] for r in results)
    claims = {}
    for r in results:
        for n, c in r["claims"].items():
            d = claims.setdefault(n, dict(reached=0, proved=0, by_normal_form=0, within_tol=0, unknown=0, violated=0))
            for k in d:
                d[k] += c[k]
    found = {}
    for r in results:
        found.update(r["known"])
    proved = sum(c["proved"] for c in claims.values())
    # vacuity: every case must reach a claim on a satisfiable path
    for r in results:
        if not r["reached"] and not r["violations"]:
            inc.append((r["case"], "no claim was reached in this case"))
        elif not r["replays_ok"] and not r["violations"] and not r["known"]:
            inc.append((r["case"], "no witness of a path ran on the real code"))
    if verbose:
        for r in results:
            print("case %-34s paths %4d/%4d claims %s  replays %d ok %d refuted %d err %d  q %d  %.1fs (solver %.1fs) inc %s" % (
                r["case"], r["full_paths"], r["paths"], {k: "%d/%d%s" % (v["proved"], v["proved"] + v["unknown"] + v["violated"], "~%d" % v["within_tol"] if v["within_tol"] else "") for k, v in r["claims"].items()},
                r["replays"], r["replays_ok"], r["replay_refuted"], r["replay_err"], r["queries"], r["time"], r["solver_s"], r["inconclusive"]))
    for fid in sorted(found):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, fid, known[fid]["what"]))
    rc = 0
    if viol:
        rdir = os.path.join(VERIF, "out", "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(viol[: 3 if not verbose else 20]):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump(dict(property=pid, **v), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  case %s, claim %s: %s" % (v["request"]["case"], v["claim"], v["desc"]))
            print("  inputs %s choices %s" % (v["request"]["inputs"], v["request"]["choices"]))
        rc = 1
    elif problems or not proved:
        rc = 2
    for c, n in unrep[:10]:
        print("INCONCLUSIVE %s: case %s claim %s: the solver's counterexample does not reproduce on the real code" % (pid, c, n))
    for p in problems[:10]:
        print("ERROR %s: %s" % (pid, p))
    for c, s in inc[:40]:
        print("INCONCLUSIVE %s: case %s: %s" % (pid, c, s))
    funcs = sorted({f for r in results for f in r["funcs"]})
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("branches"), traces_validated_against_impl=tot("replays_ok"),
            samples=[s for r in results for s in r["samples"]][:6] or [dict(note="none")],
            functions_encoded=funcs, bounds=getattr(mod, "BOUNDS", ""), stubs_and_assumptions=getattr(mod, "STUBS", ""), outside_the_claim=getattr(mod, "OUTSIDE", ""),
            cases=len(results), complete_paths=tot("full_paths"), infeasible_paths=tot("infeasible"), unexplored_branches=tot("unexplored"),
            claims=claims, claims_proved=proved, queries=tot("queries"), queries_unsat=tot("unsat"), queries_sat=tot("sat"), queries_unknown=tot("unknown"), solver_time_s=round(tot("solver_s"), 2),
            replays=tot("replays"), inconclusive=["%s: %s" % x for x in inc] + ["%s: unreproduced counterexample to: %s" % x for x in unrep], known_findings=sorted(found), result={0: "held", 1: "violated", 2: "error"}[rc]),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])), violations=len(viol), wall_s=round(wall, 2))
    ev = finish_evidence(ev)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %s; %d cases, %d paths (%d complete), %d claim obligations proved, %d queries, %.1f s solver, %d replays on the real code, %.1f s" % (
        pid, tier, {0: "held on everything explored", 1: "VIOLATED", 2: "error"}[rc], len(results), tot("paths"), tot("full_paths"), proved, tot("queries"), tot("solver_s"), tot("replays_ok"), wall))
    return rc


def finish_evidence(ev):
    return ev


def main(argv):
    import argparse

    a = argparse.ArgumentParser()
    if argv[:1] == ["--selftest"]:
        import z3

        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x == 2)
        ok = s.check() == z3.sat
        s.add(x * x < 2)
        ok = ok and s.check() == z3.unsat
        print("solver %s %s" % (z3.get_version_string(), "ok" if ok else "BROKEN"))
        return 0 if ok else 2
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--case")
    a.add_argument("--replay")
    a.add_argument("-v", action="store_true")
    a.add_argument("-j", type=int)
    x = a.parse_args(argv)
    if x.replay:
        from . import worker

        with open(x.replay) as f:
            d = json.load(f)
        sys.path.insert(0, VERIF)
        worker.preload()
        out = worker.run(d["request"], x.property)
        print(json.dumps(out, indent=1, default=str))
        return 1 if out["status"] == "exception" or any(not r[1] for r in out["results"]) else 0
    return check(x.property, x.tier, x.case, x.v, x.j)
