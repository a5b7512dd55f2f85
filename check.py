#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on /repo's current working tree: prints the SSA of the sources, discharges the contracts of the functions the
property depends on, runs the harness of the real code (bounded stand-ins and the search for failing inputs), writes evidence."""
import os, sys
PY = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(PY) and sys.executable != PY and not os.environ.get("VERIF_PY"):
    os.environ["VERIF_PY"] = "1"; os.environ["PYTHONHASHSEED"] = "0"; os.execv(PY, [PY] + sys.argv)
import json, time, subprocess, tempfile, shutil, signal, argparse, multiprocessing as mp, traceback
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "vcg"))

def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local",
             GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
    return e

def gofront_bin():
    b = os.path.join(V, ".build", "gofront")
    src = [os.path.join(V, "gofront", f) for f in ("main.go", "go.mod", "go.sum")]
    if not os.path.exists(b) or any(os.path.exists(s) and os.path.getmtime(s) > os.path.getmtime(b) for s in src):
        os.makedirs(os.path.dirname(b), exist_ok=True)
        subprocess.run(["go", "build", "-o", b, "."], cwd=os.path.join(V, "gofront"), env=goenv(), check=True)
    return b

def front(work, key):
    """SSA of the packages of one build configuration"""
    import props
    tags, pk = props.BUILDS[key]
    out = os.path.join(work, key + ".json")
    cmd = [gofront_bin(), "-dir", REPO] + (["-tags", tags] if tags else []) + ["-o", out] + pk
    r = subprocess.run(cmd, env=goenv(), capture_output=True, text=True, timeout=400)
    if r.returncode: raise RuntimeError("front end: " + (r.stderr or r.stdout)[-2000:])
    return out

PROGS = {}
def run_task(args):
    k, task = args
    t = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30 if task.get("kind") != "lean" else resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception: pass
    def onalarm(*a): raise TimeoutError("time limit of the obligation task")
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(int(task.get("limit", 600)))
    try:
        import props
        r = props.prove(PROGS, task, REPO)
    except TimeoutError as e: r = dict(obls=[(task["name"], "undecided", str(e))])
    except MemoryError as e: r = dict(obls=[(task["name"], "undecided", "out of memory")])
    except Exception as e: r = dict(obls=[(task["name"], "undecided", traceback.format_exc()[-1500:])])
    finally: signal.alarm(0)
    r["name"] = task["name"]; r["time"] = time.time() - t
    return k, r

def proofs(prop, tier, work, deadline):
    import props
    tasks = props.tasks(prop, tier)
    if not tasks: return []
    from ssa import Prog
    keys = sorted({b for t in tasks for b in t["builds"]})
    for b in keys:
        PROGS[b] = Prog(front(work, b))
    tasks = [x for t in tasks for x in props.expand(PROGS, t, REPO)]
    res = [None] * len(tasks)
    order = sorted(enumerate(tasks), key=lambda kt: -kt[1].get("cost", 1))
    with mp.get_context("fork").Pool(8, maxtasksperchild=16) as pool:
        it = pool.imap_unordered(run_task, order)
        for _ in order:
            left = deadline - time.time()
            try: k, r = it.next(timeout=max(1, left))
            except mp.TimeoutError: break
            res[k] = r
        pool.terminate()
    return [r if r is not None else dict(name=t["name"], obls=[(t["name"], "undecided", "time limit of the check")], time=0) for r, t in zip(res, tasks)]

def harness(prop, tier, work, seed, limit):
    """compile and run the property's harness units; each gives a result dictionary"""
    import props
    units = props.harness_units(prop, tier)
    procs = []
    for k, u in enumerate(units):
        d = os.path.join(work, "h%d" % k); os.makedirs(d)
        try: procs.append((u, d, start_unit(u, d, prop, tier, seed, limit)))
        except Exception as e: procs.append((u, d, e))
    out = []
    for u, d, pr in procs:
        log = ""
        if isinstance(pr, Exception): log = str(pr)
        else:
          try: log = pr.communicate(timeout=limit + 240)[0]
          except subprocess.TimeoutExpired:
            os.killpg(pr.pid, signal.SIGKILL); log = "time limit"
        f = os.path.join(d, "out.json")
        if os.path.exists(f): r = json.load(open(f))
        else:
            r = dict(evaluations=0, distinct=0, samples=[], failures=[], sites={}, error=log[-3000:])
            if "test timed out" not in log and "panic: " in log or "fatal error: " in log or "SIGSEGV" in log:
                r["failures"] = [dict(site="crash", input="seed %d" % seed, detail=log[-3000:])]
            elif "panic: test timed out" in log:      # many times the time the units take
                r["failures"] = [dict(site="does not terminate", input="seed %d" % seed, detail=log[log.index("panic: test timed out"):][:3000])]
        r["failures"] = r.get("failures") or []; r["samples"] = r.get("samples") or []
        r["unit"] = u["name"]; r["log"] = log[-3000:]; out.append(r)
    return out

def library_file(what):
    pkg, f = what
    r = subprocess.run(["go", "list", "-f", "{{.Dir}}", pkg], cwd=REPO, env=goenv(), capture_output=True, text=True)
    return os.path.join(r.stdout.strip(), f)

def start_unit(u, d, prop, tier, seed, limit):
    rep = {}
    pdir = os.path.join(REPO, u["pkg"]) if u["pkg"] != "." else REPO
    for f in os.listdir(pdir):
        if f.endswith("_test.go"): rep[os.path.join(pdir, f)] = ""
    for k, src in enumerate(u["files"]):
        text = open(os.path.join(V, "harness", src)).read()
        for a, b in u.get("subst", {}).items(): text = text.replace(a, b)
        p = os.path.join(d, "verif%d_test.go" % k); open(p, "w").write(text)
        rep[os.path.join(pdir, "zz_verif%d_test.go" % k)] = p
    for k, (what, edits) in enumerate(u.get("hooks", [])):
        # instrumented copies of library files, made from the installed source on every run
        src = library_file(what); text = open(src).read()
        for a, b in edits:
            if a not in text: raise RuntimeError("hook point not found in " + src)
            text = text.replace(a, b, 1)
        p = os.path.join(d, "hook%d.go" % k); open(p, "w").write(text); rep[src] = p
    ov = os.path.join(d, "overlay.json"); json.dump({"Replace": rep}, open(ov, "w"))
    env = goenv(); env.update(VERIF_OUT=os.path.join(d, "out.json"), VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SECS=str(u.get("secs", {}).get(tier, 20 if tier == "quick" else 200)))
    cmd = ["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "%ds" % limit, "-run", "^%s$" % u.get("run", "TestVerif" + prop)]
    if u.get("tags"): cmd += ["-tags", u["tags"]]
    cmd += ["./" + u["pkg"]]
    return subprocess.Popen(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--no-proof", action="store_true"); ap.add_argument("--no-harness", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args(); prop = a.prop; tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1); t0 = time.time(); deadline = t0 + (780 if tier == "quick" else 7200)
    import props
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        hres, pres = [], []
        th = not a.no_harness
        if th:
            q = mp.get_context("fork").Queue()
            def hp():
                try: q.put(harness(prop, tier, work, seed, 400 if tier == "quick" else 3000))
                except Exception: q.put([dict(unit="harness", evaluations=0, distinct=0, samples=[], failures=[], sites={}, error=traceback.format_exc()[-2000:], log="")])
            hproc = mp.get_context("fork").Process(target=hp); hproc.start()
        if not a.no_proof: pres = proofs(prop, tier, work, deadline)
        if th:
            hres = q.get(timeout=max(60, deadline + 60 - time.time())); hproc.join()
        return report(prop, tier, seed, t0, pres, hres, a.v)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def report(prop, tier, seed, t0, pres, hres, verbose):
    import props
    kf = json.load(open(os.path.join(V, "known_findings.json")))
    listed = [k for k in kf["findings"] if k["property"] == prop]
    obls = [(r["name"],) + tuple(o) for r in pres for o in r["obls"]]
    bad = [o for o in obls if o[2] != "proved"]
    fails, known, kseen = [], [], set()
    for r in hres:
        for f in r["failures"]:
            k = next((k for k in listed if k["unit"] in ("*", r["unit"]) and k["site"] == f["site"] and (k.get("input") in (None, f["input"]))), None)
            (known if k else fails).append((r, f, k))
            if k: kseen.add(k["id"])
    kbad = []
    for o in list(bad):
        k = next((k for k in listed if k.get("obligation") and k["obligation"] in o[1] and k.get("task") in (None, o[0])), None)
        if k: bad.remove(o); kbad.append(o); kseen.add(k["id"])
    for k in listed:
        if k["id"] in kseen: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if verbose:
        for r in sorted(pres, key=lambda r: -r["time"]): print("  %-50s %5d obligations %6.1fs %s" % (r["name"], len(r["obls"]), r["time"], [o for o in r["obls"] if o[1] != "proved"][:2]))
        for r in hres: print("  harness %-40s %7d evaluations %s %s" % (r["unit"], r["evaluations"], r.get("error", ""), r["failures"][:2]))
    info = props.INFO.get(prop, {})
    nob = len(obls); ndis = len([o for o in obls if o[2] == "proved"])
    fns = sorted({x for r in pres for x in r.get("functions", [r["name"]])})
    inl = sorted({x for r in pres for x in r.get("inlined", [])})
    stubs = sorted({x for r in pres for x in r.get("stubs", [])}); cons = sorted({x for r in pres for x in r.get("contracts", [])})
    level = info.get("level", "proof" if nob else "exploration")
    trusted = list(props.TRUSTED) + list(info.get("trusted", [])) + ["modelled library call: " + s for s in stubs]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=(1 if (bad or fails) else 0), assumptions=list(info.get("assumptions", [])) + sorted({x for r in pres for x in r.get("assumed", [])}))
    cov = dict()
    if nob:
        cov.update(obligations=nob, discharged=ndis, checker_cmd="python3 check.py %s --tier %s" % (prop, tier), trusted_base=trusted, functions_under_contract=fns, executed_in_place=inl,
                   contracts_relied_on=cons, solver_time_s=round(sum(r["time"] for r in pres), 2),
                   back_ends=sorted({b for r in pres for b in r.get("backends", ["vcg linear arithmetic"])}),
                   undischarged=[list(map(str, o))[:4] for o in bad[:20]], tasks=[dict(name=r["name"], obligations=len(r["obls"]), discharged=len([o for o in r["obls"] if o[1] == "proved"]), time_s=round(r["time"], 2)) for r in pres])
    he = sum(r["evaluations"] for r in hres)
    if hres:
        cov.update(evaluations=he, distinct_nontrivial=sum(r["distinct"] for r in hres),
                   rule=info.get("rule", "Inputs are boundary values, extreme word patterns and uniform values drawn from the seed, run on the compiled code and compared with exact integer arithmetic; distinct inputs are counted by their printed form. Bounded: not counted as proved."),
                   samples=[s for r in hres for s in r["samples"]][:10], bounded_units=[dict(unit=r["unit"], evaluations=r["evaluations"], sites=r["sites"], error=r.get("error", "")) for r in hres])
    if info.get("bounded"): cov["bounded_standins"] = info["bounded"]
    if level == "other": cov["explanation"] = info.get("explanation", "")
    ev["coverage"] = cov
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    rc = 0
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    if fails:
        r, f, _ = fails[0]; path = os.path.join(rdir, prop + ".json")
        json.dump(dict(property=prop, unit=r["unit"], site=f["site"], input=f["input"], detail=f["detail"], seed=seed, tier=tier,
                       rerun="VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s --no-proof -v" % (seed, tier, prop),
                       all_failures=[dict(unit=r["unit"], **f) for r, f, _ in fails[:20]], failed_obligations=[list(map(str, o))[:4] for o in bad[:50]]), open(path, "w"), indent=1)
        print("failing input: unit %s site %s input %s: %s" % (r["unit"], f["site"], f["input"][:300], f["detail"][:300]))
        for o in bad[:5]: print("failed obligation: %s: %s (%s)" % (o[0], o[1], o[2]))
        print("VIOLATION property=%s replay=%s" % (prop, path)); rc = 1
    elif bad:
        path = os.path.join(rdir, prop + ".json")
        json.dump(dict(property=prop, failed_obligations=[dict(task=o[0], obligation=o[1], status=o[2], verifier_output=str(o[3])) for o in bad[:100]],
                       note="no failing input found by the harness", rerun="python3 /verif/check.py %s --no-harness -v" % prop), open(path, "w"), indent=1)
        for o in bad[:5]: print("failed obligation: %s: %s (%s) %s" % (o[0], o[1], o[2], str(o[3])[:300]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)); rc = 1
    else:
        herr = [r for r in hres if r.get("error")]
        if herr: print("note: harness unit %s gave no answer: %s" % (herr[0]["unit"], herr[0]["error"][-300:].replace("\n", " | ")))
        print("%s: %d of %d obligations discharged over %d tasks, %d harness evaluations, %.1f s" % (prop, ndis, nob, len(pres), he, time.time() - t0))
        if not nob and he == 0: print("nothing was checked"); rc = 2
    return rc

if __name__ == "__main__": sys.exit(main())
