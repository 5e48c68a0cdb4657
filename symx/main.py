"""Driver: decide one property. usage: python -m symx.main <ID> <quick|thorough>"""
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNCS = set()
REPO = os.environ.get("SYMX_REPO", "/repo")


def _monitor():
    """Record which /repo/bcause functions are executed symbolically (once per code object)."""
    mon = sys.monitoring
    mon.use_tool_id(4, "symx")

    def start(code, off):
        if REPO + "/bcause/" in code.co_filename:
            FUNCS.add(code.co_filename.split(REPO + "/")[1] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def _work(arg):
    i, check, h, cfg, vseed, opts = arg
    from . import run
    mod = importlib.import_module(f"symx.checks.{check.lower()}")
    old, sys.stdout = sys.stdout, io.StringIO()
    FUNCS.clear()
    sys.monitoring.restart_events()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = run.run_config(getattr(mod, h), cfg, validate_seed=vseed, **opts)
    finally:
        sys.stdout = old
    r["i"] = i
    r["funcs"] = sorted(FUNCS)
    return r


def concrete(jobs, timeout=300, procs=4):
    """Run jobs on the unpatched code in fresh processes."""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="symx_")
    k = max(1, min(procs, len(jobs) // 6))
    parts = [list(range(i, len(jobs), k)) for i in range(k)]
    out = [None] * len(jobs)
    t0 = time.time()
    try:
        ps = []
        for i, part in enumerate(parts):
            src, dst = os.path.join(d, f"in{i}.json"), os.path.join(d, f"out{i}.json")
            with open(src, "w") as f:
                json.dump([jobs[n] for n in part], f)
            log = open(os.path.join(d, f"log{i}"), "wb")
            ps.append((subprocess.Popen([sys.executable, "-m", "symx.replay", src, dst], cwd=ROOT, stdout=log,
                                        stderr=subprocess.STDOUT), dst, log, part))
        for p, dst, log, part in ps:
            try:
                p.wait(max(1, timeout - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
            got = []
            if os.path.exists(dst):
                with open(dst) as f:
                    got = [json.loads(l) for l in f if l.endswith("\n")]
            tail = open(log.name, "rb").read().decode(errors="replace")[-800:]
            for j, n in enumerate(part):
                out[n] = got[j] if j < len(got) else dict(status="error", detail="no result " + tail, records=[], inputs={})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=" + pid + " "):
                key, _, text = l[len("known: property=" + pid + " "):].partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def main():
    t0 = time.time()
    pid, tier = sys.argv[1].upper(), (sys.argv[2] if len(sys.argv) > 2 else "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    deadline = t0 + (float(os.environ.get("SYMX_BUDGET", "600" if tier == "quick" else "3000")))
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from . import shims
    _monitor()
    shims.install_symbolic()
    mod = importlib.import_module(f"symx.checks.{pid.lower()}")
    cfgs = mod.configs(tier)
    if only:
        cfgs = [c for c in cfgs if only in repr(c)]
    opts = dict(budget_paths=getattr(mod, "PATHS", 400), budget_s=getattr(mod, "SECS", {}).get(tier, 90 if tier == "quick" else 600),
                timeout_ms=getattr(mod, "TIMEOUT_MS", 8000))
    # translator validation: some configurations also run concretely on the unpatched code
    nval = min(len(cfgs), 40 if tier == "quick" else 160)
    step = max(1, len(cfgs) // max(1, nval))
    vidx = list(range(0, len(cfgs), step))[:nval + 1]
    job = lambda c, **k: dict(check=pid, h=c["h"], cfg=repr(c), **k)
    nproc = int(os.environ.get("SYMX_PROCS", "8"))
    import gc
    gc.freeze()
    results = [None] * len(cfgs)
    skipped = 0
    ctxm = mp.get_context("fork")
    # heavy configurations first, then listing order
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get("w", 1))
    with ctxm.Pool(nproc, initializer=_init) as pool:
        it = pool.imap_unordered(_work, [(i, pid, cfgs[i]["h"], cfgs[i], seed if i in set(vidx) else None, opts) for i in order])
        vproc = None
        bad = 0
        n = 0
        while n < len(cfgs):
            try:
                r = it.next(timeout=max(0.1, deadline - time.time()))
            except mp.TimeoutError:
                skipped = len(cfgs) - n
                pool.terminate()
                break
            n += 1
            results[r["i"]] = r
    done = [r for r in results if r is not None]

    # replay candidate violations on the unpatched code
    violations, inconclusive, replays = [], [], 0
    cand = [r for r in done if r["status"] in ("cex", "exc")]
    soft = [r for r in done if r["status"] in ("unsupported", "unknown", "timeout", "budget", "relax")]
    vac = [r for r in done if r["status"] == "vacuous"]
    # replay in rounds, spread over the harnesses, until one fails or none are left
    def spread(rs):
        rank, seen = {}, {}
        for r in rs:
            h = cfgs[r["i"]]["h"]
            rank[r["i"]] = seen[h] = seen.get(h, 0) + 1
        return sorted(rs, key=lambda r: rank[r["i"]])

    def replay_jobs(r, models, seeds):
        c = cfgs[r["i"]]
        out = []
        # small differences count where the solver has refuted an equality
        kw = dict(tight=True) if r in cand else {}
        for m in (r["models"] or [{}])[:models]:
            m = dict(m)
            s = m.pop("#seed", seed)
            out.append(job(c, values=m, seed=s, choices=r["choices"], **kw))
        for s in range(seeds):
            out.append(job(c, values={}, seed=seed + s, choices=r["choices"] if s == 0 and r in cand else {}, **kw))
        return out
    cand, soft = spread(cand), spread(soft)
    limit = t0 + (780 if tier == "quick" else 3300)
    hit = {}
    ci, si, first = 0, 0, True
    vjobs = []
    for i in vidx:
        r = results[i]
        if r and r.get("validation"):
            vjobs.append((i, job(cfgs[i], values={}, seed=seed, choices=r["validation"]["choices"])))
    val_out = []
    while first or ((ci < len(cand) or si < len(soft)) and not hit and time.time() < limit - 60):
        jobs, owner = [], []
        for r in cand[ci:ci + 24]:
            js = replay_jobs(r, 2, 3)
            jobs += js
            owner += [r] * len(js)
        for r in soft[si:si + 60]:
            js = replay_jobs(r, 1, 2)
            jobs += js
            owner += [r] * len(js)
        ci, si = ci + 24, si + 60
        outs = concrete(jobs + ([j for _, j in vjobs] if first else []), timeout=max(60, limit - time.time()), procs=nproc)
        replays += len(outs)
        if first:
            val_out = outs[len(jobs):]
        first = False
        for j, o, r in zip(jobs, outs, owner):
            if o["status"] in ("fail", "exc") and r["i"] not in hit:
                hit[r["i"]] = (j, o)
    for r in cand:
        if r["i"] in hit:
            violations.append((r, *hit[r["i"]]))
        elif r.get("exist_fail"):
            # an existential obligation: the solver's unsat is the verdict, the replay shows the same run
            j = job(cfgs[r["i"]], values=(r["models"] or [{}])[0], seed=seed, choices=r["choices"])
            violations.append((r, j, dict(status="fail", detail=r["detail"], inputs={})))
        elif r.get("alt") == ["ok", "ok"]:
            r["status"] = "ok_fixed_counts"
        else:
            inconclusive.append(r)
    for r in soft:
        if r["i"] in hit:
            violations.append((r, *hit[r["i"]]))
        elif r.get("alt") == ["ok", "ok"]:
            r["status"] = "ok_fixed_counts"
        else:
            inconclusive.append(r)

    # translator validation
    validated, mismatch = 0, []
    for (i, _), o in zip(vjobs, val_out):
        v = results[i]["validation"]["values"]
        if o["status"] != "ok":
            if o["status"] in ("fail", "exc") and i not in hit:
                violations.append((results[i], vjobs[[k for k, _ in vjobs].index(i)][1], o))
            continue
        rec = o["records"]
        if results[i]["relaxed"] and len(rec) < len(v):
            # at 0/1 equations the concrete run skips impossible conditions: compare what it did compute
            names = [m for m, _ in rec]
            v = [x for x in v if x[0] in names]
        ok = len(rec) == len(v) and all(m1 == m2 and (x is None or abs(x - y) <= 1e-6 + 1e-6 * abs(y)) for (m1, x), (m2, y) in zip(v, rec))
        if ok:
            validated += 1
        else:
            mismatch.append(dict(cfg=repr(cfgs[i]), sym=v[:4], conc=rec[:4]))

    # known findings
    kf = known_findings(pid)
    reported, known_hit = [], set()
    for r, j, o in violations:
        text = repr(cfgs[r["i"]]) + " " + o["detail"]
        k = next((k for k, t in kf if all(part in text for part in k.split(" && "))), None)
        if k is not None:
            known_hit.add(k)
        else:
            reported.append((r, j, o))
    for k, t in kf:
        if k in known_hit:
            print(f"KNOWN-FINDING: property={pid} {t}")

    funcs = sorted(set().union(*[r["funcs"] for r in done])) if done else []
    stats = {}
    for r in done:
        for k, v in r.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
    by = {}
    for r in done:
        by[r["status"]] = by.get(r["status"], 0) + 1
    samples = []
    okr = [r for r in done if r["status"] == "ok" and r["obligations"]]
    for r in okr[:: max(1, len(okr) // 4)][:5]:
        samples.append(dict(config=repr(cfgs[r["i"]]), paths=r["paths"], obligations=r["obligations"],
                            queries=r["stats"].get("queries", 0), solver_s=round(r["stats"].get("solver_s", 0), 3), verdict="unsat (holds)"))
    for r in inconclusive[:5]:
        samples.append(dict(config=repr(cfgs[r["i"]]), verdict="inconclusive: " + r["status"], detail=r["detail"][:300]))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(r["paths"] for r in done), transitions=sum(r["ops"] for r in done),
                            traces_validated_against_impl=validated,
                            samples=samples or [dict(note="no configuration completed")],
                            rule="states = completed symbolic execution paths of the real code; transitions = symbolic arithmetic operations executed on them; traces_validated = configurations whose symbolic terms, evaluated at concrete inputs, matched a concrete run of the unpatched code",
                            configurations=len(cfgs), configurations_by_verdict=by, not_explored_deadline=skipped,
                            obligations=sum(r["obligations"] for r in done), discharged_syntactically=sum(r["syntactic"] for r in done),
                            existential_obligations=sum(r["exist"] for r in done),
                            solver=dict(name="z3 " + __import__("symx.core").core.z3.get_version_string() + " QF_NRA",
                                        queries=stats.get("queries", 0), unsat=stats.get("res_unsat", 0), sat=stats.get("res_sat", 0),
                                        unknown=stats.get("res_unknown", 0), seconds=round(stats.get("solver_s", 0), 2)),
                            branches=stats.get("branches", 0), nondeterministic_choices=stats.get("choices", 0),
                            functions_encoded=funcs, bounds=mod.BOUNDS, outside_bounds=getattr(mod, "OUTSIDE", ""),
                            stubs=getattr(mod, "STUBS", []), replays_run=replays, translator_mismatches=mismatch[:5],
                            inconclusive=len(inconclusive), known_findings=sorted(known_hit)),
              assumptions=["float arithmetic is treated as real arithmetic",
                           "numpy/pandas/networkx index, shape and label logic runs for real on the enumerated structures"] + list(getattr(mod, "ASSUME", [])),
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    EV = os.environ.get("SYMX_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, f"{pid}.json"), "w"), indent=1)

    print(f"{pid} {tier}: configs={len(cfgs)} {by} paths={ev['coverage']['states']} obligations={ev['coverage']['obligations']} "
          f"queries={stats.get('queries', 0)} solver={stats.get('solver_s', 0):.1f}s validated={validated} mismatches={len(mismatch)} wall={ev['wall_s']}s")
    for r in inconclusive[:8]:
        print(f"INCONCLUSIVE {r['status']} {r['detail'][:300]} cfg={cfgs[r['i']]!r}")
    for m in mismatch[:3]:
        print("TRANSLATOR-MISMATCH", m)
    for r in vac:
        print("VACUOUS", cfgs[r["i"]])
    if reported:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for n, (r, j, o) in enumerate(reported[:5]):
            path = os.path.join(ROOT, "replays", f"{pid}_{n}.json")
            json.dump(dict(property=pid, job=j, solver_detail=r["detail"], replay_result=dict(status=o["status"], detail=o["detail"], inputs=o["inputs"]),
                           how="cd /verif && bash bin/replay " + path), open(path, "w"), indent=1)
            print(f"  {r['status']}: {r['detail'][:200]} | replay: {o['detail'][:300]} | {j['h']} {j['cfg'][:300]}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if vac and len(vac) == len(done):
        sys.exit(2)
    sys.exit(0)


def _init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


if __name__ == "__main__":
    main()
