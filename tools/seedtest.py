#!/usr/bin/env python3
"""Try planted bugs on a scratch copy: patch applies, stable tests pass, demo 0/non-zero, which checks alarm.

usage: seedtest.py <seed id> [--no-tests] [--checks C01,C02|all]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.environ.get("V", "/verif")
ENV = dict(os.environ, PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
sid = sys.argv[1]
d = f"{V}/seeded/{sid}"
meta = json.load(open(d + "/meta.json"))
tmp = tempfile.mkdtemp(prefix="seed_")
scratch = tmp + "/repo"
try:
    shutil.copytree("/repo", scratch, symlinks=True)
    subprocess.run("find . -name __pycache__ -prune -exec rm -rf {} +", shell=True, cwd=scratch)
    env = dict(ENV, PYTHONPATH=scratch)
    lay = tmp + "/demo"
    shutil.copytree(d, lay)
    run = lambda: subprocess.run(["bash", lay + "/demo.sh"], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    r0 = run()
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=scratch, check=True)
    r1 = run()
    out = [f"demo clean={r0.returncode} patched={r1.returncode}"]
    if r0.returncode or not r1.returncode:
        out.append("!! DEMO: " + (r0 if r0.returncode else r1).stdout.decode()[-500:])
    if "--no-tests" not in sys.argv:
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "-W", "ignore", "-o", "junit_family=xunit2", f"--junitxml={tmp}/j.xml"], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.run(["python3", "/opt/vp/results.py", tmp + "/r.json", f"junit:{tmp}/j.xml"])
        passed = set(json.load(open(tmp + "/r.json"))["passed"])
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)
        out.append("tests ok" if not miss else f"!! TESTS FAIL {miss[:5]}")
    checks = [meta["property"]]
    if "--checks" in sys.argv:
        a = sys.argv[sys.argv.index("--checks") + 1]
        checks = sorted(f[:-3].upper() for f in os.listdir(V + "/symx/checks") if f.startswith("c") and f.endswith(".py")) if a == "all" else a.split(",")
    hits = []
    for c in checks:
        p = subprocess.run(["bash", V + "/bin/check", c, "quick"], env=dict(os.environ, SYMX_REPO=scratch, SYMX_EVIDENCE=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode()
        if p.returncode == 1 and "VIOLATION" in o:
            hits.append(c)
            if c == meta["property"]:
                out.append([l for l in o.splitlines() if "replay:" in l][0][:260])
        elif p.returncode or "INCONCLUSIVE" in o:
            out.append(f"{c}: rc={p.returncode} " + " / ".join(l[:160] for l in o.splitlines() if "INCONCL" in l or p.returncode)[:400])
    out.append(("CAUGHT" if meta["property"] in hits else "!! MISSED") + f" by {hits}")
    print(sid, meta["property"], *out, sep="\n   ")
finally:
    shutil.rmtree(tmp)
