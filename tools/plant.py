#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a list of specs (see tools/seeds.py)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.environ.get("V", "/verif")
HEAD = '#!/bin/bash\n# exit 0 when the property holds, non-zero when it is broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def plant(sid, prop, needs, breaks, edits, demo):
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {tmp}", shell=True, check=True)
        subprocess.run("git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm base", shell=True, cwd=tmp, check=True)
        for f, a, b in edits:
            p = os.path.join(tmp, f)
            s = open(p).read()
            assert s.count(a) == 1, (sid, f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "diff"], cwd=tmp, stdout=subprocess.PIPE, check=True).stdout
    finally:
        shutil.rmtree(tmp)
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(HEAD)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    sys.path.insert(0, V + "/tools")
    import seeds
    for s in seeds.SEEDS:
        if len(sys.argv) < 2 or s["sid"] in sys.argv[1:]:
            plant(**s)
            print("planted", s["sid"])
