"""Concrete runs of harnesses on the unpatched /repo code (floats, no symbolic shims).

Input: JSON file with a list of jobs {check, h, cfg (repr), values, seed, choices, exist}.
Output: JSON file with per-job status ok/fail/exc/skip, detail, records.
Also usable by hand: python -m symx.replay <replay file>
"""
import ast
import importlib
import json
import os
import sys
import traceback
import warnings

REPO = os.environ.get("SYMX_REPO", "/repo")


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from . import shims
    shims.install_stubs()
    shims.import_bcause()


def run_job(job):
    from .ctx import ConcreteCtx, Fail, Skip
    from .shims import Stub
    Stub.handlers.clear()
    mod = importlib.import_module(f"symx.checks.{job['check'].lower()}")
    fn = getattr(mod, job["h"])
    cfg = ast.literal_eval(job["cfg"])
    ctx = ConcreteCtx(job.get("values"), job.get("seed", 0), job.get("choices"))
    if job.get("tight"):
        ctx.rtol, ctx.atol = 1e-10, 1e-12
    out = dict(status="ok", detail="")
    devnull = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = devnull
    try:
        fn(ctx, cfg)
    except Fail as e:
        out.update(status="fail", detail=str(e))
    except Skip as e:
        out.update(status="skip", detail=str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if REPO + "/" in f.filename] or tb
        out.update(status="exc", detail=f"{type(e).__name__}: {e} @ {fr[-1].filename}:{fr[-1].lineno}")
    finally:
        sys.stdout = old
        devnull.close()
    out["records"] = ctx.records
    out["inputs"] = ctx.inputs
    return out


def main():
    src = sys.argv[1]
    setup()
    data = json.load(open(src))
    jobs = data if isinstance(data, list) else [data["job"]]
    if len(sys.argv) > 2:
        with open(sys.argv[2], "w") as f:
            for j in jobs:
                f.write(json.dumps(run_job(j)) + "\n")
                f.flush()
    else:
        outs = [run_job(j) for j in jobs]
        bad = False
        for j, o in zip(jobs, outs):
            print(j["check"], j["h"], j["cfg"])
            print("inputs:", json.dumps(o["inputs"]))
            print("result:", o["status"], o["detail"])
            bad = bad or o["status"] in ("fail", "exc")
        sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
