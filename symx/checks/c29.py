"""C29: parallel learning gives what its learners give alone, whatever the interleaving."""
from ..lib import *
from ..models import *
from ..agg import *
from .c30 import MODELS, learners, check_aggregate

BOUNDS = "two threads (three in the thorough tier) learning one model each with either learner, over causal models of up to 2 endogenous and 2 exogenous variables with arbitrary random starts and any optimum; every order of the tasks and up to one preemption (two in some, thorough) before any line of the aggregator and any call within the learning code"
OUTSIDE = "preemptions inside numpy, pandas and the inference code (they share nothing but the input data and model), more threads and preemptions, joblib itself, process-based back ends"
STUBS = ["joblib.Parallel / ThreadPoolExecutor: real threads, one running at a time, switched at chosen points", "np.random.uniform: an arbitrary number per draw", "scipy.optimize.minimize: an arbitrary distribution per starting point"]
PATHS = 2500
SECS = {"quick": 240}
TWO = dict(name="two", dom=doms("X:b U:b V:b"), edges=arcs("U>X V>X"), exo=["U", "V"], eqs={"X": [0, 0, 1, 1]})


def configs(tier):
    out, deep = [], tier == "thorough"
    for i, (m, cols, rows) in enumerate(MODELS):
        base = dict(h="h_parallel", cols=cols, exact=True, **m)
        for kind in ("em", "gd"):
            few = rows[:1] if kind == "em" and not deep else rows
            for n, limit, lines in [(2, 1, False), (2, 0, False), (3, 0, False)] + ([(2, 1, True), (3, 1, False)] + ([(2, 2, False)] if i == 0 else []) if deep else []):
                out.append(dict(kind=kind, n=n, limit=limit, lines=lines, rows=few if limit else rows, iters=1, **base))
        if deep or i == 0:
            out.append(dict(kind="em", n=2, limit=1, lines=False, rows=rows[:1], iters=2, **base))
    # one of the learners may start at the optimum and stop earlier than the others
    for kind, n, limit, iters in (("em", 2, 0, 2),) + ((("em", 2, 1, 2), ("em", 3, 0, 2)) if deep else ()):
        out.append(dict(h="h_parallel", kind=kind, n=n, limit=limit, lines=False, rows=[[0], [1]], cols=["X"], iters=iters, exact=True, **TWO))
    return out


def h_parallel(ctx, cfg):
    Starts(ctx)
    Optimum(ctx)
    m, net = make_scm(ctx, cfg)
    data, agg, alone = learners(ctx, cfg, m, net, parallel=True)
    sch = Threads(ctx, cfg["limit"], cfg["lines"])
    sch.install()
    try:
        agg.run(cfg["n"])
        n = cfg["n"]
        if cfg.get("again"):
            sch.limit = 0
            agg.run(1)
            n += 1
    finally:
        sch.uninstall()
    check_aggregate(ctx, cfg, net, agg, alone, n)
