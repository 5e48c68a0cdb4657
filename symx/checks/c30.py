"""C30: learning by several runs: one model per run from its own random start, and answers over exactly those models."""
from ..lib import *
from ..models import *
from ..models import _rng
from ..agg import *
from .c24 import Snap

BOUNDS = "causal models of up to 3 endogenous and 2 exogenous variables with fixed and solver-chosen equations, data sets of up to 3 distinct records, one to three runs from arbitrary random starts with one or two iterations (expectation maximisation) or any optimum (gradient), all or some of the exogenous variables trained; aggregators run again and reset; every query on the aggregated models, in one go and in increments; causal models of up to 4 endogenous and 2 exogenous variables with unusual names"
OUTSIDE = "more runs and iterations, quality of the optimum (C28), parallel runs (C29), float rounding"
STUBS = ["np.random.uniform: an arbitrary number per draw", "scipy.optimize.minimize: an arbitrary distribution per starting point"]
ASSUME = ["the single learner (decided by C15, C16, C26) and the envelope over given models (C17) serve as reference"]

MARK = dict(name="mark", dom=doms("X:b Y:n U:b V:3"), edges=arcs("X>Y U>X V>Y"), exo=["U", "V"], eqs={"X": [0, 1], "Y": ["y0", "y0", "y1", "y0", "y1", "y1"]})
CONF = dict(name="conf", dom=doms("X:b Y:n U:4"), edges=arcs("X>Y U>X U>Y"), exo=["U"], eqs={"X": [0, 0, 1, 1], "Y": ["y0", "y1", "y0", "y1", "y1", "y0", "y1", "y0"]})
ONE = dict(name="one", dom=doms("X:b U:3"), edges=arcs("U>X"), exo=["U"], eqs={"X": [0, 1, 1]})
IV = dict(name="iv", dom=doms("Z:b X:n Y:b U:3 W:r"), edges=arcs("Z>X X>Y U>X U>Y W>Z"), exo=["U", "W"],
          eqs={"Z": [0, 1], "X": ["x0", "x1", "x0", "x1", "x0", "x1"], "Y": [0, 1, 1, 1, 0, 0]})
MODELS = [(ONE, ["X"], [[0], [1]]), (MARK, ["X", "Y"], [[0, "y0"], [1, "y1"], [0, "y1"]]), (CONF, ["Y", "X"], [["y0", 0], ["y1", 0], ["y0", 1]])]
ALL = MODELS + [(IV, ["Z", "X", "Y"], [[0, "x0", 0], [1, "x1", 1]])]


def configs(tier):
    out, deep = [], tier == "thorough"
    for m, cols, rows in ALL:
        for kind in ("em", "gd"):
            for n in (1, 2, 3):
                for tr in [None] + [[u] for u in m["exo"]]:
                    out.append(dict(h="h_runs", kind=kind, n=n, iters=1, tr=tr, cols=cols, rows=rows, **m))
            out.append(dict(h="h_runs", kind=kind, n=1 if m is MARK and not deep else 2, iters=2 if kind == "em" else None, tr=None, cols=cols[::-1], rows=[r[::-1] for r in rows[:1 if m is MARK else 2]], **m))
            out.append(dict(h="h_runs", kind=kind, n=1, iters=1, tr=None, more=2, cols=cols, rows=rows, **m))
            out.append(dict(h="h_runs", kind=kind, n=2, iters=3 if kind == "gd" else 1, tr=None, more=1, reset=True, cols=cols, rows=rows, **m))
            if "Y" in dict(m["dom"]):
                for n in (1, 2) + ((3,) if deep else ()):
                    for q in ("causal", "cf", "pns", "pn"):
                        for iv in (True, False):
                            if deep or n < 2 or iv or m is not IV:
                                out.append(dict(h="h_query", kind=kind, n=n, iters=1, q=q, iv=iv, cols=cols, rows=rows[:2], **m))
        if "Y" in dict(m["dom"]):
            for n, step in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2)):
                if deep or n * step < 4 or m is MARK:
                    out.append(dict(h="h_steps", kind="em", n=n, step=step, iters=1, cols=cols, rows=rows[:1], **m))
    for seed in range(10 if deep else 4):
        m = wide_scm(seed + 180, 2 + seed % 3, 1 + seed % 2, free=0)
        r = _rng(seed)
        cols = [v for v, _s in m["dom"] if v not in m["exo"]]
        rows = [[a[v] for v in cols] for a in (simulate(r, m) for _ in range(2))]
        for kind in ("em", "gd"):
            out.append(dict(h="h_runs", kind=kind, n=1 + seed % 2, iters=1, tr=None, cols=cols[::-1], rows=[x[::-1] for x in rows], **m))
            out.append(dict(h="h_runs", kind=kind, n=1, iters=1, tr=m["exo"][-1:], cols=cols, rows=rows, more=1, **m))
    out.append(dict(h="h_wrong", **ONE))
    return out


def learners(ctx, cfg, m, net, parallel=False):
    """(data, aggregator, function giving what one learner alone makes of a starting model)."""
    import pandas as pd
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    rows, cols = [list(r) for r in cfg["rows"]], list(cfg["cols"])
    data = pd.DataFrame(rows, columns=cols)
    tr = cfg.get("tr")
    kw = dict(parallel=True) if parallel else {}
    if tr is not None:
        kw["trainable_vars"] = list(tr)
    tv = list(tr or cfg["exo"])
    if cfg["kind"] == "em":
        agg = SimpleModelAggregatorEM(m, data, max_iter=cfg["iters"], **kw)

        def alone(start):
            l = ExpectationMaximization(start, trainable_vars=tv)
            l.run(data, max_iter=cfg["iters"])
            return l
    else:
        it = float("inf") if cfg["iters"] is None else cfg["iters"]
        agg = SimpleModelAggregatorGD(m, data, tol=0.25, max_iter=it, **kw)

        def alone(start):
            l = GradientLikelihood(start, trainable_vars=tv, tol=0.25)
            l.run(data, max_iter=it)
            return l
    return data, agg, alone


def check_aggregate(ctx, cfg, net, agg, alone, n, first=0):
    dom = net.dom
    tr = list(cfg.get("tr") or cfg["exo"])
    ctx.same(len(agg.models), n, "number of models")
    ctx.same(len(agg.learn_objects), n, "number of learners")
    starts = []
    for i in range(n):
        l, m = agg.learn_objects[i], agg.models[i]
        model_values(ctx, l.model, m, dom, f"learner {i} is that of model {i}:")
        start = l.prior_model
        starts.append([start.factors[v].get_value(**{v: s}) for v in tr for s in dom[v]])
        # the start: random tables for the trained variables, the given model elsewhere
        for v in dom:
            f = start.factors[v]
            if v in tr:
                ps = [f.get_value(**{v: s}) for s in dom[v]]
                ctx.eq(total(ps), 1.0, f"start of run {i}: {v} adds up to one")
                for p in ps:
                    ctx.gt(p, 0.0, f"start of run {i}: {v}")
            else:
                for a in space(OrderedDict((x, dom[x]) for x in f.domain)):
                    ctx.eq(f.get_value(**a), net.refs[v](a), f"start of run {i}: given {v} at {a}")
        ref = alone(start)
        model_values(ctx, m, ref.model, dom, f"model {i} is what its learner gives alone:")
        ctx.same(len(l.model_evolution), len(ref.model_evolution), f"steps of run {i}")
        for k, (x, y) in enumerate(zip(l.model_evolution, ref.model_evolution)):
            model_values(ctx, x, y, dom, f"step {k} of run {i}:")
    for i in range(n):
        for j in range(i):
            ctx.any_differs(list(zip(starts[i], starts[j])), f"starts of runs {j} and {i}")
    ctx.check(len({id(m) for m in agg.models}) == n, "separate models")


def h_runs(ctx, cfg):
    Starts(ctx)
    opt = Optimum(ctx)
    m, net = make_scm(ctx, cfg)
    sm = Snap(ctx, m)
    data, agg, alone = learners(ctx, cfg, m, net)
    sd = Snap(ctx, data)
    agg.run(cfg["n"])
    if cfg["kind"] == "gd":
        check_opt(ctx, cfg, opt)
    check_aggregate(ctx, cfg, net, agg, alone, cfg["n"])
    if cfg.get("more"):
        old = list(agg.models)
        n = cfg["n"]
        if cfg.get("reset"):
            agg.reset()
            old, n = [], 0
        agg.run(cfg["more"])
        ctx.check(all(x is y for x, y in zip(old, agg.models)), "earlier models stay")
        check_aggregate(ctx, cfg, net, agg, alone, n + cfg["more"])
    sm.same(m, "given model")
    sd.same(data, "given data")


def check_opt(ctx, cfg, opt):
    """Tolerance and iteration limit reach the optimiser."""
    for c in opt.calls:
        ctx.same(c["tol"], 0.25, "tolerance")
        ctx.same(c["options"].get("maxiter"), cfg["iters"], "iteration limit")


def answers(e, cfg, dom, q):
    x0, x1 = dom["X"][:2]
    tf = dict(true_false_cause=(x1, x0), true_false_effect=(dom["Y"][1], dom["Y"][0]))
    if q == "causal":
        return e.causal_query("Y", do={"X": x1})
    if q == "cf":
        return e.counterfactual_query(["Y", "Y"], do=[{"X": x0}, {"X": x1}], targets_subgraphs=[1, 2])
    if q == "pns":
        return e.prob_necessity_sufficiency("X", "Y", **tf)
    return e.counterfactual_query("Y", do={"X": x0}, evidence={"X": x1})


def engine(cfg, m, data, **kw):
    from bcause.inference.causal.multi import EMCC, GDCC
    if cfg["kind"] == "em":
        return EMCC(m, data, num_runs=cfg["n"], max_iter=cfg["iters"], **kw)
    return GDCC(m, data, num_runs=cfg["n"], tol=0.25, max_iter=cfg["iters"], **kw)


def h_query(ctx, cfg):
    from bcause.inference.causal.multi import CausalMultiInference
    Starts(ctx)
    opt = Optimum(ctx)
    m, net = make_scm(ctx, cfg)
    dom = net.dom
    data, _agg, alone = learners(ctx, cfg, m, net)
    sm, sd = Snap(ctx, m), Snap(ctx, data)
    e = engine(cfg, m, data, interval_result=cfg["iv"])
    r = answers(e, cfg, dom, cfg["q"])
    models = list(e.models)
    ctx.same(len(models), cfg["n"], "number of models")
    if cfg["kind"] == "gd":
        check_opt(ctx, cfg, opt)
        for i, x in enumerate(models):
            ev = e.get_model_evolution(i)
            model_values(ctx, ev[-1], x, dom, f"history of model {i}:")
    for i, x in enumerate(models):
        for v in dom:
            if v not in cfg["exo"]:
                for a in space(OrderedDict((y, dom[y]) for y in x.factors[v].domain)):
                    ctx.eq(x.factors[v].get_value(**a), net.refs[v](a), f"equation of {v} in model {i}")
    for i in range(len(models) if cfg["kind"] == "gd" or cfg["name"] == "mark" else 0):
        for j in range(i):
            ctx.any_differs([(models[i].factors[u].get_value(**{u: s}), models[j].factors[u].get_value(**{u: s})) for u in cfg["exo"] for s in dom[u]], f"models {j} and {i}")
    ref = CausalMultiInference(models, interval_result=cfg["iv"])
    Snap(ctx, answers(ref, cfg, dom, cfg["q"])).same(r, "answer over the learnt models")
    for q in ("pns", "causal"):
        Snap(ctx, answers(ref, cfg, dom, q)).same(answers(e, cfg, dom, q), f"later {q} answer")
    ctx.check(len(e.models) == len(models) and all(x is y for x, y in zip(models, e.models)), "models stay between queries")
    sm.same(m, "given model")
    sd.same(data, "given data")


def h_steps(ctx, cfg):
    from bcause.inference.causal.multi import CausalMultiInference
    Starts(ctx)
    m, net = make_scm(ctx, cfg)
    dom = net.dom
    data, _agg, alone = learners(ctx, cfg, m, net)
    e = engine(cfg, m, data)
    seen, k = [], 0
    for inf in e.compile_incremental(step_runs=cfg["step"]):
        k += 1
        ctx.check(k <= cfg["n"], "ends")
        ctx.same(len(inf.models), k * cfg["step"], "number of models")
        ctx.check(all(x is y for x, y in zip(seen, inf.models)), "earlier models stay")
        seen = list(inf.models)
        for q in ("causal", "pns"):
            Snap(ctx, answers(CausalMultiInference(seen), cfg, dom, q)).same(answers(inf, cfg, dom, q), f"{q} after {k} increments")
        ctx.check(len(inf.models) == len(seen), "models stay between queries")
    ctx.check(len(seen) >= cfg["n"] and len(seen) - cfg["n"] < cfg["step"], "number of runs in the end")


def h_wrong(ctx, cfg):
    Starts(ctx)
    m, net = make_scm(ctx, cfg)
    import pandas as pd
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
    from bcause.inference.causal.multi import CausalMultiInference
    a = SimpleModelAggregatorEM(m, pd.DataFrame([[0]], columns=["X"]), max_iter=1)
    ctx.raises(lambda: a.run(0), "no runs")
    ctx.raises(lambda: CausalMultiInference([]).causal_query("X", do={}), "no models")
    m2 = CausalMultiInference([m]).causal_query("X", do={})
    for s in net.dom["X"]:
        ctx.eq(m2.get_value(_bound="low", X=s), net.mass({"X": s}), "lower")
        ctx.eq(m2.get_value(_bound="up", X=s), net.mass({"X": s}), "upper")
