"""C16: the gradient learner optimises the model's own likelihood."""
from ..lib import *
from ..models import *
from ..models import _rng, _shuffle

BOUNDS = "causal models of up to 3 endogenous and 3 exogenous variables of 2-4 states (states listed in any order, names contained in one another), with one or several exogenous parents per variable; structural equations solver-chosen in the smallest models and fixed in the others; data sets of up to 12 records over up to 6 distinct ones, any column order and extra columns; objective at any two distributions, impossible records for every pattern of zero probabilities; feasible set at any point of R^k; any starting distribution and any optimum returned; all and single trainable variables, with and without iteration limit; one learner run twice; larger models of up to 5 endogenous and 3 exogenous variables with unusual names and labels, fixed equations and three generated records; row labels of the data repeated and out of order"
OUTSIDE = "what the optimiser does with the problem (C28), records of probability zero under every distribution, float rounding"
STUBS = ["scipy.optimize.minimize: a stand-in that checks the problem it is given and returns an arbitrary distribution"]
ASSUME = ["record multiplicities are concrete (logarithms are compared as products of powers)"]
TIMEOUT_MS = 15000


def E(name, spec, edges, exo, eqs=None, **kw):
    d = dict(name=name, dom=doms(spec), edges=arcs(edges), exo=exo.split(), exact=True, **kw)
    if eqs:
        d["eqs"] = eqs
    return d


MODELS = [
    (E("one", "X:b U:3", "U>X", "U"), ["X"], [[0], [1], [1]]),
    (E("one3", "X:3 U:b", "U>X", "U"), ["X"], [[0], [2]]),
    (E("markov", "X:b Y:s U:b V:3", "X>Y U>X V>Y", "U V", {"X": [1, 0], "Y": ["y1", "y2", "y2", "y2", "y1", "y2"]}), ["X", "Y"],
     [[0, "y1"], [1, "y2"], [0, "y2"], [1, "y2"]]),
    (E("conf", "X:b Y:s U:4", "X>Y U>X U>Y", "U", {"X": [0, 0, 1, 1], "Y": ["y1", "y2", "y1", "y2", "y2", "y1", "y2", "y1"]}), ["Y", "X"],
     [["y1", 0], ["y2", 0], ["y2", 1], ["y1", 1], ["y1", 0]]),
    (E("conf2", "X:b Y:s U:b", "X>Y U>X U>Y", "U"), ["X", "Y"], [[0, "y1"], [1, "y2"]]),
    (E("iv", "Z:b X:s Y:b U:3 W:r", "Z>X X>Y U>X U>Y W>Z", "U W", {"Z": [0, 1], "X": ["x1", "x2", "x1", "x1", "x2", "x2"], "Y": [0, 1, 1, 1, 0, 0]}),
     ["Z", "X", "Y"], [[0, "x1", 0], [0, "x2", 1], [1, "x2", 0], [1, "x1", 1], [1, "x2", 0], [0, "x1", 0]]),
    (E("front", "X:b M:s Y:b U:4 V:b", "X>M M>Y U>X U>Y V>M", "U V", {"X": [0, 1, 0, 1], "M": ["m1", "m2", "m2", "m1"], "Y": [0, 1, 1, 0, 1, 1, 0, 0]}, layout="last"),
     ["M", "Y", "X"], [["m1", 0, 0], ["m1", 1, 1], ["m2", 1, 0], ["m2", 0, 1], ["m2", 1, 1]]),
    (E("names", "AB:t A:r UA:3 U:b", "A>AB UA>A U>AB", "UA U", {"A": [1, 0, 1], "AB": [True, False, False, True]}), ["A", "AB"],
     [[1, True], [0, False], [0, True], [1, True]]),
    (E("fork", "Z:3 X:s Y:b U:3 V:4 W:b", "Z>X Z>Y U>Z V>X W>Y", "U V W",
       {"Z": [2, 0, 1], "X": ["x1", "x2"] * 6, "Y": [0, 1, 1, 0, 1, 0]}), ["Z", "X", "Y"], [[2, "x1", 0], [0, "x2", 1], [1, "x1", 1], [2, "x2", 1]]),
    (E("shared3", "X:b Y:b Z:b U:4", "U>X U>Y U>Z X>Z Y>Z", "U",
       {"X": [0, 1, 0, 1], "Y": [0, 0, 1, 1], "Z": [0, 1, 0, 1, 1, 1, 0, 0, 0, 1, 1, 0, 1, 0, 1, 0]}), ["Z", "Y", "X"], [[0, 0, 0], [1, 0, 1], [1, 1, 0]]),
    (E("free", "X:b Y:s U:3", "U>X X>Y", "U", {"X": [1, 0, 0], "Y": ["y2", "y1"]}), ["X", "Y"], [[0, "y2"], [1, "y1"], [0, "y2"]]),
    # many endogenous parents
    (E("parents4", "A:b B:b C:b D:b X:b U:b V:4", "A>X B>X C>X D>X U>X V>A A>B B>C C>D", "U V",
       {"A": [0, 1, 1, 0], "B": [1, 0], "C": [0, 1], "D": [1, 0], "X": [0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 0, 1] * 2}), ["A", "B", "C", "D", "X"],
     [[0, 1, 1, 0, 0], [1, 0, 0, 1, 1], [0, 1, 1, 0, 1]]),
    # several exogenous parents
    (E("twoexo", "X:b Y:b U:3 W:3", "U>X X>Y W>Y U>Y", "U W", {"X": [0, 0, 1], "Y": [0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 0, 0, 0, 0, 1, 1, 1]}), ["X", "Y"],
     [[0, 0], [1, 1], [0, 1]]),
    (E("own", "X:b Y:s U:b V:b", "X>Y U>X U>Y V>Y", "U V", {"X": [0, 1], "Y": ["y1", "y2", "y2", "y2", "y1", "y1", "y2", "y1"]}), ["Y", "X"],
     [["y1", 0], ["y2", 1], ["y1", 1]]),
    (E("linked", "X:b Y:r Z:b U:b W:s", "U>X U>Y W>Y W>Z X>Z", "U W", {"X": [1, 0], "Y": [0, 1, 1, 0], "Z": [0, 1, 1, 0]}), ["X", "Y", "Z"],
     [[0, 0, 1], [1, 1, 1], [1, 0, 0]]),
]


def possible(m, cols, first):
    """Records the model can generate: those listed first, then the others."""
    if not m.get("eqs"):
        return first
    dom, out = D(m["dom"]), []
    for e in space(OrderedDict((u, dom[u]) for u in m["exo"])):
        a, todo = dict(e), [v for v in dom if v not in m["exo"]]
        while todo:
            for v in list(todo):
                pa = [x for x in layout(m, v, edges_parents(m["edges"], v)) if x != v]
                if all(x in a for x in pa):
                    i = 0
                    for x in pa:
                        i = i * len(dom[x]) + dom[x].index(a[x])
                    a[v] = m["eqs"][v][i]
                    todo.remove(v)
        r = [a[v] for v in cols]
        if r not in out:
            out.append(r)
    keep = [r for r in first if r in out]
    return (keep + [r for r in out if r not in keep])[:6]


def configs(tier):
    out, deep = [], tier == "thorough"
    for i, (m, cols, rows) in enumerate(MODELS):
        rows = possible(m, cols, rows)
        d = dict(m["dom"])
        for tr in [None] + ([[u] for u in m["exo"]] if len(m["exo"]) > 1 else []) + [m["exo"][::-1]]:
            out.append(dict(h="h_fit", cols=cols, rows=rows, tr=tr, **m))
            out.append(dict(h="h_fit", cols=cols[::-1], rows=[r[::-1] for r in rows[:1] + rows + rows[-1:]], tr=tr, limit=3, index=True, **m))
        out.append(dict(h="h_fit", cols=cols, rows=rows[:1], tr=None, **m))
        if deep:
            for k in range(2, len(rows)):
                out.append(dict(h="h_fit", cols=cols, rows=rows[-k:], tr=None, **m))
                out.append(dict(h="h_fit", cols=cols, rows=rows[:k] * 2, tr=None, form="tab", **m))
        for u in m["exo"]:
            for z in subsets(range(len(d[u])), 1, len(d[u]) - 1):
                out.append(dict(h="h_inf", cols=cols, rows=rows, u=u, zero=z, **m))
        out.append(dict(h="h_again", cols=cols, rows=rows[:2], rows2=rows[-2:], **m))
    # larger models with unusual names and labels; records the model can generate
    for seed, (ne, nx) in enumerate([(2, 1), (3, 2), (2, 2), (3, 1), (4, 2), (3, 3), (4, 3), (5, 3)] * (4 if deep else 1)):
        m = wide_scm(seed + 40, ne, nx, free=0)
        m.update(exact=True, index=seed % 2 == 0)
        r = _rng(seed)
        cols = _shuffle(r, [v for v, _s in m["dom"] if v not in m["exo"]])
        rows = [[a[v] for v in cols] for a in (simulate(r, m) for _ in range(3))]
        for tr in [None] + [[u] for u in m["exo"]]:
            out.append(dict(h="h_fit", cols=cols, rows=rows, tr=tr, **m))
        for u in m["exo"]:
            k = len(dict(m["dom"])[u])
            for z in range(k):
                out.append(dict(h="h_inf", cols=cols, rows=rows, u=u, zero=[z], **m))
    return out


class Opt:
    """Stand-in for scipy.optimize.minimize."""

    def __init__(self, ctx):
        self.ctx, self.problems = ctx, []

    def __call__(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        from scipy.optimize import OptimizeResult
        import numpy as np
        n = len(x0)
        args = args if isinstance(args, tuple) else (args,)
        k = len(self.problems)
        ps = self.ctx.dist(f"opt{k}", n)
        x = np.array(ps, dtype=object if self.ctx.symbolic else float)
        self.problems.append(dict(f=lambda t: fun(t, *args), x0=list(x0), n=n, bounds=bounds, cons=constraints, x=ps, options=dict(options or {})))
        return OptimizeResult(x=x, success=True, message="", fun=0.0, nit=1, status=0)


def install(ctx):
    from ..shims import Stub
    o = Opt(ctx)
    Stub.handlers["scipy.optimize.minimize"] = o
    return o


def arr(ctx, xs):
    import numpy as np
    return np.array(xs, dtype=object if ctx.symbolic else float)


def _both(ctx, a, b):
    return a & b if ctx.symbolic and not isinstance(a, bool) and not isinstance(b, bool) else (bool(a) and bool(b))


def feasible(ctx, p, t):
    """List of truth values whose conjunction says that the point is feasible for the given problem."""
    out = []
    b = p["bounds"]
    if b is None:
        b = [(None, None)] * p["n"]
    elif hasattr(b, "lb"):
        import numpy as np
        b = list(zip(np.broadcast_to(b.lb, p["n"]), np.broadcast_to(b.ub, p["n"])))
    for x, (lo, hi) in zip(t, b):
        if lo is not None and lo != float("-inf"):
            out.append(x >= lo)
        if hi is not None and hi != float("inf"):
            out.append(x <= hi)
    cons = p["cons"]
    for c in ([cons] if isinstance(cons, dict) or not hasattr(cons, "__iter__") else list(cons)):
        if isinstance(c, dict):
            a = c.get("args", ())
            vals = c["fun"](arr(ctx, t), *a)
            vals = list(vals) if hasattr(vals, "__len__") and getattr(vals, "ndim", 1) else [vals]
            for v in vals:
                out.append(v == 0 if c["type"] == "eq" else v >= 0)
        elif hasattr(c, "A"):
            import numpy as np
            A = np.atleast_2d(c.A)
            for row, lo, hi in zip(A, np.broadcast_to(c.lb, len(A)), np.broadcast_to(c.ub, len(A))):
                v = total([float(w) * x for w, x in zip(row, t)])
                out += [v >= float(lo)] * (lo != float("-inf")) + [v <= float(hi)] * (hi != float("inf"))
        else:
            v = c.fun(arr(ctx, t))
            out += [v >= float(c.lb), v <= float(c.ub)]
    return out


def likelihood(net, u, theta, recs, endo):
    """Probability of the records when u has distribution theta (all else as in the model)."""
    d = OrderedDict([(u, net.dom[u])])
    r = Ref.__new__(Ref)
    r.dom, r.t = d, {key({u: s}): p for s, p in zip(net.dom[u], theta)}
    n2 = Net(net.dom, {**net.refs, u: r})
    return [n2.mass(sub(o, endo)) for o in recs]


def _setup(ctx, cfg):
    import pandas as pd
    m, net = make_scm(ctx, cfg)
    recs = [dict(zip(cfg["cols"], r)) for r in cfg["rows"]]
    data = pd.DataFrame([list(r) for r in cfg["rows"]], columns=list(cfg["cols"]))
    if cfg.get("index"):
        data.index = [1 - i % 2 for i in range(len(data))]       # repeated, unordered row labels
    return m, net, recs, data


def allowed(ctx, net, recs):
    for o in recs:
        ctx.assume(net.mass(o) != 0)


def _problem(ctx, net, p, u, recs, endo, msg):
    k = len(net.dom[u])
    ctx.same(p["n"], k, msg + " number of parameters")
    for s, x in zip(net.dom[u], p["x0"]):
        ctx.eq(x, net.refs[u]({u: s}), f"{msg} starts at the current probability of {s}")
    # objective: differences of log-likelihoods at two arbitrary distributions
    a, b = ctx.dist(f"{msg}.a", k), ctx.dist(f"{msg}.b", k)
    la, lb = prod(likelihood(net, u, a, recs, endo)), prod(likelihood(net, u, b, recs, endo))
    fa, fb = p["f"](arr(ctx, a)), p["f"](arr(ctx, b))
    ctx.eq(fb - fa, ctx.log(la / lb), f"{msg} objective difference")
    # feasible set
    t = [ctx.real(f"{msg}.t{i}") for i in range(k)]
    inside = feasible(ctx, p, t)
    want = [x >= 0 for x in t] + [total(t) == 1.0]
    if ctx.symbolic:
        from ..core import z3, SymBool
        conj = lambda bs: z3.And(*[x.c if isinstance(x, SymBool) else z3.BoolVal(bool(x)) for x in bs])
        ctx.check(SymBool(conj(inside) == conj(want)), f"{msg} feasible set")
    else:
        # floats: only points on the simplex up to rounding, or clearly off it
        s = sum(t)
        if abs(s - 1) < 1e-9:
            t = t[:-1] + [1 - sum(t[:-1])]
        ctx.check(all(map(bool, feasible(ctx, p, t))) == (all(x >= 0 for x in t) and sum(t) == 1.0), f"{msg} feasible set")


def h_fit(ctx, cfg):
    from bcause.learning.parameter.gradient import GradientLikelihood
    m, net, recs, data = _setup(ctx, cfg)
    allowed(ctx, net, recs)
    endo = [v for v in net.dom if v not in cfg["exo"]]
    opt = install(ctx)
    tr = list(cfg["tr"]) if cfg["tr"] else [u for u in net.dom if u in cfg["exo"]]
    g = GradientLikelihood(m, trainable_vars=None if cfg["tr"] is None else list(cfg["tr"]))
    if cfg.get("limit"):
        g.run(data, max_iter=cfg["limit"])
    else:
        g.run(data)
    ctx.same(len(opt.problems), len(tr), "one optimisation per trainable variable")
    ctx.same(sorted(g.trainable_vars), sorted(tr), "trainable variables")
    for u, p in zip(g.trainable_vars, opt.problems):
        _problem(ctx, net, p, u, recs, endo, f"{u}:")
        if cfg.get("limit"):
            ctx.same(p["options"].get("maxiter"), cfg["limit"], "iteration limit")
        for s, x in zip(net.dom[u], p["x"]):
            ctx.eq(g.model.factors[u].get_value(**{u: s}), x, f"learnt {u}={s}")
        check_scope(ctx, g.model.factors[u], OrderedDict([(u, net.dom[u])]), f"learnt {u}")
    for v in net.dom:
        d = OrderedDict((x, net.dom[x]) for x in [v] + list(m.get_parents(v)))
        if v not in tr:
            check_values(ctx, g.model.factors[v], d, net.refs[v], f"other {v}")
        check_values(ctx, m.factors[v], d, net.refs[v], f"prior {v}")
    ctx.same(sorted(g.model.endogenous), sorted(endo), "endogenous")
    ctx.same(sorted(g.model.graph.edges), sorted(m.graph.edges), "arcs")


def h_inf(ctx, cfg):
    """Distributions that make an observed record impossible have infinite objective; others do not."""
    from bcause.learning.parameter.gradient import GradientLikelihood
    import math
    m, net, recs, data = _setup(ctx, cfg)
    allowed(ctx, net, recs)
    endo = [v for v in net.dom if v not in cfg["exo"]]
    opt = install(ctx)
    g = GradientLikelihood(m, trainable_vars=[cfg["u"]])
    g.run(data)
    p = opt.problems[0]
    th = ctx.dist("th", p["n"], zeros=tuple(cfg["zero"]))
    val = p["f"](arr(ctx, th))
    L = likelihood(net, cfg["u"], th, recs, endo)
    impossible = any(ctx.iszero(x) for x in L)
    try:
        isinf = float(val) == math.inf
    except Exception:
        isinf = False
    ctx.same(bool(isinf), impossible, f"objective infinite with {cfg['zero']} impossible")


def h_again(ctx, cfg):
    """A second run of the same learner is about its own data."""
    import pandas as pd
    from bcause.learning.parameter.gradient import GradientLikelihood
    m, net, recs, data = _setup(ctx, cfg)
    allowed(ctx, net, recs)
    recs2 = [dict(zip(cfg["cols"], r)) for r in cfg["rows2"]]
    allowed(ctx, net, recs2)
    endo = [v for v in net.dom if v not in cfg["exo"]]
    opt = install(ctx)
    g = GradientLikelihood(m)
    g.run(data)
    n = len(opt.problems)
    first = g.model
    g.run(pd.DataFrame([list(r) for r in cfg["rows2"]], columns=list(cfg["cols"])))
    for u, p in zip(g.trainable_vars, opt.problems[n:]):
        _problem(ctx, net, p, u, recs2, endo, f"second {u}:")
        for s, x in zip(net.dom[u], p["x"]):
            ctx.eq(g.model.factors[u].get_value(**{u: s}), x, f"learnt {u}={s}")
    for u, p in zip(g.trainable_vars, opt.problems[:n]):
        for s, x in zip(net.dom[u], p["x"]):
            ctx.eq(first.factors[u].get_value(**{u: s}), x, f"first model's {u}={s}")
