"""C24: operations leave their inputs alone and do not depend on history."""
import os
import shutil
import tempfile

from ..lib import *
from ..models import *
from ..shims import Stub
from .c16 import install

BOUNDS = "every factor operation on tables, equations and interval factors over up to 3 variables in all four stores, repeated, with results and operands overwritten afterwards, and the arrays, lists and dictionaries they were built from changed; every ordered pair out of 15 operations on networks (up to 4 nodes) and of 23 on causal models (up to 5 variables): queries, conversions, copies, renamings, interventions, saving, sampling, random factors, learning; every ordered pair of queries on one engine (elimination with each heuristic, causal, several models, data); learners run on one data set after another; pairs of operations on networks of 4-5 nodes with unusual names and labels"
OUTSIDE = "graphs and lists of states changed by the caller after being handed to the library, operations that change nothing and may return their operand, longer histories, methods documented to change the object (set_factor, in-place randomisation, fill_random_*, set_value)"
STUBS = ["np.random.choice / random.choices: the k-th of the states for the k-th draw", "np.random.uniform: arbitrary reals", "scipy.optimize.minimize: returns an arbitrary distribution"]
PATHS = 300

FDOMS = [
    ([("A", ["a1", "a2"])], [("A", ["a1", "a2"])]),
    ([("A", ["a1", "a2"]), ("B", [0, 1, 3])], [("B", [0, 1, 3])]),
    ([("B", [0, 1]), ("A", ["x", ""])], [("A", ["x", ""]), ("C", [True, False])]),
    ([("A", [1, 0]), ("B", [0, 1]), ("C", ["c", "d"])], [("C", ["d", "c"]), ("A", [0, 1])]),
]
BNOPS = ["q", "qe", "qc", "joint", "copyset", "sub", "ren", "uai", "bif", "pgm", "prob", "sample", "rand", "read", "minimal"]
SCMOPS = ["cq", "cqe", "cf", "cf2", "pns", "pn", "q", "do", "multi", "bnet", "ren", "qgraph", "qfac", "comps", "loglik", "em", "gd", "sample", "uai", "copyset", "rand", "from", "emcc"]


def configs(tier):
    out, deep = [], tier == "thorough"
    n = 0
    for d1, d2 in FDOMS:
        for st in STORES:
            n += 1
            out.append(dict(h="h_factor", d1=d1, d2=d2, vtype=st, right=[v for v, _s in d1[1:]] if n % 2 else []))
            out.append(dict(h="h_build", dom=d1, vtype=st))
            out.append(dict(h="h_equation", dom=d1, vtype=st, exact=True))
        out.append(dict(h="h_interval", dom=d1))
    # trees with branches that end early
    for k, (d1, d2) in enumerate(FDOMS):
        for t in (k, k + 30):
            out.append(dict(h="h_factor", d1=d1, d2=d2, vtype="treedict", right=[v for v, _s in d1[1:]] if t % 2 else [], tree=t, tree2=(None, t + 5)[k % 2]))
    bns = [bn("chain3"), dict(bn("collider"), layout="last"), bn("disconnected"), bn("constant")] + ([bn("diamond"), bn("fork")] if deep else [])
    for i, m in enumerate(bns):
        for j, a in enumerate(BNOPS):
            for k, b in enumerate(BNOPS):
                if deep or i == 0 or (i + j + k) % 3 == 0:
                    out.append(dict(h="h_bn", a=a, b=b, vtype=None if (j + k) % 2 else STORES[(j + k + i) % 4], **m))
    for seed in range(6 if deep else 2):
        m = wide_bn(seed + 170, 4 + seed % 2, free=1, kinds=["b", "s", "t", "r", "e", "n"])
        for j, a in enumerate(BNOPS):
            for k, b in enumerate(BNOPS):
                if a != "bif" and b != "bif" and (deep or (j + 2 * k + seed) % 5 == 0):
                    out.append(dict(h="h_bn", a=a, b=b, vtype=None if (j + k) % 2 else STORES[(j + k) % 4], **m))
    conf = dict(name="conf", dom=doms("X:b Y:n U:4"), edges=arcs("X>Y U>X U>Y"), exo=["U"], eqs={"X": [0, 0, 1, 1], "Y": ["y0", "y1", "y0", "y1", "y1", "y0", "y1", "y0"]})
    mark = dict(name="mark", dom=doms("X:b Y:n U:b V:3"), edges=arcs("X>Y U>X V>Y"), exo=["U", "V"], eqs={"X": [0, 1], "Y": ["y0", "y0", "y1", "y0", "y1", "y1"]})
    iv = dict(name="iv", dom=doms("Z:b X:n Y:b U:3 W:b"), edges=arcs("Z>X X>Y U>X U>Y W>Z"), exo=["U", "W"],
              eqs={"Z": [0, 1], "X": ["x0", "x1", "x0", "x1", "x0", "x1"], "Y": [0, 1, 1, 1, 0, 0]})
    for i, m in enumerate((mark, conf, iv)):
        for j, a in enumerate(SCMOPS):
            for k, b in enumerate(SCMOPS):
                if deep or i == 0 or (i + j + k) % 4 == 0:
                    c = dict(m, form=("det", "tab")[(j + k) % 2])
                    out.append(dict(h="h_scm", a=a, b=b, cast=c["form"] == "tab" or (j + k) % 4 == 0, exact=True, **c))
    for i, m in enumerate(bns[:3]):
        for a in range(7):
            for b in range(7):
                out.append(dict(h="h_engine", kind="ve", heur=(a + b) % 5, a=a, b=b, **m))
    for i, m in enumerate((mark, conf, iv)):
        for a in range(9):
            for b in range(9):
                for kind in ("causal", "multi", "data") if deep or i == 0 else (("causal", "multi", "data")[(a + b) % 3],):
                    out.append(dict(h="h_engine", kind=kind, a=a, b=b, exact=True, **m))
        out.append(dict(h="h_learner", kind="em", exact=True, **m))
        out.append(dict(h="h_learner", kind="gd", exact=True, **m))
    for m in (mark, conf):
        for op in ("em", "gd", "loglik", "maxll", "data", "counts", "deps"):
            out.append(dict(h="h_data", op=op, exact=True, **m))
    out.append(dict(h="h_missing", **bn("chain3")))
    return out


# ---- snapshots -------------------------------------------------------------

class Snap:
    """Shape (plain python) and values (numbers, possibly symbolic) of an object."""

    def __init__(self, ctx, x):
        self.ctx, self.vals = ctx, []
        self.shape = self.walk(x)

    def walk(self, x):
        import networkx as nx
        import numpy as np
        import pandas as pd
        from bcause.factors import DeterministicFactor, MultinomialFactor
        from bcause.factors.imprecise import IntervalProbFactor
        from bcause.models.pgmodel import PGModel
        ctx = self.ctx
        if isinstance(x, Snap):
            self.vals += x.vals
            return x.shape
        if isinstance(x, DeterministicFactor):
            dom = OrderedDict((v, list(s)) for v, s in x.domain.items())
            y = x.left_vars[0]
            for a in space(OrderedDict((v, dom[v]) for v in dom if v != y)):
                l = x.get_value(**a)
                for s in dom[y]:
                    self.vals.append((f"{x.left_vars} {a} {s}", ctx.indicator(l, s)))
            return ("equation", sorted((v, tuple(map(repr, s))) for v, s in dom.items()), sorted(x.left_vars), sorted(x.right_vars))
        if isinstance(x, IntervalProbFactor):
            dom = OrderedDict((v, list(s)) for v, s in x.domain.items())
            for a in space(dom):
                for b in ("low", "up"):
                    self.vals.append((f"{b} {a}", x.get_value(_bound=b, **a)))
            return ("interval", sorted((v, tuple(map(repr, s))) for v, s in dom.items()), sorted(x.left_vars))
        if isinstance(x, MultinomialFactor):
            dom = OrderedDict((v, list(s)) for v, s in x.domain.items())
            for a in sorted(space(dom), key=lambda a: sorted(a.items(), key=repr).__repr__()):
                self.vals.append((f"{sorted(x.left_vars)} {a}", x.get_value(**a)))
            return ("table", sorted((v, tuple(sorted(map(repr, s)))) for v, s in dom.items()), sorted(x.left_vars), sorted(x.right_vars), x.vtype)
        if isinstance(x, PGModel):
            return ("model", type(x).__name__, sorted(x.graph.nodes), sorted(x.graph.edges), sorted(getattr(x, "endogenous", [])),
                    sorted((v, None if d is None else tuple(map(repr, d))) for v, d in x.domains.items()),
                    [(v, None if x.factors[v] is None else self.walk(x.factors[v])) for v in sorted(x.factors)])
        if isinstance(x, nx.Graph):
            return ("graph", sorted(x.nodes), sorted(x.edges))
        if isinstance(x, pd.DataFrame):
            return ("frame", list(map(str, x.columns)), list(map(str, x.index)), [tuple(map(repr, r)) for r in x.itertuples(index=False, name=None)])
        if isinstance(x, dict):
            return ("dict", [(repr(k), self.walk(v)) for k, v in sorted(x.items(), key=lambda t: repr(t[0]))])
        if isinstance(x, (set, frozenset)):
            return ("set", sorted(map(repr, x)))
        if isinstance(x, (list, tuple)):
            return ("list", [self.walk(v) for v in x])
        if isinstance(x, np.ndarray) and x.ndim:
            return ("array", x.shape, [self.walk(v) for v in x.ravel()])
        if x is None or isinstance(x, (str, bool)):
            return repr(x)
        self.vals.append(("value", x))
        return "number"

    def same(self, other, msg):
        o = other if isinstance(other, Snap) else Snap(self.ctx, other)
        self.ctx.same(o.shape, self.shape, msg)
        for (n, a), (_n, b) in zip(self.vals, o.vals):
            self.ctx.eq(b, a, f"{msg}: {n}")


def junk(ctx):
    return 77.5


def spoil(ctx, f):
    """Overwrite every value of a factor through its store."""
    from bcause.factors import DeterministicFactor
    dom = OrderedDict((v, list(s)) for v, s in f.store.domain.items())
    left = f.domain[f.left_vars[0]][-1] if isinstance(f, DeterministicFactor) else junk(ctx)
    for a in space(dom):
        f.store.set_value(left, a)


# ---- factors ---------------------------------------------------------------

def factor_ops(d1, d2, vtype):
    v1, v2 = list(d1), list(d2)
    ops = OrderedDict([
        ("mul", lambda f, g: f * g), ("add", lambda f, g: f + g), ("sub", lambda f, g: f - g), ("div", lambda f, g: f / g),
        ("mulback", lambda f, g: g * f), ("scale", lambda f, g: f * 2.0), ("radd", lambda f, g: 1.0 + f), ("rdiv", lambda f, g: 1.0 / f),
        ("marg", lambda f, g: f.marginalize(v1[0])), ("margall", lambda f, g: f ** v1), ("max", lambda f, g: f ^ v1[-1]),
        ("restrict", lambda f, g: f.restrict(**{v1[0]: d1[v1[0]][-1]})), ("restrict2", lambda f, g: f.R(**{v: s[0] for v, s in d1.items()})),
        ("get", lambda f, g: f.get_value(**{v: s[0] for v, s in d1.items()})), ("values", lambda f, g: list(f.values)),
        ("dict", lambda f, g: f.values_dict), ("array", lambda f, g: f.values_array(v1[::-1])),
        ("rename", lambda f, g: f.rename_vars({v1[0]: "Zed"})), ("prob", lambda f, g: f.prob([{v: s[-1] for v, s in d1.items()}])),
        ("repr", lambda f, g: [len(repr(f)) > 0, f.name]),
        ("chain", lambda f, g: (f * g).marginalize(v2[0]) / 3.0),
        ("copy", lambda f, g: f.store.copy().values_list), ("shallow", lambda f, g: f.store.copy(deep=False).values_list),
        ("const", lambda f, g: f.constant(d1[f.left_vars[0]][0]) if len(f.left_vars) == 1 else None),
    ])
    if vtype == "numpy1d":
        ops.pop("max")      # the library does not implement it
    if vtype == "numpy":
        ops["states"] = lambda f, g: f.restrict(**{v1[0]: list(d1[v1[0]][::-1])})
    return ops


def h_factor(ctx, cfg):
    from bcause.factors.factor import Factor
    d1, d2 = D(cfg["d1"]), D(cfg["d2"])
    x, _r = entries(ctx, "f", d1, cfg, nozero=True) if cfg.get("tree") is not None else table(ctx, "f", d1, pos=True)
    y, _r = entries(ctx, "g", d2, cfg, "tree2", nozero=True) if cfg.get("tree2") is not None else table(ctx, "g", d2, pos=True)
    f = mf(d1, x, right=cfg["right"], vtype=cfg["vtype"])
    g = mf(d2, y, vtype=cfg["vtype"])
    sf, sg = Snap(ctx, f), Snap(ctx, g)
    first, kept = {}, {}
    ops = factor_ops(d1, d2, cfg["vtype"])
    for n, op in ops.items():
        kept[n] = op(f, g)
        first[n] = Snap(ctx, kept[n])
        sf.same(f, f"left operand after {n}")
        sg.same(g, f"right operand after {n}")
    for n, op in reversed(ops.items()):
        r = op(f, g)
        first[n].same(r, f"{n} a second time")
        if isinstance(r, Factor) and r is not f and r is not g:
            spoil(ctx, r)
            sf.same(f, f"left operand after overwriting the result of {n}")
            sg.same(g, f"right operand after overwriting the result of {n}")
            first[n].same(op(f, g), f"{n} after overwriting its earlier result")
        first[n].same(kept[n], f"result kept from the first {n}")
    for h in (f, g):
        spoil(ctx, h)
    for n in ops:
        if kept[n] is not f and kept[n] is not g:
            first[n].same(kept[n], f"result of {n} after overwriting the operands")


def h_build(ctx, cfg):
    import numpy as np
    from bcause.factors import MultinomialFactor
    d = D(cfg["dom"])
    vals, ref = table(ctx, "f", d)
    shape = [len(s) for s in d.values()]
    kind = object if ctx.symbolic else float
    for how in ("list", "flat", "array", "nested"):
        dom = D(cfg["dom"])
        data = {"list": lambda: list(vals), "flat": lambda: np.array(vals, dtype=kind), "array": lambda: np.array(vals, dtype=kind).reshape(shape),
                "nested": lambda: np.array(vals, dtype=kind).reshape(shape).tolist()}[how]()
        left = [list(d)[0]]
        obs = dict(list(space(d)[0].items())[:1])
        f = MultinomialFactor(dom, data, left_vars=left, vtype=cfg["vtype"])
        r = f.restrict(**obs)
        s, sr = Snap(ctx, f), Snap(ctx, r)
        # the caller reuses its containers
        if isinstance(data, np.ndarray):
            data[...] = 9.25
        else:
            while isinstance(data[0], list):
                data = data[-1]
            data[0] = 9.25
        dom["Other"] = ["o1", "o2"]
        dom.pop(list(d)[-1])
        obs.clear()
        s.same(f, f"{how}: factor after its data changed")
        sr.same(r, f"{how}: restriction after its data changed")
        check_values(ctx, f, d, ref, f"{how}: values")
        spoil(ctx, f)
        sr.same(r, f"{how}: restriction after overwriting the factor")


def h_equation(ctx, cfg):
    from bcause.factors import DeterministicFactor
    d = D(cfg["dom"])
    y = list(d)[-1]
    labels, ref = eqn(ctx, "f", d, y)
    f = DeterministicFactor(d, labels, left_vars=[y], vtype=cfg["vtype"])
    s = Snap(ctx, f)
    pa = [v for v in d if v != y]
    ops = OrderedDict([("table", lambda: f.to_multinomial()), ("int", lambda: f.to_multinomial(as_int=True)), ("const", lambda: f.constant(d[y][0])),
                       ("rename", lambda: f.rename_vars({y: "Zed"})), ("eval", lambda: [1.0 if f.eval(**a) else 0.0 for a in space(d)][:1]),
                       ("back", lambda: f.to_multinomial().to_deterministic())])
    first, kept = {}, {}
    for n, op in ops.items():
        kept[n] = op()
        first[n] = Snap(ctx, kept[n])
        s.same(f, f"equation after {n}")
    for n, op in reversed(ops.items()):
        r = op()
        first[n].same(r, f"{n} a second time")
        if hasattr(r, "store"):
            spoil(ctx, r)
            s.same(f, f"equation after overwriting the result of {n}")
    if pa:
        spoil(ctx, f)
        for n in ops:
            first[n].same(kept[n], f"result of {n} after overwriting the equation")


def h_interval(ctx, cfg):
    from bcause.factors.imprecise import IntervalProbFactor
    d = D(cfg["dom"])
    x, _r = table(ctx, "f", d)
    y, _r = table(ctx, "g", d)
    f, g = mf(d, x), mf(d, y)
    given = [f, g]
    i = IntervalProbFactor.from_precise(given)
    sf, sg, si = Snap(ctx, f), Snap(ctx, g), Snap(ctx, i)
    v = list(d)[0]
    ops = OrderedDict([("restrict", lambda: i.restrict(**{v: d[v][0]})), ("values", lambda: list(i.values)), ("low", lambda: i.store_low.values_list),
                       ("up", lambda: i.store_up.values_list), ("rename", lambda: i.rename_vars({v: "Zed"}))])
    for n, op in ops.items():
        r = op()
        s = Snap(ctx, r)
        si.same(i, f"interval after {n}")
        s.same(op(), f"{n} a second time")
        if hasattr(r, "store"):
            spoil(ctx, r)
            si.same(i, f"interval after overwriting the result of {n}")
    ctx.check(len(given) == 2 and given[0] is f and given[1] is g, "list of tables")
    spoil(ctx, i)
    sf.same(f, "first table")
    sg.same(g, "second table")


# ---- models ----------------------------------------------------------------

class Draws:
    """Deterministic random source: draws depend on their number within the operation only."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0
        H = Stub.handlers
        H["np.random.choice"] = self.choice
        H["np.random.uniform"] = self.uniform
        H["random.choices"] = self.choices

    def reset(self):
        self.n = 0

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        self.n += 1
        if size is None:
            return items[self.n % len(items)]
        return np.array([items[(self.n + i) % len(items)] for i in range(int(np.prod(size)))]).reshape(size)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        self.n += 1
        return [list(population)[(self.n + i) % len(population)] for i in range(k)]

    def uniform(self, lo=0.0, hi=1.0, size=None):
        import numpy as np
        m = 1 if size is None else int(np.prod(size))
        xs = []
        for _i in range(m):
            self.n += 1
            xs.append(self.ctx.real(f"u{self.n}", lo=0.25, hi=0.75))
        # the interval is (0, 1) or (-1, 0)
        xs = [x if lo >= 0 else x - 1.0 for x in xs]
        if size is None:
            return xs[0]
        return np.array(xs, dtype=object if self.ctx.symbolic else float).reshape(size)


def scratch(fn):
    d = tempfile.mkdtemp(prefix="symx24")
    try:
        return fn(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_back(m, ext, cls):
    def go(d):
        p = os.path.join(d, "m" + ext)
        m.save(p)
        return cls.read(p)
    return scratch(go)


def overwrite(m):
    """Replace every factor of a model (set_factor is meant to change it)."""
    from bcause.factors.mulitnomial import uniform_multinomial
    m._check_factors = False
    for v in list(m.factors):
        f = m.factors[v]
        m.set_factor(v, uniform_multinomial(OrderedDict(f.domain), right_vars=list(f.right_vars)))


def bn_op(ctx, m, cfg, name, src):
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.models import BayesianNetwork
    from bcause.models.transform.simplification import minimalize
    src.reset()
    dom = D(cfg["dom"])
    vs = list(dom)
    a, z = vs[0], vs[-1]
    rec = {v: s[0] for v, s in dom.items()}
    if name == "q":
        return VariableElimination(m).query(z)
    if name == "qe":
        ev = {a: dom[a][-1]}
        r = VariableElimination(m).query(z, evidence=ev)
        ctx.same(ev, {a: dom[a][-1]}, "evidence given")
        return r
    if name == "qc":
        t, c = [z], [a]
        r = VariableElimination(m).query(t, conditioning=c)
        ctx.same((t, c), ([z], [a]), "query given")
        return r
    if name == "joint":
        t = [a, z]
        r = VariableElimination(m).query(t)
        ctx.same(t, [a, z], "targets given")
        return r
    if name == "copyset":
        c = m.copy()
        s = Snap(ctx, c)
        overwrite(c)
        return s
    if name == "sub":
        roots = [v for v in vs if not edges_parents(cfg["edges"], v)]
        c = m.submodel(list(roots))
        s = Snap(ctx, c)
        overwrite(c)
        return s
    if name == "ren":
        mp = {a: "Zed"}
        c = m.rename_vars(mp)
        ctx.same(mp, {a: "Zed"}, "mapping given")
        s = Snap(ctx, c)
        overwrite(c)
        return s
    if name == "uai":
        return read_back(m, ".uai", BayesianNetwork)
    if name == "bif":
        # a BIF file holds rounded values and no empty labels: only the writing
        def go(d):
            m.save(os.path.join(d, "m.bif"))
            return sorted(os.listdir(d))
        return scratch(go) if all("" not in s for s in dom.values()) else []
    if name == "pgm":
        from bcause.conversion.pgmpy import toPgmpyBNet, toBCauseBNet
        return toBCauseBNet(toPgmpyBNet(m))
    if name == "prob":
        obs = [dict(rec)]
        r = list(m.prob(obs))
        ctx.same(obs, [rec], "observations given")
        return r
    if name == "sample":
        return m.sample(2)
    if name == "rand":
        c = m.copy()
        ds = {v: list(s) for v, s in dom.items()}
        c.randomize_factors(ds)
        ctx.same(ds, dict(dom), "domains given")
        return c
    if name == "read":
        return [m.domains, m.varsizes, m.get_dag_str(), sorted(m.markov_blanket(z)), sorted(m.get_parents(z)), sorted(m.get_children(a)), repr(m), m.get_factors(a), m.factor_list]
    if name == "minimal":
        ev = {a: dom[a][0]}
        r = minimalize(m, z, ev)
        ctx.same(ev, {a: dom[a][0]}, "evidence given")
        return {v: f for v, f in r.factors.items()}
    raise ValueError(name)


def pair(ctx, cfg, make, op):
    """The result of a is the same on a fresh model and after b, and neither changes the model."""
    src = Draws(ctx)
    a, b = cfg["a"], cfg["b"]
    m1, m2 = make(), make()
    s = Snap(ctx, m2)
    r = Snap(ctx, op(ctx, m1, cfg, a, src))
    s.same(m1, f"model after {a}")
    first = op(ctx, m2, cfg, b, src)
    kept = Snap(ctx, first)
    s.same(m2, f"model after {b}")
    r.same(op(ctx, m2, cfg, a, src), f"{a} after {b}")
    s.same(m2, f"model after {b} and {a}")
    kept.same(first, f"result of {b} after {a}")


def h_bn(ctx, cfg):
    pair(ctx, cfg, lambda: make_bn(ctx, cfg)[0], bn_op)


ROWS = {"mark": (["X", "Y"], [[0, "y0"], [1, "y1"], [0, "y1"]]), "conf": (["Y", "X"], [["y0", 0], ["y1", 0], ["y1", 1]]),
        "iv": (["Z", "X", "Y"], [[0, "x0", 0], [0, "x1", 0], [1, "x1", 1]])}


def plain_data(cfg, rows=None):
    import pandas as pd
    cols, rs = ROWS[cfg["name"]]
    rows = rows or rs
    return pd.DataFrame([list(r) for r in rows], columns=list(cols))


def scm_op(ctx, m, cfg, name, src):
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.causal.multi import EMCC
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    from bcause.models.cmodel import StructuralCausalModel
    src.reset()
    dom = D(cfg["dom"])
    x0, x1 = dom["X"][:2]
    # engines work on tables
    t = m if not m.has_deterministic else m.to_multinomial()
    if name in ("cq", "cqe", "cf", "cf2"):
        e = CausalVariableElimination(t)
        if name == "cq":
            do = {"X": x1}
            r = e.causal_query("Y", do=do)
            ctx.same(do, {"X": x1}, "intervention given")
            return r
        if name == "cqe":
            z = "Z" if "Z" in dom else "Y"
            tgt = "Y" if z == "Z" else "X"
            do = {"X": x0} if tgt == "Y" else {}
            ev = {z: dom[z][0]}
            r = e.causal_query(tgt, do=do, evidence=ev)
            ctx.same(ev, {z: dom[z][0]}, "evidence given")
            return r
        if name == "cf":
            ev, do = {"X": x0}, {"X": x1}
            r = e.counterfactual_query("Y", do=do, evidence=ev)
            ctx.same((ev, do), ({"X": x0}, {"X": x1}), "query given")
            return r
        do, sub_, tg = [{"X": x0}, {"X": x1}], [1, 2], ["Y", "Y"]
        r = e.counterfactual_query(tg, do=do, targets_subgraphs=sub_)
        ctx.same((tg, do, sub_), (["Y", "Y"], [{"X": x0}, {"X": x1}], [1, 2]), "query given")
        return r
    if name == "pns":
        return CausalVariableElimination(t).prob_necessity_sufficiency("X", "Y", true_false_cause=(x1, x0), true_false_effect=(dom["Y"][1], dom["Y"][0]))
    if name == "pn":
        return CausalVariableElimination(t).prob_necessity("X", "Y", true_false_cause=(x1, x0), true_false_effect=(dom["Y"][1], dom["Y"][0]))
    if name == "q":
        return VariableElimination(t).query("Y", evidence={"X": x1})
    if name in ("do", "multi", "bnet", "ren", "from", "copyset"):
        if name == "from":
            c = StructuralCausalModel.from_model(t.to_bnet())
        elif name == "do":
            do = {"X": x1}
            c = m.intervention(**do)
        elif name == "multi":
            c = m.to_multinomial()
        elif name == "bnet":
            c = m.to_bnet()
        elif name == "copyset":
            c = m.copy()
        else:
            mp = {"X": "Zed", "U": "X"}
            c = m.rename_vars(mp)
            ctx.same(mp, {"X": "Zed", "U": "X"}, "mapping given")
        s = Snap(ctx, c)
        overwrite(c)
        return s
    if name == "qgraph":
        return m.qgraph
    if name == "qfac":
        return t.get_qfactorisation()
    if name == "comps":
        cs = m.ccomponents
        r = [sorted(sorted(c) for c in cs), sorted(sorted(c) for c in m.exo_ccomponents), sorted(sorted(c) for c in m.endo_ccomponents),
             sorted(m.get_ccomponent("X")), sorted(m.get_exo_ccomponent("X")), m.exo_graph, m.endo_graph]
        for c in cs:
            c.clear()
        m.get_ccomponent("X").clear()
        return r
    if name == "loglik":
        d = plain_data(cfg, ROWS[cfg["name"]][1][:2])
        s = Snap(ctx, d)
        r = list(t.get_qbnet().prob(d.to_dict("records")))
        s.same(d, "data given")
        return r
    if name in ("em", "gd"):
        d = plain_data(cfg)
        s = Snap(ctx, d)
        if name == "em":
            l = ExpectationMaximization(t, trainable_vars=["U"])
            l.run(d, max_iter=1)
        else:
            install(ctx)
            l = GradientLikelihood(t, trainable_vars=["U"])
            l.run(d)
        s.same(d, "data given")
        c = l.model
        r = Snap(ctx, c)
        overwrite(c)
        return r
    if name == "sample":
        return [t.sample(1), t.sampleEndogenous(1, as_pandas=False)]
    if name == "uai":
        return read_back(m, ".uai", StructuralCausalModel)
    if name == "rand":
        vs = ["U"]
        c = m.randomize_factors(vs, allow_zero=False)
        ctx.same(vs, ["U"], "variables given")
        s = Snap(ctx, c)
        overwrite(c)
        return s
    if name == "emcc":
        d = plain_data(cfg, ROWS[cfg["name"]][1][:2])
        s = Snap(ctx, d)
        inf = EMCC(t, d, num_runs=1, max_iter=1)
        r = inf.causal_query("Y", do={"X": x1})
        s.same(d, "data given")
        return r
    raise ValueError(name)


def h_scm(ctx, cfg):
    pair(ctx, cfg, lambda: make_scm(ctx, cfg, cast=cfg["cast"])[0], scm_op)


# ---- engines and learners --------------------------------------------------

def h_engine(ctx, cfg):
    from bcause.inference.ordering import Heuristic
    dom = D(cfg["dom"])
    vs = list(dom)
    kind = cfg["kind"]
    if kind == "ve":
        from bcause.inference.probabilistic.elimination import VariableElimination
        m = make_bn(ctx, cfg)[0]
        hs = [None] + list(Heuristic)
        make = lambda: VariableElimination(m, heuristic=hs[cfg["heur"] % len(hs)])
        a, z = vs[0], vs[-1]
        qs = [lambda e: e.query(z), lambda e: e.query(a, evidence={z: dom[z][0]}), lambda e: e.query([z], conditioning=[a]), lambda e: e.query([a, z]),
              lambda e: e.query(z, evidence={a: dom[a][-1]}), lambda e: e.query(z, evidence={a: dom[a][0]}), lambda e: e.query([a], conditioning=[z])]
    else:
        m = make_scm(ctx, cfg)[0]
        x0, x1 = dom["X"][:2]
        y0, y1 = dom["Y"][:2]
        tf = dict(true_false_cause=(x1, x0), true_false_effect=(y1, y0))
        qs = [lambda e: e.causal_query("Y", do={"X": x1}), lambda e: e.counterfactual_query("Y", do={"X": x0}, evidence={"X": x1}),
              lambda e: e.prob_necessity_sufficiency("X", "Y", **tf), lambda e: e.causal_query("X", do={}),
              lambda e: e.counterfactual_query(["Y", "X"], do=[{"X": x1}, {}], targets_subgraphs=[1, 2]), lambda e: e.prob_necessity("X", "Y", **tf),
              lambda e: e.causal_query("Y", do={"X": x0}), lambda e: e.counterfactual_query("Y", do={"X": x1}, evidence={"X": x0}), lambda e: e.prob_sufficiency("X", "Y", **tf)]
        if kind == "causal":
            from bcause.inference.causal.elimination import CausalVariableElimination
            make = lambda: CausalVariableElimination(m)
        elif kind == "multi":
            from bcause.inference.causal.multi import CausalMultiInference
            m2 = make_scm(ctx, cfg, prefix="k")[0]
            make = lambda: CausalMultiInference([m, m2], interval_result=(cfg["a"] + cfg["b"]) % 2 == 0)
        else:
            from bcause.inference.probabilistic.datainference import LaplaceInference
            cols, rows = ROWS[cfg["name"]]
            ns = [ctx.count(f"n{i}") for i in range(len(rows))]
            data = ctx.frame([list(r) for r in rows], list(cols), ns)
            sd = Snap(ctx, data)
            make = lambda: LaplaceInference(data, {v: list(s) for v, s in dom.items()}, preprocess_flag=cfg["a"] % 2 == 0)
            qs = [lambda e: e.query("X"), lambda e: e.query("Y", evidence={"X": x0}), lambda e: e.query(["X", "Y"]), lambda e: e.query("X", evidence={"Y": rows[0][cols.index("Y")]}),
                  lambda e: e.query("Y"), lambda e: e.query("Y", evidence={"X": rows[-1][cols.index("X")]}), lambda e: e.query("Y", evidence={"X": rows[0][cols.index("X")]})]
    s = Snap(ctx, m)
    A, B = qs[cfg["a"] % len(qs)], qs[cfg["b"] % len(qs)]
    fa, fb = Snap(ctx, A(make())), Snap(ctx, B(make()))
    e = make()
    ra = A(e)
    fa.same(ra, "first query")
    fb.same(B(e), "second query")
    fa.same(A(e), "first query again")
    fa.same(ra, "answer kept from the first query")
    s.same(m, "model")
    if kind == "data":
        sd.same(data, "data")


def h_learner(ctx, cfg):
    """A learner run on one data set after another gives what a new one gives on the last."""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    import pandas as pd
    m = make_scm(ctx, cfg)[0]
    dom = D(cfg["dom"])
    sm = Snap(ctx, m)
    cols, rows = ROWS[cfg["name"]]
    d1 = plain_data(cfg)
    s1 = Snap(ctx, d1)
    u = cfg["exo"][-1]
    others = [d1.iloc[::-1].iloc[:2]]
    if cfg["kind"] == "em":
        others.append(d1.assign(**{cols[0]: [None] + list(d1[cols[0]])[1:]}))
        others.append(d1.assign(**{u: dom[u][0]}).iloc[:1])
    elif len(cfg["exo"]) > 1:
        others.append(d1.assign(**{u: dom[u][0]}).iloc[:1])

    def new():
        if cfg["kind"] == "gd":
            install(ctx)
            return GradientLikelihood(m)
        return ExpectationMaximization(m)

    def run(l, d):
        if cfg["kind"] == "gd":
            install(ctx)
            l.run(d)
        else:
            l.initialize(d)
            l.step()
        return [l.model, list(l.model_evolution), sorted(l.trainable_vars)]
    if cfg["kind"] == "em":
        for d in [d1] + others:
            for rec in d.to_dict("records"):
                ev = {v: s for v, s in rec.items() if not pd.isna(s)}
                ctx.assume(_mass(m, dom, ev) != 0)
    for i, d in enumerate(others):
        sd = Snap(ctx, d)
        want = Snap(ctx, run(new(), d))
        l = new()
        run(l, d1)
        want.same(run(l, d), f"data set {i} after another one")
        want.same(run(l, d), f"data set {i} once more")
        sd.same(d, "data given")
    s1.same(d1, "first data")
    sm.same(m, "prior model")


def _mass(m, dom, ev):
    free = OrderedDict((v, s) for v, s in dom.items() if v not in ev)
    fs = m.factors
    return total([prod([fs[v].get_value(**{x: {**a, **ev}[x] for x in fs[v].domain}) for v in dom]) for a in space(free)])


def h_data(ctx, cfg):
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    from bcause.util.datadeps import DataDepAnalysis
    from bcause.util.datautils import to_counts
    m, net = make_scm(ctx, cfg)
    dom = D(cfg["dom"])
    for rec in plain_data(cfg).to_dict("records"):
        ctx.assume(net.mass(rec) != 0)
    d = plain_data(cfg)
    d["Extra"] = range(len(d))
    d.index = [5, 3, 9]
    sm, sd = Snap(ctx, m), Snap(ctx, d)
    op = cfg["op"]

    def go():
        if op == "em":
            l = ExpectationMaximization(m)
            dd = d[ROWS[cfg["name"]][0]]
            s = Snap(ctx, dd)
            l.run(dd, max_iter=1)
            s.same(dd, "part of the data given")
            return l.model
        if op == "gd":
            install(ctx)
            l = GradientLikelihood(m)
            l.run(d[ROWS[cfg["name"]][0]])
            return l.model
        if op == "loglik":
            return list(m.get_qbnet().prob(d.to_dict("records")))
        if op == "maxll":
            return [m.max_log_likelihood(d)]
        if op == "data":
            return LaplaceInference(d, m.domains).query("Y", evidence={"X": d["X"].iloc[0]})
        if op == "counts":
            ds = {"Y": list(dom["Y"]), "X": list(dom["X"])}
            r = to_counts(ds, d)
            ctx.same(ds, {"Y": dom["Y"], "X": dom["X"]}, "domains given")
            return r
        dd = d[ROWS[cfg["name"]][0]].copy()
        for v in dom:
            if v not in dd.columns:
                dd[v] = float("nan")
        s = Snap(ctx, dd)
        a = DataDepAnalysis(m.graph, dd)
        r = [[sorted((k, repr(v)) for k, v in o.items()) + [c] for o, c in a.get_obs_counts(v)] for v in cfg["exo"]]
        s.same(dd, "data given to the analysis")
        return sorted(map(repr, r))
    want = Snap(ctx, go())
    sd.same(d, "data")
    sm.same(m, "model")
    want.same(go(), "a second time")


def h_missing(ctx, cfg):
    """Default trainable variables are those of the data at hand."""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    import pandas as pd
    m, _net = make_bn(ctx, cfg)
    dom = D(cfg["dom"])
    vs = list(dom)
    full = [[dom[v][0] for v in vs], [dom[v][-1] for v in vs]]

    def frame(hole):
        rows = [list(r) for r in full]
        rows[0][vs.index(hole)] = None
        return pd.DataFrame(rows, columns=vs)

    def run(l, d):
        l.initialize(d)
        l.step()
        return [l.model, sorted(l.trainable_vars)]
    for a in vs:
        for b in vs:
            if a != b:
                want = Snap(ctx, run(ExpectationMaximization(m), frame(b)))
                l = ExpectationMaximization(m)
                run(l, frame(a))
                want.same(run(l, frame(b)), f"missing {b} after missing {a}")
