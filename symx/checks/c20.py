"""C20: every sampled value is drawn from its variable's own conditional distribution."""
from ..lib import *
from ..models import *
from ..shims import Stub

BOUNDS = "networks of up to 4 variables and causal models of up to 2 endogenous and 2 exogenous ones (equations cast to tables), 1-3 states with labels of any kind, 1-3 rows, every outcome of every draw; arbitrary positive tables, patterns with zeros, tables not normalised (single factors), the child in any position, joint factors of up to 3 variables, conditional samples given repeated, reordered and extra observations; models after an intervention; networks of 4-6 nodes and causal models of up to 4 endogenous and 2 exogenous variables with unusual names and all but two tables fixed"
OUTSIDE = "more rows (each row repeats the same code), sources of randomness other than numpy's choice and random.choices, equations kept as functions (the library refuses to sample them), float rounding"
STUBS = ["np.random.choice / random.choices: any outcome of positive probability, with the probabilities it was given recorded"]
PATHS = 700


def configs(tier):
    out, deep = [], tier == "thorough"
    lays = ("first", "last", "rev", "mid")
    small = ("single", "chain3", "fork", "collider", "disconnected", "isolated", "complete3", "constant")
    for i, name in enumerate(BN):
        if name in small or name in ("diamond", "colliderdesc", "twopairs", "threeparents", "ladder"):
            c = bn(name, layout=lays[i % 4], perm=i % 3 == 1)
            out.append(dict(h="h_model", n=1, pandas=i % 2 == 0, **c))
    for i, name in enumerate(("single", "chain2", "isolated2", "collider2", "fork2")):
        c = dict(single=dict(dom=[("A", ["x", "y", "z"])], edges=[]),
                 chain2=dict(dom=[("B", ["b", ""]), ("A", [1, 0])], edges=[("A", "B")]),
                 isolated2=dict(dom=[("A", [True, False]), ("B", [0, 1])], edges=[]),
                 collider2=dict(dom=[("C", [0, 1]), ("A", [1, 0]), ("B", ["u", "v"])], edges=[("B", "C"), ("A", "C")]),
                 fork2=dict(dom=[("A", [0.5, 1.5]), ("B", [1, 0]), ("C", [False, True])], edges=[("A", "B"), ("A", "C")]))[name]
        out.append(dict(h="h_model", name=name, n=2, pandas=True, layout=lays[i % 4], **c))
        if len(c["dom"]) < 3:
            out.append(dict(h="h_model", name=name, n=3, pandas=False, layout=lays[i % 4], **c))
    out.append(dict(h="h_model", n=2, pandas=True, zeros={"B": {0: (1,)}, "C": {1: (0,)}}, **bn("chain3")))
    out.append(dict(h="h_model", n=1, pandas=True, zeros={"C": {0: (0,), 3: (1,)}}, **bn("collider")))
    for i, es in enumerate(all_dags(3)):
        out.append(dict(h="h_model", n=1, pandas=i % 2 == 0, layout=lays[i % 4], **dag_bn(3, i, es)))
    for i, es in enumerate(all_dags(4)):
        if deep or i % 60 == 0:
            out.append(dict(h="h_model", n=1, pandas=True, layout=lays[i % 4], **dag_bn(4, i, es)))
    # larger models with unusual names and labels
    for seed in range(20 if deep else 6):
        out.append(dict(h="h_model", n=1, pandas=seed % 2 == 0, **wide_bn(seed + 70, 4 + seed % 3, free=2, kinds=["b", "s", "t", "r", "e", "n", "1"])))
    for seed in range(12 if deep else 4):
        c = dict(wide_scm(seed + 80, 2 + seed % 3, 2, free=0), exact=True, form=("det", "tab", "mix")[seed % 3])
        x = [v for v, _s in c["dom"] if v not in c["exo"]][0]
        out.append(dict(h="h_scm", n=1, **c))
        out.append(dict(h="h_scm", n=1, do={x: dict(c["dom"])[x][-1]}, **c))
        out.append(dict(h="h_endo", pandas=True, **c))
    # trees with branches that end early
    for seed in range(6 if deep else 3):
        c = dict(bn(("collider", "chain3", "fork")[seed % 3]), vtype="treedict", csi=seed * 4 + 1)
        out.append(dict(h="h_model", n=1, pandas=seed % 2 == 0, **c))
    # causal models, equations chosen by the solver
    for i, name in enumerate(("one", "markov2", "confounded", "noexo", "disjoint", "unsorted", "unsorted2")):
        c = scm(name, form=("det", "tab")[i % 2], exact=True)
        if name != "markov2":
            out.append(dict(h="h_scm", n=1, **c))
        if name in ("one", "noexo"):
            out.append(dict(h="h_scm", n=2, **c))
        if len(c["dom"]) < 4:
            e = dict(c, form="tab", exact=True)
            out.append(dict(h="h_endo", pandas=i % 2 == 0, **e))
        x = [v for v, _s in c["dom"] if v not in c["exo"]]
        out.append(dict(h="h_scm", n=1, do={x[0]: dict(c["dom"])[x[0]][-1]}, **c))
    D3 = [("A", [0, 1]), ("B", ["x", "y", "z"]), ("C", [True, False])]
    for k in (1, 2, 3):
        for vs in perms([v for v, _s in D3[:k]]):
            d = [(v, dict(D3)[v]) for v in vs]
            for names in (True, False):
                for size in (1, 2) if k < 3 else (1,):
                    out.append(dict(h="h_factor", name=f"f{k}", dom=d, size=size, varnames=names))
    for vs in perms(["A", "B", "C"]):
        for right in (["A"], ["B"], ["A", "C"], ["C", "B"]):
            d = [(v, dict(D3)[v]) for v in vs]
            dd = dict(D3)
            row = lambda k: {v: dd[v][k % len(dd[v])] for v in right}
            obs = [row(0)]
            out.append(dict(h="h_cond", name="c", dom=d, right=right, obs=obs, varnames=True))
            obs = [row(1), row(0), row(1)]
            out.append(dict(h="h_cond", name="c", dom=d, right=right, obs=obs if len(right) > 1 else obs[:2], varnames=len(vs[0]) > 1))
            if len(right) > 1:
                # the same variables listed in another order from one observation to the next
                flip = lambda o: dict(list(o.items())[::-1])
                out.append(dict(h="h_cond", name="c", dom=d, right=right, obs=[row(1), flip(row(0))], varnames=True))
                out.append(dict(h="h_cond", name="c", dom=d, right=right, obs=[flip(row(0)), row(1), flip(row(1))], varnames=True))
            obs = [{"Z": 5, **row(1)}, {"Z": 6, **row(1)}]
            if len(right) > 1:
                out.append(dict(h="h_cond", name="c", dom=d, right=right, obs=obs, varnames=True))
    return out


class Source:
    """Records, for every draw, the probability of the outcome it was given."""

    def __init__(self, ctx):
        self.ctx, self.n, self.p = ctx, 0, 1.0
        Stub.handlers["np.random.choice"] = self.choice
        Stub.handlers["random.choices"] = self.choices

    def draw(self, k, p):
        ctx = self.ctx
        i = ctx.choose(f"draw{self.n}", k)
        self.n += 1
        ctx.eq(total(p), 1.0, f"probabilities of draw {self.n} add up to one")
        for x in p:
            ctx.ge(x, 0.0, f"probabilities of draw {self.n} are not negative")
        ctx.assume(p[i] > 0)
        self.p = self.p * p[i]
        return i

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        p = [1.0 / len(items)] * len(items) if p is None else list(p)
        if len(p) != len(items):
            raise ValueError("'a' and 'p' must have same size")
        if size is None:
            return items[self.draw(len(items), p)]
        n = int(np.prod(size))
        out = np.empty(n, dtype=object)
        for k in range(n):
            out[k] = items[self.draw(len(items), p)]
        out = np.array(list(out))
        return out.reshape(size)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        items = list(population)
        w = [1.0] * len(items) if weights is None else list(weights)
        t = total(w)
        return [items[self.draw(len(items), [x / t for x in w])] for _ in range(k)]


def outcome(ctx, rows, dom, joint, src, msg):
    """The rows are complete and were drawn with the probability the model gives them."""
    for r in rows:
        ctx.same(sorted(r), sorted(dom), msg + " variables of the row")
        for v in dom:
            ctx.check(any(s == r[v] for s in dom[v]), f"{msg} state of {v}")
    rows = [{v: next(s for s in dom[v] if s == r[v]) for v in dom} for r in rows]
    ctx.eq(src.p, prod([joint(r) for r in rows]), f"{msg} probability of {rows}")


def as_rows(data):
    return data if isinstance(data, list) else data.to_dict("records")


def h_model(ctx, cfg):
    m, net = make_bn(ctx, cfg)
    src = Source(ctx)
    data = m.sample(cfg["n"], as_pandas=cfg["pandas"])
    ctx.same(len(data), cfg["n"], "number of rows")
    outcome(ctx, as_rows(data), net.dom, net.joint, src, "sample")


def h_scm(ctx, cfg):
    m, net = make_scm(ctx, cfg)
    do = cfg.get("do", {})
    if do:
        m = m.intervention(**do)
    src = Source(ctx)
    data = m.sample(cfg["n"])
    ctx.same(len(data), cfg["n"], "number of rows")

    def joint(r):
        return prod([(1.0 if r[v] == do[v] else 0.0) if v in do else net.refs[v](r) for v in net.dom])
    outcome(ctx, as_rows(data), net.dom, joint, src, "sample")


def h_endo(ctx, cfg):
    """The endogenous part of a sample is distributed as the observational distribution."""
    m, net = make_scm(ctx, cfg)
    src = Source(ctx)
    data = m.sampleEndogenous(1, as_pandas=cfg["pandas"])
    endo = OrderedDict((v, s) for v, s in net.dom.items() if v not in cfg["exo"])
    r = as_rows(data)[0]
    ctx.same(sorted(r), sorted(endo), "variables of the endogenous sample")
    # the rows of one path come from one configuration of the exogenous variables
    ctx.check(any(s == r[v] for v in endo for s in endo[v]), "states")
    joints = [net.joint({**r, **u}) for u in space(OrderedDict((u, net.dom[u]) for u in cfg["exo"]))]
    ctx.check(any(not ctx.iszero(j) for j in joints), "the row is possible")


def h_factor(ctx, cfg):
    dom = D(cfg["dom"])
    vals = [ctx.real(f"x{i}", pos=True) for i, _a in enumerate(space(dom))]
    t = {key(a): x for a, x in zip(space(dom), vals)}
    ref = lambda a: t[key({v: a[v] for v in dom})]
    f = mf(dom, vals)
    src = Source(ctx)
    out = f.sample(cfg["size"], varnames=cfg["varnames"])
    ctx.same(len(out), cfg["size"], "number of samples")
    rows = [dict(r) if cfg["varnames"] else dict(zip(dom, r)) for r in out]
    tot = total(vals)
    outcome(ctx, rows, dom, lambda r: ref(r) / tot, src, "factor sample")


def h_cond(ctx, cfg):
    dom = D(cfg["dom"])
    right = cfg["right"]
    left = [v for v in dom if v not in right]
    vals = [ctx.real(f"x{i}", pos=True) for i, _a in enumerate(space(dom))]
    t = {key(a): x for a, x in zip(space(dom), vals)}
    ref = lambda a: t[key({v: a[v] for v in dom})]
    f = mf(dom, vals, right=right)
    src = Source(ctx)
    out = f.sample_conditional([dict(o) for o in cfg["obs"]], varnames=cfg["varnames"])
    ctx.same(len(out), len(cfg["obs"]), "one sample per observation")
    ld = OrderedDict((v, dom[v]) for v in left)
    expected = []
    for o, r in zip(cfg["obs"], out):
        r = dict(r) if cfg["varnames"] else dict(zip(ld, r))
        ctx.same(sorted(r), sorted(left), "variables of the conditional sample")
        for v in left:
            ctx.check(any(s == r[v] for s in dom[v]), f"state of {v}")
        o = {v: o[v] for v in right}
        expected.append(ref({**o, **r}) / total([ref({**o, **a}) for a in space(ld)]))
    ctx.eq(src.p, prod(expected), f"probability of {out} given {cfg['obs']}")
