"""C21: generated factors and models are valid."""
from ..lib import *
from ..models import *
from ..shims import Stub

BOUNDS = "tables over up to 4 variables of 1-4 states with 0-3 variables on the right in any position, all four stores; every outcome of the uniform draws (at most one of them exactly zero when zeros are allowed) and of the random states (up to 9 configurations of the right side); canonical equations of variables of 1-3 states with 0-3 endogenous parents (up to 256 functions), listed in any order; networks and causal models of up to 6 variables, every DAG over 3 nodes; networks of 4-6 nodes and causal models of up to 8 variables with unusual names"
OUTSIDE = "larger tables, two or more uniform draws that are all exactly zero in one column, generators other than numpy's, float rounding"
STUBS = ["np.random.uniform/rand/random/random_sample: arbitrary reals of the interval", "np.random.choice/randint: any outcome"]
PATHS = 900
DOM4 = [("A", [0, 1]), ("B", ["x", "y", "z"]), ("C", [True, False]), ("E", ["e1", "e2"])]


def configs(tier):
    out, deep = [], tier == "thorough"
    n = 0
    for k in (1, 2, 3, 4):
        for vs in perms([v for v, _s in DOM4[:k]], None if k < 4 or deep else 3):
            d = [(v, dict(DOM4)[v]) for v in vs]
            for right in subsets(vs, 0, k - 1):
                n += 1
                if k == 4 and not deep and n % 3:
                    continue
                for az in (True, False):
                    out.append(dict(h="h_random", name=f"r{k}", dom=d, right=right, vtype=STORES[n % 4], allow_zero=az, zero=n % 2))
                out.append(dict(h="h_uniform", name=f"u{k}", dom=d, right=right, vtype=STORES[(n + 1) % 4]))
                cfgs, left = 1, 1
                for v, s in d:
                    if v in right:
                        cfgs *= len(s)
                    else:
                        left *= len(s)
                if left ** cfgs <= 600:
                    out.append(dict(h="h_det", name=f"d{k}", dom=d, right=right, vtype=STORES[n % 4]))
    out.append(dict(h="h_random", name="one", dom=[("A", ["only"]), ("B", [0, 1])], right=["B"], vtype="numpy", allow_zero=True, zero=0))
    out.append(dict(h="h_det", name="norights", dom=[("A", ["x", "y", "z"])], right=None, vtype="numpy"))
    out.append(dict(h="h_uniform", name="norights", dom=[("A", ["x", "y", "z"]), ("B", [0, 1])], right=None, vtype="numpy"))
    # canonical: left states, sizes of endogenous parents
    for ls in (["a"], [1, 0], ["x", "y", "z"]):
        for sizes in ((), (2,), (3,), (1,), (2, 2), (2, 3), (3, 1), (2, 2, 2), (1, 2, 2)):
            m = 1
            for s in sizes:
                m *= s
            if len(ls) ** m > 256:
                continue
            pars = [(f"P{i}", [f"p{i}{j}" for j in range(s)]) for i, s in enumerate(sizes)]
            U = ("U", list(range(len(ls) ** m)))
            for o, dom in enumerate(([("X", ls), U] + pars, pars + [U, ("X", ls)], [U] + pars[::-1] + [("X", ls)])):
                for right in ([p for p, _s in pars], [p for p, _s in pars][::-1])[:1 + (len(pars) > 1)]:
                    out.append(dict(h="h_canon", name="canon", dom=dom, right=right, table=o % 2 == 0, vtype=STORES[(o + m) % 4]))
    for i, name in enumerate(BN):
        out.append(dict(h="h_bn", **bn(name)))
    for i, es in enumerate(all_dags(3)):
        out.append(dict(h="h_bn", **dag_bn(3, i, es)))
    for seed in range(12 if deep else 5):
        c = wide_bn(seed + 150, 4 + seed % 3)
        out.append(dict(h="h_bn", name=c["name"], dom=c["dom"], edges=c["edges"]))
        c = wide_scm(seed + 160, 3 + seed % 3, 2 + seed % 2, free=0)
        for vs in [c["exo"][:1], c["exo"][1:], c["exo"][::-1]]:
            out.append(dict(h="h_again", vs=vs, allow_zero=seed % 2 == 0, in_place=len(vs) == 1, form=("det", "tab", "mix")[seed % 3], **c))
    for i, name in enumerate(SCM):
        c = scm(name)
        for az in (True, False):
            for place in (True, False):
                for vs in [c["exo"][:1], c["exo"], c["exo"][1:]]:
                    if vs:
                        out.append(dict(h="h_again", vs=vs, allow_zero=az, in_place=place, form=("det", "tab")[i % 2], **c))
        if name in ("one", "confounded", "noexo", "disjoint", "unsorted", "markov2"):
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
            if name not in ("confounded", "markov2", "unsorted") or deep:
                out.append(dict(h="h_fill", **c))
    return out


class Random:
    """Handlers for the random source: arbitrary reals, arbitrary choices."""

    def __init__(self, ctx, zero=False):
        self.ctx, self.n, self.zero = ctx, 0, zero
        H = Stub.handlers
        H["np.random.uniform"] = self.uniform
        H["np.random.rand"] = lambda *s: self.array(0.0, 1.0, s or None)
        H["np.random.random"] = lambda size=None: self.array(0.0, 1.0, size)
        H["np.random.random_sample"] = lambda size=None: self.array(0.0, 1.0, size)
        H["np.random.choice"] = self.choice
        H["np.random.randint"] = self.randint

    def one(self, lo, hi):
        i = self.n
        self.n += 1
        if lo == 0 and self.zero and i == 0:
            return 0.0
        v = self.ctx.real(f"draw{i}", lo=lo, hi=hi)
        self.ctx.assume(v < hi)
        if lo == 0:
            self.ctx.assume(v > 0)
        return v

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.array(low, high, size)

    def array(self, lo, hi, size):
        import numpy as np
        if size is None:
            return self.one(lo, hi)
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        n = 1
        for s in size:
            n *= int(s)
        return np.array([self.one(lo, hi) for _ in range(n)]).reshape(size)

    def pick(self, k):
        self.n += 1
        return self.ctx.choose(f"pick{self.n}", k)

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return items[self.pick(len(items))]
        n = int(np.prod(size))
        return np.array([items[self.pick(len(items))] for _ in range(n)]).reshape(size)

    def randint(self, low, high=None, size=None):
        import numpy as np
        lo, hi = (0, low) if high is None else (low, high)
        if size is None:
            return lo + self.pick(hi - lo)
        n = int(np.prod(size))
        return np.array([lo + self.pick(hi - lo) for _ in range(n)]).reshape(size)


def valid(ctx, f, dom, right, msg, positive=False, unit=False):
    """A distribution over the left variables for each configuration of the right ones."""
    right = right or []
    check_scope(ctx, f, dom, msg)
    ctx.same(sorted(f.right_vars), sorted(right), msg + " right side")
    ctx.same(sorted(f.left_vars), sorted(v for v in dom if v not in right), msg + " left side")
    ld = OrderedDict((v, s) for v, s in dom.items() if v not in right)
    for pa in space(OrderedDict((v, dom[v]) for v in right)):
        vals = [f.get_value(**{**pa, **a}) for a in space(ld)]
        ctx.eq(total(vals), 1.0, f"{msg} sum at {pa}")
        for x in vals:
            if positive:
                ctx.gt(x, 0.0, f"{msg} positive at {pa}")
            else:
                ctx.ge(x, 0.0, f"{msg} non-negative at {pa}")
            if unit:
                ctx.check(x == 0 or x == 1, f"{msg} zeros and ones at {pa}")


def h_random(ctx, cfg):
    from bcause.factors.mulitnomial import random_multinomial
    dom, right = D(cfg["dom"]), cfg["right"]
    left = 1
    for v in dom:
        left *= 1 if v in right else len(dom[v])
    # tables without zeros come from draws that may be zero, where the interval has it
    Random(ctx, zero=(cfg["zero"] or not cfg["allow_zero"]) and left > 1)
    f = random_multinomial(dom, list(right), vtype=cfg["vtype"], allow_zero=cfg["allow_zero"])
    valid(ctx, f, dom, right, "random table", positive=not cfg["allow_zero"])


def h_uniform(ctx, cfg):
    from bcause.factors.mulitnomial import uniform_multinomial
    dom, right = D(cfg["dom"]), cfg["right"]
    f = uniform_multinomial(dom, None if right is None else list(right), vtype=cfg["vtype"])
    valid(ctx, f, dom, right, "uniform table", positive=True)
    n = 1
    for v in dom:
        n *= 1 if v in (right or []) else len(dom[v])
    for a in space(dom):
        ctx.eq(f.get_value(**a), 1.0 / n, f"uniform at {a}")


def h_det(ctx, cfg):
    from bcause.factors.mulitnomial import random_deterministic
    dom, right = D(cfg["dom"]), cfg["right"]
    Random(ctx)
    f = random_deterministic(dom, None if right is None else list(right), vtype=cfg["vtype"])
    valid(ctx, f, dom, right, "random equation", unit=True)


def h_canon(ctx, cfg):
    """Whatever function the solver chooses, exactly one exogenous state implements it."""
    from bcause.factors.deterministic import canonical_deterministic
    from bcause.factors.mulitnomial import canonical_multinomial
    dom, right = D(cfg["dom"]), cfg["right"]
    make = canonical_multinomial if cfg["table"] else canonical_deterministic
    f = make(dom, "U", list(right) if right else None, vtype=cfg["vtype"])
    check_scope(ctx, f, dom, "canonical")
    ctx.same(list(f.left_vars), ["X"], "left side")
    pas = space(OrderedDict((p, dom[p]) for p in right))
    g = [ctx.label(f"g{i}", dom["X"]) for i, _pa in enumerate(pas)]
    count = []
    for u in dom["U"]:
        match = []
        for pa, l in zip(pas, g):
            if cfg["table"]:
                match.append(total([f.get_value(U=u, X=s, **pa) * ctx.indicator(l, s) for s in dom["X"]]))
            else:
                match.append(ctx.indicator(l, next(s for s in dom["X"] if s == f.get_value(U=u, **pa))))
        count.append(prod(match))
    ctx.eq(total(count), 1.0, "number of exogenous states for the function")


def h_bn(ctx, cfg):
    from bcause.models import BayesianNetwork
    dom = D(cfg["dom"])
    Random(ctx)
    m = BayesianNetwork(digraph(dom, cfg["edges"]))
    m.randomize_factors(dom)
    ctx.same(sorted(m.factors), sorted(dom), "factors")
    for v in dom:
        pa = edges_parents(cfg["edges"], v)
        valid(ctx, m.factors[v], OrderedDict((x, dom[x]) for x in [v] + pa), pa, f"table of {v}")
        ctx.same(list(m.domains[v]), list(dom[v]), f"states of {v}")


def h_fill(ctx, cfg):
    from bcause.models.cmodel import StructuralCausalModel
    dom = D(cfg["dom"])
    Random(ctx)
    m = StructuralCausalModel(digraph(dom, cfg["edges"]))
    m.fill_random_factors(dom)
    ctx.same(sorted(m.factors), sorted(dom), "factors")
    for v in dom:
        pa = edges_parents(cfg["edges"], v)
        valid(ctx, m.factors[v], OrderedDict((x, dom[x]) for x in [v] + pa), pa, f"table of {v}", unit=v not in cfg["exo"])


def h_again(ctx, cfg):
    m, net = make_scm(ctx, cfg)
    Random(ctx)
    r = m.randomize_factors(list(cfg["vs"]), in_place=cfg["in_place"], allow_zero=cfg["allow_zero"])
    ctx.same(r is m, cfg["in_place"], "same object only when in place")
    ctx.same(sorted(r.endogenous), sorted(m.endogenous), "endogenous")
    for v in net.dom:
        pa = edges_parents(cfg["edges"], v)
        d = OrderedDict((x, net.dom[x]) for x in [v] + pa)
        if v in cfg["vs"]:
            valid(ctx, r.factors[v], d, pa, f"table of {v}", positive=not cfg["allow_zero"])
            if len(net.dom[v]) > 1:
                ctx.any_differs([(r.factors[v].get_value(**a), net.refs[v](a)) for a in space(d)], f"table of {v} is a new one")
        else:
            check_values(ctx, r.factors[v], d, net.refs[v], f"kept table of {v}")
        if not cfg["in_place"]:
            check_values(ctx, m.factors[v], d, net.refs[v], f"original table of {v}")
