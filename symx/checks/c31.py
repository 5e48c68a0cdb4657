"""C31: the seed decides everything random."""
from ..lib import *
from ..models import *
from ..shims import Stub
from .c24 import Snap, plain_data, ROWS
from .c16 import install

BOUNDS = "networks and causal models of 2-5 variables (every entry, every random number and every outcome of the discrete draws arbitrary); every pair out of 14 random operations (samples of 1-2 rows from factors and models, conditional samples, random tables, equations and networks, randomised models, runs of both learners), repeated after seeding with the same number (0, 1 and 12345), after other operations, with queries, learning steps and savings in between"
OUTSIDE = "results across interpreter processes, learners in parallel threads, other seeds, larger samples, the quality of numpy's generators"
STUBS = ["np.random.* and random.*: streams of arbitrary numbers determined by the seed and the position in the stream; a generator that is not seeded gives new numbers each time", "scipy.optimize.minimize: an arbitrary distribution that depends on the calls before it"]
PATHS = 400

OPS = ["fsample", "fsample2", "cond", "sample", "sampledict", "endo", "rand", "randpos", "randeq", "randomize", "inplace", "fill", "bnrand", "em"]
CALM = ["query", "cquery", "cfquery", "heur", "loglik", "emrun", "gdrun", "data", "uai", "rename", "order", "comps"]


def configs(tier):
    out, deep = [], tier == "thorough"
    conf = dict(name="conf", dom=doms("X:b Y:n U:4"), edges=arcs("X>Y U>X U>Y"), exo=["U"], eqs={"X": [0, 0, 1, 1], "Y": ["y0", "y1", "y0", "y1", "y1", "y0", "y1", "y0"]})
    mark = dict(name="mark", dom=doms("X:b Y:n U:b V:b"), edges=arcs("X>Y U>X V>Y"), exo=["U", "V"], eqs={"X": [0, 1], "Y": ["y0", "y1", "y1", "y0"]})
    n = 0
    for m in (conf, mark):
        for i, a in enumerate(OPS):
            for j, b in enumerate(OPS):
                if deep or i == j or (i + 2 * j) % (3 if m is conf else 6) == 0:
                    n += 1
                    out.append(dict(h="h_again", a=a, b=b, seed=(1, 0, 12345)[n % 3], form=("det", "tab")[n % 2], exact=True, **m))
        for i, a in enumerate(OPS):
            for j, b in enumerate(CALM):
                if deep or (i + j) % (2 if m is conf else 4) == 0:
                    n += 1
                    out.append(dict(h="h_calm", a=a, calm=b, seed=(1, 0, 12345)[n % 3], form=("det", "tab")[n % 2], exact=True, **m))
    return out


class Streams:
    """The generators: the value at each position of a stream is arbitrary, but always the same one."""

    def __init__(self, ctx):
        self.ctx, self.memo, self.used = ctx, {}, []
        self.fresh = 0
        self.np, self.py = self.unseeded(), self.unseeded()
        H = Stub.handlers
        H["np.random.seed"] = lambda s=None: setattr(self, "np", self.stream(s))
        H["random.seed"] = lambda s=None, version=2: setattr(self, "py", self.stream(s))
        for n in ("choice", "uniform", "rand", "random", "random_sample", "randint", "dirichlet", "permutation", "shuffle"):
            H["np.random." + n] = (lambda n: lambda *a, **k: getattr(Gen(self, self.np), n)(*a, **k))(n)
        for n in ("choice", "uniform", "random", "randint", "shuffle"):
            H["random." + n] = (lambda n: lambda *a, **k: getattr(PyGen(self, self.py), n)(*a, **k))(n)
        H["random.choices"] = lambda population, weights=None, cum_weights=None, k=1: PyGen(self, self.py).choices(population, k)
        H["np.random.default_rng"] = H["np.random.RandomState"] = lambda seed=None: Gen(self, self.unseeded()) if seed is None else Fixed(self, [f"f{seed}", 0])

    def unseeded(self):
        self.fresh += 1
        return [f"new{self.fresh}", 0]

    def stream(self, s):
        return self.unseeded() if s is None else [f"s{s}", 0]

    def next(self, st, kind, make):
        k = f"{st[0]}.{st[1]}.{kind}"
        st[1] += 1
        self.used.append(f"{st[0]}.{st[1]}")
        if k not in self.memo:
            self.memo[k] = make(k)
        return self.memo[k]

    def possible(self, q):
        return not (isinstance(q, (int, float)) and q == 0) and not (getattr(q, "const", None) == 0)

    def real(self, st):
        return self.next(st, "r", lambda k: self.ctx.real("d" + k, lo=0.125, hi=0.875))

    def pick(self, st, n):
        return 0 if n == 1 else self.next(st, f"c{n}", lambda k: self.ctx.choose("d" + k, n))


class Gen:
    def __init__(self, src, st):
        self.src, self.st = src, st

    def _many(self, size, one):
        import numpy as np
        if size is None:
            return one()
        xs = [one() for _i in range(int(np.prod(size)))]
        kind = object if self.src.ctx.symbolic and any(hasattr(x, "term") or hasattr(x, "n") for x in xs) else None
        return np.array(xs, dtype=kind).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(size, lambda: low + (high - low) * self.src.real(self.st))

    def random(self, size=None):
        return self.uniform(size=size)

    random_sample = random

    def rand(self, *size):
        return self.uniform(size=size or None)

    def choice(self, a, size=None, replace=True, p=None, **k):
        import numpy as np
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is not None:
            items = [x for x, q in zip(items, p) if self.src.possible(q)]
        return self._many(size, lambda: items[self.src.pick(self.st, len(items))])

    def randint(self, low, high=None, size=None, **k):
        lo, hi = (0, low) if high is None else (low, high)
        return self._many(size, lambda: lo + self.src.pick(self.st, hi - lo))

    integers = randint

    def dirichlet(self, alpha, size=None):
        import numpy as np

        def row():
            xs = [self.src.real(self.st) for _a in alpha]
            return [x / total(xs) for x in xs]
        rows = row() if size is None else [row() for _r in range(int(np.prod(size)))]
        return np.array(rows, dtype=object if self.src.ctx.symbolic else float)

    def permutation(self, x):
        import numpy as np
        items = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        out = []
        while items:
            out.append(items.pop(self.src.pick(self.st, len(items))))
        return np.array(out)

    def shuffle(self, x):
        x[:] = list(self.permutation(x))


class Fixed(Gen):
    """A generator of its own with a given seed: the same numbers each time."""

    class Source:
        def __init__(self, src):
            self.src, self.ctx, self.possible = src, src.ctx, src.possible

        def next(self, st):
            st[1] += 1
            self.src.used.append(f"{st[0]}.{st[1]}")
            return st[1]

        def real(self, st):
            return (1 + 3 * self.next(st) % 7) / 8.0

        def pick(self, st, n):
            return self.next(st) % n

    def __init__(self, src, st):
        super().__init__(Fixed.Source(src), st)


class PyGen(Gen):
    def uniform(self, a, b):
        return a + (b - a) * self.src.real(self.st)

    def random(self):
        return self.src.real(self.st)

    def randint(self, a, b):
        return a + self.src.pick(self.st, b - a + 1)

    def choices(self, population, k):
        return [list(population)[self.src.pick(self.st, len(population))] for _i in range(k)]


def op(ctx, m, dom, name):
    """A random operation; gives what a user sees of it."""
    import bcause.factors.mulitnomial as mm
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
    from bcause.models import BayesianNetwork
    t = m.to_multinomial()
    fu = m.factors["U"]
    d2 = OrderedDict((v, list(dom[v])) for v in ("Y", "X"))
    if name == "fsample":
        return fu.sample(2)
    if name == "fsample2":
        return fu.sample(1, varnames=False)
    if name == "cond":
        return ctx.cond.sample_conditional([{"X": dom["X"][0]}, {"X": dom["X"][1]}])
    if name == "sample":
        return t.sample(1)
    if name == "sampledict":
        return t.sample(1, as_pandas=False)
    if name == "endo":
        return t.sampleEndogenous(1)
    if name == "rand":
        return mm.random_multinomial(d2, ["X"])
    if name == "randpos":
        return mm.random_multinomial(d2, ["Y"], allow_zero=False)
    if name == "randeq":
        return mm.random_deterministic(OrderedDict((v, list(dom[v])) for v in ("X", "U")), ["U"])
    if name == "randomize":
        return m.randomize_factors(["U"])
    if name == "inplace":
        c = m.copy()
        c.randomize_factors(["U"], in_place=True, allow_zero=False)
        return c
    if name == "fill":
        c = m.copy()
        c.fill_random_marginals({v: list(s) for v, s in dom.items()})
        return c
    if name == "bnrand":
        c = BayesianNetwork("[X][Y|X]")
        c.randomize_factors({v: list(dom[v]) for v in ("X", "Y")})
        return c
    if name == "em":
        agg = SimpleModelAggregatorEM(t, plain_data(dict(name=ctx.cfgname, dom=list(dom.items())), ROWS[ctx.cfgname][1][:2]), max_iter=1)
        agg.run(1)
        return [agg.models, agg.learn_objects[0].model_evolution]
    raise ValueError(name)


def calm(ctx, m, dom, name):
    """An operation that has nothing random about it."""
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.ordering import Heuristic, min_size_heuristic
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    t = m.to_multinomial()
    data = plain_data(dict(name=ctx.cfgname, dom=list(dom.items())), ROWS[ctx.cfgname][1][:2])
    if name == "query":
        VariableElimination(t).query("Y", evidence={"X": dom["X"][0]})
    elif name == "cquery":
        CausalVariableElimination(m).causal_query("Y", do={"X": dom["X"][1]})
    elif name == "cfquery":
        CausalVariableElimination(m).counterfactual_query("Y", do={"X": dom["X"][1]})
    elif name == "heur":
        for h in Heuristic:
            VariableElimination(t, heuristic=h).query("Y")
    elif name == "order":
        min_size_heuristic(m.graph, to_remove=list(m.graph.nodes))
    elif name == "loglik":
        list(t.get_qbnet().prob(data.to_dict("records")))
    elif name == "emrun":
        ExpectationMaximization(t, trainable_vars=["U"]).run(data, max_iter=1)
    elif name == "gdrun":
        install(ctx)
        GradientLikelihood(t, trainable_vars=["U"]).run(data)
    elif name == "data":
        LaplaceInference(data, {v: list(s) for v, s in dom.items()}).query("X")
    elif name == "uai":
        import os
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="symx31")
        try:
            m.save(os.path.join(d, "m.uai"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    elif name == "rename":
        m.rename_vars({"X": "Zed"}).to_bnet()
    elif name == "comps":
        m.qgraph, m.ccomponents, t.get_qfactorisation()
    else:
        raise ValueError(name)


def start(ctx, cfg):
    import bcause as bc
    m, net = make_scm(ctx, cfg, cast=cfg["form"] == "tab")
    ctx.cfgname = cfg["name"]
    for rec in plain_data(cfg).to_dict("records"):
        ctx.assume(net.mass(rec) != 0)
    for u in cfg["exo"]:
        for s in D(cfg["dom"])[u]:
            ctx.assume(net.refs[u]({u: s}) > 0)
    d2 = OrderedDict((v, D(cfg["dom"])[v]) for v in ("Y", "X"))
    ctx.cond = mf(d2, cpt(ctx, "k", d2, "Y")[0], right=["X"])
    return m, D(cfg["dom"]), Streams(ctx), bc.randomUtil.seed


def other(name):
    """An operation to run before seeding: that one, or one without discrete draws in place of those that sample."""
    return name if name in ("rand", "randpos", "randomize", "inplace", "fill", "bnrand") else "rand"


def h_again(ctx, cfg):
    m, dom, src, seed = start(ctx, cfg)
    op(ctx, m, dom, other(cfg["b"]))
    seed(cfg["seed"])
    src.used = []
    a = Snap(ctx, op(ctx, m, dom, cfg["a"]))
    ua, src.used = src.used, []
    b = Snap(ctx, op(ctx, m, dom, cfg["b"]))
    ctx.check(len(ua) > 0 and len(src.used) > 0, "random numbers are drawn")
    ctx.same(sorted(set(ua) & set(src.used)), [], "random numbers used a second time")
    ctx.same(len(set(ua)), len(ua), "random numbers used once in an operation")
    op(ctx, m, dom, other(cfg["a"]))
    seed(cfg["seed"])
    a.same(op(ctx, m, dom, cfg["a"]), "first operation after seeding again")
    b.same(op(ctx, m, dom, cfg["b"]), "second operation after seeding again")


def h_calm(ctx, cfg):
    m, dom, src, seed = start(ctx, cfg)
    seed(cfg["seed"])
    a1 = Snap(ctx, op(ctx, m, dom, cfg["a"]))
    a2 = Snap(ctx, op(ctx, m, dom, cfg["a"]))
    seed(cfg["seed"])
    calm(ctx, m, dom, cfg["calm"])
    a1.same(op(ctx, m, dom, cfg["a"]), f"first result with {cfg['calm']} before it")
    calm(ctx, m, dom, cfg["calm"])
    a2.same(op(ctx, m, dom, cfg["a"]), f"second result with {cfg['calm']} in between")
