"""C15: an EM step computes exact expected-count estimates."""
from ..lib import *
from ..models import *
from ..models import _rng
from ..em import *

BOUNDS = "Bayesian networks of up to 4 and causal models of up to 3 endogenous and 3 exogenous variables of 2-3 states with arbitrary positive tables and solver-chosen equations; data sets of up to 5 distinct records, each present an arbitrary positive number of times, with latent columns, missing cells in any column, records missing entirely, and fully observed records; every set of trainable variables in several models, the default set included; models of up to 6 variables with fixed tables or equations; one step from any tables, two and three consecutive steps, a second run on the same learner, and runs with an iteration limit"
OUTSIDE = "records of probability zero, configurations of the parents that no record allows (decided by C26), four or more steps, more records, float rounding, other inference engines"
ASSUME = ["record multiplicities are positive reals; pandas selection runs for real on the distinct records"]
STUBS = ["scipy.special.rel_entr on symbolic tables: squared differences (zero in the same cases)"]
_ = None
LAT = [
    # name, model, observed columns, rows
    ("chain", bn("chain3"), ["A", "C"], [[0, "c1"], [1, "c1"], [0, "c2"]]),
    ("fork", dict(bn("fork"), dom=doms("B:s A:r C:b")), ["C", "B"], [[0, "b1"], [1, "b2"], [1, "b1"]]),
    ("collider", bn("collider"), ["C"], [[""], ["x"]]),
    ("collider2", bn("collider"), ["C", "A"], [["", 1], ["x", 1], ["x", 0]]),
    ("missing", bn("chain3"), ["A", "B", "C"], [[0, _, "c1"], [1, 2, _], [_, 1, "c2"], [_, _, _], [0, 0, "c1"]]),
    ("missing2", dict(bn("complete3"), dom=doms("C:s A:s B:e")), ["B", "A", "C"], [["", _, "c1"], ["x", "a2", _], [_, "a1", "c2"], ["x", "a1", "c1"]]),
    ("disc", bn("disconnected"), ["A", "C"], [[0, 1], [1, 2], [0, 0]]),
    ("diamond", bn("diamond"), ["D", "A"], [[0, "a1"], [1, "a2"]]),
    ("full", bn("chain3"), ["A", "B", "C"], [[0, 2, "c1"], [1, 2, "c2"], [1, 0, "c2"], [0, 1, "c1"]]),
]


def configs(tier):
    out, deep = [], tier == "thorough"
    for i, (name, m, cols, rows) in enumerate(LAT):
        m = dict(m, name=name, layout=("first", "last", "rev")[i % 3])
        names = [v for v, _s in m["dom"]]
        latent = [v for v in names if v not in cols or any(r[cols.index(v)] is None for r in rows)]
        for tr in ([None] if latent else []) + [list(s) for s in subsets(names, 1, 2 if not deep else 4)] + [names[::-1]]:
            out.append(dict(h="h_step", cols=cols, rows=rows, tr=tr, steps=1, **m))
        for n in (1, 2, 3):
            if n < len(rows):
                out.append(dict(h="h_step", cols=cols[::-1], rows=[r[::-1] for r in rows[-n:]], tr=latent or names[:1], steps=1, **m))
        if deep or i in (0, 4):
            small = dict(m, dom=[(v, [s for s in st if s in [r[cols.index(v)] for r in rows[:2]]] or st[:2]) if v in cols else (v, st[:2]) for v, st in m["dom"]])
            out.append(dict(h="h_step", cols=cols, rows=rows[:2], tr=latent[:1] or names[:1], steps=2, **small))
        out.append(dict(h="h_again", cols=cols, rows=rows[:2], rows2=rows[-2:], tr=latent[:1] or names[:1], **m))
    for i, name in enumerate(SCM):
        m = scm(name)
        if len(m["dom"]) > 4:
            m["dom"] = [(v, s[:2]) for v, s in m["dom"]]
        endo = [v for v, _s in m["dom"] if v not in m["exo"]]
        d = dict(m["dom"])
        st = lambda o: [d[v][k % len(d[v])] for v, k in zip(endo, o)]
        for rows in ([st([0, 0, 0])], [st([0, 1, 0]), st([1, 1, 1])], [st([1, 0, 1]), st([0, 0, 1]), st([0, 1, 0])])[: 3 if deep or len(m["dom"]) < 5 else 2]:
            out.append(dict(h="h_step", cols=endo, rows=rows, tr=None, steps=1, form=("det", "tab")[i % 2], **m))
            out.append(dict(h="h_step", cols=endo[::-1], rows=[r[::-1] for r in rows], tr=m["exo"][-1:], steps=1, form=("det", "tab")[i % 2], **m))
        if len(endo) > 1:
            rows = [st([0, 1, 0]), [None] + st([0, 0, 0])[1:], st([1, 1, 0])[:-1] + [None]]
            for rs in (rows[:2], rows[2:]) + ((rows,) if deep or len(m["dom"]) < 5 else ()):
                out.append(dict(h="h_step", cols=endo, rows=rs, tr=m["exo"], steps=1, form="tab", **m))
        m = dict(m, dom=[(v, [0, 1]) if v in m["exo"] else (v, s) for v, s in m["dom"]])
        if len(m["dom"]) < 5:
            out.append(dict(h="h_run", cols=endo, rows=[st([0, 0, 0]), st([1, 1, 1])], n=1, form="tab", **m))
    for s in range(40 if deep else 14):
        r = _rng(s)
        m = wide_scm(s + 700, 2 + s % 3, 1 + s % 2, free=0)
        d = dict(m["dom"])
        endo = [v for v in d if v not in m["exo"]]
        recs = []
        for _k in range(2 + s % 3):
            a = simulate(r, m)
            row = [a[v] for v in endo]
            if row not in recs:
                recs.append(row)
        out.append(dict(h="h_step", cols=endo, rows=recs, tr=(None, m["exo"][-1:])[s % 2], steps=1, form=("det", "tab")[s % 2], w=2, **m))
        miss = [[None if r(3) == 0 and isinstance(x, str) else x for x in row] for row in recs]
        out.append(dict(h="h_step", cols=endo, rows=miss, tr=m["exo"], steps=1, form="tab", w=2, **m))
        m = wide_bn(s + 800, 3 + s % 4, kinds=["s", "n", "e", "s"])
        names = [v for v, _s in m["dom"]]
        d = dict(m["dom"])
        rows = [[None if r(4) == 0 else d[v][r(len(d[v]))] for v in names] for _k in range(3)]
        out.append(dict(h="h_step", cols=names, rows=rows, tr=names[s % 3::2], steps=1, w=2, **m))
        cols = names[1:] if s % 2 else names[:-1]
        out.append(dict(h="h_step", cols=cols, rows=[[d[v][r(len(d[v]))] for v in cols] for _k in range(3)], tr=None, steps=1, w=2, **m))
    # fixed equations: several steps
    two = dict(name="steps", dom=[("X", [0, 1]), ("U", [0, 1])], edges=[("U", "X")], exo=["U"], eqs={"X": [0, 1]})
    three = dict(name="steps3", dom=[("X", [1, 0]), ("U", [0, 1, 2])], edges=[("U", "X")], exo=["U"], eqs={"X": [0, 1, 1]})
    conf = dict(name="stepsc", dom=[("X", [0, 1]), ("Y", [0, 1]), ("U", [0, 1, 2])], edges=[("U", "X"), ("X", "Y"), ("U", "Y")], exo=["U"],
                eqs={"X": [0, 1, 1], "Y": [0, 1, 1, 1, 0, 0]})
    quasi = dict(name="stepsq", dom=[("X", [0, 1]), ("Y", [0, 1]), ("U", [0, 1]), ("V", [0, 1])], edges=[("U", "X"), ("X", "Y"), ("V", "Y")], exo=["U", "V"],
                 eqs={"X": [0, 1], "Y": [0, 1, 1, 1]})
    for m, cols, rows in ((two, ["X"], [[0], [1]]), (three, ["X"], [[1], [0]]), (conf, ["X", "Y"], [[0, 0], [1, 0]]), (quasi, ["X", "Y"], [[0, 0], [1, 1], [0, 1]])):
        for n in (2, 3):
            out.append(dict(h="h_step", cols=cols, rows=rows, tr=None, steps=n, **m))
            out.append(dict(h="h_run", cols=cols, rows=rows, n=n, **m))
        out.append(dict(h="h_again", cols=cols, rows=rows, rows2=rows[:1], tr=None, **m))
    return out


def _model(ctx, cfg):
    return make_scm(ctx, cfg) if cfg.get("exo") else make_bn(ctx, cfg)


def _check(ctx, em, net, before, recs, ns, tr, msg):
    m = em.model
    ctx.same(sorted(m.graph.nodes), sorted(net.dom), msg + " nodes")
    for v in net.dom:
        pa = list(m.get_parents(v))
        f = m.factors[v]
        d = OrderedDict((x, net.dom[x]) for x in [v] + pa)
        check_scope(ctx, f, d, f"{msg} table of {v}")
        if v not in tr:
            for a in space(d):
                ctx.eq(f.get_value(**a), before.refs[v](a), f"{msg} untouched {v} at {a}")
            continue
        ctx.same(list(f.left_vars), [v], f"{msg} left side of {v}")
        ctx.same(sorted(f.right_vars), sorted(pa), f"{msg} right side of {v}")
        for a in space(d):
            if never(recs, sub(a, pa)):
                continue
            num, den = expected(before, recs, ns, v, pa, a)
            ctx.eq(f.get_value(**a), num / den, f"{msg} {v} at {a}")


def _trainable(net, recs, cols, tr):
    if tr is not None:
        return list(tr)
    return [v for v in net.dom if v not in cols or any(o[v] is None for o in recs)]


def h_step(ctx, cfg):
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    m, net = _model(ctx, cfg)
    data, recs, ns = data_of(ctx, cfg, net)
    tr = _trainable(net, recs, cfg["cols"], cfg["tr"])
    em = ExpectationMaximization(m, trainable_vars=None if cfg["tr"] is None else list(cfg["tr"]))
    em.initialize(data)
    for k in range(cfg["steps"]):
        before = current(em, net) if k else net
        em.step()
        _check(ctx, em, net, before, recs, ns, tr, f"step {k + 1}")
    for v in net.dom:
        d = OrderedDict((x, net.dom[x]) for x in m.factors[v].domain)
        check_values(ctx, m.factors[v], d, net.refs[v], f"prior model's {v}")
    ctx.same(len(em.model_evolution), cfg["steps"] + 1, "recorded models")
    ctx.check(em.model_evolution[-1] is em.model and em.prior_model is m, "evolution ends at the learnt model")


def h_again(ctx, cfg):
    """The same learner on other data starts from the prior model again."""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    m, net = _model(ctx, cfg)
    data, recs, ns = data_of(ctx, cfg, net)
    rows2 = [list(r) for r in cfg["rows2"]]
    recs2 = [dict(zip(cfg["cols"], r)) for r in rows2]
    ns2 = [ctx.count(f"k{i}") for i in range(len(rows2))]
    data2 = ctx.frame([list(r) for r in rows2], list(cfg["cols"]), ns2)
    if cfg.get("exo"):
        for o in recs2:
            ctx.assume(net.mass(observed(o)) != 0)
    tr = _trainable(net, recs, cfg["cols"], cfg["tr"])
    em = ExpectationMaximization(m, trainable_vars=tr)
    em.initialize(data)
    em.step()
    em.initialize(data2)
    em.step()
    _check(ctx, em, net, net, recs2, ns2, tr, "second run")
    ctx.same(len(em.model_evolution), 2, "recorded models")


def h_run(ctx, cfg):
    """run() makes the given number of steps, fewer only when a step changes nothing."""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    m, net = _model(ctx, cfg)
    data, recs, ns = data_of(ctx, cfg, net)
    em = ExpectationMaximization(m)
    em.run(data, max_iter=cfg["n"])
    tr = _trainable(net, recs, cfg["cols"], None)
    models = em.model_evolution
    k = len(models) - 1
    ctx.check(1 <= k <= cfg["n"], "number of steps")
    ctx.check(models[0] is m and models[-1] is em.model, "first and last recorded model")

    def as_net(x):
        return Net(net.dom, {v: Ref(x.factors[v].domain, lambda a, v=v: x.factors[v].get_value(**a)) for v in net.dom})
    nets = [net] + [as_net(x) for x in models[1:]]
    for i in range(k):
        for v in tr:
            for a in space(OrderedDict([(v, net.dom[v])])):
                num, den = expected(nets[i], recs, ns, v, [], a)
                ctx.eq(nets[i + 1].refs[v](a), num / den, f"step {i + 1} {v} at {a}")
    if k < cfg["n"]:
        for v in tr:
            for s in net.dom[v]:
                ctx.eq(nets[-1].refs[v]({v: s}), nets[-2].refs[v]({v: s}), f"stopped early though {v} still changes")
    for i in range(k if k == cfg["n"] else k - 1):
        if i + 1 < k:
            moved = total([(nets[i + 1].refs[v]({v: s}) - nets[i].refs[v]({v: s})) ** 2 for v in tr for s in net.dom[v]])
            ctx.gt(moved, 0, f"went on after step {i + 1} changed nothing")
