"""C26: an EM step gives distributions, never lowers the likelihood, and rests where the data are reproduced."""
from ..lib import *
from ..models import *
from ..em import *
from . import c15

BOUNDS = "tables after a step: the models, data sets and sets of trainable variables of C15 (up to 4 nodes, up to 5 distinct records present any number of times, missing cells, parent configurations that no record allows), one and two steps; likelihood: networks and causal models of up to 4 variables of 2-3 states with arbitrary positive parameters (some tables fixed in the larger ones) and data sets of 2-4 records; rest: causal models of up to 5 variables with solver-chosen equations and networks with a latent root, data of exactly the model's frequencies over every record, with and without missing columns"
OUTSIDE = "likelihood on larger models, where the nonlinear queries exceed the time limit (the exact update rule is decided there by C15), symbolic multiplicities in the likelihood, records of probability zero, float rounding"
ASSUME = list(c15.ASSUME)
STUBS = list(c15.STUBS)
TIMEOUT_MS = 40000
_ = None


def fixed(name, dom, edges, exo=(), eqs=None):
    c = dict(name=name, dom=doms(dom), edges=arcs(edges))
    if exo:
        c.update(exo=list(exo), eqs=eqs)
    return c


TWO = fixed("two", "X:b U:b", "U>X", ["U"], {"X": [0, 1]})
THREE = fixed("three", "X:r U:3", "U>X", ["U"], {"X": [0, 1, 1]})
CONF = fixed("conf", "X:b Y:n U:3", "X>Y U>X U>Y", ["U"], {"X": [0, 1, 1], "Y": ["y0", "y1", "y1", "y1", "y0", "y0"]})
CONF4 = fixed("conf4", "X:b Y:n U:4", "X>Y U>X U>Y", ["U"], {"X": [0, 0, 1, 1], "Y": ["y0", "y1", "y0", "y1", "y1", "y0", "y1", "y0"]})
QUASI = fixed("quasi", "X:b Y:n U:b V:b", "X>Y U>X V>Y", ["U", "V"], {"X": [0, 1], "Y": ["y0", "y1", "y1", "y0"]})
QUASI3 = fixed("quasi3", "X:b Y:n U:b V:3", "X>Y U>X V>Y", ["U", "V"], {"X": [0, 1], "Y": ["y0", "y0", "y1", "y0", "y1", "y1"]})
BOTH = fixed("both", "X:b U:b V:b", "U>X V>X", ["U", "V"], {"X": [0, 1, 1, 1]})
ROOT = fixed("root", "A:b B:n", "A>B")
CHAIN = fixed("chain", "A:b B:n C:r", "A>B B>C")
COLL = fixed("coll", "A:b C:n B:r", "A>C B>C")
FORK = fixed("fork", "A:b B:n C:r", "A>B A>C")
H = 0.5
COLLF = dict(COLL, name="collf", fixed={"C": {0: {0: 0.25}, 1: {0: 0.75}, 2: {0: H}, 3: {0: 0.125}}})
COLLB = dict(COLL, name="collb", fixed={"B": {0: {0: 0.25}}, "C": {0: {0: 0.25}, 1: {0: H}, 3: {0: 0.75}}})
CHAINA = dict(CHAIN, name="chaina", fixed={"A": {0: {0: 0.25}}, "B": {0: {0: 0.75}, 1: {0: H}}})
FORKA = dict(FORK, name="forka", fixed={"A": {0: {0: 0.25}}, "B": {1: {0: 0.75}}, "C": {0: {0: 0.75}, 1: {0: 0.125}}})
FORKB = dict(FORK, name="forkb", fixed={"A": {0: {0: 0.25}}, "C": {0: {0: 0.375}}, "B": {0: {0: 0.75}, 1: {0: 0.125}}})
ROOTA = dict(ROOT, name="roota", fixed={"A": {0: {0: 0.25}}})

LIKE = [
    # model, columns, records, multiplicities, sets of trainable variables
    (TWO, ["X"], [[0], [1]], [1, 2], [None]), (THREE, ["X"], [[1], [0]], [1, 2], [None]), (THREE, ["X"], [[1], [0]], [3, 1], [None]),
    (CONF, ["X", "Y"], [[0, "y0"], [1, "y0"]], [1, 1], [None]), (CONF, ["Y", "X"], [["y0", 1], ["y0", _]], [1, 2], [None, ["U"]]),
    (CONF4, ["X", "Y"], [[0, "y0"], [1, "y0"], [0, "y1"]], [1, 1, 1], [None]), (CONF4, ["X"], [[0], [1]], [1, 2], [None, ["U"]]),
    (QUASI, ["X", "Y"], [[0, "y0"], [1, "y1"], [0, "y1"]], [1, 1, 1], [None, ["U"], ["V"], ["V", "U"]]),
    (QUASI3, ["X", "Y"], [[0, "y0"], [1, "y1"]], [2, 1], [None, ["V"]]), (BOTH, ["X"], [[0], [1]], [1, 1], [None, ["U"], ["V"]]),
    (ROOT, ["B"], [["b0"], ["b1"]], [1, 1], [None, ["A"], ["B"]]), (ROOT, ["A", "B"], [[0, _], [1, "b1"], [_, "b0"]], [1, 1, 1], [None, ["A"]]),
    (ROOTA, ["A", "B"], [[0, _], [1, "b1"], [_, "b0"]], [1, 1, 1], [["B"]]),
    (CHAIN, ["A", "C"], [[0, 0], [1, 1]], [1, 1], [None, ["A"], ["B"]]), (CHAINA, ["A", "C"], [[0, 0], [1, 1]], [1, 1], [["C"], ["C", "B"]]),
    (COLL, ["C", "A"], [["c0", 1], ["c1", 0]], [1, 1], [None, ["A"], ["B"], ["C"]]),
    (COLLF, ["C"], [["c0"], ["c1"]], [1, 1], [["A"], ["B"]]), (COLLB, ["C"], [["c0"], ["c1"]], [1, 1], [["C"]]),
    (FORK, ["B", "C"], [["b0", 0], ["b1", 1]], [1, 1], [None, ["A"]]), (FORKA, ["B", "C"], [["b0", 0], ["b1", 1]], [1, 1], [["B"]]),
    (FORKB, ["B", "C"], [["b0", 0], ["b1", 1]], [1, 1], [["C"]]),
]


def configs(tier):
    out, deep = [], tier == "thorough"
    for m, cols, rows, ns, trs in LIKE:
        for tr in trs:
            out.append(dict(h="h_like", cols=cols, rows=rows, ns=ns, tr=tr, **m))
            if deep:
                for k in range(len(ns)):
                    out.append(dict(h="h_like", cols=cols, rows=rows, ns=[n + (i == k) for i, n in enumerate(ns)], tr=tr, **m))
    # shapes of the tables: everything C15 steps through, and parents never seen
    for i, c in enumerate(c15.configs(tier)):
        if c["h"] == "h_step" and (deep or i % 2 == 0 or not c.get("exo")):
            out.append(dict(c, h="h_dist"))
    b3 = bn("chain3")
    for tr in (["B"], ["C"], ["A", "B", "C"], ["C", "B"]):
        out.append(dict(h="h_dist", cols=["A", "B", "C"], rows=[[0, 2, "c1"], [0, _, "c2"]], tr=tr, steps=1, **b3))
        out.append(dict(h="h_dist", cols=["A", "C"], rows=[[1, "c1"]], tr=tr, steps=1, **b3))
    out.append(dict(h="h_dist", cols=["A", "B"], rows=[[0, _], [0, "b1"]], tr=["B"], steps=2, **ROOT))
    out.append(dict(h="h_dist", cols=["A", "C"], rows=[[0, "c0"]], tr=["C"], steps=2, **COLL))
    for lay in ("first", "last", "mid"):
        out.append(dict(h="h_dist", cols=["A", "B", "D"], rows=[[1, "b2", _], [0, "b2", 1]], tr=["D"], steps=1, layout=lay, **bn("threeparents")))
    # models that reproduce the data
    for m in (TWO, THREE, CONF, CONF4, QUASI, QUASI3, BOTH):
        endo = [v for v, _s in m["dom"] if v not in m["exo"]]
        for tr in [None] + [[u] for u in m["exo"]]:
            out.append(dict(h="h_rest", cols=[endo], tr=tr, **m))
        if len(endo) > 1:
            out.append(dict(h="h_rest", cols=[endo[::-1], endo[:1]], tr=None, **m))
            out.append(dict(h="h_rest", cols=[endo[1:]], tr=m["exo"], **m))
    for i, name in enumerate(SCM):
        m = scm(name, form=("det", "tab")[i % 2])
        if len(m["dom"]) <= (6 if deep else 5):
            if len(m["dom"]) > 4:
                m["dom"] = [(v, s[:2]) for v, s in m["dom"]]
            endo = [v for v, _s in m["dom"] if v not in m["exo"]]
            out.append(dict(h="h_rest", cols=[endo], tr=None if i % 3 else m["exo"][-1:], **m))
    for tr in (None, ["A"], ["B"], ["B", "A"]):
        out.append(dict(h="h_rest", cols=[["B"]], tr=tr, **ROOT))
        out.append(dict(h="h_rest", cols=[["A", "B"]], tr=tr or ["B"], **ROOT))
        out.append(dict(h="h_rest", cols=[["A", "B"], ["A"]], tr=tr or ["B"], **ROOT))
    return out


def h_like(ctx, cfg):
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    import pandas as pd
    m, net = c15._model(ctx, cfg)
    rows, cols = [list(r) for r in cfg["rows"]], list(cfg["cols"])
    recs = [dict(zip(cols, r)) for r in rows]
    data = pd.DataFrame([r for r, n in zip(rows, cfg["ns"]) for _i in range(n)], columns=cols)
    em = ExpectationMaximization(m, trainable_vars=None if cfg["tr"] is None else list(cfg["tr"]))
    em.initialize(data)
    em.step()
    after = current(em, net)
    lik = lambda n: prod([prod([n.mass(observed(o))] * k) for o, k in zip(recs, cfg["ns"])])
    ctx.ge(lik(after), lik(net), "likelihood after a step")


def h_dist(ctx, cfg):
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    m, net = c15._model(ctx, cfg)
    data, recs, ns = data_of(ctx, cfg, net)
    tr = c15._trainable(net, recs, cfg["cols"], cfg["tr"])
    em = ExpectationMaximization(m, trainable_vars=None if cfg["tr"] is None else list(cfg["tr"]))
    em.initialize(data)
    for k in range(cfg["steps"]):
        em.step()
        for v in tr:
            pa = list(m.get_parents(v))
            f = em.model.factors[v]
            check_scope(ctx, f, OrderedDict((x, net.dom[x]) for x in [v] + pa), f"table of {v}")
            for a in space(OrderedDict((x, net.dom[x]) for x in pa)):
                ps = [f.get_value(**{**a, v: s}) for s in net.dom[v]]
                ctx.eq(total(ps), 1.0, f"step {k + 1}: P({v} | {a}) adds up to one")
                for s, p in zip(net.dom[v], ps):
                    ctx.ge(p, 0.0, f"step {k + 1}: P({v}={s} | {a})")


def h_rest(ctx, cfg):
    """Tables made of counts, so that the data hold every record exactly as often as the model expects."""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    dom = D(cfg["dom"])
    cnt, scale = {}, 1
    refs, factors = {}, {}
    from bcause.models import BayesianNetwork
    exo = cfg.get("exo")
    if exo:
        m, net = make_scm(ctx, cfg)
    for v in dom:
        pa = edges_parents(cfg["edges"], v)
        if exo and v not in exo:
            continue
        d = OrderedDict((x, dom[x]) for x in [v] + pa)
        c = {key(a): ctx.count(f"c{v}.{i}") for i, a in enumerate(space(d))}
        tot = {key(p): total([c[key({**p, v: s})] for s in dom[v]]) for p in space(OrderedDict((x, dom[x]) for x in pa))}
        cnt[v] = c, tot, pa
        ref = Ref(d, lambda a: c[key(a)] / tot[key(sub(a, pa))])
        refs[v] = ref
        factors[v] = mf(d, [ref(a) for a in space(d)], right=pa)
    if exo:
        net = Net(dom, {**net.refs, **refs})
        m = m.builder(dag=m.graph, factors={v: factors.get(v, m.factors[v]) for v in dom})
    else:
        net = Net(dom, refs)
        m = BayesianNetwork(digraph(dom, cfg["edges"]), factors)
    # times the model expects a full assignment, in whole numbers: every denominator multiplied in
    def times(a):
        out = 1
        for v in dom:
            if v in cnt:
                c, tot, pa = cnt[v]
                out = out * c[key(sub(a, [v] + pa))]
                for p, t in tot.items():
                    if p != key(sub(a, pa)):
                        out = out * t
            else:
                out = out * net.refs[v](a)
        return out
    rows, ns, cols = [], [], list(max(cfg["cols"], key=len))
    for obs in cfg["cols"]:
        for o in space(OrderedDict((v, dom[v]) for v in obs)):
            n = total([times({**o, **a}) for a in space(OrderedDict((v, s) for v, s in dom.items() if v not in o))])
            if not ctx.symbolic:
                n = round(n)
            if (n if isinstance(n, (int, float)) else n.const) == 0:
                continue
            rows.append([o.get(v) for v in cols])
            ns.append(n)
    if exo:
        for r in rows:
            ctx.assume(net.mass(observed(dict(zip(cols, r)))) != 0)
    data = ctx.frame(rows, cols, ns)
    em = ExpectationMaximization(m, trainable_vars=None if cfg["tr"] is None else list(cfg["tr"]))
    em.initialize(data)
    em.step()
    for v in dom:
        f = em.model.factors[v]
        check_scope(ctx, f, OrderedDict((x, dom[x]) for x in [v] + edges_parents(cfg["edges"], v)), f"table of {v}")
        for a in space(OrderedDict((x, dom[x]) for x in [v] + edges_parents(cfg["edges"], v))):
            ctx.eq(f.get_value(**a), net.refs[v](a), f"{v} at {a} where the data are reproduced")
