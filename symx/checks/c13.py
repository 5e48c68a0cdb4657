"""C13: probabilities and log-likelihoods of data."""
from ..lib import *
from ..models import *
from ..models import _rng

BOUNDS = "Bayesian networks and causal models with up to 4 (network; 8 with all but two tables fixed) or 3 endogenous and 3 exogenous (causal; 4 and 2 with all but one equation fixed) variables of 1-3 states, data sets of up to 12 records over the variables (repeated records, any order of records and columns, columns beyond the model's), tables arbitrary positive distributions, equations solver-chosen; all-variable and selected-variable log-probabilities; maximum log-likelihood with arbitrary record frequencies"
OUTSIDE = "causal models kept with function equations (not cast to tables), records of probability zero, float rounding, larger data sets"


def pick(dom, names, seqs):
    """Records (dicts) from a list of state-index lists."""
    return [{v: dict(dom)[v][i % len(dict(dom)[v])] for v, i in zip(names, s)} for s in seqs]


SEQ = [[0] * 6, [1] * 6, [0, 1, 2, 0, 1, 1], [1, 0, 1, 1, 0, 0], [0] * 6, [2, 1, 0, 1, 1, 0]]


def configs(tier):
    out, deep = [], tier == "thorough"
    for i, name in enumerate(["single", "chain3", "collider", "diamond", "disconnected", "isolated", "complete3", "threeparents", "fork"]):
        for k, lay in enumerate(("first", "last", "rev") if deep else (("first", "last", "rev")[i % 3],)):
            c = bn(name, layout=lay)
            names = [v for v, _ in c["dom"]]
            for n in (1, 2, 4):
                out.append(dict(h="h_prob", rows=SEQ[i % 3:i % 3 + n], order=("fwd", "rev")[(i + n) % 2], **c))
            for vs in subsets(names, 1, len(names)):
                out.append(dict(h="h_logprob", rows=SEQ[:3], vs=list(reversed(vs)), order="rev", **c))
    for i, name in enumerate(SCM):
        c = scm(name)
        if len(c["dom"]) > 5:
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        endo = [v for v, _ in c["dom"] if v not in c["exo"]]
        out.append(dict(h="h_ll", rows=SEQ[:2], cols=endo, form=("det", "tab")[i % 2], **c))
        out.append(dict(h="h_ll", rows=[SEQ[2], SEQ[0], SEQ[2]] if len(c["dom"]) <= 4 else [SEQ[3], SEQ[3]], cols=list(reversed(endo)), form=("tab", "det")[i % 2], **c))
        if len(c["dom"]) <= 4:
            out.append(dict(h="h_ll", rows=[SEQ[0], SEQ[2], SEQ[2]], cols=endo, form="tab", **c))
        if len(c["dom"]) <= 2:
            out.append(dict(h="h_ll", rows=[SEQ[2], SEQ[1], SEQ[1], SEQ[0], SEQ[0], SEQ[0]], cols=endo, form="tab", **c))
        for v in endo:
            out.append(dict(h="h_ll", rows=SEQ[:2], cols=endo, vs=[v], form="tab", **c))
        out.append(dict(h="h_maxll", rows=SEQ[:4], cols=list(reversed(endo)), form="tab", **c))
        out.append(dict(h="h_maxll", rows=[SEQ[1], SEQ[2], SEQ[5]], cols=endo, form="det", **c))
        out.append(dict(h="h_prob", rows=SEQ[:3], order="fwd", scm=True, form=("tab", "det")[i % 2], cast=True, **c))
    for i, es in enumerate(all_dags(3)):
        out.append(dict(h="h_prob", rows=SEQ[:4], order="rev", layout=("first", "last", "rev")[i % 3], **dag_bn(3, i, es)))
        out.append(dict(h="h_logprob", rows=SEQ[1:3], vs=["CAB"[i % 3], "ABC"[i % 3]] if i % 3 else ["B"], order="fwd", **dag_bn(3, i, es)))
    for s in range(40 if deep else 14):
        c = wide_bn(s + 400, 4 + s % 5)
        r = _rng(s)
        rows = [[r(6) for _ in c["dom"]] for _ in range(1 + s % 4 * 3)]
        out.append(dict(h="h_prob", rows=rows + rows[:2], order=("fwd", "rev")[s % 2], w=2, **c))
        out.append(dict(h="h_logprob", rows=rows[:4], vs=[v for v, _ in c["dom"]][s % 3::2], order=("rev", "fwd")[s % 2], w=2, **c))
        c = wide_scm(s + 600, 2 + s % 3, 2)
        d = dict(c["dom"])
        endo = [v for v in d if v not in c["exo"]]
        ws = [simulate(r, c) for _ in range(3 + s % 3)]
        rows = [[d[v].index(a[v]) for v in endo] for a in ws]
        out.append(dict(h="h_ll", rows=rows + rows[-1:], cols=endo, form=("tab", "det")[s % 2], w=3, **c))
        out.append(dict(h="h_ll", rows=rows, cols=endo, vs=endo[s % 2::2][::-1], form="tab", w=3, **c))
        out.append(dict(h="h_maxll", rows=rows, cols=endo, form="tab", w=2, **c))
    return out


def h_prob(ctx, cfg):
    m, net = (make_scm if cfg.get("scm") else make_bn)(ctx, cfg)
    names = list(net.dom)
    if cfg["order"] == "rev":
        names = names[::-1]
    obs = pick(cfg["dom"], names, cfg["rows"])
    p = list(m.prob(obs))
    ctx.same(len(p), len(obs), "one probability per record")
    for i, o in enumerate(obs):
        ctx.eq(p[i], net.joint(o), f"probability of record {i}")
    for v in net.dom:
        q = list(m.factors[v].prob(obs))
        for i, o in enumerate(obs):
            ctx.eq(q[i], net.refs[v](o), f"entry of {v} at record {i}")


def h_logprob(ctx, cfg):
    m, net = make_bn(ctx, cfg)
    names = list(net.dom)
    if cfg["order"] == "rev":
        names = names[::-1]
    obs = pick(cfg["dom"], names, cfg["rows"])
    for vs in (None, cfg["vs"]):
        l = list(m.log_prob(obs) if vs is None else m.log_prob(obs, list(vs)))
        ctx.same(len(l), len(obs), "one value per record")
        for i, o in enumerate(obs):
            ctx.eq(l[i], ctx.log(prod([net.refs[v](o) for v in (vs or net.dom)])), f"log-probability of record {i} over {vs}")
    for v in net.dom:
        l = m.factors[v].log_prob(obs)
        for i, o in enumerate(obs):
            ctx.eq(l[i], ctx.log(net.refs[v](o)), f"log entry of {v} at record {i}")


def h_ll(ctx, cfg):
    import pandas as pd
    m, net = make_scm(ctx, cfg)
    obs = pick(cfg["dom"], cfg["cols"], cfg["rows"])
    data = pd.DataFrame(obs, columns=cfg["cols"], index=range(len(obs) + 2, 2, -1))
    q = m.qgraph
    def term(v, o):
        pa = list(q.predecessors(v))
        return net.mass(sub(o, [v] + pa)) / net.mass(sub(o, pa))
    for o in obs:
        ctx.assume(net.mass(o) != 0)
    vs = cfg.get("vs")
    if vs is None:
        got = m.log_likelihood(data)
        ctx.eq(got, ctx.log(prod([net.mass(o) for o in obs])), "log-likelihood")
    else:
        got = m.log_likelihood(data, variables=list(vs))
        ctx.eq(got, ctx.log(prod([term(v, o) for o in obs for v in vs])), f"log-likelihood of {vs}")


def h_maxll(ctx, cfg):
    m, net = make_scm(ctx, cfg)
    cols = cfg["cols"]
    recs = []
    for o in pick(cfg["dom"], cols, cfg["rows"]):
        if o not in recs:
            recs.append(o)
    ns = [ctx.count(f"n{i}") for i in range(len(recs))]
    data = ctx.frame([[o[v] for v in cols] for o in recs], cols, ns)
    q = m.qgraph

    def freq(part):
        return total([n for o, n in zip(recs, ns) if all(o[v] == s for v, s in part.items())])
    # where records carry multiplicities they are listed once each, weighted only where they are counted
    listed = recs if ctx.weighted else data.to_dict("records")
    terms = [freq(sub(o, [v] + list(q.predecessors(v)))) / freq(sub(o, list(q.predecessors(v)))) for o in listed for v in cols]
    want = ctx.log(prod(terms)) if ctx.symbolic else sum(map(ctx.log, terms))
    ctx.eq(m.max_log_likelihood(data), want, "maximum log-likelihood")
    fs = m.get_qfactorisation(data)
    for v in cols:
        pa = list(q.predecessors(v))
        for o in recs:
            ctx.eq(fs[v].get_value(**sub(o, [v] + pa)), freq(sub(o, [v] + pa)) / freq(sub(o, pa)), f"empirical frequency of {v} at {o}")
