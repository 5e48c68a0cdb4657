"""C08: pruning and graphical independence statements are sound."""
import networkx as nx
from ..lib import *
from ..models import *

BOUNDS = "Bayesian networks with 2-5 nodes, and of 5-8 nodes with all but two tables fixed: minimalisation for every target with every evidence over up to 2 variables, barren removal for every kept set up to 2, every (target, evidence set up to 2) separation statement both ways, Markov blankets with and without hidden nodes; submodels over every ancestral set of one variable, of Bayesian networks and of causal models with up to 6 variables and equations solver-chosen among all functions; tables arbitrary positive distributions"
OUTSIDE = "larger graphs, float rounding"
NAMES = ["chain3", "fork", "collider", "colliderdesc", "diamond", "disconnected", "twopairs", "complete3", "M", "ladder", "chain5"]
SMALL = {"chain3": "A:b B:b C:b", "fork": "B:b A:b C:b", "collider": "A:b C:b B:b", "complete3": "C:b A:b B:b", "disconnected": "A:b B:b C:b"}


def configs(tier):
    out, deep = [], tier == "thorough"
    for name in NAMES:
        c = bn(name)
        names = [v for v, _ in c["dom"]]
        for t in names:
            for ev in subsets([v for v in names if v != t], 0, 3 if deep else 2):
                o = {v: dict(c["dom"])[v][0] for v in ev}
                out.append(dict(h="h_minimal", t=[t], ev=o, **c))
        out.append(dict(h="h_minimal", t=[names[0], names[-1]], ev={names[1]: dict(c["dom"])[names[1]][-1]} if len(names) > 2 else {}, **c))
        for S in subsets(names, 0, 2):
            out.append(dict(h="h_barren", S=S, **c))
        c["dom"] = doms(SMALL[name]) if name in SMALL else [(v, [0, 1]) for v in names]
        for t in names:
            for ev in subsets([v for v in names if v != t], 0, 3 if deep else 2):
                out.append(dict(h="h_dsep", t=t, ev=ev, **c))
            out.append(dict(h="h_blanket", t=t, **c))
            for hid in subsets([v for v in names if v != t], 1, 2 if deep else 1):
                out.append(dict(h="h_hidden", t=t, hid=hid, **c))
        out.append(dict(h="h_submodel", **c))
    for n, name in enumerate(SCM):
        c = scm(name)
        if len(c["dom"]) > 5:
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        for form in ("det", "tab") if n % 2 else ("tab", "mix"):
            out.append(dict(h="h_submodel_scm", form=form, cast=n % 3 > 0, vtype=STORES[n % 4] if n % 2 else None, **c))
    for i, c in enumerate(list(all_scms(2, 1)) + list(all_scms(2, 2))[::3]):
        out.append(dict(h="h_submodel_scm", form=("det", "tab", "mix")[i % 3], cast=i % 2 == 0, **c))
    c = dict(dom=doms("X:b Y:s U:b"), edges=arcs("X>Y U>Y"), exo=["U"], endo=["Y", "X"], name="rootendo")
    out.append(dict(h="h_submodel_scm", form="tab", cast=True, **c))
    for i, es in enumerate(all_dags(3)):
        c = dag_bn(3, i, es)
        names = [v for v, _ in c["dom"]]
        for t in names:
            for ev in subsets([v for v in names if v != t], 0, 2):
                out.append(dict(h="h_minimal", t=[t], ev={v: dict(c["dom"])[v][-1] for v in ev}, **c))
    for i, es in enumerate(all_dags(4)):
        c = dag_bn(4, i, es)
        c["dom"] = [(v, [0, 1]) for v, s in c["dom"]]
        names = [v for v, _ in c["dom"]]
        qs = [(t, ev) for t in names for ev in subsets([v for v in names if v != t], 0, 2)]
        for k, (t, ev) in enumerate(qs):
            if (k + i) % (7 if deep else 28) == 0:
                out.append(dict(h="h_dsep", t=t, ev=ev, **c))
            if (k + i) % (7 if deep else 56) == 1:
                out.append(dict(h="h_minimal", t=[t], ev={v: 0 for v in ev}, **c))
        if deep or i % 5 == 0:
            out.append(dict(h="h_blanket", t=names[i % 4], **c))
            out.append(dict(h="h_barren", S=[names[i % 4], names[(i // 4) % 4]] if i % 4 != (i // 4) % 4 else [names[i % 4]], **c))
    for s in range(40 if deep else 14):
        c = wide_bn(s + 200, 5 + s % 4)
        for t, o in some_queries(s, c["dom"], 10 if deep else 6):
            out.append(dict(h="h_minimal", t=t, ev=o, w=2, **c))
        for S, _ in some_queries(s + 50, c["dom"], 4, maxt=3):
            out.append(dict(h="h_barren", S=S, w=2, **c))
        c = wide_bn(s + 300, 5 + s % 4, kinds=["b", "s", "r", "e"])
        for t, o in some_queries(s, c["dom"], 8 if deep else 5, maxt=1, maxev=4):
            out.append(dict(h="h_dsep", t=t[0], ev=list(o), w=2, **c))
        if s % 4 < 2:
            for v, _ in c["dom"][:3]:
                out.append(dict(h="h_blanket", t=v, w=2, **c))
        for t, o in some_queries(s + 7, c["dom"], 3, maxt=1, maxev=2):
            out.append(dict(h="h_hidden", t=t[0], hid=list(o), w=2, **c))
    return out


def brute(m, t, ev):
    """Unnormalised posterior of t from the factors of a (possibly simplified) model."""
    dom = OrderedDict()
    for f in m.factors.values():
        for v, s in f.domain.items():
            dom.setdefault(v, list(s))
    free = OrderedDict((v, s) for v, s in dom.items() if v not in ev and v not in t)

    def val(a):
        fixed = {**{v: x for v, x in ev.items() if v in dom}, **a}
        return total([prod([f.get_value(**{v: {**b, **fixed}[v] for v in f.domain}) for f in m.factors.values()]) for b in space(free)])
    return dom, val


def h_minimal(ctx, cfg):
    from bcause.models.transform.simplification import minimalize
    m, net = make_bn(ctx, cfg)
    t, ev = cfg["t"], cfg["ev"]
    s = minimalize(m, t if len(t) > 1 else t[0], dict(ev))
    ctx.check(set(t) <= set(s.graph.nodes), "targets kept")
    ctx.same(sorted(s.factors), sorted(s.graph.nodes), "one factor per node")
    dom, val = brute(s, t, ev)
    d = OrderedDict((v, net.dom[v]) for v in t)
    z = total([val(a) for a in space(d)])
    den = net.mass(ev)
    for a in space(d):
        ctx.eq(val(a) / z, net.mass({**a, **ev}) / den, f"posterior of {t} at {a}")


def h_barren(ctx, cfg):
    from bcause.util.graphutils import barren_removal, barren_nodes
    m, net = make_bn(ctx, cfg)
    S = cfg["S"]
    g = barren_removal(m.graph, S)
    b = barren_nodes(m.graph, S)
    ctx.same(sorted(set(g.nodes) | set(b)), sorted(net.dom), "kept and removed cover the nodes")
    ctx.check(set(g.nodes).isdisjoint(b), "kept and removed are disjoint")
    ctx.check(set(S) <= set(g.nodes), "the given nodes are kept")
    d = OrderedDict((v, net.dom[v]) for v in net.dom if v in g.nodes)
    for v in d:
        ctx.same(sorted(g.predecessors(v)), sorted(m.graph.predecessors(v)), f"parents of {v} kept")
    for a in space(d):
        ctx.eq(prod([net.refs[v](a) for v in d]), net.mass(a), f"joint of the rest at {a}")


def pairs_indep(net, t, v, z):
    """P(t,v,z) P(z) = P(t,z) P(v,z) at every state."""
    d = OrderedDict((x, net.dom[x]) for x in [t, v] + list(z))
    return [(net.mass(a) * net.mass(sub(a, z)), net.mass(sub(a, [t] + list(z))) * net.mass(sub(a, [v] + list(z))), a) for a in space(d)]


def h_dsep(ctx, cfg):
    from bcause.util.graphutils import dsep_nodes, dcon_nodes
    m, net = make_bn(ctx, cfg)
    t, ev = cfg["t"], cfg["ev"]
    sep = dsep_nodes(m.graph, t, ev)
    con = dcon_nodes(m.graph, t, ev)
    for v in net.dom:
        if v == t:
            continue
        z = [x for x in ev if x != v]
        ctx.check((v in sep) != (v in con), f"{v} is either separated or connected")
        ps = pairs_indep(net, t, v, z)
        if v in sep:
            for x, y, a in ps:
                ctx.eq(x, y, f"{t} independent of {v} given {z} at {a}")
        else:
            ctx.any_differs([(x, y) for x, y, a in ps], f"{t} depends on {v} given {z}")


def shield(ctx, net, t, mb, rest, msg):
    d = OrderedDict((v, net.dom[v]) for v in [t] + mb + rest)
    if not rest:
        return
    for a in space(d):
        ctx.eq(net.mass(a) * net.mass(sub(a, mb)), net.mass(sub(a, [t] + mb)) * net.mass(sub(a, mb + rest)), f"{msg} at {a}")


def h_blanket(ctx, cfg):
    from bcause.util.graphutils import markov_blanket
    m, net = make_bn(ctx, cfg)
    t = cfg["t"]
    mb1, mb2 = sorted(m.markov_blanket(t)), sorted(markov_blanket(m.graph, t))
    ctx.check(t not in mb1 and t not in mb2, "not in its own blanket")
    for mb in {tuple(mb1), tuple(mb2)}:
        mb = list(mb)
        shield(ctx, net, t, mb, [v for v in net.dom if v != t and v not in mb], f"blanket {mb} shields {t}")
        # minimality: every member matters given the others
        for v in mb:
            ps = pairs_indep(net, t, v, [x for x in net.dom if x not in (t, v)])
            ctx.any_differs([(x, y) for x, y, _ in ps], f"{v} matters for {t} given all others")


def h_hidden(ctx, cfg):
    from bcause.util.graphutils import markov_blanket
    m, net = make_bn(ctx, cfg)
    t, hid = cfg["t"], cfg["hid"]
    mb = [v for v in sorted(markov_blanket(m.graph, t, hid)) if v not in hid]
    ctx.check(t not in mb, "not in its own blanket")
    rest = [v for v in net.dom if v != t and v not in mb and v not in hid]
    shield(ctx, net, t, mb, rest, f"observed blanket {mb} shields {t}")


def h_submodel(ctx, cfg):
    """The submodel over an ancestral set is the marginal of the model."""
    m, net = make_bn(ctx, cfg)
    for v in net.dom:
        anc = [x for x in net.dom if x == v or x in nx.ancestors(m.graph, v)]
        s = m.submodel(anc)
        ctx.same(sorted(s.variables), sorted(anc), "submodel variables")
        for a in space(OrderedDict((x, net.dom[x]) for x in anc)):
            ctx.eq(prod([f.get_value(**sub(a, f.domain)) for f in s.factors.values()]), net.mass(a), f"submodel {anc} at {a}")


def h_submodel_scm(ctx, cfg):
    """The submodel over an ancestral set of a causal model keeps roles, arcs and mechanisms."""
    from .c09 import check_mechanisms
    m, net = make_scm(ctx, cfg, cast=cfg["cast"])
    endo = list(m.endogenous)
    sets = [[x for x in net.dom if x == v or x in nx.ancestors(m.graph, v)] for v in net.dom]
    sets += [[x for x in net.dom if any(x == v or x in nx.ancestors(m.graph, v) for v in vs)] for vs in (list(net.dom)[:2], list(net.dom)[-2:])]
    sets += [list(reversed(sets[0])), list(net.dom)]
    for anc in sets:
        s = m.submodel(list(anc))
        ctx.same(sorted(s.variables), sorted(anc), "submodel variables")
        ctx.same(sorted(s.factors), sorted(anc), "one factor per variable")
        ctx.same(sorted(s.graph.edges), sorted(e for e in m.graph.edges if e[0] in anc and e[1] in anc), "submodel arcs")
        ctx.same(sorted(s.endogenous), sorted(v for v in anc if v in endo), f"endogenous in {anc}")
        ctx.same(sorted(s.exogenous), sorted(v for v in anc if v not in endo), f"exogenous in {anc}")
        check_mechanisms(ctx, s, OrderedDict((v, net.dom[v]) for v in anc), net.refs, f"submodel {anc}")
    # the original is untouched
    ctx.same(sorted(m.endogenous), sorted(endo), "original endogenous")
    ctx.same(sorted(m.graph.nodes), sorted(net.dom), "original nodes")
    check_mechanisms(ctx, m, net.dom, net.refs, "original")
