"""C12: the c-component factorisation reproduces the observational distribution."""
import itertools
import networkx as nx
from ..lib import *
from ..models import *

BOUNDS = "structural causal models with up to 5 endogenous and 3 exogenous variables of 2-3 states (all structures over up to 3 ordered endogenous and 2 exogenous variables; thorough: 4 endogenous; Markovian, confounded chains, overlapping and interleaved components, variables without exogenous parent, exogenous variables without children, 3-6 endogenous and 2-3 exogenous variables with fixed equations), equations solver-chosen among all functions"
OUTSIDE = "larger models, impossible conditions, float rounding"
MORE = {
    "interleaved": ("A:b B:b C:b D:b U:b V:b", "A>B B>C C>D U>A U>C V>B V>D", "U V"),
    "cycleprone": ("A:b B:b C:b D:b U:b V:b", "A>B C>D U>A U>D V>B V>C", "U V"),
    "cycleprone2": ("D:b C:b B:b A:b U:b V:b", "A>B C>D U>A U>D V>B V>C", "U V"),
    "noexoroot": ("X:b Y:b Z:s U:b", "X>Y Y>Z U>X", "U"),
    "childless": ("X:b Y:s U:b V:3", "X>Y U>X U>Y", "U V"),
    "chainU": ("A:b B:b C:b U:b V:b", "U>A U>B V>B V>C A>C", "U V"),
    "fiveendo": ("A:b B:b C:b D:b E:b U:b V:b", "A>B B>C C>D D>E U>A U>C V>B V>E", "U V"),
    "outfirst": ("D:b A:b B:b C:b U:b V:b", "D>A A>C U>A U>B U>C V>D", "U V"),
    "outmid": ("C:b B:b D:b A:b U:3 V:b", "D>B A>B B>C U>A U>B U>C V>D", "U V"),
    "outlate": ("A:b B:b C:b D:b U:b V:b", "A>D D>C B>D U>A U>B U>C V>D", "U V"),
    "sinkfirst": ("Z:b Y:b X:b U:b V:b", "X>Y Y>Z X>Z U>Z U>X V>Y", "U V"),
}


# components of four and more endogenous variables with parents outside, all but two equations fixed
LONG = {
    "fourout": ("E:b A:b B:b C:b D:b U:b V:b", "E>A A>B B>C C>D U>A U>B U>C U>D V>E", "U V", "AE"),
    "fourout2": ("D:b C:b B:b A:b E:b U:b V:b W:b", "E>B A>B B>C C>D U>A U>C U>D V>B V>C W>E", "U V W", "BE"),
    "fourout3": ("A:b E:b B:b F:b C:b D:b U:b V:b", "E>A F>B A>C B>C C>D E>F U>A U>B U>C U>D V>E", "U V", "DF"),
    "fourend": ("A:b B:b C:b D:b E:b U:3 V:b", "A>B B>C A>D D>E C>E U>A U>B U>C U>D V>E", "U V", "AD"),
    "fiveout": ("E:b A:b B:b C:b D:b F:b U:b V:b", "E>A A>B B>C C>D D>F E>D U>A U>B U>C U>D U>F V>E", "U V", "E"),
}


def long_models():
    for name, (d, e, x, free) in LONG.items():
        c = dict(name=name, dom=doms(d), edges=arcs(e), exo=x.split(), eqs={})
        D = dict(c["dom"])
        for i, (v, s) in enumerate(c["dom"]):
            if v not in c["exo"] and v not in free:
                par = edges_of(c["edges"], v)
                c["eqs"][v] = [s[(sum((j + 1) * D[p].index(y) for j, (p, y) in enumerate(zip(par, cf))) // (1 + i % 2) + i) % 2] for cf in itertools.product(*[D[p] for p in par])]
        yield c


def configs(tier):
    out = []
    allm = {**SCM, **MORE}
    for name, (d, e, x) in allm.items():
        big = len(d.split()) > 5
        c = dict(name=name, dom=doms(d), edges=arcs(e), exo=x.split())
        if big:
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        if name == "fiveendo" and tier == "quick":
            out.append(dict(h="h_components", form="tab", **c))
            continue
        for form in ("det", "tab") if not big or tier == "thorough" else ("tab",):
            out.append(dict(h="h_components", form=form, **c))
            out.append(dict(h="h_factorisation", form=form, w=5 if big else 1, **c))
    c = dict(dom=doms("X:b Y:s U:b"), edges=arcs("X>Y U>Y"), exo=["U"], endo=["X", "Y"], name="rootendo", form="tab")
    out += [dict(h="h_components", **c), dict(h="h_factorisation", **c)]
    for k, (ne, nx_) in enumerate([(2, 1), (2, 2), (3, 1), (3, 2)] + ([(3, 3), (4, 2)] if tier == "thorough" else [])):
        for i, c in enumerate(all_scms(ne, nx_, rev=False)):
            if (ne, nx_) in ((4, 2), (3, 3)) and i % 7:
                continue
            if i % 2:
                c["dom"] = c["dom"][:ne][::-1] + c["dom"][ne:]
            out.append(dict(h="h_components", form="tab", **c))
            if tier == "thorough" or ne + nx_ < 5 or i % 3 == 0:
                out.append(dict(h="h_factorisation", form=("tab", "det")[i % 2], **c))
    for n, c in enumerate(all_scms(4, 1)):
        if tier == "quick" and n % 3:
            continue
        c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        if n % 2:
            c["dom"] = c["dom"][:4][::-1] + c["dom"][4:]
        out.append(dict(h="h_components", form="tab", **c))
        out.append(dict(h="h_factorisation", form=("tab", "det")[n % 2], **c))
    for n, c in enumerate(all_scms(4, 2)):
        if tier == "quick" and n % 29 == 0:
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
            eqs = {}
            for k, (v, s) in enumerate(c["dom"][:4]):
                par = [dict(c["dom"])[p] for p in edges_of(c["edges"], v)]
                eqs[v] = [s[(sum((j + 2) * x.index(y) for j, (x, y) in enumerate(zip(par, cf))) // 2 + k + n) % 2] for cf in itertools.product(*par)]
            out.append(dict(h="h_factorisation", form=("tab", "det")[n % 2], eqs=eqs, w=2, **c))
    for i, c in enumerate(long_models()):
        out.append(dict(h="h_components", form="tab", w=2, **c))
        out.append(dict(h="h_factorisation", form=("tab", "det")[i % 2], w=4, **c))
    for s in range(60 if tier == "thorough" else 30):
        c = wide_scm(s + 60, 3 + s % 4, 2 + s % 2, free=0)
        out.append(dict(h="h_components", form="tab", w=2, **c))
        if len(c["dom"]) <= 7:
            out.append(dict(h="h_factorisation", form=("tab", "det")[s % 2], w=3, **c))
    for name in ("one", "markov2", "confounded", "noexo"):
        c = scm(name)
        c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        out.append(dict(h="h_factorisation", form="tab", exact=True, **c))
    return out


def ref_components(dom, edges, exo):
    """Endogenous variables linked by chains of shared exogenous parents."""
    comp = {v: {v} for v in dom}
    ch = True
    while ch:
        ch = False
        for u, v in edges:
            if u in exo and comp[u] is not comp[v]:
                new = comp[u] | comp[v]
                for w in new:
                    comp[w] = new
                ch = True
    return comp


def h_components(ctx, cfg):
    m, net = make_scm(ctx, cfg)
    endo = set(m.endogenous)
    comp = ref_components(net.dom, cfg["edges"], cfg["exo"])
    cc = [set(c) for c in m.ccomponents]
    ctx.same(sorted(x for c in cc for x in c), sorted(net.dom), "components partition the variables")
    for c in cc:
        for v in c:
            ctx.same(sorted(c), sorted(comp[v]), f"component of {v}")
    ctx.same(sorted(x for c in m.endo_ccomponents for x in c), sorted(endo), "endogenous components partition the endogenous variables")
    ctx.same(sorted(x for c in m.exo_ccomponents for x in c), sorted(set(net.dom) - endo), "exogenous components partition the exogenous variables")
    for v in net.dom:
        ctx.same(sorted(m.get_ccomponent(v)), sorted(comp[v]), f"get_ccomponent {v}")
        ctx.same(sorted(m.get_endo_ccomponent(v)), sorted(comp[v] & endo), f"get_endo_ccomponent {v}")
        ctx.same(sorted(m.get_exo_ccomponent(v)), sorted(comp[v] - endo), f"get_exo_ccomponent {v}")
    for x, y in zip(m.endo_ccomponents, m.exo_ccomponents):
        if x and y:
            ctx.same(sorted(set(x) | set(y)), sorted(comp[next(iter(x))]), "components listed alongside")
    q = m.qgraph
    ctx.check(nx.is_directed_acyclic_graph(q), "acyclic")
    ctx.same(sorted(q.nodes), sorted(endo), "nodes of the factorisation graph")


def h_factorisation(ctx, cfg):
    m, net = make_scm(ctx, cfg)
    endo = [v for v in net.dom if v in m.endogenous]
    d = OrderedDict((v, net.dom[v]) for v in endo)
    q = m.qgraph
    ctx.check(nx.is_directed_acyclic_graph(q), "acyclic")
    fs = m.get_qfactorisation()
    ctx.same(sorted(fs), sorted(endo), "one factor per endogenous variable")
    for v in endo:
        pa = sorted(q.predecessors(v))
        dv = OrderedDict((x, net.dom[x]) for x in [v] + pa)
        check_scope(ctx, fs[v], dv, f"factor of {v}")
        ctx.same(sorted(fs[v].right_vars), pa, f"conditions of {v}")
        for a in space(dv):
            den = net.mass(sub(a, pa))
            if not ctx.iszero(den):
                ctx.eq(fs[v].get_value(**a), net.mass(a) / den, f"factor of {v} at {a}")
    bn = m.get_qbnet()
    ctx.same(sorted(bn.graph.edges), sorted(q.edges), "network arcs")
    for a in space(d):
        ref = net.mass(a)
        ctx.eq(prod([fs[v].get_value(**sub(a, fs[v].domain)) for v in endo]), ref, f"product at {a}")
        ctx.eq(prod([f.get_value(**sub(a, f.domain)) for f in bn.factors.values()]), ref, f"network at {a}")
    for v in endo[:2]:
        for x, f in m.get_qfactors(v).items():
            for a in space(OrderedDict((y, net.dom[y]) for y in f.domain)):
                ctx.eq(f.get_value(**a), fs[x].get_value(**a), f"get_qfactors {v}: {x} at {a}")
