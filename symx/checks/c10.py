"""C10: counterfactual queries share the background across worlds."""
from ..lib import *
from ..models import *

BOUNDS = "structural causal models with up to 3 endogenous and 3 exogenous variables of 2-3 states, equations solver-chosen among all functions, given as functions or 0/1 tables; models of 2-5 endogenous and 2 exogenous variables with all but one equation fixed; one to four hypothetical worlds with single, joint or empty interventions (leaf, root, middle variables), targets from any world (also the same variable in several worlds), factual evidence over up to 2 variables (endogenous or exogenous, also the intervened variable and the target)"
OUTSIDE = "larger models; evidence of probability zero; float rounding"


def queries(c, deep):
    dom = dict(c["dom"])
    endo = [v for v in dom if v not in c["exo"]]
    exo = c["exo"]
    f = lambda v: dom[v][0]
    l = lambda v: dom[v][-1]
    evs = [{}] + [{v: s} for v in endo for s in dom[v]] + [{v: f(v), w: l(w)} for v in endo for w in endo if v < w] + [{u: l(u)} for u in exo[:1]]
    # one world
    for x in endo:
        for s in dom[x]:
            for t in endo:
                if t != x:
                    for ev in evs:
                        yield dict(t=t, do={x: s}, ev=ev, ts=None)
    # targets from the shared background
    if len(endo) > 1:
        a, b = endo[0], endo[-1]
        for ev in evs:
            yield dict(t=[b], do=[{a: f(a)}], ev=ev, ts=[1])
            yield dict(t=[b, b], do=[{a: f(a)}, {a: l(a)}], ev=ev, ts=[1, 2])
            yield dict(t=[b, b], do=[{a: f(a)}, {a: l(a)}], ev=ev, ts=[2, 1])
            yield dict(t=[a, b], do=[{b: f(b)}, {a: l(a)}], ev=ev, ts=[1, 2])
            yield dict(t=[b], do=[{a: f(a)}, {a: l(a)}], ev=ev, ts=[2])
            yield dict(t=[b], do=[{a: l(a)}, {a: f(a)}], ev=ev, ts=None)
        for m in endo[1:-1]:
            for ev in evs:
                yield dict(t=[b, m], do={a: f(a)}, ev=ev, ts=None)
                yield dict(t=[m, b], do=[{a: f(a)}, {a: l(a)}], ev=ev, ts=None)
                yield dict(t=[b], do={a: f(a), m: l(m)}, ev=ev, ts=None)
                yield dict(t=[b, m], do=[{a: f(a), m: l(m)}, {a: l(a)}], ev=ev, ts=[1, 2])
        if deep:
            yield dict(t=[b, b, b], do=[{a: f(a)}, {a: l(a)}, {a: f(a)}], ev={}, ts=[1, 2, 3])
            yield dict(t=[b, b], do=[{a: f(a)}, {a: l(a)}, {a: f(a)}], ev={b: f(b)}, ts=[3, 1])


def many_worlds(c):
    """Three or four worlds with different interventions; targets from the later ones."""
    dom = dict(c["dom"])
    endo = [v for v in dom if v not in c["exo"]]
    a, b = endo[0], endo[-1]
    f, l = {v: dom[v][0] for v in endo}, {v: dom[v][-1] for v in endo}
    yield dict(t=[b], do=[{a: f[a]}, {a: f[a]}, {a: l[a]}], ev={}, ts=[3])
    yield dict(t=[b], do=[{a: f[a]}, {b: l[b]}, {a: l[a]}], ev={b: f[b]}, ts=[3])
    yield dict(t=[b, b], do=[{a: l[a]}, {a: l[a]}, {a: f[a]}], ev={a: l[a]}, ts=[1, 3])
    yield dict(t=[b, b, b], do=[{a: f[a]}, {a: l[a]}, {}], ev={}, ts=[1, 2, 3])
    yield dict(t=[b, a], do=[{a: f[a]}, {b: l[b]}, {b: f[b]}], ev={b: l[b]}, ts=[1, 3])
    yield dict(t=[b], do=[{a: f[a]}, {a: f[a]}, {a: f[a]}, {a: l[a]}], ev={b: f[b]}, ts=[4])
    yield dict(t=[a, b], do=[{b: f[b]}, {}, {a: l[a]}, {a: f[a]}], ev={}, ts=[2, 4])


def configs(tier):
    out, deep = [], tier == "thorough"
    for name in SCM:
        c = scm(name)
        big = len(c["dom"]) > 5
        if big or (name == "iv" and not deep):
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        qs = list(queries(c, True))
        keep = (150 if big else 400) if deep else (25 if big else 45)
        st = max(1, len(qs) // keep)
        for i, q in enumerate(qs):
            two = isinstance(q["t"], list) and len(q["t"]) > 1
            if i % st == 0 or (two and not big and i % 2 == 0):
                if len(q["t"]) > 2 and big:
                    continue
                out.append(dict(h="h_query", form=("det", "tab", "mix")[i % 3], layout=("first", "last")[i % 2], w=3 if big else 1, **q, **c))
    for name in ("confounded", "markov2"):
        c = scm(name)
        c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        for i, q in enumerate(queries(c, True)):
            if q["ev"] and (deep or i % 4 == 0):
                out.append(dict(h="h_query", exact=True, form="det", **q, **c))
    c = dict(dom=doms("X:b Y:s U:b"), edges=arcs("X>Y U>Y"), exo=["U"], endo=["X", "Y"], name="rootendo")
    for i, q in enumerate(queries(c, False)):
        if i % 2 == 0:
            out.append(dict(h="h_query", form="tab", **q, **c))
    # three and four worlds
    for name in ("confounded", "markov2", "noexo", "leafx", "disjoint"):
        c = scm(name)
        c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        for i, q in enumerate(many_worlds(c)):
            out.append(dict(h="h_query", form=("tab", "det", "mix")[i % 3], w=2, **q, **c))
    for s in range(12 if deep else 5):
        c = wide_scm(s + 140, 2 + s % 2, 2)
        for i, q in enumerate(some_worlds(s, c, 3, maxw=4)):
            out.append(dict(h="h_query", form=("tab", "det", "mix")[i % 3], w=3, **q, **c))
    for s in range(60 if deep else 28):
        c = wide_scm(s + 40, 2 + s % 4, 2)
        for k, q in enumerate(some_worlds(s, c, 10 if deep else 6)):
            out.append(dict(h="h_query", form=("det", "tab", "mix")[k % 3], w=2, **q, **c))
    # trees with branches that end early
    for s, c in enumerate(csi_scms(12 if deep else 5, 20)):
        for k, q in enumerate(some_worlds(s, c, 5)):
            out.append(dict(h="h_query", w=2, **q, **c))
    # names that look like those of another world, and names that do clash with them
    c = dict(dom=doms("A_1:b B_A_1:s U_1:b"), edges=arcs("A_1>B_A_1 U_1>A_1 U_1>B_A_1"), exo=["U_1"], name="names")
    for i, q in enumerate(queries(c, False)):
        if i % 3 == 0:
            out.append(dict(h="h_query", form=("tab", "det")[i % 2], **q, **c))
    for dom, edges, exo in (("X:b X_1:b U:3", "U>X U>X_1", "U"), ("X:b X_1:b U:b V:b", "U>X V>X_1", "U V"), ("X:b X_1:b U:b V:b", "U>X V>X_1 X>X_1", "U V"),
                            ("X:b X_1:b Y:b U:b", "U>X U>X_1 X>Y X_1>Y", "U"), ("X:b X_2:b U:3", "U>X U>X_2", "U"), ("X:b Y:b X_1:b", "X>Y X_1>X X_1>Y", "X_1")):
        c = dict(dom=doms(dom), edges=arcs(edges), exo=exo.split(), name="clash")
        endo = [v for v, _ in c["dom"] if v not in c["exo"]]
        for a in endo:
            for b in endo:
                if a != b:
                    out.append(dict(h="h_clash", form="tab", t=[b], do=[{a: 1}], ev={}, ts=[1], **c))
                    out.append(dict(h="h_clash", form="det", t=[b], do=[{a: 1}], ev={b: 0}, ts=None, **c))
                    out.append(dict(h="h_clash", form="tab", t=[b, b], do=[{a: 1}, {a: 0}], ev={}, ts=[1, 2], **c))
                    out.append(dict(h="h_clash", form="tab", t=[b], do=[{a: 1}, {b: 0}], ev={b: 1}, ts=[1], **c))
    for name in ("confounded", "markov2", "iv"):
        out.append(dict(h="h_consistency", **scm(name)))
        out.append(dict(h="h_seq", exact=name != "iv", **scm(name)))
    return out


def worlds_mass(net, endo, exo, ev, worlds):
    """P(factual endogenous/exogenous evidence ev, and for each world (do_w, targets_w)) with shared exogenous values."""
    eu = {v: s for v, s in ev.items() if v in exo}
    ee = {v: s for v, s in ev.items() if v in endo}
    ud = OrderedDict((u, [eu[u]] if u in eu else net.dom[u]) for u in exo)
    terms = []
    for u in space(ud):
        pu = prod([net.refs[v](u) for v in exo])
        ws = [pu]
        for do, fixed in [({}, ee)] + worlds:
            if any(v in do and do[v] != s for v, s in fixed.items()):
                return 0.0
            if do == {} and not fixed:
                continue
            free = OrderedDict((v, net.dom[v]) for v in endo if v not in do and v not in fixed)
            ws.append(total([prod([net.refs[v]({**u, **a, **fixed, **do}) for v in endo if v not in do]) for a in space(free)]))
        terms.append(prod(ws))
    return total(terms)


def h_query(ctx, cfg):
    from bcause.inference.causal.elimination import CausalVariableElimination
    m, net = make_scm(ctx, cfg)
    exo = cfg["exo"]
    endo = [v for v in net.dom if v not in exo]
    t, do, ev, ts = cfg["t"], cfg["do"], cfg["ev"], cfg["ts"]
    den = worlds_mass(net, endo, exo, ev, [])
    ctx.assume(den != 0)
    kw = {} if ts is None else dict(targets_subgraphs=list(ts))
    f = CausalVariableElimination(m).counterfactual_query(t, do=do, evidence=dict(ev) if ev else None, **kw)
    tl = [t] if isinstance(t, str) else list(t)
    ws = ts or [1] * len(tl)
    dl = do if isinstance(do, list) else [do]
    d = OrderedDict((f"{v}_{w}", net.dom[v]) for v, w in zip(tl, ws))

    def num(a):
        worlds = []
        for i, dw in enumerate(dl):
            worlds.append((dw, {v: a[f"{v}_{w}"] for v, w in zip(tl, ws) if w == i + 1}))
        return worlds_mass(net, endo, exo, ev, worlds)
    check_ratio(ctx, f, d, num, lambda a: den, f"P({tl} in {ws}|{ev}) do {do}")
    ctx.same(list(f.right_vars), [], "nothing on the right")


def h_clash(ctx, cfg):
    """A variable of the model has the name of one in another world: refused, or answered right."""
    try:
        h_query(ctx, cfg)
    except ValueError:
        pass


def h_consistency(ctx, cfg):
    """Without evidence a counterfactual is an interventional query; doing what was observed changes nothing."""
    from bcause.inference.causal.elimination import CausalVariableElimination
    m, net = make_scm(ctx, cfg)
    endo = [v for v in net.dom if v not in cfg["exo"]]
    x, y = endo[0], endo[-1]
    inf = CausalVariableElimination(m)
    for s in net.dom[x]:
        f = inf.counterfactual_query(y, do={x: s})
        g = inf.causal_query(y, do={x: s})
        for b in net.dom[y]:
            ctx.eq(f.get_value(**{f"{y}_1": b}), g.get_value(**{y: b}), f"{y}={b} do {x}={s}")


def h_seq(ctx, cfg):
    """One engine, several counterfactual queries: same variables with other states, other worlds, other targets."""
    from bcause.inference.causal.elimination import CausalVariableElimination
    m, net = make_scm(ctx, cfg)
    exo = cfg["exo"]
    endo = [v for v in net.dom if v not in exo]
    x, y = endo[0], endo[-1]
    (x0, x1), (y0, y1) = net.dom[x][:2], net.dom[y][:2]
    inf = CausalVariableElimination(m)
    for t, do, ev, ts in (([y], [{x: x0}], {}, [1]), ([y], [{x: x1}], {}, [1]), ([y], [{x: x1}], {x: x0}, [1]), ([y], [{x: x1}], {x: x1}, [1]),
                          ([y, y], [{x: x0}, {x: x1}], {}, [1, 2]), ([y, y], [{x: x1}, {x: x0}], {}, [1, 2]), ([y, y], [{x: x1}, {x: x0}], {}, [2, 1]),
                          ([x], [{y: y0}, {x: x1}], {}, [1]), ([y], [{x: x0}], {}, [1])):
        den = worlds_mass(net, endo, exo, ev, [])
        ctx.assume(den != 0)
        f = inf.counterfactual_query(t, do=[dict(d) for d in do], evidence=dict(ev), targets_subgraphs=list(ts))
        d = OrderedDict((f"{v}_{w}", net.dom[v]) for v, w in zip(t, ts))
        check_ratio(ctx, f, d, lambda a: worlds_mass(net, endo, exo, ev, [(dw, {v: a[f"{v}_{w}"] for v, w in zip(t, ts) if w == i + 1}) for i, dw in enumerate(do)]), lambda a: den, f"{t} in {ts} do {do} given {ev}")
