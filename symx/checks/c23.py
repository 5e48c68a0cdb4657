"""C23: renaming variables changes names and nothing else."""
from ..lib import *
from ..models import *
from .c09 import mass_do, value

BOUNDS = "tables, equations and interval factors over up to 3 variables in all four stores; networks of up to 5 nodes and causal models of up to 6 variables (functions, tables or mixed; cast or not); renamings of one, some and all variables, swaps, cycles, names contained in one another, names of variables that are absent, and the empty one; values, sides, arcs, endogenous set, posterior, causal and counterfactual queries under the new names, and renaming back; networks of 4-6 nodes and causal models of up to 6 variables with unusual names"
OUTSIDE = "renamings that give two variables the same name, larger factors and models"
PATHS = 400

DOMS = [
    [("A", ["a1", "a2"])],
    [("A", ["a1", "a2"]), ("B", [0, 1, 3])],
    [("B", [True, False]), ("A", [1, 0]), ("C", ["", "x"])],
    [("X", ["only"]), ("Y", [0.5, 2.0])],
]


def mappings(names):
    n = list(names)
    out = [{}, {n[0]: "Zed"}, {v: v + "_1" for v in n}, {v: f"N{i}" for i, v in enumerate(n)}, {"Nobody": n[0] + "x", n[-1]: "Qu"}]
    if len(n) > 1:
        out += [{n[0]: n[1], n[1]: n[0]}, {v: n[(i + 1) % len(n)] for i, v in enumerate(n)}, {n[0]: n[0] + n[1]}, {n[1]: "Mid", n[0]: n[1]}]
        out += [dict(reversed(list({v: n[i - 1] for i, v in enumerate(n)}.items())))]
    return out


def configs(tier):
    out, deep, k = [], tier == "thorough", 0
    for dom in DOMS:
        names = [v for v, _ in dom]
        for mp in mappings(names):
            for r in range(len(names)):
                for left in subsets(names, r + 1, r + 1):
                    k += 1
                    for st in STORES if deep or k % 5 == 0 else STORES[k % 4:k % 4 + 1]:
                        out.append(dict(h="h_factor", dom=dom, left=left, mp=mp, vtype=st))
                    if deep or k % 3 == 0:
                        out.append(dict(h="h_interval", dom=dom, left=left, mp=mp, vtype=STORES[(k + 1) % 4]))
                    if len(left) == 1:
                        out.append(dict(h="h_equation", dom=dom, left=left, mp=mp, vtype=STORES[(k + 2) % 4]))
    for i, name in enumerate(BN):
        c = bn(name, layout=("first", "last", "rev", "mid")[i % 4], perm=i % 3 == 0, vtype=(STORES + [None])[i % 5])
        for mp in mappings([v for v, _ in c["dom"]]):
            out.append(dict(h="h_bn", mp=mp, **c))
    for i, name in enumerate(SCM):
        for j, mp in enumerate(mappings([v for v, _ in scm(name)["dom"]]) + [{v: v + "_1" for v, _ in scm(name)["dom"] if v not in scm(name)["exo"]}]):
            form = ("det", "tab", "mix")[(i + j) % 3]
            out.append(dict(h="h_scm", mp=mp, form=form, cast=j % 2 == 0, layout=("first", "last", "rev", "mid")[(i + j) % 4], **scm(name)))
    for seed in range(12 if deep else 5):
        c = wide_bn(seed + 130, 4 + seed % 3, free=1)
        for mp in mappings([v for v, _ in c["dom"]]):
            out.append(dict(h="h_bn", mp=mp, vtype=(STORES + [None])[seed % 5], **c))
        c = wide_scm(seed + 140, 2 + seed % 3, 1 + seed % 2, free=0)
        for j, mp in enumerate(mappings([v for v, _ in c["dom"]])):
            out.append(dict(h="h_scm", mp=mp, form=("det", "tab", "mix")[(seed + j) % 3], cast=j % 2 == 0, **c))
    # trees with branches that end early
    for k, dom in enumerate(DOMS):
        names = [v for v, _ in dom]
        for j, mp in enumerate(mappings(names)):
            out.append(dict(h="h_factor", dom=dom, left=names[:1 + j % len(names)], mp=mp, vtype="treedict", tree=k * 11 + j))
    for c in csi_bns(8 if deep else 5, 9):
        for mp in mappings([v for v, _ in c["dom"]]):
            out.append(dict(h="h_bn", mp=mp, **c))
    for s, c in enumerate(csi_scms(3, 60, free=0)):
        for j, mp in enumerate(mappings([v for v, _ in c["dom"]])):
            out.append(dict(h="h_scm", mp=mp, cast=j % 2 == 0, **c))
    root = dict(name="root", dom=[("X", ["a", "b", "c"]), ("Y", [0, 1]), ("U", [0, 1])], edges=[("X", "Y"), ("U", "Y")], exo=["U"], endo=["X", "Y"])
    for j, mp in enumerate(mappings("XYU")):
        out.append(dict(h="h_scm", mp=mp, form="tab", cast=j % 2 == 0, **root))
    return out


def ren(mp, a):
    return {mp.get(v, v): s for v, s in a.items()}


def back(mp):
    return {b: a for a, b in mp.items()}


def check_named(ctx, f, dom, left, mp, val, msg):
    """f is the factor over dom (left | rest) under the names of mp."""
    nd = OrderedDict((mp.get(v, v), s) for v, s in dom.items())
    ctx.same(list(f.domain), list(nd), f"{msg}: variables in order")
    ctx.same(list(f.variables), list(nd), f"{msg}: variables")
    for v in nd:
        ctx.same(list(f.domain[v]), list(nd[v]), f"{msg}: states of {v}")
    ctx.same(sorted(f.left_vars), sorted(mp.get(v, v) for v in left), f"{msg}: left side")
    ctx.same(sorted(v for v in f.right_vars if not v.startswith("_")), sorted(mp.get(v, v) for v in dom if v not in left), f"{msg}: right side")
    for a in space(dom):
        for got, want, what in val(ren(mp, a), a):
            ctx.eq(got, want, f"{msg}: {what} at {a}")


def h_factor(ctx, cfg):
    dom, left, mp = D(cfg["dom"]), cfg["left"], cfg["mp"]
    vals, ref = entries(ctx, "f", dom, cfg)
    f = mf(dom, vals, left=left, vtype=cfg["vtype"])
    g = f.rename_vars(dict(mp))
    ctx.same(g.vtype, f.vtype, "store")
    ctx.same(type(g) is type(f), True, "kind of factor")
    check_named(ctx, g, dom, left, mp, lambda na, a: [(g.get_value(**na), ref(a), "value")], "renamed")
    check_named(ctx, f, dom, left, {}, lambda na, a: [(f.get_value(**na), ref(a), "value")], "original")
    h = g.rename_vars(back(mp))
    check_named(ctx, h, dom, left, {}, lambda na, a: [(h.get_value(**na), ref(a), "value")], "renamed back")
    # operations go through under the new names
    v = list(dom)[-1]
    for s in dom[v]:
        r = g.restrict(**{mp.get(v, v): s})
        for a in space(OrderedDict((x, d) for x, d in dom.items() if x != v)):
            ctx.eq(r.get_value(**ren(mp, a)), ref({**a, v: s}), f"restricted to {v}={s} at {a}")
    m = g.marginalize(mp.get(v, v))
    for a in space(OrderedDict((x, d) for x, d in dom.items() if x != v)):
        ctx.eq(m.get_value(**ren(mp, a)), total([ref({**a, v: s}) for s in dom[v]]), f"{v} summed out at {a}")


def h_equation(ctx, cfg):
    from bcause.factors import DeterministicFactor
    dom, left, mp = D(cfg["dom"]), cfg["left"], cfg["mp"]
    y = left[0]
    labels, ref = eqn(ctx, "f", dom, y)
    f = DeterministicFactor(dom, labels, left_vars=[y], vtype=cfg["vtype"])
    g = f.rename_vars(dict(mp))
    ctx.same(isinstance(g, DeterministicFactor), True, "kind of factor")

    def val(h, m):
        ny = m.get(y, y)
        return lambda na, a: [(ctx.indicator(h.get_value(**{x: s for x, s in na.items() if x != ny}), a[y]), ref(a), "equation")]
    check_named(ctx, g, dom, left, mp, val(g, mp), "renamed")
    check_named(ctx, f, dom, left, {}, val(f, {}), "original")
    h = g.rename_vars(back(mp))
    check_named(ctx, h, dom, left, {}, val(h, {}), "renamed back")
    t = g.to_multinomial()
    check_named(ctx, t, dom, left, mp, lambda na, a: [(t.get_value(**na), ref(a), "table")], "table of the renamed")


def h_interval(ctx, cfg):
    from bcause.factors.imprecise import IntervalProbFactor
    dom, left, mp = D(cfg["dom"]), cfg["left"], cfg["mp"]
    lo, rlo = table(ctx, "l", dom)
    up, rup = table(ctx, "u", dom)
    f = IntervalProbFactor(dom, lo, up, left_vars=left, vtype=cfg["vtype"])
    g = f.rename_vars(dict(mp))
    ctx.same(isinstance(g, IntervalProbFactor), True, "kind of factor")
    val = lambda h: lambda na, a: [(h.get_value(_bound="low", **na), rlo(a), "lower"), (h.get_value(_bound="up", **na), rup(a), "upper")]
    check_named(ctx, g, dom, left, mp, val(g), "renamed")
    check_named(ctx, f, dom, left, {}, val(f), "original")
    h = g.rename_vars(back(mp))
    check_named(ctx, h, dom, left, {}, val(h), "renamed back")


def check_model(ctx, m, net, edges, mp, msg):
    ctx.same(sorted(m.graph.nodes), sorted(mp.get(v, v) for v in net.dom), f"{msg}: nodes")
    ctx.same(sorted(m.graph.edges), sorted((mp.get(x, x), mp.get(y, y)) for x, y in edges), f"{msg}: arcs")
    for v in net.dom:
        nv = mp.get(v, v)
        pa = edges_parents(edges, v)
        f = m.factors[nv]
        ctx.same(list(f.left_vars), [nv], f"{msg}: left side of {v}")
        ctx.same(sorted(f.right_vars), sorted(mp.get(x, x) for x in pa), f"{msg}: right side of {v}")
        ctx.same(sorted(map(repr, m.domains[nv])), sorted(map(repr, net.dom[v])), f"{msg}: states of {v}")
        for a in space(OrderedDict((x, net.dom[x]) for x in [v] + pa)):
            ctx.eq(value(ctx, f, ren(mp, a), nv), net.refs[v](a), f"{msg}: mechanism of {v} at {a}")


def h_bn(ctx, cfg):
    from bcause.inference.probabilistic.elimination import VariableElimination
    mp = cfg["mp"]
    m, net = make_bn(ctx, cfg)
    g = m.rename_vars(dict(mp))
    ctx.same(type(g) is type(m), True, "kind of model")
    check_model(ctx, g, net, cfg["edges"], mp, "renamed")
    check_model(ctx, m, net, cfg["edges"], {}, "original")
    check_model(ctx, g.rename_vars(back(mp)), net, cfg["edges"], {}, "renamed back")
    names = list(net.dom)
    if len(names) <= 4:
        t, e = names[0], names[-1]
        f = VariableElimination(g).query(mp.get(t, t))
        for s in net.dom[t]:
            ctx.eq(f.get_value(**ren(mp, {t: s})), net.mass({t: s}), f"P({t}={s})")
        if t != e:
            o = {e: net.dom[e][-1]}
            f = VariableElimination(g).query(mp.get(t, t), evidence=ren(mp, o))
            for s in net.dom[t]:
                ctx.eq(f.get_value(**ren(mp, {t: s})), net.mass({t: s, **o}) / net.mass(o), f"P({t}={s}|{o})")


def h_scm(ctx, cfg):
    from bcause.factors import DeterministicFactor
    from bcause.inference.causal.elimination import CausalVariableElimination
    mp = cfg["mp"]
    m, net = make_scm(ctx, cfg, cast=cfg["cast"])
    endo = [v for v in net.dom if v not in cfg["exo"]]
    functions = [v for v, f in m.factors.items() if isinstance(f, DeterministicFactor)]
    g = m.rename_vars(dict(mp))
    ctx.same(type(g) is type(m), True, "kind of model")
    ctx.same(sorted(g.endogenous), sorted(mp.get(v, v) for v in endo), "endogenous")
    ctx.same(sorted(g.exogenous), sorted(mp.get(v, v) for v in cfg["exo"]), "exogenous")
    ctx.same(sorted(v for v, f in g.factors.items() if isinstance(f, DeterministicFactor)), sorted(mp.get(v, v) for v in functions), "functions stay functions")
    check_model(ctx, g, net, cfg["edges"], mp, "renamed")
    check_model(ctx, m, net, cfg["edges"], {}, "original")
    ctx.same(sorted(m.endogenous), sorted(endo), "original endogenous")
    h = g.rename_vars(back(mp))
    check_model(ctx, h, net, cfg["edges"], {}, "renamed back")
    ctx.same(sorted(h.endogenous), sorted(endo), "endogenous of the renamed back")
    if cfg["cast"] and len(endo) > 1 and len(net.dom) <= 4:
        t, x = endo[-1], endo[0]
        for s in net.dom[x][:1]:
            f = CausalVariableElimination(g).causal_query(mp.get(t, t), do=ren(mp, {x: s}))
            for b in net.dom[t]:
                ctx.eq(f.get_value(**ren(mp, {t: b})), mass_do(net, {x: s}, {t: b}), f"P({t}={b}|do({x}={s}))")
