"""C22: equation, table and network forms describe the same mechanism."""
from ..lib import *
from ..models import *

BOUNDS = "equations over up to 3 parents of 1-3 states, the variable in any position, all four stores, labels of any kind, equations chosen by the solver (tables turned back into equations and data frames: up to 64 possible equations, or up to 5 parents with all but 3 entries fixed); causal models of up to 6 variables (every structure over 2 endogenous and 2 exogenous variables), mechanisms as functions, tables or mixed, endogenous roots; causal models of 2-6 endogenous and 1-3 exogenous variables with unusual names and all but one equation fixed; the stand-alone conversions between networks and causal models"
OUTSIDE = "tables that are not degenerate (not equations), larger models"
PATHS = 600
PARS = [("A", [0, 1]), ("B", ["x", "y", "z"]), ("C", [True, False])]


def configs(tier):
    out, deep = [], tier == "thorough"
    n = 0
    for ls in (["x1", "x2"], [2, 0, 1], [True, False], ["only"], [0.5, 1.5], ["", "e"]):
        for k in (0, 1, 2, 3):
            pars = PARS[:k] if n % 2 else PARS[::-1][:k]
            names = ["X"] + [p for p, _s in pars]
            orders = perms(names) if k < 3 else [names, names[1:] + names[:1], names[1:3] + ["X"] + names[3:]]
            for o in orders:
                n += 1
                d = {**dict(pars), "X": ls}
                dom = [(v, d[v]) for v in o]
                for st in STORES if deep or k < 2 else STORES[n % 4:n % 4 + 1]:
                    out.append(dict(h="h_table", name=f"t{k}", dom=dom, vtype=st, as_int=bool(n % 2)))
                entries = 1
                for _v, s in pars:
                    entries *= len(s)
                if len(ls) ** entries <= 300:
                    out.append(dict(h="h_back", name=f"b{k}", dom=dom, vtype=STORES[n % 4], exact=True))
                if len(ls) ** entries <= 64:
                    out.append(dict(h="h_frame", name=f"d{k}", dom=dom, order=n, exact=True))
    for n, k in ((4, 2), (5, 2), (4, 3), (5, 5)):
        pars = [("P%d" % (9 - j), [["b", "a"], [1, 0], ["x", "z", "y"], [0, 1], [True, False]][j]) for j in range(n)]
        if k == 3:
            pars = pars[::-1]
        out.append(dict(h="h_frame", name=f"wide{n}", dom=pars[:k] + [("X", ["no", "yes"])] + pars[k:], order=3 + n, free=3, exact=True))
    for i, name in enumerate(SCM):
        for k, form in enumerate(("det", "tab", "mix")):
            for cast in (True, False):
                out.append(dict(h="h_model", form=form, cast=cast, layout=("first", "last", "rev", "mid")[(i + k) % 4], perm=k == 1, **scm(name)))
    for seed in range(24 if deep else 8):
        c = wide_scm(seed + 120, 2 + seed % 5, 1 + seed % 3, free=1)
        out.append(dict(h="h_model", form=("det", "tab", "mix")[seed % 3], cast=seed % 2 == 0, **c))
    root = dict(name="root", dom=[("X", ["a", "b", "c"]), ("Y", [0, 1]), ("U", [0, 1])], edges=[("X", "Y"), ("U", "Y")], exo=["U"], endo=["X", "Y"])
    for form in ("det", "tab"):
        for cast in (True, False):
            out.append(dict(h="h_model", form=form, cast=cast, **root))
    for i, m in enumerate(all_scms(2, 2)):
        out.append(dict(h="h_model", form=("det", "mix")[i % 2], cast=i % 3 == 0, layout=("first", "last")[i % 2], **m))
    return out


def h_table(ctx, cfg):
    from bcause.factors import DeterministicFactor
    dom = D(cfg["dom"])
    right = [v for v in dom if v != "X"]
    labels, ref = eqn(ctx, "f", dom, "X")
    f = DeterministicFactor(dom, labels, left_vars=["X"], vtype=cfg["vtype"])
    t = f.to_multinomial(as_int=True) if cfg["as_int"] else f.to_multinomial()
    check_values(ctx, t, dom, ref, "table of the equation")
    ctx.same(list(t.left_vars), ["X"], "left side")
    ctx.same(sorted(t.right_vars), sorted(right), "right side")
    for a in space(dom):
        got = f.get_value(**{v: a[v] for v in right})
        ctx.eq(ctx.indicator(got, a["X"]), ref(a), f"value of the equation at {a}")
        ctx.eq(1.0 if f.eval(**a) else 0.0, ref(a), f"eval at {a}") if len(dom) < 2 else None


def h_back(ctx, cfg):
    dom = D(cfg["dom"])
    right = [v for v in dom if v != "X"]
    _labels, ref = eqn(ctx, "f", dom, "X")
    t = mf(dom, [ref(a) for a in space(dom)], right=right, vtype=cfg["vtype"])
    f = t.to_deterministic()
    check_scope(ctx, f, dom, "equation")
    ctx.same(list(f.left_vars), ["X"], "left side")
    ctx.same(sorted(f.right_vars), sorted(right), "right side")
    for a in space(dom):
        got = f.get_value(**{v: a[v] for v in right})
        ctx.eq(ctx.indicator(got, a["X"]), ref(a), f"equation at {a}")
    check_values(ctx, f.to_multinomial(), dom, ref, "and back to a table")


def part_eqn(ctx, dom, free):
    """A fixed equation for X in which some entries are free."""
    right = OrderedDict((v, dom[v]) for v in dom if v != "X")
    sp = space(right)
    n = len(sp)
    labels = [dom["X"][(i * i + 3 * i // 2 + i // 5) % len(dom["X"])] for i in range(n)]
    for j in range(free):
        labels[(5 + 11 * j) % n] = ctx.label(f"f{j}", dom["X"])
    at = {key(pa): l for pa, l in zip(sp, labels)}
    return labels, lambda a: ctx.indicator(at[key({v: a[v] for v in right})], a["X"])


def h_frame(ctx, cfg):
    import pandas as pd
    from bcause.factors import DeterministicFactor
    dom = D(cfg["dom"])
    right = [v for v in dom if v != "X"]
    labels, ref = eqn(ctx, "f", dom, "X") if "free" not in cfg else part_eqn(ctx, dom, cfg["free"])
    # which states the solver chose is settled by a fork for each entry
    rows = []
    for l, pa in zip(labels, space(OrderedDict((v, dom[v]) for v in right))):
        s = next(x for x in dom["X"] if l == x)
        rows.append({**pa, "X": s})
    k = cfg["order"] % len(rows)
    rows = rows[k:] + rows[:k] if cfg["order"] % 2 else rows[::-1]
    df = pd.DataFrame([[r[v] for v in dom] for r in rows], columns=list(dom))
    f = DeterministicFactor.from_data_frame(df, dict(dom), left_var="X")
    check_scope(ctx, f, dom, "equation from data")
    ctx.same(list(f.left_vars), ["X"], "left side")
    for a in space(dom):
        got = f.get_value(**{v: a[v] for v in right})
        ctx.eq(ctx.indicator(got, a["X"]), ref(a), f"equation from data at {a}")


def tables(ctx, m, net, edges, msg):
    ctx.same(sorted(m.graph.nodes), sorted(net.dom), msg + " nodes")
    ctx.same(sorted(m.graph.edges), sorted(edges), msg + " arcs")
    for v in net.dom:
        pa = edges_parents(edges, v)
        check_values(ctx, m.factors[v], OrderedDict((x, net.dom[x]) for x in [v] + pa), net.refs[v], f"{msg} table of {v}")
        ctx.same(list(m.factors[v].left_vars), [v], f"{msg} left side of {v}")


def h_model(ctx, cfg):
    from bcause.factors import DeterministicFactor, MultinomialFactor
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    m, net = make_scm(ctx, cfg, cast=cfg["cast"])
    endo = [v for v in net.dom if v not in cfg["exo"]]
    t = m.to_multinomial()
    tables(ctx, t, net, cfg["edges"], "table form")
    ctx.same(isinstance(t, StructuralCausalModel), True, "a causal model")
    ctx.same(sorted(t.endogenous), sorted(endo), "endogenous of the table form")
    ctx.same(any(isinstance(f, DeterministicFactor) for f in t.factors.values()), False, "only tables")
    ctx.same(t.has_deterministic, False, "table form has no functions")
    b = m.to_bnet()
    ctx.same(isinstance(b, BayesianNetwork), True, "a Bayesian network")
    tables(ctx, b, net, cfg["edges"], "network form")
    from bcause.models.transform.conversion import bnet_to_causal, causal_to_bnet
    b2 = causal_to_bnet(m)
    ctx.same(isinstance(b2, BayesianNetwork), True, "a Bayesian network by conversion")
    tables(ctx, b2, net, cfg["edges"], "converted to a network")
    if not cfg.get("endo"):
        s2 = bnet_to_causal(b2)
        ctx.same(isinstance(s2, StructuralCausalModel), True, "a causal model by conversion")
        tables(ctx, s2, net, cfg["edges"], "converted to a network and back")
        ctx.same(sorted(s2.endogenous), sorted(endo), "endogenous after converting back")
    if cfg["cast"]:
        tables(ctx, m, net, cfg["edges"], "cast on construction")
    ctx.same(m.has_deterministic, not cfg["cast"] and any(isinstance(f, DeterministicFactor) for f in m.factors.values()), "has functions")
    if not cfg.get("endo"):
        s = StructuralCausalModel.from_model(b)
        tables(ctx, s, net, cfg["edges"], "causal model of the network")
        ctx.same(sorted(s.endogenous), sorted(endo), "endogenous of the network's causal model")
    # the casts left the model as it was
    for v in endo:
        f = m.factors[v]
        d = OrderedDict((x, net.dom[x]) for x in [v] + edges_parents(cfg["edges"], v))
        for a in space(d):
            if isinstance(f, DeterministicFactor):
                got = f.get_value(**{x: s for x, s in a.items() if x != v})
                ctx.eq(ctx.indicator(got, a[v]), net.refs[v](a), f"original equation of {v} at {a}")
