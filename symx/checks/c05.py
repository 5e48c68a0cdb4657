"""C05: posterior queries are exact."""
from ..lib import *
from ..models import *

BOUNDS = "Bayesian networks with 1-5 nodes and 1-3 states (chains, forks, colliders with and without descendants, diamonds, up to three parents, disconnected and isolated nodes; also of 5-9 nodes with all but two tables fixed and evidence over up to 3), every single target and several joint targets with every evidence over up to 2 variables (3 in thorough), tables arbitrary positive distributions plus patterns with structural zeros, child anywhere in its own table; also tables kept as trees with branches that end early (networks of 3-7 nodes)"
OUTSIDE = "larger networks, zero-probability evidence, float rounding"


def queries(c, maxev, joint=True):
    dom = c["dom"]
    names = [v for v, _ in dom]
    out = []
    for k in range(0, maxev + 1):
        for ev in subsets(names, k, k):
            for o in assignments(dom, ev):
                rest = [v for v in names if v not in ev]
                ts = [[t] for t in rest]
                if joint and len(rest) >= 2:
                    ts += [[rest[-1], rest[0]]]
                if joint and len(rest) >= 3:
                    ts += [[rest[1], rest[2], rest[0]]]
                out += [(t, o) for t in ts]
    return out


ZEROS = {
    "chain3": {"B": {0: (1,)}, "C": {1: (0,)}},
    "collider": {"C": {0: (0,), 3: (1,)}},
    "diamond": {"D": {0: (0,), 1: (1,)}, "B": {0: (1,)}},
    "fork": {"A": {0: (1,)}, "C": {0: (0,)}},
    "complete3": {"C": {0: (0,), 2: (1,)}, "B": {1: (0, 2)}},
    "disconnected": {"B": {0: (0,)}, "C": {0: (2,)}},
}


def supported(c, ev):
    """Some assignment compatible with ev has no structural zero (tables with the child first)."""
    dom = D(c["dom"])
    for a in space(dom):
        if all(a[v] == s for v, s in ev.items()):
            ok = True
            for v, z in c["zeros"].items():
                pa = edges_parents(c["edges"], v)
                i = [key(x) for x in space(OrderedDict((p, dom[p]) for p in pa))].index(key({p: a[p] for p in pa}))
                ok = ok and dom[v].index(a[v]) not in z.get(i, ())
            if ok:
                return True
    return False


def configs(tier):
    out = []
    lays = {"collider": "last", "diamond": "mid", "threeparents": "rev", "complete3": "mid", "colliderdesc": "last", "fork": "last"}
    deep = tier == "thorough"
    for n, name in enumerate(BN):
        big = name in ("M", "chain5", "threeparents", "ladder")
        c = bn(name, layout=lays.get(name, "first"))
        qs = queries(c, 3 if deep else (1 if big else 2))
        for i, (t, o) in enumerate(qs):
            if not deep and len(qs) > 40 and i % (len(qs) // 30) != 0 and len(o) > 0:
                continue
            out.append(dict(h="h_post", t=t, ev=o, **c))
        if deep:
            c2 = bn(name, layout="rev")
            out += [dict(h="h_post", t=t, ev=o, **c2) for t, o in queries(c, 1)]
    for name, z in ZEROS.items():
        c = bn(name, zeros=z)
        # evidence of probability zero has no posterior
        qs = [(t, o) for t, o in queries(c, 2, joint=deep) if supported(c, o)]
        for i, (t, o) in enumerate(qs):
            if deep or i % max(1, len(qs) // 20) == 0:
                out.append(dict(h="h_post", t=t, ev=o, **c))
    for name in ("chain3", "collider", "disconnected"):
        c = bn(name)
        out.append(dict(h="h_forms", **c))
        out.append(dict(h="h_normalised", **c))
    for i, es in enumerate(all_dags(3)):
        c = dag_bn(3, i, es)
        for k, (t, o) in enumerate(queries(c, 2 if deep else 1)):
            out.append(dict(h="h_post", t=t, ev=o, layout=("first", "last", "rev", "mid")[(i + k) % 4], **c))
    for i, es in enumerate(all_dags(4)):
        if deep or i % 9 == 0:
            c = dag_bn(4, i, es)
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
            qs = queries(c, 2)
            for k, (t, o) in enumerate(qs):
                if (k + i) % (11 if deep else 37) == 0:
                    out.append(dict(h="h_post", t=t, ev=o, layout=("first", "last", "rev")[k % 3], **c))
    for s in range(90 if deep else 36):
        c = wide_bn(s, 4 + s % 6, maxpar=3 + s % 2)
        for t, o in some_queries(s, c["dom"], 12 if deep else 6, maxt=2 + s % 3, maxev=3 + s % 2):
            out.append(dict(h="h_post", t=t, ev=o, w=2, **c))
    # trees with branches that end early
    for i, c in enumerate(csi_bns(30 if deep else 14)):
        for t, o in some_queries(i, c["dom"], 8 if deep else 5, maxt=3):
            out.append(dict(h="h_post", t=t, ev=o, w=2, **c))
        if i in (0, 4):
            out.append(dict(h="h_normalised", **c))
    return out


def posterior(net, t, ev):
    """(domain of targets, numerator fn, denominator)."""
    d = OrderedDict((v, net.dom[v]) for v in t)
    return d, (lambda a: net.mass({**a, **ev})), net.mass(ev)


def h_post(ctx, cfg):
    from bcause.inference.probabilistic.elimination import VariableElimination
    m, net = make_bn(ctx, cfg)
    t, ev = cfg["t"], cfg["ev"]
    d, num, den = posterior(net, t, ev)
    if ctx.iszero(den):
        ctx.assume(False)
    f = VariableElimination(m).query(t if len(t) > 1 else t[0], evidence=dict(ev) if ev else None)
    check_ratio(ctx, f, d, num, lambda a: den, f"P({t}|{ev})")
    ctx.same(list(f.right_vars), [], "nothing on the right")


def h_forms(ctx, cfg):
    """query, compile+run, list and plain targets, empty and absent evidence all agree."""
    from bcause.inference.probabilistic.elimination import VariableElimination
    m, net = make_bn(ctx, cfg)
    for t in net.dom:
        d, num, den = posterior(net, [t], {})
        for name, call in (("plain", lambda: VariableElimination(m).query(t)), ("list", lambda: VariableElimination(m).query([t])),
                           ("empty evidence", lambda: VariableElimination(m).query(t, evidence={})),
                           ("compile", lambda: VariableElimination(m).compile(t, {}).run()),
                           ("compile without evidence", lambda: VariableElimination(m).compile([t]).run())):
            check_ratio(ctx, call(), d, num, lambda a: den, f"{name} {t}")


def h_normalised(ctx, cfg):
    from bcause.inference.probabilistic.elimination import VariableElimination
    m, net = make_bn(ctx, cfg)
    names = list(net.dom)
    e = names[0]
    for s in net.dom[e]:
        f = VariableElimination(m).query(names[1:], evidence={e: s})
        ctx.eq(total(f.values_list), 1.0, f"normalised given {e}={s}")
