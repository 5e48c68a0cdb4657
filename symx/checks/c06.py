"""C06: conditional queries return P(target | conditions, evidence)."""
from ..lib import *
from ..models import *

BOUNDS = "Bayesian networks with 2-5 nodes and 1-3 states (every DAG over 3; also of 4-8 nodes with all but two tables fixed), every target/condition pair plus joint targets and joint conditions of up to 4 variables, with every evidence over up to 1 further variable (up to 3 in the larger networks), positive tables (also trees with branches that end early) and patterns with structural zeros (impossible conditions left unconstrained)"
OUTSIDE = "larger networks; values at impossible conditions; float rounding"


def queries(c, maxev):
    names = [v for v, _ in c["dom"]]
    out = []
    for k in range(0, maxev + 1):
        for ev in subsets(names, k, k):
            for o in assignments(c["dom"], ev):
                rest = [v for v in names if v not in ev]
                for t in rest:
                    for q in rest:
                        if t != q:
                            out.append(([t], [q], o))
                if len(rest) >= 3:
                    out.append(([rest[0]], [rest[2], rest[1]], o))
                    out.append(([rest[2], rest[0]], [rest[1]], o))
                if len(rest) >= 4:
                    out.append(([rest[3], rest[0]], [rest[1], rest[2]], o))
    return out


ZEROS = {"chain3": {"B": {0: (1,)}, "A": {0: (0,)}}, "collider": {"C": {0: (0,), 3: (1,)}}, "complete3": {"B": {1: (0, 2)}}}


def configs(tier):
    out, deep = [], tier == "thorough"
    for name in BN:
        if name in ("single",):
            continue
        c = bn(name, layout="last" if name in ("collider", "diamond") else "first")
        qs = queries(c, 2 if deep else 1)
        keep = 400 if deep else 45
        st = max(1, len(qs) // keep)
        out += [dict(h="h_cond", t=t, q=q, ev=o, **c) for i, (t, q, o) in enumerate(qs) if i % st == 0 or (len(t) + len(q) > 2 and len(o) == 0)]
    for name, z in ZEROS.items():
        c = bn(name, zeros=z)
        out += [dict(h="h_cond", t=t, q=q, ev=o, **c) for t, q, o in queries(c, 1 if deep else 0)]
    for name in ("chain3", "collider", "diamond"):
        out.append(dict(h="h_agree", **bn(name)))
    for i, es in enumerate(all_dags(3)):
        c = dag_bn(3, i, es)
        qs = queries(c, 1)
        out += [dict(h="h_cond", t=t, q=q, ev=o, layout=("first", "last", "rev", "mid")[(i + k) % 4], **c) for k, (t, q, o) in enumerate(qs) if deep or (i + k) % 5 == 0]
    for s in range(80 if deep else 36):
        c = wide_bn(s, 4 + s % 5)
        for k, (vs, o) in enumerate(some_queries(s, c["dom"], 12 if deep else 6, maxt=5, maxev=3)):
            if len(vs) > 1:
                n = 1 + k % (len(vs) - 1)
                out.append(dict(h="h_cond", t=vs[:n], q=vs[n:], ev=o, w=2, **c))
    # trees with branches that end early
    for i, c in enumerate(csi_bns(24 if deep else 12, 3)):
        for k, (vs, o) in enumerate(some_queries(i, c["dom"], 8 if deep else 5, maxt=3, maxev=2)):
            if len(vs) > 1:
                n = 1 + k % (len(vs) - 1)
                out.append(dict(h="h_cond", t=vs[:n], q=vs[n:], ev=o, w=2, **c))
    return out


def h_cond(ctx, cfg):
    from bcause.inference.probabilistic.elimination import VariableElimination
    m, net = make_bn(ctx, cfg)
    t, q, ev = cfg["t"], cfg["q"], cfg["ev"]
    if ctx.iszero(net.mass(ev)):
        ctx.assume(False)
    f = VariableElimination(m).query(t if len(t) > 1 else t[0], conditioning=q if len(q) > 1 else q[0], evidence=dict(ev))
    d = OrderedDict((v, net.dom[v]) for v in t + q)
    check_scope(ctx, f, d, "P(t|q,e)")
    ctx.same(sorted(f.right_vars), sorted(q), "conditions on the right")
    ctx.same(sorted(f.left_vars), sorted(t), "targets on the left")
    for a in space(d):
        den = net.mass({**sub(a, q), **ev})
        if ctx.iszero(den):
            continue
        ctx.eq(f.get_value(**a), net.mass({**a, **ev}) / den, f"P({t}|{q},{ev}) at {a}")


def h_agree(ctx, cfg):
    """Conditioning equals giving the condition as evidence."""
    from bcause.inference.probabilistic.elimination import VariableElimination
    m, net = make_bn(ctx, cfg)
    names = list(net.dom)
    inf = VariableElimination(m)
    for t in names:
        for q in names:
            if t == q:
                continue
            f = inf.query(t, conditioning=q)
            for s in net.dom[q]:
                g = inf.query(t, evidence={q: s})
                for x in net.dom[t]:
                    ctx.eq(f.get_value(**{t: x, q: s}), g.get_value(**{t: x}), f"P({t}={x}|{q}={s})")
