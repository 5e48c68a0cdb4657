"""C07: answers do not depend on heuristic, storage or listing order."""
from ..lib import *
from ..models import *

BOUNDS = "Bayesian networks with 2-5 nodes and 1-3 states, and of 4-8 nodes with all but two tables fixed; three built-in heuristics, a user heuristic (reverse order) and the default; all storages; rotated and reversed listings of nodes, arcs, factors, table variables and states (also a different state order of the same variable in different tables); targets and evidence in either order; up to 14 queries in sequence (same targets and evidence variables with other states included) on one engine"
OUTSIDE = "larger networks; float rounding"
HEUR = ["none", "MIN_FILL", "MIN_SIZE", "MIN_WEIGHT", "min_size_fn", "user"]


def variants(tier):
    deep = tier == "thorough"
    for name in BN:
        if name == "single" or (not deep and name in ("twopairs", "chain5", "isolated")):
            continue
        for h in HEUR:
            yield dict(name=name, heur=h)
        for vt in STORES:
            yield dict(name=name, vtype=vt, heur="MIN_FILL" if vt == "list" else "none")
        for rev in ("nodes", "edges", "factors", "states", "mixedstates", "all"):
            yield dict(name=name, rev=rev, layout="rev" if rev == "all" else "first")
            if deep:
                yield dict(name=name, rev=rev, layout="mid", heur="MIN_FILL", vtype="treedict")
        for lay in ("last", "mid", "rev"):
            yield dict(name=name, layout=lay)
        yield dict(name=name, flist=True)


def configs(tier):
    out = []
    for v in variants(tier):
        c = bn(v.pop("name"), **v)
        names = [x for x, _ in c["dom"]]
        e = names[len(names) // 2]
        for qs in ([(names[0], {names[-1]: 0})], [([names[0], names[-1]], {})], [(names[-1], {e: -1, names[0]: 0})] if len(names) > 2 else []):
            if qs:
                out.append(dict(h="h_variant", q=[(t if isinstance(t, list) else [t], {k: dict(c["dom"])[k][i] for k, i in o.items() if k != t}) for t, o in qs], **c))
    for name in BN:
        if name == "single":
            continue
        c = bn(name)
        out.append(dict(h="h_sequence", **c))
    revs = ["", "nodes", "edges", "factors", "states", "mixedstates", "all"]
    for s in range(48 if tier == "thorough" else 16):
        c = wide_bn(s + 100, 4 + s % 5)
        for k, h in enumerate(HEUR):
            out.append(dict(h="h_variant", heur=h, rev=revs[(s + k) % 7], vtype=STORES[(s + k) % 4], q=some_queries(s * 10 + k, c["dom"], 2), w=2, **c))
        if s % 2 == 0:
            out.append(dict(h="h_sequence", heur=HEUR[s // 2 % 6], w=2, **c))
    return out


def build(ctx, cfg):
    """Model with the listing choices of cfg, and its reference."""
    from bcause.models import BayesianNetwork
    dom = D(cfg["dom"])
    rev = cfg.get("rev", "")
    edges = cfg["edges"]
    refs, factors = {}, OrderedDict()
    for n, v in enumerate(dom):
        pa = edges_parents(edges, v)
        lay = layout(cfg, v, pa)
        base = OrderedDict((x, dom[x]) for x in lay)
        _, ref = cpt(ctx, f"p{v}", OrderedDict((x, dom[x]) for x in [v] + pa), v, fixed=cfg.get("fixed", {}).get(v))
        refs[v] = ref
        d = OrderedDict()
        for i, x in enumerate(lay):
            st = list(dom[x])
            if rev in ("states", "all"):
                st.reverse()
            if rev == "mixedstates" and (i + n) % 2:
                st = st[1:] + st[:1]
            d[x] = st
        factors[v] = mf(d, [ref(a) for a in space(d)], right=pa if rev not in ("all",) else list(reversed(pa)), vtype=cfg.get("vtype"))
    nodes, es, fo = list(dom), list(edges), list(dom)
    if rev in ("nodes", "all"):
        nodes.reverse()
    if rev in ("edges", "all"):
        es.reverse()
    if rev in ("factors", "all"):
        fo.reverse()
    fs = {v: factors[v] for v in fo}
    if cfg.get("flist"):
        fs = list(fs.values())
    return BayesianNetwork(digraph(nodes, es), fs), Net(dom, refs)


def heuristic(name):
    from bcause.inference.ordering import Heuristic, min_size_heuristic
    if name == "none":
        return None
    if name == "min_size_fn":
        return min_size_heuristic
    if name == "user":
        def user(dag, to_remove, **kw):
            return list(reversed(sorted(to_remove)))
        return user
    return Heuristic[name]


def check_query(ctx, inf, net, t, ev, msg):
    d = OrderedDict((v, net.dom[v]) for v in t)
    den = net.mass(ev)
    for tt, ee in ((t, ev), (list(reversed(t)), dict(reversed(list(ev.items()))))):
        f = inf.query(tt if len(tt) > 1 else tt[0], evidence=dict(ee))
        check_ratio(ctx, f, d, lambda a: net.mass({**a, **ev}), lambda a: den, f"{msg} P({tt}|{ee})")


def h_variant(ctx, cfg):
    from bcause.inference.probabilistic.elimination import VariableElimination
    m, net = build(ctx, cfg)
    inf = VariableElimination(m, heuristic(cfg.get("heur", "none")))
    for t, ev in cfg["q"]:
        check_query(ctx, inf, net, t, ev, "variant")


def h_sequence(ctx, cfg):
    from bcause.inference.probabilistic.elimination import VariableElimination
    m, net = build(ctx, cfg)
    inf = VariableElimination(m, heuristic(cfg.get("heur", "none")))
    names = list(net.dom)
    a, z = names[0], names[-1]
    seq = [([a], {}), ([z], {a: net.dom[a][0]}), ([z], {a: net.dom[a][-1]}), ([a], {z: net.dom[z][-1]}), ([a], {z: net.dom[z][0]}), ([a], {})]
    if len(names) > 2:
        b = names[1]
        seq[3:3] = [([b], {a: net.dom[a][-1]}), ([z], {a: net.dom[a][0], b: net.dom[b][-1]}), ([z], {b: net.dom[b][0], a: net.dom[a][-1]}), ([z], {b: net.dom[b][0]})]
    for i, (t, ev) in enumerate(seq):
        check_query(ctx, inf, net, t, ev, f"step {i}")
    if len(names) > 2:
        for s in (net.dom[b][0], net.dom[b][-1]):
            f = inf.query(z, conditioning=a, evidence={b: s})
            check_ratio(ctx, f, OrderedDict((v, net.dom[v]) for v in (z, a)), lambda o: net.mass({**o, b: s}), lambda o: net.mass({a: o[a], b: s}), f"P({z}|{a}, {b}={s})")
    f1 = inf.query(z)
    inf.query(a, conditioning=z)
    f2 = inf.query(z)
    for s in net.dom[z]:
        ctx.eq(f2.get_value(**{z: s}), f1.get_value(**{z: s}), "same again")
