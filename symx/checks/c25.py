"""C25: models accept exactly the well-formed inputs, and ill-posed queries raise."""
from ..lib import *
from ..models import *
from ..shims import summarise_degenerate

BOUNDS = "mechanism tables of up to 6 arbitrary real entries (8 and 12 with the rest fixed to 0 or 1) in all four stores, set through dictionaries, lists and set_factor; factors of every scope over 4 variables (3 of the model and a stranger) and every choice of states out of 4 listings per variable, before and after other factors are set; every directed graph over 3 nodes, self-loops included, and over 4 nodes (thorough), given as a graph and in brackets; every query with up to 2 targets, 1 condition and 1 piece of evidence over 3 variables and a stranger, on networks, causal models, several models and data"
OUTSIDE = "what an accepted model answers (other properties), tables with entries other than numbers, evidence on unknown states, models built with the checks switched off beyond accepting anything"
PATHS = 1100


def configs(tier):
    out, deep = [], tier == "thorough"
    shapes = [
        ([("X", [0, 1]), ("U", ["u1", "u2"])], "X", None),
        ([("U", [0, 1, 2]), ("X", ["x", ""])], "X", None),
        ([("X", ["a", "b", "c"]), ("U", [True, False])], "X", None),
        ([("X", [0, 1]), ("U", [0, 1]), ("Y", [1, 0])], "Y", 4),
        ([("Y", [0, 1, 2]), ("X", [0, 1]), ("U", [0, 1])], "Y", 4),
        ([("X", ["only"]), ("U", [0, 1, 2])], "X", None),
    ]
    n = 0
    for dom, left, free in shapes:
        for st in STORES:
            for how in ("dict", "list", "set", "replace"):
                n += 1
                k = 1
                for _v, s in dom:
                    k *= len(s)
                if k == 6 and free is None and not deep and n % 3:
                    continue
                if free and not deep and n % 2:
                    continue
                out.append(dict(h="h_table", dom=dom, left=left, free=free or k, rot=n, vtype=st, how=how))
    for st in STORES:
        out.append(dict(h="h_equation", vtype=st, cast=True, exact=True))
        out.append(dict(h="h_equation", vtype=st, cast=False, exact=True))
        out.append(dict(h="h_any", vtype=st))
    for model in ("bn", "scm"):
        for es in ([], [("A", "B")], [("A", "B"), ("C", "B")], [("C", "A"), ("A", "B")]):
            for v in "AB":
                for before in ([], ["A"], ["B"], ["C", "B"] if v == "A" else ["C", "A"]):
                    if before and before[-1] == v:
                        continue
                    for how in ("set", "dict", "list"):
                        out.append(dict(h="h_scope", model=model, edges=es, var=v, before=before, how=how))
    for model in ("bn", "scm"):
        for es in ([("A", "B")], [("A", "B"), ("C", "B")], [("A", "B"), ("A", "C")]):
            for order in perms("ABC"):
                for how in ("dict", "list", "set"):
                    out.append(dict(h="h_states", model=model, edges=es, order=list(order), how=how))
    for model in ("bn", "scm"):
        for first in range(8):
            for form in ("graph", "text"):
                out.append(dict(h="h_graph", model=model, n=3, first=first, bits=3, form=form))
        out.append(dict(h="h_undirected", model=model))
    for first in range(256):
        if deep or first % 37 == 5:
            out.append(dict(h="h_graph", model=("bn", "scm")[first % 2], n=4, first=first, bits=8, form=("text", "graph")[first // 2 % 2]))
    for name in ("chain3", "fork", "collider", "disconnected"):
        for ev in (0, 1, 2, 3, 4):
            for cond in (None, 0, 1, 2, 3):
                out.append(dict(h="h_query", kind="ve", ev=ev, cond=cond, **bn(name)))
    for preprocess in (True, False):
        for ev in (0, 1, 2, 3, 4):
            for cond in (None, 0, 1, 2, 3):
                out.append(dict(h="h_query", kind="data", ev=ev, cond=cond, pre=preprocess, **bn("chain3")))
    for kind in ("causal", "multi"):
        for name in ("markov2", "confounded"):
            for do in range(5):
                for ev in range(4):
                    out.append(dict(h="h_do", kind=kind, do=do, ev=ev, exact=True, **scm(name)))
    return out


def attempt(fn):
    """(accepted, result): whatever error the library raises counts as a rejection."""
    from ..core import Unsupported
    try:
        return True, fn()
    except Unsupported:
        raise
    except Exception as e:
        if type(e).__name__ in ("PathAbort", "Unsupported", "Fail"):
            raise
        return False, e


# ---- tables ----------------------------------------------------------------

def scm_for(dom, left):
    from bcause.models.cmodel import StructuralCausalModel
    vs = [v for v, _s in dom]
    es = [(v, left) for v in vs if v != left]
    return digraph(vs, es), StructuralCausalModel, [v for v in vs if v in ("X", "Y")]


def h_table(ctx, cfg):
    from bcause.factors import DeterministicFactor
    summarise_degenerate.on = False
    try:
        _h_table(ctx, cfg)
    finally:
        summarise_degenerate.on = True


def _h_table(ctx, cfg):
    d = D(cfg["dom"])
    left = cfg["left"]
    cells = space(d)
    n, k, rot = len(cells), cfg["free"], cfg["rot"]
    free = {(i * (n // k) + rot) % n for i in range(k)} if k < n else set(range(n))
    vals = [ctx.real(f"t{i}") if i in free else float((i + rot) % 2) for i in range(n)]
    f = mf(d, vals, left=[left], vtype=cfg["vtype"])
    g, cls, endo = scm_for(cfg["dom"], left)
    good = mf(d, [1.0 if a[left] == d[left][0] else 0.0 for a in cells], left=[left], vtype=cfg["vtype"])

    def go():
        if cfg["how"] == "dict":
            return cls(g, {left: f}, endogenous=list(endo))
        if cfg["how"] == "list":
            return cls(g, [f], endogenous=list(endo))
        m = cls(g, None if cfg["how"] == "set" else [good], endogenous=list(endo))
        m.set_factor(left, f)
        return m
    ok, m = attempt(go)
    free_vals = [vals[i] for i in sorted(free)]
    if ok:
        for i, v in enumerate(vals):
            ctx.eq(v * (v - 1), 0.0, f"accepted entry {i}")
        got = m.factors[left]
        for a, v in zip(cells, vals):
            ctx.eq(got.get_value(**a), v, f"table of the model at {a}")
    else:
        ctx.gt(total([(v * (v - 1)) * (v * (v - 1)) for v in free_vals]), 0, f"rejected ({m})")


def h_equation(ctx, cfg):
    from bcause.factors import DeterministicFactor
    from bcause.models.cmodel import StructuralCausalModel
    d = D([("X", ["x", "y", "z"]), ("U", [0, 1, 2])])
    labels, ref = eqn(ctx, "f", d, "X")
    f = DeterministicFactor(d, labels, left_vars=["X"], vtype=cfg["vtype"])
    m = StructuralCausalModel(digraph("XU", [("U", "X")]), [f], cast_multinomial=cfg["cast"])
    if cfg["cast"]:
        check_values(ctx, m.factors["X"], d, ref, "table of the equation")
    else:
        ctx.check(m.factors["X"] is f, "equation kept")


def h_any(ctx, cfg):
    """Exogenous variables, networks and unchecked models take any table."""
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    d, du = D([("X", [0, 1]), ("U", ["u", "v"])]), D([("U", ["u", "v"])])
    x, rx = table(ctx, "x", d)
    u, ru = table(ctx, "u", du)
    fx, fu = mf(d, x, left=["X"], vtype=cfg["vtype"]), mf(du, u, vtype=cfg["vtype"])
    g = digraph("XU", [("U", "X")])
    b = BayesianNetwork(g, [fx, fu])
    check_values(ctx, b.factors["X"], d, rx, "network")
    check_values(ctx, b.factors["U"], du, ru, "network")
    m = StructuralCausalModel(g, {"U": fu})
    check_values(ctx, m.factors["U"], du, ru, "exogenous table")
    m = StructuralCausalModel(g, {"U": fu, "X": fx}, check_factors=False)
    check_values(ctx, m.factors["X"], d, rx, "unchecked table")
    m = StructuralCausalModel(digraph("XU", []), [fu, mf(D([("X", [0, 1])]), x[:2])])
    check_values(ctx, m.factors["U"], du, ru, "roots are exogenous by default")


# ---- scopes and states -----------------------------------------------------

LISTS = {"A": [["a1", "a2"], ["a2", "a1"], ["a1", "a3"], ["a1", "a2", "a3"]],
         "B": [[0, 1, 2], [2, 0, 1], [0, 1, 3], [0, 1]],
         "C": [[True, False], [False, True], [True], ["True", "False"]],
         "Z": [["z1", "z2"], ["z2", "z1"], ["z1"], [0, 1]]}


def model_of(cfg, factors, g=None):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    g = g if g is not None else digraph("ABC", cfg["edges"])
    return BayesianNetwork(g, factors) if cfg["model"] == "bn" else StructuralCausalModel(g, factors)


def degenerate(dom, left):
    """0/1 table (accepted as to its values wherever it goes)."""
    left = [left] if isinstance(left, str) else list(left)
    d = OrderedDict(dom)
    return mf(d, [1.0 if all(a[v] == d[v][0] for v in left) else 0.0 for a in space(d)], left=left)


def parents(edges, v):
    return [x for x, y in edges if y == v]


def h_scope(ctx, cfg):
    es, v = cfg["edges"], cfg["var"]
    std = {x: LISTS[x][0] for x in LISTS}
    declared = {}
    before = []
    for x in cfg["before"]:
        sc = [x] + parents(es, x)
        before.append((x, degenerate([(y, list(std[y])) for y in sc], x)))
        declared.update({y: std[y] for y in sc})
    # any scope: each variable is on the left, on the right or absent
    side = {x: ctx.choose(f"side {x}", 3) for x in "ABCZ"}
    left = [x for x in "ABCZ" if side[x] == 1]
    right = [x for x in "ABCZ" if side[x] == 2]
    if not left:
        return
    scope = left + right if ctx.choose("order", 2) else right + left
    bad = v if v in scope else scope[0]
    kind = {x: 0 for x in scope}
    kind[bad] = ctx.choose("states", 4)
    f = degenerate([(x, list(LISTS[x][kind[x]])) for x in scope], left)
    agree = all(set(map(repr, LISTS[x][kind[x]])) == set(map(repr, declared[x])) for x in scope if x in declared)
    fits = left == [v] and set(right) == set(parents(es, v)) and agree

    how = cfg["how"]
    if how == "list":
        v2 = left[0] if len(left) == 1 else None
        fits = v2 in ("A", "B", "C") and set(right) == set(parents(es, v2)) and agree if v2 else False
        if v2 is not None and v2 in dict(before):
            return      # the same variable twice
        v = v2
        ok, m = attempt(lambda: model_of(cfg, [g for _x, g in before] + [f]))
    elif how == "dict":
        if v in dict(before):
            return
        ok, m = attempt(lambda: model_of(cfg, {**dict(before), v: f}))
    else:
        m = model_of(cfg, dict(before) if before else None)
        old = dict(m.factors), {x: list(s) if s is not None else None for x, s in m.domains.items()}
        ok, _r = attempt(lambda: m.set_factor(v, f))
        if not ok:
            ctx.check(all(m.factors[x] is old[0][x] for x in old[0]) and list(m.factors) == list(old[0]), "factors after a rejection")
            ctx.same({x: list(s) if s is not None else None for x, s in m.domains.items()}, old[1], "domains after a rejection")
    ctx.same(ok, bool(fits), f"{v} with left {left} right {right} states {kind}")
    if ok:
        ctx.check(m.factors[v] is f, "factor of the model")
        if v not in declared:
            ctx.same(list(m.domains[v]), list(f.domain[v]), "states of the variable")
        ctx.same(sorted(m.graph.edges), sorted(es), "arcs")


def h_states(ctx, cfg):
    """Factors given in any order must agree on the states of every variable."""
    es = cfg["edges"]
    kind = {}
    factors = {}
    for x in cfg["order"]:
        sc = [x] + parents(es, x)
        ks = {y: ctx.choose(f"{y} in {x}", 3) for y in sc}
        for y in sc:
            kind.setdefault(y, []).append(ks[y])
        factors[x] = degenerate([(y, list(LISTS[y][ks[y]])) for y in sc], x)
    # 0 and 1 list the same states
    fits = all(len({0 if k < 2 else k for k in ks}) == 1 for ks in kind.values())
    if cfg["how"] == "set":
        def go():
            m = model_of(cfg, None)
            for x, f in factors.items():
                m.set_factor(x, f)
            return m
    else:
        go = lambda: model_of(cfg, factors if cfg["how"] == "dict" else list(factors.values()))
    ok, m = attempt(go)
    ctx.same(ok, fits, f"states {kind}")
    if ok:
        for x, f in factors.items():
            ctx.check(m.factors[x] is f, f"factor of {x}")


# ---- graphs ----------------------------------------------------------------

def acyclic(nodes, es):
    left = list(nodes)
    while left:
        src = [v for v in left if not any(y == v and x in left for x, y in es)]
        if not src:
            return False
        left = [v for v in left if v not in src]
    return True


def h_graph(ctx, cfg):
    names = ["A", "B1", "C", "D_x"][:cfg["n"]]
    pairs = [(x, y) for x in names for y in names if x != y or cfg["n"] < 4]
    es = []
    for i, p in enumerate(pairs):
        bit = cfg["first"] >> i & 1 if i < cfg["bits"] else ctx.choose(f"{p[0]}>{p[1]}", 2)
        if bit:
            es.append(p)
    good = acyclic(names, es)
    if cfg["form"] == "graph":
        given = digraph(names, es)
    else:
        given = "".join("[" + v + ("|" + ":".join(x for x, y in es if y == v) if any(y == v for _x, y in es) else "") + "]" for v in names)
    ok, m = attempt(lambda: model_of(cfg, None, given))
    ctx.same(ok, good, f"graph {es}")
    if ok:
        ctx.same(sorted(m.graph.nodes), sorted(names), "nodes")
        ctx.same(sorted(m.graph.edges), sorted(es), "arcs")
        from bcause.util.graphutils import dag2str, str2dag
        for text in (m.get_dag_str(), dag2str(m.graph)):
            g = str2dag(text)
            ctx.same((sorted(g.nodes), sorted(g.edges)), (sorted(names), sorted(es)), f"graph from {text}")
        if cfg["model"] == "scm":
            ctx.same(sorted(m.endogenous), sorted({y for _x, y in es}), "endogenous variables")
            ctx.same(sorted(m.exogenous), sorted(set(names) - {y for _x, y in es}), "exogenous variables")


def h_undirected(ctx, cfg):
    import networkx as nx
    g = nx.Graph()
    g.add_edges_from([("A", "B"), ("B", "C")])
    ctx.raises(lambda: model_of(cfg, None, g), "undirected graph")


# ---- queries ---------------------------------------------------------------

def h_query(ctx, cfg):
    dom = D(cfg["dom"])
    vs = list(dom) + ["Zz"]
    if cfg["kind"] == "ve":
        from bcause.inference.probabilistic.elimination import VariableElimination
        from bcause.inference.ordering import Heuristic
        m, _net = make_bn(ctx, cfg)
        hs = [None] + list(Heuristic)
        inf = VariableElimination(m, heuristic=hs[(cfg["ev"] + (cfg["cond"] or 0)) % len(hs)])
    else:
        from bcause.inference.probabilistic.datainference import LaplaceInference
        rows = [list(a.values()) for a in space(dom)]
        data = ctx.frame(rows, list(dom), [ctx.count(f"n{i}") for i in range(len(rows))])
        inf = LaplaceInference(data, {v: list(s) for v, s in dom.items()}, preprocess_flag=cfg["pre"])
    t = [vs[ctx.choose("target", 4)]]
    second = ctx.choose("second", 5)
    if second < 4:
        t.append(vs[second])
    # evidence: none, one of the variables, or a stranger
    ev = {} if cfg["ev"] == 4 else {vs[cfg["ev"]]: dom.get(vs[cfg["ev"]], [0])[0]}
    cond = None if cfg["cond"] is None else [vs[cfg["cond"]]]
    used = t + list(ev) + (cond or [])
    good = "Zz" not in used and len(set(used)) == len(used)
    ask = t[0] if len(t) == 1 and ctx.choose("as text", 2) else t
    ok, r = attempt(lambda: inf.query(ask, conditioning=cond, evidence=ev))
    ctx.same(ok, good, f"query({ask}, conditioning={cond}, evidence={ev})")
    if ok:
        ctx.same(sorted(r.domain), sorted(t + (cond or [])), "variables of the answer")
        ctx.same(sorted(r.left_vars), sorted(t), "targets of the answer")


def h_do(ctx, cfg):
    dom = D(cfg["dom"])
    m, net = make_scm(ctx, cfg)
    if cfg["kind"] == "causal":
        from bcause.inference.causal.elimination import CausalVariableElimination
        inf = CausalVariableElimination(m)
    else:
        from bcause.inference.causal.multi import CausalMultiInference
        inf = CausalMultiInference([m, m])
    x, y = dom["X"][0], dom["Y"][0]
    do = [{}, {"X": x}, {"Y": y}, {"Zz": 0}, {"X": "no such state"}][cfg["do"]]
    ev = [{}, {"X": x}, {"Y": y}, {"Zz": 0}][cfg["ev"]]
    t = ["X", "Y", "Zz"][ctx.choose("target", 3)]
    cf = ctx.choose("counterfactual", 3)
    if ev and "Zz" not in ev and "Zz" not in do:
        # evidence of positive probability in the model it is about
        fixed = dict(ev) if cf else {}
        if fixed:
            ctx.assume(net.mass(fixed) != 0)
    named = "Zz" not in (t, *do, *ev) and cfg["do"] != 4
    if cf == 0:
        if set(do) & set(ev):
            return      # a statement about the intervened variable itself
        good = named and t not in do and t not in ev
        if good and ev:
            sub_ = _mass_do(net, do, ev)
            ctx.assume(sub_ != 0)
        ok, r = attempt(lambda: inf.causal_query(t, do=do, evidence=ev))
        want = [t]
    else:
        good = named and t not in do
        if cf == 1:
            ok, r = attempt(lambda: inf.counterfactual_query(t, do=do, evidence=ev))
            want = [t + "_1"]
        else:
            # a world that the query does not have
            good = False
            ok, r = attempt(lambda: inf.counterfactual_query([t], do=[do], evidence=ev, targets_subgraphs=[2]))
    ctx.same(ok, good, f"{('causal', 'counterfactual', 'missing world')[cf]} {t} do={do} evidence={ev}")
    if ok:
        ctx.same(sorted(r.domain), want, "variables of the answer")


def _mass_do(net, do, ev):
    free = OrderedDict((v, s) for v, s in net.dom.items() if v not in ev and v not in do)
    return total([prod([net.refs[v]({**a, **ev, **do}) for v in net.dom if v not in do]) for a in space(free)])
