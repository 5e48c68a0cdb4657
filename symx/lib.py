"""Shared harness helpers: model construction and brute-force reference semantics.

References are written here from the mathematical definitions, independently of bcause's code.
They work on floats and on symbolic values alike.
"""
import itertools
from collections import OrderedDict

STORES = ["numpy", "numpy1d", "list", "treedict"]


def D(pairs):
    """OrderedDict domain from [(var, states), ...] (fresh lists)."""
    return OrderedDict((v, list(s)) for v, s in pairs)


def space(dom):
    dom = OrderedDict(dom)
    ks = list(dom)
    return [dict(zip(ks, s)) for s in itertools.product(*dom.values())]


def key(a, variables=None):
    vs = sorted(a) if variables is None else variables
    return tuple((v, a[v]) for v in vs)


def sub(a, variables):
    return {v: a[v] for v in variables}


class Ref:
    """Reference table: value by assignment (dict)."""

    def __init__(self, dom, fn):
        self.dom = OrderedDict(dom)
        self.t = {key(a): fn(a) for a in space(self.dom)}

    def __call__(self, a):
        return self.t[key(sub(a, self.dom))]


def table(ctx, name, dom, **kw):
    """Independent symbolic entries, one per assignment."""
    n = 0
    vals, ref = [], {}
    for a in space(dom):
        v = ctx.real(f"{name}.{n}", **kw)
        n += 1
        vals.append(v)
        ref[key(a)] = v
    r = Ref.__new__(Ref)
    r.dom, r.t = OrderedDict(dom), ref
    return vals, r


def tree_shape(dom, seed, part=True):
    """Random shape of a tree over dom: None (ends here) or (variable, shape per state)."""
    x = [seed * 7919 + 13]

    def r(k):
        x[0] = (x[0] * 1664525 + 1013904223) % 2 ** 32
        return (x[0] >> 10) % k

    def shape(vs, depth):
        if not vs or depth and r(5) < 2:
            return None
        v = vs[r(len(vs))]
        return v, [shape([w for w in vs if w != v], depth + 1) for _s in dom[v]]

    def size(t):
        return 1 if t is None else sum(size(c) for c in t[1])
    full = len(space(dom))
    while True:
        t = shape(list(dom), 0)
        if not part or size(t) < full or full <= 2 or len(dom) == 1:
            return t


def cpt_tree(ctx, name, dom, left, seed, fixed=None):
    """Conditional table with context-specific independences, as a tree: one distribution (or a single value: the
    uniform one) per branch over the other variables, `left` tested last or first; returns (tree, Ref)."""
    dom = OrderedDict(dom)
    right = OrderedDict((v, s) for v, s in dom.items() if v != left)
    confs = [key(a) for a in space(right)]
    t = tree_shape(right, seed) if right else None
    ref, n, k = {}, [0], len(dom[left])

    def build(t, a):
        if t is None:
            n[0] += 1
            if (n[0] + seed) % 4 == 3 and right and k in (1, 2, 4):
                row = 1.0 / k
            else:
                group = [i for i, c in enumerate(confs) if all(dict(c)[v] == s for v, s in a.items())]
                row = ctx.dist(f"{name}.{n[0]}", k, fixed=(fixed or {}).get(group[0], {}))
            ps = row if isinstance(row, list) else [row] * k
            for b in space(OrderedDict((w, s) for w, s in right.items() if w not in a)):
                for s, p in zip(dom[left], ps):
                    ref[key({**a, **b, left: s})] = p
            return list(ps), not isinstance(row, list)
        v, chs = t
        return v, [build(c, {**a, v: s}) for s, c in zip(right[v], chs)]
    b = build(t, {})

    def leaf(b):
        return isinstance(b[0], list)

    def last(b):
        if leaf(b):
            return b[0][0] if b[1] else dict(var=left, children=dict(zip(dom[left], b[0])))
        return dict(var=b[0], children={s: last(c) for s, c in zip(right[b[0]], b[1])})

    def at(b, i):
        if leaf(b):
            return b[0][i]
        return dict(var=b[0], children={s: at(c, i) for s, c in zip(right[b[0]], b[1])})
    tree = last(b) if seed % 3 else dict(var=left, children={s: at(b, i) for i, s in enumerate(dom[left])})
    r = Ref.__new__(Ref)
    r.dom, r.t = dom, ref
    return tree, r


def merged(dom, ref):
    """The table as a tree whose branches end as soon as their value does not depend on the rest."""
    dom = OrderedDict(dom)

    def build(vs, a):
        if not vs:
            return ref(a)
        chs = {s: build(vs[1:], {**a, vs[0]: s}) for s in dom[vs[0]]}
        xs = list(chs.values())
        if a and all(not isinstance(x, dict) and type(x) is float and x == xs[0] for x in xs):
            return xs[0]
        return dict(var=vs[0], children=chs)
    return build(list(dom), {})


def ptree(ctx, name, dom, seed, nozero=False):
    """Tree data in which branches may end early (their value holds for every state of the variables left out) and
    test the variables in any order; returns (tree, Ref)."""
    dom = OrderedDict(dom)
    t = tree_shape(dom, seed)
    n, ref = [0], {}

    def build(t, a):
        if t is None:
            n[0] += 1
            y = ctx.real(f"{name}.{n[0]}")
            if nozero:
                ctx.assume(y != 0)
            for b in space(OrderedDict((w, s) for w, s in dom.items() if w not in a)):
                ref[key({**a, **b})] = y
            return y
        v, chs = t
        return dict(var=v, children={s: build(c, {**a, v: s}) for s, c in zip(dom[v], chs)})
    tree = build(t, {})
    q = Ref.__new__(Ref)
    q.dom, q.t = dom, ref
    return tree, q


def entries(ctx, name, dom, cfg, key="tree", nozero=False):
    """Values of a factor: a tree when the configuration gives a shape, else one entry per assignment."""
    if cfg.get(key) is not None:
        return ptree(ctx, name, dom, cfg[key], nozero)
    vals, r = table(ctx, name, dom)
    if nozero:
        for y in vals:
            ctx.assume(y != 0)
    return vals, r


def mf(dom, vals, right=None, left=None, vtype=None):
    from bcause.factors import MultinomialFactor
    kw = {}
    if right is not None:
        kw["right_vars"] = list(right)
    if left is not None:
        kw["left_vars"] = list(left)
    return MultinomialFactor(D(dom.items() if hasattr(dom, "items") else dom), vals if isinstance(vals, dict) else list(vals), vtype=vtype, **kw)


def cpt(ctx, name, dom, left, zeros=None, fixed=None):
    """Conditional table entries: a distribution over `left` per configuration of the rest.

    dom fixes the layout (variable order); returns (flat values in that layout, Ref)."""
    dom = OrderedDict(dom)
    right = [v for v in dom if v != left]
    ref = {}
    for i, pa in enumerate(space(OrderedDict((v, dom[v]) for v in right))):
        z = () if zeros is None else zeros.get(i, ())
        ps = ctx.dist(f"{name}.{i}", len(dom[left]), zeros=z, fixed=(fixed or {}).get(i, {}))
        for s, p in zip(dom[left], ps):
            ref[key({**pa, left: s})] = p
    r = Ref.__new__(Ref)
    r.dom, r.t = dom, ref
    return [ref[key(a)] for a in space(dom)], r


def eqn(ctx, name, dom, left):
    """Structural equation of `left`: one solver-chosen state per configuration of the rest.

    returns (labels in layout order of the right variables, Ref of 0/1 indicators over dom)."""
    dom = OrderedDict(dom)
    right = [v for v in dom if v != left]
    labels, ref = [], {}
    for i, pa in enumerate(space(OrderedDict((v, dom[v]) for v in right))):
        l = ctx.label(f"{name}.{i}", dom[left])
        labels.append(l)
        for s in dom[left]:
            ref[key({**pa, left: s})] = ctx.indicator(l, s)
    r = Ref.__new__(Ref)
    r.dom, r.t = dom, ref
    return labels, r


def prod(xs, start=1.0):
    r = None
    for x in xs:
        r = x if r is None else r * x
    return start if r is None else r


def total(xs):
    r = None
    for x in xs:
        r = x if r is None else r + x
    return 0.0 if r is None else r


class Net:
    """Reference model: domains, parents, per-variable Ref; joint by brute force."""

    def __init__(self, dom, refs):
        self.dom, self.refs = OrderedDict(dom), refs

    def joint(self, a):
        return prod([self.refs[v](a) for v in self.dom])

    def mass(self, fixed):
        """Unnormalised probability of a partial assignment."""
        free = OrderedDict((v, s) for v, s in self.dom.items() if v not in fixed)
        return total([self.joint({**a, **fixed}) for a in space(free)])


def digraph(nodes, edges):
    import networkx as nx
    g = nx.DiGraph()
    g.add_nodes_from(nodes)
    g.add_edges_from([tuple(e) for e in edges])
    return g


def layout(cfg, v, parents):
    """Variable order of v's table, as chosen by the configuration (default: v first)."""
    lay = cfg.get("layout", "first")
    if lay == "first":
        return [v] + list(parents)
    if lay == "last":
        return list(parents) + [v]
    if lay == "mid":
        h = len(parents) // 2
        return list(parents[:h]) + [v] + list(parents[h:])
    if lay == "rev":
        return list(reversed(parents)) + [v]
    raise ValueError(lay)


def edges_parents(edges, v):
    return [x for x, y in edges if y == v]


def _scope(cfg, dom, v, pa):
    """Domain of v's table; with 'perm' the tables list their parents' states the other way round."""
    return OrderedDict((x, list(reversed(dom[x])) if cfg.get("perm") and x != v else dom[x]) for x in layout(cfg, v, pa))


def make_bn(ctx, cfg, vtype=None, prefix="p", factor_order=None, state_perm=None):
    """BayesianNetwork with symbolic tables + reference. cfg: dom [(v, states)], edges, layout, zeros."""
    from bcause.models import BayesianNetwork
    dom = D(cfg["dom"])
    edges = cfg["edges"]
    factors, refs = OrderedDict(), {}
    for v in dom:
        pa = edges_parents(edges, v)
        d = _scope(cfg, dom, v, pa)
        if cfg.get("csi") is not None and (vtype or cfg.get("vtype")) == "treedict":
            vals, ref = cpt_tree(ctx, f"{prefix}{v}", d, v, cfg["csi"] + len(factors), fixed=cfg.get("fixed", {}).get(v))
        else:
            vals, ref = cpt(ctx, f"{prefix}{v}", d, v, zeros=cfg.get("zeros", {}).get(v), fixed=cfg.get("fixed", {}).get(v))
        refs[v] = ref
        factors[v] = mf(d, vals, right=pa, vtype=vtype or cfg.get("vtype"))
    g = digraph(dom, edges)
    order = factor_order or list(dom)
    return BayesianNetwork(g, {v: factors[v] for v in order}), Net(dom, refs)


def make_scm(ctx, cfg, prefix="p", cast=True, form=None, vtype=None, endogenous=None):
    """StructuralCausalModel with symbolic exogenous distributions and solver-chosen equations.

    cfg: dom, edges, exo [names]; form 'det' (functions) or 'tab' (0/1 tables) or 'mix'."""
    from bcause.factors import DeterministicFactor
    from bcause.models.cmodel import StructuralCausalModel
    dom = D(cfg["dom"])
    edges, exo = cfg["edges"], cfg["exo"]
    form = form or cfg.get("form", "det")
    vtype = vtype or cfg.get("vtype")
    factors, refs = OrderedDict(), {}
    for n, v in enumerate(dom):
        pa = edges_parents(edges, v)
        if v in exo:
            d = _scope(cfg, dom, v, pa)
            vals, ref = cpt(ctx, f"{prefix}{v}", d, v, zeros=cfg.get("zeros", {}).get(v), fixed=cfg.get("fixed", {}).get(v))
            factors[v] = mf(d, vals, right=pa, vtype=vtype)
        else:
            d = _scope(cfg, dom, v, pa)
            fixed = cfg.get("eqs", {}).get(v)
            if fixed is not None:
                labels, ref = fixed_eqn(ctx, d, v, fixed)
            else:
                labels, ref = eqn(ctx, f"{prefix}{v}", d, v)
            if form == "det" or (form == "mix" and n % 2):
                factors[v] = DeterministicFactor(d, labels, left_vars=[v], vtype=vtype)
            else:
                vals = merged(d, ref) if fixed is not None and cfg.get("csi") is not None and vtype == "treedict" else [ref(a) for a in space(d)]
                factors[v] = mf(d, vals, right=[x for x in d if x != v], vtype=vtype)
        refs[v] = ref
    g = digraph(dom, edges)
    kw = {}
    if endogenous or cfg.get("endo"):
        kw["endogenous"] = list(endogenous or cfg["endo"])
    m = StructuralCausalModel(g, factors, cast_multinomial=cast, **kw)
    return m, Net(dom, refs)


def fixed_eqn(ctx, dom, left, labels):
    right = [v for v in dom if v != left]
    ref = {}
    for l, pa in zip(labels, space(OrderedDict((v, dom[v]) for v in right))):
        for s in dom[left]:
            ref[key({**pa, left: s})] = 1.0 if s == l else 0.0
    r = Ref.__new__(Ref)
    r.dom, r.t = OrderedDict(dom), ref
    return list(labels), r


def check_scope(ctx, f, dom, msg=""):
    """f ranges over exactly the variables of dom, with the same states."""
    ctx.same(sorted(f.domain), sorted(dom), msg + " scope")
    ctx.same(sorted(f.variables), sorted(dom), msg + " variables")
    for v in dom:
        ctx.same(sorted(map(repr, f.domain[v])), sorted(map(repr, dom[v])), msg + f" states of {v}")


def check_values(ctx, f, dom, ref, msg=""):
    """f's value at every assignment of dom equals ref(assignment)."""
    check_scope(ctx, f, dom, msg)
    for a in space(dom):
        ctx.eq(f.get_value(**a), ref(a), f"{msg} at {a}")


def check_ratio(ctx, f, dom, num, den, msg=""):
    """f(a) * den(a) == num(a) at every assignment (den given non-zero)."""
    check_scope(ctx, f, dom, msg)
    for a in space(dom):
        d = den(a)
        ctx.eq(f.get_value(**a), num(a) / d, f"{msg} at {a}")


def perms(xs, limit=None):
    out = [list(p) for p in itertools.permutations(xs)]
    return out if limit is None else out[:limit]


def subsets(xs, lo=0, hi=None):
    xs = list(xs)
    hi = len(xs) if hi is None else hi
    for k in range(lo, hi + 1):
        for c in itertools.combinations(xs, k):
            yield list(c)
