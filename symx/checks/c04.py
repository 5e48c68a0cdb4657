"""C04: factors keep track of which variables are conditioned on."""
from ..lib import *

BOUNDS = "conditional factors over up to 4 variables (1-3 states) with every left/right split listed, any variable order, all storages; chains of product, restriction, elimination and division; entries arbitrary reals (distributions positive)"
OUTSIDE = "more than 4 variables; float rounding"

A, B, C, E = ("A", ["a1", "a2"]), ("B", [0, 1, 2]), ("C", [True, False]), ("E", ["e0", "e1"])
DOM = dict([A, B, C, E])


def configs(tier):
    out = []
    pairs = [
        (["A", "B"], ["B"], ["B"], []), (["B", "A"], ["B"], ["C", "B"], ["C"]), (["A", "B", "C"], ["B", "C"], ["B", "C"], ["C"]),
        (["A"], [], ["B"], []), (["A", "B"], ["B"], ["A", "B"], ["B"]), (["A", "B"], ["A"], ["A", "C"], ["C"]),
        (["C", "A", "B"], ["A", "B"], ["A", "B"], []), (["A", "B"], ["A", "B"], ["B"], []), (["A", "B"], [], ["B", "C"], ["B", "C"]),
        (["E", "A"], ["A"], ["A", "C", "B"], ["B"]), (["A", "B"], ["B"], ["C", "B"], ["B"]), (["A", "B"], ["A"], ["B", "A"], ["B"]),
    ]
    vts = STORES
    if True:
        names = list(DOM)
        every = 5 if tier == "thorough" else 41
        for n, (o1, o2) in enumerate([(list(x), list(y)) for x in itertools.permutations(names, 3) for y in itertools.permutations(names, 2)]):
            for r1 in subsets(o1):
                for r2 in subsets(o2):
                    if (n + len(r1) + 2 * len(r2)) % every == 0:
                        pairs.append((o1, r1, o2, r2))
    for n, (o1, r1, o2, r2) in enumerate(pairs):
        for vt in (vts if n < 12 else [vts[n % 4]]):
            out.append(dict(h="h_ops", o1=o1, r1=r1, o2=o2, r2=r2, vt=vt))
    for vt in vts:
        for o, r in ((["A", "B", "C"], ["B"]), (["B", "A", "C"], ["C", "B"]), (["C", "A"], []), (["E", "C", "A", "B"], ["A", "C"])):
            out.append(dict(h="h_unary", o=o, r=r, vt=vt))
        for o, left in ((["A", "B"], "A"), (["B", "A"], "A"), (["B", "A", "C"], "A"), (["C", "B", "A"], "B"), (["A"], "A")):
            out.append(dict(h="h_roundtrip", o=o, left=left, vt=vt))
            out.append(dict(h="h_bayes", o=o, left=left, vt=vt))
        out.append(dict(h="h_scalar", o=["B", "A", "C"], r=["A"], vt=vt))
    return out


def dom(o):
    return OrderedDict((v, list(DOM[v])) for v in o)


def sides(ctx, f, variables, right, msg):
    ctx.same(sorted(f.variables), sorted(variables), msg + " variables")
    ctx.same(sorted(f.right_vars), sorted(right), msg + " right side")
    ctx.same(sorted(f.left_vars), sorted(set(variables) - set(right)), msg + " left side")
    ctx.same(sorted(f.right_domain), sorted(right), msg + " right domain")
    ctx.same(sorted(f.left_domain), sorted(set(variables) - set(right)), msg + " left domain")
    for v in f.right_domain:
        ctx.same(sorted(map(repr, f.right_domain[v])), sorted(map(repr, DOM[v])), msg + " right states")
    for v in f.left_domain:
        ctx.same(sorted(map(repr, f.left_domain[v])), sorted(map(repr, DOM[v])), msg + " left states")


def h_ops(ctx, cfg):
    d1, d2 = dom(cfg["o1"]), dom(cfg["o2"])
    v1, r1 = table(ctx, "x", d1)
    v2, r2 = table(ctx, "y", d2, pos=True)
    f1 = mf(d1, v1, right=cfg["r1"], vtype=cfg["vt"])
    f2 = mf(d2, v2, right=cfg["r2"], vtype=cfg["vt"])
    sides(ctx, f1, d1, cfg["r1"], "operand 1")
    sides(ctx, f2, d2, cfg["r2"], "operand 2")
    allv = set(d1) | set(d2)
    left = (set(d1) - set(cfg["r1"])) | (set(d2) - set(cfg["r2"]))
    full = OrderedDict(list(d1.items()) + [(v, s) for v, s in d2.items() if v not in d1])
    for name, g, op in (("product", f1 * f2, lambda x, y: x * y), ("sum", f1 + f2, lambda x, y: x + y), ("difference", f1 - f2, lambda x, y: x - y)):
        sides(ctx, g, allv, allv - left, name)
        check_values(ctx, g, full, lambda a: op(r1(a), r2(a)), name)
    q = f1 / f2
    sides(ctx, q, allv, set(cfg["r1"]) | set(d2), "quotient")
    check_values(ctx, q, full, lambda a: r1(a) / r2(a), "quotient")
    # the operands keep their sides
    sides(ctx, f1, d1, cfg["r1"], "operand 1 afterwards")
    sides(ctx, f2, d2, cfg["r2"], "operand 2 afterwards")


def h_unary(ctx, cfg):
    d = dom(cfg["o"])
    vals, r = table(ctx, "x", d)
    f = mf(d, vals, right=cfg["r"], vtype=cfg["vt"])
    g = mf(d, vals, left=[v for v in d if v not in cfg["r"]], vtype=cfg["vt"])
    sides(ctx, g, d, cfg["r"], "given by left side")
    for rem in subsets(list(d), 1):
        keep = [v for v in d if v not in rem]
        right = [v for v in keep if v in cfg["r"]]
        sides(ctx, f.marginalize(*rem), keep, right, f"sum out {rem}")
        if cfg["vt"] != "numpy1d":
            sides(ctx, f.maxmarginalize(*rem), keep, right, f"max out {rem}")
        sides(ctx, f.restrict(**{v: d[v][-1] for v in rem}), keep, right, f"restrict {rem}")
    if cfg["vt"] == "numpy":
        big = [v for v in d if len(d[v]) > 2]
        for v in big:
            h = f.restrict(**{v: d[v][:2]})
            ctx.same(sorted(h.right_vars), sorted(cfg["r"]), f"list restriction {v} right")
            ctx.same(sorted(h.left_vars), sorted(set(d) - set(cfg["r"])), f"list restriction {v} left")


def h_scalar(ctx, cfg):
    d = dom(cfg["o"])
    vals, r = table(ctx, "x", d, pos=True)
    f = mf(d, vals, right=cfg["r"], vtype=cfg["vt"])
    c = ctx.real("c", pos=True)
    for name, g in (("f*c", f * c), ("c*f", c * f), ("f+c", f + c), ("c+f", c + f), ("f-c", f - c), ("c-f", c - f), ("f/c", f / c),
                    ("f*c*c", f * c * c), ("2*f", 2 * f), ("f/2", f / 2)):
        sides(ctx, g, d, cfg["r"], name)


def cond(ctx, cfg):
    d = dom(cfg["o"])
    left = cfg["left"]
    vals, r = cpt(ctx, "p", d, left)
    right = [v for v in d if v != left]
    dr = OrderedDict((v, d[v]) for v in reversed(right))
    if right:
        jv = ctx.dist("q", len(space(dr)))
    else:
        jv = [1.0]
    jr = {key(a): x for a, x in zip(space(dr), jv)}
    f = mf(d, vals, right=right, vtype=cfg["vt"])
    g = mf(dr, jv, vtype=cfg["vt"]) if right else 1.0
    return d, left, right, r, (lambda a: jr[key(sub(a, right))]), f, g


def h_roundtrip(ctx, cfg):
    """P(X|Y) * P(Y) / P(Y) == P(X|Y), and the joint marginalises to P(Y)."""
    d, left, right, r, q, f, g = cond(ctx, cfg)
    j = f * g
    sides(ctx, j, d, [], "joint")
    if right:
        check_values(ctx, j ** left, OrderedDict((v, d[v]) for v in right), q, "joint marginal")
    back = j / g
    sides(ctx, back, d, right, "back")
    check_values(ctx, back, d, r, "back")


def h_bayes(ctx, cfg):
    """joint / its marginal on the conditions is the conditional again; dividing by P(X) gives P(Y|X)."""
    d, left, right, r, q, f, g = cond(ctx, cfg)
    j = f * g
    if right:
        back = j / (j ** left)
        sides(ctx, back, d, right, "conditional")
        check_values(ctx, back, d, r, "conditional")
    m = j.marginalize(*right) if right else j
    inv = j / m
    sides(ctx, inv, d, [left], "inverse conditional")
    dr = OrderedDict((v, d[v]) for v in right)
    px = lambda a: total([r({**b, left: a[left]}) * q(b) for b in space(dr)])
    check_ratio(ctx, inv, d, lambda a: r(a) * q(a), px, "inverse conditional")
