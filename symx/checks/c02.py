"""C02: eliminating variables sums (or maximises) over exactly their states."""
from ..lib import *

BOUNDS = "factors over up to 5 variables with 1-3 (one with 12) states each in any variable order, every non-empty subset of removed variables in several listing orders, one-by-one elimination in every order (up to 3 removed), method and operator forms, all storages (max-elimination: numpy, list, treedict; trees also with branches that end early); entries arbitrary reals"
OUTSIDE = "more than 5 variables; max-elimination in the numpy1d storage (not implemented there); float rounding"

A, B, C, S, E1 = ("A", ["a1", "a2"]), ("B", [0, 1, 2]), ("C", [True, False]), ("S", ["", "x"]), ("E", ["only"])
F = ("F", [0.5, 1.5])
M, N = ("M", [-1, 0, 1]), ("N", ["10", "9", "1"])
W = ("W", list(range(12)))
X10, X2, X1 = ("X10", [0, 1]), ("X2", ["b", "a"]), ("X1", [2, 1, 0])


def configs(tier):
    doms = [[A, B], [B, A, C], [C, A, B], [E1, B, A], [A], [S, B]]
    doms += [[A, C, S, F], [M, X10, X2], [W, A], [X2, E1, X10], [N, C]]
    if tier == "thorough":
        doms += [[B, C, A, S], [S, E1, B, A], [C, B, S], [A, B, C], [B, C, A], [A, C, B], [C, B, A]]
    out = []
    for d in doms:
        names = [v for v, _ in d]
        for op in ("sum", "max"):
            for vt in STORES:
                if op == "max" and vt == "numpy1d":
                    continue
                for rem in subsets(names, 1):
                    for order in ([rem, list(reversed(rem))] if len(rem) > 1 else [rem]):
                        if op == "max" and len(d) > 3:
                            continue
                        out.append(dict(h="h_elim", d=d, rem=order, op=op, vt=vt))
                out.append(dict(h="h_absent", d=d, op=op, vt=vt))
    for rem in (["A"], ["X10"], ["S", "A"], ["F", "C", "X10"], ["X10", "F", "S", "C", "A"], ["C", "S", "F", "X10"]):
        for vt in STORES:
            out.append(dict(h="h_elim", d=[A, C, S, F, X10], rem=rem, op="sum", vt=vt))
    # trees with branches that end early
    for n, d in enumerate([[A, B], [B, A, C], [C, A, B], [A, C, S, F], [M, X10, X2], [E1, A, B], [X2, E1, X10], [N, C]]):
        names = [v for v, _ in d]
        for op in ("sum", "max"):
            for j, rem in enumerate(subsets(names, 1)):
                if op == "max" and len(d) > 3 and len(rem) > 1:
                    continue
                out.append(dict(h="h_elim", d=d, rem=rem if j % 2 else rem[::-1], op=op, vt="treedict", tree=n + 10 * j))
                if tier == "thorough" or len(d) < 4:
                    out.append(dict(h="h_elim", d=d, rem=rem if not j % 2 else rem[::-1], op=op, vt="treedict", tree=n + 10 * j + 5))
            out.append(dict(h="h_absent", d=d, op=op, vt="treedict", tree=n))
        out.append(dict(h="h_split", d=d, vt="treedict", tree=n, tree2=n + 1))
    for vt in STORES:
        for d in ([A, B, C], [B, S]):
            out.append(dict(h="h_split", d=d, vt=vt))
    return out


def ref_elim(ctx, d, r, rem, op):
    keep = OrderedDict((v, s) for v, s in d.items() if v not in rem)
    gone = OrderedDict((v, d[v]) for v in rem)
    agg = total if op == "sum" else ctx.max
    return keep, Ref(keep, lambda a: agg([r({**a, **b}) for b in space(gone)]))


def elim(f, op, *vs):
    return f.marginalize(*vs) if op == "sum" else f.maxmarginalize(*vs)


def h_elim(ctx, cfg):
    d = D(cfg["d"])
    vals, r = entries(ctx, "x", d, cfg)
    f = mf(d, vals, vtype=cfg["vt"])
    rem, op = cfg["rem"], cfg["op"]
    keep, ref = ref_elim(ctx, d, r, rem, op)
    check_values(ctx, elim(f, op, *rem), keep, ref, f"{op} at once")
    opf = (f ** rem) if op == "sum" else (f ^ rem)
    check_values(ctx, opf, keep, ref, f"{op} operator")
    if len(rem) == 1:
        opf = (f ** rem[0]) if op == "sum" else (f ^ rem[0])
        check_values(ctx, opf, keep, ref, f"{op} operator, plain name")
    else:
        g = f
        for v in rem:
            g = elim(g, op, v)
        check_values(ctx, g, keep, ref, f"{op} one by one")
        g = f
        for v in rem[1:] + rem[:1]:
            g = elim(g, op, v)
        check_values(ctx, g, keep, ref, f"{op} one by one, rotated")


def h_absent(ctx, cfg):
    d = D(cfg["d"])
    vals, r = entries(ctx, "x", d, cfg)
    f = mf(d, vals, vtype=cfg["vt"])
    check_values(ctx, elim(f, cfg["op"], "Z"), d, r, "absent variable")
    check_values(ctx, elim(f, cfg["op"], "Z", "a"), d, r, "absent variables")
    check_values(ctx, elim(f, cfg["op"]), d, r, "no variable")


def h_split(ctx, cfg):
    """Distributivity users rely on: eliminating from a product only touches the factors with the variable."""
    d = D(cfg["d"])
    v0 = list(d)[0]
    d2 = OrderedDict((v, s) for v, s in d.items() if v != v0)
    v1, r1 = entries(ctx, "x", d, cfg)
    v2, r2 = entries(ctx, "y", d2, cfg, "tree2")
    f, g = mf(d, v1, vtype=cfg["vt"]), mf(d2, v2, vtype=cfg["vt"])
    keep, ref = ref_elim(ctx, d, r1, [v0], "sum")
    check_values(ctx, (f * g) ** v0, keep, lambda a: ref(a) * r2(a), "sum of product")
