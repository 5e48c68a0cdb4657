"""C03: restriction and value lookup select exactly the observed entries."""
from ..lib import *

BOUNDS = "factors over up to 4 variables with 1-3 (one with 12) states each (string, int, bool, float, tuple, empty-string labels), every partial observation over up to 3 of the variables, states given singly, as one-element lists and (numpy storage) as lists in any order, observations of absent variables, all storages (trees also with branches that end early, in any variable order), values given as lists, nested lists, tuples and arrays in any memory order, every variable order requested for value arrays; equations (deterministic factors) with solver-chosen states; entries arbitrary reals"
OUTSIDE = "more than 4 variables; lists of states outside the numpy storage (rejected there); equations whose own states are tuples; float rounding"

A, B, C, S, E1 = ("A", ["a1", "a2"]), ("B", [0, 1, 2]), ("C", [True, False]), ("S", ["", "x"]), ("E", ["only"])
F, T = ("F", [0.5, 1.5]), ("T", [(0, 1), (1, 0)])
I = ("I", [2, 0, 1])
M, N = ("M", [-1, 0, 1]), ("N", ["10", "9", "1"])
W = ("W", list(range(12)))
X10, X2, X1 = ("X10", [0, 1]), ("X2", ["b", "a"]), ("X1", [2, 1, 0])
Q = ("Q", ["nan", "None", "0"])


def obs_of(d, k):
    """All observations over k of the variables."""
    out = []
    for vs in subsets(list(d), k, k):
        out += space(OrderedDict((v, d[v]) for v in vs))
    return out


def configs(tier):
    doms = [[A, B, C], [I, S], [E1, A, I], [C, F], [T, A]]
    doms += [[A, I, C, S], [M, X10, X2], [W, A], [N, Q]]
    if tier == "thorough":
        doms += [[B, A, E1], [S, I, T], [F, B, C], [C, B, A, F]]
    out = []
    for d in doms:
        for vt in STORES:
            out.append(dict(h="h_single", d=d, vt=vt))
            out.append(dict(h="h_lookup", d=d, vt=vt))
            out.append(dict(h="h_absent", d=d, vt=vt))
        if sum(len(s) for _, s in d) < 10:
            out.append(dict(h="h_lists", d=d, vt="numpy"))
        names = [v for v, _ in d]
        for left in names:
            for vt in STORES:
                if left != "T":
                    out.append(dict(h="h_det", d=d, left=left, vt=vt))
    for vt in STORES:
        out.append(dict(h="h_set", d=[A, I], vt=vt))
        out.append(dict(h="h_chain", d=[A, B, C], vt=vt))
        for how in ("nested", "array", "transposed", "flat", "tuple"):
            out.append(dict(h="h_given", d=[A, B, C], how=how, vt=vt))
            out.append(dict(h="h_given", d=[I, S], how=how, vt=vt))
    # trees with branches that end early
    for n, d in enumerate([[A, B, C], [I, S], [E1, A, I], [C, F], [A, I, C, S], [M, X10, X2], [N, Q], [A, B]] + ([[B, A, S], [T, A], [F, B, C]] if tier == "thorough" else [])):
        for h in ("h_single", "h_lookup", "h_absent", "h_set", "h_chain"):
            if h not in ("h_set", "h_chain") or len(d) < 4:
                out.append(dict(h=h, d=d, vt="treedict", tree=n))
                out.append(dict(h=h, d=d, vt="treedict", tree=n + 20))
    return out


def h_single(ctx, cfg):
    d = D(cfg["d"])
    vals, r = entries(ctx, "x", d, cfg)
    f = mf(d, vals, vtype=cfg["vt"])
    for k in range(1, min(3, len(d)) + 1):
        for o in obs_of(d, k):
            keep = OrderedDict((v, s) for v, s in d.items() if v not in o)
            check_values(ctx, f.restrict(**o), keep, lambda a: r({**a, **o}), f"restrict {o}")
            oo = dict(reversed(list(o.items())))
            check_values(ctx, f.R(**oo), keep, lambda a: r({**a, **o}), f"R {oo}")


def h_chain(ctx, cfg):
    d = D(cfg["d"])
    vals, r = entries(ctx, "x", d, cfg)
    f = mf(d, vals, vtype=cfg["vt"])
    for o in obs_of(d, 2):
        (v1, s1), (v2, s2) = o.items()
        keep = OrderedDict((v, s) for v, s in d.items() if v not in o)
        check_values(ctx, f.R(**{v2: s2}).R(**{v1: s1}), keep, lambda a: r({**a, **o}), f"two steps {o}")


def h_given(ctx, cfg):
    """The entries read the same however the values are handed over."""
    import numpy as np
    from bcause.factors import MultinomialFactor
    d = D(cfg["d"])
    vals, r = table(ctx, "x", d)
    arr = np.array(vals, dtype=object if ctx.symbolic else float).reshape([len(s) for s in d.values()])
    data = {"nested": arr.tolist, "array": lambda: arr, "transposed": lambda: np.array(arr.T, order="C").T, "flat": lambda: arr.ravel(), "tuple": lambda: tuple(vals)}[cfg["how"]]()
    f = MultinomialFactor(d, data, vtype=cfg["vt"])
    check_values(ctx, f, d, r, cfg["how"])
    for a, v in zip(space(d), f.values):
        ctx.eq(v, r(a), f"{cfg['how']}: values {a}")
    o = {v: s[-1] for v, s in list(d.items())[:1]}
    keep = OrderedDict((v, s) for v, s in d.items() if v not in o)
    check_values(ctx, f.R(**o), keep, lambda a: r({**a, **o}), f"{cfg['how']}: restrict {o}")


def h_absent(ctx, cfg):
    d = D(cfg["d"])
    vals, r = entries(ctx, "x", d, cfg)
    f = mf(d, vals, vtype=cfg["vt"])
    check_values(ctx, f.R(Z=1, Y="q"), d, r, "only absent")
    for o in obs_of(d, 1):
        keep = OrderedDict((v, s) for v, s in d.items() if v not in o)
        check_values(ctx, f.R(Z=0, **o), keep, lambda a: r({**a, **o}), f"absent + {o}")
    for a in space(d):
        ctx.eq(f.get_value(Z="no", **a), r(a), f"lookup with absent at {a}")


def h_lookup(ctx, cfg):
    import numpy as np
    d = D(cfg["d"])
    vals, r = entries(ctx, "x", d, cfg)
    f = mf(d, vals, vtype=cfg["vt"])
    sp = space(d)
    for a in sp:
        ctx.eq(f.get_value(**a), r(a), f"get_value {a}")
        ctx.eq(f.get_value(**dict(reversed(list(a.items())))), r(a), f"get_value reversed {a}")
    for name in ("values", "values_list"):
        vl = getattr(f, name)
        ctx.same(len(vl), len(sp), name + " length")
        for a, v in zip(sp, vl):
            ctx.eq(v, r(a), f"{name} {a}")
    vd = f.values_dict
    ctx.same(len(vd), len(sp), "values_dict size")
    for k, v in vd.items():
        ctx.eq(v, r(dict(k)), f"values_dict {k}")
    ctx.eq(f.store.sum_all(), total([r(a) for a in sp]), "sum_all")
    for order in [None] + perms(list(d)):
        arr = f.values_array(order) if order else f.values_array()
        o = order or list(d)
        ctx.same(list(np.shape(arr)), [len(d[v]) for v in o], f"array shape {o}")
        for a in sp:
            ctx.eq(arr[tuple(d[v].index(a[v]) for v in o)], r(a), f"array {o} {a}")
    p = f.prob(sp)
    for a, v in zip(sp, p):
        ctx.eq(v, r(a), f"prob {a}")


def h_lists(ctx, cfg):
    d = D(cfg["d"])
    vals, r = entries(ctx, "x", d, cfg)
    f = mf(d, vals, vtype=cfg["vt"])
    for v in d:
        for k in range(1, len(d[v]) + 1):
            for st in subsets(d[v], k, k):
                for lst in ([st, list(reversed(st))] if k > 1 else [st]):
                    others = [w for w in d if w != v]
                    for o in [{}] + [{w: d[w][-1]} for w in others]:
                        if k == 1:
                            keep = OrderedDict((w, s) for w, s in d.items() if w not in o and w != v)
                            check_values(ctx, f.R(**{v: lst}, **o), keep, lambda a: r({**a, **o, v: st[0]}), f"one-element list {v}={lst} {o}")
                        else:
                            keep = OrderedDict((w, s if w != v else st) for w, s in d.items() if w not in o)
                            check_values(ctx, f.R(**{v: lst}, **o), keep, lambda a: r({**a, **o}), f"list {v}={lst} {o}")
    if len(d) >= 2:
        v, w = list(d)[:2]
        if len(d[v]) > 1 and len(d[w]) > 1:
            keep = OrderedDict((x, s if x not in (v, w) else s[-2:]) for x, s in d.items())
            check_values(ctx, f.R(**{v: d[v][-2:], w: d[w][-2:][::-1]}), keep, r, "two lists")


def h_det(ctx, cfg):
    from bcause.factors import DeterministicFactor
    d = D(cfg["d"])
    left = cfg["left"]
    labels, ref = eqn(ctx, "f", d, left)
    f = DeterministicFactor(d, labels, left_vars=[left], vtype=cfg["vt"])
    right = OrderedDict((v, s) for v, s in d.items() if v != left)
    for pa in space(right):
        val = f.get_value(**pa)
        for s in d[left]:
            # the equation's value is s exactly when the given label is s
            ctx.eq(ctx.indicator(val, s), ref({**pa, left: s}), f"equation {pa} -> {s}")
    for pa, val in zip(space(right), f.values_list):
        for s in d[left]:
            ctx.eq(ctx.indicator(val, s), ref({**pa, left: s}), f"values_list {pa} -> {s}")
    if right:
        for order in perms(list(right)):
            arr = f.values_array(order)
            for pa in space(right):
                val = arr[tuple(right[v].index(pa[v]) for v in order)]
                for s in d[left]:
                    ctx.eq(ctx.indicator(val, s), ref({**pa, left: s}), f"values_array {order} {pa} -> {s}")


def h_set(ctx, cfg):
    """Writing one cell of a store changes that cell only."""
    d = D(cfg["d"])
    sp = space(d)
    for i, a in enumerate(sp):
        vals, r = entries(ctx, f"x{i}", d, cfg)
        f = mf(d, vals, vtype=cfg["vt"])
        y = ctx.real(f"y{i}")
        f.store.set_value(y, a)
        for b in sp:
            ctx.eq(f.store.get_value(**b), y if b == a else r(b), f"after set {a}: {b}")
