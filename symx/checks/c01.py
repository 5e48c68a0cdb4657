"""C01: factor arithmetic is pointwise."""
import itertools
from ..lib import *

BOUNDS = "two operands over up to 5 variables with 1-3 (one with 12) states each (overlapping, nested, disjoint, empty scopes; permuted variable and state orders), all four storages (trees also with branches that end early, testing the variables in any order), entries arbitrary reals (divisors arbitrary non-zero reals, plus 0/0 patterns); scalars arbitrary reals on either side"
OUTSIDE = "more than 5 variables per operand, division of a non-zero by zero, float rounding"
OPS = {"mul": lambda x, y: x * y, "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "div": lambda x, y: x / y}

A, B, C = ("A", ["a1", "a2"]), ("B", [0, 1, 2]), ("C", [True, False])
Br, Cr = ("B", [2, 0, 1]), ("C", [False, True])
E1 = ("E", ["only"])
S = ("S", ["", "x"])
T = ("T", [(0, 1), (1, 0)])
F = ("F", [0.5, 1.5])
M, N = ("M", [-1, 0, 1]), ("N", ["10", "9", "1"])
W = ("W", list(range(12)))
X10, X2, X1 = ("X10", [0, 1]), ("X2", ["b", "a"]), ("X1", [2, 1, 0])
Mr, Wr = ("M", [1, -1, 0]), ("W", [11, 0, 10] + list(range(1, 10)))


def configs(tier):
    scopes = [
        ([A, B], [B, C]), ([A, B], [C, B]), ([B, A], [A, B]), ([A], [B]), ([A, B, C], [C, A]), ([C], [A, B, C]),
        ([A, B], [A]), ([B], [A, B]), ([A, B], [Br]), ([A, B, C], [Cr, Br]), ([E1, A], [A, E1]), ([A, S], [S, B]),
        ([A], [A]), ([B], [Br]), ([C, A], [Cr]), ([A, B], []), ([], [A, B]), ([E1], [B]),
        ([B, S], [S, Br]), ([A, C], [Cr, A]), ([T, A], [A, T]),
    ]
    if tier == "thorough":
        vs = [A, B, C, S]
        extra = []
        for k1 in range(1, 4):
            for k2 in range(1, 4):
                for s1 in itertools.permutations(vs, k1):
                    for s2 in itertools.permutations(vs, k2):
                        if k1 + k2 <= 5:
                            extra.append((list(s1), list(s2)))
        scopes = scopes + extra
    out = []
    wide = [([A, B, C], [C, B, A]), ([C, B, A], [A, Br, Cr]), ([A, B, C, S], [S, Cr, A]), ([S, A], [C, B, A, S]), ([W], [Wr]), ([A, W], [W]),
            ([M, A], [Mr]), ([X10, X2], [X2, X1, X10]), ([X2, A, X10], [X1, X10]), ([A, B], [C, S]), ([A, C, S, F], [F, M, A]), ([N, A], [A, N]),
            ([A, C, S, F, X10], [X10, F, C]), ([A, C], [S, F, X10, X2]), ([Br, E1, A], [B, E1]), ([A, B, E1], [E1, C])]
    for n, (s1, s2) in enumerate(wide):
        for vt in STORES if len(s1) + len(s2) <= 6 else ("numpy", STORES[n % 4]):
            for op in OPS:
                out.append(dict(h="h_pair", d1=s1, d2=s2, op=op, vt=vt))
    for n, (s1, s2) in enumerate(scopes):
        stores = STORES
        if tier == "thorough" and n >= 21:
            stores = [STORES[n % 4], "numpy"] if n % 4 else ["numpy"]
        for vt in stores:
            for op in OPS:
                out.append(dict(h="h_pair", d1=s1, d2=s2, op=op, vt=vt))
    for vt in STORES:
        for op in OPS:
            for side in ("right", "left"):
                for kind in ("sym", "int", "const"):
                    out.append(dict(h="h_scalar", d=[A, B] if side == "right" else [B, C], op=op, side=side, kind=kind, vt=vt))
    for d1, d2 in (([A, B], [B]), ([A, B], [A, B]), ([B, C], [C])):
        out.append(dict(h="h_zero_over_zero", d1=d1, d2=d2, vt="numpy"))
    # trees with branches that end early
    part = [([A, B], [B, C]), ([A, B, C], [C, A]), ([B, A], [A, B]), ([A, B, C], [Cr, Br]), ([A, B, C, S], [S, C, A]), ([A], [B, C]),
            ([X10, X2, A], [X2, X1]), ([A, C, S, F], [F, M, A]), ([A, E1], [E1, A, B])]
    for n, (s1, s2) in enumerate(part):
        for k, op in enumerate(OPS):
            for t1, t2 in ((n + 10 * k, None), (None, n + 10 * k), (n + 3 * k, n + 7 * k + 1)) + (((n + 50 + k, n + 80 + k), (n + 90, n + 70 + k)) if tier == "thorough" else ()):
                out.append(dict(h="h_pair", d1=s1, d2=s2, op=op, vt="treedict", t1=t1, t2=t2))
            for side in ("right", "left"):
                out.append(dict(h="h_scalar", d=s1, op=op, side=side, kind=("sym", "const")[n % 2], vt="treedict", tree=n + 20 * k))
        out.append(dict(h="h_combine_all", ds=[[A, B], [B, C], [C, A], [A, C]], vt="treedict", tree=n))
    for vt in STORES:
        out.append(dict(h="h_combine_all", ds=[[A, B], [B, C], [C], [A, C]], vt=vt))
    return out


def h_pair(ctx, cfg):
    d1, d2 = D(cfg["d1"]), D(cfg["d2"])
    op = OPS[cfg["op"]]
    v1, r1 = entries(ctx, "x", d1, cfg, "t1")
    v2, r2 = entries(ctx, "y", d2, cfg, "t2", nozero=cfg["op"] == "div")
    f1 = mf(d1, v1, vtype=cfg["vt"])
    f2 = mf(d2, v2, vtype=cfg["vt"])
    dom = OrderedDict(list(d1.items()) + [(v, s) for v, s in d2.items() if v not in d1])
    res = op(f1, f2)
    check_values(ctx, res, dom, lambda a: op(r1(a), r2(a)), cfg["op"])


def h_scalar(ctx, cfg):
    d = D(cfg["d"])
    v, r = entries(ctx, "x", d, cfg, nozero=cfg["op"] == "div" and cfg["side"] == "left")
    c = {"sym": lambda: ctx.real("c"), "int": lambda: 3, "const": lambda: 0.25}[cfg["kind"]]()
    op = OPS[cfg["op"]]
    if cfg["op"] == "div":
        for y in ([] if cfg["side"] == "left" else [c]):
            ctx.assume(y != 0)
    f = mf(d, v, vtype=cfg["vt"])
    if cfg["side"] == "right":
        res, ref = op(f, c), (lambda a: op(r(a), c))
    else:
        res, ref = op(c, f), (lambda a: op(c, r(a)))
    check_values(ctx, res, d, ref, f"{cfg['op']} scalar {cfg['side']}")


def h_zero_over_zero(ctx, cfg):
    d1, d2 = D(cfg["d1"]), D(cfg["d2"])
    # entries with the first state of the divisor's first variable are 0 in both operands
    v0 = list(d2)[0]
    s0 = d2[v0][0]
    v1, r1 = table(ctx, "x", d1)
    v2, r2 = table(ctx, "y", d2, pos=True)
    z = lambda a: a[v0] == s0
    f1 = mf(d1, [0.0 if z(a) else r1(a) for a in space(d1)], vtype=cfg["vt"])
    f2 = mf(d2, [0.0 if z(a) else r2(a) for a in space(d2)], vtype=cfg["vt"])
    check_values(ctx, f1 / f2, d1, lambda a: 0.0 if z(a) else r1(a) / r2(a), "0/0")


def h_combine_all(ctx, cfg):
    from bcause.factors.factor import Factor
    fs, rs, dom = [], [], OrderedDict()
    for i, p in enumerate(cfg["ds"]):
        d = D(p)
        dom.update({v: s for v, s in d.items() if v not in dom})
        v, r = entries(ctx, f"x{i}", d, cfg)
        fs.append(mf(d, v, vtype=cfg["vt"]))
        rs.append(r)
    check_values(ctx, Factor.combine_all(*fs), dom, lambda a: prod([r(a) for r in rs]), "combine_all")
