"""C14: counts and queries from data are relative frequencies."""
from ..lib import *
from ..models import *

BOUNDS = "data sets over 1-5 variables of 2-3 (one of 12) states (integers, strings, booleans, listed in any order) with up to 8 distinct records, each present an arbitrary positive number of times, further columns and missing cells included; every set of counted variables in several orders, raw and normalised; every single and several joint targets with evidence over up to 4 and conditions over up to 2 further variables"
OUTSIDE = "evidence or conditions that no record meets, states outside the declared domain, missing cells in non-string columns (refused by the code)"
ASSUME = ["record multiplicities are positive reals (every integer multiplicity is an instance); pandas selection runs for real on the distinct records"]
DOM = doms("A:b B:s C:3 D:t")
STR = doms("A:s B:e C:n")


def full(dom):
    return [list(a.values()) for a in space(D(dom))]


def configs(tier):
    out, deep = [], tier == "thorough"
    dom4 = [(v, s[:2]) for v, s in DOM]
    sets = [
        ("full3", DOM[:3], full(DOM[:2] + [("C", [2, 0])])),
        ("sparse4", DOM, [[0, "b1", 2, True], [1, "b2", 0, True], [1, "b1", 1, False], [0, "b2", 0, True]]),
        ("one", DOM[:2], [[1, "b1"]]),
        ("single", DOM[2:3], [[1], [2]]),
        ("half", dom4, full(dom4)[::3]),
        ("bools", [("D", [True, False]), ("A", [1, 0])], [[True, 1], [False, 0], [True, 0]]),
        ("neg", [("M", [-1, 0, 1]), ("X10", [0, 1]), ("X2", ["b", "a"]), ("X1", [2, 1, 0])], [[-1, 0, "a", 2], [1, 1, "b", 0], [0, 1, "a", 1], [-1, 1, "b", 2], [1, 0, "a", 0], [0, 0, "b", 1]]),
        ("twelve", [("W", list(range(12))), ("N", ["10", "9", "1"])], [[11, "9"], [2, "10"], [10, "9"], [1, "1"]]),
        ("floats", [("F", [0.0, 2.5]), ("R", [1, 0])], [[2.5, 1], [0.0, 0], [2.5, 0]]),
        # the same states in several variables
        ("same5", [(v, [0, 1]) for v in "EADBC"], [[0, 1, 0, 1, 1], [1, 0, 0, 1, 0], [0, 0, 1, 1, 0], [1, 1, 0, 0, 1], [0, 1, 1, 0, 0], [1, 0, 1, 0, 1], [0, 0, 0, 1, 1], [1, 1, 1, 1, 0]]),
        ("same4", [(v, ["n", "y", "m"]) for v in ("V", "V1", "V10", "V2")], [["n", "y", "n", "m"], ["y", "n", "m", "n"], ["n", "n", "y", "m"], ["m", "y", "y", "n"], ["n", "y", "m", "n"], ["y", "y", "n", "n"]]),
    ]
    for name, dom, rows in sets:
        names = [v for v, _ in dom]
        for S in subsets(names, 1, len(names)):
            for o in (S, S[::-1]) if len(S) > 1 else (S,):
                for norm in (False, True):
                    out.append(dict(h="h_counts", name=name, dom=dom, rows=rows, cols=names, vs=list(o), norm=norm))
        if name in ("sparse4", "neg", "same5", "same4"):
            for i, v in enumerate(names):
                rest = [w for w in names if w != v]
                for ev in subsets(rest, 3, 4):
                    for r in rows[i % 2::2]:
                        out.append(dict(h="h_query", name=name, dom=dom, rows=rows, cols=names, t=[v], ev={w: r[names.index(w)] for w in (ev if i % 2 else ev[::-1])}, cond=None))
        for k, S in enumerate(subsets(names, 1, 2 if not deep else 3)):
            rest = [v for v in names if v not in S]
            for ev in subsets(rest, 0, 2):
                seen = []
                for r in rows:
                    e = {v: r[names.index(v)] for v in ev}
                    if e in seen:
                        continue
                    seen.append(e)
                    if not deep and len(seen) > 2:
                        break
                    out.append(dict(h="h_query", name=name, dom=dom, rows=rows, cols=names[::-1] if k % 2 else names, t=S, ev=e, cond=None))
                    for c in subsets([v for v in rest if v not in ev], 1, 2):
                        out.append(dict(h="h_query", name=name, dom=dom, rows=rows, cols=names, t=S[::-1], ev=e, cond=c))
    # missing cells
    nan = None
    miss = [["a1", nan, "c0"], ["a2", "x", "c1"], ["a1", "", nan], [nan, nan, "c0"], ["a2", "", "c0"], ["a1", nan, "c1"]]
    for S in subsets(["A", "B", "C"], 1, 3):
        for norm in (False, True):
            out.append(dict(h="h_counts", name="miss", dom=STR, rows=miss, cols=["A", "B", "C"], vs=S, norm=norm))
            out.append(dict(h="h_counts", name="miss", dom=STR, rows=miss[:3], cols=["A", "B", "C"], vs=S[::-1], norm=norm))
    some = [["a1", "x", nan], ["a2", "x", "c1"], ["a1", "", nan], ["a2", "", "c0"]]
    for t, ev in ((["A"], {"B": "x"}), (["B"], {}), (["A"], {"C": "c1"}), (["A", "B"], {}), (["B"], {"A": "a1"})):
        out.append(dict(h="h_query", name="miss", dom=STR, rows=some, cols=["A", "B", "C"], t=t, ev=ev, cond=None))
    out.append(dict(h="h_empty", dom=DOM))
    for name, dom, rows in sets[:3]:
        out.append(dict(h="h_seq", name=name, dom=dom, rows=rows, cols=[v for v, _ in dom]))
    return out


def _data(ctx, cfg):
    rows, cols = [list(r) for r in cfg["rows"]], [v for v, _ in cfg["dom"]]
    ns = [ctx.count(f"n{i}") for i in range(len(rows))]
    recs = [dict(zip(cols, r)) for r in rows]
    data = ctx.frame([[o[v] for v in cfg["cols"]] for o in recs], list(cfg["cols"]), ns)
    return data, recs, ns


def freq(recs, ns, part):
    ok = lambda x, s: (x is None and s == "nan") or (x is not None and x == s)
    return total([n for o, n in zip(recs, ns) if all(ok(o[v], s) for v, s in part.items())])


def h_counts(ctx, cfg):
    from bcause.util.datautils import to_counts
    data, recs, ns = _data(ctx, cfg)
    dom = OrderedDict((v, list(dict(cfg["dom"])[v])) for v in cfg["vs"])
    given = OrderedDict((v, list(s)) for v, s in dom.items())
    f = to_counts(given, data, normalize=cfg["norm"])
    ctx.same(dict(given), dict(dom), "domains passed in are unchanged")
    d = OrderedDict((v, s + (["nan"] if any(o[v] is None for o in recs) else [])) for v, s in dom.items())
    check_scope(ctx, f, d, "counts")
    N = total(ns)
    for a in space(d):
        n = freq(recs, ns, a)
        ctx.eq(f.get_value(**a), n / N if cfg["norm"] else n, f"count at {a}")


def h_query(ctx, cfg):
    from bcause.inference.probabilistic.datainference import LaplaceInference
    data, recs, ns = _data(ctx, cfg)
    dom = OrderedDict((v, list(s)) for v, s in cfg["dom"])
    t, ev, c = cfg["t"], cfg["ev"], cfg["cond"]
    for pre in (True, False):
        inf = LaplaceInference(data, D(dom.items()), preprocess_flag=pre)
        f = inf.query(t if len(t) > 1 else t[0], conditioning=c, evidence=dict(ev) if ev else None)
        d = OrderedDict((v, dom[v]) for v in list(t) + list(c or []))
        check_scope(ctx, f, d, f"P({t}|{c},{ev})")
        for a in space(d):
            den = freq(recs, ns, {**ev, **sub(a, c or [])})
            if not ctx.symbolic and den == 0 or ctx.symbolic and den == 0.0 and isinstance(den, float):
                continue
            ctx.eq(f.get_value(**a), freq(recs, ns, {**ev, **a}) / den, f"P({t}|{c},{ev}) at {a}")


def h_empty(ctx, cfg):
    from bcause.util.datautils import to_counts
    d = D(cfg["dom"])
    f = to_counts(d)
    for a in space(d):
        ctx.eq(f.get_value(**a), 0.0, f"no data: {a}")
    ctx.eq(ctx.real("x", pos=True) * 0, 0.0, "x")


def h_seq(ctx, cfg):
    """One inference object answers several queries, each from the whole data set."""
    from bcause.inference.probabilistic.datainference import LaplaceInference
    data, recs, ns = _data(ctx, cfg)
    dom = OrderedDict((v, list(s)) for v, s in cfg["dom"])
    names = list(dom)
    inf = LaplaceInference(data, D(dom.items()))
    qs = [([names[0]], {}), ([names[0]], {names[1]: recs[0][names[1]]}), ([names[1]], {names[0]: recs[-1][names[0]]}), ([names[0]], {}), (names[:2], {}), ([names[1]], {names[0]: recs[0][names[0]]})]
    for t, ev in qs:
        f = inf.query(t, evidence=ev)
        d = OrderedDict((v, dom[v]) for v in t)
        for a in space(d):
            ctx.eq(f.get_value(**a), freq(recs, ns, {**ev, **a}) / freq(recs, ns, ev), f"P({t}|{ev}) at {a}")
