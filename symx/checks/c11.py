"""C11: necessity and sufficiency probabilities match their definitions."""
from ..lib import *
from ..models import *
from ..models import _rng
from .c10 import worlds_mass

BOUNDS = "structural causal models with 2-3 (2-5 with all but two equations fixed) endogenous and 1-3 exogenous variables (confounded, Markovian, instrumental, mediated, no causal path), cause and effect any pair, states 1/0, 0/1, 1.0/0.0, True/False, name1/name0, name1/name2 in both listing orders and explicit true/false pairs (also swapped, for the cause or the effect only, also among three states); equations solver-chosen among all functions"
OUTSIDE = "larger models, impossible evidence, float rounding"

# (states, true, false) of a variable named V
KINDS = {
    "01": lambda v: ([0, 1], 1, 0), "10": lambda v: ([1, 0], 1, 0), "fl": lambda v: ([0.0, 1.0], 1.0, 0.0), "lf": lambda v: ([1.0, 0.0], 1.0, 0.0),
    "tf": lambda v: ([True, False], True, False), "ft": lambda v: ([False, True], True, False),
    "n01": lambda v: ([v.lower() + "0", v.lower() + "1"], v.lower() + "1", v.lower() + "0"),
    "n10": lambda v: ([v + "1", v + "0"], v + "1", v + "0"),
    "n12": lambda v: ([v.lower() + "1", v.lower() + "2"], v.lower() + "1", v.lower() + "2"),
    "n21": lambda v: ([v.lower() + "2", v.lower() + "1"], v.lower() + "1", v.lower() + "2"),
}
STRUCT = {
    "confounded": ("X>Y U>X U>Y", "U:3"), "markov": ("X>Y U>X V>Y", "U:b V:3"), "reverse": ("Y>X U>Y V>X", "U:b V:b"),
    "noexoY": ("X>Y U>X", "U:3"), "mediated": ("X>Z Z>Y X>Y U>X V>Z W>Y", "U:b V:b W:b Z:s"), "iv": ("Z>X X>Y U>X U>Y W>Z", "U:b W:b Z:s"),
}


def configs(tier):
    out = []
    kinds = list(KINDS)
    for s in STRUCT:
        for i, kc in enumerate(kinds):
            for j, ke in enumerate(kinds):
                if tier == "thorough" or (s in ("confounded",) and (i + j) % 2 == 0) or j == (i + 3) % len(kinds):
                    for q in ("PN", "PS", "PNS"):
                        if tier == "thorough" and s in ("mediated", "iv") and (i + j) % 3:
                            continue
                        out.append(dict(h="h_prob", s=s, kc=kc, ke=ke, q=q, tf=None))
        for q in ("PN", "PS", "PNS"):
            for tf, ke in (("cause", "01"), ("cause", "n12"), ("effect", "10"), ("effect", "n21"), ("effect", "01")):
                out.append(dict(h="h_prob", s=s, kc="01", ke=ke, q=q, tf=tf))
        for tf in ("same", "swapped"):
            for q in ("PN", "PS", "PNS"):
                out.append(dict(h="h_prob", s=s, kc="01", ke="n12", q=q, tf=tf))
                out.append(dict(h="h_prob", s=s, kc="tf", ke="10", q=q, tf=tf))
    for s in range(40 if tier == "thorough" else 16):
        c = wide_scm(s + 500, 2 + s % 4, 2, free=2)
        endo = [v for v, _ in c["dom"] if v not in c["exo"]]
        for k, q in enumerate(("PN", "PS", "PNS")):
            out.append(dict(h="h_wide", q=q, x=endo[(s + k) % len(endo)], y=endo[(s + k + 1) % len(endo)], at=simulate(_rng(s * 3 + k), c), w=2, **c))
    for q in ("PN", "PS", "PNS"):
        for s in ("confounded", "markov"):
            out.append(dict(h="h_three", s=s, q=q))
            for ey in ((0, 2), (1, 0), (1, 2), (2, 1)):
                out.append(dict(h="h_three", s=s, q=q, ey=ey, ex=[("hi", "mid"), ("lo", "hi"), ("mid", "lo"), ("lo", "mid")][ey[0] + (ey[1] > 1)]))
        out.append(dict(h="h_prob", s="confounded", kc="01", ke="10", q=q, tf=None, exact=True))
        out.append(dict(h="h_prob", s="reverse", kc="01", ke="n01", q=q, tf=None, exact=True))
    return out


def expected(net, endo, exo, q, X, Y, tx, fx, ty, fy):
    if q == "PN":
        ev = {X: tx, Y: ty}
        return ev, worlds_mass(net, endo, exo, ev, [({X: fx}, {Y: fy})])
    if q == "PS":
        ev = {X: fx, Y: fy}
        return ev, worlds_mass(net, endo, exo, ev, [({X: tx}, {Y: ty})])
    return {}, worlds_mass(net, endo, exo, {}, [({X: fx}, {Y: fy}), ({X: tx}, {Y: ty})])


def call(inf, q, *a):
    return {"PN": inf.prob_necessity, "PS": inf.prob_sufficiency, "PNS": inf.prob_necessity_sufficiency}[q](*a)


def build(cfg, X, Y):
    es, extra = STRUCT[cfg["s"]]
    dom = [("X", X), ("Y", Y)] + doms(extra)
    return dict(dom=dom, edges=arcs(es), exo=[v for v, _ in dom if v in "UVW"], form="det")


def h_prob(ctx, cfg):
    from bcause.inference.causal.elimination import CausalVariableElimination
    xs, tx, fx = KINDS[cfg["kc"]]("X")
    ys, ty, fy = KINDS[cfg["ke"]]("Y")
    c = build(cfg, xs, ys)
    m, net = make_scm(ctx, c)
    args = []
    if cfg["tf"]:
        # which pairs are given; those given alone are swapped, the other one is the default
        if cfg["tf"] in ("swapped", "cause"):
            tx, fx = fx, tx
        if cfg["tf"] in ("swapped", "effect"):
            ty, fy = fy, ty
        args = [(tx, fx) if cfg["tf"] != "effect" else None, (ty, fy) if cfg["tf"] != "cause" else None]
    endo = [v for v in net.dom if v not in c["exo"]]
    ev, num = expected(net, endo, c["exo"], cfg["q"], "X", "Y", tx, fx, ty, fy)
    den = worlds_mass(net, endo, c["exo"], ev, [])
    ctx.assume(den != 0)
    ctx.eq(call(CausalVariableElimination(m), cfg["q"], "X", "Y", *args), num / den, cfg["q"])


def h_wide(ctx, cfg):
    """Cause and effect anywhere in a larger model; cfg["at"] is a factual world with the observed pair."""
    from bcause.inference.causal.elimination import CausalVariableElimination
    m, net = make_scm(ctx, cfg)
    x, y, at = cfg["x"], cfg["y"], cfg["at"]
    other = lambda v: next(s for s in net.dom[v] if s != at[v])
    tx, fx, ty, fy = at[x], other(x), at[y], other(y)
    if cfg["q"] == "PS":
        tx, fx, ty, fy = fx, tx, fy, ty
    endo = [v for v in net.dom if v not in cfg["exo"]]
    ev, num = expected(net, endo, cfg["exo"], cfg["q"], x, y, tx, fx, ty, fy)
    den = worlds_mass(net, endo, cfg["exo"], ev, [])
    ctx.assume(den != 0)
    ctx.eq(call(CausalVariableElimination(m), cfg["q"], x, y, (tx, fx), (ty, fy)), num / den, f"{cfg['q']} of {x} for {y}")


def h_three(ctx, cfg):
    """Three-state cause and effect: the given pairs say which states count."""
    from bcause.inference.causal.elimination import CausalVariableElimination
    c = build(cfg, ["lo", "mid", "hi"], [0, 1, 2])
    m, net = make_scm(ctx, c)
    endo = ["X", "Y"]
    inf = CausalVariableElimination(m)
    for (tx, fx), (ty, fy) in [(cfg["ex"], cfg["ey"])] if "ey" in cfg else ((("hi", "lo"), (2, 0)), (("mid", "hi"), (0, 1))):
        ev, num = expected(net, endo, c["exo"], cfg["q"], "X", "Y", tx, fx, ty, fy)
        den = worlds_mass(net, endo, c["exo"], ev, [])
        ctx.eq(call(inf, cfg["q"], "X", "Y", (tx, fx), (ty, fy)), num / den, f"{cfg['q']} {tx},{fx},{ty},{fy}")
