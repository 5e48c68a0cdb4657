"""C09: interventional queries follow the truncated factorisation."""
import networkx as nx
from ..lib import *
from ..models import *

BOUNDS = "structural causal models with up to 3 endogenous and 3 exogenous variables of 2-3 states (Markovian, confounded, instrumental, front-door, independent parts, endogenous variables without exogenous parent or without any parent), equations solver-chosen among all functions, given as functions or 0/1 tables; models of 3-6 endogenous and 2-3 exogenous variables with all but one equation fixed; every single and several joint interventions, every single target, evidence over up to one further variable (any endogenous or exogenous); intervened models of every such intervention"
OUTSIDE = "larger models, evidence impossible in the intervened model, float rounding"


def do_ev(c, deep):
    dom = dict(c["dom"])
    endo = [v for v in dom if v not in c["exo"]]
    dos = [{v: s} for v in endo for s in dom[v]]
    if len(endo) > 1:
        dos += [{endo[0]: dom[endo[0]][0], endo[1]: dom[endo[1]][-1]}, {endo[-1]: dom[endo[-1]][0], endo[0]: dom[endo[0]][-1]}]
    if len(endo) > 2:
        dos += [{v: dom[v][0] for v in endo}, {endo[2]: dom[endo[2]][-1], endo[1]: dom[endo[1]][0]}]
    dos.append({})
    for do in dos:
        rest = [v for v in dom if v not in do]
        for t in rest:
            yield [t], do, {}
            for e in rest:
                if e != t:
                    for s in (dom[e] if deep else dom[e][:1] if len(do) == 1 else dom[e][-1:]):
                        yield [t], do, {e: s}
        if len(rest) >= 2:
            yield [rest[-1], rest[0]], do, {}
        if deep and len(rest) >= 3:
            for e in subsets(rest[1:], 2, 2):
                yield [rest[0]], do, {v: dom[v][-1] for v in e}


def configs(tier):
    out, deep = [], tier == "thorough"
    for name in SCM:
        c = scm(name)
        big = len(c["dom"]) > 5
        if not deep and big:
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        qs = list(do_ev(c, deep))
        keep = 100000 if deep else 50
        st = max(1, len(qs) // keep)
        for i, (t, do, ev) in enumerate(qs):
            if i % st == 0 or not ev:
                form = ("det", "tab", "mix")[i % 3]
                out.append(dict(h="h_query", t=t, do=do, ev=ev, form=form, w=2 if big else 1, layout=("first", "last", "rev")[i % 3], **c))
        for form in ("det", "tab"):
            for cast in (True, False):
                for n, vt in enumerate([None, "list", "treedict"]):
                    if n == 0 or deep or name in ("confounded", "iv"):
                        out.append(dict(h="h_model", form=form, cast=cast, vtype=vt, **c))
    for name in ("confounded", "markov2", "one"):
        c = scm(name)
        c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
        for t, do, ev in do_ev(c, True):
            if ev:
                out.append(dict(h="h_query", t=t, do=do, ev=ev, exact=True, form="det", **c))
    # every structure over two endogenous and one or two exogenous variables
    for i, c in enumerate(list(all_scms(2, 1)) + list(all_scms(2, 2, rev=True)) + (list(all_scms(3, 1)) if deep else list(all_scms(3, 1))[::3])):
        for k, (t, do, ev) in enumerate(do_ev(c, False)):
            if deep or (k + i) % 4 == 0:
                out.append(dict(h="h_query", t=t, do=do, ev=ev, form=("det", "tab", "mix")[k % 3], layout=("first", "last", "rev")[i % 3], **c))
        out.append(dict(h="h_model", form=("det", "tab")[i % 2], cast=i % 3 == 0, vtype=None, **c))
        out.append(dict(h="h_nested", **c))
    # endogenous variables without parents, declared explicitly
    c = dict(dom=doms("X:b Y:s U:b"), edges=arcs("X>Y U>Y"), exo=["U"], endo=["X", "Y"], name="rootendo")
    for t, do, ev in do_ev(c, False):
        out.append(dict(h="h_query", t=t, do=do, ev=ev, form="tab", **c))
    out.append(dict(h="h_model", form="tab", cast=True, vtype=None, **c))
    for s in range(60 if deep else 24):
        c = wide_scm(s, 3 + s % 4, 2 + s % 2)
        for k, (t, do, ev) in enumerate(some_causal(s, c, 12 if deep else 6)):
            out.append(dict(h="h_query", t=t, do=do, ev=ev, form=("det", "tab", "mix")[k % 3], w=2, **c))
        out.append(dict(h="h_model", form=("mix", "det", "tab")[s % 3], cast=s % 2 == 0, vtype=STORES[s % 4] if s % 2 else None, w=2, **c))
        out.append(dict(h="h_nested", w=2, **c))
    # trees with branches that end early
    for s, c in enumerate(csi_scms(16 if deep else 6)):
        for k, (t, do, ev) in enumerate(some_causal(s, c, 6)):
            out.append(dict(h="h_query", t=t, do=do, ev=ev, w=2, **c))
        out.append(dict(h="h_model", cast=s % 2 == 0, w=2, **c))
        out.append(dict(h="h_nested", w=2, **c))
    out.append(dict(h="h_seq", **scm("iv")))
    out.append(dict(h="h_seq", **scm("confounded")))
    out.append(dict(h="h_nested", **scm("chain3")))
    out.append(dict(h="h_nested", **scm("confounded")))
    return out


def truncated(net, do):
    """Net with the intervened mechanisms replaced by constants."""
    refs = dict(net.refs)
    for v, s in do.items():
        refs[v] = Ref(OrderedDict([(v, net.dom[v])]), lambda a, v=v, s=s: 1.0 if a[v] == s else 0.0)
    return Net(net.dom, refs)


def mass_do(net, do, fixed):
    """P(fixed | do) skipping the intervened variables' own terms."""
    for v, s in do.items():
        if v in fixed and fixed[v] != s:
            return 0.0
    free = OrderedDict((v, s) for v, s in net.dom.items() if v not in fixed and v not in do)
    return total([prod([net.refs[v]({**a, **fixed, **do}) for v in net.dom if v not in do]) for a in space(free)])


def h_query(ctx, cfg):
    from bcause.inference.causal.elimination import CausalVariableElimination
    m, net = make_scm(ctx, cfg)
    t, do, ev = cfg["t"], cfg["do"], cfg["ev"]
    den = mass_do(net, do, ev)
    ctx.assume(den != 0)
    f = CausalVariableElimination(m).causal_query(t if len(t) > 1 else t[0], do=dict(do), evidence=dict(ev) if ev else None)
    d = OrderedDict((v, net.dom[v]) for v in t)
    check_ratio(ctx, f, d, lambda a: mass_do(net, do, {**a, **ev}), lambda a: den, f"P({t}|do({do}),{ev})")


def value(ctx, f, a, v):
    """Value of a mechanism (table or equation) at a full assignment, as 0/1."""
    from bcause.factors import DeterministicFactor
    if isinstance(f, DeterministicFactor):
        return ctx.indicator(f.get_value(**{x: a[x] for x in f.right_vars}), a[v])
    return f.get_value(**{x: a[x] for x in f.domain})


def check_mechanisms(ctx, m, dom, refs, msg):
    for v in m.variables:
        f = m.factors[v]
        pa = sorted(m.graph.predecessors(v))
        ctx.same(sorted(f.right_vars), pa, f"{msg}: conditions of {v}")
        ctx.same(list(f.left_vars), [v], f"{msg}: left side of {v}")
        d = OrderedDict((x, dom[x]) for x in [v] + pa)
        check_scope(ctx, f, d, f"{msg}: {v}")
        for a in space(d):
            ctx.eq(value(ctx, f, a, v), refs[v](a), f"{msg}: mechanism of {v} at {a}")


def h_model(ctx, cfg):
    m, net = make_scm(ctx, cfg, cast=cfg["cast"])
    endo = list(m.endogenous)
    edges = sorted(m.graph.edges)
    for do in [{v: s} for v in endo for s in net.dom[v]] + ([{v: net.dom[v][0] for v in endo[:2]}] if len(endo) > 1 else []):
        k = m.intervention(**do)
        ctx.same(sorted(k.graph.nodes), sorted(net.dom), "nodes")
        ctx.same(sorted(k.graph.edges), [e for e in edges if e[1] not in do], "arcs")
        ctx.same(sorted(k.endogenous), sorted(endo), "endogenous")
        ctx.same(sorted(k.exogenous), sorted(v for v in net.dom if v not in endo), "exogenous")
        check_mechanisms(ctx, k, net.dom, truncated(net, do).refs, f"do({do})")
        # the original is untouched
        ctx.same(sorted(m.graph.edges), edges, "original arcs")
        check_mechanisms(ctx, m, net.dom, net.refs, "original")


def h_seq(ctx, cfg):
    """The same engine answers several queries, each as if it were the first."""
    from bcause.inference.causal.elimination import CausalVariableElimination
    m, net = make_scm(ctx, cfg)
    endo = list(m.endogenous)
    inf = CausalVariableElimination(m)
    x, y = endo[0], endo[-1]
    for t, do, ev in (([y], {x: net.dom[x][0]}, {}), ([y], {x: net.dom[x][1]}, {}), ([x], {y: net.dom[y][0]}, {}), ([y], {x: net.dom[x][0]}, {}), ([x], {}, {y: net.dom[y][0]}), ([x], {}, {y: net.dom[y][-1]}), ([y], {}, {x: net.dom[x][1]})):
        den = mass_do(net, do, ev)
        f = inf.causal_query(t[0], do=do, evidence=ev)
        check_ratio(ctx, f, OrderedDict((v, net.dom[v]) for v in t), lambda a: mass_do(net, do, {**a, **ev}), lambda a: den, f"{t} do {do}")
        # non-descendants are unaffected
    g = inf.query(x, do={y: net.dom[y][-1]})
    p = net.mass
    for s in net.dom[x]:
        ctx.eq(g.get_value(**{x: s}), p({x: s}), f"P({x}) unaffected by do({y})")


def h_nested(ctx, cfg):
    """Querying an intervened model composes the interventions."""
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.probabilistic.elimination import VariableElimination
    m, net = make_scm(ctx, cfg)
    endo = list(m.endogenous)
    x, y = endo[0], endo[1]
    for s in net.dom[x]:
        k = m.intervention(**{x: s})
        for t in endo:
            if t == x:
                continue
            f = VariableElimination(k).query(t)
            for b in net.dom[t]:
                ctx.eq(f.get_value(**{t: b}), mass_do(net, {x: s}, {t: b}), f"P({t}={b}) in do({x}={s})")
        rest = [v for v in endo if v not in (x, y)]
        for t in rest or [x]:
            f = CausalVariableElimination(k).causal_query(t, do={y: net.dom[y][0]})
            for b in net.dom[t]:
                ctx.eq(f.get_value(**{t: b}), mass_do(net, {x: s, y: net.dom[y][0]}, {t: b}), f"{t}={b} do {x}={s} then {y}")
