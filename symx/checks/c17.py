"""C17: interval answers are the exact envelope of the precise models."""
from ..lib import *
from ..models import *

BOUNDS = "one to four precise causal models over one structure of up to 3 endogenous and 3 exogenous variables with 2-3 states, each with its own arbitrary exogenous distributions (equations solver-chosen in the smallest, fixed and differing between models in the others); causal and counterfactual queries with and without evidence, one and two targets, one and two worlds; the three probabilities of causation with default and given true/false states; interval and list output, switched between queries; sequences of setting, adding and querying; interval factors over up to 3 variables of 2-3 states built from up to 4 arbitrary tables, restricted to every state, list of states and combination; structures of up to 5 endogenous and 2 exogenous variables with unusual names, one to three models, pseudo-random causal and counterfactual queries"
OUTSIDE = "reading an interval factor without saying which bound, models with different structures, five or more models, arithmetic of interval factors (not implemented by the code), float rounding"
ASSUME = ["the precise answers of the single-model engine (decided by C09, C10 and C11) serve as reference; the smallest models are also compared with brute-force probabilities"]


def E(name, spec, edges, exo, *eqs):
    return dict(name=name, dom=doms(spec), edges=arcs(edges), exo=exo.split(), eqlist=list(eqs))


CONF = E("conf", "X:b Y:b U:4", "X>Y U>X U>Y", "U", {"X": [0, 0, 1, 1], "Y": [0, 1, 0, 1, 1, 0, 1, 0]}, {"X": [0, 1, 1, 0], "Y": [0, 1, 1, 1, 1, 1, 0, 0]})
QM = E("markov", "X:b Y:n U:b V:3", "X>Y U>X V>Y", "U V", {"X": [0, 1], "Y": ["y0", "y0", "y1", "y0", "y1", "y1"]})
IV = E("iv", "Z:b X:n Y:b U:3 W:b", "Z>X X>Y U>X U>Y W>Z", "U W", {"Z": [0, 1], "X": ["x0", "x1", "x0", "x1", "x0", "x1"], "Y": [0, 1, 1, 1, 0, 0]},
       {"Z": [0, 1], "X": ["x0", "x1", "x1", "x1", "x0", "x0"], "Y": [0, 1, 0, 0, 1, 1]})
SYM = dict(scm("markov2"), dom=doms("X:b Y:n U:b V:b"), name="sym")


def configs(tier):
    out, deep = [], tier == "thorough"
    for m in (CONF, QM, IV, SYM):
        d = dict(m["dom"])
        ks = (1, 2, 3) if m is not SYM else (1, 2)
        if deep:
            ks = ks + (4,)
        for k in ks:
            for iv in (True, False):
                for x in d["X"]:
                    out.append(dict(h="h_query", k=k, iv=iv, t=["Y"], do={"X": x}, cf=False, ev={}, **m))
                out.append(dict(h="h_query", k=k, iv=iv, t=["Y"], do={"X": d["X"][1]}, cf=True, ev={}, **m))
                out.append(dict(h="h_query", k=k, iv=iv, t=["Y"], do={"X": d["X"][0]}, cf=True, ev={"X": d["X"][1]}, **m))
                out.append(dict(h="h_query", k=k, iv=iv, t=["Y", "Y"], do=[{"X": d["X"][0]}, {"X": d["X"][1]}], subs=[1, 2], cf=True, ev={}, **m))
                out.append(dict(h="h_query", k=k, iv=iv, t=["Y", "X"], do=[{"X": d["X"][1]}, {"Y": d["Y"][0]}], subs=[1, 2], cf=True, ev={}, **m))
                if m is not SYM:
                    out.append(dict(h="h_query", k=k, iv=iv, t=["Y", "X"], do={}, cf=False, ev={}, **m))
                    if "Z" in d:
                        out.append(dict(h="h_query", k=k, iv=iv, t=["Y"], do={"X": d["X"][0]}, cf=False, ev={"Z": 1}, **m))
                        out.append(dict(h="h_query", k=k, iv=iv, t=["Y", "X"], do={"Z": 1}, cf=False, ev={}, **m))
                for q in ("pns", "pn", "ps"):
                    if q == "pns" or m is not SYM:
                        out.append(dict(h="h_pns", k=k, iv=iv, q=q, given=False, **m))
                        if k < 3:
                            out.append(dict(h="h_pns", k=k, iv=iv, q=q, given=True, **m))
    for m in (CONF, QM, IV, SYM):
        d = dict(m["dom"])
        for k in (2, 3) if m is not SYM else (2,):
            for iv in (True, False):
                out.append(dict(h="h_query", k=k, iv=iv, t=["Y"], do={"X": d["X"][1]}, cf=False, ev={}, mixed=True, **m))
                out.append(dict(h="h_query", k=k, iv=iv, t=["Y", "Y"], do=[{"X": d["X"][0]}, {"X": d["X"][1]}], subs=[1, 2], cf=True, ev={}, mixed=True, **m))
                out.append(dict(h="h_query", k=k, iv=iv, t=["Y", "X"], do=[{"X": d["X"][1]}, {"Y": d["Y"][0]}], subs=[1, 2], cf=True, ev={}, mixed=True, **m))
                if m is not SYM:
                    out.append(dict(h="h_query", k=k, iv=iv, t=["Y", "X"], do={}, cf=False, ev={}, mixed=True, **m))
                if "Z" in d:
                    out.append(dict(h="h_query", k=k, iv=iv, t=["Y", "X"], do={"Z": 1}, cf=False, ev={}, mixed=True, **m))
    for m in (CONF, QM):
        for seq in (["q", "add", "q"], ["q", "set", "q", "pns"], ["pns", "add", "pns", "q"], ["add", "q", "list", "q", "iv", "q"], ["set", "set", "q", "cf"], ["list", "q", "add", "pns", "iv", "pns"],
                    ["q", "q2", "q", "add", "cf", "add", "pns", "set", "cf"]):
            out.append(dict(h="h_history", seq=seq, **m))
    # larger models with unusual names and labels
    for seed, (ne, nx) in enumerate([(2, 1), (3, 2), (4, 2), (3, 1), (5, 2)] * (3 if deep else 1)):
        m = wide_scm(seed + 60, ne, nx, free=0)
        eqs = m.pop("eqs")
        d = dict(m["dom"])
        other = {v: [d[v][(d[v].index(x) + (i % 2)) % len(d[v])] for i, x in enumerate(t)] for v, t in eqs.items()}
        for k in (1, 2, 3):
            for j, (t, do, ev) in enumerate(some_causal(seed * 5 + k, dict(m, eqs=eqs), 4)):
                out.append(dict(h="h_query", k=k, iv=j % 3 != 2, t=t, do=do, cf=False, ev=ev, eqlist=[eqs] if ev else [eqs, other], mixed=j % 2 == 1, **m))
            for j, q in enumerate(some_worlds(seed * 5 + k, dict(m, eqs=eqs), 4)):
                out.append(dict(h="h_query", k=k, iv=j % 3 != 2, t=q["t"], do=q["do"], subs=q["ts"], cf=True, ev=q["ev"], eqlist=[eqs] if q["ev"] else [eqs, other], mixed=j % 2 == 1, **m))
    DS = [doms("A:b"), doms("A:s B:3"), doms("B:3 A:t"), doms("A:b B:s C:3")]
    for d in DS:
        names = [v for v, _ in d]
        for r in subsets(names, 0, len(names) - 1):
            for k in (1, 2, 3, 4) if deep else (1, 2, 3):
                if k == 3 and len(d) == 3 and not deep:
                    continue
                out.append(dict(h="h_factor", dom=d, right=r, k=k, reorder=bool(k % 2)))
                for st in STORES:
                    if k == 2:
                        out.append(dict(h="h_store", dom=d, right=r, vtype=st))
    return out


def _relaid(cfg, c):
    """The equations of cfg, listed for the order of parents of c."""
    dom, out = D(cfg["dom"]), {}
    for v, labels in c["eqs"].items():
        pa, qa = [[x for x in layout(g, v, edges_parents(g["edges"], v)) if x != v] for g in (cfg, c)]
        t = {key(a): l for l, a in zip(labels, space(OrderedDict((x, dom[x]) for x in pa)))}
        out[v] = [t[key(a)] for a in space(OrderedDict((x, dom[x]) for x in qa))]
    return out


def _models(ctx, cfg, n=None):
    ms, nets = [], []
    for i in range(n or cfg["k"]):
        c = dict(cfg)
        if cfg.get("eqlist"):
            c["eqs"] = cfg["eqlist"][i % len(cfg["eqlist"])]
        if cfg.get("mixed") and i % 2:
            # same structure, listed in another order
            c["dom"], c["edges"], c["layout"] = cfg["dom"][::-1], cfg["edges"][::-1], "last"
            if c.get("eqs"):
                c["eqs"] = _relaid(cfg, c)
        m, net = make_scm(ctx, c, prefix=f"m{i}")
        ms.append(m)
        nets.append(net)
    return ms, nets


def _support(ctx, net, ev, do=None):
    if do:
        fix = {v: Ref(OrderedDict([(v, net.dom[v])]), lambda a, v=v, s=s: 1.0 if a[v] == s else 0.0) for v, s in do.items()}
        net = Net(net.dom, {**net.refs, **fix})
    ctx.assume(net.mass(ev) != 0)


def precise(m, cfg):
    from bcause.inference.causal.elimination import CausalVariableElimination
    inf = CausalVariableElimination(m)
    ev = dict(cfg["ev"]) if cfg["ev"] else None
    if cfg["cf"]:
        return inf.counterfactual_query(list(cfg["t"]), cfg["do"], evidence=ev, targets_subgraphs=cfg.get("subs"))
    return inf.causal_query(list(cfg["t"]), cfg["do"], evidence=ev)


def ask(inf, cfg):
    ev = dict(cfg["ev"]) if cfg["ev"] else None
    if cfg["cf"]:
        return inf.counterfactual_query(list(cfg["t"]), cfg["do"], evidence=ev, targets_subgraphs=cfg.get("subs"))
    return inf.causal_query(list(cfg["t"]), cfg["do"], evidence=ev)


def check_interval(ctx, f, fs, msg=""):
    d = OrderedDict(fs[0].domain)
    ctx.same(sorted(f.domain), sorted(d), msg + " scope")
    ctx.same(sorted(f.variables), sorted(d), msg + " variables")
    ctx.same(sorted(f.left_vars), sorted(fs[0].left_vars), msg + " left side")
    for a in space(d):
        vals = [g.get_value(**a) for g in fs]
        lo, up = ctx.min(vals), ctx.max(vals)
        r = f.restrict(**a).values
        ctx.same(len(r), 2, msg + " two bounds")
        ctx.eq(r[0], lo, f"{msg} lower at {a}")
        ctx.eq(r[1], up, f"{msg} upper at {a}")
        ctx.eq(f.get_value(_bound="low", **a), lo, f"{msg} lower value at {a}")
        ctx.eq(f.get_value(_bound="up", **a), up, f"{msg} upper value at {a}")
        ctx.eq(f.store_low.get_value(**a), lo, f"{msg} lower store at {a}")
        ctx.eq(f.store_up.get_value(**a), up, f"{msg} upper store at {a}")


def check_answer(ctx, got, fs, iv, msg):
    if iv:
        check_interval(ctx, got, fs, msg)
    else:
        ctx.same(len(got), len(fs), msg + " one answer per model")
        for i, (g, f) in enumerate(zip(got, fs)):
            check_values(ctx, g, OrderedDict(f.domain), lambda a: f.get_value(**a), f"{msg} model {i}")


def h_query(ctx, cfg):
    from bcause.inference.causal.multi import CausalMultiInference
    ms, nets = _models(ctx, cfg)
    for n in nets:
        _support(ctx, n, cfg["ev"], None if cfg["cf"] else cfg["do"])
    fs = [precise(m, cfg) for m in ms]
    inf = CausalMultiInference(list(ms), interval_result=cfg["iv"])
    got = ask(inf, cfg)
    check_answer(ctx, got, fs, cfg["iv"], "answer")
    if cfg["name"] == "conf" and not cfg["cf"] and cfg["t"] == ["Y"]:
        for a in space(OrderedDict([("Y", nets[0].dom["Y"])])):
            vals = []
            for n in nets:
                # truncated factorisation by hand
                vals.append(total([n.refs["U"]({"U": u}) * n.refs["Y"]({"X": cfg["do"]["X"], "U": u, **a}) for u in n.dom["U"]]))
            if cfg["iv"]:
                r = got.restrict(**a).values
                ctx.eq(r[0], ctx.min(vals), f"lower by hand at {a}")
                ctx.eq(r[1], ctx.max(vals), f"upper by hand at {a}")


def scalar(inf, q, given, d):
    kw = dict(true_false_cause=(d["X"][0], d["X"][1]), true_false_effect=(d["Y"][0], d["Y"][1])) if given else {}
    fn = dict(pns=inf.prob_necessity_sufficiency, pn=inf.prob_necessity, ps=inf.prob_sufficiency)[q]
    return fn("X", "Y", **kw)


def need(ctx, nets, q, given, d):
    if q == "pns":
        return
    t = 0 if given else 1       # the true state
    k = t if q == "pn" else 1 - t
    for n in nets:
        _support(ctx, n, {"X": d["X"][k], "Y": d["Y"][k]})


def check_scalar(ctx, got, vals, iv, msg):
    got = list(got)
    want = [ctx.min(vals), ctx.max(vals)] if iv else vals
    ctx.same(len(got), len(want), msg + " length")
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.eq(g, w, f"{msg} [{i}]")


def h_pns(ctx, cfg):
    from bcause.inference.causal.multi import CausalMultiInference
    from bcause.inference.causal.elimination import CausalVariableElimination
    ms, nets = _models(ctx, cfg)
    d = dict(cfg["dom"])
    need(ctx, nets, cfg["q"], cfg["given"], d)
    vals = [scalar(CausalVariableElimination(m), cfg["q"], cfg["given"], d) for m in ms]
    inf = CausalMultiInference(list(ms), interval_result=cfg["iv"])
    check_scalar(ctx, scalar(inf, cfg["q"], cfg["given"], d), vals, cfg["iv"], cfg["q"])


def h_history(ctx, cfg):
    from bcause.inference.causal.multi import CausalMultiInference
    from bcause.inference.causal.elimination import CausalVariableElimination
    d = dict(cfg["dom"])
    n = 1 + sum({"add": 1, "set": 2}.get(s, 0) for s in cfg["seq"])
    ms, nets = _models(ctx, cfg, n)
    first = [ms[0]]
    cur, rest, iv = [ms[0]], ms[1:], True
    inf = CausalMultiInference(first)
    for i, s in enumerate(cfg["seq"]):
        if s == "add":
            inf.add_models([rest[0]])
            cur, rest = cur + rest[:1], rest[1:]
        elif s == "set":
            given = list(rest[:2])
            inf.set_models(given)
            cur, rest = rest[:2], rest[2:]
        elif s in ("list", "iv"):
            iv = s == "iv"
            inf.set_interval_result(iv)
        elif s == "pns":
            vals = [scalar(CausalVariableElimination(m), "pns", False, d) for m in cur]
            check_scalar(ctx, scalar(inf, "pns", False, d), vals, iv, f"{i}:{s}")
        else:
            q = dict(q=dict(t=["Y"], do={"X": d["X"][1]}, cf=False, ev={}), q2=dict(t=["X"], do={"Y": d["Y"][0]}, cf=False, ev={}),
                     cf=dict(t=["Y"], do={"X": d["X"][0]}, cf=True, ev={}))[s]
            check_answer(ctx, ask(inf, q), [precise(m, q) for m in cur], iv, f"{i}:{s}")
        ctx.same([any(a is b for b in cur) for a in inf.models], [True] * len(cur), "models in use")
    ctx.check(len(first) == 1 and first[0] is ms[0], "the list given first is unchanged")


def h_factor(ctx, cfg):
    from bcause.factors.imprecise import IntervalProbFactor
    d = D(cfg["dom"])
    fs, refs = [], []
    for i in range(cfg["k"]):
        vals, ref = table(ctx, f"t{i}", d)
        fs.append(mf(d, vals, right=cfg["right"]))
        refs.append(ref)
    f = IntervalProbFactor.from_precise(list(fs))
    check_interval(ctx, f, fs, "envelope")
    lo = lambda a: ctx.min([r(a) for r in refs])
    up = lambda a: ctx.max([r(a) for r in refs])
    # restriction to part of the variables
    for S in subsets(list(d), 1, len(d)):
        for o in space(OrderedDict((v, d[v]) for v in S)):
            g = f.restrict(**o)
            left = OrderedDict((v, s) for v, s in d.items() if v not in S)
            ctx.same(sorted(g.domain), sorted(left), f"restricted to {o}: scope")
            ctx.same(sorted(g.left_vars), sorted(v for v in left if v not in cfg["right"]), f"restricted to {o}: left side")
            for a in space(left):
                full = {**a, **o}
                ctx.eq(g.store_low.get_value(**a), lo(full), f"restricted to {o}: lower at {a}")
                ctx.eq(g.store_up.get_value(**a), up(full), f"restricted to {o}: upper at {a}")
    # restriction to lists of states
    for v, s in d.items():
        for keep in [k for k in (s[::-1], s[1:], s[::2]) if len(k) > 1]:
            g = f.restrict(**{v: list(keep)})
            ctx.same(sorted(map(repr, g.domain[v])), sorted(map(repr, keep)), f"states kept of {v}")
            for a in space(OrderedDict((x, keep if x == v else t) for x, t in d.items())):
                ctx.eq(g.store_low.get_value(**a), lo(a), f"{v} in {keep}: lower at {a}")
                ctx.eq(g.store_up.get_value(**a), up(a), f"{v} in {keep}: upper at {a}")
    # value list: lower bounds then upper bounds, in the order of the domain
    vals = list(f.values)
    want = [lo(a) for a in space(f.domain)] + [up(a) for a in space(f.domain)]
    ctx.same(len(vals), len(want), "number of values")
    for i, (x, y) in enumerate(zip(vals, want)):
        ctx.eq(x, y, f"value {i}")
    ctx.check(f.restrict(OTHER=1).domain == f.domain, "restriction to an unknown variable")
    for i, g in enumerate(fs):
        check_values(ctx, g, d, refs[i], f"operand {i} unchanged")


def h_store(ctx, cfg):
    """An interval factor given by its bounds, in each store."""
    from bcause.factors.imprecise import IntervalProbFactor
    d = D(cfg["dom"])
    left = [v for v in d if v not in cfg["right"]]
    lo, rlo = table(ctx, "l", d)
    up, rup = table(ctx, "u", d)
    f = IntervalProbFactor(d, lo, up, left_vars=left, vtype=cfg["vtype"])
    ctx.same(sorted(f.domain), sorted(d), "scope")
    for S in subsets(list(d), 0, len(d)):
        for o in space(OrderedDict((v, d[v]) for v in S)):
            g = f.restrict(**o) if o else f
            rest = OrderedDict((v, s) for v, s in d.items() if v not in S)
            ctx.same(sorted(g.variables), sorted(rest), f"{o}: scope")
            ctx.same(sorted(g.left_vars), sorted(v for v in left if v in rest), f"{o}: left side")
            for a in space(rest):
                ctx.eq(g.get_value(_bound="low", **a), rlo({**a, **o}), f"{o}: lower at {a}")
                ctx.eq(g.get_value(_bound="up", **a), rup({**a, **o}), f"{o}: upper at {a}")
            vals = list(g.values)
            for x, y in zip(vals, [rlo({**a, **o}) for a in space(rest)] + [rup({**a, **o}) for a in space(rest)]):
                ctx.eq(x, y, f"{o}: value list")
