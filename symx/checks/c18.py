"""C18: writing a model to UAI and reading it back gives the same model."""
import os
import shutil
import tempfile

from ..lib import *
from ..models import *
from ..models import _fixed_rows, _rng, _shuffle

BOUNDS = "Bayesian networks of up to 5 nodes (every DAG over 3 nodes, a selection over 4, one of 12 nodes) and causal models of up to 3 endogenous and 3 exogenous variables (every structure with 2 and 2), 1-4 states with labels of any kind, nodes without arcs, endogenous roots, exogenous variables with parents, tables with the child in any position and the states of the parents listed in another order, equations as functions or tables (solver-chosen up to 8 entries, fixed beyond), arbitrary probabilities plus ones printed with exponents; every variable order in the file for small models; variable prefixes, first identifiers and first states of the reader; networks of 4-7 nodes and causal models of up to 6 endogenous and 3 exogenous variables with unusual names and labels in any file order, variables of 11 and 12 states"
OUTSIDE = "files not written by the library, more nodes or states, the last digit of printed floats (a printed probability is an opaque decimal literal that the parser must return whole)"
ASSUME = ["a symbolic probability is printed as a decimal literal unique to it, and reading exactly that literal gives the probability back"]
PATHS = 400


def tiny(k):
    return {0: {0: (1e-05, 2.5e-07, 3e-310)[k % 3]}}


def configs(tier):
    out, deep = [], tier == "thorough"
    lays = ("first", "last", "rev", "mid")
    for i, name in enumerate(BN):
        for k in range(4 if deep else 2):
            c = bn(name, layout=lays[(i + k) % 4], perm=bool(k % 2))
            out.append(dict(h="h_bn", **c))
            c = dict(c, fixed={v: tiny(j + i) for j, (v, s) in enumerate(c["dom"]) if len(s) > 1})
            out.append(dict(h="h_bn", **c))
        vs = [v for v, _s in c["dom"]]
        for o in (perms(vs) if len(vs) < 4 or deep else [vs[::-1], vs[1:] + vs[:1]]):
            out.append(dict(h="h_bn", order=o, **bn(name, layout=lays[i % 4])))
        out.append(dict(h="h_bn", read=dict(var_prefix="X_", init_var_id=3, init_var_state=1), **bn(name)))
    big = [("N%d" % i, [0, 1]) for i in range(12)]
    out.append(dict(h="h_bn", name="big", dom=big, edges=[("N1", "N10"), ("N0", "N10"), ("N1", "N11"), ("N11", "N2"), ("N1", "N0")]))
    for i, es in enumerate(all_dags(3)):
        out.append(dict(h="h_bn", layout=lays[i % 4], perm=i % 3 == 0, **dag_bn(3, i, es)))
    for i, es in enumerate(all_dags(4)):
        if deep or i % 13 == 0:
            c = dag_bn(4, i, es)
            c["dom"] = [(v, s[:2]) for v, s in c["dom"]]
            out.append(dict(h="h_bn", layout=lays[i % 4], perm=i % 3 == 0, **c))
    # larger networks with unusual names, labels and many states
    for seed in range(24 if deep else 8):
        c = wide_bn(seed + 30, 4 + seed % 4, free=2)
        vs = [v for v, _s in c["dom"]]
        out.append(dict(h="h_bn", **c))
        out.append(dict(h="h_bn", order=_shuffle(_rng(seed), vs), **c))
    # trees with branches that end early
    for c in csi_bns(12 if deep else 6, 5):
        out.append(dict(h="h_bn", **c))
    for c in csi_scms(6 if deep else 3, 40, free=0):
        out.append(dict(h="h_scm", exact=True, **c))
    out.append(dict(h="h_bn", name="states", dom=[("A", list(range(12))), ("B", ["b%d" % i for i in range(11)])], edges=[("B", "A")], layout="last",
                    fixed={"A": _fixed_rows(_rng(3), 12, 11)}))
    for seed, (ne, nx) in enumerate([(2, 1), (3, 2), (4, 2), (3, 3), (5, 3), (6, 3)] * (3 if deep else 1)):
        c = dict(wide_scm(seed + 20, ne, nx, free=0), exact=True, form=("det", "tab", "mix")[seed % 3])
        vs = [v for v, _s in c["dom"]]
        for k in range(3):
            out.append(dict(h="h_scm", cast=k == 1, order=_shuffle(_rng(seed + k), vs) if k else None, read=dict(cast_multinomial=k == 2), **c))
    c = dict(name="uncertain", dom=[("X", [0, 1]), ("U", list(range(12)))], edges=[("U", "X")], exo=["U"], eqs={"X": [0, 1, 1, 0, 1, 0, 0, 0, 1, 1, 0, 1]}, exact=True)
    out.append(dict(h="h_scm", **c))
    # causal models; equations chosen by the solver where there are few entries
    for i, name in enumerate(SCM):
        m = scm(name)
        dom = dict(m["dom"])
        for k in range(4 if deep else 2):
            c = dict(m, layout=lays[(i + k) % 4], perm=bool(k % 2), form=("det", "tab", "mix")[(i + k) % 3])
            c["eqs"] = equations(c, i + k)
            out.append(dict(h="h_scm", exact=True, cast=(i + k) % 2 == 0, **c))
            out.append(dict(h="h_scm", exact=True, cast=k % 2 == 0, read=dict(cast_multinomial=bool(k % 2)), **c))
        c = dict(c, fixed={u: tiny(i) for u in m["exo"]})
        out.append(dict(h="h_scm", exact=True, read=dict(var_prefix="Z", init_var_id=1, init_var_state=1), **c))
        vs = list(dom)
        for o in [vs, vs[::-1], vs[1:] + vs[:1]]:
            out.append(dict(h="h_scm", exact=True, order=o, **c))
        # endogenous variables made roots
        for v in [v for v in dom if v not in m["exo"]][:2]:
            c2 = dict(c, edges=[e for e in c["edges"] if e[1] != v], endo=[x for x in dom if x not in m["exo"]])
            c2["eqs"] = equations(c2, i)
            out.append(dict(h="h_scm", exact=True, **c2))
    for k, m in enumerate((
            dict(name="one", dom=[("X", ["b", "a"]), ("U", [0, 1, 2])], edges=[("U", "X")], exo=["U"]),
            dict(name="three", dom=[("X", [2, 0, 1]), ("U", [True, False])], edges=[("U", "X")], exo=["U"]),
            dict(name="two", dom=[("X", [0, 1]), ("Y", ["y1", "y2"]), ("U", [0, 1])], edges=[("U", "X"), ("X", "Y"), ("U", "Y")], exo=["U"]),
            dict(name="const", dom=[("X", ["x"]), ("U", ["u1", "u2"]), ("V", [0])], edges=[("U", "X"), ("V", "X")], exo=["U", "V"]),
            dict(name="constroot", dom=[("X", ["x"]), ("Y", [0, 1]), ("U", ["u1", "u2"])], edges=[("X", "Y"), ("U", "Y")], exo=["U"], endo=["X", "Y"]),
            dict(name="root", dom=[("X", ["a", "b", "c"]), ("Y", [0, 1]), ("U", [0])], edges=[("X", "Y"), ("U", "Y")], exo=["U"], endo=["X", "Y"]),
            dict(name="exopar", dom=[("X", [0, 1]), ("U", [0, 1]), ("V", [1, 0])], edges=[("U", "V"), ("V", "X")], exo=["U", "V"], endo=["X"]),
            dict(name="loose", dom=[("W", [0, 1]), ("X", [0, 1]), ("U", [0, 1]), ("V", ["a", "b"])], edges=[("U", "X")], exo=["W", "U", "V"]))):
        for form in ("det", "tab"):
            for lay in ("first", "last"):
                out.append(dict(h="h_scm", exact=True, form=form, layout=lay, perm=lay == "last", cast=form == "tab", **m))
    for i, m in enumerate(all_scms(2, 2)):
        m = dict(m, layout=lays[i % 4], form=("det", "tab")[i % 2])
        m["eqs"] = equations(m, i)
        out.append(dict(h="h_scm", exact=True, cast=i % 2 == 0, **m))
    return out


def equations(m, seed):
    """Fixed equations, no two rows alike where possible."""
    dom, eqs = D(m["dom"]), {}
    for v in dom:
        if v not in m["exo"]:
            n = 1
            for p in edges_parents(m["edges"], v):
                n *= len(dom[p])
            s = dom[v]
            eqs[v] = [s[(i * i + i // 2 + seed + len(v)) % len(s)] for i in range(n)]
    return eqs


def through(ctx, m, suffix, cls, write=None, read=None):
    d = tempfile.mkdtemp(prefix="symx-uai-")
    try:
        p = os.path.join(d, "model" + suffix)
        m.save(p, **(write or {}))
        if read:
            return cls._reader.from_uai(p, **read)
        return cls.read(p)
    finally:
        shutil.rmtree(d)


def naming(cfg, net, file_order):
    """variable -> name in the file, and (variable, state) -> state in the file."""
    r = cfg.get("read") or {}
    pre, i0, s0 = r.get("var_prefix", "V"), r.get("init_var_id", 0), r.get("init_var_state", 0)
    name = {v: f"{pre}{i + i0}" for i, v in enumerate(file_order)}
    return name, {v: dict((s, i + s0) for i, s in enumerate(net.dom[v])) for v in file_order}


def compare(ctx, r, m, net, name, state, edges, equation):
    ctx.rtol, ctx.atol = 1e-13, 0.0     # numbers come back as they were
    ctx.same(sorted(r.graph.nodes), sorted(name.values()), "nodes")
    ctx.same(sorted(r.graph.edges), sorted((name[x], name[y]) for x, y in edges), "arcs")
    for v in net.dom:
        f = r.factors[name[v]]
        pa = edges_parents(edges, v)
        d = OrderedDict((x, net.dom[x]) for x in [v] + pa)
        check_scope(ctx, f, {name[x]: [state[x][s] for s in d[x]] for x in d}, f"table of {v}")
        ctx.same(list(r.domains[name[v]]), [state[v][s] for s in net.dom[v]], f"domain of {v}")
        ctx.same(list(f.left_vars), [name[v]], f"left side of {v}")
        ctx.same(sorted(f.right_vars), sorted(name[x] for x in pa), f"right side of {v}")
        for a in space(d):
            b = {name[x]: state[x][s] for x, s in a.items()}
            if equation(v):
                got = f.get_value(**{x: s for x, s in b.items() if x != name[v]})
                ctx.eq(ctx.indicator(got, b[name[v]]), net.refs[v](a), f"equation of {v} at {a}")
            else:
                ctx.eq(f.get_value(**b), net.refs[v](a), f"table of {v} at {a}")


def h_bn(ctx, cfg):
    from bcause.models import BayesianNetwork
    m, net = make_bn(ctx, cfg)
    o = cfg.get("order")
    r = through(ctx, m, ".uai", BayesianNetwork, dict(var_order=list(o)) if o else None, cfg.get("read"))
    name, state = naming(cfg, net, o or list(m.variables))
    compare(ctx, r, m, net, name, state, cfg["edges"], lambda v: False)


def h_scm(ctx, cfg):
    from bcause.models.cmodel import StructuralCausalModel
    m, net = make_scm(ctx, cfg, cast=cfg.get("cast", True))
    o = cfg.get("order")
    r = through(ctx, m, ".uai", StructuralCausalModel, dict(var_order=list(o)) if o else None, cfg.get("read"))
    name, state = naming(cfg, net, o or list(m.endogenous) + list(m.exogenous))
    exo = cfg["exo"]
    cast = (cfg.get("read") or {}).get("cast_multinomial", True)
    compare(ctx, r, m, net, name, state, cfg["edges"], lambda v: v not in exo and not cast)
    ctx.same(sorted(r.endogenous), sorted(name[v] for v in net.dom if v not in exo), "endogenous")
    ctx.same(sorted(r.exogenous), sorted(name[v] for v in exo), "exogenous")
