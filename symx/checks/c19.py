"""C19: conversion to and from pgmpy networks, and the BIF-style files built on it."""
import os
import shutil
import tempfile

from ..lib import *
from ..models import *

BOUNDS = "networks of 1-5 nodes with 1-4 states (every DAG over 3 nodes, a selection over 4), up to three parents in any order, labels of any kind, the child in any position of its table, parents' states listed in another order, nodes without arcs; conversion to pgmpy, back, and of networks built in pgmpy itself (with and without state names); BIF and XMLBIF files of networks and of causal models with equations as functions or tables; arbitrary positive probabilities plus ones printed with exponents; networks of 4-7 nodes with unusual names and labels (renamed to plain ones in files) and causal models of up to 7 variables"
OUTSIDE = "labels that the file formats cannot express (empty, with spaces or punctuation), pgmpy's own parsing beyond the texts written here, last digits of printed floats"
STUBS = ["pgmpy's float64 arrays hold symbolic terms (dtype object)", "joblib.Parallel inside pgmpy's BIF reader: the same calls in sequence"]
ASSUME = ["a symbolic probability is printed as a decimal literal unique to it, and reading exactly that literal gives the probability back"]


def configs(tier):
    out, deep = [], tier == "thorough"
    lays = ("first", "last", "rev", "mid")
    for i, name in enumerate(BN):
        for k in range(4):
            c = bn(name, layout=lays[(i + k) % 4], perm=k == 1)
            out.append(dict(h="h_conv", **c))
            if k < 2 or deep:
                out.append(dict(h="h_import", named=bool(k % 2), **c))
        c = bn(name, layout=lays[i % 4])
        c["dom"] = [(v, [f"{v.lower()}{j}" if i % 2 else str(j) for j in range(len(s))]) for v, s in c["dom"]]
        fx = {v: {0: {0: (1e-05, 2.5e-07)[i % 2]}} for v, s in c["dom"] if len(s) > 1}
        for ext in (".bif", ".xmlbif"):
            if ext == ".bif" and not deep and (len(c["dom"]) > 4 or i % 2):
                continue        # pyparsing is slow
            for perm in (False, True):
                if perm and ext == ".bif" and not deep:
                    continue
                out.append(dict(h="h_file", ext=ext, perm=perm, **c))
            out.append(dict(h="h_file", ext=ext, fixed=fx, **c))
    for i, es in enumerate(all_dags(3)):
        out.append(dict(h="h_conv", layout=lays[i % 4], perm=i % 3 == 0, **dag_bn(3, i, es)))
        out.append(dict(h="h_import", named=i % 2 == 0, **dag_bn(3, i, es)))
    for i, es in enumerate(all_dags(4)):
        if deep or i % 13 == 0:
            c = dag_bn(4, i, es)
            out.append(dict(h="h_conv", layout=lays[i % 4], perm=i % 3 == 0, **c))
    # larger networks with unusual names and labels (plain ones in files)
    for seed in range(20 if deep else 8):
        c = wide_bn(seed + 50, 4 + seed % 4, free=2)
        out.append(dict(h="h_conv", **c))
        out.append(dict(h="h_import", named=seed % 4 != 3, **c))
        ren = {v: "V%d" % i if seed % 2 else "abcdefgh"[i] for i, (v, _s) in enumerate(c["dom"])}
        f = dict(c, dom=[(ren[v], [f"s{(j * 3 + 1) % 7}" for j in range(len(s))]) for v, s in c["dom"]], edges=[(ren[x], ren[y]) for x, y in c["edges"]],
                 fixed={ren[v]: t for v, t in c["fixed"].items()})
        out.append(dict(h="h_file", ext=".xmlbif", **f))
        if deep or seed < 2:
            out.append(dict(h="h_file", ext=".bif", **f))
    # trees with branches that end early
    for c in csi_bns(12 if deep else 6, 7):
        out.append(dict(h="h_conv", **c))
    for seed in range(8 if deep else 3):
        c = wide_scm(seed + 10, 3 + seed % 3, 2, free=0)
        ren = {v: "V%d" % (9 + i) for i, (v, _s) in enumerate(c["dom"])}
        st = lambda v, x: f"s{dict(c['dom'])[v].index(x)}"
        f = dict(c, dom=[(ren[v], [st(v, x) for x in s]) for v, s in c["dom"]], edges=[(ren[x], ren[y]) for x, y in c["edges"]], exo=[ren[u] for u in c["exo"]],
                 eqs={ren[v]: [st(v, x) for x in t] for v, t in c["eqs"].items()})
        out.append(dict(h="h_scmfile", ext=".xmlbif", cast=seed % 2 == 0, **f))
    for i, name in enumerate(SCM):
        c = scm(name, layout=lays[i % 4], form=("det", "tab", "mix")[i % 3])
        c["dom"] = [(v, [f"{v}_{j}" for j in range(len(s))]) for v, s in c["dom"]]
        for ext in (".bif", ".xmlbif"):
            if ext == ".bif" and not deep and i % 4:
                continue
            out.append(dict(h="h_scmfile", ext=ext, cast=i % 2 == 0, **c))
    return out


def prepare(ctx):
    import pgmpy.readwrite.BIF as B
    import pgmpy.readwrite.XMLBIF as X
    B.Parallel = lambda n_jobs=None, **k: (lambda calls: [f(*a, **kw) for f, a, kw in calls])
    if ctx.symbolic:
        from pgmpy import config
        from ..shims import inject
        config.DTYPE = object
        inject([B, X])


def check_pgmpy(ctx, p, net, edges):
    ctx.same(sorted(p.nodes()), sorted(net.dom), "nodes of the pgmpy network")
    ctx.same(sorted(p.edges()), sorted(edges), "arcs of the pgmpy network")
    ctx.same(sorted(c.variable for c in p.cpds), sorted(net.dom), "tables of the pgmpy network")
    for c in p.cpds:
        v = c.variable
        ctx.same(sorted(c.variables), sorted([v] + edges_parents(edges, v)), f"scope of {v} in pgmpy")
        ctx.same(c.variables[0], v, "pgmpy's tables start with the variable")
        flat = c.get_values()
        d = OrderedDict((x, net.dom[x]) for x in c.variables)
        for x in d:
            ctx.same(sorted(map(repr, c.state_names[x])), sorted(map(repr, d[x])), f"states of {x} in {v}'s table")
        for a in space(d):
            idx = tuple(list(c.state_names[x]).index(a[x]) for x in c.variables)
            ctx.eq(c.values[idx], net.refs[v](a), f"pgmpy table of {v} at {a}")
            col = 0
            for x, i in zip(c.variables[1:], idx[1:]):
                col = col * len(d[x]) + i
            ctx.eq(flat[idx[0], col], net.refs[v](a), f"pgmpy two-dimensional table of {v} at {a}")


def check_bn(ctx, r, net, edges, st=lambda s: s):
    ctx.same(sorted(r.graph.nodes), sorted(net.dom), "nodes")
    ctx.same(sorted(r.graph.edges), sorted(edges), "arcs")
    for v in net.dom:
        pa = edges_parents(edges, v)
        d = OrderedDict((x, net.dom[x]) for x in [v] + pa)
        f = r.factors[v]
        check_scope(ctx, f, {x: [st(s) for s in d[x]] for x in d}, f"table of {v}")
        ctx.same(list(f.left_vars), [v], f"left side of {v}")
        for a in space(d):
            ctx.eq(f.get_value(**{x: st(s) for x, s in a.items()}), net.refs[v](a), f"table of {v} at {a}")


def h_conv(ctx, cfg):
    from bcause.conversion.pgmpy import toBCauseBNet, toPgmpyBNet
    prepare(ctx)
    ctx.rtol, ctx.atol = 1e-13, 0.0     # numbers stay as they are
    m, net = make_bn(ctx, cfg)
    p = toPgmpyBNet(m)
    check_pgmpy(ctx, p, net, cfg["edges"])
    check_bn(ctx, toBCauseBNet(p), net, cfg["edges"])
    check_bn(ctx, toBCauseBNet(p, vtype="list"), net, cfg["edges"])


def h_import(ctx, cfg):
    import pgmpy.models as pm
    import pgmpy.factors.discrete as pfd
    from bcause.conversion.pgmpy import toBCauseBNet, toPgmpyBNet
    prepare(ctx)
    dom = D(cfg["dom"])
    if not cfg["named"]:
        dom = OrderedDict((v, list(range(len(s)))) for v, s in dom.items())
    p = pm.BayesianNetwork()
    p.add_nodes_from(dom)
    p.add_edges_from(cfg["edges"])
    refs = {}
    for v in dom:
        pa = edges_parents(cfg["edges"], v)[::-1]
        d = OrderedDict((x, dom[x]) for x in [v] + pa)
        vals, refs[v] = cpt(ctx, f"p{v}", d, v, fixed=(cfg.get("fixed") or {}).get(v))
        n = len(vals) // len(dom[v])
        kw = dict(evidence=pa, evidence_card=[len(dom[x]) for x in pa]) if pa else {}
        if cfg["named"]:
            kw["state_names"] = {x: list(dom[x]) for x in (list(d) if cfg["layout"] == "first" else list(d)[::-1])} if "layout" in cfg else {x: list(dom[x]) for x in d}
        p.add_cpds(pfd.TabularCPD(v, len(dom[v]), [vals[i * n:(i + 1) * n] for i in range(len(dom[v]))], **kw))
    net = Net(dom, refs)
    check_pgmpy(ctx, p, net, cfg["edges"])
    m = toBCauseBNet(p)
    check_bn(ctx, m, net, cfg["edges"])
    check_pgmpy(ctx, toPgmpyBNet(m), net, cfg["edges"])


def through(m, ext, cls):
    d = tempfile.mkdtemp(prefix="symx-bif-")
    try:
        p = os.path.join(d, "model" + ext)
        m.save(p)
        return cls.read(p)
    finally:
        shutil.rmtree(d)


def h_file(ctx, cfg):
    from bcause.models import BayesianNetwork
    prepare(ctx)
    m, net = make_bn(ctx, cfg)
    ctx.rtol, ctx.atol = 1e-13, 0.0     # numbers come back as they were
    check_bn(ctx, through(m, cfg["ext"], BayesianNetwork), net, cfg["edges"])


def h_scmfile(ctx, cfg):
    from bcause.models.cmodel import StructuralCausalModel
    prepare(ctx)
    m, net = make_scm(ctx, cfg, cast=cfg["cast"])
    r = through(m, cfg["ext"], StructuralCausalModel)
    check_bn(ctx, r, net, cfg["edges"])
    ctx.same(sorted(r.endogenous), sorted(v for v in net.dom if v not in cfg["exo"]), "endogenous")
