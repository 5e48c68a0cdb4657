"""Structures used by the model-level checks (nodes with states, arcs)."""
from .lib import OrderedDict, space, subsets

ST = {
    "b": lambda v: [0, 1], "s": lambda v: [v.lower() + "1", v.lower() + "2"], "t": lambda v: [True, False],
    "3": lambda v: [2, 0, 1], "e": lambda v: ["", "x"], "1": lambda v: ["only"], "n": lambda v: [v.lower() + "0", v.lower() + "1"],
    "r": lambda v: [1, 0], "f": lambda v: [0.0, 2.5], "4": lambda v: [0, 1, 2, 3], "5": lambda v: ["p", "q", v, "", "s"],
}


def doms(spec):
    """'A:b B:3' -> [('A', [0, 1]), ('B', [2, 0, 1])]"""
    return [(t.split(":")[0], ST[t.split(":")[1]](t.split(":")[0])) for t in spec.split()]


def arcs(spec):
    return [tuple(t.split(">")) for t in spec.split()]


BN = OrderedDict([
    ("single", ("A:3", "")),
    ("chain3", ("A:b B:3 C:s", "A>B B>C")),
    ("fork", ("B:s A:3 C:b", "A>B A>C")),
    ("collider", ("A:b C:e B:3", "A>C B>C")),
    ("colliderdesc", ("A:b C:s B:e D:b", "A>C B>C C>D")),
    ("diamond", ("D:b A:s B:b C:e", "A>B A>C B>D C>D")),
    ("disconnected", ("A:b B:s C:3", "A>B")),
    ("twopairs", ("A:b B:s C:e D:b", "A>B C>D")),
    ("isolated", ("A:b B:s", "")),
    ("complete3", ("C:b A:s B:3", "A>B A>C B>C")),
    ("constant", ("A:1 B:b C:s", "A>B B>C A>C")),
    ("threeparents", ("D:b A:b B:s C:e", "A>D B>D C>D")),
    ("M", ("A:b B:s C:b D:e E:b", "A>C B>C B>D C>E")),
    ("chain5", ("E:b D:s C:b B:e A:b", "A>B B>C C>D D>E")),
    ("ladder", ("A:b B:s C:b D:e", "A>B A>C B>C B>D C>D")),
])

SCM = OrderedDict([
    # dom, arcs, exogenous
    ("one", ("X:b U:3", "U>X", "U")),
    ("markov2", ("X:b Y:s U:b V:3", "X>Y U>X V>Y", "U V")),
    ("confounded", ("X:b Y:s U:3", "X>Y U>X U>Y", "U")),
    ("iv", ("Z:b X:s Y:b U:b W:b", "Z>X X>Y U>X U>Y W>Z", "U W")),
    ("chain3", ("X:b Y:s Z:b U:b V:b W:b", "X>Y Y>Z U>X V>Y W>Z", "U V W")),
    ("frontdoor", ("X:b M:s Y:b U:b V:b", "X>M M>Y U>X U>Y V>M", "U V")),
    ("bow2", ("X:b Y:s Z:b U:b V:b", "X>Y X>Z U>X U>Y V>Z", "U V")),
    ("noexo", ("X:b Y:s U:3", "U>X X>Y", "U")),
    ("twoexo", ("X:b Y:s U:b V:b W:b", "X>Y U>X V>Y W>Y W>X", "U V W")),
    ("leafx", ("Y:b X:s U:b V:b", "Y>X U>Y V>X", "U V")),
    ("disjoint", ("X:b Y:s U:b V:b", "U>X V>Y", "U V")),
    ("fork", ("Z:b X:s Y:b U:b V:b W:b", "Z>X Z>Y U>Z V>X W>Y", "U V W")),
    # states listed in no particular order; names contained in one another
    ("unsorted", ("X:r Y:3 U:r", "X>Y U>X U>Y", "U")),
    ("unsorted2", ("AB:t A:r UA:3 U:b", "A>AB UA>A U>AB", "UA U")),
])


def bn(name, **kw):
    d, e = BN[name]
    return dict(name=name, dom=doms(d), edges=arcs(e), **kw)


def scm(name, **kw):
    d, e, x = SCM[name]
    return dict(name=name, dom=doms(d), edges=arcs(e), exo=x.split(), **kw)


def short(dom, name):
    return dict(dom)[name]


def assignments(dom, vs):
    return space(OrderedDict((v, dict(dom)[v]) for v in vs))


def all_dags(n):
    """All labelled DAGs over the first n letters, as arc lists (listing order of nodes fixed)."""
    import itertools
    names = "ABCDE"[:n]
    pairs = [(a, b) for a, b in itertools.combinations(names, 2)]
    out = []
    for dirs in itertools.product((0, 1, 2), repeat=len(pairs)):
        es = [(p if d == 1 else (p[1], p[0])) for p, d in zip(pairs, dirs) if d]
        # acyclic?
        left, arcs_ = set(names), list(es)
        while left:
            src = [v for v in left if not any(y == v and x in left for x, y in arcs_)]
            if not src:
                break
            left -= set(src)
        if not left:
            out.append(es)
    return out


def dag_bn(n, i, es, kinds="b3se1"):
    names = "ABCDE"[:n]
    return dict(name=f"dag{n}.{i}", dom=[(v, ST[("b", "s", "3", "e", "r")[(k + i) % 5]](v)) for k, v in enumerate(names)], edges=es)


def all_scms(nendo, nexo, rev=False):
    """All structures over nendo ordered endogenous variables and nexo exogenous ones (each with a set of children)."""
    import itertools
    V = "ABCD"[:nendo]
    U = ["U", "V", "W"][:nexo]
    fam = [list(c) for k in range(1, nendo + 1) for c in itertools.combinations(V, k)]
    pairs = list(itertools.combinations(V, 2))
    for ks in itertools.product((0, 1), repeat=len(pairs)):
        es = [p for p, k in zip(pairs, ks) if k]
        for i, chs in enumerate(itertools.combinations_with_replacement(fam, nexo)):
            ex = [(u, c) for u, ch in zip(U, chs) for c in ch]
            if set(V) - {y for _, y in es + ex}:
                continue      # an endogenous variable without parents must be declared as such
            names = list(reversed(V)) + U if rev else list(V) + U
            kind = lambda k: ST[("b", "r", "s", "t", "e")[(k + i + len(es)) % 5]]
            yield dict(name=f"{nendo}{nexo}", dom=[(v, kind(k)(v)) for k, v in enumerate(names)], edges=es + ex, exo=U)


def _rng(seed):
    """Small deterministic generator (no dependence on Python's random module)."""
    x = [seed * 2654435761 % 2 ** 32 or 1]

    def below(n):
        x[0] = (x[0] * 1664525 + 1013904223) % 2 ** 32
        return (x[0] >> 10) % n
    return below


NAMES = ["V10", "V2", "V1", "V20", "V3", "a", "A", "Z_1", "B b", "é", "W", "x.y"]
KINDS = ["b", "s", "t", "r", "e", "n", "3", "f", "1", "4", "5"]


def _shuffle(r, xs):
    xs = list(xs)
    for i in range(len(xs) - 1, 0, -1):
        j = r(i + 1)
        xs[i], xs[j] = xs[j], xs[i]
    return xs


def _fixed_rows(r, card, nconf):
    """Dyadic distributions, all different: all but one entry fixed, per configuration."""
    out = {}
    for i in range(nconf):
        row, tries = None, 0
        while row is None or (row in out.values() and tries < 50):
            tries += 1
            left, row = 128, {}
            for k in range(card - 1):
                p = 1 + r(left - (card - k - 1))
                row[k] = p / 128
                left -= p
        out[i] = row
    return out


def wide_bn(seed, n, free=2, maxpar=3, kinds=KINDS):
    """A network of n nodes with unusual names and labels; all but `free` nodes have fixed tables."""
    r = _rng(seed + 17)
    names = _shuffle(r, NAMES)[:n]
    dom = [(v, ST[kinds[r(len(kinds))]](v[0])) for v in names]
    order = _shuffle(r, names)
    edges = []
    for i, v in enumerate(order):
        pas = _shuffle(r, order[:i])[:r(min(maxpar, i) + 1)]
        edges += [(p, v) for p in pas]
    edges = _shuffle(r, edges)
    d = dict(dom)
    for v in names:      # keep tables small
        while True:
            n = len(d[v])
            for p in edges_of(edges, v):
                n *= len(d[p])
            if n <= 100:
                break
            edges.remove([e for e in edges if e[1] == v][0])
    small = [v for v in _shuffle(r, names) if len(d[v]) > 1 and len([e for e in edges if e[1] == v]) <= 1][:free]
    fixed = {}
    for v in names:
        if v not in small and len(d[v]) > 1:
            nconf = 1
            for p in edges_of(edges, v):
                nconf *= len(d[p])
            fixed[v] = _fixed_rows(r, len(d[v]), nconf)
    return dict(name=f"wide{n}.{seed}", dom=dom, edges=edges, fixed=fixed, layout=("first", "last", "mid", "rev")[r(4)], perm=bool(r(2)))


def edges_of(edges, v):
    return [x for x, y in edges if y == v]


def wide_scm(seed, nendo, nexo, free=1, maxpar=3):
    """A causal model with unusual names; `free` equations are left to the solver, the others are fixed."""
    r = _rng(seed + 91)
    names = _shuffle(r, NAMES)
    endo, exo = names[:nendo], names[nendo:nendo + nexo]
    kinds = ["b", "s", "t", "r", "e", "n"]
    d = {v: ST[kinds[r(len(kinds))]](v[0]) for v in endo + exo}
    if nendo + nexo <= 7:
        d[exo[0]] = ST["3"](exo[0])
    order = _shuffle(r, endo)
    edges = []
    for i, v in enumerate(order):
        edges += [(p, v) for p in _shuffle(r, order[:i])[:r(min(2, i) + 1)]]
    for i, v in enumerate(endo):
        edges.append((exo[i % nexo], v))
        if r(3) == 0 and nexo > 1:
            edges.append((exo[(i + 1) % nexo], v))
    for i, u in enumerate(exo):
        if not any(x == u for x, _ in edges):
            edges.append((u, endo[i % nendo]))
    edges = _shuffle(r, edges)
    dom = [(v, d[v]) for v in _shuffle(r, endo + exo)]
    eqs, k = {}, 0
    lay = ("first", "last", "mid", "rev")[r(4)]
    for v in _shuffle(r, endo):
        nconf = 1
        for p in edges_of(edges, v):
            nconf *= len(d[p])
        if k < free and nconf <= 6:
            k += 1
            continue
        eqs[v] = [d[v][r(len(d[v]))] for _ in range(nconf)]
    return dict(name=f"wide{nendo}.{nexo}.{seed}", dom=dom, edges=edges, exo=exo, eqs=eqs, layout=lay)


def some_queries(seed, dom, n, maxt=2, maxev=3):
    """n pseudo-random (targets, evidence) pairs over the variables of dom."""
    r = _rng(seed + 5)
    d = dict(dom)
    out = []
    for _ in range(n):
        vs = _shuffle(r, d)
        k = 1 + r(maxt)
        e = r(maxev + 1)
        out.append((vs[:k], {v: d[v][r(len(d[v]))] for v in vs[k:k + e]}))
    return out


def simulate(r, c, do=None):
    """One world of a causal model (equations left to the solver take any state): possible for some choice."""
    from .lib import layout
    do = do or {}
    d = dict(c["dom"])
    a = {}
    while len(a) < len(d):
        for v in d:
            pa = edges_of(c["edges"], v)
            if v in a or not all(p in a for p in pa):
                continue
            if v in do:
                a[v] = do[v]
            elif v in c["exo"] or v not in c.get("eqs", {}):
                a[v] = d[v][r(len(d[v]))]
            else:
                right = [x for x in layout(c, v, pa) if x != v]
                i = 0
                for p in right:
                    i = i * len(d[p]) + d[p].index(a[p])
                a[v] = c["eqs"][v][i]
    return a


def some_causal(seed, c, n, maxt=2, maxdo=2, maxev=2):
    """n pseudo-random (targets, do, evidence possible under do)."""
    r = _rng(seed + 31)
    d = dict(c["dom"])
    endo = [v for v in d if v not in c["exo"]]
    for _ in range(n):
        do = {v: d[v][r(len(d[v]))] for v in _shuffle(r, endo)[:r(min(maxdo, len(endo) - 1) + 1)]}
        rest = _shuffle(r, [v for v in d if v not in do])
        k = 1 + r(min(maxt, len(rest)))
        a = simulate(r, c, do)
        yield rest[:k], do, {v: a[v] for v in rest[k:k + r(maxev + 1)]}


def some_worlds(seed, c, n, maxev=3, maxw=2):
    """n pseudo-random counterfactual queries (targets, interventions, factual evidence, worlds of the targets)."""
    r = _rng(seed + 77)
    d = dict(c["dom"])
    endo = [v for v in d if v not in c["exo"]]
    for _ in range(n):
        dos = []
        for _ in range(1 + r(maxw)):
            dos.append({v: d[v][r(len(d[v]))] for v in _shuffle(r, endo)[:1 + r(min(2, len(endo) - 1))]})
        ts, ws = [], []
        for _ in range(1 + r(2)):
            w = r(len(dos))
            vs = [v for v in _shuffle(r, endo) if v not in dos[w] and (v, w + 1) not in zip(ts, ws)]
            if vs:
                ts.append(vs[0])
                ws.append(w + 1)
        if not ts:
            continue
        a = simulate(r, c)
        ev = {v: a[v] for v in _shuffle(r, d)[:r(maxev + 1)]}
        yield dict(t=ts, do=dos, ev=ev, ts=ws)


def csi_bns(n=8, start=0):
    """Networks whose tables are trees with branches that end early (context-specific independences)."""
    names = ["collider", "threeparents", "complete3", "diamond", "colliderdesc", "chain3", "M", "fork"]
    for i in range(start, start + n):
        if i % 2 == 0:
            c = bn(names[i // 2 % len(names)], layout=("first", "last", "mid", "rev")[i // 2 % 4])
        else:
            c = wide_bn(i + 400, 4 + i % 4, maxpar=4)
        yield dict(c, vtype="treedict", csi=3 * i + i // 3, name=c["name"] + "csi")


def csi_scms(n=6, start=0, **kw):
    """Causal models with 0/1 tables kept as trees with branches that end early."""
    for i in range(start, start + n):
        c = wide_scm(i + 400, 2 + i % 4, 2, **kw)
        yield dict(c, vtype="treedict", csi=3 * i, name=c["name"] + "csi", form="tab")
