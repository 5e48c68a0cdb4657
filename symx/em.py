"""Reference semantics of expected counts (shared by C15 and C26)."""
from .lib import *


def observed(rec):
    return {v: s for v, s in rec.items() if s is not None}


def posterior(net, part, ev):
    """P(part | ev) under the reference model; 0 where they disagree."""
    if any(v in ev and ev[v] != s for v, s in part.items()):
        return 0.0
    return net.mass({**ev, **part}) / net.mass(ev)


def expected(net, recs, ns, v, pa, a):
    """(expected number of records with configuration a of v and pa, same summed over v's states)."""
    vs = [v] + list(pa)
    num = total([posterior(net, sub(a, vs), observed(o)) * n for o, n in zip(recs, ns)])
    den = total([posterior(net, sub(a, pa), observed(o)) * n for o, n in zip(recs, ns)])
    return num, den


def never(recs, part):
    """No record is compatible with the configuration."""
    return all(any(v in observed(o) and observed(o)[v] != s for v, s in part.items()) for o in recs)


def data_of(ctx, cfg, net=None):
    rows, cols = [list(r) for r in cfg["rows"]], list(cfg["cols"])
    ns = [ctx.count(f"n{i}") for i in range(len(rows))]
    recs = [dict(zip(cols, r)) for r in rows]
    if net is not None:
        for o in recs:
            if cfg.get("exo"):
                ctx.assume(net.mass(observed(o)) != 0)
    return ctx.frame([list(r) for r in rows], cols, ns), recs, ns


def current(em, net):
    """Reference model holding the learner's current tables."""
    fs = em.model.factors
    return Net(net.dom, {v: Ref(fs[v].domain, lambda a, v=v: fs[v].get_value(**a)) for v in net.dom})
