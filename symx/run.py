"""Path exploration of one harness configuration, in a worker process."""
import signal
import time
import traceback
from fractions import Fraction

from . import core
from .core import Engine, Unsupported, PathAbort, RelaxationBroken, z3, to_sym, tz
from .shims import Stub
from .ctx import Fail, make_sym_ctx, values_for_real, values_for_dist, values_for_label, value_for_count

SymCtx = None


class ConfigTimeout(BaseException):
    pass


def _alarm(*_):
    raise ConfigTimeout()


def frac(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_int_value(v):
        return float(v.as_long())
    return None


def model_values(eng, m):
    out = {}
    for n, v in eng.vars.items():
        x = frac(m.eval(v, model_completion=False))
        if x is not None:
            out[n] = x
    return out


def nice(eng, strong=True):
    lo = z3.RealVal("1/20") if strong else z3.RealVal("1/1000")
    cs = []
    for n, v in eng.vars.items():
        if "[" in n:
            cs.append(v >= lo)
            cs.append(v <= z3.RealVal("9/10"))
    for v in eng.counts:
        cs.append(z3.Or(*[v == k for k in (1, 2, 3, 5, 8)]))
    return cs


def separated(v):
    """Strengthen a violated equality so that the difference is visible in floats."""
    if z3.is_not(v) and z3.is_eq(v.arg(0)) and z3.is_arith(v.arg(0).arg(0)):
        a, b = v.arg(0).arg(0), v.arg(0).arg(1)
        eps = z3.RealVal("1/1000")
        return z3.Or(a - b > eps, b - a > eps)
    return v


def find_models(eng, viol):
    """Several candidate models of the violation, most readable first."""
    out = []
    for extra, vs, to in ((nice(eng), [separated(v) for v in viol], 3000), ([], [separated(v) for v in viol], 3000), ([], viol, 8000)):
        r, m = eng.check(list(extra) + [z3.Or(*vs)], timeout=to, model=True)
        if m is not None:
            out.append(model_values(eng, m))
            if len(out) >= 2:
                break
    return out


def path_model(eng):
    for extra in (nice(eng), []):
        r, m = eng.check(extra, timeout=3000, model=True)
        if m is not None:
            return model_values(eng, m)
    return {}


def eval_inputs(spec, seed):
    """The values ConcreteCtx(seed=seed) would draw, as z3 substitution by name."""
    sub = {}
    for s in spec:
        if s[0] == "real":
            _, n, pos, nonneg, lo, hi = s
            sub[n] = Fraction(float(values_for_real(n, seed, pos, nonneg, lo, hi, {})))
        elif s[0] == "dist":
            _, n, k, zeros = s
            _, vals = values_for_dist(n, k, zeros, seed, {})
            for q, v in vals.items():
                sub[q] = Fraction(float(v))
        elif s[0] == "count":
            sub[s[1]] = Fraction(value_for_count(s[1], seed, {}))
        elif s[0] == "label":
            _, n, k = s
            i = values_for_label(n, k, seed, {})
            for j in range(k - 1):
                sub[f"{n}#{j}"] = Fraction(1 if i == j else 0)
    return sub


def evaluate_lhs(eng, ctx, seed):
    """lhs terms under the concrete inputs of `seed`, None if this path is not taken by them."""
    sub = eval_inputs(ctx.spec, seed)
    pairs = [(eng.vars[n], tz(v)) for n, v in sub.items() if n in eng.vars]
    ev = lambda t: z3.simplify(z3.substitute(t, *pairs)) if pairs else z3.simplify(t)
    relaxed = {c.get_id() for c in eng.relax_cons}
    for c in eng.cons:
        if c.get_id() not in relaxed and not z3.is_true(ev(c)):
            return None
    out = []
    for msg, a in ctx.lhs:
        s = to_sym(a)
        if s is None or isinstance(a, core.SymLog):
            out.append((msg, None))
            continue
        out.append((msg, frac(ev(s.term()))))
    return out


CHUNK = 24


def run_config(fn, cfg, budget_paths=400, budget_s=90, validate_seed=None, timeout_ms=8000):
    """Explore all paths of harness fn on cfg. Returns a result dict (picklable)."""
    global SymCtx
    if SymCtx is None:
        SymCtx = make_sym_ctx()
    res = None
    t0 = time.time()
    for relax in ((False,) if cfg.get("exact") else (True, False)):
        res = _explore(fn, cfg, relax, budget_paths, budget_s, validate_seed, timeout_ms)
        if res["status"] in ("relax", ) or (res["status"] == "cex" and res["relaxed"] and relax):
            continue
        break
    if res["framed"] and res["status"] != "ok":
        # records with symbolic multiplicities are out of reach: concrete record counts, the rest symbolic
        for pattern in (1, 2):
            alt = _explore(fn, cfg, False, budget_paths, budget_s, None, timeout_ms, plain=pattern)
            res["alt"] = res.get("alt", []) + [alt["status"]]
            if alt["status"] in ("cex", "exc"):
                res["models"] = (res["models"] or [{}])[:1] + [dict(m, **{"#seed": pattern}) for m in (alt["models"] or [{}])[:1]]
                res["choices"] = alt["choices"] or res["choices"]
                if res["status"] != "cex":
                    res["status"], res["detail"] = alt["status"], alt["detail"]
            for k, v in alt["stats"].items():
                res["stats"][k] = res["stats"].get(k, 0) + v
            res["paths"] += alt["paths"]
            res["obligations"] += alt["obligations"]
            res["syntactic"] += alt["syntactic"]
            res["ops"] += alt["ops"]
    res["wall"] = time.time() - t0
    return res


def _explore(fn, cfg, relax, budget_paths, budget_s, validate_seed, timeout_ms, plain=None):
    eng = Engine(timeout_ms)
    eng.relax = relax
    res = dict(status="ok", paths=0, obligations=0, syntactic=0, relaxed=False, models=[], detail="", aborted=0,
               exist=0, validation=None, choices={}, unknown=0)
    todo = [[]]
    exist, unmet = {}, {}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget_s + 1, 5)   # again if lost in a destructor
    ctx = None
    try:
        while todo:
            prefix = todo.pop()
            if res["paths"] >= budget_paths:
                res["status"], res["detail"] = "budget", f"path budget {budget_paths}; {len(todo) + 1} prefixes left"
                break
            eng.reset(prefix)
            ctx = SymCtx(eng, plain)
            core.ENG = eng
            Stub.handlers.clear()
            try:
                fn(ctx, cfg)
            except PathAbort:
                res["aborted"] += 1
                todo.extend(eng.alts)
                continue
            except Fail as e:
                if not _reachable(eng):
                    todo.extend(eng.alts)
                    continue
                res.update(status="cex", detail=f"structural: {e}", models=[path_model(eng)], choices=ctx.choices)
                break
            except Unsupported as e:
                res.update(status="unsupported", detail=f"{e} @ {_where()}", models=[path_model(eng)], choices=ctx.choices)
                break
            except RelaxationBroken as e:
                res.update(status="relax", detail=str(e))
                break
            except Exception as e:
                if not _reachable(eng):
                    todo.extend(eng.alts)
                    continue
                res.update(status="exc", detail=f"{type(e).__name__}: {e} @ {_where()}", models=[path_model(eng)], choices=ctx.choices)
                break
            finally:
                core.ENG = None
            res["paths"] += 1
            todo.extend(eng.alts)
            res["obligations"] += len(ctx.obl) + ctx.syntactic
            res["syntactic"] += ctx.syntactic
            res["relaxed"] = res["relaxed"] or bool(eng.relaxed)
            bad = None
            for i in range(0, len(ctx.obl), CHUNK):
                part = [v for _, v in ctx.obl[i:i + CHUNK]]
                r = eng.check([z3.Or(*part)])
                if r == "unknown":
                    # undecided together: one by one
                    for v in part:
                        r1 = eng.check([v], timeout=timeout_ms * 2)
                        if r1 == "sat":
                            bad = [v]
                            break
                        if r1 == "unknown":
                            res["unknown"] += 1
                elif r == "sat":
                    bad = part
                if bad:
                    break
            for msg, v in ctx.exist:
                res["exist"] += 1
                # some path has to meet it (paths that the values fork into count together)
                k = (msg, repr(sorted(ctx.choices.items())))
                if exist.get(k, "unsat") == "unsat":
                    r = eng.check([v])
                    exist[k] = r if r != "unsat" else exist.get(k) or "unsat"
                    if r == "unsat" and k not in unmet:
                        unmet[k] = path_model(eng), ctx.choices
            if validate_seed is not None and res["validation"] is None:
                ev = evaluate_lhs(eng, ctx, validate_seed)
                if ev is not None:
                    res["validation"] = dict(values=ev, choices=ctx.choices)
            if bad:
                res.update(status="cex", choices=ctx.choices)
                if not (eng.relaxed and relax):
                    res["models"] = find_models(eng, bad)
                    which = [m for m, v in ctx.obl if any(v is b for b in bad)]
                    res["detail"] = "assertion refuted among: " + "; ".join(which[:4])
                break
            if res["paths"] == 1 and "reach" not in res:
                res["reach"] = eng.check([])
                if res["reach"] == "unsat":
                    res.update(status="vacuous", detail="assumptions unsatisfiable")
                    break
    except ConfigTimeout:
        res.update(status="timeout", detail=f"{budget_s}s")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        core.ENG = None
    if res["status"] == "ok" and not res["paths"]:
        res.update(status="vacuous", detail="no path meets the assumptions")
    if res["status"] == "ok":
        for k, r in exist.items():
            if r == "unsat":
                res.update(status="cex", detail=f"never differs: {k[0]}", models=[unmet[k][0]], choices=unmet[k][1], exist_fail=True)
                break
            res["unknown"] += r == "unknown"
    if res["status"] == "ok" and res["unknown"]:
        res["status"] = "unknown"
    if res["status"] in ("unknown", "timeout", "budget", "unsupported") and not res["models"] and ctx is not None:
        try:
            res["models"] = [path_model(eng)]
            res["choices"] = ctx.choices
        except Exception:
            pass
    res["framed"] = ctx is not None and ctx.framed
    res["stats"] = dict(eng.stats)
    res["ops"] = eng.ops
    return res


def _reachable(eng):
    return eng.check([]) != "unsat"


def _where():
    tb = traceback.extract_tb(__import__("sys").exc_info()[2])
    fr = [f for f in tb if core.REPO + "/" in f.filename] or tb
    f = fr[-1]
    return f"{f.filename}:{f.lineno}"
