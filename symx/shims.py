"""Environment for symbolic execution of bcause: numpy/math/builtin shims and stubs.

install() must run before bcause is imported.  Nothing here re-implements bcause: only the
numerical environment (numpy functions that would coerce objects to C floats, math.log, the
builtins float/int/max/min/sum/len as seen by bcause modules) is taught about symbolic values.
"""
import builtins
import importlib
import itertools
import math
import pkgutil
import sys
from fractions import Fraction

import numpy as np

from . import core
from .core import SymReal, SymBool, SymLog, SymLabel, Unsupported, to_sym, sym_max, sym_min

SYM = (SymReal, SymBool, SymLog, SymLabel)
_ndarray = np.ndarray
_orig = {}
b_float, b_int, b_max, b_min, b_sum, b_len = float, int, max, min, sum, len


def has_sym(x, depth=0):
    if isinstance(x, SYM):
        return True
    if isinstance(x, _ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(e, SYM) for e in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


class SymArray(np.ndarray):
    """Object array that keeps symbolic elements through numpy's float-minded API."""

    def astype(self, dtype, *a, **k):
        if dtype in (object, np.dtype(object)) or dtype is FloatProxy or dtype in (b_float, np.float64, "float", "float64", np.float32, complex):
            return self.copy()
        if dtype in (b_int, np.int64, np.int32, bool, IntProxy):
            if all(to_sym(e) is not None and to_sym(e).const is not None for e in self.ravel()):
                return np.array([b_int(to_sym(e).const) for e in self.ravel()]).reshape(self.shape)
            if all(core.ENG.is_bit(e) for e in self.ravel()):
                return self.copy()
            raise Unsupported(f"astype({dtype})")
        return super().astype(dtype, *a, **k)

    def max(self, axis=None, **k):
        return _extreme(sym_max, self, axis, **k)

    def min(self, axis=None, **k):
        return _extreme(sym_min, self, axis, **k)

    def round(self, decimals=0, out=None):
        return _map1(lambda e: round(_asr(e), decimals), self)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        ins = [np.asarray(x).view(np.ndarray) if isinstance(x, SymArray) else x for x in inputs]
        if name in ("maximum", "minimum", "fmax", "fmin"):
            f = sym_max if name in ("maximum", "fmax") else sym_min
            if method == "__call__":
                return _wrap(np.frompyfunc(f, 2, 1)(*ins))
            if method == "reduce":
                return _extreme(f, ins[0], **{"axis": 0, **kw})
        if method == "__call__" and name in _ELEM1:
            return _map1(_ELEM1[name], ins[0])
        if name in ("divide", "true_divide") and method == "__call__":
            ins = [_promote(x) for x in ins]
        if out is not None:
            out = tuple(o.view(np.ndarray) if isinstance(o, SymArray) else o for o in out)
            if any(isinstance(o, _ndarray) and o.dtype != object for o in out):
                raise Unsupported("symbolic result written into a float array")
            kw["out"] = out
        kw.pop("dtype", None)
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, tuple):
            return tuple(_wrap(x) for x in r)
        return _wrap(r)


def _asr(e):
    s = to_sym(e)
    return e if s is None else s


def _promote(x):
    """Numbers inside an object operand become SymReal so that x/0 follows numpy's rules."""
    if isinstance(x, _ndarray) and x.dtype == object:
        return np.frompyfunc(_asr, 1, 1)(x) if x.ndim else _box0(_asr(x.item()))
    return x


def _box0(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def _wrap(r):
    if isinstance(r, _ndarray) and r.dtype == object and not isinstance(r, SymArray):
        return r.view(SymArray)
    return r


def _map1(f, a):
    a = np.asarray(a)
    res = [f(e) for e in a.ravel()]
    if all(isinstance(x, (bool, np.bool_)) for x in res) and res:
        out = np.array(res, dtype=bool).reshape(a.shape)
    else:
        out = np.empty(len(res), dtype=object)
        for i, x in enumerate(res):
            out[i] = x
        out = out.reshape(a.shape).view(SymArray)
    return out if a.ndim else out[()]


def _reduce(f, a, axis, keepdims=False):
    a = np.asarray(a).view(np.ndarray)
    if axis is None:
        axis = tuple(range(a.ndim))
    if isinstance(axis, (b_int, np.integer)):
        axis = (axis,)
    axis = tuple(ax % a.ndim for ax in axis) if a.ndim else ()
    if not axis:
        return _wrap(a.copy())
    rest = [i for i in range(a.ndim) if i not in axis]
    t = np.transpose(a, rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty([a.shape[i] for i in rest], dtype=object)
    for idx in itertools.product(*[range(a.shape[i]) for i in rest]):
        out[idx] = f(*list(t[idx]))
    if keepdims:
        return _wrap(out.reshape([1 if i in axis else a.shape[i] for i in range(a.ndim)]))
    return out[()] if out.ndim == 0 else _wrap(out)


def _extreme(f, a, axis=None, out=None, keepdims=False, initial=None, where=None, **k):
    if out is not None or (where is not None and where is not True):
        raise Unsupported("max/min with out= or where=")
    if initial is not None and isinstance(initial, (b_int, b_float, np.number, SymReal)):
        return _reduce(lambda *xs: f(initial, *xs), a, axis, keepdims)
    return _reduce(f, a, axis, keepdims)


def _f_isnan(e):
    return isinstance(e, (b_float, np.floating)) and math.isnan(e)


def _f_isinf(e):
    return isinstance(e, (b_float, np.floating)) and math.isinf(e)


def _f_isfinite(e):
    return not (_f_isnan(e) or _f_isinf(e))


def sym_log(x):
    s = to_sym(x)
    if s is None:
        return _mathorig["log"](x) if x > 0 else b_float("nan")
    if s.const is not None:
        if s.const == 0:
            return b_float("-inf")
        if s.const < 0:
            return b_float("nan")
        if s.const == 1:
            return SymReal(Fraction(0))
        return SymLog(s)
    if s.s != core.POS and bool(s == 0):
        return b_float("-inf")
    return SymLog(s)


_ELEM1 = {"isnan": _f_isnan, "isinf": _f_isinf, "isfinite": _f_isfinite, "log": sym_log,
          "exp": lambda e: _asr(e).exp(), "absolute": lambda e: abs(_asr(e)), "fabs": lambda e: abs(_asr(e)),
          "rint": lambda e: round(_asr(e)), "sqrt": lambda e: _asr(e).sqrt(),
          "square": lambda e: _asr(e) * _asr(e)}


def _nan_to_num1(e, nan=0.0, posinf=None, neginf=None):
    if _f_isnan(e):
        return SymReal(Fraction(nan))
    if _f_isinf(e):
        if e > 0:
            return SymReal(Fraction(np.finfo(b_float).max if posinf is None else posinf))
        return SymReal(Fraction(np.finfo(b_float).min if neginf is None else neginf))
    return e


# --------------------------------------------------------------------------
# builtins as seen by bcause
# --------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (b_float, SymReal))

    def __subclasscheck__(cls, c):
        return c is SymReal or c is cls or issubclass(c, b_float)

    def __eq__(cls, o):
        return o is cls or o is b_float or o is SymReal

    def __ne__(cls, o):
        return not cls.__eq__(o)

    def __hash__(cls):
        return hash(b_float)

    def __call__(cls, x=0.0):
        if isinstance(x, (SymReal, SymLog)):
            return x
        if isinstance(x, SymBool):
            return x.as_real()
        if isinstance(x, SymLabel):
            return x
        if isinstance(x, str) and core.ENG is not None:
            t = x.strip()
            if t in core.ENG.tokens:
                return core.ENG.tokens[t]
        if isinstance(x, _ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        return b_float(x)

    def __getattr__(cls, name):
        return getattr(b_float, name)


class FloatProxy(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, b_int)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, b_int)

    def __eq__(cls, o):
        return o is cls or o is b_int

    def __ne__(cls, o):
        return not cls.__eq__(o)

    def __hash__(cls):
        return hash(b_int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SymReal):
            if x.const is not None:
                return b_int(x.const)
            if core.ENG.is_bit(x) or x is getattr(x, "_int", None):
                return x
            raise Unsupported("int() of a symbolic real")
        if isinstance(x, SymBool):
            return x.as_real()
        if isinstance(x, SymLabel):
            if all(isinstance(v, b_int) for v in x.domain):
                return x
            return b_int(x.concretize())
        if isinstance(x, str) and core.ENG is not None and x.strip() in core.ENG.tokens:
            v = core.ENG.tokens[x.strip()]
            return v if isinstance(v, SymLabel) else b_int(x)
        return b_int(x, *a)

    def __getattr__(cls, name):
        return getattr(b_int, name)


class IntProxy(metaclass=_IntMeta):
    pass


def p_max(*args, **kw):
    if kw:
        return b_max(*args, **kw)
    xs = list(args[0]) if b_len(args) == 1 else list(args)
    if any(isinstance(x, SymReal) for x in xs):
        return sym_max(*xs)
    return b_max(*args)


def p_min(*args, **kw):
    if kw:
        return b_min(*args, **kw)
    xs = list(args[0]) if b_len(args) == 1 else list(args)
    if any(isinstance(x, SymReal) for x in xs):
        return sym_min(*xs)
    return b_min(*args)


def p_sum(it, start=0):
    w = getattr(it, "_symx_sum", None)
    if w is not None:
        return w()
    return b_sum(it, start)


def p_len(x):
    w = getattr(x, "_symx_len", None)
    if w is not None:
        return w()
    return b_len(x)


def p_round(x, nd=None):
    return round(x) if nd is None else round(x, nd)


INJECT = {"float": FloatProxy, "int": IntProxy, "max": p_max, "min": p_min, "sum": p_sum, "len": p_len}

_mathorig = {}


def _from_bcause(depth=2):
    g = sys._getframe(depth).f_globals.get("__name__", "")
    return g == "bcause" or g.startswith(("bcause.", "pgmpy.readwrite."))


def _fix_dtype(dt):
    return None if (dt is FloatProxy or dt in (b_float, np.float64, "float", "float64", IntProxy, b_int, object)) else dt


def install_numpy():
    def arr(name):
        f = getattr(np, name)
        _orig[name] = f

        def wrapper(x=None, *a, **k):
            if core.ENG is not None and has_sym(x):
                if a:
                    k["dtype"] = a[0]
                k["dtype"] = _fix_dtype(k.get("dtype"))
                if k["dtype"] is None:
                    k.pop("dtype")
                if isinstance(x, SYM):
                    r = _box0(x)
                elif isinstance(x, (list, tuple)):
                    r = f(_delabel(x), dtype=object, **{q: v for q, v in k.items() if q in ("ndmin",)})
                else:
                    r = f(x, **k)
                    if isinstance(x, _ndarray) and _numeric(r) and np.may_share_memory(r, x) and r.flags.writeable:
                        r[...] = _promote(r)        # still the caller's memory
                        return _wrap(r)
                return _wrap(_promote(r) if _numeric(r) else r)
            if k.get("dtype") is FloatProxy:
                k["dtype"] = b_float
            if k.get("dtype") is IntProxy:
                k["dtype"] = b_int
            if a and a[0] is FloatProxy:
                a = (b_float,) + a[1:]
            if a and a[0] is IntProxy:
                a = (b_int,) + a[1:]
            return f(x, *a, **k)
        wrapper.__name__ = name
        setattr(np, name, wrapper)

    for n in ("array", "asarray", "asanyarray", "atleast_1d"):
        arr(n)

    def alloc(name, fill):
        f = getattr(np, name)
        _orig[name] = f

        def wrapper(*a, **k):
            dt = k.get("dtype")
            pos = {"full": 2}.get(name, 1)
            if b_len(a) > pos:
                dt = a[pos]
            if core.ENG is not None and (dt is None or dt is FloatProxy or dt in (b_float, np.float64)) and _from_bcause():
                shape = a[0] if a else k["shape"]
                if name.endswith("_like"):
                    if isinstance(shape, _ndarray) and dt is None and shape.dtype.kind in "iub":
                        return f(*a, **k)
                    shape = np.shape(shape)
                v = fill
                if name in ("full", "full_like"):
                    v = a[1] if b_len(a) > 1 else k["fill_value"]
                out = np.empty(shape, dtype=object) if _orig.get("empty") is None else _orig["empty"](shape, dtype=object)
                vv = to_sym(v)
                out.fill(v if vv is None else vv)
                return out.view(SymArray)
            if dt is FloatProxy:
                k["dtype"] = b_float
                a = a[:pos]
            if dt is IntProxy:
                k["dtype"] = b_int
                a = a[:pos]
            return f(*a, **k)
        wrapper.__name__ = name
        setattr(np, name, wrapper)

    for n, v in (("empty", 0), ("zeros", 0), ("ones", 1), ("full", None), ("zeros_like", 0), ("ones_like", 1),
                 ("empty_like", 0), ("full_like", None)):
        alloc(n, v)

    def generic(name):
        f = getattr(np, name)
        _orig[name] = f

        def wrapper(*a, **k):
            if core.ENG is not None and any(has_sym(x) for x in a):
                a = tuple(np.array(x) if isinstance(x, (list, tuple)) and has_sym(x) and not _listof_arrays(x) else x for x in a)
                k.pop("dtype", None)
                r = f(*a, **k)
                return _wrap(r)
            return f(*a, **k)
        wrapper.__name__ = name
        setattr(np, name, wrapper)

    for n in ("reshape", "ravel", "repeat", "moveaxis", "transpose", "swapaxes", "stack", "concatenate", "expand_dims",
              "squeeze", "broadcast_to", "take", "sum", "prod", "mean", "dot", "tensordot", "outer", "cumsum", "cumprod",
              "tile", "where", "rollaxis", "flip", "hstack", "vstack", "average", "add", "subtract", "multiply", "divide",
              "true_divide", "apply_along_axis", "take_along_axis", "diff", "copy"):
        if isinstance(getattr(np, n), np.ufunc):
            continue
        generic(n)

    def special(name, fn):
        f = getattr(np, name)
        _orig[name] = f

        def wrapper(*a, **k):
            if core.ENG is not None and any(has_sym(x) for x in a):
                return fn(f, *a, **k)
            return f(*a, **k)
        wrapper.__name__ = name
        setattr(np, name, wrapper)

    special("nan_to_num", lambda f, x, copy=True, nan=0.0, posinf=None, neginf=None:
            _map1(lambda e: _nan_to_num1(e, nan, posinf, neginf), np.array(x)))
    special("isscalar", lambda f, x: isinstance(x, (SymReal, SymBool)))
    special("max", lambda f, a, axis=None, **k: np.array(a).max(axis=axis, **k))
    special("amax", lambda f, a, axis=None, **k: np.array(a).max(axis=axis, **k))
    special("min", lambda f, a, axis=None, **k: np.array(a).min(axis=axis, **k))
    special("amin", lambda f, a, axis=None, **k: np.array(a).min(axis=axis, **k))
    special("isclose", lambda f, a, b, rtol=1e-5, atol=1e-8, equal_nan=False: _isclose(a, b, rtol, atol))
    special("allclose", lambda f, a, b, rtol=1e-5, atol=1e-8, equal_nan=False: b_all(_isclose(a, b, rtol, atol)))
    special("einsum", _einsum)
    for n in ("log", "isnan", "isinf", "isfinite", "exp", "sqrt", "abs", "absolute"):
        special(n, (lambda nm: lambda f, x, *a, **k: _map1(_ELEM1["absolute" if nm == "abs" else nm], np.array(x)))(n))
    for n in ("maximum", "minimum", "true_divide", "divide", "multiply", "add", "subtract"):
        u = getattr(np, n)
        _orig[n] = u
        setattr(np, n, _UfuncShim(u))
    special("nansum", lambda f, a, axis=None, **k: np.sum(np.nan_to_num(a), axis=axis))
    special("array_equal", lambda f, a, b, **k: np.shape(a) == np.shape(b) and all(
        bool(_asr(x) == _asr(y)) for x, y in zip(np.array(a).ravel(), np.array(b).ravel())))
    special("around", lambda f, a, decimals=0, out=None: np.array(a).round(decimals))
    special("round", lambda f, a, decimals=0, out=None: np.array(a).round(decimals))

    for n in ("log", "isnan", "isinf", "isfinite", "isclose", "prod", "fsum", "exp"):
        _mathorig[n] = getattr(math, n)
    math.log = lambda x, *b: (_math_log(x) if isinstance(x, SYM) else _mathorig["log"](x, *b))
    math.isnan = lambda x: (False if isinstance(x, SYM) else _mathorig["isnan"](x))
    math.isinf = lambda x: (False if isinstance(x, SYM) else _mathorig["isinf"](x))
    math.isfinite = lambda x: (True if isinstance(x, SYM) else _mathorig["isfinite"](x))
    math.isclose = lambda a, b, *, rel_tol=1e-9, abs_tol=0.0: (
        bool(abs(_asr(a) - b) <= rel_tol * p_max(abs(_asr(a)), abs(_asr(b))) + abs_tol) if isinstance(a, SYM) or isinstance(b, SYM)
        else _mathorig["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol))
    math.fsum = lambda it: (lambda xs: b_sum(xs) if has_sym(xs) else _mathorig["fsum"](xs))(list(it))
    math.prod = lambda it, *, start=1: _mathorig["prod"](it, start=start)


def _math_log(x):
    s = to_sym(x)
    if s.s != core.POS and bool(s <= 0):
        raise ValueError("math domain error")
    return sym_log(s)


b_all = all


class _UfuncShim:
    """np.maximum etc. on scalars/lists with symbolic elements."""

    def __init__(self, u):
        self._u = u

    def __call__(self, *a, **k):
        if core.ENG is not None and any(has_sym(x) for x in a):
            a = tuple(np.array(x) if has_sym(x) else x for x in a)
            r = self._u(*a, **k)
            if isinstance(r, _ndarray) and r.ndim == 0 and not any(isinstance(x, _ndarray) and x.ndim for x in a):
                return r[()]
            return r
        return self._u(*a, **k)

    def __getattr__(self, n):
        if n in ("reduce", "accumulate", "outer"):
            m = getattr(self._u, n)

            def call(x, *a, **k):
                if core.ENG is not None and has_sym(x):
                    x = np.array(x)
                return _wrap(m(x, *a, **k))
            return call
        return getattr(self._u, n)


def _listof_arrays(x):
    return any(isinstance(e, _ndarray) and e.ndim for e in x)


def _delabel(x):
    """Zero-dimensional arrays inside lists count as their element, as in numpy."""
    if isinstance(x, (list, tuple)):
        return [_delabel(e) for e in x]
    if isinstance(x, _ndarray) and x.ndim == 0 and x.dtype == object:
        return x.item()
    return x


def _numeric(r):
    return isinstance(r, _ndarray) and r.dtype == object and not any(isinstance(e, (SymLabel, str)) for e in r.ravel())


def _isclose(a, b, rtol, atol):
    A, B = np.broadcast_arrays(np.array(a), np.array(b))
    out = np.array([bool(abs(_asr(x) - y) <= atol + rtol * abs(_asr(y))) for x, y in zip(A.ravel(), B.ravel())], dtype=bool)
    return out.reshape(A.shape) if A.ndim else out[0]


def _einsum(f, *ops, **kw):
    if isinstance(ops[0], str):
        spec, arrays = ops[0].replace(" ", ""), [np.array(x) for x in ops[1:]]
        if "->" in spec:
            ins, out = spec.split("->")
            ins = ins.split(",")
        else:
            ins = spec.split(",")
            allc = "".join(ins)
            out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    else:
        ops = list(ops)
        arrays, ins = [], []
        while b_len(ops) >= 2:
            arrays.append(np.array(ops.pop(0)))
            ins.append(list(ops.pop(0)))
        if ops:
            out = list(ops[0])
        else:
            allc = [c for i in ins for c in i]
            out = sorted(c for c in set(allc) if allc.count(c) == 1)
    if any("." in str(i) for i in ins):
        raise Unsupported("einsum with ellipsis")
    size = {}
    for a, i in zip(arrays, ins):
        for c, n in zip(i, a.shape):
            size[c] = n
    summed = [c for c in size if c not in out]
    res = _orig["empty"]([size[c] for c in out], dtype=object)
    for o in itertools.product(*[range(size[c]) for c in out]):
        env = dict(zip(out, o))
        tot = SymReal(Fraction(0))
        for s in itertools.product(*[range(size[c]) for c in summed]):
            env.update(zip(summed, s))
            t = SymReal(Fraction(1))
            for a, i in zip(arrays, ins):
                t = t * a[tuple(env[c] for c in i)]
            tot = tot + t
        res[o] = tot
    return res[()] if res.ndim == 0 else res.view(SymArray)


# --------------------------------------------------------------------------
# stubs of the random source and of the optimiser, switchable by harnesses
# --------------------------------------------------------------------------
class Stub:
    """handlers: name -> function, consulted while a harness is running."""
    handlers = {}


def _stub(mod, name, key):
    f = getattr(mod, name)
    _orig[key] = f

    def wrapper(*a, **k):
        h = Stub.handlers.get(key)
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    wrapper.__name__ = name
    setattr(mod, name, wrapper)


RANDOM_FNS = ("choice", "uniform", "rand", "random", "random_sample", "dirichlet", "randint", "multinomial", "permutation", "shuffle", "normal", "seed", "default_rng")
PY_RANDOM_FNS = ("choice", "choices", "uniform", "random", "randint", "shuffle", "sample", "seed")


def install_stubs():
    """Also used by concrete replays (np.random / minimize handlers only, no symbolic shims)."""
    for n in RANDOM_FNS:
        _stub(np.random, n, "np.random." + n)
    Original = np.random.RandomState

    class RandomState(Original):
        def __new__(cls, *a, **k):
            h = Stub.handlers.get("np.random.RandomState")
            return Original.__new__(cls, *a, **k) if h is None else h(*a, **k)
    np.random.RandomState = RandomState
    import random
    for n in PY_RANDOM_FNS:
        _stub(random, n, "random." + n)
    import scipy.optimize
    _stub(scipy.optimize, "minimize", "scipy.optimize.minimize")


def _stub_rel_entr(mod):
    """Relative entropy of symbolic tables: replaced by squared differences, whose sum over two tables of
    distributions is zero in exactly the same cases (Gibbs' inequality)."""
    f = mod.rel_entr

    def rel_entr(p, q, *a, **k):
        if has_sym(p) or has_sym(q):
            sq = lambda x, y: (to_sym(x) - to_sym(y)) * (to_sym(x) - to_sym(y))
            return np.frompyfunc(sq, 2, 1)(_promote(p), _promote(q))
        return f(p, q, *a, **k)
    mod.rel_entr = rel_entr


def import_bcause():
    import bcause
    mods = [bcause]
    for m in pkgutil.walk_packages(bcause.__path__, "bcause."):
        try:
            mods.append(importlib.import_module(m.name))
        except Exception:       # a module that cannot be imported is not code under test
            pass
    return [sys.modules[n] for n in list(sys.modules) if n == "bcause" or n.startswith("bcause.")]


def inject(mods):
    for m in mods:
        for k, v in INJECT.items():
            if k not in m.__dict__:
                m.__dict__[k] = v


def summarise_degenerate():
    """Function summary: a table of solver-chosen 0/1 indicators is degenerate (decided by C25 on the real code)."""
    import bcause.factors.factor as bf
    real = getattr(bf.DiscreteFactor, "is_degenerate", None)
    if real is None:
        return

    def is_degenerate(self):
        if core.ENG is not None and summarise_degenerate.on:
            try:
                vals = list(self.values_list)
                if any(isinstance(v, SymReal) and v.const is None for v in vals) and all(core.ENG.is_bit(v) for v in vals):
                    return True
            except Unsupported:
                pass
        return real(self)
    bf.DiscreteFactor.is_degenerate = is_degenerate


summarise_degenerate.on = True


def install_symbolic():
    sys.path.insert(0, core.REPO)
    import pandas, scipy.special, networkx  # noqa  (before numpy is patched)
    import pgmpy.models, pgmpy.readwrite  # noqa
    _stub_rel_entr(scipy.special)
    import matplotlib.pyplot  # noqa
    install_stubs()
    install_numpy()
    mods = import_bcause()
    inject(mods)
    summarise_degenerate()
    return mods
