"""Symbolic execution core: real-valued terms, path exploration, obligations.

The code under test is /repo's own Python code, executed by CPython on values of
class SymReal / SymLabel.  Arithmetic on them builds z3 terms; every Python-level
branch on such a value (``bool(SymBool)``) is decided by the solver and, where both
outcomes are feasible, explored both ways by re-execution.
"""
import itertools
import math
import numbers
import sys
import time
from fractions import Fraction

_Z3_PATHS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


def _import_z3():
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    for p in _Z3_PATHS:
        sys.path.append(p)
    import z3
    return z3


z3 = _import_z3()
REPO = __import__("os").environ.get("SYMX_REPO", "/repo")     # overridden only when trying planted bugs on a scratch copy


class Unsupported(Exception):
    """The engine cannot follow the code symbolically here (C boundary etc.)."""


class PathAbort(BaseException):
    """The current path is infeasible or beyond the budget."""


class AssumeFailed(Exception):
    """Concrete mode: the inputs do not meet the precondition."""


ENG = None          # the active Engine (symbolic mode) or None


def engine():
    if ENG is None:
        raise Unsupported("symbolic value outside an engine run")
    return ENG


# --------------------------------------------------------------------------
# terms: either a Fraction or a z3 ArithRef
# --------------------------------------------------------------------------
def _isc(t):
    return isinstance(t, Fraction)


def tz(t):
    """Term as a z3 expression."""
    return z3.RealVal(f"{t.numerator}/{t.denominator}") if isinstance(t, Fraction) else t


def tadd(a, b):
    if _isc(a):
        if _isc(b):
            return a + b
        if a == 0:
            return b
        return tz(a) + b
    if _isc(b):
        if b == 0:
            return a
        return a + tz(b)
    return a + b


def tneg(a):
    return -a


def tsub(a, b):
    if _isc(a) and _isc(b):
        return a - b
    if _isc(b):
        return a if b == 0 else a - tz(b)
    if _isc(a):
        return -b if a == 0 else tz(a) - b
    if a.eq(b):
        return Fraction(0)
    return a - b


def tmul(a, b):
    if _isc(a):
        if _isc(b):
            return a * b
        a, b = b, a
    if _isc(b):
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
        if b == -1:
            return -a
        return tz(b) * a
    return a * b


def _den_mul(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return tmul(a, b)


POS, NONNEG, UNK = 2, 1, 0


def _sign_const(c):
    return POS if c > 0 else (NONNEG if c == 0 else UNK)


def to_sym(x):
    """Coerce a number to SymReal; None when it is not a (finite) number."""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return x.as_real()
    if isinstance(x, (bool, int)):
        return SymReal(Fraction(int(x)))
    if isinstance(x, Fraction):
        return SymReal(x)
    if isinstance(x, float):
        if math.isfinite(x):
            return SymReal(Fraction(x))
        return None
    if type(x).__module__ == "numpy" or hasattr(x, "__array_finalize__"):
        import numpy as np
        if isinstance(x, np.bool_):
            return SymReal(Fraction(int(x)))
        if isinstance(x, np.integer):
            return SymReal(Fraction(int(x)))
        if isinstance(x, np.floating):
            return to_sym(float(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return to_sym(x.item())
    return None


def _nonfinite(x):
    if isinstance(x, float) and not math.isfinite(x):
        return float(x)
    if type(x).__module__ == "numpy":
        import numpy as np
        if isinstance(x, np.floating) and not np.isfinite(x):
            return float(x)
    return None


class SymReal:
    """n/d over z3 reals, d known non-zero on the current path (None means 1)."""
    __slots__ = ("n", "d", "s")

    def __init__(self, n, d=None, s=None):
        if d is not None and _isc(d):
            n, d = tmul(n, Fraction(1) / d), None
        if _isc(n):
            if n == 0:
                d = None
            if d is None:
                s = _sign_const(n)
        self.n, self.d = n, d
        self.s = UNK if s is None else s

    # -- helpers
    @property
    def const(self):
        return self.n if (self.d is None and _isc(self.n)) else None

    def term(self):
        t = tz(self.n)
        return t if self.d is None else t / self.d

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, SymLog):
            return o.__radd__(self)
        b = to_sym(o)
        if b is None:
            nf = _nonfinite(o)
            return nf if nf is not None else NotImplemented
        engine().ops += 1
        if self.const == 0:
            return b
        if b.const == 0:
            return self
        s = UNK
        if self.s and b.s:
            s = max(self.s, b.s)
        if self.d is None and b.d is None:
            return SymReal(tadd(self.n, b.n), None, s)
        if self.d is not None and b.d is not None and self.d.eq(b.d):
            return SymReal(tadd(self.n, b.n), self.d, s)
        if self.d is None:
            return SymReal(tadd(tmul(self.n, b.d), b.n), b.d, s)
        if b.d is None:
            return SymReal(tadd(self.n, tmul(b.n, self.d)), self.d, s)
        return SymReal(tadd(tmul(self.n, b.d), tmul(b.n, self.d)), tmul(self.d, b.d), s)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return SymReal(tmul(Fraction(-1), self.n), self.d, UNK)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, SymLog):
            return NotImplemented
        b = to_sym(o)
        if b is None:
            nf = _nonfinite(o)
            return -nf if nf is not None else NotImplemented
        return self + (-b) if b.const != 0 else self

    def __rsub__(self, o):
        b = to_sym(o)
        if b is None:
            nf = _nonfinite(o)
            return nf if nf is not None else NotImplemented
        return b + (-self)

    def __mul__(self, o):
        if isinstance(o, SymLog):
            return o.__rmul__(self)
        b = to_sym(o)
        if b is None:
            nf = _nonfinite(o)
            if nf is None:
                return NotImplemented
            return self._times_nonfinite(nf)
        engine().ops += 1
        s = min(self.s, b.s) if (self.s and b.s) else UNK
        n1, d1, n2, d2 = self.n, self.d, b.n, b.d
        if d2 is not None and not _isc(n1) and n1.eq(d2):
            n1, d2 = Fraction(1), None
        if d1 is not None and not _isc(n2) and n2.eq(d1):
            n2, d1 = Fraction(1), None
        return SymReal(tmul(n1, n2), _den_mul(d1, d2), s)

    def __rmul__(self, o):
        return self.__mul__(o)

    def _times_nonfinite(self, nf):
        if math.isnan(nf):
            return nf
        if bool(self == 0):
            return float("nan")
        return nf if bool(self > 0) else -nf

    def __truediv__(self, o):
        b = to_sym(o)
        if b is None:
            nf = _nonfinite(o)
            if nf is None:
                return NotImplemented
            return nf if math.isnan(nf) else SymReal(Fraction(0))
        engine().ops += 1
        if b.s != POS:
            if b.const is not None:
                zero = b.const == 0
            else:
                zero = engine().branch(tz(b.n) == 0, "zero divisor")
            if zero:
                # numpy semantics (the values are numpy floats in real runs)
                if bool(self == 0):
                    return float("nan")
                return float("inf") if bool(self > 0) else float("-inf")
        if b.const is not None:
            c = b.const
            return SymReal(tmul(self.n, 1 / c), self.d, self.s if c > 0 else UNK)
        if self.const == 0:
            return SymReal(Fraction(0))
        s = UNK
        if b.s == POS and self.s:
            s = self.s
        n1, d1, n2, d2 = self.n, self.d, b.n, b.d
        if d1 is not None and d2 is not None and d1.eq(d2):
            d1 = d2 = None
        n = tmul(n1, d2) if d2 is not None else n1
        if _isc(n2):
            return SymReal(tmul(n, 1 / n2), d1, s)
        if not _isc(n) and d1 is None and n.eq(n2):
            return SymReal(Fraction(1))
        return SymReal(n, _den_mul(d1, n2), s)

    def __rtruediv__(self, o):
        b = to_sym(o)
        if b is None:
            nf = _nonfinite(o)
            if nf is None:
                return NotImplemented
            return self._times_nonfinite(nf)
        return b / self

    def __pow__(self, k):
        if isinstance(k, SymReal) and k.const is not None:
            k = k.const
        if isinstance(k, float) and k.is_integer():
            k = int(k)
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(k, numbers.Integral):
            k = int(k)
            r = SymReal(Fraction(1))
            for _ in range(abs(k)):
                r = r * self
            return r if k >= 0 else SymReal(Fraction(1)) / r
        raise Unsupported(f"power {k!r}")

    def __abs__(self):
        if self.s:
            return self
        return self if bool(self >= 0) else -self

    def __round__(self, nd=0):
        nd = nd or 0
        if self.const is not None:
            return SymReal(Fraction(round(self.const, nd)))
        sc = Fraction(10) ** nd
        t = (self * sc).term()
        fl = z3.ToReal(z3.ToInt(t + z3.RealVal("1/2")))
        return SymReal(fl) / sc

    def rint(self):
        return self.__round__(0)

    def floor(self):
        if self.const is not None:
            return SymReal(Fraction(math.floor(self.const)))
        return SymReal(z3.ToReal(z3.ToInt(self.term())))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    # the numpy-scalar interface (values are np.float64 in real runs)
    def item(self, *a):
        return self

    def copy(self):
        return self

    ndim, shape, size = 0, (), 1

    def tolist(self):
        return self

    def sum(self, *a, **k):
        return self

    prod = max = min = mean = squeeze = sum

    def astype(self, *a, **k):
        return self

    def _arr(self):
        import numpy as np
        r = np.empty(1, dtype=object)
        r[0] = self
        from .shims import SymArray
        return r.view(SymArray)

    def ravel(self, *a, **k):
        return self._arr()

    flatten = ravel

    def reshape(self, *shape, **k):
        return self._arr().reshape(*shape)

    def is_integer(self):
        raise Unsupported("is_integer of a symbolic value")

    def log(self):
        return SymLog(self)

    def exp(self):
        raise Unsupported("exp of a symbolic value")

    def sqrt(self):
        raise Unsupported("sqrt of a symbolic value")

    def isnan(self):
        return False

    # -- comparisons
    def _cmp(self, o, op):
        b = to_sym(o)
        if b is None:
            nf = _nonfinite(o)
            if nf is None:
                if op == "eq":
                    return False
                if op == "ne":
                    return True
                return NotImplemented
            if math.isnan(nf):
                return op == "ne"
            return {"eq": False, "ne": True, "lt": nf > 0, "le": nf > 0, "gt": nf < 0, "ge": nf < 0}[op]
        a = self
        if a.const is not None and b.const is not None:
            x, y = a.const, b.const
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
        if b.const == 0 and a.s == POS:
            return {"eq": False, "ne": True, "lt": False, "le": False, "gt": True, "ge": True}[op]
        if b.const == 0 and a.s == NONNEG and op in ("lt", "ge"):
            return op == "ge"
        if a is b:
            return op in ("eq", "le", "ge")
        same = a.d is not None and b.d is not None and a.d.eq(b.d)
        if op in ("eq", "ne"):
            if same:
                l, r = a.n, b.n
            else:
                l = a.n if b.d is None else tmul(a.n, b.d)
                r = b.n if a.d is None else tmul(b.n, a.d)
            e = tz(l) == tz(r)
            return SymBool(e if op == "eq" else z3.Not(e))
        l, r = a.n, b.n
        if same:
            sq = a.d
            l, r = tmul(l, sq), tmul(r, sq)     # times d (=> sign of d): n*d vs m*d
        else:
            if a.d is not None:
                l = tmul(l, a.d)
                r = tmul(r, tmul(a.d, a.d))
            if b.d is not None:
                r = tmul(r, b.d)
                l = tmul(l, tmul(b.d, b.d))
        l, r = tz(l), tz(r)
        return SymBool({"lt": l < r, "le": l <= r, "gt": l > r, "ge": l >= r}[op])

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __hash__(self):
        if self.const is not None:
            return hash(self.const)
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        if self.const is not None:
            return float(self.const)
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __int__(self):
        if self.const is not None:
            return int(self.const)
        raise Unsupported("int() of a symbolic value at a C boundary")

    def __index__(self):
        if self.const is not None and self.const.denominator == 1:
            return int(self.const)
        raise Unsupported("index by a symbolic value")

    def __str__(self):
        return engine().token(self) if ENG is not None else "<sym>"

    def __repr__(self):
        return self.__str__()

    def __format__(self, spec):
        if spec:
            import re
            m = re.fullmatch(r"\.(\d+)([feg]?)", spec)
            if m is None:
                raise Unsupported(f"formatting of a symbolic value with {spec!r}")
            # fixed number of decimals (significant digits: the same for values in [0.1, 1); replayed anyway)
            return round(self, int(m.group(1)) + (m.group(2) == "e")).__str__()
        return self.__str__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling of a symbolic value")


numbers.Real.register(SymReal)


class SymBool:
    """A condition; ``ind`` is a 0/1-valued real term for it, when there is one."""
    __slots__ = ("c", "ind")

    def __init__(self, c, ind=None):
        self.c, self.ind = c, ind

    def __bool__(self):
        return engine().branch(self.c)

    def as_real(self):
        if self.ind is not None:
            return self.ind
        return SymReal(z3.If(self.c, z3.RealVal(1), z3.RealVal(0)), None, NONNEG)

    def __invert__(self):
        return SymBool(z3.Not(self.c), None if self.ind is None else 1 - self.ind)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.c
        if isinstance(o, bool) or type(o).__name__ == "bool_":
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SymBool(z3.And(self.c, c))

    __rand__ = __and__

    def __or__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SymBool(z3.Or(self.c, c))

    __ror__ = __or__

    def __eq__(self, o):
        c = self._o(o)
        if c is None:
            b = to_sym(o)
            return False if b is None else (self.as_real() == b)
        return SymBool(self.c == c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return self.as_real() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_real() * o

    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - self.as_real()

    def __sub__(self, o):
        return self.as_real() - o

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))


class SymLog:
    """k*log(arg) sums, kept in exponential form: value = log(arg) + const."""
    __slots__ = ("arg", "k0")

    def __init__(self, arg, k0=Fraction(0)):
        self.arg, self.k0 = arg, k0

    def __add__(self, o):
        if isinstance(o, SymLog):
            return SymLog(self.arg * o.arg, self.k0 + o.k0)
        nf = _nonfinite(o)
        if nf is not None:
            return nf
        b = to_sym(o)
        if b is not None and b.const is not None:
            return SymLog(self.arg, self.k0 + b.const)
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return SymLog(SymReal(Fraction(1)) / self.arg, -self.k0)

    def __sub__(self, o):
        if isinstance(o, SymLog):
            return SymLog(self.arg / o.arg, self.k0 - o.k0)
        b = to_sym(o)
        if b is not None and b.const is not None:
            return SymLog(self.arg, self.k0 - b.const)
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        b = to_sym(o)
        if b is not None and b.const is not None and b.const.denominator == 1:
            return SymLog(self.arg ** int(b.const), self.k0 * b.const)
        raise Unsupported("log times a non-integer")

    __rmul__ = __mul__

    def __float__(self):
        raise Unsupported("float() of a symbolic logarithm")

    def _cmp(self, o, op):
        if isinstance(o, SymLog) and o.k0 == self.k0:
            return getattr(self.arg, op)(o.arg)
        b = to_sym(o)
        if b is not None and b.const == self.k0:
            return getattr(self.arg, op)(1)
        nf = _nonfinite(o)
        if nf is not None:
            return SymReal(Fraction(0))._cmp(nf, op.strip("_"))
        raise Unsupported("comparison of logarithms")

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __repr__(self):
        return "<symlog>"


class SymLabel:
    """A state of a finite domain chosen by the solver: one-hot 0/1 real indicators."""
    __slots__ = ("inds", "domain", "fixed")

    def __init__(self, inds, domain):
        self.inds, self.domain, self.fixed = inds, list(domain), None

    def copy(self):
        return self

    item = tolist = copy
    ndim, shape, size = 0, (), 1

    def concretize(self):
        if self.fixed is None:
            for i, lab in enumerate(self.domain):
                if i == len(self.domain) - 1 or bool(self.inds[i] == 1):
                    self.fixed = lab
                    break
        return self.fixed

    def __eq__(self, o):
        if isinstance(o, SymLabel):
            return self.concretize() == o.concretize()
        if self.fixed is not None:
            return self.fixed == o
        for lab, ind in zip(self.domain, self.inds):
            if type(o) is type(lab) or isinstance(o, (numbers.Number,)) or type(o).__module__ == "numpy":
                if bool(lab == o):
                    if ind.const is not None:
                        return ind.const == 1
                    return SymBool((ind == 1).c, ind)
            elif lab == o:
                if ind.const is not None:
                    return ind.const == 1
                return SymBool((ind == 1).c, ind)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(self.concretize())

    def __str__(self):
        if self.fixed is None and ENG is not None and all(isinstance(x, int) for x in self.domain):
            return ENG.token(self)
        return str(self.concretize())

    def __repr__(self):
        return f"<label {self.domain}>"

    def __float__(self):
        return float(self.concretize())

    def __int__(self):
        return int(self.concretize())

    def __index__(self):
        return self.concretize().__index__()

    def __lt__(self, o):
        o = o.concretize() if isinstance(o, SymLabel) else o
        return self.concretize() < o

    def __deepcopy__(self, memo):
        return self


def sym_max(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = _sel(x, r)
    return r


def sym_min(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = _sel(r, x, first_if_less=True)
    return r


def _sel(a, b, first_if_less=False):
    """max(a,b), or min(a,b) when first_if_less, without forking where possible."""
    sa, sb = to_sym(a), to_sym(b)
    if sa is None or sb is None:
        c = (a <= b) if first_if_less else (a >= b)
        return a if bool(c) else b
    c = (sa <= sb) if first_if_less else (sa >= sb)
    if not isinstance(c, SymBool):
        return a if c else b
    # normal form: the extremum of a set of terms, so that nesting and order do not matter
    reg = engine().extrema
    one = z3.RealVal(1)
    ident = lambda x: (first_if_less, tz(x.n).get_id(), None if x.d is None else x.d.get_id())
    ms = {}
    for x in (sa, sb):
        known = reg.get(ident(x))
        for u in (known[1] if known else [x]):
            ms[ident(u)] = u
    xs = [ms[k] for k in sorted(ms, key=repr)]
    r = xs[0]
    for x in xs[1:]:
        c = (x <= r) if first_if_less else (x >= r)
        if not isinstance(c, SymBool):
            r = x if c else r
            continue
        d = None if (x.d is None and r.d is None) else z3.If(c.c, one if x.d is None else x.d, one if r.d is None else r.d)
        r = SymReal(z3.If(c.c, tz(x.n), tz(r.n)), d, min(x.s, r.s))
    reg[ident(r)] = (r, xs)
    return r


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------
class RelaxationBroken(BaseException):
    """A branch depends on a structural-equation indicator: redo with exact 0/1 values."""


class Stats(dict):
    def inc(self, k, v=1):
        self[k] = self.get(k, 0) + v


class Engine:
    def __init__(self, timeout_ms=8000):
        self.timeout = timeout_ms
        self.extrema = {}
        self.stats = Stats()
        self.ops = 0
        self.relax = True
        self.reset([])

    # -- path handling
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []
        self.cons = []          # assumptions + path condition, z3 Bools
        self.alts = []          # unexplored alternatives found on this path
        self.tokens = {}
        self.vars = {}          # name -> z3 var
        self.decided = {}
        self.bits = {}          # id of an indicator term -> term
        self.relax_cons = []    # range constraints of relaxed indicators
        self.counts = []        # record multiplicities
        self.relaxed = set()    # names of relaxed indicator variables
        self.intvars = False

    def token(self, v):
        """A decimal literal standing for symbolic value v in printed text."""
        if isinstance(v, SymReal) and v.const is not None:
            return repr(float(v.const))
        for t, o in self.tokens.items():
            if o is v:
                return t
        if isinstance(v, SymLabel):
            t = f"7310{len(self.tokens) + 1:05d}"
        else:
            t = f"0.7310{len(self.tokens) + 1:05d}"
        self.tokens[t] = v
        return t

    def is_bit(self, x):
        if not isinstance(x, SymReal):
            x = to_sym(x)
            if x is None:
                return False
        if x.const is not None:
            return x.const in (0, 1)
        return x.d is None and x.n.get_id() in self.bits

    def add(self, c):
        if c is True or c is False:
            c = z3.BoolVal(c)
        self.cons.append(c)

    def solver(self, mixed=False, timeout=None):
        s = z3.Solver() if (mixed or self.intvars) else z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout or self.timeout))
        return s

    def check(self, extra=(), timeout=None, model=False, cons=None):
        s = self.solver(timeout=timeout)
        for c in (self.cons if cons is None else cons):
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        r = s.check()
        self.stats.inc("queries")
        self.stats.inc("solver_s", time.time() - t)
        self.stats.inc("res_" + str(r))
        if model:
            return str(r), (s.model() if r == z3.sat else None)
        return str(r)

    def _mentions_relaxed(self, cond):
        if not self.relaxed:
            return False
        seen, todo = set(), [cond]
        while todo:
            e = todo.pop()
            k = e.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in self.relaxed:
                return True
            todo.extend(e.children())
        return False

    def branch(self, cond, why=None):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.decided:
            return self.decided[key][1]
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.stats.inc("branch_queries")
            t = self.check([cond])
            f = "sat" if t == "unsat" else self.check([z3.Not(cond)])
            if t == "unsat" and f == "unsat":
                raise PathAbort("infeasible")
            if t == "unknown" or f == "unknown":
                self.stats.inc("branch_unknown")
            if t == "unsat":
                v = False
            elif f == "unsat":
                v = True
            else:
                if self.relax and self._mentions_relaxed(cond):
                    raise RelaxationBroken(str(cond)[:200])
                # both feasible: divisors are non-zero first, otherwise True first
                v = (why != "zero divisor")
                self.alts.append(self.decisions + [not v])
        self.stats.inc("branches")
        self.decisions.append(v)
        c = cond if v else z3.Not(cond)
        self.cons.append(c)
        self.decided[key] = (cond, v)   # keeps cond alive: ids would be reused otherwise
        return v

    def choose(self, n):
        """Nondeterministic choice among range(n), explored exhaustively."""
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(1, n):
                self.alts.append(self.decisions + [k])
        self.stats.inc("choices")
        self.decisions.append(v)
        return v
