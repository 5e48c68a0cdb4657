"""Harness contexts: the same harness runs symbolically (SymCtx) and on floats (ConcreteCtx)."""
import math
import zlib
from fractions import Fraction


class Fail(Exception):
    """The property does not hold on this run."""


class Skip(BaseException):
    """The drawn concrete inputs do not meet the precondition."""


def pr(name, seed):
    """Pseudo-random number in (0.05, 0.95) with three decimals, a function of name and seed."""
    h = zlib.crc32(f"{name}|{seed}".encode())
    h = (h * 2654435761 + 12345) & 0xFFFFFFFF
    return round(0.05 + 0.9 * ((h >> 8) % 10007) / 10007.0, 3)


def values_for_real(name, seed, pos, nonneg, lo, hi, values):
    v = values.get(name)
    if v is not None:
        return v
    r = pr(name, seed)
    if lo is not None and hi is not None:
        return lo + (hi - lo) * r
    if pos or nonneg:
        return round(2 * r, 3)
    return round(4 * r - 2, 3)


def values_for_dist(name, k, zeros, seed, values):
    """First len-1 free entries of the distribution, by name."""
    free = [i for i in range(k) if i not in zeros]
    out = {}
    raw = [pr(f"{name}[{i}]", seed) for i in free]
    s = sum(raw)
    for i, r in zip(free[:-1], raw[:-1]):
        out[f"{name}[{i}]"] = values.get(f"{name}[{i}]", round(r / s, 4))
    return free, out


def values_for_label(name, k, seed, values):
    vals = [values.get(f"{name}#{i}") for i in range(k - 1)]
    if any(v is not None for v in vals):
        w = [v or 0.0 for v in vals]
        w.append(1 - sum(w))
        return max(range(k), key=lambda i: w[i])
    return int(pr(name + "#", seed) * 9973) % k


def value_for_count(name, seed, values):
    v = values.get(name)
    if v is not None:
        return max(1, min(60, round(v)))
    return 1 + int(pr(name + "+", seed) * 9973) % 7


class ConcreteCtx:
    symbolic = False
    weighted = False       # are the rows of frames records with a symbolic multiplicity

    def __init__(self, values=None, seed=0, choices=None):
        self.values = values or {}
        self.seed = seed
        self.choices = dict(choices or {})
        self.records = []
        self.inputs = {}
        self.rtol, self.atol = 1e-7, 1e-9

    # inputs
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        v = float(values_for_real(name, self.seed, pos, nonneg, lo, hi, self.values))
        self.inputs[name] = v
        return v

    def dist(self, name, k, zeros=(), fixed=()):
        fixed = dict(fixed)
        free, vals = values_for_dist(name, k, tuple(zeros) + tuple(fixed), self.seed, self.values)
        self.inputs.update(vals)
        out = [fixed.get(i, 0.0) for i in range(k)]
        tot = sum(fixed.values())
        for i in free[:-1]:
            out[i] = float(vals[f"{name}[{i}]"])
            tot += out[i]
        out[free[-1]] = 1.0 - tot
        return out

    def label(self, name, domain):
        i = values_for_label(name, len(domain), self.seed, self.values)
        self.inputs[name] = repr(domain[i])
        return domain[i]

    def indicator(self, label, state):
        return 1.0 if label == state else 0.0

    def count(self, name):
        """A positive number of records."""
        v = value_for_count(name, self.seed, self.values)
        self.inputs[name] = v
        return v

    def frame(self, rows, columns, counts):
        from .wframe import plain
        return plain(rows, columns, counts)

    def choose(self, name, n):
        v = self.choices.get(name)
        if v is None:
            v = int(pr(name + "?", self.seed) * 9973) % n
            self.choices[name] = v
        return v

    def assume(self, c):
        if not bool(c):
            raise Skip("precondition")

    # obligations
    def _close(self, a, b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.atol + self.rtol * max(abs(a), abs(b))

    def eq(self, a, b, msg=""):
        self.records.append((msg, float(a)))
        if not self._close(a, b):
            raise Fail(f"{msg}: got {float(a)!r}, expected {float(b)!r}")

    def check(self, c, msg="", slack=None):
        if not bool(c):
            raise Fail(msg)

    def ge(self, a, b, msg=""):
        self.records.append((msg, float(a)))
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b) or a < b - (self.atol + self.rtol * max(abs(a), abs(b))):
            raise Fail(f"{msg}: {a!r} < {b!r}")

    def gt(self, a, b, msg=""):
        a, b = float(a), float(b)
        self.records.append((msg, a))
        if not a > b:
            raise Fail(f"{msg}: {a!r} <= {b!r}")

    def same(self, a, b, msg=""):
        if not (type(a) is type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float)))) or a != b:
            raise Fail(f"{msg}: got {a!r}, expected {b!r}")

    def raises(self, fn, msg="", exc=Exception):
        try:
            r = fn()
        except exc:
            return
        raise Fail(f"{msg}: no error, got {r!r}")

    def log(self, x):
        return math.log(x) if x > 0 else float("-inf")

    def iszero(self, x):
        return float(x) == 0.0

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def any_differs(self, pairs, msg=""):
        """Existential: some parametrisation makes some pair differ (symbolic mode decides)."""
        self.records.append((msg, float(pairs[0][0])))


def make_sym_ctx():
    from . import core
    from .core import z3, SymReal, SymBool, SymLog, SymLabel, to_sym, POS, NONNEG, UNK, tz, tmul, Unsupported

    class SymCtx:
        symbolic = True

        def __init__(self, eng, plain=None):
            self.e = eng
            self.plain = plain      # None, or the pattern of concrete record counts
            self.weighted = plain is None
            self.framed = False
            self.obl = []       # (msg, z3 condition that violates)
            self.exist = []     # (msg, z3 condition that must be satisfiable)
            self.lhs = []       # (msg, SymReal) for translator validation
            self.syntactic = 0
            self.choices = {}
            self.spec = []      # input specs: ("real", name, ...) for evaluation under given values

        def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
            v = z3.Real(name)
            self.e.vars[name] = v
            self.spec.append(("real", name, pos, nonneg, lo, hi))
            s = POS if pos else (NONNEG if nonneg else UNK)
            if pos:
                self.e.add(v > 0)
            if nonneg:
                self.e.add(v >= 0)
            if lo is not None:
                self.e.add(v >= tz(Fraction(lo)))
                if lo > 0:
                    s = POS
                elif lo == 0:
                    s = max(s, NONNEG)
            if hi is not None:
                self.e.add(v <= tz(Fraction(hi)))
            return SymReal(v, None, s)

        def dist(self, name, k, zeros=(), fixed=()):
            fixed = {i: Fraction(v) for i, v in dict(fixed).items()}
            zeros = tuple(zeros) + tuple(fixed)
            free = [i for i in range(k) if i not in zeros]
            self.spec.append(("dist", name, k, zeros))
            out = [SymReal(fixed.get(i, Fraction(0))) for i in range(k)]
            left = 1 - sum(fixed.values(), Fraction(0))
            if len(free) == 1:
                out[free[0]] = SymReal(left)
                return out
            rest = z3.RealVal(str(left))
            for i in free[:-1]:
                v = z3.Real(f"{name}[{i}]")
                self.e.vars[f"{name}[{i}]"] = v
                self.e.add(v > 0)
                out[i] = SymReal(v, None, POS)
                rest = rest - v
            self.e.add(rest > 0)
            out[free[-1]] = SymReal(rest, None, POS)
            return out

        def label(self, name, domain):
            k = len(domain)
            self.spec.append(("label", name, k))
            if k == 1:
                return SymLabel([SymReal(Fraction(1))], domain)
            inds, rest = [], z3.RealVal(1)
            for i in range(k - 1):
                v = z3.Real(f"{name}#{i}")
                self.e.vars[f"{name}#{i}"] = v
                if self.e.relax:
                    self.e.relaxed.add(f"{name}#{i}")
                    self.e.add(v > 0)
                    self.e.relax_cons.append(self.e.cons[-1])
                else:
                    self.e.add(z3.Or(v == 0, v == 1))
                rest = rest - v
                self.e.bits[v.get_id()] = v
                inds.append(SymReal(v, None, POS if self.e.relax else NONNEG))
            self.e.add(rest > 0 if self.e.relax else z3.Or(rest == 0, rest == 1))
            if self.e.relax:
                self.e.relax_cons.append(self.e.cons[-1])
            self.e.bits[rest.get_id()] = rest
            inds.append(SymReal(rest, None, POS if self.e.relax else NONNEG))
            return SymLabel(inds, domain)

        def count(self, name):
            if self.plain is not None:
                self.spec.append(("plain",))
                return value_for_count(name, self.plain, {})
            v = z3.Real(name)
            self.e.vars[name] = v
            self.e.counts.append(v)
            self.spec.append(("count", name))
            self.e.add(v > 0)
            return SymReal(v, None, POS)

        def frame(self, rows, columns, counts):
            from .wframe import make, plain
            self.framed = True
            if self.plain is not None:
                return plain(rows, columns, counts)
            return make(rows, columns, counts)

        def indicator(self, label, state):
            if not isinstance(label, SymLabel):
                return SymReal(Fraction(1 if label == state else 0))
            if label.fixed is not None:
                return SymReal(Fraction(1 if label.fixed == state else 0))
            return label.inds[label.domain.index(state)]

        def choose(self, name, n):
            v = self.e.choose(n)
            self.choices[name] = v
            return v

        def assume(self, c):
            if isinstance(c, SymBool):
                self.e.add(c.c)
            elif not bool(c):
                raise core.PathAbort("assume")

        # ---- obligations
        def _viol_eq(self, a, b):
            """z3 condition for a != b, or None when syntactically equal, or True."""
            if isinstance(a, SymLog) or isinstance(b, SymLog):
                x, y = _constlog(a), _constlog(b)
                if x is not None and y is not None:
                    # both concrete: floats computed outside the solver
                    return None if abs(x - y) <= 1e-9 + 1e-7 * max(abs(x), abs(y)) else True
                a = _aslog(a)
                b = _aslog(b)
                if a is None or b is None or a.k0 != b.k0:
                    return True
                a, b = a.arg, b.arg
            sa, sb = to_sym(a), to_sym(b)
            if sa is None or sb is None:
                na, nb = core._nonfinite(a), core._nonfinite(b)
                if sa is None and sb is None and na is not None and nb is not None:
                    return None if (na == nb or (na != na and nb != nb)) else True
                return True
            if sa.const is not None and sb.const is not None:
                if sa.const == sb.const:
                    return None
                # both concrete: they are floats computed outside the solver
                x, y = float(sa.const), float(sb.const)
                return None if abs(x - y) <= 1e-9 + 1e-7 * max(abs(x), abs(y)) else True
            r = sa == sb
            if r is True:
                return None
            if r is False:
                return True
            return z3.Not(r.c)

        def _push(self, msg, v):
            if v is None or v is False:
                self.syntactic += 1
                return
            if v is True:
                v = z3.BoolVal(True)
            s = z3.simplify(v)
            if z3.is_false(s):
                self.syntactic += 1
                return
            self.obl.append((msg, v))

        def eq(self, a, b, msg=""):
            self.lhs.append((msg, a))
            self._push(msg, self._viol_eq(a, b))

        def check(self, c, msg="", slack=None):
            if isinstance(c, SymBool):
                self._push(msg, z3.Not(c.c))
            else:
                self._push(msg, None if bool(c) else True)

        def ge(self, a, b, msg=""):
            self.lhs.append((msg, a))
            self._cmp(a, b, ">=", msg)

        def gt(self, a, b, msg=""):
            self.lhs.append((msg, a))
            self._cmp(a, b, ">", msg)

        def _cmp(self, a, b, op, msg):
            x, y = to_sym(a), to_sym(b)
            if x is None or y is None:
                r = (a >= b) if op == ">=" else (a > b)
            else:
                r = (x >= y) if op == ">=" else (x > y)
            self.check(r, msg)

        def same(self, a, b, msg=""):
            if not (type(a) is type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float)))) or a != b:
                raise Fail(f"{msg}: got {a!r}, expected {b!r}")

        def raises(self, fn, msg="", exc=Exception):
            try:
                r = fn()
            except Unsupported:
                raise
            except exc:
                return
            raise Fail(f"{msg}: no error")

        def log(self, x):
            from .shims import sym_log
            return sym_log(x)

        def iszero(self, x):
            return bool(to_sym(x) == 0)

        def max(self, xs):
            return core.sym_max(*xs)

        def min(self, xs):
            return core.sym_min(*xs)

        def any_differs(self, pairs, msg=""):
            vs = [self._viol_eq(a, b) for a, b in pairs]
            vs = [z3.BoolVal(True) if v is True else v for v in vs if v is not None]
            self.lhs.append((msg, pairs[0][0]))
            self.exist.append((msg, z3.Or(*vs) if vs else z3.BoolVal(False)))

    def _constlog(x):
        if isinstance(x, SymLog):
            if x.arg.const is None or x.arg.const <= 0:
                return None
            # the arguments can be products beyond the range of floats
            return math.log(x.arg.const.numerator) - math.log(x.arg.const.denominator) + float(x.k0)
        s = to_sym(x)
        return float(s.const) if s is not None and s.const is not None else None

    def _aslog(x):
        if isinstance(x, SymLog):
            return x
        s = to_sym(x)
        if s is not None and s.const == 0:
            return SymLog(SymReal(Fraction(1)))
        return None

    return SymCtx
