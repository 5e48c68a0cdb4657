"""Data frames whose rows stand for a symbolic number of identical records.

A WFrame is a real pandas DataFrame holding each distinct record once, under a unique index
label, plus a multiplicity (a positive symbolic number) per label.  Selection, comparison and
column access run in real pandas; the operations that count rows use the multiplicities.
Operations that would count the stored rows instead are refused (Unsupported), never answered.
"""
import sys

import numpy as np
import pandas as pd

from . import core
from .core import SymReal, SymBool, Unsupported, to_sym


def _called_by_bcause(depth=2):
    g = sys._getframe(depth).f_globals.get("__name__", "")
    return g == "bcause" or g.startswith("bcause.")


def _tot(xs):
    r = to_sym(0)
    for x in xs:
        r = r + x
    return r


class _Base:
    _metadata = ["_w"]
    _w = None

    def _weights(self):
        if self._w is None:
            raise Unsupported("record multiplicities lost")
        if not self.index.is_unique:
            raise Unsupported("repeated index labels in a weighted frame")
        return [self._w[i] for i in self.index]

    @property
    def _isw(self):
        return self._w is not None

    def _symx_len(self):
        return _tot(self._weights()) if self._isw else len(self.index)


def _keyed(frame, weights, dropna):
    out = {}
    for t, w in zip(frame.itertuples(index=False, name=None), weights):
        isna = [pd.isna(x) for x in t]
        if any(isna) and dropna:
            continue
        k = tuple(np.nan if n else x for x, n in zip(t, isna))
        out[k] = out[k] + w if k in out else w
    return out


class WCounts:
    """Result of value_counts: a mapping state tuple -> multiplicity (object Series)."""


def _counts_series(d, names, scalar):
    vals = np.empty(len(d), dtype=object)
    for i, v in enumerate(d.values()):
        vals[i] = v
    if scalar:
        idx = pd.Index([k[0] for k in d], name=names[0])
    elif len(d):
        idx = pd.MultiIndex.from_tuples(list(d), names=names)
    else:
        idx = pd.MultiIndex.from_arrays([[] for _ in names], names=names)
    return pd.Series(vals, index=idx, dtype=object)


class WSeries(_Base, pd.Series):
    @property
    def _constructor(self):
        return WSeries

    @property
    def _constructor_expanddim(self):
        return WFrame

    def _bools(self):
        vals = list(self.to_numpy())
        if not all(isinstance(x, (bool, np.bool_, int, np.integer)) for x in vals):
            raise Unsupported("sum of a weighted column")
        return vals

    def _symx_sum(self):
        if not self._isw:
            return sum(list(self.to_numpy()))
        return _tot([w * int(b) for w, b in zip(self._weights(), self._bools())])

    def sum(self, *a, **k):
        if self._isw and _called_by_bcause():
            return self._symx_sum()
        return super().sum(*a, **k)

    def value_counts(self, normalize=False, sort=True, ascending=False, bins=None, dropna=True):
        if not self._isw:
            return super().value_counts(normalize, sort, ascending, bins, dropna)
        d = _keyed(self.to_frame(), self._weights(), dropna)
        if normalize:
            n = _tot(d.values())
            d = {k: v / n for k, v in d.items()}
        return _counts_series(d, [self.name], True)

    def mean(self, *a, **k):
        if self._isw and _called_by_bcause():
            return self._symx_sum() / self._symx_len()
        return super().mean(*a, **k)


class WFrame(_Base, pd.DataFrame):
    @property
    def _constructor(self):
        return WFrame

    @property
    def _constructor_sliced(self):
        return WSeries

    def value_counts(self, subset=None, normalize=False, sort=True, ascending=False, dropna=True):
        if not self._isw:
            return super().value_counts(subset, normalize, sort, ascending, dropna)
        f = self if subset is None else self[list(subset)]
        d = _keyed(f, self._weights(), dropna)
        if normalize:
            n = _tot(d.values())
            d = {k: v / n for k, v in d.items()}
        return _counts_series(d, list(f.columns), False)

    def drop_duplicates(self, *a, **k):
        r = super().drop_duplicates(*a, **k)
        if self._isw:
            r = pd.DataFrame(r)
        return r

    def groupby(self, by=None, *a, **k):
        if self._isw and _called_by_bcause():
            return _WGroup(self, by, k.get("dropna", True))
        return super().groupby(by, *a, **k)

    @property
    def shape(self):
        s = super().shape
        if self._isw and _called_by_bcause():
            return (self._symx_len(), s[1])
        return s

    def iterrows(self):
        if self._isw and _called_by_bcause():
            raise Unsupported("iteration over weighted records")
        return super().iterrows()

    def sum(self, *a, **k):
        if self._isw and _called_by_bcause():
            raise Unsupported("sum over a weighted frame")
        return super().sum(*a, **k)

    def count(self, *a, **k):
        if self._isw and _called_by_bcause():
            raise Unsupported("count over a weighted frame")
        return super().count(*a, **k)


def _refuse(cls, names):
    """Operations that list the stored rows one by one: refused on weighted records."""
    for n in names:
        orig = getattr(cls, n)

        def method(self, *a, _orig=orig, _n=n, **k):
            if self._isw and _called_by_bcause():
                raise Unsupported("weighted records: " + _n)
            return _orig(self, *a, **k)
        setattr(cls, n, method)


_refuse(WFrame, ["itertuples", "to_numpy", "to_records", "agg", "aggregate", "apply", "pivot_table", "query", "transform", "melt", "mean"])
_refuse(WSeries, ["to_numpy", "tolist", "to_list", "agg", "aggregate", "apply", "count", "map", "items", "__iter__"])


class _WGroup:
    def __init__(self, f, by, dropna):
        self.f, self.dropna = f, dropna
        self.scalar = isinstance(by, str)
        self.by = [by] if self.scalar else list(by)

    def size(self):
        return _counts_series(_keyed(self.f[self.by], self.f._weights(), self.dropna), self.by, self.scalar)

    def __getattr__(self, n):
        raise Unsupported("groupby." + n + " on weighted records")


def make(rows, columns, weights):
    f = WFrame(rows, columns=columns, index=[f"r{i}" for i in range(len(rows))])
    f._w = {f"r{i}": w for i, w in enumerate(weights)}
    return f


def plain(rows, columns, counts):
    """The corresponding real frame: record i repeated counts[i] times, interleaved."""
    out = []
    left = list(counts)
    while any(left):
        for i, r in enumerate(rows):
            if left[i]:
                out.append(r)
                left[i] -= 1
    # labels that are not positions, as frames have after a selection or a shuffle
    return pd.DataFrame(out, columns=columns, index=range(len(out) + 2, 2, -1))
