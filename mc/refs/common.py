"""Frozen published coefficients and small helpers of the reference models.

All reference models are vectorised over states (first axis) and periods (second
axis), use only the frozen copies of the published tables, and share no code with
the library.
"""

import os

import numpy as np

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")


class Table:
    """Columns of a published coefficient table as (1, n) arrays."""

    def __init__(self, name, skip, rows=None):
        with open(os.path.join(DATA, name)) as fp:
            lines = [ln.strip() for ln in fp]
        head = lines[skip].lstrip("#").strip().split(",")
        vals = [
            [self._num(f) for f in ln.split(",")]
            for ln in lines[skip + 1 :]
            if ln and not ln.startswith("#")
        ]
        cols = np.array(vals, float).T
        self.names = [h.strip() for h in head]
        for n, col in zip(self.names, cols):
            setattr(self, n, col[None, :] if rows is None else col[None, rows])

    @staticmethod
    def _num(f):
        f = f.strip()
        return float(f) if f else np.nan


def clip01(x):
    return np.minimum(np.maximum(x, 0.0), 1.0)


def is_(a, *options):
    """Boolean array of a categorical coordinate."""
    out = np.zeros(a.shape, bool)
    for o in options:
        out |= a == o
    return out


def default(a, value):
    """Substitute the omitted members of a coordinate."""
    if a.dtype == object:
        return np.where(a == "", value, a)
    return np.where(np.isnan(a), value, a)


def interp_cols(x, xp, cols):
    """Linear interpolation over xp of period dependent values, clamped."""
    x = np.clip(x, xp[0], xp[-1])
    out = None
    for i in range(len(xp) - 1):
        w = (x - xp[i]) / (xp[i + 1] - xp[i])
        seg = cols[i] + w * (cols[i + 1] - cols[i])
        out = seg if out is None else np.where(x >= xp[i], seg, out)
    return out
