"""Reference for resampling and aggregation: exact averages of a piecewise function, written from its definition.

Each point is valid around it up to half of the sampling interval, or to half way to its neighbour if that is
nearer; between two validity regions not touching each other the values are interpolated.
"""
from mc.lib import *


def dominant(ts):
    """The most frequent spacing, or None if there is not a single one."""
    diffs = {}
    for a, b in zip(ts, ts[1:]):
        diffs[b - a] = diffs.get(b - a, 0) + 1
    top = max(diffs.values())
    best = [d for d in diffs if diffs[d] == top]
    return best[0] if len(best) == 1 else None


def regions(ts, si):
    out = []
    for i, t in enumerate(ts):
        lo, hi = t - si / 2, t + si / 2
        if i > 0 and ts[i - 1] + si / 2 > lo:
            lo = (ts[i - 1] + t) / 2
        if i < len(ts) - 1 and ts[i + 1] - si / 2 < hi:
            hi = (ts[i + 1] + t) / 2
        out.append((lo, hi))
    return out


def pieces(ts, si, a, b):
    """[(length, kind, index)] of the pieces of [a,b]: 'p' the region of point i, 'g' the gap between i and i+1; for gaps also the middle."""
    regs = regions(ts, si)
    out = []
    for i, (lo, hi) in enumerate(regs):
        x, y = max(lo, a), min(hi, b)
        if y > x:
            out.append((y - x, 'p', i, None))
        if i + 1 < len(regs):
            x, y = max(hi, a), min(regs[i + 1][0], b)
            if y > x:
                out.append((y - x, 'g', i, (x + y) / 2))
    return out


def interpolate(ts, values, i, t, how='linear'):
    if how == 'uniform':
        return (values[i] + values[i + 1]) / 2
    return values[i] + (values[i + 1] - values[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])


def average(ts, values, si, a, b, how='linear'):
    total = 0
    for length, kind, i, mid in pieces(ts, si, a, b):
        total += length * (values[i] if kind == 'p' else interpolate(ts, values, i, mid, how))
    return total / (b - a)


def loss(ts, si, a, b, losses=None):
    covered = lost = 0
    for length, kind, i, _ in pieces(ts, si, a, b):
        if kind == 'p':
            covered += length
            if losses is not None and losses[i]:
                lost += length * losses[i]
    return 1 - covered / (b - a) + lost / (b - a)


def index(ts, si, a, b, values):
    """Average of an index over the points having it, or None."""
    total = weight = 0
    for length, kind, i, _ in pieces(ts, si, a, b):
        if kind == 'p' and values[i] is not None:
            total += length * values[i]
            weight += length
    return total / weight if weight > 0 else None
