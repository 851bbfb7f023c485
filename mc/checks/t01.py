"""T01: resampling gives the time-weighted averages on the right grid."""
import itertools
import math
from mc.lib import *
from mc import windows as W
from timeseria.transformations import Resampler
from timeseria.interpolators import LinearInterpolator, UniformInterpolator

PROPERTY = 'T01'
LEVEL = 'model_checking'
RULE = ('every sequence of spacings between consecutive points over a small set (regular sampling with any pattern of missing points, and irregular sampling), for each phase of the first point with respect to the grid, target interval '
        '(down to and below the sampling interval, and well above), time zone, kind of data and value assignment, also with explicit start, end and validity: the points of the result, their instants and their values are compared '
        'with the exact averages of the piecewise function defined by the source. A non-trivial outcome is a distinct resampled series')
ASSUMPTIONS = ['without an explicit validity, series without a single dominant spacing are explored only with an explicit one', 'values compared with a relative tolerance of 1e-9',
               'explicit start and end are within the series', 'intervals dividing the hour, or any interval on UTC']
BOUNDS = {'quick': 'up to 6 points (4 on time scales other than the minute), 4 spacings of which the first ones only for the longest, 3 time scales down to 1/16th of second, 3 phases, 5 target intervals, 3 value patterns', 'thorough': 'up to 7 points (4 on time scales other than the minute), 5 spacings of which the first ones only for the longest, 7 time scales down to 1/16th of second, 4 phases, 7 target intervals, 5 value patterns'}
CHUNK = 2
TIMEOUT = 300

# Sampling intervals, also with fractions of a second (with instants and units which are a multiple of 1/64th of second, so exact both as floating point numbers and as microseconds)
SCALES = {'quick': [0.0625, 3600], 'thorough': [0.0625, 0.25, 1, 900, 3600, 7200]}
# In sampling intervals
GAPS = {'quick': [1, 2, 3.5, 0.5], 'thorough': [1, 2, 5, 3.5, 0.5]}
PHASES = {'quick': [0, 0.5, 0.25], 'thorough': [0, 0.5, 0.25, 0.9]}
UNITS = {'quick': [60, 120, 180, 600, 30], 'thorough': [60, 120, 180, 600, 30, 90, 20]}
VALUES = [[1, 2, 4, 8, 16, 32, 64, 128], [5, 5, 5, 5, 5, 5, 5, 5], [0, -3, 7, 0.5, -1, 2, 100, -100], [0, 0, 0, 1, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0, 0, 0]]
TZS = [None, 'Europe/Rome', 'America/New_York', 'UTC']


def sequences(tier):
    g = GAPS[tier]
    if tier == 'quick':
        for n in range(1, 5):
            yield from itertools.product(g, repeat=n)
        yield from itertools.product(g[:3], repeat=5)
    else:
        for n in range(1, 5):
            yield from itertools.product(g, repeat=n)
        yield from itertools.product(g[:4], repeat=5)
        yield from itertools.product(g[:3], repeat=6)


def cases(tier):
    for n, gaps in enumerate(sequences(tier)):
        yield dict(gaps=list(gaps), tier=tier, n=n)
    # Other time scales
    for si in SCALES[tier]:
        for n, gaps in enumerate(itertools.product(GAPS[tier], repeat=k) for k in (2, 3)):
            for m, g in enumerate(gaps):
                yield dict(gaps=list(g), tier=tier, n=n + m, si=si)
    yield dict(direct=True)


def run(ctx, case):
    if case.get('direct'):
        return direct(ctx)
    tier = case['tier']
    SI = case.get('si', 60)
    for p, phase in enumerate(PHASES[tier]):
        if phase * SI % 0.015625:
            continue
        # Around the epoch, where negative and zero instants are, or far from it
        base = -2 * SI if (case['n'] + p) % 3 == 0 else 1500000000 if SI < 3600 else 1499998 * 1000 // 3600 * 3600
        ts = [base + phase * SI]
        for g in case['gaps']:
            ts.append(ts[-1] + g * SI)
        ts = [int(t) if t == int(t) else t for t in ts]
        tz = TZS[(case['n'] + p) % len(TZS)]
        for validity in (None, SI):
            if validity is None and W.dominant(ts) is None:
                continue
            for unit in UNITS[tier]:
                unit = unit * SI / 60
                if unit % 0.03125:
                    continue
                unit = int(unit) if unit == int(unit) else unit
                for v in ((0, 1, 2) if tier == 'quick' else range(5)):
                    explore(ctx, ts, tz, unit, validity, v, (case['n'] + p + v) % 3)
    ctx.sample(case)


def grid(first, last, unit):
    """The centres of the intervals covered by the data."""
    out = []
    m = math.ceil((first + unit / 2) / unit)
    while m * unit + unit / 2 <= last:
        out.append(m * unit)
        m += 1
    return out


def differs(res, centres, expected, labels, tz):
    got = [i.t for i in res]
    if len(got) != len(centres) or not all(close(a, b) for a, b in zip(got, centres)):
        return 'points at {} instead of {}'.format(got, centres)
    for k, i in enumerate(res):
        if not isinstance(i, DataTimePoint) or set(i.data if isinstance(i.data, dict) else map(str, range(len(i.data)))) != set(labels):
            return 'item {}'.format(i)
        if str(i.tz) != str(tz or 'UTC'):
            return 'time zone {}'.format(i.tz)
        for l in labels:
            if not close(i.data[l] if isinstance(i.data, dict) else i.data[int(l)], expected[l][k]):
                return 'value {} for {} at {} instead of {}'.format(i.data, l, i.t, expected[l][k])
    return None


def explore(ctx, ts, tz, unit, validity, v, kind):
    n = len(ts)
    labels = [('a',), ('b', 'a'), ('0', '1')][kind]
    vals = {l: [(x if k == 0 else 3 - 2 * x) for x in VALUES[v][:n]] for k, l in enumerate(labels)}
    make = lambda: points(ts, list(zip(*[vals[l] for l in labels])), labels=labels, tz=tz, kind='list' if kind == 2 else 'dict')
    si = validity or W.dominant(ts)
    kw = {} if validity is None else dict(validity=validity)
    how = 'uniform' if v == 2 and n % 2 else 'linear'
    resampler = Resampler('{}s'.format(unit), interpolator_class=UniformInterpolator) if how == 'uniform' else Resampler('{}s'.format(unit))
    ctx.state((tuple(ts), tz, unit, validity, v, kind))
    centres = grid(ts[0], ts[-1], unit)
    expected = {l: [W.average(ts, vals[l], si, c - unit / 2, c + unit / 2, how) for c in centres] for l in labels}
    s = make()
    got = outcome_of(resampler.process, s, **kw)
    ctx.step()
    where = lambda: 'resampling at {}s (validity {}, {} interpolation) points at {} with {} '.format(unit, validity, how, ts, vals)
    if not ctx.check(got[0] == 'ok', 'resample', lambda: where() + 'failed: {}'.format(got)):
        return
    bad = differs(got[1], centres, expected, labels, tz)
    ctx.check(bad is None, 'resample', lambda: where() + 'gave {}'.format(bad))
    ctx.outcome(snap(got[1]))
    ctx.ok()
    if len(centres) > 1 and v == 0:
        # The result has the resolution it has been resampled to, and its values are within those of the source
        ctx.check(close(getattr(got[1].resolution, 'value', None) or seconds(got[1].resolution), unit), 'resolution', lambda: where() + 'gave a resolution of {}'.format(got[1].resolution))
    if how == 'linear' and v == 0:
        # The same with the method, as a time unit, and on a view
        for other in (make().resample(unit), make().resample(TimeUnit('{}s'.format(unit)))) if validity is None else ():
            ctx.step()
            ctx.check(snap(other) == snap(got[1]), 'method', lambda: where() + 'with the method gave {} instead of {}'.format(snap(other), snap(got[1])))
    if v == 0:
        # Explicit start and end: intervals from start to start plus the unit
        first = math.ceil(ts[0] / unit) * unit
        last = math.floor(ts[-1] / unit) * unit
        for start, end in ((first, None), (first + unit, None), (None, last), (first, last), (first, last - unit), (first + unit, last - unit)):
            if any(x is not None and not ts[0] <= x <= ts[-1] for x in (start, end)) or (start is not None and end is not None and start >= end):
                continue
            exp = [c for c in centres if end is None or c + unit / 2 <= end] if start is None else []
            if start is not None:
                c = start + unit / 2
                while c + unit / 2 <= ts[-1] and (end is None or c + unit / 2 <= end):
                    exp.append(c)
                    c += unit
            straddling = [c for c in centres if start is None and end is not None and c - unit / 2 < end < c + unit / 2]
            values = {l: [W.average(ts, vals[l], si, c - unit / 2, c + unit / 2, how) for c in exp + straddling] for l in labels}
            for form in ((float,) if unit % 60 else (dated,)) if n > 3 else (float, dated):
                given = {k: form(x) for k, x in (('start', start), ('end', end)) if x is not None}
                res = outcome_of(resampler.process, make(), **given, **kw)
                ctx.step()
                # An end in the middle of an interval may or may not include it
                bad = str(res) if res[0] == 'err' else differs(res[1], exp + straddling if len(res[1]) > len(exp) else exp, values, labels, tz)
                ctx.check(bad is None, 'start-end', lambda: where() + 'with start {} and end {} gave {}'.format(start, end, bad))
                ctx.ok()


def seconds(resolution):
    return resolution.as_seconds() if isinstance(resolution, TimeUnit) else resolution


def dated(t):
    return datetime.fromtimestamp(t, UTC)


def direct(ctx):
    """The interpolators on their own, with and without being told between which items."""
    for ts in ([0, 10, 40, 50], [-5, 5, 7, 100]):
        for labels, kind in ((('a',), 'dict'), (('b', 'a'), 'dict'), (('0', '1'), 'list')):
            vals = [(1, -2), (4, 0), (0, 3), (10, 10)]
            vals = [x[:len(labels)] for x in vals]
            s = points(ts, vals, labels=labels, kind=kind)
            for cls, how in ((LinearInterpolator, 'linear'), (UniformInterpolator, 'uniform')):
                for i in range(len(ts) - 1):
                    for f in (0.125, 0.5, 0.75):
                        at = ts[i] + (ts[i + 1] - ts[i]) * f
                        exp = [W.interpolate(ts, [x[k] for x in vals], i, at, how) for k in range(len(labels))]
                        for kw in ({}, dict(prev_i=i, next_i=i + 1)):
                            got = outcome_of(cls(s).evaluate, at, **kw)
                            ctx.step()
                            data = got[1]
                            ctx.state((tuple(ts), kind, how, at, bool(kw)))
                            ctx.check(got[0] == 'ok' and close([data[l] for l in labels] if isinstance(data, dict) else data, exp), 'interpolator',
                                      lambda: '{} interpolation at {} of {} {} with {} gave {} instead of {}'.format(how, at, ts, vals, kw, got, exp))
                            ctx.outcome((how, repr(data)))
                            ctx.ok()
                        for kw in (dict(prev_i=i), dict(next_i=i + 1)):
                            ctx.check(outcome_of(cls(s).evaluate, at, **kw)[0] == 'err', 'interpolator-refused', 'only one of the neighbours accepted')
                for at in (ts[0] - 1, ts[-1] + 1):
                    got = outcome_of(cls(s).evaluate, at)
                    ctx.step()
                    ctx.check(got[0] == 'err', 'interpolator-refused', lambda: '{} interpolation at {} outside {} gave {}'.format(how, at, ts, got))
                    ctx.ok()
    for bad in ('1D', '1M', '1Y', '1W'):
        ctx.check(outcome_of(points([86400 * k for k in range(20)], range(20)).resample, bad)[0] == 'err', 'calendar-refused', 'resampling at {} was not refused'.format(bad))
        ctx.step()
        ctx.ok()
    for s in (slots(0, '1m', [1, 2, 3]), TimeSeries()):
        ctx.check(outcome_of(s.resample, 60)[0] == 'err', 'kind-refused', 'resampling {} was not refused'.format(s))
        ctx.step()
        ctx.ok()
