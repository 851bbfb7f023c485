"""V01: what is computed does not depend on the unit of measure of the values, nor on their type."""
import itertools
import os
import warnings
import numpy
from mc import core
from mc.lib import *
from timeseria.interpolators import UniformInterpolator
from timeseria.operations import avg, min as min_, max as max_, sum as sum_, merge
from timeseria.transformations import Resampler, Aggregator
from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.models.reconstructors import LinearInterpolationReconstructor, PeriodicAverageReconstructor
from timeseria.models.anomaly_detectors import PeriodicAverageAnomalyDetector
from timeseria.utilities import detect_periodicity, detect_sampling_interval

PROPERTY = 'V01'
LEVEL = 'model_checking'
RULE = ('every assignment of values to short series of each kind, and each function and model on them, with the values as they are and expressed in another unit of measure (multiplied, also by negative, very small and very large numbers, and moved so that each of them gets to be zero), and held as integers, floats and NumPy scalars: '
        'the result is the one on the values as they are, expressed in the same way. A non-trivial outcome is a distinct result')
ASSUMPTIONS = ['the results on the values as they are are right, as decided by the other properties']
BOUNDS = {'quick': '6 kinds of series, each assignment of 3 values to the items of a period of 4, 9 changes of unit, 5 types, 48 functions and 16 uses of models', 'thorough': 'each assignment of 3 values to a period of 5 as well, 14 changes of unit'}
CHUNK = 1
TIMEOUT = 800
warnings.simplefilter('ignore')

T0 = 86400 * 17897
KINDS = {'points': 600, 'uneven': None, 'lossy': 600, 'gaps': 600, 'slots': '1h', 'days': '1D'}
TYPES = {'int': int, 'numpy float': numpy.float64, 'numpy int': numpy.int64, 'numpy single': numpy.float32, 'numpy short': numpy.int16}


def maps(tier):
    out = [(2.0 ** -300, 0), (2.0 ** 300, 0), (-1, 0), (-2.0 ** 20, 0), (2.0 ** -20, 0), (1, -1), (1, -3), (1, 2.0 ** 16), (-1, 3)]
    if tier == 'thorough':
        out += [(2.0 ** -60, 0), (2.0 ** 60, 0), (-2.0 ** -300, 0), (0.5, 7), (-4, -4)]
    return out


def build(kind, values, a=1, b=0, cast=float):
    step = KINDS[kind]
    values = [cast(v * a + b) for v in values]
    s = TimeSeries()
    p = TimePoint(t=T0)
    for i, v in enumerate(values):
        if kind == 'gaps' and i in (2, 7, 8, 9):
            continue
        kw = dict(data_loss=[0, 0.25, 1, None, 1, 1, 0.5][i % 7] if i < len(values) - 1 else 0) if kind in ('lossy', 'days') else dict(data_indexes={'x': i / 64})
        if isinstance(step, str):
            s.append(DataTimeSlot(start=p, unit=TimeUnit(step), data={'v': v}, **kw))
            p = s[-1].end
        else:
            s.append(DataTimePoint(t=T0 + (step * i if step else 60 * i * (i + 3)), data={'v': v}, **kw))
    return s


def file():
    return '{}/v01-{}.csv'.format(core.scratch(), os.getpid())


def csv(s):
    s.save(file(), overwrite=True)
    return TimeSeries.load(file())


def model(factory, op, fit=None, **kw):
    def use(s, a, b):
        m = factory()
        if fit is not None:
            m.fit(s, **fit)
        return getattr(m, op)(s, **kw)
    return use


def edited(s, a, b):
    s[1].data['v'] = 5 * a + b
    s.append(s.pop())
    return s


# What the result of each becomes: 'affine' as the values, 'slope' as their differences, 'linear' as their sums (only for multiplications), 'same' not at all
F = {
    'items': ('affine', lambda s, a, b: s), 'avg': ('affine', lambda s, a, b: s.avg()), 'min, max': ('affine', lambda s, a, b: [s.min(), s.max()][::1 if a > 0 else -1]), 'sum': ('linear', lambda s, a, b: s.sum()),
    'slice': ('affine', lambda s, a, b: s.slice(1, 4)), 'view': ('affine', lambda s, a, b: s.view(1, 4)), 'view avg': ('affine', lambda s, a, b: s.view(1, 4).avg()), 'duplicate': ('affine', lambda s, a, b: s.duplicate()), 'edited': ('affine', edited),
    'csv': ('affine', lambda s, a, b: csv(s)), 'json': ('affine', lambda s, a, b: TimeSeries.from_json(s.to_json())), 'df': ('affine', lambda s, a, b: TimeSeries.from_df(s.to_df())), 'dict': ('affine', lambda s, a, b: TimeSeries.from_dict(s.to_dict())),
    'derivative': ('slope', lambda s, a, b: s.derivative()), 'derivative(no)': ('slope', lambda s, a, b: s.derivative(normalize=False)), 'derivative(diffs)': ('slope', lambda s, a, b: s.derivative(diffs=True)), 'diff': ('slope', lambda s, a, b: s.diff()),
    'integral': ('linear', lambda s, a, b: s.integral()), 'integral(c)': ('linear', lambda s, a, b: s.integral(c=3 * a)), 'integral(offset)': ('linear', lambda s, a, b: s.integral(offset=3 * a)), 'csum': ('linear', lambda s, a, b: s.csum()), 'csum(offset)': ('linear', lambda s, a, b: s.csum(offset=-2 * a)),
    'offset': ('affine', lambda s, a, b: s.offset(-3 * a)), 'rescale': ('linear', lambda s, a, b: s.rescale(-2.5)), 'offset back': ('slope', lambda s, a, b: s.offset(-3 * a - b)), 'mavg': ('affine', lambda s, a, b: s.mavg(2)), 'mavg(3)': ('affine', lambda s, a, b: s.mavg(3)),
    'normalize': ('same', lambda s, a, b: s.normalize() if a > 0 else s.normalize(range=[0, 1]).rescale(-1).offset(1)), 'normalize(range)': ('same', lambda s, a, b: s.normalize(range=[-1, 4]) if a > 0 else s.normalize(range=[-1, 4]).rescale(-1).offset(3)),
    'normalize(source)': ('same', lambda s, a, b: s.normalize(source_range={'v': sorted([-a + b, 4 * a + b])}) if a > 0 else s.normalize(source_range={'v': sorted([-a + b, 4 * a + b])}).rescale(-1).offset(1)),
    'merge': ('affine', lambda s, a, b: merge(s, renamed(s))), 'resample': ('affine', lambda s, a, b: s.resample(600)), 'resample(2)': ('affine', lambda s, a, b: s.resample(1200)), 'resample(half)': ('affine', lambda s, a, b: s.resample(300)),
    'uniform': ('affine', lambda s, a, b: Resampler(600, interpolator_class=UniformInterpolator).process(s)), 'aggregate': ('affine', lambda s, a, b: s.aggregate('1h')), 'aggregate(30m)': ('affine', lambda s, a, b: s.aggregate('30m')), 'aggregate(2h)': ('affine', lambda s, a, b: s.aggregate('2h')),
    'aggregate(sum)': ('linear', lambda s, a, b: Aggregator('30m', operations=[sum_]).process(s)), 'aggregate(max)': ('affine', lambda s, a, b: Aggregator('30m', operations=[max_ if a > 0 else min_]).process(s)), 'aggregate(min)': ('affine', lambda s, a, b: Aggregator('30m', operations=[min_ if a > 0 else max_]).process(s)),
    'interpolate': ('affine', lambda s, a, b: LinearInterpolationReconstructor().apply(s)), 'interpolate(some)': ('affine', lambda s, a, b: LinearInterpolationReconstructor().apply(s, data_loss_threshold=0.5)),
    'interpolation scores': ('size', lambda s, a, b: LinearInterpolationReconstructor().evaluate(s, steps=[1, 2], metrics=['RMSE', 'MAE'])), 'interpolation percent': ('percent', lambda s, a, b: LinearInterpolationReconstructor().evaluate(s, steps=[1, 2], metrics=['MAPE'])),
    'select': ('affine', lambda s, a, b: s.select('v={}'.format(repr(float(s[1].data['v']))))), 'equal': ('same', lambda s, a, b: [x.data == y.data for x in s for y in s]), 'sampling': ('same', lambda s, a, b: [str(s.resolution), detect_sampling_interval(s) if isinstance(s[0], Point) else 0]),
}
M = {
    'periodicity': ('percent', lambda s, a, b: detect_periodicity(s)), 'forecast': ('affine', model(PeriodicAverageForecaster, 'apply', dict(periodicity=4), steps=5)), 'forecast(auto)': ('linear', model(PeriodicAverageForecaster, 'predict', {}, steps=3)), 'forecast(window)': ('affine', model(lambda: PeriodicAverageForecaster(window=2), 'predict', dict(periodicity=4), steps=3)),
    'forecast scores': ('size', model(PeriodicAverageForecaster, 'evaluate', dict(periodicity=4), steps=1, error_metrics=['RMSE', 'MAE', 'HAE'])), 'forecast squares': ('square', model(PeriodicAverageForecaster, 'evaluate', dict(periodicity=4), steps=1, error_metrics=['MSE'])), 'forecast percent': ('percent', model(PeriodicAverageForecaster, 'evaluate', dict(periodicity=4), steps=1, error_metrics=['MAPE', 'HAPE', 'MALE', 'HALE'])),
    'reconstruct': ('affine', model(PeriodicAverageReconstructor, 'apply', dict(periodicity=4))), 'reconstruct(extremes)': ('affine', model(PeriodicAverageReconstructor, 'apply', dict(periodicity=4, offset_method='extremes'))), 'reconstruct scores': ('size', model(PeriodicAverageReconstructor, 'evaluate', dict(periodicity=4), steps=[1, 2], metrics=['RMSE', 'MAE'])),
    'anomalies': ('affine', model(PeriodicAverageAnomalyDetector, 'apply', dict(periodicity=4, error_metric='AE', error_distribution='norm'))), 'anomalies(E)': ('affine', model(PeriodicAverageAnomalyDetector, 'apply', dict(periodicity=4, error_metric='E', error_distribution='norm'), index_type='lin')),
    'anomalies(sigma)': ('affine', model(PeriodicAverageAnomalyDetector, 'apply', dict(periodicity=4, error_metric='AE', error_distribution='norm'), index_bounds=['1_sigma', '4_sigma'])),
    'anomalies(adherence)': ('affine', model(PeriodicAverageAnomalyDetector, 'apply', dict(periodicity=4, error_metric='AE', error_distribution='norm'), index_bounds=['adherence/1.5', 'adherence/50'])),
    'anomalies percent': ('linear', model(PeriodicAverageAnomalyDetector, 'apply', dict(periodicity=4))), 'anomalies absolute percent': ('linear', model(PeriodicAverageAnomalyDetector, 'apply', dict(periodicity=4, error_metric='APE', error_distribution='norm'), index_type='lin')),
}


def renamed(s):
    other = s.duplicate()
    other.rename_data_label('v', 'w')
    return other


def cases(tier):
    for kind in KINDS:
        for name in F:
            yield dict(what='functions', kind=kind, name=name, tier=tier)
        for name in M:
            yield dict(what='models', kind=kind, name=name, tier=tier)


def run(ctx, case):
    globals()[case['what']](ctx, **{k: v for k, v in case.items() if k != 'what'})


def norm(v):
    """The rest, and the values."""
    if isinstance(v, (Series, list, tuple)):
        out = [norm(i) for i in v]
        return [(str(v.resolution), str(v.tz)) if isinstance(v, Series) else None] + [o[0] for o in out], [x for o in out for x in o[1]]
    if isinstance(v, (Point, Slot)):
        place = (type(v).__name__, v.start.t, v.end.t, str(v.unit)) if isinstance(v, Slot) else (type(v).__name__, v.t)
        return [place, {k: None if x is None else float(x) for k, x in v.data_indexes.items()}, sorted(k[:1] for k in v.data)], [float(x) for k, x in sorted(v.data.items())]
    if isinstance(v, dict):
        return sorted(v) if all(isinstance(k, str) for k in v) and len(v) == 1 else None, [float(x) for k, x in sorted(v.items(), key=lambda kv: str(kv[0])) if not isinstance(x, str)]
    if isinstance(v, (str, bool, int)):
        return v, []
    if isinstance(v, (float, numpy.floating, numpy.integer)):
        return None, [float(v)]
    raise TypeError(type(v))


def outcome(fn, s, a, b):
    got = outcome_of(lambda: norm(fn(s, a, b)))
    return got if got[0] == 'ok' else got[:2]


def expressed(value, how, a, b):
    if how == 'affine':
        return value * a + b
    return value * factor(how, a)


def factor(how, a):
    return {'affine': a, 'slope': a, 'linear': a, 'size': abs(a), 'square': a * a}.get(how, 1)


def check(ctx, kind, name, how, fn, values, tier):
    if name.endswith('percent'):
        values = tuple(v + 1 for v in values)
    ref = outcome(fn, build(kind, values), 1, 0)
    for a, b in maps(tier):
        if b and how in ('linear', 'percent', 'size') and name != 'forecast scores' or a < 0 and name == 'anomalies(E)':
            # The errors are more on a side than on the other
            continue
        got = outcome(fn, build(kind, values, a, b), a, b)
        compare(ctx, kind, name, how, values, (a, b), ref, got, a, b)
    for cast in TYPES:
        if name == 'json' and cast not in ('int', 'numpy float'):
            continue
        got = outcome(fn, build(kind, values, cast=TYPES[cast]), 1, 0)
        compare(ctx, kind, name, how, values, cast, ref, got, 1, 0, 1e-5 if cast == 'numpy single' else 1e-9)
    ctx.state((kind, name, values))
    ctx.outcome(repr((kind, name, ref)))


def compare(ctx, kind, name, how, values, what, ref, got, a, b, tol=1e-9):
    ctx.step()
    if ref[0] != 'ok':
        # Percentages of zero, and what cannot be done on the series
        good = got[0] == ref[0] or how == 'percent'
    elif got[0] != 'ok':
        good = False
    else:
        exp = ref[1]
        size = max([1e-300] + [abs(x) for x in exp[1]])
        if b:
            size = max(size, abs(b / factor(how, a)), 4)
        good = close(plain(exp[0]), plain(got[1][0]), 1e-6 if b else 1e-9) and len(exp[1]) == len(got[1][1]) and all(abs(g - expressed(x, how, a, b)) <= tol * size * abs(factor(how, a)) for g, x in zip(got[1][1], exp[1]))
    ctx.check(good, what if isinstance(what, str) else 'unit', lambda: '{} of {} with values {}, {}: {} instead of {}'.format(name, kind, values, what, got, ref))
    ctx.ok()


def plain(v):
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v


def functions(ctx, kind, name, tier):
    how, fn = F[name]
    for values in assignments(tier):
        check(ctx, kind, name, how, fn, values + (1, values[0]), tier)


def models(ctx, kind, name, tier):
    how, fn = M[name]
    for values in assignments(tier):
        # The last period is not the same as the others
        check(ctx, kind, name, how, fn, values * 3 + values[:1] + (values[1] + 1, values[2]), tier)


def assignments(tier):
    out = list(itertools.product((0, 1, 3), repeat=4))
    if tier == 'thorough':
        out += list(itertools.product((0, 1, 3), repeat=5))
    return out
