"""M04: a forecast continues the series with the requested number of items."""
import itertools
import logging
from mc.lib import *
from timeseria.models.forecasters import Forecaster, PeriodicAverageForecaster, ProphetForecaster, AARIMAForecaster

PROPERTY = 'M04'
LEVEL = 'model_checking'
RULE = ('every kind of series (points and slots of physical and calendar units, across DST changes and month ends), starting position, length, number of steps and forecaster (stubs of every window and form of prediction, with and without a fit, periodic '
        'averages, Prophet and auto-ARIMA), applied, in place, on views, as a forecast and as a prediction, against a reference continuation; plus every failure at any step, which has to leave the series as it was. A non-trivial outcome is a distinct continuation')
ASSUMPTIONS = ['forecasting on a series with less items than the window is refused', 'views cannot be extended in place', 'Prophet and auto-ARIMA forecasts have no window and are compared with a tolerance of 1e-6']
BOUNDS = {'quick': '12 kinds of series, 3 starting positions, up to 4 items and 4 steps, 12 forecasters', 'thorough': '12 kinds of series, 10 starting positions, up to 6 items and 7 steps, 12 forecasters'}
CHUNK = 1
ROME, NY = 'Europe/Rome', 'America/New_York'
KINDS = {
    'points': dict(ts=lambda i: 60 * i - 120),
    'halves': dict(ts=lambda i: 0.5 * i + 3.25, tz=NY),
    'hpoints': dict(ts=lambda i: 3600 * i + epoch(2019, 3, 30, 20, tz=ROME), tz=ROME),
    'tzpoints': dict(ts=lambda i: 3600 * i + epoch(2019, 3, 30, 20, tz=ROME), tz=NY, stz=ROME),
    'utcpoints': dict(ts=lambda i: 60 * i + 7, stz=NY),
    'dpoints': dict(ts=lambda i: 86400 * i + epoch(2019, 3, 28, tz='UTC'), tz=ROME),
    'hslots': dict(start=epoch(2019, 10, 26, 22, tz=ROME), unit='1h', tz=ROME),
    'mslots10': dict(start=epoch(2019, 3, 30, 23, 30, tz=ROME), unit='10m', tz=ROME),
    'dslots': dict(start=epoch(2019, 3, 28, tz=ROME), unit='1D', tz=ROME),
    'wslots': dict(start=epoch(2019, 10, 14, tz=NY), unit='1W', tz=NY),
    'mslots': dict(start=epoch(2019, 11, 1, tz=ROME), unit='1M', tz=ROME),
    'yslots': dict(start=epoch(1968, 1, 1), unit='1Y'),
}
NEXT = {}


def instants(kind):
    if kind not in NEXT:
        c = KINDS[kind]
        if 'ts' in c:
            NEXT[kind] = [c['ts'](i) for i in range(60)]
        else:
            NEXT[kind] = [c['start']]
            for _ in range(60):
                NEXT[kind].append(ref_shift(NEXT[kind][-1], c['unit'], c.get('tz', 'UTC')))
    return NEXT[kind]


def value(i, k):
    return [3, -1, 4, 1, 5, 9, 2, 6][i % 8] * (1 + k) + i / 4


def build(kind, first, n, labels=('b', 'a'), change=None):
    """change alters the values of the first items."""
    c = KINDS[kind]
    values = [tuple(value(first + i, k) + (100 if change is not None and i < change else 0) for k in range(len(labels))) for i in range(n)]
    indexes = [[{}, {'data_loss': 0.5, 'forecast': 1}, {'x': i, 'data_loss': None}][i % 3] for i in range(n)]
    if 'ts' in c:
        series = points(instants(kind)[first:first + n], values, labels=labels, indexes=indexes, tz=c.get('tz'))
        if 'stz' in c:
            series = TimeSeries(*series, tz=c['stz'])
        return series
    return slots(instants(kind)[first], c['unit'], values, labels=labels, indexes=indexes, tz=c.get('tz'))


def guess(history, label):
    """What the stubs predict given the last values of the label."""
    return sum((j + 2) * v for j, v in enumerate(history[label])) / 8 + (1 if label == 'a' else 3)


class Stub(Forecaster):
    """A forecaster on the last items only, in any of the supported forms."""

    def __init__(self, window, form, fail=None):
        self.window = window
        self.form = form
        self.fail = fail
        self.calls = 0
        super().__init__()

    @Forecaster.predict_function
    def predict(self, series, steps=1):
        if len(series) < self.window:
            raise ValueError('Not enough window')
        self.calls += 1
        if self.fail is not None and self.calls > self.fail:
            raise ValueError('Failing')
        if self.form == 'one' and steps > 1:
            raise NotImplementedError('Only one step')
        history = {l: [item.data[l] for item in series[-self.window:]] if self.window else [] for l in series.data_labels()}
        out = []
        for _ in range(steps):
            out.append({l: guess(history, l) for l in history})
            if self.window:
                history = {l: history[l][1:] + [out[-1][l]] for l in history}
        if self.form == 'few':
            return out[:-1]
        return out[0] if self.form in ('one', 'always') else out


class FittedStub(Stub):
    """The same, with a fit."""

    @Forecaster.fit_function
    def fit(self, series):
        pass


STUBS = [('free', 0, 'many'), ('free', 0, 'one'), ('free', 1, 'many'), ('free', 1, 'one'), ('free', 2, 'many'), ('fit', 2, 'one'), ('fit', 1, 'many'), ('fit', 3, 'one')]
AVERAGES = [(2, 'auto'), (3, 'auto'), (2, 1), (3, 2)]
EXTERNAL = ['prophet', 'aarima']


def cases(tier):
    for kind in KINDS:
        for first in ((0, 2, 5) if tier == 'quick' else range(10)):
            for n in range(2, 5 if tier == 'quick' else 7):
                yield dict(kind=kind, first=first, n=n, steps=4 if tier == 'quick' else 7)
    for kind in KINDS:
        for name in EXTERNAL:
            if tier == 'thorough' or kind in ('points', 'hslots', 'dslots', 'mslots'):
                yield dict(kind=kind, external=name, steps=2 if tier == 'quick' else 4)


def make(spec, kind):
    if spec[0] == 'average':
        m = PeriodicAverageForecaster(window=spec[2])
        m.fit(build(kind, 0, 3 * spec[1] + 1), periodicity=spec[1])
        return m
    m = (FittedStub if spec[0] == 'fit' else Stub)(*spec[1:])
    if spec[0] == 'fit':
        m.fit(build(kind, 0, 8))
    return m


def run(ctx, case):
    if 'external' in case:
        return external(ctx, case)
    kind, first, n = case['kind'], case['first'], case['n']
    for spec in STUBS + [('average',) + a for a in AVERAGES]:
        m = make(spec, kind)
        window = m.window
        series = build(kind, first, n)
        old = snap(series)
        for steps in range(1, case['steps'] + 1):
            label = '{} items of {} from {} with {} for {} steps'.format(n, kind, first, spec, steps)
            ctx.state((kind, first, n, spec, steps))
            if n < window:
                for fn, kw in ((m.predict, {}), (m.forecast, {}), (m.apply, {}), (m.apply, {'inplace': True})):
                    got = outcome_of(fn, series, steps=steps, **kw)
                    ctx.step()
                    ctx.check(got[0] == 'err', 'short', lambda: '{}: a series shorter than the window gave {}'.format(label, got))
                    ctx.check(snap(series) == old, 'source', lambda: '{}: refused, but changed the series'.format(label))
                continue
            expected = None
            if spec[0] != 'average':
                history = {l: [item.data[l] for item in series][n - window:] if window else [] for l in ('a', 'b')}
                expected = []
                for _ in range(steps):
                    expected.append({l: guess(history, l) for l in history})
                    if window:
                        history = {l: history[l][1:] + [expected[-1][l]] for l in history}
            data = continuation(ctx, label, kind, first, n, steps, m, expected)
            if data is None:
                continue
            if spec[0] == 'average':
                # The offset is over the window, right at the end or (as in the known finding) one item before
                p, fitted = spec[1], 3 * spec[1] + 1
                refs = []
                for last in (n, n - 1):
                    rows = []
                    for step in range(steps):
                        row = {}
                        for k, l in enumerate(('b', 'a')):
                            avg = [[value(i, k) for i in range(fitted) if i % p == q] for q in range(p)]
                            avg = [sum(v) / len(v) for v in avg]
                            offset = sum(value(first + (j % n), k) - avg[(first + (j % n)) % p] for j in range(last - window, last)) / window
                            row[l] = avg[(first + n + step) % p] + offset
                        rows.append(row)
                    refs.append(rows)
                ctx.check(any(close(data, r) for r in refs), 'values', lambda: '{}: forecast {} instead of {}'.format(label, data, refs))
            # What precedes the window does not matter
            for change in range(1, n - window + 1):
                other = outcome_of(m.apply, build(kind, first, n, change=change), steps=steps)
                ctx.step()
                same = other[0] == 'ok' and close([item.data for item in other[1]][n:], data)
                key = 'window' if change < n - window or spec[0] != 'average' else 'periodic-average-window'
                ctx.check(same, key, lambda: '{}: changing the values before the window changed the forecast'.format(label))
                ctx.ok()
    failures(ctx, case)
    context(ctx, case)


def continuation(ctx, label, kind, first, n, steps, m, expected, tol=1e-9):
    """Checks the applied series, and returns the forecast data."""
    c = KINDS[kind]
    ts = instants(kind)
    series = build(kind, first, n, labels=getattr(m, 'mc_labels', ('b', 'a')))
    whole = build(kind, first - 1, n + 2, labels=getattr(m, 'mc_labels', ('b', 'a'))) if first else build(kind, first, n + 1, labels=getattr(m, 'mc_labels', ('b', 'a')))
    view = whole.view(from_i=1, to_i=n + 1) if first else whole.view(from_i=0, to_i=n)
    old, old_whole = snap(series), snap(whole)
    own = [str(item.tz) for item in series]
    data = None
    for way in ('apply', 'view', 'inplace', 'view-inplace'):
        target = view if way.startswith('view') else series
        got = outcome_of(m.apply, target, steps=steps, **({'inplace': True} if way.endswith('inplace') else {}))
        ctx.step()
        if way == 'view-inplace':
            ctx.check(got[0] == 'err' and snap(whole) == old_whole, 'view-inplace', lambda: '{}: a view applied in place gave {}'.format(label, got))
            continue
        if not ctx.check(got[0] == 'ok', 'apply', lambda: '{} ({}): failed with {}'.format(label, way, got)):
            return None
        res = series if way == 'inplace' else got[1]
        if way != 'inplace':
            ctx.check(snap(series) == old and snap(whole) == old_whole, 'source', lambda: '{} ({}): changed its input'.format(label, way))
        if not ctx.check(isinstance(res, TimeSeries) and len(res) == n + steps and str(res.resolution) == old[0][1] and str(res.tz) == old[0][2], 'series', lambda: '{} ({}): gave {}'.format(label, way, res)):
            return None
        if way == 'view':
            ref = build(kind, first, n)
            # The indexes depend on the position in the whole series
            before = [dict(item.data_indexes) for item in view]
        else:
            before = [dict(item.data_indexes) for item in build(kind, first, n, labels=getattr(m, 'mc_labels', ('b', 'a')))]
        fc = []
        for i, item in enumerate(res):
            isslot = 'unit' in c
            good = isinstance(item, DataTimeSlot if isslot else DataTimePoint) and close(item.t, ts[first + i]) and str(item.tz) == (old[0][2] if i >= n else own[i])
            if isslot:
                good = good and close(item.end.t, ts[first + i + 1]) and item.unit == TimeUnit(c['unit'])
            ctx.check(good, 'place', lambda: '{} ({}): item {} is {}'.format(label, way, i, item))
            ctx.check(item.data_indexes.get('forecast') == int(i >= n), 'mark', lambda: '{} ({}): item {} marked {}'.format(label, way, i, item.data_indexes.get('forecast')))
            if i < n:
                exp = dict(before[i], forecast=0)
                ctx.check(item.data_indexes == exp and item.data == {l: value(first + i, k) for k, l in enumerate(getattr(m, 'mc_labels', ('b', 'a')))}, 'original', lambda: '{} ({}): item {} changed to {} {}'.format(label, way, i, item, item.data_indexes))
            else:
                fc.append(item.data)
        if expected is not None:
            ctx.check(close(fc, expected, abs_=tol, rel=tol), 'values', lambda: '{} ({}): forecast {} instead of {}'.format(label, way, fc, expected))
        ctx.check(all(set(d) == set(getattr(m, 'mc_labels', ('b', 'a'))) for d in fc), 'labels', lambda: '{} ({}): forecast {}'.format(label, way, fc))
        ctx.check(data is None or close(data, fc, rel=tol, abs_=tol), 'ways', lambda: '{} ({}): forecast {} instead of {}'.format(label, way, fc, data))
        data = fc
        ctx.ok()
    ctx.outcome((kind, tuple(sorted(data[-1].items())), steps))
    # As a forecast and as a prediction, also for fewer steps
    series = build(kind, first, n, labels=getattr(m, 'mc_labels', ('b', 'a')))
    for k in range(1, steps + 1):
        got = outcome_of(m.apply, series, steps=k)
        ctx.check(got[0] == 'ok' and close([item.data for item in got[1]][n:], data[:k], rel=tol, abs_=tol), 'prefix', lambda: '{}: the first {} steps are not those asking for them only'.format(label, k))
        for fn in (m.predict, m.forecast):
            got = outcome_of(fn, series, steps=k)
            ctx.step()
            if got[0] == 'err' and got[1] == 'NotImplementedError' and k > 1:
                continue
            rows = got[1] if got[0] == 'ok' and isinstance(got[1], list) else [got[1]]
            if fn == m.forecast and got[0] == 'ok':
                place = [close(item.t, ts[first + n + j]) and type(item) is type(series[0]) and str(item.tz) == old[0][2] and ('unit' not in c or (close(item.end.t, ts[first + n + j + 1]) and item.unit == TimeUnit(c['unit']))) for j, item in enumerate(rows)]
                ctx.check(all(place), 'forecast-place', lambda: '{}: forecast() for {} steps gave {}'.format(label, k, rows))
                rows = [item.data for item in rows]
            ctx.check(got[0] == 'ok' and close(rows, data[:k], rel=tol, abs_=tol), 'same', lambda: '{}: {} for {} steps gave {} instead of {}'.format(label, fn.__name__, k, got[1:], data[:k]))
            ctx.ok()
    ctx.check(snap(series) == old, 'source', lambda: '{}: predicting or forecasting changed the series'.format(label))
    return data


def failures(ctx, case):
    """Whatever the step failing, nothing is left half-way."""
    kind, first, n = case['kind'], case['first'], case['n']
    for form in ('many', 'one', 'few', 'always'):
        for steps in range(1, case['steps'] + 1):
            for fail in (range(0, steps + 1) if form in ('many', 'one') else (None,)):
                for inplace in (False, True):
                    m = Stub(1, form, fail=fail)
                    series = build(kind, first, n)
                    old = snap(series)
                    got = outcome_of(m.apply, series, steps=steps, inplace=inplace)
                    ctx.step()
                    # One of the calls is for asking for all of the steps
                    calls = 1 if form == 'many' or steps == 1 else steps + 1
                    bad = (fail is not None and fail < calls) or form == 'few' or (form == 'always' and steps > 1)
                    ctx.state((kind, first, n, form, steps, fail, inplace))
                    if bad:
                        ctx.check(got[0] == 'err', 'missing', lambda: '{} for {} steps failing at {} gave {}'.format(form, steps, fail, got))
                        ctx.check(snap(series) == old, 'half-way', lambda: '{} for {} steps failing at {}{} changed the series'.format(form, steps, fail, ' in place' if inplace else ''))
                    else:
                        ctx.check(got[0] == 'ok', 'apply', lambda: '{} for {} steps failed with {}'.format(form, steps, got))
                    ctx.ok()


def context(ctx, case):
    """Forecasting some of the labels given the others."""
    kind, first, n = case['kind'], case['first'], case['n']

    class Partial(Forecaster):
        window = 1

        @Forecaster.fit_function
        def fit(self, series):
            self.data['target_data_labels'] = ['a']
            self.data['context_data_labels'] = ['b']

        @Forecaster.predict_function
        def predict(self, series, steps=1, context_data=None):
            if steps > 1:
                raise NotImplementedError()
            return {'a': series[-1].data['a'] + 10 * context_data['b']}

    m = Partial()
    m.fit(build(kind, 0, 4))
    series = build(kind, first, n)
    old = snap(series)
    given = {'b': 7}
    for inplace in (False, True):
        for bad in (None, {}):
            got = outcome_of(m.apply, series, context_data=bad, inplace=inplace)
            ctx.check(got[0] == 'err' and snap(series) == old, 'context', lambda: 'applying with no context gave {}'.format(got))
    got = outcome_of(m.apply, series, context_data=given)
    ctx.step()
    exp = {'a': value(first + n - 1, 1) + 70, 'b': 7}
    ctx.check(got[0] == 'ok' and len(got[1]) == n + 1 and got[1][-1].data == exp and close(got[1][-1].t, instants(kind)[first + n]), 'context', lambda: 'applying with context gave {}'.format(got))
    ctx.check(snap(series) == old and given == {'b': 7}, 'context', 'applying with context changed its input')
    got = outcome_of(m.forecast, series, context_data=given)
    ctx.check(got[0] == 'ok' and got[1].data == exp and given == {'b': 7}, 'context', lambda: 'forecasting with context gave {}'.format(got))
    plain = Stub(1, 'one')
    got = outcome_of(plain.apply, series, context_data=given)
    ctx.check(got[0] == 'err' and snap(series) == old, 'context', lambda: 'a forecaster with no context given it gave {}'.format(got))
    ctx.ok()


def external(ctx, case):
    kind, name = case['kind'], case['external']
    for noisy in ('cmdstanpy', 'prophet'):
        logging.getLogger(noisy).disabled = True
    n = 20
    fit_on = build(kind, 1, n, labels=('a',))
    m = ProphetForecaster() if name == 'prophet' else AARIMAForecaster()
    m.mc_labels = ('a',)
    got = outcome_of(m.fit, fit_on)
    if not ctx.check(got[0] == 'ok', 'fit', lambda: 'fit of {} on {} failed with {}'.format(name, kind, got)):
        return
    for steps in range(1, case['steps'] + 1):
        ctx.state((kind, name, steps))
        continuation(ctx, '{} of {}'.format(name, kind), kind, 1, n, steps, m, None, tol=1e-6)
