"""M10: Prophet and ARIMA models are fit and used on exactly the data, at its own times."""
import itertools
import logging
import sys
import types
from datetime import datetime
import numpy
import pandas
from mc.lib import *
from timeseria.exceptions import NonContiguityError
from timeseria.models.forecasters import ProphetForecaster, ARIMAForecaster, AARIMAForecaster
from timeseria.models.reconstructors import ProphetReconstructor

PROPERTY = 'M10'
LEVEL = 'model_checking'
RULE = ('every kind of series (points and slots, on several units and time zones), every position of a change of offset with respect to the end of the data, every number of items and of steps ahead, and every range or pattern of items to reconstruct: what is given to '
        'Prophet, statsmodels and pmdarima (recording ones, computing a known function) and what comes out of predictions, forecasts, applies, evaluations, new fits and fits which fail are compared with those computed from the plain values. '
        'The same is done with the actual libraries on a few series, against using them directly. A non-trivial outcome is a distinct fit or prediction')
ASSUMPTIONS = ['Prophet gives its predictions ordered by wall clock time, as checked on the actual one', 'the first item of an evaluation, before which there is nothing, can be predicted in any way or left out',
               'items at the same wall clock time, before and after a change of offset, have the same prediction']
BOUNDS = {'quick': '9 kinds of series, from 2 to 6 items starting at any of 10 items around a change of offset, up to 5 steps ahead, all the ranges and patterns of losses on 6 items', 'thorough': '10 kinds of series, from 2 to 8 items starting at any of 30 items around a change of offset, up to 8 steps ahead, all the ranges and patterns of losses on 8 items'}
CHUNK = 4
ROME, YORK = 'Europe/Rome', 'America/New_York'
# Kind, step, start (a few items before the change of offset, if any), time zone
KINDS = {'minutes': ('points', 60, 1000020, None), 'hours': ('points', 3600, epoch(2019, 3, 30, 19, tz=ROME), ROME), 'quarters': ('points', 900, epoch(2019, 10, 27, 0, 30, tz=ROME), ROME), 'halves': ('points', 1800, epoch(2019, 11, 2, 22, tz=YORK), YORK),
         'daily': ('points', 86400, epoch(2019, 10, 21, 12, tz=ROME), ROME), 'hslots': ('slots', '1h', epoch(2019, 10, 26, 19, tz=ROME), ROME), 'qslots': ('slots', '15m', epoch(2019, 11, 2, 23, 30, tz=YORK), YORK),
         'days': ('slots', '1D', epoch(2019, 3, 26, tz=ROME), ROME), 'months': ('slots', '1M', epoch(2019, 1, 1, tz=ROME), ROME), 'split': ('points', 0.5, -2, None)}

VALUES = [3, 5, 4.5, 1e8 + 1 / 3, 2, 8, -1, 7.25, 6, 0, 1, 4, 12, -3.5, 11]
MODULES = ('prophet', 'pmdarima', 'statsmodels', 'statsmodels.api', 'statsmodels.tsa', 'statsmodels.tsa.api', 'statsmodels.tsa.arima', 'statsmodels.tsa.arima.model')
LOG = []
BROKEN = []


def yhat(ds, fitted):
    """A known function of the wall clock time and of all of the data it has been fit on."""
    ds = pandas.Timestamp(ds)
    at = (ds - pandas.Timestamp(1970, 1, 1)).total_seconds()
    return (at % 9973) / 7 + (at % 86400) / 3600 + sum(v * (i + 1) for i, (_, v) in enumerate(fitted)) / 10 + sum(pandas.Timestamp(d).minute + pandas.Timestamp(d).hour for d, _ in fitted) / 100


class Prophet:
    def __init__(self):
        self.history = None

    def fit(self, df):
        if self.history is not None:
            raise Exception('Prophet object can only be fit once. Instantiate a new object.')
        if BROKEN:
            raise RuntimeError('Optimization terminated abnormally')
        self.history = [(d.to_pydatetime(), float(y)) for d, y in zip(pandas.to_datetime(df['ds']), df['y'])]
        LOG.append(('fit', self.history))
        return self

    def predict(self, df):
        ds = pandas.to_datetime(df['ds'])
        if ds.dt.tz is not None:
            raise ValueError('Column ds has timezone specified, which is not supported. Remove timezone.')
        ds = sorted(d.to_pydatetime() for d in ds)
        LOG.append(('predict', ds))
        out = [yhat(d, self.history) for d in ds]
        return pandas.DataFrame({'ds': ds, 'trend': [0.] * len(ds), 'yhat_lower': [v - 1 for v in out], 'yhat_upper': [v + 1 for v in out], 'yhat': out})


def ahead(data, order, k):
    return sum(float(v) * (i + 1) for i, v in enumerate(data)) / 10 + sum(10 ** j * o for j, o in enumerate(order)) / 1000 + (k * k + k) / 3


class Arima:
    def __init__(self, endog, exog=None, order=(0, 0, 0)):
        if exog is not None and len(exog) != len(endog):
            raise ValueError('endog and exog matrices are different sizes')
        self.endog, self.order = [float(v) for v in endog], tuple(order)

    def fit(self, start_params=None, method=None, method_kwargs=None, **kwargs):
        if BROKEN:
            raise RuntimeError('LU decomposition error.')
        LOG.append(('fit', self.endog, self.order))
        return self

    def forecast(self, steps=1):
        return numpy.array([ahead(self.endog, self.order, k) for k in range(steps)])


class Auto:
    def __init__(self, data, kwargs):
        if BROKEN:
            raise ValueError('Could not successfully fit a viable ARIMA model')
        self.data, self.kwargs = [float(v) for v in data], kwargs
        LOG.append(('fit', self.data, kwargs))

    def summary(self):
        return ''

    def predict(self, n_periods=10):
        return numpy.array([ahead(self.data, (), k) for k in range(n_periods)])


def stubs():
    m = {name: types.ModuleType(name) for name in MODULES}
    m['prophet'].Prophet = Prophet
    m['pmdarima'].auto_arima = lambda y, **kwargs: Auto(y, kwargs)
    for name in ('statsmodels.api', 'statsmodels.tsa.api', 'statsmodels.tsa.arima.model'):
        m[name].ARIMA = Arima
    m['statsmodels.api'].tsa = m['statsmodels'].tsa = m['statsmodels.tsa']
    m['statsmodels.tsa'].ARIMA = m['statsmodels.tsa.api'].ARIMA
    m['statsmodels'].api, m['statsmodels.tsa'].api, m['statsmodels.tsa'].arima, m['statsmodels.tsa.arima'].model = m['statsmodels.api'], m['statsmodels.tsa.api'], m['statsmodels.tsa.arima'], m['statsmodels.tsa.arima.model']
    sys.modules.update(m)


def cases(tier):
    deep = tier != 'quick'
    for kind in KINDS:
        top, n, steps = (30, 8, 8) if deep else (10, 6, 5)
        if kind in ('minutes', 'split', 'months') and not deep:
            top = 3
        for first in range(top):
            yield dict(what='forecasts', kind=kind, first=first, n=n, steps=steps)
            yield dict(what='reconstructions', kind=kind, first=first, n=n)
    for kind in KINDS:
        for first in (0, 4):
            yield dict(what='arima', kind=kind, first=first, n=6 if not deep else 9, steps=5 if not deep else 8)
        yield dict(what='refits', kind=kind)
    for kind in ('quarters', 'hslots') if not deep else ('quarters', 'hslots', 'days', 'minutes', 'qslots', 'hours'):
        for model in ('Prophet', 'ARIMA', 'AARIMA'):
            yield dict(what='actual', kind=kind, model=model)


def run(ctx, case):
    before = {k: sys.modules.get(k) for k in MODULES}
    logging.disable(logging.CRITICAL)
    del LOG[:], BROKEN[:]
    if case['what'] != 'actual':
        stubs()
    try:
        globals()[case['what']](ctx, **{k: v for k, v in case.items() if k != 'what'})
    finally:
        logging.disable(logging.NOTSET)
        if case['what'] != 'actual':
            for k, v in before.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v


def instants(kind, upto):
    what, step, start, tz = KINDS[kind]
    ts = [start]
    while len(ts) < upto:
        ts.append(ts[-1] + step if what == 'points' else ref_shift(ts[-1], step, tz or 'UTC'))
    return ts


def build(kind, first, n, label='v', shift=0, losses=None, form='dict'):
    """A series, with its plain values and the wall clock times of its items and of the ones after."""
    what, step, start, tz = KINDS[kind]
    ts = instants(kind, first + n + 12)
    values = [VALUES[(i + shift) % len(VALUES)] for i in range(first, first + n)]
    if what == 'points':
        s = points(ts[first:first + n], values, labels=(label,), tz=tz, losses=losses, kind=form)
    else:
        s = slots(ts[first], step, values, labels=(label,), tz=tz, losses=losses, kind=form)
    return s, [float(v) for v in values], [wall(t, tz or 'UTC') for t in ts[first:]], ts[first:]


def plain(data):
    return {k: float(v) for k, v in data.items()}


def fitted(ctx, model, s, values, walls, where):
    del LOG[:]
    before = snap(s)
    got = outcome_of(model.fit, s)
    ctx.step()
    expected = list(zip(walls, values))
    fits = [e[1] for e in LOG if e[0] == 'fit']
    ok = ctx.check(got[0] == 'ok' and fits == [expected], 'fit', lambda: '{}: fit on {} instead of {} ({})'.format(where(), fits, expected, got))
    ctx.check(snap(s) == before, 'source', lambda: '{}: changed the series'.format(where()))
    ctx.outcome(str(expected))
    return expected if ok else None


def single(kind, n):
    # A point on its own has no resolution
    return n < 2 and KINDS[kind][0] == 'points'


def forecasts(ctx, kind, first, n, steps):
    for size in range(2, n + 1):
        for label in ('v', 'yhat') if size == 3 else ('v',):
            # What is given to the models does not depend on the data losses
            s, values, walls, ts = build(kind, first, size, label, losses=[(None, 1, 0.5)[(i + size) % 3] for i in range(size)] if size % 2 else None)
            where = lambda: 'Prophet forecaster on {} items of {} from {}'.format(size, kind, first)
            model = ProphetForecaster()
            history = fitted(ctx, model, s, values, walls, where)
            if history is None:
                continue
            ctx.state((kind, first, size, label))
            for later, length in ((0, size), (1, size), (3, 2), (6, 1), (0, 1)):
                if single(kind, length):
                    continue
                z, zv, zw, zt = build(kind, first + later, length, label, shift=later)
                before = snap(z)
                for k in range(1, steps + 1):
                    at = lambda: '{}, {} steps after {} items from {}'.format(where(), k, length, first + later)
                    expected = [{label: yhat(d, history)} for d in zw[length:length + k]]
                    del LOG[:]
                    got = outcome_of(model.predict, z, steps=k)
                    ctx.step()
                    asked = [e[1] for e in LOG if e[0] == 'predict']
                    ctx.check(sorted(sum(asked, [])) == sorted(zw[length:length + k]), 'times', lambda: '{}: Prophet is asked for {} instead of {}'.format(at(), asked, zw[length:length + k]))
                    ctx.check(got[0] == 'ok' and listed(got[1]) == listed(expected), 'predict', lambda: '{}: {} instead of {}'.format(at(), got, expected))
                    got = outcome_of(model.forecast, z, steps=k)
                    ctx.step()
                    if ctx.check(got[0] == 'ok', 'forecast', lambda: '{}: {}'.format(at(), got)):
                        items = got[1] if isinstance(got[1], list) else [got[1]]
                        ok = [i.t for i in items] == zt[length:length + k] and listed([i.data for i in items]) == listed(expected) and [wall(i.t, str(i.tz)) for i in items] == zw[length:length + k]
                        ctx.check(ok, 'forecast', lambda: '{}: forecast {} instead of {} at {}'.format(at(), items, expected, zw[length:length + k]))
                    got = outcome_of(model.apply, z, steps=k)
                    ctx.step()
                    if ctx.check(got[0] == 'ok', 'apply', lambda: '{}: {}'.format(at(), got)):
                        items = list(got[1])
                        ok = [i.t for i in items] == zt[:length + k] and listed([i.data for i in items[length:]]) == listed(expected) and listed([i.data for i in items[:length]]) == listed([{label: v} for v in zv])
                        ctx.check(ok, 'apply', lambda: '{}: applied {} instead of {} at {}'.format(at(), items, expected, zw[length:length + k]))
                    ctx.check(snap(z) == before, 'source', lambda: '{}: changed the series'.format(at()))
                    ctx.outcome(str(expected))
                    ctx.ok()
                if length < 2:
                    continue
                # On a part of it
                view = z.view(0, length - 1)
                if not single(kind, length - 1):
                    expected = [{label: yhat(zw[length - 1], history)}]
                    got = outcome_of(model.predict, view, steps=1)
                    ctx.step()
                    ctx.check(got[0] == 'ok' and listed(got[1]) == listed(expected), 'view', lambda: '{}, on a view: {} instead of {}'.format(where(), got, expected))
                # Each item from the ones before
                got = outcome_of(model.evaluate, z, error_metrics=['MAE', 'MSE'])
                ctx.step()
                errors = [abs(yhat(zw[i], history) - zv[i]) for i in range(1, length)]
                choices = [errors] + [[abs(yhat(zw[i], history) - zv[0])] + errors for i in (0, length)]
                ok = got[0] == 'ok' and any(close(float(got[1][label + '_MAE']), sum(e) / len(e)) and close(float(got[1][label + '_MSE']), sum(x ** 2 for x in e) / len(e)) for e in choices)
                ctx.check(ok, 'evaluate', lambda: '{}: evaluating {} items from {}, {} with errors {}'.format(where(), length, first + later, got, choices))
            # Other series are refused
            two = points([0, 60, 120], [(1, 2), (3, 4), (5, 6)], labels=('v', 'w'))
            other = build('minutes' if kind != 'minutes' else 'hours', 0, 3, label)[0]
            renamed = build(kind, first, 3, label + '2')[0]
            for name, z in (('of two labels', two), ('of another resolution', other), ('of another label', renamed)):
                got = outcome_of(model.predict, z, steps=1)
                ctx.step()
                ctx.check(got[0] == 'err', 'refused', lambda: '{}: predicting on a series {}: {}'.format(where(), name, got))
            got = outcome_of(ProphetForecaster().fit, two)
            ctx.check(got[0] == 'err', 'refused', lambda: 'fitting on two labels: {}'.format(got))


def listed(data):
    return [tuple(sorted((k, round(float(v), 7)) for k, v in d.items())) for d in (data if isinstance(data, list) else [data])]


def reconstructions(ctx, kind, first, n):
    s, values, walls, ts = build(kind, first, n, shift=2, losses=[(None, 0.5, 1)[(i + first) % 3] for i in range(n)])
    where = lambda: 'Prophet reconstructor on {} items of {} from {}'.format(n, kind, first)
    model = ProphetReconstructor()
    history = fitted(ctx, model, s, values, walls, where)
    if history is None:
        return
    ctx.state((kind, first, n))
    expected = [yhat(d, history) for d in walls[:n]]
    for a in range(n):
        for b in range(a, n):
            got = outcome_of(model.predict, s, from_i=a, to_i=b)
            ctx.step()
            ok = got[0] == 'ok' and set(got[1]) == {'v'} and close([float(v) for v in got[1]['v']], expected[a:b + 1])
            ctx.check(ok, 'range', lambda: '{}: items from {} to {} predicted as {} instead of {}'.format(where(), a, b, got, expected[a:b + 1]))
    for pattern in itertools.product((0, 1), repeat=n):
        losses = [(0.25, 1)[p] for p in pattern]
        z, zv, zw, zt = build(kind, first, n, losses=losses)
        before = snap(z)
        got = outcome_of(model.apply, z)
        ctx.step()
        if not ctx.check(got[0] == 'ok', 'apply', lambda: '{} with losses {}: {}'.format(where(), losses, got)):
            continue
        want = [expected[i] if pattern[i] else zv[i] for i in range(n)]
        out = list(got[1])
        ok = [i.t for i in out] == zt[:n] and close([float(i.data['v']) for i in out], want)
        ctx.check(ok, 'apply', lambda: '{} with losses {}: reconstructed {} instead of {}'.format(where(), losses, out, want))
        ctx.check(snap(z) == before, 'source', lambda: '{}: changed the series'.format(where()))
        ctx.outcome(str(want))
        ctx.ok()


MAKE = {'ARIMA': lambda: ARIMAForecaster(p=2, d=1, q=3), 'AARIMA': AARIMAForecaster, 'default': ARIMAForecaster}
ORDER = {'ARIMA': (2, 1, 3), 'AARIMA': (), 'default': (1, 1, 0)}


def arima(ctx, kind, first, n, steps):
    for name in MAKE:
        for size in range(2, n + 1):
            s, values, walls, ts = build(kind, first, size, losses=[(None, 1, 0.5)[(i + size) % 3] for i in range(size)] if size % 2 else None)
            where = lambda: '{} forecaster on {} items of {} from {}'.format(name, size, kind, first)
            model = MAKE[name]()
            before = snap(s)
            del LOG[:]
            kw = dict(max_p=2, stepwise=False) if name == 'AARIMA' and size % 2 else {}
            got = outcome_of(model.fit, s, **kw)
            ctx.step()
            fits = [(e[1], e[2]) for e in LOG]
            ok = got[0] == 'ok' and len(fits) == 1 and fits[0][0] == values and (fits[0][1] == ORDER[name] if name != 'AARIMA' else all(fits[0][1].get(k) == v for k, v in kw.items()))
            if not ctx.check(ok, 'fit', lambda: '{}: fit on {} instead of {} ({})'.format(where(), fits, values, got)):
                continue
            ctx.check(snap(s) == before, 'source', lambda: '{}: changed the series'.format(where()))
            ctx.state((name, kind, first, size))
            ctx.outcome(str(fits))
            every = [{'v': ahead(values, ORDER[name], k)} for k in range(steps)]
            # Only right after the data it has been fit on, of which only the end matters
            for back in range(size):
                if single(kind, size - back):
                    continue
                z, zv, zw, zt = build(kind, first + back, size - back, shift=back)
                for k in range(1, steps + 1):
                    at = lambda: '{}, {} steps after {} items'.format(where(), k, size - back)
                    got = outcome_of(model.predict, z, steps=k)
                    ctx.check(got[0] == 'ok' and listed(got[1]) == listed(every[:k]), 'predict', lambda: '{}: {} instead of {}'.format(at(), got, every[:k]))
                    got = outcome_of(model.apply, z, steps=k)
                    ctx.step(2)
                    if ctx.check(got[0] == 'ok', 'apply', lambda: '{}: {}'.format(at(), got)):
                        items = list(got[1])
                        ok = [i.t for i in items] == zt[:size - back + k] and listed([i.data for i in items]) == listed([{'v': v} for v in zv] + every[:k])
                        ctx.check(ok, 'apply', lambda: '{}: applied {} instead of {}'.format(at(), items, every[:k]))
                    ctx.ok()
            for shift, length in [(d, size) for d in (-2, -1, 1, 2) if first + d >= 0] + [(0, size - 1), (0, size + 1)]:
                if single(kind, length) or length < 1:
                    continue
                z = build(kind, first + shift, length)[0]
                for act in ('predict', 'forecast', 'apply'):
                    got = outcome_of(getattr(model, act), z, steps=2)
                    ctx.step()
                    ctx.check(got[0] == 'err' and got[1] == 'NonContiguityError', 'contiguity', lambda: '{}: {} on {} items from {}: {}'.format(where(), act, length, first + shift, got))
            # Also if the fit series itself grows
            grown = build(kind, first, size + 1)[0]
            s.append(grown[-1])
            got = outcome_of(model.predict, s, steps=1)
            ctx.step()
            ctx.check(got[0] == 'err' and got[1] == 'NonContiguityError', 'contiguity', lambda: '{}: on the same series with one more item: {}'.format(where(), got))
            two = points([0, 60, 120], [(1, 2), (3, 4), (5, 6)], labels=('v', 'w'))
            got = outcome_of(MAKE[name]().fit, two)
            ctx.step()
            ctx.check(got[0] == 'err', 'refused', lambda: '{} fitting on two labels: {}'.format(name, got))


def refits(ctx, kind):
    """Fitting again starts from scratch, and a fit which fails leaves the model as it was."""
    makers = dict(MAKE, Prophet=ProphetForecaster, reconstructor=ProphetReconstructor)
    for name, make in makers.items():
        for size in (2, 3, 5):
            for first, label in ((3, 'v'), (0, 'w'), (1, 'v')):
                for broken in (False, True, False):
                    a, av, aw, at = build(kind, 0, 4, 'v')
                    b, bv, bw, bt = build(kind, first, size, label, shift=3)
                    where = lambda: '{} model of {}, fit again on {} items from {}'.format(name, kind, size, first)
                    model = make()
                    got = outcome_of(model.fit, a)
                    if broken:
                        BROKEN.append(1)
                    again = outcome_of(model.fit, b)
                    del BROKEN[:]
                    ctx.step(2)
                    ctx.check(got[0] == 'ok' and again[0] == ('err' if broken else 'ok'), 'refit', lambda: '{}: {} and {}'.format(where(), got, again))
                    s, v, w, n, l = (a, av, aw, 4, 'v') if broken else (b, bv, bw, size, label)
                    history = list(zip(w, v))
                    if name == 'reconstructor':
                        got = outcome_of(model.predict, s, from_i=0, to_i=n - 1)
                        got = (got[0], [{l: x} for x in got[1].get(l, ())]) if got[0] == 'ok' else got
                        expected = [{l: yhat(d, history)} for d in w[:n]]
                    else:
                        got = outcome_of(model.predict, s, steps=2)
                        expected = [{l: yhat(d, history) if name == 'Prophet' else ahead(v, ORDER[name], k)} for k, d in enumerate(w[n:n + 2])]
                    ctx.step()
                    ctx.check(got[0] == 'ok' and listed(got[1]) == listed(expected), 'refit', lambda: '{} ({}): {} instead of {}'.format(where(), 'failing' if broken else 'fine', got, expected))
                    if l != 'v' or broken and label != 'v':
                        got = outcome_of(model.predict, a if not broken else b, **(dict(from_i=0, to_i=1) if name == 'reconstructor' else dict(steps=1)))
                        ctx.check(got[0] == 'err', 'refit', lambda: '{}: on the other series {}'.format(where(), got))
                    ctx.state((name, kind, size, first, label, broken))
                    ctx.ok()
    for name, make in makers.items():
        BROKEN.append(1)
        model = make()
        s = build(kind, 0, 4)[0]
        got = outcome_of(model.fit, s)
        del BROKEN[:]
        then = outcome_of(model.predict, s, **(dict(from_i=0, to_i=1) if name == 'reconstructor' else dict(steps=1)))
        ctx.step(2)
        ctx.check(got[0] == 'err' and then[0] == 'err' and then[1] == 'NotFittedError' and not model.fitted, 'broken', lambda: '{} model of {}: once failed fitting ({}), predicts {}'.format(name, kind, got, then))


def actual(ctx, kind, model):
    """The actual libraries, used directly on the plain values."""
    n = 40
    what, step, start, tz = KINDS[kind]
    ts = instants(kind, n + 12)
    values = [(i * i * 7) % 11 + i / 5 for i in range(n)]
    series = lambda a, b: points(ts[a:b], values[a:b], labels=('v',), tz=tz) if what == 'points' else slots(ts[a], step, values[a:b], labels=('v',), tz=tz)
    walls = [wall(t, tz or 'UTC') for t in ts]
    where = lambda: 'actual {} on {}'.format(model, kind)
    ctx.state((kind, model))
    if model == 'Prophet':
        import prophet
        # Ending before, in the middle and after the change of offset
        for end in (6, 10, 25):
            direct = prophet.Prophet()
            direct.fit(pandas.DataFrame({'ds': walls[:end], 'y': values[:end]}))
            forecaster, reconstructor = ProphetForecaster(), ProphetReconstructor()
            forecaster.fit(series(0, end))
            reconstructor.fit(series(0, end))
            one = {d: float(direct.predict(pandas.DataFrame({'ds': [d]}))['yhat'][0]) for d in set(walls[:end + 10])}
            got = outcome_of(forecaster.predict, series(0, end), steps=10)
            expected = [{'v': one[d]} for d in walls[end:end + 10]]
            ctx.check(got[0] == 'ok' and close([plain(d) for d in got[1]], expected, 1e-6, 1e-6), 'actual', lambda: '{}: {} instead of {}'.format(where(), got, expected))
            got = outcome_of(reconstructor.predict, series(0, end), from_i=1, to_i=end - 1)
            expected = [one[d] for d in walls[1:end]]
            ctx.check(got[0] == 'ok' and close([float(v) for v in got[1]['v']], expected, 1e-6, 1e-6), 'actual', lambda: '{}: {} instead of {}'.format(where(), got, expected))
            ctx.step(2)
            # What the recording one assumes
            mixed = walls[2:end:2] + walls[1:end:2]
            out = direct.predict(pandas.DataFrame({'ds': mixed}))
            ctx.check([d.to_pydatetime() for d in out['ds']] == sorted(mixed) and list(out.index) == list(range(len(mixed))), 'assumed', lambda: '{}: predictions at {} for {}'.format(where(), list(out['ds']), mixed))
            ctx.outcome(str(expected))
            ctx.ok()
        return
    for order in ((1, 0, 0), (1, 1, 0), (0, 1, 1), (2, 0, 1)) if model == 'ARIMA' else (None,):
        s = series(0, n)
        if model == 'ARIMA':
            from statsmodels.tsa.arima.model import ARIMA
            expected = [float(v) for v in ARIMA(numpy.array(values), order=order).fit().forecast(4)]
            m = ARIMAForecaster(*order)
            m.fit(s)
        else:
            import pmdarima
            expected = [float(v) for v in pmdarima.auto_arima(numpy.array(values), error_action='ignore', suppress_warnings=True, start_p=0, start_q=0, max_p=1, max_q=1, d=0).predict(4)]
            m = AARIMAForecaster()
            m.fit(s, start_p=0, start_q=0, max_p=1, max_q=1, d=0)
        got = outcome_of(m.apply, s, steps=4)
        ctx.step()
        ok = got[0] == 'ok' and [i.t for i in got[1]] == ts[:n + 4] and close([float(i.data['v']) for i in list(got[1])[n:]], expected, 1e-6, 1e-6)
        ctx.check(ok, 'actual', lambda: '{} {}: {} instead of {}'.format(where(), order, got if got[0] == 'err' else list(got[1])[n:], expected))
        ctx.outcome(str(expected))
        ctx.ok()
