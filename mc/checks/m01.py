"""M01: models refuse to be used out of order or on the wrong series."""
import itertools
import logging
import warnings
from mc.lib import *
from mc.checks.m02 import Scaled, Filler, Preset, rows, plain, show
from timeseria.models.base import Model
from timeseria.models.forecasters import Forecaster, PeriodicAverageForecaster, ProphetForecaster, AARIMAForecaster
from timeseria.models.reconstructors import Reconstructor, PeriodicAverageReconstructor, LinearInterpolationReconstructor, ProphetReconstructor
from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector, PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector

PROPERTY = 'M01'
LEVEL = 'model_checking'
RULE = ('every sequence, up to a depth, of good, wrong and failing fits, cross validations and uses on matching and mismatching series for every model, against a machine whose state is what the model was last fit on: uses allowed by the state give what a new model fit on the same gives, '
        'the others are refused changing nothing. A non-trivial outcome is a distinct (model, state, operation, result)')
ASSUMPTIONS = ['TensorFlow is not available, LSTM models are not covered', 'single points have no resolution and are refused']
BOUNDS = {'quick': 'histories of 4 operations for two models, 3 for the others (2 for ARIMA and Prophet) over 8, then 12 series for each operation of the model; 7 models fit on each of 84 combinations of resolution and labels, then used on all of them', 'thorough': 'histories of 5 operations (4 for detectors, 3 for ARIMA and Prophet) over 8, then 12 series for each operation of the model; 7 models fit on each of 112 combinations of resolution and labels, then used on all of them'}
CHUNK = 1
TIMEOUT = 800
ROME = 'Europe/Rome'

warnings.simplefilter('ignore')


class Nothing(Model):
    """Implements only the predict."""

    @Model.predict_function
    def predict(self, series):
        return sum(i.data[l] for i in series for l in series.data_labels())


class Shape(Model):
    """Implements only fit and apply."""

    @Model.fit_function
    def fit(self, series, fail=False, verbose=False):
        self.data['n'] = len(series)
        self.last = series[-1].data
        if fail:
            raise RuntimeError('failing')

    @Model.apply_function
    def apply(self, series):
        out = series.duplicate()
        for item in out:
            item.data_indexes['n'] = self.data['n']
        return out


# Factory, good fit arguments, failing fit arguments (if any)
MODELS = {
    'PeriodicAverageForecaster': (PeriodicAverageForecaster, dict(periodicity=3), dict(periodicity='x')),
    'PeriodicAverageForecaster2': (lambda: PeriodicAverageForecaster(window=2), dict(periodicity=4), dict(periodicity=0)),
    'PeriodicAverageReconstructor': (PeriodicAverageReconstructor, dict(periodicity=3), dict(periodicity=3, offset_method='x')),
    'PeriodicAverageAnomalyDetector': (PeriodicAverageAnomalyDetector, dict(periodicity=3, error_metric='E', error_distribution='norm'), dict(periodicity=3, error_metric='x')),
    'PeriodicAverageReconstructorAnomalyDetector': (PeriodicAverageReconstructorAnomalyDetector, dict(periodicity=3, error_metric='AE', error_distribution='norm'), dict(periodicity=3, error_distribution='x')),
    'Detector:Scaled': (lambda: ModelBasedAnomalyDetector(model_class=Scaled), dict(error_metric='E', error_distribution='norm'), dict(unknown=3)),
    'Detector:Filler': (lambda: ModelBasedAnomalyDetector(model_class=Filler), dict(error_metric='PE', error_distribution='norm'), dict(with_context=True)),
    'Scaled': (Scaled, {}, dict(unknown=3)),
    'Filler': (Filler, {}, dict(unknown=3)),
    'Shape': (Shape, {}, dict(fail=True)),
    'Preset': (Preset, None, None),
    'Nothing': (Nothing, None, None),
    'Linear': (LinearInterpolationReconstructor, None, None),
    'AARIMA': (AARIMAForecaster, dict(start_p=0, start_q=0, max_p=1, max_q=1, max_d=1, seasonal=False), dict(start_p=3, max_p=1)),
    'ProphetForecaster': (ProphetForecaster, {}, dict(unknown=3)),
    'ProphetReconstructor': (ProphetReconstructor, {}, dict(unknown=3)),
}
SLOW = ('AARIMA', 'ProphetForecaster', 'ProphetReconstructor')
OPS = ['fit A', 'fit B', 'fit A failing', 'fit wrong', 'use A', 'use B', 'use wrong', 'cross validate']
DETECTOR = ('PeriodicAverageAnomalyDetector', 'PeriodicAverageReconstructorAnomalyDetector', 'Detector:Scaled', 'Detector:Filler')


def cases(tier):
    for name in MODELS:
        depth = 4 if tier == 'quick' else 5
        if name in SLOW or name in DETECTOR or (tier == 'quick' and name not in ('PeriodicAverageForecaster', 'Shape')):
            depth -= 1
        if name in SLOW:
            depth -= 1
        if MODELS[name][1] is None:
            depth = 2
        for first in range(len(OPS)):
            for second in range(len(OPS)) if depth > 2 else (None,):
                yield dict(part='histories', name=name, first=first, second=second, depth=depth)
        yield dict(part='supported', name=name)
    yield dict(part='extended')
    for name in ('PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'PeriodicAverageAnomalyDetector', 'Scaled', 'Filler', 'Shape', 'Detector:Scaled'):
        for n in range(len(SHAPES)):
            yield dict(part='mismatch', name=name, n=n)


SERIES = {}


def series_for(what):
    """New series for a name."""
    vals = rows(16, ('a',), 0)
    if what == 'A':
        return points([60 * i + 1554000000 for i in range(16)], vals, labels=('a',))
    if what == 'A2':
        return points([60 * i + 1554000000 + 60 * 8 for i in range(8)], rows(8, ('a',), 4), labels=('a',), tz=ROME)
    if what == 'B':
        return slots(epoch(2019, 3, 30, 18, tz=ROME), '1h', rows(16, ('z',), 2), labels=('z',), tz=ROME)
    if what == 'B2':
        return slots(epoch(2019, 3, 31, 2, tz='UTC'), '1h', rows(9, ('z',), 5), labels=('z',))
    if what == 'A labels':
        return points([60 * i for i in range(9)], rows(9, ('a', 'b')), labels=('a', 'b'))
    if what == 'A label':
        return points([60 * i for i in range(9)], rows(9, ('A',)), labels=('A',))
    if what == 'A resolution':
        return points([61 * i for i in range(9)], rows(9, ('a',)), labels=('a',))
    if what == 'B resolution':
        return slots(epoch(2019, 3, 30, 18, tz=ROME), '2h', rows(9, ('z',)), labels=('z',), tz=ROME)
    if what == 'B label':
        return slots(epoch(2019, 3, 30, 18, tz=ROME), '1h', rows(9, ('a',)), labels=('a',), tz=ROME)
    if what == 'variable':
        return points([60 * i + (7 if i > 4 else 0) for i in range(9)], rows(9, ('a',)), labels=('a',))
    if what == 'empty':
        return TimeSeries()
    if what == 'single':
        return points([60], [3])
    if what == 'series':
        return Series(*[DataPoint(i, data={'a': i + 1}) for i in range(9)])
    if what == 'list':
        return [1, 2, 3]
    if what == 'none':
        return None
    raise ValueError(what)


WRONG = ['A labels', 'A label', 'A resolution', 'B resolution', 'B label', 'variable', 'empty', 'single', 'series', 'list', 'none']
ANYWAY = ['variable', 'empty', 'series', 'list', 'none']


def picture(series):
    return snap(series) if isinstance(series, Series) else repr(series)


def uses(model):
    if isinstance(model, Forecaster):
        return [('predict', {}), ('predict', dict(steps=2)), ('forecast', {}), ('apply', {}), ('apply', dict(inplace=True)), ('evaluate', dict(error_metrics=['MAE']))]
    if isinstance(model, Reconstructor):
        return [('predict', dict(from_i=2, to_i=3)), ('apply', {}), ('apply', dict(inplace=True)), ('evaluate', dict(steps=1))]
    return [('predict', {}), ('apply', {}), ('evaluate', {})]


def result(model, op, kw, series):
    got = outcome_of(getattr(model, op), series, **kw)
    if got[0] == 'ok' and kw.get('inplace'):
        return ('ok', picture(series))
    return show(got)


NEW = {}


def references(name):
    """What a new model fit on each series gives, for each operation."""
    if name not in NEW:
        create, good, _ = MODELS[name]
        out = {}
        for state in ('A', 'B') if good is not None else ('none',):
            model = create()
            if good is not None:
                model.fit(series_for(state), **good)
            for number, (op, kw) in enumerate(uses(model)):
                for what in ('A', 'A2', 'B', 'B2'):
                    out[(state, number, what)] = result(model, op, kw, series_for(what))
        NEW[name] = out
    return NEW[name]


def state_of(model):
    return plain({k: v for k, v in model.data.items() if k not in ('fitted_at',)}) + str(model.fitted) + str(sorted(k for k in vars(model)))


def use(ctx, name, model, state, what, where, refs):
    """Use a model with all of its operations on a series, and check against the state."""
    for number, (op, kw) in enumerate(uses(model)):
        series = series_for(what)
        before, was = picture(series), state_of(model)
        got = result(model, op, kw, series)
        ctx.step()
        free = MODELS[name][1] is None
        if free:
            expected = refs[('none', number, what)] if what in ('A', 'A2', 'B', 'B2') else None
            refused = what in ANYWAY
        else:
            expected = refs.get((state, number, what)) if state and what[0] == state else None
            refused = expected is None
        if refused:
            ctx.check(got[0] == 'err', 'accepted', lambda: '{}: {}({}) on {} accepted in state {}: {}'.format(where, op, kw, what, state, got))
            if state is None and not free and what in ('A', 'A2', 'B', 'B2') and got[1] != 'NotImplementedError':
                ctx.check(got[1] == 'NotFittedError', 'not fitted', lambda: '{}: {}({}) on {} refused with {}'.format(where, op, kw, what, got))
        elif expected is not None:
            ctx.check(got == expected, 'result', lambda: '{}: {}({}) on {} in state {} is {} instead of {}'.format(where, op, kw, what, state, got, expected))
        if not (kw.get('inplace') and got[0] == 'ok'):
            ctx.check(picture(series) == before, 'series', lambda: '{}: {}({}) changed series {}'.format(where, op, kw, what))
        ctx.check(state_of(model) == was or name == 'Linear', 'model', lambda: '{}: {}({}) on {} changed the model from {} to {}'.format(where, op, kw, what, was, state_of(model)))
        ctx.outcome((name, state, op, what, got[0], got[1] if got[0] == 'err' else None))
        ctx.ok()


UNSUPPORTED = {n: ('predict', 'evaluate') for n in DETECTOR}
UNSUPPORTED.update(Shape=('predict', 'evaluate'), Nothing=('apply', 'evaluate'), AARIMA=('evaluate',))


def run_supported(ctx, case):
    """What a model implements works on the series it was fit on, and on others alike."""
    name = case['name']
    for (state, number, what), got in references(name).items():
        op = uses(MODELS[name][0]())[number][0]
        ctx.step()
        ctx.state((name, state, number, what))
        if state != 'none' and what[0] != state:
            continue
        if op in UNSUPPORTED.get(name, ()) or (name == 'AARIMA' and what == 'B2'):
            ctx.check(got[0] == 'err', 'supported', lambda: '{} on {}: {} gives {}'.format(name, what, op, got))
        else:
            ctx.check(got[0] == 'ok', 'supported', lambda: '{} fit on {}: {} on {} refused with {}'.format(name, state, op, what, got))
        ctx.ok()


def run(ctx, case):
    logging.disable(logging.CRITICAL)
    globals()['run_' + case['part']](ctx, case)


def run_histories(ctx, case):
    name, depth = case['name'], case['depth']
    create, good, failing = MODELS[name]
    refs = references(name)
    head = (case['first'],) if case['second'] is None else (case['first'], case['second'])
    for rest in itertools.product(range(len(OPS)), repeat=depth - len(head)):
        history = head + rest
        model, state = create(), None if good is not None else 'none'
        for step, h in enumerate(history):
            op = OPS[h]
            where = '{}: {} (at {})'.format(name, [OPS[x] for x in history[:step + 1]], step)
            last = step == len(history) - 1
            was = state_of(model)
            if op.startswith('fit'):
                what = op.split()[1]
                for wrong in WRONG[5:] if what == 'wrong' else (what,):
                    if wrong == 'single':
                        continue
                    series = series_for(wrong)
                    before = picture(series)
                    got = outcome_of(model.fit, series, **((failing if op.endswith('failing') else good) or {}))
                    ctx.step()
                    ctx.check(picture(series) == before, 'series', lambda: '{}: the series changed'.format(where))
                    if good is None or what == 'wrong' or op.endswith('failing'):
                        ctx.check(got[0] == 'err', 'accepted', lambda: '{}: accepted ({})'.format(where, wrong))
                        ctx.check(state_of(model) == was, 'model', lambda: '{}: ({}) the refused fit changed the model from {} to {}'.format(where, wrong, was, state_of(model)))
                    else:
                        ctx.check(got[0] == 'ok', 'refused', lambda: '{}: {}'.format(where, got))
                        state = what
            elif op == 'cross validate':
                series = series_for('A')
                before = picture(series)
                got = outcome_of(model.cross_validate, series, rounds=2, **{'fit_' + k: v for k, v in (good or {}).items()})
                ctx.step()
                ctx.check(picture(series) == before, 'series', lambda: '{}: the series changed'.format(where))
                if good is None or state is not None:
                    ctx.check(got[0] == 'err' and state_of(model) == was, 'cross validation', lambda: '{}: in state {}, {}'.format(where, state, got))
                elif name in ('Scaled', 'PeriodicAverageForecaster', 'PeriodicAverageReconstructor'):
                    ctx.check(got[0] == 'ok', 'cross validation', lambda: '{}: {}'.format(where, got))
            elif op == 'use wrong':
                for what in WRONG if last else WRONG[:2]:
                    use(ctx, name, model, state, what, where, refs)
            else:
                use(ctx, name, model, state, op.split()[1], where, refs)
            if last:
                for what in ('A2', 'B2'):
                    use(ctx, name, model, state, what, where, refs)
            ctx.state((name, state, step, h))


# Spacings of points and units of slots, each with several sets of data labels
SHAPES = [(r, l) for r in (0.5, 1, 1.5, 60, 60.5, '1m', '1h', '24h', '1D', '1W', '1M', '3M', '1Y')
          for l in (('a',), ('b',), ('a', 'b'), ('a', 'c'), ('b', 'c'), ('a', 'b', 'c'), ('ab',))]


def shaped(resolution, labels):
    values = rows(9, labels, 1)
    if isinstance(resolution, str):
        return slots(epoch(2019, 1, 7 if resolution == '1W' else 1), resolution, values, labels=labels)
    return points([resolution * i for i in range(9)], values, labels=labels)


def seconds(resolution):
    return {'1m': 60, '60m': 3600, '1h': 3600, '24h': 86400}.get(resolution, resolution)


def run_mismatch(ctx, case):
    """A fit model is used only with the same resolution and data labels."""
    name, (resolution, labels) = case['name'], SHAPES[case['n']]
    create, good, _ = MODELS[name]
    model = create()
    fit = outcome_of(model.fit, shaped(resolution, labels), **good)
    ctx.step()
    if fit[0] == 'err':
        # Not all of the models support more labels
        ctx.check(len(labels) > 1, 'mismatch-fit', lambda: '{} on {} {}: {}'.format(name, resolution, labels, fit))
        return
    for other, others in SHAPES:
        same = seconds(other) == seconds(resolution) and others == labels
        for op, kw in uses(model):
            if op in UNSUPPORTED.get(name, ()):
                continue
            series = shaped(other, others)
            got = outcome_of(getattr(model, op), series, **kw)
            ctx.step()
            ctx.state((name, case['n'], other, others, op))
            ctx.outcome((name, op, same, got[0]))
            if not same:
                # Slots and points with the same resolution and slots of one day and points every day are on the edge
                edge = others == labels and {other, resolution} in ({'1D', '24h'},)
                ctx.check(got[0] == 'err' or edge, 'mismatch-accepted', lambda: '{} fit on {} {}: {}({}) on {} {} accepted'.format(name, resolution, labels, op, kw, other, others))
                ctx.check(picture(series) == picture(shaped(other, others)), 'mismatch-changed', lambda: '{}: {}({}) changed the series'.format(name, op, kw))
            elif other == resolution:
                ctx.check(got[0] == 'ok' or got[1] == 'NotImplementedError', 'mismatch-refused', lambda: '{} fit on {} {}: {}({}) on the same gives {}'.format(name, resolution, labels, op, kw, got))
            ctx.ok()


def run_extended(ctx, case):
    """ARIMA models forecast only after the end of what they were fit on, also if it is extended afterwards."""
    for n in (14, 16):
        for steps in (1, 2):
            for how in ('append', 'inplace', 'other', 'shorter'):
                model = AARIMAForecaster()
                full = series_for('A')
                series = full[0:n - 2]
                model.fit(series, **MODELS['AARIMA'][1])
                good = outcome_of(model.predict, series, steps=steps)
                ctx.check(good[0] == 'ok', 'arima', lambda: 'cannot predict on the series of the fit: {}'.format(good))
                if how == 'append':
                    series.append(full[n - 2])
                    target = series
                elif how == 'inplace':
                    got = outcome_of(model.apply, series, steps=steps, inplace=True)
                    ctx.check(got[0] == 'ok', 'arima', lambda: 'cannot apply in place on the series of the fit: {}'.format(got))
                    target = series
                elif how == 'other':
                    target = full[0:n - 1]
                else:
                    target = full[0:n - 3]
                for op in ('predict', 'forecast', 'apply'):
                    got = outcome_of(getattr(model, op), target, steps=steps)
                    ctx.step()
                    ctx.check(got[0] == 'err', 'arima', lambda: 'ARIMA fit on {} items accepts to {} ({} steps) on a series not ending as the one of the fit any more ({}): {}'.format(n - 2, op, steps, how, show(got)))
                    ctx.ok()
                    ctx.outcome((n, steps, how, op, got[0]))
                ctx.state((n, steps, how))
