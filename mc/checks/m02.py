"""M02: a saved and loaded model is the same model."""
import builtins
import itertools
import json
import os
import shutil
import tempfile
import warnings
import pandas as pd
from mc.lib import *
from timeseria.models.base import Model
from timeseria.models.forecasters import Forecaster, PeriodicAverageForecaster, ProphetForecaster, ARIMAForecaster, AARIMAForecaster
from timeseria.models.reconstructors import Reconstructor, PeriodicAverageReconstructor, LinearInterpolationReconstructor, ProphetReconstructor
from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector, PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector

PROPERTY = 'M02'
LEVEL = 'model_checking'
RULE = ('(models) every model which can be saved (periodic average ones, anomaly detectors also on custom models and with context, custom parametric models with and without a fit), with every combination of its parameters, fit on points and slots of several '
        'resolutions, time zones and origins (also from data frames of each type): the loaded model, and the one loaded from a second save, behave as the original on every probe series for every operation; '
        '(histories) every sequence of fits on two series, saves on two paths and loads from them up to a depth, against a reference machine; (faults) a failure of each file operation of a save, one at a time. '
        'A non-trivial outcome is a distinct set of results of the probes')
ASSUMPTIONS = ['Prophet and ARIMA models cannot be saved (they are refused)', 'generic anomaly detectors are loaded giving their model class', 'TensorFlow is not available, LSTM models are not covered', 'only the last operation of the file system fails in faults']
BOUNDS = {'quick': 'all parameter combinations on 8 sources and 7 probes, histories up to 4 operations', 'thorough': 'all parameter combinations on 14 sources and 7 probes, histories up to 6 operations'}
CHUNK = 1
ROME = 'Europe/Rome'

warnings.simplefilter('ignore')


class Scaled(Forecaster):
    """Custom forecaster with parameters of several kinds."""
    window = 2

    @Forecaster.fit_function
    def fit(self, series, extra=None, target=None, with_context=False, verbose=False):
        labels = series.data_labels()
        self.data['means'] = {l: sum(i.data[l] for i in series) / len(series) for l in labels}
        self.data['extra'] = extra
        self.data['target'] = target
        if with_context:
            self.data['context_data_labels'] = [l for l in labels if l != target]

    @Forecaster.predict_function
    def predict(self, series, steps=1, context_data=None):
        out = []
        for k in range(steps):
            shift = sum(context_data[l] for l in self.data['context_data_labels']) if context_data else 0
            out.append({l: (self.data['means'][l] + series[-1].data[l] + series[-2].data[l]) / 3 + shift / 7 for l in ([self.data['target']] if self.data['target'] else self.data['data_labels'])})
        return out[0] if steps == 1 else out


class Filler(Reconstructor):
    window = 1

    @Reconstructor.fit_function
    def fit(self, series, verbose=False):
        self.data['high'] = {l: max(i.data[l] for i in series) for l in series.data_labels()}

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        return {l: [self.data['high'][l] / (k + 2) for k in range(from_i, to_i + 1)] for l in series.data_labels()}


class Preset(Forecaster):
    """Parameters set when created, nothing to fit."""
    window = 1

    def __init__(self, slope=2):
        self.data = {'slope': slope}
        super().__init__()

    @Forecaster.predict_function
    def predict(self, series, steps=1):
        return [{l: series[-1].data[l] + self.data['slope'] * (k + 1) for l in series.data_labels()} for k in range(steps)]


VALUES = [3, 5, 4, 6, 2.5, 5, 3, 7, 4, 3.5, 5, 4.25, 6, 2, 5, 4, 3, 5.5]


def rows(n, labels, k=0):
    return [tuple((VALUES[(i + k) % len(VALUES)] * (j + 1) + (i % (j + 2))) for j in range(len(labels))) for i in range(n)]


def frame(dtype, labels, n=18):
    index = pd.date_range('2019-03-30 20:00', periods=n, freq='1H', tz=ROME)
    data = {l: [r[j] for r in rows(n, labels)] for j, l in enumerate(labels)}
    return TimeSeries.from_df(pd.DataFrame(data, index=index).astype(dtype))


def source(name, labels, k=0, n=18, losses=None):
    if name.startswith('df-'):
        return frame(name[3:], labels, n)
    vals = rows(n, labels, k)
    if name == 'ints':
        vals = [tuple(int(v) for v in r) for r in vals]
    if name in ('minutes', 'ints'):
        return points([60 * i + 1000020 for i in range(n)], vals, labels=labels, losses=losses)
    if name == 'tenths':
        return points([round(0.1 * i, 1) for i in range(n)], vals, labels=labels, losses=losses)
    if name == 'before':
        return points([60 * i - 600 for i in range(n)], vals, labels=labels, losses=losses, tz='America/New_York')
    if name == 'hours':
        return slots(epoch(2019, 3, 30, 20, tz=ROME), '1h', vals, labels=labels, tz=ROME, losses=losses)
    if name == 'halves':
        return slots(epoch(2019, 3, 30, 20, tz=ROME), '30m', vals, labels=labels, tz=ROME, losses=losses)
    if name == 'days':
        return slots(epoch(2019, 3, 28, tz=ROME), '1D', vals, labels=labels, tz=ROME, losses=losses)
    if name == 'months':
        return slots(epoch(2018, 1, 1, tz=ROME), '1M', vals, labels=labels, tz=ROME, losses=losses)
    raise ValueError(name)


QUICK_SOURCES = ['minutes', 'ints', 'tenths', 'hours', 'days', 'df-int64', 'df-float64', 'df-float32']
SOURCES = QUICK_SOURCES + ['before', 'halves', 'months', 'df-int32', 'df-bool', 'df-int8']
LABELS = [('a',), ('b', 'a'), ('1', 'caffè "x"')]
# For the models with an inner model for each label
ALIKE = [('a b', 'a_b'), ('A', 'a'), ('m/s', 'm'), ('a', 'a '), ('a.b', 'a-b')]


def models():
    """Class, arguments and fit arguments, with the labels accepted."""
    for window in ('auto', 2, 4):
        for periodicity in (2, 3, 'auto'):
            for dst in (False, True):
                yield ('PeriodicAverageForecaster', dict(window=window), dict(periodicity=periodicity, dst_affected=dst, data_loss_limit=0.9))
    for periodicity in (2, 3, 'auto'):
        for dst in (False, True):
            for method in ('average', 'extremes'):
                yield ('PeriodicAverageReconstructor', {}, dict(periodicity=periodicity, dst_affected=dst, offset_method=method))
    for metric in ('E', 'AE', 'PE', 'APE'):
        for dist in ('norm', 'gennorm'):
            for store in (True, False):
                kw = dict(error_metric=metric, error_distribution=dist, store_errors=store)
                yield ('PeriodicAverageAnomalyDetector', {}, dict(kw, periodicity=3))
                yield ('PeriodicAverageReconstructorAnomalyDetector', {}, dict(kw, periodicity=3))
                yield ('Generic:Scaled', {}, dict(kw))
                yield ('Generic:Scaled', {}, dict(kw, with_context=True))
                yield ('Generic:Filler', {}, dict(kw))
    for extra in (None, 0, True, 0.1, 'x', [1, [2, None]], {'k': {'j': 1e-300}}, float('inf')):
        yield ('Scaled', {}, dict(extra=extra))
    yield ('Filler', {}, {})
    for slope in (2, 0.1, -3):
        yield ('Preset', dict(slope=slope), None)


CLASSES = dict(PeriodicAverageForecaster=PeriodicAverageForecaster, PeriodicAverageReconstructor=PeriodicAverageReconstructor, PeriodicAverageAnomalyDetector=PeriodicAverageAnomalyDetector,
               PeriodicAverageReconstructorAnomalyDetector=PeriodicAverageReconstructorAnomalyDetector, Scaled=Scaled, Filler=Filler, Preset=Preset)


def create(name, args):
    if name.startswith('Generic:'):
        return ModelBasedAnomalyDetector(model_class=CLASSES[name[8:]], **args)
    return CLASSES[name](**args)


def load(name, path):
    if name.startswith('Generic:'):
        return ModelBasedAnomalyDetector.load(path, model_class=CLASSES[name[8:]])
    return CLASSES[name].load(path)


def cases(tier):
    for i, _ in enumerate(models()):
        for labels in LABELS:
            yield dict(part='models', model=i, labels=list(labels), tier=tier)
    for labels in ALIKE:
        for i, m in enumerate(models()):
            if m[2] and m[2].get('with_context') and (tier != 'quick' or m[2]['error_metric'] == 'E' and m[2]['error_distribution'] == 'norm'):
                yield dict(part='models', model=i, labels=list(labels), tier=tier)
    depth = 4 if tier == 'quick' else 6
    for name in ('PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'Scaled', 'Preset'):
        for first in range(6):
            for second in range(6):
                yield dict(part='histories', name=name, first=first, second=second, depth=depth)
    for name in ('PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'PeriodicAverageAnomalyDetector', 'Generic:Scaled', 'Preset'):
        yield dict(part='faults', name=name)
    yield dict(part='refused')


def show(got):
    if got[0] == 'err':
        return got
    v = got[1]
    if isinstance(v, TimeSeries):
        return ('ok', str(snap(v)))
    if isinstance(v, TimePoint) or isinstance(v, TimeSlot):
        return ('ok', str(snap_item(v)))
    return ('ok', plain(v))


def plain(v):
    """What a value is, regardless of numeric types and containers."""
    if isinstance(v, dict):
        return repr(sorted((str(k), plain(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return repr([plain(x) for x in v])
    if isinstance(v, (bool, str)) or v is None:
        return repr(v)
    try:
        return repr(float(v))
    except (TypeError, ValueError):
        return str(v)


def probe(ctx, model, probes):
    """All the operations on all the probes."""
    out = []
    for series in probes:
        ops = [('apply', {})]
        if isinstance(model, Forecaster):
            ops += [('predict', {}), ('predict', dict(steps=3)), ('forecast', {}), ('forecast', dict(steps=2)), ('apply', dict(steps=2)), ('evaluate', {}), ('evaluate', dict(metrics=['MAE']))]
        elif isinstance(model, Reconstructor):
            ops += [('predict', dict(from_i=2, to_i=3)), ('evaluate', dict(steps=[1, 2])), ('apply', dict(data_loss_threshold=0.5))]
        else:
            ops += [('apply', dict(index_bounds=['avg_err', '3_sigma'], details=True)), ('apply', dict(index_type='lin'))]
        for op, kw in ops:
            out.append((op, str(kw), show(outcome_of(getattr(model, op), series, **kw))))
            ctx.step()
    return out


def probes_for(name, labels):
    other = tuple(reversed(labels)) if len(labels) > 1 else ('other',)
    losses = [None, 0, 0, 0, 0.6, 1, 0, None, 0.2, 0, 0, 0]
    out = [source(name, labels, k=3, n=10), source(name, labels, k=1, n=5), source('minutes' if name != 'minutes' else 'hours', labels, n=8), source(name, other, n=8), source(name, other + ('z',), n=8)]
    if not name.startswith('df-'):
        out.append(source(name, labels, k=5, n=12, losses=losses))
    if name.startswith('df-') or name == 'hours':
        out.append(slots(epoch(2019, 10, 26, 20, tz='America/New_York'), '1h', rows(9, labels), labels=labels, tz='America/New_York'))
    return out


def content(path):
    return sorted((os.path.relpath(os.path.join(d, f), path), open(os.path.join(d, f), 'rb').read()) for d, _, fs in os.walk(path) for f in fs)


def run(ctx, case):
    scratch = tempfile.mkdtemp(prefix='mc-m02-')
    try:
        globals()['run_' + case['part']](ctx, case, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_models(ctx, case, scratch):
    name, args, fit = next(itertools.islice(models(), case['model'], None))
    labels = tuple(case['labels'])
    for number, src in enumerate(QUICK_SOURCES if case['tier'] == 'quick' else SOURCES):
        series = source(src, labels)
        model = create(name, args)
        path = '{}/{}'.format(scratch, number)

        def where():
            return '{}({}) fit with {} on {} of {}'.format(name, args, fit, src, labels)

        if fit is not None:
            refused = outcome_of(model.save, path)
            ctx.check(refused[0] == 'err' and not os.path.exists(path), 'unfitted', lambda: '{}: saved before the fit: {}'.format(where(), refused))
            got = outcome_of(model.fit, series, **fit)
            ctx.step(2)
            if got[0] == 'err':
                # Not supported by the model (i.e. DST on days, more labels, context on one label)
                ctx.outcome(('refused', name, got[1]))
                refused = outcome_of(model.save, path)
                ctx.check(refused[0] == 'err' and not os.path.exists(path), 'unfitted', lambda: '{}: saved after a failed fit: {}'.format(where(), refused))
                continue
        ctx.state((case['model'], labels, src))
        probes = probes_for(src, labels)
        before = plain(model.data)
        expected = probe(ctx, model, probes)
        got = outcome_of(model.save, path)
        ctx.step()
        if not ctx.check(got[0] == 'ok', 'save', lambda: '{}: not saved: {}'.format(where(), got)):
            continue
        ctx.check(plain(model.data) == before and probe(ctx, model, probes[:2]) == expected[:len(expected) // len(probes) * 2], 'saving', lambda: '{}: changed by saving it'.format(where()))
        files = content(path)
        del series
        # Wherever it is moved
        os.makedirs(path + '-moved')
        shutil.copytree(path, path + '-moved/model')
        os.rename(path, path + '-away')
        got = outcome_of(load, name, path + '-moved/model')
        ctx.step()
        ctx.check(got[0] == 'ok' and plain(got[1].data) == before and probe(ctx, got[1], probes[:1]) == expected[:len(expected) // len(probes)], 'moved', lambda: '{}: moved elsewhere {}'.format(where(), got))
        os.rename(path + '-away', path)
        for turn in range(2):
            got = outcome_of(load, name, path)
            ctx.step()
            if not ctx.check(got[0] == 'ok', 'load', lambda: '{}: not loaded ({}): {}'.format(where(), turn, got)):
                break
            loaded = got[1]
            ctx.check(plain(loaded.data) == before, 'parameters', lambda: '{}: parameters {} instead of {}'.format(where(), loaded.data, before))
            ctx.check(loaded.id == model.id, 'id', lambda: '{}: different id'.format(where()))
            ctx.check(getattr(loaded, 'window', None) == getattr(model, 'window', None), 'window', lambda: '{}: window {}'.format(where(), loaded.window))
            results = probe(ctx, loaded, probes)
            for a, b in zip(results, expected):
                ctx.check(a == b, 'behaviour', lambda: '{}: once loaded ({}) {} instead of {}'.format(where(), turn, a, b))
            ctx.check(content(path) == files, 'files', lambda: '{}: using the loaded model changed the files'.format(where()))
            # Never overwrite
            got = outcome_of(loaded.save, path)
            ctx.check(got[0] == 'err' and content(path) == files, 'overwrite', lambda: '{}: saving over an existing path: {}'.format(where(), got))
            path = path + '-again/in/{}'.format(turn)
            got = outcome_of(loaded.save, path)
            ctx.step(2)
            if not ctx.check(got[0] == 'ok', 'save', lambda: '{}: loaded and not saved again: {}'.format(where(), got)):
                break
            files = content(path)
            ctx.ok()
        ctx.outcome(tuple(expected))


FIT = {'PeriodicAverageForecaster': dict(periodicity=3), 'PeriodicAverageReconstructor': dict(periodicity=3), 'Scaled': {}, 'Preset': None, 'PeriodicAverageAnomalyDetector': dict(periodicity=3), 'Generic:Scaled': dict(with_context=True)}
OPS = ['fit a', 'fit b', 'save 0', 'save 1', 'load 0', 'load 1']


def fingerprint(ctx, model, probes):
    return (str({k: plain(v) for k, v in model.data.items() if k not in ('id', 'fitted_at')}), [show(outcome_of(model.predict, p, **(dict(from_i=1, to_i=2) if isinstance(model, Reconstructor) else {}))) for p in probes])


def run_histories(ctx, case, scratch):
    name = case['name']
    series = {'a': source('minutes', ('a',), n=9), 'b': source('hours', ('z',), k=4, n=9)}
    probes = [series['a'][0:6], series['b'][0:6]]
    ref = {}
    for k, s in series.items():
        m = create(name, {})
        if FIT[name] is not None:
            m.fit(s, **FIT[name])
        ref[k] = fingerprint(ctx, m, probes)
    if FIT[name] is None:
        ref['preset'] = ref['a']
    empty = fingerprint(ctx, create(name, {}), probes)
    count = 0
    for depth in range(2, case['depth'] + 1):
        for rest in itertools.product(range(6), repeat=depth - 2):
            history = (case['first'], case['second']) + rest
            if depth < case['depth'] and any(OPS[h].startswith('save') for h in history) is False:
                continue
            count += 1
            top = '{}/{}'.format(scratch, count)
            paths = ['{}/x'.format(top), '{}/y'.format(top)]
            model, state, on_disk = create(name, {}), None if FIT[name] is not None else 'preset', [None, None]
            ids = [None, None]
            for step, h in enumerate(history):
                op, what = OPS[h].split()
                ctx.step()

                def where():
                    return '{}: {} (at {})'.format(name, [OPS[x] for x in history], step)

                if op == 'fit':
                    got = outcome_of(model.fit, series[what], **(FIT[name] or {}))
                    if FIT[name] is None:
                        ctx.check(got[0] == 'err', 'fit', lambda: '{}: fit with nothing to fit'.format(where()))
                    else:
                        ctx.check(got[0] == 'ok', 'fit', lambda: '{}: {}'.format(where(), got))
                        state = what
                elif op == 'save':
                    got = outcome_of(model.save, paths[int(what)])
                    allowed = state is not None and on_disk[int(what)] is None
                    if not ctx.check((got[0] == 'ok') == allowed, 'save', lambda: '{}: {}'.format(where(), got)):
                        break
                    if allowed:
                        on_disk[int(what)], ids[int(what)] = state, model.id
                else:
                    got = outcome_of(load, name, paths[int(what)])
                    allowed = on_disk[int(what)] is not None
                    if not ctx.check((got[0] == 'ok') == allowed, 'load', lambda: '{}: {}'.format(where(), got)):
                        break
                    if allowed:
                        model, state = got[1], on_disk[int(what)]
                        ctx.check(model.id == ids[int(what)], 'id', lambda: '{}: the id is not the saved one'.format(where()))
                if step == len(history) - 1:
                    now = fingerprint(ctx, model, probes)
                    ctx.check(now == (ref[state] if state else empty), 'state', lambda: '{}: {} instead of {}'.format(where(), now, ref[state] if state else empty))
                    for k in (0, 1):
                        ctx.check(os.path.exists(paths[k]) == (on_disk[k] is not None), 'disk', lambda: '{}: path {} exists'.format(where(), k))
            ctx.state((name, state, tuple(on_disk)))
            ctx.outcome((name, state, tuple(on_disk)))
            ctx.ok()
            shutil.rmtree(top, ignore_errors=True)


class Fail(OSError):
    pass


class Faulty:
    """The file system calls done under a folder, failing at the n-th one."""

    def __init__(self, top, at, how):
        self.top, self.at, self.how, self.count = top, at, how, 0

    def tick(self):
        self.count += 1
        if self.count == self.at:
            raise Fail('No space left on device')

    def __enter__(self):
        self.open, self.makedirs, self.mkdir = builtins.open, os.makedirs, os.mkdir

        def fopen(path, mode='r', *a, **k):
            if not (isinstance(path, str) and path.startswith(self.top)) or not set(mode) & set('wax+'):
                return self.open(path, mode, *a, **k)
            self.tick()
            f = self.open(path, mode, *a, **k)
            faulty = self

            class File:
                def __enter__(self):
                    return self

                def __exit__(self, *e):
                    f.close()

                def write(self, text):
                    try:
                        faulty.tick()
                    except Fail:
                        f.write(text[:len(text) // 2])
                        raise
                    return f.write(text)

                def __getattr__(self, k):
                    return getattr(f, k)
            return File()

        def fmakedirs(path, *a, **k):
            if str(path).startswith(self.top):
                self.tick()
            return self.makedirs(path, *a, **k)

        builtins.open, os.makedirs = fopen, fmakedirs
        return self

    def __exit__(self, *e):
        builtins.open, os.makedirs = self.open, self.makedirs


def run_faults(ctx, case, scratch):
    name = case['name']
    for src in ('minutes', 'days'):
        for at in range(1, 40):
            labels = ('a',) if name != 'Generic:Scaled' else ('a', 'b')
            probes = probes_for(src, labels)
            model = create(name, {})
            if FIT[name] is not None:
                model.fit(source(src, labels), **FIT[name], **(dict(error_metric='E') if 'Anomaly' in name or 'Generic' in name else {}))
            before, expected = plain(model.data), probe(ctx, model, probes)
            path = '{}/{}-{}'.format(scratch, src, at)
            with Faulty(scratch, at, None) as fs:
                got = outcome_of(model.save, path)
            ctx.step()
            failed = fs.count >= at

            def where():
                return '{} on {}, failing at the operation {} of the file system'.format(name, src, at)

            ctx.check((got[0] == 'err') == failed, 'fault', lambda: '{}: {}'.format(where(), got))
            ctx.check(plain(model.data) == before and probe(ctx, model, probes) == expected, 'fault', lambda: '{}: the model changed'.format(where()))
            # An incomplete save is never loaded as if it were good, and another save is as good as ever
            if failed:
                loaded = outcome_of(load, name, path)
                ctx.check(loaded[0] == 'err', 'partial', lambda: '{}: a partial save is loaded as {}'.format(where(), loaded))
            got = outcome_of(model.save, path + '-other')
            loaded = outcome_of(load, name, path + '-other')
            ctx.step(3)
            ctx.check(got[0] == loaded[0] == 'ok' and plain(loaded[1].data) == before and probe(ctx, loaded[1], probes) == expected, 'fault', lambda: '{}: not saved elsewhere as it was: {}'.format(where(), loaded))
            ctx.state((name, src, at))
            ctx.outcome((name, failed))
            ctx.ok()
            if not failed:
                break


class Unknown(Model):
    """Nothing to fit, no parameters."""

    @Model.predict_function
    def predict(self, series):
        return len(series)


def run_refused(ctx, case, scratch):
    series = source('minutes', ('a',))
    made = [Unknown(), LinearInterpolationReconstructor()]
    for i, model in enumerate(made):
        got = outcome_of(model.save, '{}/{}'.format(scratch, i))
        ctx.step()
        ctx.check(got[0] == 'err' and not os.listdir(scratch), 'refused', lambda: '{} saved: {}'.format(model, got))
    for cls in (ProphetForecaster, ProphetReconstructor, ARIMAForecaster, AARIMAForecaster):
        model = cls()
        for fitted in (False, True):
            if fitted:
                outcome_of(model.fit, series)
            got = outcome_of(model.save, '{}/{}'.format(scratch, cls.__name__))
            loaded = outcome_of(cls.load, '{}/{}'.format(scratch, cls.__name__))
            ctx.step(2)
            ctx.check(got[0] == loaded[0] == 'err' and not os.listdir(scratch), 'refused', lambda: '{} saved: {} {}'.format(model, got, loaded))
            ctx.ok()
    for name, fit in FIT.items():
        if name == 'Generic:Scaled':
            continue
        model = create(name, {})
        if fit is not None:
            model.fit(series, **fit)
        for path in ('', None):
            got = outcome_of(model.save, path)
            ctx.step()
            ctx.check(got[0] == 'err', 'refused', lambda: '{} saved in {}'.format(name, repr(path)))
        taken = '{}/{}-file'.format(scratch, name)
        with open(taken, 'w') as f:
            f.write('mine')
        got = outcome_of(model.save, taken)
        ctx.check(got[0] == 'err' and open(taken).read() == 'mine', 'overwrite', lambda: '{} saved over a file'.format(name))
        folder = '{}/{}-folder'.format(scratch, name)
        os.makedirs(folder)
        got = outcome_of(model.save, folder)
        ctx.check(got[0] == 'err' and not os.listdir(folder), 'overwrite', lambda: '{} saved in an existing folder'.format(name))
        got = outcome_of(load, name, folder)
        ctx.check(got[0] == 'err', 'refused', lambda: '{} loaded from an empty folder'.format(name))
        ctx.step(3)
        ctx.outcome(('refused', name))
        ctx.ok()
