"""M09: LSTM forecasters are trained and used on exactly the windows, features and targets they are asked for."""
import itertools
import json
import os
import shutil
import sys
import types
import numpy
from mc import core
from mc.lib import *
from timeseria.models.forecasters import LSTMForecaster
from timeseria.models.anomaly_detectors import LSTMAnomalyDetector

PROPERTY = 'M09'
LEVEL = 'model_checking'
RULE = ('every combination of kind of series (points and slots, on several units and time zones), labels, targets, context, features, window and normalization, with every pattern of items with too much data loss: what is given to the neural network '
        '(a recording one, computing a known function) when fitting and predicting, and what comes out of predictions, forecasts, applies, evaluations, anomaly detectors, cross validations and models saved and loaded, are compared with those '
        'computed from the plain values. A non-trivial outcome is a distinct training set or prediction')
ASSUMPTIONS = ['the neural network itself is replaced, as TensorFlow is not installed', 'where a difference is zero, or the data it would be computed from is not there, any of zero and one goes', 'constant labels cannot be normalized']
BOUNDS = {'quick': '5 kinds of series, up to 3 labels, 7 sets of features, windows up to 3, 9 items, all the patterns of losses on 6 of them', 'thorough': '7 kinds of series, up to 3 labels, 7 sets of features, windows up to 4, 10 items, all the patterns of losses on 8 of them'}
CHUNK = 1
ROME = 'Europe/Rome'
KINDS = {'minutes': ('points', 60, 1000020, None), 'hours': ('points', 3600, epoch(2019, 3, 30, 21, tz=ROME), ROME), 'hslots': ('slots', '1h', epoch(2019, 10, 26, 22, tz=ROME), ROME), 'days': ('slots', '1D', epoch(2019, 3, 28, tz=ROME), ROME),
         'six': ('points', 21600, epoch(2019, 11, 1, 3, tz='America/New_York'), 'America/New_York'), 'halves': ('points', 0.5, -2, None), 'months': ('slots', '1M', epoch(2019, 1, 1, tz=ROME), ROME)}
QUICK_KINDS = ['minutes', 'hours', 'hslots', 'days', 'six']
LABELS = [('a',), ('b', 'a'), ('c', 'a', 'b')]
FEATURES = [['values'], ['diffs'], ['hours'], ['values', 'diffs'], ['hours', 'values'], ['diffs', 'hours'], ['diffs', 'hours', 'values']]
VALUES = {'a': [3, 5, 4.5, 9, 2, 8, -1, 7.25, 6, 1, 4, 12], 'b': [0, 10, 20, 50, 40, 25, 12, 33, 31, 8, 2, 45], 'c': [-1e3, -1500, -1250, 300, -2e3, 200, 100, -1999, -1750, 1200, -900, 1300]}


class Network:
    """What is known about it is what it is given."""

    def __init__(self, layers=None, outputs=None):
        self.fits, self.predicts, self.layers, self.compiled, self.outputs = [], [], layers or [], None, outputs

    def add(self, layer):
        self.layers.append(layer)

    def compile(self, **kwargs):
        self.compiled = kwargs

    def fit(self, x, y, **kwargs):
        self.fits.append((numpy.array(x, dtype=float), numpy.array(y, dtype=float), kwargs))
        self.outputs = len(y[0])

    def predict(self, x, **kwargs):
        self.predicts.append(numpy.array(x, dtype=float))
        return numpy.array([function(m, self.outputs) for m in x])

    def save(self, path, **kwargs):
        if getattr(self, 'broken', False):
            raise OSError('No space left on device')
        os.makedirs(path)
        with open(path + '/network.json', 'w') as f:
            json.dump(self.outputs, f)


def function(matrix, outputs):
    """A known function of all of the features, depending on their position."""
    return [sum(v * (((7 * i + 3 * j + 2 * k) % 5) + 1) for i, row in enumerate(matrix) for j, v in enumerate(row)) / 50 for k in range(outputs)]


def stubs():
    """What is needed of Keras."""
    keras, models, layers = types.ModuleType('keras'), types.ModuleType('keras.models'), types.ModuleType('keras.layers')

    def load_model(path, **kwargs):
        with open(path + '/network.json') as f:
            return Network(outputs=json.load(f))
    models.load_model = load_model
    models.Sequential = Network
    layers.LSTM = lambda units, **kwargs: ('LSTM', units, kwargs)
    layers.Dense = lambda units, **kwargs: ('Dense', units, kwargs)
    keras.models, keras.layers = models, layers
    sys.modules.update({'keras': keras, 'keras.models': models, 'keras.layers': layers})


def targets(labels):
    yield 'all', False
    for context in (False, True):
        for l in labels:
            yield l, context
        if len(labels) > 2:
            yield list(labels[:2]), context
            yield [labels[1], labels[0]], context


def cases(tier):
    top = 4 if tier == 'quick' else 5
    for kind in QUICK_KINDS if tier == 'quick' else KINDS:
        for labels in LABELS:
            for target, context in targets(labels):
                if context and len(labels) == 1:
                    continue
                for window in range(1, top):
                    yield dict(what='shape', kind=kind, labels=list(labels), target=target, context=context, window=window, tier=tier)
    for kind in ('minutes', 'hslots'):
        for window in (1, 2, 3):
            for context in (False, True):
                yield dict(what='losses', kind=kind, window=window, context=context, n=6 if tier == 'quick' else 8)
    for kind in ('minutes', 'hslots', 'days'):
        for context in (False, True):
            yield dict(what='rest', kind=kind, context=context)


def run(ctx, case):
    before = {k: sys.modules.get(k) for k in ('keras', 'keras.models', 'keras.layers')}
    stubs()
    try:
        globals()[case['what']](ctx, **{k: v for k, v in case.items() if k != 'what'})
    finally:
        for k, v in before.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# The reference, on plain lists

def build(kind, labels, first=0, n=9, shift=0, losses=None, how='dict'):
    what, step, start, tz = KINDS[kind]
    rows = [tuple(VALUES[l][(i + shift) % 12] for l in labels) for i in range(first, first + n)]
    if what == 'points':
        s = points([start + step * i for i in range(first, first + n)], rows, labels=labels, tz=tz, losses=losses)
    else:
        t = start
        for _ in range(first):
            t = ref_shift(t, step, tz)
        s = slots(t, step, rows, labels=labels, tz=tz, losses=losses)
    hours = [wall(i.t, tz or 'UTC').hour for i in s]
    nxt = s[-1].t + step if what == 'points' else ref_shift(s[-1].t, step, tz)
    return s, [dict(zip(labels, r)) for r in rows], hours + [wall(nxt, tz or 'UTC').hour]


def features_of(rows, hours, names, labels, context=None):
    """The features of each row and of the context, with the acceptable alternatives where there is more than one."""
    rows = rows + ([context] if context else [])
    out = []
    for i, row in enumerate(rows):
        fs = []
        if 'values' in names:
            fs += [(row[l],) if l in row else (0,) for l in sorted(labels)]
        if 'diffs' in names:
            for l in sorted(labels):
                a, b, d = (0, 1, 1) if i == 0 else (i - 1, i, 1) if i == len(rows) - 1 else (i - 1, i + 1, 2)
                if len(rows) < 2:
                    return None
                if l in rows[a] and l in rows[b]:
                    v = (rows[b][l] - rows[a][l]) / d
                    fs.append((v,) if abs(v) > 1e-12 else (v, 1))
                else:
                    fs.append((0, 1))
        if 'hours' in names:
            fs.append((hours[i] / 24,))
        out.append(fs)
    return out


def same(matrix, expected):
    return matrix.shape == (len(expected), len(expected[0])) and all(any(close(float(matrix[i][j]), v) for v in f) for i, r in enumerate(expected) for j, f in enumerate(r))


class Scale:
    def __init__(self, rows, labels, on):
        self.on = on
        self.low = {l: min(r[l] for r in rows) for l in labels}
        self.high = {l: max(r[l] for r in rows) for l in labels}

    def row(self, row):
        return {l: (v - self.low[l]) / (self.high[l] - self.low[l]) if self.on else v for l, v in row.items()}

    def back(self, l, v):
        return v * (self.high[l] - self.low[l]) + self.low[l] if self.on else v


def training(rows, hours, losses, limit, window, names, labels, wanted, context_labels, scale):
    xs, ys = [], []
    for i in range(window, len(rows)):
        if limit is not None and any(losses[j] is not None and losses[j] >= limit for j in range(i - window, i + 1)):
            continue
        context = {l: scale.row(rows[i])[l] for l in context_labels} if context_labels else None
        xs.append(features_of([scale.row(r) for r in rows[i - window:i]], hours[i - window:i + 1], names, labels, context))
        ys.append([scale.row(rows[i])[l] for l in wanted])
    return xs, ys


def trained(net, xs, ys):
    if not net.fits:
        return 'never trained'
    x, y, _ = net.fits[-1]
    if len(x) != len(xs) or y.shape != (len(ys), len(ys[0])):
        return '{} windows and {} targets instead of {}'.format(len(x), y.shape, len(xs))
    for k in range(len(xs)):
        if not same(x[k], xs[k]):
            return 'window {} is {} instead of {}'.format(k, x[k].tolist(), xs[k])
        if not close(y[k].tolist(), ys[k]):
            return 'targets {} are {} instead of {}'.format(k, y[k].tolist(), ys[k])
    return None


def shape(ctx, kind, labels, target, context, window, tier):
    labels = tuple(labels)
    wanted = sorted(labels) if target == 'all' else [target] if isinstance(target, str) else target
    context_labels = [l for l in sorted(labels) if l not in wanted] if context else None
    for names in FEATURES:
        for normalize in (True, False):
            series, rows, hours = build(kind, labels)
            net = Network()
            model = LSTMForecaster(window=window, features=list(names), keras_model=net)
            before = snap(series)
            got = outcome_of(model.fit, series, normalize=normalize, target=target, with_context=context)
            ctx.step()
            where = lambda: 'window {} of {} on {} of {}, targeting {} (context {}, normalizing {})'.format(window, names, kind, labels, target, context, normalize)
            scale = Scale(rows, labels, normalize)
            xs, ys = training(rows, hours, [None] * len(rows), 1, window, names, labels, wanted, context_labels, scale)
            if xs[0] is None or (context and not context_labels):
                # No differences within a window of one, no context left
                if got[0] == 'err':
                    continue
                if xs[0] is None:
                    continue
            if not ctx.check(got[0] == 'ok', 'fit', lambda: '{}: {}'.format(where(), got)):
                continue
            ctx.check(snap(series) == before, 'source', lambda: '{}: changed the series'.format(where()))
            wrong = trained(net, xs, ys)
            ctx.check(wrong is None, 'training', lambda: '{}: {}'.format(where(), wrong))
            ctx.state((kind, labels, str(target), context, window, tuple(names), normalize))
            ctx.outcome(net.fits[-1][0].tolist())
            # Predictions, from the end of the series (also longer than the window and on views), of the same or of other periods
            for first, n, shift in ((0, 9, 0), (3, window, 0), (5, window + 2, 2), (20, window, 5)):
                if n < 2 and context and kind in ('minutes', 'hours', 'six', 'halves'):
                    # A single point has no resolution
                    continue
                s, r, h = build(kind, labels, first=first, n=n, shift=shift)
                now = {l: VALUES[l][(first + n + shift) % 12] for l in context_labels} if context_labels else None
                x = features_of([scale.row(i) for i in r[-window:]], h[-window - 1:], names, labels, scale.row(now) if now else None)
                kw = dict(context_data=dict(now)) if now else {}
                was = snap(s)
                del net.predicts[:]
                got = outcome_of(model.predict, s, **kw)
                ctx.step()
                if n < 2 and got[0] == 'err':
                    continue
                at = lambda: '{}, predicting after {} items from {} with context {}'.format(where(), n, first, now)
                if not ctx.check(got[0] == 'ok' and len(net.predicts) == 1, 'predict', lambda: '{}: {}'.format(at(), got)):
                    continue
                ctx.check(len(net.predicts[0]) == 1 and same(net.predicts[0][0], x), 'input', lambda: '{}: the network is given {} instead of {}'.format(at(), net.predicts[0].tolist(), x))
                ctx.check(snap(s) == was and (not now or kw['context_data'] == now), 'source', lambda: '{}: changed the series'.format(at()))
                out = function(net.predicts[0][0], len(wanted))
                expected = {l: scale.back(l, v) for l, v in zip(wanted, out)}
                ctx.check(isinstance(got[1], dict) and close({k: float(v) for k, v in got[1].items()}, expected), 'prediction', lambda: '{}: {} instead of {}'.format(at(), got[1], expected))
                ctx.outcome(str(expected))
                if context_labels:
                    # The values to predict make no difference, and all of the context is required
                    full = dict(now, **{l: 1e6 for l in wanted})
                    other = outcome_of(model.predict, s, context_data=full)
                    ctx.check(other[0] == 'ok' and close({k: float(v) for k, v in other[1].items()}, expected), 'leak', lambda: '{}: with the values to predict {} instead of {}'.format(at(), other, expected))
                    for l in context_labels:
                        less = {k: v for k, v in now.items() if k != l}
                        other = outcome_of(model.predict, s, context_data=less)
                        ctx.check(other[0] == 'err', 'less', lambda: '{}: with no {} in the context {}'.format(at(), l, other))
                    ctx.step(2)
                    one_ahead(ctx, model, s, full, expected, now, at)
                elif set(wanted) == set(labels):
                    one_ahead(ctx, model, s, None, expected, None, at)
            altered(ctx, model, net, kind, labels, names, window, wanted, context_labels, scale, where)
            evaluated(ctx, model, net, kind, labels, names, window, wanted, context_labels, scale, where)
            ctx.ok()


def altered(ctx, model, net, kind, labels, names, window, wanted, context_labels, scale, where):
    """Windows differing in one value only, or only in time, one after the other."""
    if window < 2:
        return
    now = {l: VALUES[l][3] for l in context_labels} if context_labels else None
    for first in (0, 0, 3):
        for i, l in [(None, None)] + [(i, l) for i in range(window) for l in labels] + [('now', l) for l in context_labels or ()]:
            s, r, h = build(kind, labels, first=first, n=window, shift=-first)
            context = dict(now) if now else None
            if i == 'now':
                context[l] += 3
            elif i is not None:
                s[i].data[l] += 3
                r[i][l] += 3
            x = features_of([scale.row(q) for q in r], h, names, labels, scale.row(context) if context else None)
            got = outcome_of(model.predict, s, **(dict(context_data=context) if context else {}))
            ctx.step()
            at = lambda: '{}, predicting after {} at {} with context {}'.format(where(), r, h, context)
            inputs = [p[0] for p in net.predicts if same(p[0], x)]
            if not ctx.check(got[0] == 'ok' and inputs, 'altered', lambda: '{}: {}'.format(at(), got)):
                continue
            # Where more than an input is fine
            expected = [{k: scale.back(k, v) for k, v in zip(wanted, function(q, len(wanted)))} for q in inputs]
            ctx.check(any(close({k: float(v) for k, v in got[1].items()}, e) for e in expected), 'altered', lambda: '{}: {} instead of {}'.format(at(), got[1], expected))


def one_ahead(ctx, model, s, given, expected, now, where):
    """The same prediction as an item."""
    got = outcome_of(model.forecast, s, **(dict(context_data=given) if given else {}))
    ctx.step()
    if len(s) < 2:
        return
    ok = got[0] == 'ok' and close({k: float(v) for k, v in got[1].data.items()}, dict(expected, **(now or {})))
    ctx.check(ok, 'forecast', lambda: '{}: forecast {} instead of {} and {}'.format(where(), got, expected, now))


def evaluated(ctx, model, net, kind, labels, names, window, wanted, context_labels, scale, where):
    """Each item after the window, predicted from the previous ones and from nothing else."""
    s, r, h = build(kind, labels, first=2, n=window + 3, shift=4)
    if window < 2:
        return
    del net.predicts[:]
    got = outcome_of(model.evaluate, s, error_metrics=['MAE', 'MSE'], return_results_series=True)
    ctx.step()
    if not ctx.check(got[0] == 'ok', 'evaluate', lambda: '{}: evaluating {}'.format(where(), got)):
        return
    exp = {l: [] for l in wanted}
    for i in range(window, len(r)):
        context = scale.row({l: r[i][l] for l in context_labels}) if context_labels else None
        x = features_of([scale.row(q) for q in r[i - window:i]], h[i - window:i + 1], names, labels, context)
        inputs = [p[0] for p in net.predicts if same(p[0], x)]
        if not ctx.check(inputs, 'evaluate', lambda: '{}: evaluating the item {}, the network is never given {} but {}'.format(where(), i, x, [p.tolist() for p in net.predicts])):
            return
        for l, v in zip(wanted, function(inputs[0], len(wanted))):
            exp[l].append(abs(scale.back(l, v) - r[i][l]))
    for l in wanted:
        ctx.check(close(float(got[1][l + '_MAE']), sum(exp[l]) / len(exp[l])) and close(float(got[1][l + '_MSE']), sum(e ** 2 for e in exp[l]) / len(exp[l])), 'evaluate', lambda: '{}: evaluation {} with errors {}'.format(where(), got, exp))


def losses(ctx, kind, window, context, n):
    """Windows with too much data loss, anywhere in them, are left out."""
    labels = ('b', 'a')
    for pattern in itertools.product((0, 1, 2), repeat=n - 3):
        losses_ = [None] + [(None, 0.5, 1)[p] for p in pattern] + [0.2, None]
        for limit in (None, 0.5, 1.0, 0.1):
            for default in ((False, True) if limit == 1.0 else (False,)):
                series, rows, hours = build(kind, labels, n=n, losses=losses_)
                net = Network()
                model = LSTMForecaster(window=window, keras_model=net)
                scale = Scale(rows, labels, True)
                xs, ys = training(rows, hours, losses_, limit, window, ['values'], labels, ['b'] if context else ['a', 'b'], ['a'] if context else None, scale)
                got = outcome_of(model.fit, series, **(dict(target='b', with_context=True) if context else {}), **({} if default else dict(data_loss_limit=limit)))
                ctx.step()
                where = lambda: 'window {} on {} with losses {} and limit {} (context {})'.format(window, kind, losses_, limit, context)
                ctx.state((kind, window, context, tuple(losses_), limit))
                if not xs:
                    ctx.check(got[0] == 'err' and not net.fits and not model.fitted, 'losses', lambda: '{}: nothing to fit on but {}'.format(where(), got))
                    continue
                wrong = trained(net, xs, ys) if got[0] == 'ok' else got
                ctx.check(wrong is None, 'losses', lambda: '{}: {}'.format(where(), wrong))
                ctx.outcome((len(xs), str(ys)))
                ctx.ok()


def rest(ctx, kind, context):
    """Architecture, new fits, steps ahead, saving, anomaly detection and cross validation."""
    labels = ('b', 'a')
    args = dict(target='b', with_context=True) if context else {}
    wanted = ['b'] if context else ['a', 'b']
    top = core.scratch() + '/m09'
    for names in FEATURES:
        for window in (2, 3):
            where = lambda: 'window {} of {} on {} (context {})'.format(window, names, kind, context)
            series, rows, hours = build(kind, labels)
            scale = Scale(rows, labels, True)
            model = LSTMForecaster(window=window, features=list(names), neurons=7)
            width = len(features_of(rows[:window], hours, names, labels)[0])
            for metric, loss in (('MSE', 'mean_squared_error'), ('MAE', 'mean_absolute_error'), ('MAPE', 'mean_absolute_percentage_error'), ('MSLE', 'mean_squared_logarithmic_error')):
                # Also fitting again, on another period and with another network
                previous = model.keras_model
                s, r, h = build(kind, labels, first=len(metric), shift=len(loss))
                got = outcome_of(model.fit, s, minimize_error_metric=metric, epochs=3, **args)
                ctx.step()
                if not ctx.check(got[0] == 'ok', 'refit', lambda: '{}: {}'.format(where(), got)):
                    break
                net = model.keras_model
                ctx.check(net.layers == [('LSTM', 7, dict(input_shape=(window + bool(context), width))), ('Dense', len(wanted), {})] and net.compiled.get('loss') == loss, 'architecture', lambda: '{}: {} compiled with {}'.format(where(), net.layers, net.compiled))
                xs, ys = training(r, h, [None] * len(r), 1, window, names, labels, wanted, ['a'] if context else None, Scale(r, labels, True))
                wrong = trained(net, xs, ys)
                ctx.check(wrong is None and len(net.fits) == 1 and net is not previous, 'refit', lambda: '{}: fit {} times on the same network: {}'.format(where(), len(net.fits), wrong))
                ctx.check(net.fits[-1][2].get('epochs') == 3, 'epochs', lambda: '{}: {}'.format(where(), net.fits[-1][2]))
            model = LSTMForecaster(window=window, features=list(names))
            model.fit(series, **args)
            net = model.keras_model
            # More steps: each one on the previous ones
            if not context:
                rs, hs, out = list(rows), list(hours), []
                for k in range(3):
                    got = outcome_of(model.apply, series, steps=k + 1)
                    ctx.step()
                    x = features_of([scale.row(i) for i in rs[-window:]], hs[-window - 1:], names, labels)
                    inputs = [p[0] for p in net.predicts if same(p[0], x)]
                    if not ctx.check(got[0] == 'ok' and len(got[1]) == len(rows) + k + 1 and inputs, 'steps', lambda: '{}: {} steps: {}'.format(where(), k + 1, got)):
                        break
                    nxt = {l: scale.back(l, v) for l, v in zip(wanted, function(inputs[-1], 2))}
                    out.append(nxt)
                    ctx.check(all(close({a: float(b) for a, b in got[1][len(rows) + j].data.items()}, out[j]) for j in range(k + 1)), 'steps', lambda: '{}: {} steps: {} instead of {}'.format(where(), k + 1, got[1][len(rows):], out))
                    rs.append(nxt)
                    hs = build(kind, labels, n=len(rs))[2]
            # Saved and loaded
            shutil.rmtree(top, ignore_errors=True)
            saved = outcome_of(model.save, top)
            back = outcome_of(LSTMForecaster.load, top)
            ctx.step(2)
            if ctx.check(saved[0] == back[0] == 'ok', 'load', lambda: '{}: {} {}'.format(where(), saved, back)):
                for first in (0, 4):
                    s = build(kind, labels, first=first, n=6, shift=first)[0]
                    kw = dict(context_data={'a': 4.5}) if context else {}
                    a, b = outcome_of(model.predict, s, **kw), outcome_of(back[1].predict, s, **kw)
                    ctx.step(2)
                    ctx.check(a[0] == b[0] == 'ok' and close(a[1], b[1]) and back[1].window == window, 'load', lambda: '{}: once loaded {} instead of {}'.format(where(), b, a))
            shutil.rmtree(top, ignore_errors=True)
            # A network which cannot be saved leaves nothing
            net.broken = True
            saved = outcome_of(model.save, top)
            ctx.check(saved[0] == 'err' and not os.path.exists(top), 'broken', lambda: '{}: {}'.format(where(), saved))
            net.broken = False
            # Cross validation: each round has its own network, which has never seen what it is evaluated on
            series, rows, hours = build(kind, labels, n=12)
            model = LSTMForecaster(window=window, features=list(names))
            nets = []
            evaluate = model.evaluate
            model.evaluate = lambda s, **kw: (nets.append((model.keras_model, [i.data['b'] for i in s])), evaluate(s, **kw))[1]
            got = outcome_of(model.cross_validate, series, rounds=2, **{'fit_' + k: v for k, v in args.items()}, fit_normalize=False)
            ctx.step()
            if ctx.check(got[0] == 'ok' and len(nets) == 2, 'cross', lambda: '{}: cross validation {}'.format(where(), got)):
                for net, seen in nets:
                    ys = [y[-1 if not context else 0] for f in net.fits for y in f[1].tolist()]
                    ctx.check(len(net.fits) == 1 and not set(ys) & set(seen), 'cross', lambda: '{}: cross validated on {} with a network trained on {}'.format(where(), seen, ys))
            # Anomaly detectors: the actual values have no part in their own prediction
            detector = LSTMAnomalyDetector(window=window, features=list(names))
            got = outcome_of(detector.fit, series, error_metric='E', error_distribution='norm', **(dict(with_context=True) if context else {}))
            ctx.step()
            if ctx.check(got[0] == 'ok', 'detector', lambda: '{}: fitting an anomaly detector {}'.format(where(), got)):
                scale12 = Scale(rows, labels, True)
                for l in sorted(labels):
                    inner = detector.models[l].keras_model if context else detector.model.keras_model
                    others = [k for k in labels if k != l] if context else None
                    for i in range(window + 1, len(rows)):
                        x = features_of([scale12.row(q) for q in rows[i - window:i]], hours[i - window:i + 1], names, labels, scale12.row({k: rows[i][k] for k in others}) if others else None)
                        ctx.check(any(same(p[0], x) for p in inner.predicts), 'detector', lambda: '{}: for {} of the item {} the network is never given {}'.format(where(), l, i, x))
            ctx.state((kind, context, tuple(names), window))
            ctx.ok()
