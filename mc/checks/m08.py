"""M08: evaluations and cross validations use each item the right way."""
import itertools
import math
import statistics
import warnings
from mc.lib import *
from timeseria import utilities
from timeseria.models.base import Model
from timeseria.models.forecasters import Forecaster, PeriodicAverageForecaster
from timeseria.models.reconstructors import Reconstructor, PeriodicAverageReconstructor, LinearInterpolationReconstructor

PROPERTY = 'M08'
LEVEL = 'model_checking'
RULE = ('(metrics) every pair of lists over a set of values; (rounds) every series length, number of rounds, window, kind of series and set of arguments, with models recording what they are asked to fit, update the fit with and evaluate, failing at any of these, '
        'and with the periodic average models against the same rounds done by hand; (forecasters) and (reconstructors) stub models of any window and form of the predictions on every pattern of values and lost items, steps, limits and thresholds, against the definitions over the '
        'predictions computed independently. A non-trivial outcome is a distinct split or set of scores')
ASSUMPTIONS = ['models which cannot update their fit are fit only on the longer of the two sides of the part under validation, and updates on sides shorter than the window are left out', 'at least two rounds, and not more than the items',
               'percentage and logarithmic errors are not defined on zeros', 'reconstructors may leave the very last gap out of their evaluation']
BOUNDS = {'quick': 'lists up to 3 over 5 values, series up to 9 items and rounds up to 11, evaluations on series of 6 items over 2 values', 'thorough': 'lists up to 4 over 6 values, series up to 24 items and rounds up to 26, evaluations on series of 8 items over 2 values'}
CHUNK = 1
ROME = 'Europe/Rome'

warnings.simplefilter('ignore')


def metric(name, actual, pred):
    e = [a - p for a, p in zip(actual, pred)]
    if name in ('MSE', 'RMSE'):
        v = sum(x * x for x in e) / len(e)
        return math.sqrt(v) if name == 'RMSE' else v
    if name.endswith('PE'):
        e = [x / a for x, a in zip(e, actual)]
    if name.endswith('LE'):
        e = [math.log(a / p) for a, p in zip(actual, pred)]
    e = [abs(x) for x in e]
    return max(e) if name.startswith('H') else sum(e) / len(e)


FUNCTIONS = {'mean_absolute_percentage_error': 'MAPE', 'max_absolute_percentage_error': 'HAPE', 'mean_absolute_error': 'MAE', 'max_absolute_error': 'HAE', 'mean_absolute_log_error': 'MALE', 'max_absolute_log_error': 'HALE', 'mean_squared_error': 'MSE'}


def cases(tier):
    top, values = (3, 5) if tier == 'quick' else (4, 6)
    for f in FUNCTIONS:
        yield dict(part='metrics', f=f, top=top, values=values)
    for n in range(1, 10 if tier == 'quick' else 25):
        for kind in ('points', 'odd', 'slots', 'days'):
            yield dict(part='rounds', n=n, kind=kind, top=n + 2)
            yield dict(part='broken', n=n, kind=kind, top=n + 2)
    for n in (6, 7, 11) if tier == 'quick' else range(4, 20):
        for kind in ('points', 'slots'):
            yield dict(part='real', n=n, kind=kind)
    n = 6 if tier == 'quick' else 8
    for window in (None, 0, 1, 2, 3):
        for form in ('list', 'dict', 'lists'):
            for kind in ('points', 'slots'):
                yield dict(part='forecasters', window=window, form=form, kind=kind, n=n)
                if form != 'dict' :
                    yield dict(part='reconstructors', window=window, form=form, kind=kind, n=n)


VALUES = [2, -3, 0.5, 7, -1.25, 0]


def run(ctx, case):
    globals()['run_' + case['part']](ctx, case)


def run_metrics(ctx, case):
    f = getattr(utilities, case['f'])
    name = FUNCTIONS[case['f']]
    values = VALUES[:case['values']]
    if name.endswith('LE'):
        values = [abs(v) for v in values if v]
    for n in range(1, case['top'] + 1):
        for actual in itertools.product(values, repeat=n):
            for pred in itertools.product(values, repeat=n):
                ctx.state((actual, pred))
                if name.endswith('PE') and 0 in actual:
                    continue
                for kind in (list,):
                    got = outcome_of(f, kind(actual), kind(pred))
                    ctx.step()
                    ref = metric(name, actual, pred)
                    ctx.check(got[0] == 'ok' and close(got[1], ref), 'metric', lambda: '{} of {} and {} is {} instead of {}'.format(case['f'], actual, pred, got, ref))
                    ctx.outcome((name, round(ref, 6)))
                    ctx.ok()
            if n < case['top']:
                got = outcome_of(f, list(actual), list(actual) + [1])
                ctx.step()
                ctx.check(got[0] == 'err', 'metric', lambda: '{}: lists of different lengths give {}'.format(case['f'], got))


def build(kind, values, labels=('a',), losses=None):
    if kind == 'points':
        return points([60 * i + 1554000000 for i in range(len(values))], values, labels=labels, losses=losses, tz=ROME)
    if kind == 'odd':
        return points([0.5 * i - 2 for i in range(len(values))], values, labels=labels, losses=losses)
    if kind == 'slots':
        return slots(epoch(2019, 3, 30, 22, tz=ROME), '1h', values, labels=labels, losses=losses, tz=ROME)
    return slots(epoch(2019, 10, 24, tz=ROME), '1D', values, labels=labels, losses=losses, tz=ROME)


class Recorder(Model):
    window = None

    def __init__(self, fail_at=None):
        self.log, self.fail_at, self.count = [], fail_at, [0]
        super().__init__()
        # Creating the model tries to fit it on nothing
        self.log.clear()
        self.count[0] = 0

    def record(self, what, series, kw):
        self.count[0] += 1
        if self.count[0] == self.fail_at:
            raise RuntimeError('failing')
        self.log.append((what, [i.data['a'] for i in series], kw))

    @Model.fit_function
    def fit(self, series, one=None, also_fit_this=None, verbose=False):
        self.record('fit', series, (one, also_fit_this))

    @Model.evaluate_function
    def evaluate(self, series, two=None, re_evaluate_it=None):
        self.record('evaluate', series, (two, re_evaluate_it))
        v = [i.data['a'] for i in series]
        return {'sum': sum(v), 'first': v[0] ** 2}


class Updated(Recorder):
    def fit_update(self, series, one=None, also_fit_this=None):
        self.record('update', series, (one, also_fit_this))


class Windowed(Updated):
    window = 2


class Refusing(Recorder):
    def fit_update(self, series, one=None, also_fit_this=None):
        raise NotImplementedError()


ARGS = [({}, (None, None), (None, None)), (dict(fit_one=1, evaluate_two='x'), (1, None), ('x', None)), (dict(fit_also_fit_this=3, evaluate_re_evaluate_it=4, fit_one=0), (0, 3), (None, 4))]


def split(log):
    """The rounds of a log: what fit and updated, and what validated."""
    rounds, current = [], []
    for what, values, kw in log:
        if what == 'evaluate':
            rounds.append((current, values))
            current = []
        else:
            current.append((what, values))
    return rounds, current


def run_rounds(ctx, case):
    n, kind = case['n'], case['kind']
    values = [i + 1 for i in range(n)]
    for cls in (Recorder, Updated, Windowed, Refusing):
        for rounds in range(-1, case['top'] + 1):
            for kw, fit_kw, evaluate_kw in ARGS if rounds in (2, 3) else ARGS[:1]:
                series = build(kind, values)
                before = snap(series)
                model = cls()
                got = outcome_of(model.cross_validate, series, rounds=rounds, **kw)
                ctx.step()

                def where():
                    return '{} on {} {} in {} rounds with {}'.format(cls.__name__, n, kind, rounds, kw)

                ctx.check(snap(series) == before, 'series', lambda: '{}: the series changed'.format(where()))
                ctx.check(not model.fitted, 'model', lambda: '{}: the model is left fit'.format(where()))
                ctx.state((cls.__name__, n, rounds))
                if rounds < 2 or rounds > n:
                    ctx.check(got[0] == 'err', 'refused', lambda: '{}: {}'.format(where(), got))
                    continue
                if n == 1 or not ctx.check(got[0] == 'ok', 'rounds', lambda: '{}: {}'.format(where(), got)):
                    continue
                done, rest = split(model.log)
                ctx.check(not rest and len(done) == rounds, 'rounds', lambda: '{}: rounds {}'.format(where(), model.log))
                ctx.check([v for _, validated in done for v in validated] == values and all(validated for _, validated in done), 'cover', lambda: '{}: validated {}'.format(where(), [x for _, x in done]))
                sizes = [len(x) for _, x in done]
                ctx.check(max(sizes) - min(sizes) <= 1 or len(set(sizes[:-1])) == 1, 'even', lambda: '{}: rounds of {} items'.format(where(), sizes))
                for fit, validated in done:
                    left, right = values[:validated[0] - 1], values[validated[-1]:]
                    sides = sorted([s for s in (left, right) if s], key=len)
                    if cls is Windowed and len(sides) == 2 and len(sides[0]) < 2:
                        sides = sides[1:]
                    if cls in (Recorder, Refusing):
                        ok = [what for what, _ in fit] == ['fit'] and fit[0][1] in sides and len(fit[0][1]) == len(sides[-1])
                    else:
                        ok = [what for what, _ in fit] == ['fit', 'update'][:len(sides)] and sorted(x for _, x in fit) == sorted(sides) and len(fit[0][1]) == len(sides[-1])
                    ctx.check(ok, 'fits', lambda: '{}: validating {} fit on {}'.format(where(), validated, fit))
                ctx.check(all(k == (evaluate_kw if what == 'evaluate' else fit_kw) for what, _, k in model.log), 'arguments', lambda: '{}: arguments {}'.format(where(), model.log))
                sums, firsts = [sum(v) for _, v in done], [v[0] ** 2 for _, v in done]
                ref = {'sum_avg': statistics.mean(sums), 'sum_stdev': statistics.stdev(sums), 'first_avg': statistics.mean(firsts), 'first_stdev': statistics.stdev(firsts)}
                ctx.check(close(got[1], ref), 'scores', lambda: '{}: {} instead of {}'.format(where(), got, ref))
                ctx.outcome((n, rounds, tuple(sizes)))
                ctx.ok()
                # It can be done again with the same results
                again = outcome_of(model.cross_validate, series, rounds=rounds, **kw)
                ctx.step()
                ctx.check(again[0] == 'ok' and again[1] == got[1], 'again', lambda: '{}: the second time {} instead of {}'.format(where(), again, got))
    model = Recorder()
    got = outcome_of(model.cross_validate, build(kind, values), rounds=2, wrong=3)
    ctx.check(got[0] == 'err' and not model.log, 'arguments', lambda: 'unknown arguments accepted: {}'.format(got))
    if n > 1:
        model.fit(build(kind, values))
        model.log = []
        got = outcome_of(model.cross_validate, build(kind, values), rounds=2)
        ctx.check(got[0] == 'err' and not model.log and model.fitted, 'refused', lambda: 'cross validating a model already fit: {}'.format(got))
    ctx.step(3)


def run_broken(ctx, case):
    """Failures at any point leave the model unfit and usable, and the series as it was."""
    n, kind = case['n'], case['kind']
    values = [i + 1 for i in range(n)]
    for cls in (Recorder, Updated):
        for rounds in range(2, min(n, 5) + 1):
            for at in range(1, 3 * rounds + 1):
                series = build(kind, values)
                before = snap(series)
                model = cls(fail_at=at)
                got = outcome_of(model.cross_validate, series, rounds=rounds)
                ctx.step()
                failed = model.count[0] >= at

                def where():
                    return '{} on {} {} in {} rounds, failing at {}'.format(cls.__name__, n, kind, rounds, at)

                ctx.check((got[0] == 'err') == failed and snap(series) == before, 'broken', lambda: '{}: {}'.format(where(), got))
                ctx.check(not model.fitted, 'broken', lambda: '{}: the model is left fit on a part of the series'.format(where()))
                model.fail_at = None
                again = outcome_of(model.cross_validate, series, rounds=rounds)
                ref = outcome_of(cls().cross_validate, series, rounds=rounds)
                ctx.step(2)
                ctx.check(again == ref and ref[0] == 'ok', 'broken', lambda: '{}: then {} instead of {}'.format(where(), again, ref))
                ctx.state((cls.__name__, n, rounds, at))
                ctx.outcome((rounds, at, failed))
                ctx.ok()
                if not failed:
                    break


def run_real(ctx, case):
    n, kind = case['n'] * 3, case['kind']
    for pattern in itertools.product((1, 2.5, 4), repeat=2):
        values = [pattern[i % 2] + (i % 5) * 0.25 for i in range(n)]
        series = build(kind, values)
        for rounds in (2, 3):
            for cls, fit, evaluate in ((PeriodicAverageForecaster, dict(periodicity=2), {}), (PeriodicAverageForecaster, dict(periodicity=2), dict(error_metrics=['MAPE', 'HAE'])), (PeriodicAverageReconstructor, dict(periodicity=2), dict(steps=[1, 2]))):
                got = outcome_of(cls().cross_validate, series, rounds=rounds, **{'fit_' + k: v for k, v in fit.items()}, **{'evaluate_' + k: v for k, v in evaluate.items()})
                ctx.step()
                scores = []
                for r in range(rounds):
                    a, b = n * r // rounds, n * (r + 1) // rounds
                    m = cls()
                    side = (0, a) if a > n - b else (b, n)
                    m.fit(build(kind, values)[side[0]:side[1]], **fit)
                    scores.append(m.evaluate(build(kind, values)[a:b], **evaluate))
                    ctx.step(2)
                ref = {}
                for k in scores[0]:
                    ref[k + '_avg'] = statistics.mean(s[k] for s in scores)
                    ref[k + '_stdev'] = statistics.stdev(s[k] for s in scores)
                ctx.check(got[0] == 'ok' and close(got[1], ref, rel=1e-6), 'real', lambda: '{} on {} {} in {} rounds: {} instead of {}'.format(cls.__name__, values, kind, rounds, got, ref))
                ctx.state((cls.__name__, pattern, rounds, n))
                ctx.outcome(str(ref))
                ctx.ok()


class Stub(Forecaster):
    def __init__(self, window, form, target=None):
        self.window = window
        self.form = form
        self.target = target
        super().__init__()

    @Forecaster.fit_function
    def fit(self, series, verbose=False):
        if self.window is not None and self.form == 'list':
            self.data['window'] = self.window
        if self.target:
            self.data['target_data_labels'] = [self.target]
            self.data['context_data_labels'] = [l for l in series.data_labels() if l != self.target]

    @Forecaster.predict_function
    def predict(self, series, steps=1, context_data=None):
        out = {l: forecast_of([i.data[l] for i in series], self.window) for l in ([self.target] if self.target else series.data_labels())}
        if context_data:
            out = {l: v + sum(context_data[c] for c in self.data['context_data_labels']) for l, v in out.items()}
        return {'dict': out, 'list': [out], 'lists': {l: [v] for l, v in out.items()}}[self.form]


def forecast_of(previous, window):
    w = max(window or 1, 1)
    return sum(v * (k + 1) for k, v in enumerate(previous[-w:])) + 0.5


METRICS = ['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE']


def run_forecasters(ctx, case):
    window, form, kind, n = case['window'], case['form'], case['kind'], case['n']
    for pattern in itertools.product((1, 3), repeat=n):
        for labels, target in ((('a',), None), (('b', 'a'), None), (('b', 'a'), 'a')):
            if labels != ('a',) and sum(pattern) % 3:
                continue
            rows = {'a': list(pattern), 'b': [7 - 2 * v + (i % 2) for i, v in enumerate(pattern)]}
            series = build(kind, list(zip(*[rows[l] for l in labels])), labels=labels)
            before = snap(series)
            model = Stub(window, form, target)
            model.fit(series)
            start = window or 0
            scored = [target] if target else list(labels)
            pairs = {}
            for l in scored:
                pairs[l] = []
                for i in range(start, n):
                    p = forecast_of(rows[l][:i] if i else rows[l], window)
                    if target:
                        p += rows['b'][i]
                    pairs[l].append((rows[l][i], p))
            for wanted in ('auto', ['MSE', 'MAPE'], ['HAE'], METRICS):
                got = outcome_of(model.evaluate, series, error_metrics=wanted)
                ctx.step()

                def where():
                    return 'window {} giving {} on {} {} (target {}) with {}'.format(window, form, kind, rows, target, wanted)

                def score(skip):
                    return {'{}_{}'.format(l, m): metric(m, *zip(*pairs[l][skip:])) for l in scored for m in (['RMSE', 'MAE'] if wanted == 'auto' else wanted)}

                ref = score(0)
                if start == 0:
                    # The first item has nothing before
                    if got[0] == 'ok' and close(got[1], score(1)):
                        continue
                    ctx.check(False, 'windowless:first-item', lambda: '{}: the first item, which has nothing before, is compared with a prediction from the entire series'.format(where()))
                ctx.check(got[0] == 'ok' and close(got[1], ref), 'forecaster', lambda: '{}: {} instead of {}'.format(where(), got, ref))
                ctx.outcome(str(ref))
                ctx.ok()
            # The details
            got = outcome_of(model.evaluate, series, error_metrics=['MAE', 'MAPE', 'MALE'], punctual_error_metrics=['E', 'PE', 'LE'], return_results_series=True)
            ctx.step()
            if ctx.check(got[0] == 'ok' and len(got[1].get('series', ())) == n - start, 'results', lambda: 'window {} giving {} on {} {}: {}'.format(window, form, kind, rows, got)):
                for k, item in enumerate(got[1]['series']):
                    expected = {l: rows[l][start + k] for l in labels}
                    for l in scored:
                        a, p = pairs[l][k]
                        expected.update({l + '_pred': p, l + '_AE': abs(a - p), l + '_APE': abs((a - p) / a), l + '_ALE': abs(math.log(a / p)), l + '_E': a - p, l + '_PE': (a - p) / a, l + '_LE': math.log(a / p)})
                    ctx.check(close(item.data, expected) and close(item.t if kind == 'points' else item.start.t, series[start + k].t if kind == 'points' else series[start + k].start.t), 'results',
                              lambda: 'window {} giving {} on {} {}: item {} is {} instead of {}'.format(window, form, kind, rows, k, item, expected))
                    ctx.ok()
            ctx.check(snap(series) == before, 'source', lambda: 'window {} giving {} on {} {}: the series changed'.format(window, form, kind, rows))
            ctx.state((window, form, kind, pattern, target))
            for wrong in (dict(error_metrics=['XYZ']), dict(punctual_error_metrics=['XYZ']), dict(steps=2)):
                got = outcome_of(model.evaluate, series, **wrong)
                ctx.step()
                ctx.check(got[0] == 'err', 'refused', lambda: '{} accepted'.format(wrong))


class Gaps(Reconstructor):
    def __init__(self, window, form):
        self.window = window
        self.form = form
        super().__init__()

    @Reconstructor.fit_function
    def fit(self, series, verbose=False):
        pass

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        out = gap_of([i.data['a'] for i in series], self.window or 0, from_i, to_i)
        return [{'a': v} for v in out] if self.form == 'list' else {'a': out}


def gap_of(values, w, from_i, to_i):
    base = sum(values[from_i - k - 1] + 2 * values[to_i + k + 1] for k in range(w)) / 4
    return [base + 0.75 + (k - from_i) * 0.5 for k in range(from_i, to_i + 1)]


def run_reconstructors(ctx, case):
    window, form, kind, n = case['window'], case['form'], case['kind'], case['n']
    w = window or 0
    for pattern in itertools.product((1, 3), repeat=n):
        values = [v + 0.25 * i for i, v in enumerate(pattern)]
        lossy = [()] + [(p,) for p in range(n)] + list(itertools.combinations(range(n), 2))
        for lost in lossy if sum(pattern) % 6 == 0 else lossy[:1]:
            losses = None if not lost else [(0.6 if i % 2 else 1) if i in lost else (0 if i % 3 else None) for i in range(n)]
            series = build(kind, values, losses=losses)
            before = snap(series)
            model = Gaps(window, form)
            model.fit(series)
            for threshold in (1.0, 0.5) if lost else (1.0,):
                bad = [losses is not None and (losses[i] or 0) >= threshold for i in range(n)]
                for steps, rounds in ((1, [1]), (2, [1, 2]), ([2], [2]), ([1, 3], [1, 3]), ('auto', [1, 2, 3])):
                    for limit in (None, 1, 2):
                        got = outcome_of(model.evaluate, series, steps=steps, limit=limit, data_loss_threshold=threshold, metrics=['RMSE', 'MAE', 'MAPE'], details=True)
                        ctx.step()

                        def where():
                            return 'window {} giving {} on {} {} with losses {}, steps {}, limit {} and threshold {}'.format(window, form, kind, values, losses, steps, limit, threshold)

                        options = []
                        for last in (0, 1):
                            ref = {}
                            for s in rounds:
                                good = [i for i in range(w, n - s - w + last) if not any(bad[i - w:i + s + w])][:limit]
                                actual = [values[j] for i in good for j in range(i, i + s)]
                                pred = [p for i in good for p in gap_of(values, w, i, i + s - 1)]
                                if not actual:
                                    ref = None
                                    break
                                for m in ('RMSE', 'MAE', 'MAPE'):
                                    ref['{}_{}_steps'.format(m, s)] = metric(m, actual, pred)
                            if ref:
                                for m in ('RMSE', 'MAE', 'MAPE'):
                                    ref[m] = sum(ref['{}_{}_steps'.format(m, s)] for s in rounds) / len(rounds)
                            options.append(ref)
                        if got[0] == 'ok':
                            ctx.check(any(r and close(got[1], r) for r in options), 'reconstructor', lambda: '{}: {} instead of {}'.format(where(), got, options))
                            simple = outcome_of(model.evaluate, series, steps=steps, limit=limit, data_loss_threshold=threshold, metrics=['MAE', 'MAPE'])
                            ctx.step()
                            ctx.check(simple[0] == 'ok' and close(simple[1], {m: got[1][m] for m in ('MAE', 'MAPE')}), 'reconstructor', lambda: '{}: without details {}'.format(where(), simple))
                        else:
                            ctx.check(None in options and got[1] == 'NotEnoughDataError', 'reconstructor', lambda: '{}: {} instead of {}'.format(where(), got, options))
                        ctx.outcome(str(options))
                        ctx.ok()
            ctx.check(snap(series) == before, 'source', lambda: 'window {} on {} {}: the series changed'.format(window, kind, values))
            ctx.state((window, form, kind, pattern, lost))
