"""M07: anomaly detection scores each item against its prediction, and only that."""
import itertools
import math
import statistics
import warnings
from mc.lib import *
from timeseria.models.forecasters import Forecaster
from timeseria.models.reconstructors import Reconstructor
from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector, PeriodicAverageAnomalyDetector, PeriodicAverageReconstructorAnomalyDetector

PROPERTY = 'M07'
LEVEL = 'model_checking'
RULE = ('every detector (over stub forecasters and reconstructors of any window, and the periodic average ones), error metric, error distribution, index type, bounds, threshold, multivariate strategy and details, on every placement and magnitude of one or two '
        'anomalies and every placement of lost items in points and slots, against errors, distributions and indexes computed independently. A non-trivial outcome is a distinct sequence of anomaly indexes')
ASSUMPTIONS = ['the reference formulas for the distribution are used for the normal one, other distributions are those fitted by the library',
               'with signed errors items are scored on the distance from the center of the distribution, with absolute ones on the error',
               'percentage errors are not defined on zeros', 'up to one more item than the window may be left out at the beginning', 'items with too much data loss in or around them are kept, but not scored',
               'bounds on which the distribution is zero, or the same, are refused or not scored']
BOUNDS = {'quick': '6 detectors, 4 metrics, series of 7 items with one anomaly of 5 magnitudes at any position and up to 2 lost items', 'thorough': '6 detectors, 4 metrics, series of 9 items with up to two anomalies of 7 magnitudes and up to 3 lost items'}
CHUNK = 1
ROME = 'Europe/Rome'

warnings.simplefilter('ignore')


class LastValue(Forecaster):
    window = 1

    @Forecaster.fit_function
    def fit(self, series, verbose=False):
        pass

    @Forecaster.predict_function
    def predict(self, series, steps=1):
        return {l: series[-1].data[l] for l in series.data_labels()}


class MeanOfTwo(LastValue):
    window = 2

    @Forecaster.predict_function
    def predict(self, series, steps=1):
        return [{l: (series[-1].data[l] + series[-2].data[l]) / 2 for l in series.data_labels()}]


class Between(Reconstructor):
    window = 1

    @Reconstructor.fit_function
    def fit(self, series, verbose=False):
        pass

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        w = self.window
        return {l: [sum(series[from_i - k - 1].data[l] + series[to_i + k + 1].data[l] for k in range(w)) / (2 * w)] * (to_i - from_i + 1) for l in series.data_labels()}


class Among(Between):
    window = 2


DETECTORS = {'last': LastValue, 'two': MeanOfTwo, 'between': Between, 'among': Among, 'average': None, 'raverage': None}
WINDOW = {'last': 1, 'two': 2, 'between': 1, 'among': 2, 'average': 3, 'raverage': 1}
FIT = {'a': [(5 + [0, 2, -1][i % 3] + [0, .5, -.25, 1, .75, -1, .3][i % 7]) for i in range(22)], 'b': [(20 - [0, 2, -1][i % 3] + [0, .5, .25, -.5][i % 4] * 2 + [0, 0, .1, .3, -.2][i % 5]) for i in range(22)]}


def predicted(name, values, i, fit):
    """The prediction for the i-th value, by definition."""
    w = WINDOW[name]
    if name == 'last':
        return values[i - 1]
    if name == 'two':
        return (values[i - 1] + values[i - 2]) / 2
    if name in ('between', 'among'):
        return sum(values[i - k - 1] + values[i + k + 1] for k in range(w)) / (2 * w)
    avg = [statistics.mean(fit[p::3]) for p in range(3)]
    if name == 'raverage':
        return avg[i % 3] + sum(values[j] - avg[j % 3] for j in (i - 1, i + 1)) / 2
    return None


def error(metric, actual, pred):
    e = actual - pred
    if metric.endswith('PE'):
        e = e / actual
    return abs(e) if metric.startswith('A') else e


def build(values, kind, losses=None):
    labels = tuple(values)
    rows = list(zip(*values.values()))
    indexes = [dict({'x': i}, **({'data_loss': losses[i]} if losses and losses[i] is not None else {})) for i in range(len(rows))]
    if kind == 'points':
        return points([60 * i for i in range(len(rows))], rows, labels=labels, indexes=indexes, tz=ROME)
    return slots(0, '1h', rows, labels=labels, indexes=indexes)


FITTED = {}


def fitted(name, metric, dist, labels, kind, store=True):
    key = (name, metric, dist, labels, kind, store)
    if key not in FITTED:
        det = {'average': PeriodicAverageAnomalyDetector, 'raverage': PeriodicAverageReconstructorAnomalyDetector}.get(name)
        det = det() if det else ModelBasedAnomalyDetector(model_class=DETECTORS[name])
        kw = dict(periodicity=3) if name in ('average', 'raverage') else {}
        det.fit(build({l: FIT[l] for l in labels}, kind), error_metric=metric, error_distribution=dist, store_errors=store, **kw)
        FITTED[key] = det
    return FITTED[key]


def cases(tier):
    for name in DETECTORS:
        for metric in ('E', 'AE', 'PE', 'APE'):
            for dist in ('norm', 'gennorm') if name != 'average' else ('norm',):
                for labels in (('a',), ('b', 'a')):
                    if labels == ('a',) or name not in ('raverage',):
                        yield dict(name=name, metric=metric, dist=dist, labels=list(labels), tier=tier)


def bounds(det, label, spec, errs, loc, scale):
    if spec == 'avg_err':
        return statistics.mean(abs(e) for e in errs)
    if spec == 'max_err':
        return max(abs(e) for e in errs)
    if isinstance(spec, str) and spec.endswith('_sigma'):
        return float(spec[:-6]) * statistics.stdev(errs)
    if isinstance(spec, str) and spec.endswith('sig'):
        return float(spec[:-3]) * statistics.stdev(errs)
    if isinstance(spec, str) and spec.startswith('adherence/'):
        # Where the normal distribution is lower than at its center by the factor
        return loc + scale * math.sqrt(2 * math.log(float(spec[10:])))
    return spec


BOUND_SETS = [['avg_err', 'max_err'], ('max_err', '10_sigma'), ['2sig', 'adherence/1000'], (0.1, 9)]


def run(ctx, case):
    name, metric, dist, labels, tier = case['name'], case['metric'], case['dist'], tuple(case['labels']), case['tier']
    w = WINDOW[name]
    rec = name in ('between', 'among', 'raverage')
    for kind in ('points', 'slots'):
        got = outcome_of(fitted, name, metric, dist, labels, kind)
        ctx.step()
        if not ctx.check(got[0] == 'ok', 'fit', lambda: '{}: fit failed with {}'.format(case, got)):
            return
        det = got[1]
        # What has been fit
        learnt = {}
        for l in labels:
            n = len(FIT[l])
            ok = False
            errs = det.data['prediction_errors'][l]
            if name == 'average':
                # The predictions of this one are another property
                series = build({k: FIT[k] for k in labels}, kind)
                errs_of = {i: error(metric, FIT[l][i], det.model.predict(series[:i], steps=1)[0][l]) for i in range(w, n)}
            else:
                errs_of = {i: error(metric, FIT[l][i], predicted(name, FIT[l], i, FIT[l])) for i in range(w, n - w if rec else n)}
            for start in (w, w + 1):
                ref = [errs_of[i] for i in sorted(errs_of) if i >= start]
                ok = ok or close(errs, ref)
            ctx.check(ok, 'errors', lambda: '{}: errors {} instead of {}'.format(case, errs, errs_of))
            params = det.data['error_distributions_params'][l]
            if dist == 'norm':
                ctx.check(close([params['loc'], params['scale']], [statistics.mean(errs), statistics.pstdev(errs)], rel=1e-6), 'distribution', lambda: '{}: distribution {}'.format(case, params))
            ctx.check(close(det.data['stdevs'][l], statistics.stdev(errs)), 'distribution', lambda: '{}: standard deviation {}'.format(case, det.data['stdevs'][l]))
            learnt[l] = (errs, params)
        apply_all(ctx, case, det, learnt, kind)
    refits(ctx, case)


def apply_all(ctx, case, det, learnt, kind):
    name, labels, tier = case['name'], tuple(case['labels']), case['tier']
    n = 7 if tier == 'quick' else 9
    base = {l: FIT[l][3:3 + n] for l in labels}
    magnitudes = (-9, -1.5, 0.4, 1.2, 9) if tier == 'quick' else (-30, -9, -1.5, -0.6, 0.4, 1.2, 9)
    anomalies = [()] + [((p, m),) for p in range(n) for m in magnitudes]
    if tier == 'thorough':
        anomalies += [((p, m), (q, k)) for p, q in itertools.combinations(range(n), 2) for m in magnitudes[::3] for k in magnitudes[1::3]]
    setups = [dict(index_bounds=b, index_type=t) for b in BOUND_SETS for t in ('log', 'lin')]
    setups += [dict(threshold=0.5), dict(index_type=lambda x, y, x_start, x_end, y_start, y_end: (x - x_start) / (x_end - x_start))]
    if len(labels) > 1:
        setups += [dict(multivariate_index_strategy=m) for m in ('min', 'avg', 'max', lambda v: sorted(v)[0] / 2)]
    if kind == 'slots' and tier == 'quick':
        anomalies = anomalies[::4]
    for anomaly in anomalies:
        values = {l: list(base[l]) for l in labels}
        for p, m in anomaly:
            values[labels[0]][p] += m
            if m > 1:
                values[labels[-1]][p] += m / 2
        for setup in setups:
            one(ctx, case, det, learnt, kind, values, None, dict(setup))
        for details in (True, ['pred'], ['adh', 'err']):
            one(ctx, case, det, learnt, kind, values, None, dict(details=details))
    # Lost items
    values = {l: list(base[l]) for l in labels}
    values[labels[0]][n // 2] += 3
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        for lost in itertools.combinations(range(n), k):
            for loss, setup in ((1, {}), (0.5, {}), (0.5, dict(data_loss_threshold=0.5)), (0.6, dict(data_loss_threshold=0.5, details=True)), (1, dict(details=['pred']))):
                losses = [loss if i in lost else (None, 0)[i % 2] for i in range(n)]
                one(ctx, case, det, learnt, kind, values, losses, setup)


def one(ctx, case, det, learnt, kind, values, losses, setup):
    name, metric, dist, labels = case['name'], case['metric'], case['dist'], tuple(case['labels'])
    w = WINDOW[name]
    rec = name in ('between', 'among', 'raverage')
    n = len(values[labels[0]])
    spec = setup.get('index_bounds', ['avg_err', 'max_err'])
    if dist != 'norm' and any(isinstance(s, str) and s.startswith('adherence') for s in spec):
        return
    series = build(values, kind, losses)
    old = [snap_item(i) for i in series]
    got = outcome_of(det.apply, series, **setup)
    ctx.step()
    ctx.state((kind, str(values), str(losses), str({k: v for k, v in setup.items() if not callable(v)})))

    def where():
        return '{} on {} of {} with losses {} and {}'.format({k: case[k] for k in ('name', 'metric', 'dist')}, kind, values, losses, setup)

    ctx.check([snap_item(i) for i in series] == old, 'source', lambda: '{}: the source changed'.format(where()))
    if got[0] == 'err' and 'math domain' in got[2]:
        # The distribution is too thin for the bounds
        return
    if not ctx.check(got[0] == 'ok', 'apply', lambda: '{}: failed with {}'.format(where(), got)):
        return
    res = list(got[1])
    starts = [i for i in range(n) if res and close(series[i].t, res[0].t)]
    last = n - w if rec else n
    if not ctx.check(bool(starts) and w <= starts[0] <= w + 1 and len(res) == last - starts[0] and isinstance(got[1], TimeSeries), 'borders', lambda: '{}: scored {} items from {}'.format(where(), len(res), starts)):
        return
    # The index of each label
    limit = setup.get('data_loss_threshold', 1.0)
    lost = [losses is not None and losses[i] is not None and losses[i] >= limit for i in range(n)]
    details = setup.get('details', False)
    wanted = ['pred', 'err', 'adh'] if details is True else details or []
    marks = []
    plain = build(values, kind, losses)
    for i, item in zip(range(starts[0], last), res):
        around = range(i - w, i + w + 1 if rec else i + 1)
        exp_index, exp_details, flat = [], {}, False
        for l in labels:
            errs, params = learnt[l]
            loc, scale = params['loc'], params['scale']
            if name == 'average':
                pred = det.model.predict(plain[:i], steps=1)[0][l]
            else:
                pred = predicted(name, values[l], i, FIT[l])
            e = error(metric, values[l][i], pred)
            x = 2 * loc - e if (e < loc and not metric.startswith('A')) else e

            def pdf(v):
                if dist == 'norm':
                    return math.exp(-((v - loc) / scale) ** 2 / 2) / (scale * math.sqrt(2 * math.pi))
                b = params['beta']
                return b / (2 * math.gamma(1 / b)) * math.exp(-abs((v - loc) / scale) ** b) / scale

            lo, hi = (bounds(det, l, s, errs, loc, scale) for s in spec)
            kind_of = setup.get('index_type', 'log')
            if x <= lo:
                index = 0
            elif x >= hi:
                index = 1
            elif kind_of == 'log':
                index = max(0, (math.log10(pdf(x)) - math.log10(pdf(lo))) / (math.log10(pdf(hi)) - math.log10(pdf(lo))))
            elif kind_of == 'lin' and close(pdf(lo), pdf(hi), rel=1e-9, abs_=1e-300):
                flat, index = True, 0
            elif kind_of == 'lin':
                index = max(0, 1 - (pdf(x) - pdf(hi)) / (pdf(lo) - pdf(hi)))
            else:
                index = (x - lo) / (hi - lo)
            if setup.get('threshold') is not None:
                index = 0 if index < setup['threshold'] else 1
            exp_index.append(index)
            try:
                adh = pdf(x) / pdf(loc)
            except OverflowError:
                adh = 0
            exp_details.update({l + '_pred': pred, l + '_err': e, l + '_adh': adh})
        how = setup.get('multivariate_index_strategy', 'max')
        exp = how(exp_index) if callable(how) else {'max': max, 'min': min, 'avg': statistics.mean}[how](exp_index)
        unscored = any(lost[j] for j in around)
        if unscored:
            ctx.check('anomaly' not in item.data_indexes, 'lost', lambda: '{}: item {} scored {} despite of the data losses'.format(where(), i, item.data_indexes))
        else:
            mark = item.data_indexes.pop('anomaly', None)
            marks.append(round(mark, 6) if mark is not None else None)
            # On the edge of the bounds floating point approximations decide, if the index is not continuous there
            edge = setup.get('threshold') is not None and any(abs(v - setup['threshold']) < 1e-6 for v in exp_index)
            ctx.check(edge or flat or close(mark, exp, rel=1e-5, abs_=1e-5), 'index', lambda: '{}: item {} scored {} instead of {}'.format(where(), i, mark, exp))
            ctx.check(flat or mark is not None and -1e-9 <= mark <= 1 + 1e-9, 'range', lambda: '{}: item {} scored {}'.format(where(), i, mark))
        for l in labels:
            for d in wanted:
                v = item.data.pop('{}_{}'.format(l, d), 'missing')
                ctx.check(v is None if unscored else close(v, exp_details['{}_{}'.format(l, d)], rel=1e-5, abs_=1e-5) if v is not None else False, 'details', lambda: '{}: item {} has {}_{}={} instead of {}'.format(where(), i, l, d, v, exp_details))
        ctx.check(snap_item(item) == old[i], 'else', lambda: '{}: item {} changed in something else'.format(where(), i))
        ctx.ok()
    ctx.outcome((tuple(marks)))
    for item in res:
        item.data[labels[0]] = 1234
        item.data_indexes['z'] = 1
    ctx.check([snap_item(i) for i in series] == old, 'sharing', lambda: '{}: the result shares items with the source'.format(where()))
    # Pre-processed, it is the same
    if case['tier'] == 'quick' and losses is None and any(k in setup for k in ('index_bounds', 'threshold')):
        return
    again = outcome_of(det.apply, build(values, kind, losses), **setup)
    pre = outcome_of(lambda: det.apply(det.preprocess(build(values, kind, losses)), **setup))
    ctx.step(2)
    ctx.check(again[0] == 'ok' and pre[0] == 'ok' and str(snap(again[1])) == str(snap(pre[1])), 'preprocess', lambda: '{}: with pre-processing {}'.format(where(), pre))
    if losses is None and (case['tier'] != 'quick' or setup.get('details') is True):
        preprocessing(ctx, det, values, kind, setup, again, where)


def preprocessing(ctx, det, values, kind, setup, again, where):
    """In place or not, and only what has been pre-processed."""
    same, other = build(values, kind), build(values, kind)
    before = vars_of(other)
    here, there = outcome_of(det.preprocess, same, inplace=True), outcome_of(det.preprocess, other)
    ctx.step(2)
    if not ctx.check(here[0] == there[0] == 'ok', 'preprocess', lambda: '{}: pre-processing {} {}'.format(where(), here, there)):
        return
    ctx.check(here[1] is same and there[1] is not other and vars_of(other) == before, 'inplace', lambda: '{}: pre-processing in place gives the series itself: {}, not in place changes it: {}'.format(where(), here[1] is same, vars_of(other) != before))
    # Each item of the not in place one is its own
    for item in there[1]:
        item.data_indexes['z'] = 1
    ctx.check(not any('z' in i.data_indexes for i in other), 'inplace', lambda: '{}: pre-processing not in place shares the items'.format(where()))
    for what, s in (('in place', same), ('source', other)):
        got = outcome_of(det.apply, s, **setup)
        ctx.step()
        ctx.check(got[0] == again[0] == 'ok' and str(snap(got[1])) == str(snap(again[1])), 'preprocess', lambda: '{}: {} after pre-processing gives {}'.format(where(), what, got))
    # What is obtained from a pre-processed series
    plain = build(values, kind)
    for what, f in (('the end', lambda s: s[1:]), ('the start', lambda s: s[:-1]), ('the offset', lambda s: s.offset(1)), ('a copy', lambda s: s.duplicate())):
        got = outcome_of(lambda: det.apply(f(same), **setup))
        ref = outcome_of(lambda: det.apply(f(plain), **setup))
        ctx.step(2)
        ctx.check(got[0] == ref[0] and (got[0] == 'err' or str(snap(got[1])) == str(snap(ref[1]))), 'derived', lambda: '{}: {} of the pre-processed series gives {} instead of {}'.format(where(), what, got, ref))
    ctx.ok()


def vars_of(series):
    return sorted(vars(series))


def refits(ctx, case):
    """A new fit replaces the previous one, also for series already pre-processed, and the errors do not need to be stored."""
    name, metric, dist, labels = case['name'], case['metric'], case['dist'], tuple(case['labels'])
    kind = 'points'
    one_ = build({l: FIT[l] for l in labels}, kind)
    two = build({l: [v * 1.5 + (i % 2) for i, v in enumerate(FIT[l])] for l in labels}, kind)
    det = fitted(name, metric, dist, labels, kind)
    kw = dict(periodicity=3) if name in ('average', 'raverage') else {}
    args = dict(error_metric=metric, error_distribution=dist)
    spec = dict(index_bounds=['avg_err', 'max_err'], index_type=lambda x, y, x_start, x_end, y_start, y_end: (x - x_start) / (x_end - x_start))
    for store in (True, False):
        m = det.__class__() if name in ('average', 'raverage') else ModelBasedAnomalyDetector(model_class=DETECTORS[name])
        got = outcome_of(m.fit, two, store_errors=True, **args, **kw)
        pre = outcome_of(m.preprocess, one_)
        got2 = outcome_of(m.fit, one_, store_errors=store, **args, **kw)
        ctx.step(3)
        if not ctx.check(got[0] == pre[0] == got2[0] == 'ok', 'refit', lambda: '{}: {} {} {}'.format(case, got, pre, got2)):
            continue
        ref = outcome_of(det.apply, one_, **spec)
        new = outcome_of(m.apply, one_, **spec)
        new2 = outcome_of(m.apply, pre[1], **spec)
        ctx.step(3)
        if ref[0] == 'err' and 'math domain' in ref[2]:
            continue
        ctx.check(ref[0] == new[0] == 'ok' and snap(ref[1]) == snap(new[1]), 'refit', lambda: '{}: storing={}, after a new fit {} instead of {}'.format(case, store, new, ref))
        ctx.check(ref[0] == new2[0] == 'ok' and snap(ref[1]) == snap(new2[1]), 'stale', lambda: '{}: storing={}, a series pre-processed before a new fit gives {} instead of {}'.format(case, store, new2, ref))
        ctx.ok()
