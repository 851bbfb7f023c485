"""M03: reconstruction changes only what was lost."""
import itertools
from mc.lib import *
from timeseria.models.reconstructors import Reconstructor, LinearInterpolationReconstructor, PeriodicAverageReconstructor

PROPERTY = 'M03'
LEVEL = 'model_checking'
RULE = ('every word of data losses (none, zero, low, medium, total) up to a length, on points and slots (also daily across a DST change, and list data for the linear interpolation), for every threshold, for the linear interpolation, the periodic averages and '
        'stub reconstructors with any window and form of prediction, on the series and on a view of a longer one, in place and not, against a reference reconstruction. A non-trivial outcome is a distinct reconstructed series or refusal')
ASSUMPTIONS = ['a run of lost items with not enough items around it for the window of the reconstructor is refused', 'the line between items is on their timestamps (the starts for slots)',
               'values compared with a relative tolerance of 1e-9']
BOUNDS = {'quick': 'words of up to 4 items over 5 losses and of up to 7 over 2, 5 thresholds, 5 kinds of series, 6 reconstructors', 'thorough': 'words of up to 6 items over 5 losses and of up to 9 over 2, 5 thresholds, 6 kinds of series, 6 reconstructors'}
CHUNK = 1

LOSSES = {'-': None, '0': 0, 'l': 0.3, 'm': 0.5, 'x': 1}
THRESHOLDS = [1.0, 0.5, 0.4, 0.3, 0.0]
ROME = 'Europe/Rome'
KINDS = {
    'points': dict(ts=lambda i: 3 * i - 6),
    'points2': dict(ts=lambda i: 600 * i + 1553994000, tz=ROME, labels=('b', 'a')),
    'hslots': dict(start=3600 * 5, unit='1h', tz=ROME),
    'dslots': dict(start=epoch(2019, 3, 29, tz=ROME), unit='1D', tz=ROME, labels=('b', 'a')),
    'list': dict(ts=lambda i: 60 * i, labels=None),
    'mslots': dict(start=epoch(2020, 1, 1), unit='1M'),
}
VALUES = [3, -1, 4, 1.5, -5, 9, 2, 6.5, -5]


class Stub(Reconstructor):
    """Predicts values telling which predictions have been asked for what."""

    def __init__(self, window, form):
        self.window = window
        self.form = form
        super().__init__()

    @Reconstructor.predict_function
    def predict(self, series, from_i, to_i):
        if from_i - self.window < 0 or to_i + self.window > len(series) - 1:
            raise ValueError('Not enough window')
        rows = [{l: told(from_i, to_i, i, k) for k, l in enumerate(series.data_labels())} for i in range(from_i, to_i + 1)]
        return rows if self.form == 'list' else {l: [row[l] for row in rows] for l in series.data_labels()}


def told(from_i, to_i, i, k):
    return 1000 * from_i + 100 * to_i + 10 * i + k + 0.5


MODELS = ['linear', 'average', 'stub0list', 'stub0dict', 'stub1dict', 'stub2list']


def cases(tier):
    for kind in (list(KINDS)[:5] if tier == 'quick' else KINDS):
        for k in range(1, 5 if tier == 'quick' else 7):
            for head in itertools.product(LOSSES, repeat=min(k, 1 if k < 5 else 2)):
                yield dict(kind=kind, k=k, head=''.join(head), alphabet=''.join(LOSSES))
        # Longer words, with two losses only
        for k in (5, 6, 7) if tier == 'quick' else (7, 8, 9):
            for head in itertools.product('-x', repeat=2):
                yield dict(kind=kind, k=k, head=''.join(head), alphabet='-x')


def build(kind, word, before=0, after=0):
    """The series for a word of losses, possibly with other lost items before and after it."""
    c = KINDS[kind]
    labels = c.get('labels', ('a',))
    form = 'dict' if labels else 'list'
    word = 'x' * before + word + 'x' * after
    values = [tuple(VALUES[(i - before) % 9] * (1 - 3 * k) + k for k in range(len(labels or 'ab'))) for i in range(len(word))]
    indexes = [dict({'other': i - before}, **({} if LOSSES[w] is None else {'data_loss': LOSSES[w]})) for i, w in enumerate(word)]
    if 'ts' in c:
        return points([c['ts'](i - before) for i in range(len(word))], values, labels=labels, indexes=indexes, tz=c.get('tz'), kind=form)
    start = c['start']
    for _ in range(before):
        start = ref_shift(start, c['unit'], c.get('tz', 'UTC'), -1)
    return slots(start, c['unit'], values, labels=labels, indexes=indexes, tz=c.get('tz'), kind=form)


FITTED = {}


def model(name, kind):
    if name == 'linear':
        return LinearInterpolationReconstructor()
    if name == 'average':
        if kind not in FITTED:
            FITTED[kind] = PeriodicAverageReconstructor()
            FITTED[kind].fit(build(kind, '0' * 9), periodicity=3)
        return FITTED[kind]
    return Stub(int(name[4]), name[5:])


def run(ctx, case):
    kind = case['kind']
    for rest in itertools.product(case['alphabet'], repeat=case['k'] - len(case['head'])):
        word = case['head'] + ''.join(rest)
        for name in MODELS:
            if name == 'average' and (len(KINDS[kind].get('labels', 'a') or 'ab') > 1 or kind in ('mslots', 'dslots')):
                continue
            if kind == 'list' and name != 'linear':
                continue
            for threshold in THRESHOLDS if len(case['alphabet']) > 2 else (1.0,):
                one(ctx, kind, word, name, threshold)


def gaps(word, threshold):
    out = []
    for i, w in enumerate(word):
        if LOSSES[w] is not None and LOSSES[w] >= threshold:
            if out and out[-1][1] == i - 1:
                out[-1][1] = i
            else:
                out.append([i, i])
    return out


def one(ctx, kind, word, name, threshold):
    window = 1 if name in ('linear', 'average') else int(name[4])
    runs = gaps(word, threshold)
    refused = any(a - window < 0 or b + window > len(word) - 1 for a, b in runs)
    # A series of one point has no resolution
    single = name == 'average' and len(word) == 1
    for way in ('apply', 'inplace', 'view', 'inplace-view'):
        m = model(name, kind)
        if way.endswith('view'):
            whole = build(kind, word, 1, 1)
            series = whole.view(from_i=1, to_i=len(word) + 1)
        else:
            whole = series = build(kind, word)
        ref = [snap_item(item) for item in whole]
        ts = [item.t for item in series]
        data = [item.data for item in series]
        exp = {}
        for a, b in runs if not refused else ():
            for i in range(a, b + 1):
                if name == 'linear':
                    w = (ts[i] - ts[a - 1]) / (ts[b + 1] - ts[a - 1])
                    if isinstance(data[i], dict):
                        exp[i] = {l: data[a - 1][l] * (1 - w) + data[b + 1][l] * w for l in data[i]}
                    else:
                        exp[i] = [p * (1 - w) + q * w for p, q in zip(data[a - 1], data[b + 1])]
                elif name == 'average':
                    exp[i] = None
                else:
                    exp[i] = {l: told(a, b, i, k) for k, l in enumerate(series.data_labels())}
        if name == 'average' and not refused:
            # The averages are those of the positions in the period of the fit series
            avg = {p: sum(VALUES[p::3]) / 3 for p in range(3)}
            for a, b in runs:
                off = sum(data[j]['a'] - avg[j % 3] for j in (a - 1, b + 1)) / 2
                for i in range(a, b + 1):
                    exp[i] = {'a': avg[i % 3] + off}
        inplace = way.startswith('inplace')
        got = outcome_of(m.apply, series, data_loss_threshold=threshold, inplace=inplace)
        ctx.step()
        ctx.state((kind, word, name, threshold, way))

        def where():
            return '{} of {} with {} from {}'.format(way, word, name, threshold)

        if single and got[0] == 'err':
            continue
        if refused:
            ctx.check(got[0] == 'err', 'not-refused', lambda: '{}: gave {}'.format(where(), got))
            ctx.check([snap_item(item) for item in whole] == ref, 'source', lambda: '{}: refused but changed the series'.format(where()))
            ctx.ok()
            continue
        if not ctx.check(got[0] == 'ok', 'apply', lambda: '{}: failed with {}'.format(where(), got)):
            continue
        res = series if inplace else got[1]
        if not inplace:
            ctx.check([snap_item(item) for item in whole] == ref, 'source', lambda: '{}: changed its input'.format(where()))
            if not ctx.check(isinstance(res, TimeSeries) and (res.resolution == series.resolution or len(word) == 1) and str(res.tz) == str(series.tz), 'series', lambda: '{}: class, resolution or time zone changed'.format(where())):
                continue
        plain = [snap_item(item) for item in build(kind, word)]
        if not ctx.check(len(res) == len(word), 'length', lambda: '{}: length {}'.format(where(), len(res))):
            continue
        for i, item in enumerate(res):
            marked = item.data_indexes.pop('data_reconstructed', 'missing')
            ctx.check(marked == int(i in exp), 'mark', lambda: '{}: item {} marked {}'.format(where(), i, marked))
            if i in exp:
                ctx.check(close(item.data, exp[i]), 'values', lambda: '{}: item {} reconstructed as {} instead of {}'.format(where(), i, item.data, exp[i]))
                for l in (list(item.data) if isinstance(item.data, dict) else range(len(item.data))):
                    item.data[l] = build(kind, word)[i].data[l]
            ctx.check(snap_item(item) == plain[i], 'untouched', lambda: '{}: item {} changed to {}'.format(where(), i, item))
        if way.endswith('view') and inplace:
            ctx.check([snap_item(whole[0]), snap_item(whole[-1])] == [ref[0], ref[-1]], 'outside', lambda: '{}: changed outside of the view'.format(where()))
        ctx.outcome((name, tuple(sorted(exp)), str(exp)))
        ctx.ok()
        if not inplace:
            for item in res:
                item.data_indexes['data_loss'] = 7
                item.data['a' if isinstance(item.data, dict) else 0] = 1234
            ctx.check([snap_item(item) for item in whole] == ref, 'sharing', lambda: '{}: the result shares data with its input'.format(where()))
