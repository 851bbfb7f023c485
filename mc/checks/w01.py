"""W01: what is computed for a data label depends only on the values of that label."""
import itertools
import os
import warnings
from mc import core
from mc.lib import *
from mc.checks.o01 import OPS
from timeseria.interpolators import UniformInterpolator
from timeseria.operations import avg, min as min_, max as max_, sum as sum_, merge
from timeseria.transformations import Resampler, Aggregator
from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.models.reconstructors import LinearInterpolationReconstructor

PROPERTY = 'W01'
LEVEL = 'model_checking'
RULE = ('every ordered choice of some labels out of a set of names (equal but for the case, one the beginning of another, like the ones given to the results, numbers, with spaces, empty), for each kind of series and function: what is obtained for all of the labels together is what is obtained for each of them '
        'alone, put together; the same goes for series of lists of values, for each position. A non-trivial outcome is a distinct result')
ASSUMPTIONS = ['names such that the result of two labels would be under the same name are left out', 'the results for a single label are right, as decided by the other properties']
BOUNDS = {'quick': '6 kinds of series, 48 functions, each ordered choice of 2 out of 16 names and of 3 out of 8, lists of up to 12 values', 'thorough': 'each ordered choice of 2 out of 16, 3 out of 12 and 4 out of 7'}
CHUNK = 1
TIMEOUT = 800
warnings.simplefilter('ignore')
NAMES = ['a', 'b', 'A', 'ab', 'a_avg', 'a_b', '10', '9', '0', 'data loss', 'è', 'value', 't', 'x.y', 'epoch', 'weight']
KINDS = {'points': (600, 86400 * 17897), 'uneven': (None, 86400 * 17897), 'lossy': (600, 86400 * 17897), 'gaps': (600, 86400 * 17897), 'slots': ('1h', 86400 * 17897), 'days': ('1D', 86400 * 17897)}
N = 24


def value(label, i):
    k = NAMES.index(label) if isinstance(label, str) else label
    return ((i * 7919 + 3 * k * i * i + k * 31) % (11 + k)) * (0.5 + k / 4) - 3 * k + (0 if k % 2 else 0.125)


def build(kind, labels, n=N):
    step, start = KINDS[kind]
    data = [dict((l, value(l, i)) for l in labels) if isinstance(labels[0], str) else [value(l, i) for l in labels] for i in range(n)]
    lossy = kind in ('lossy', 'days')
    s = TimeSeries()
    p = TimePoint(t=start)
    for i, d in enumerate(data):
        if kind == 'gaps' and i in (9, 10, 11, 12, 17):
            continue
        kw = dict(data_loss=[0, 0.25, 1, None, 1, 1, 0.5][i % 7] if i < n - 1 else 0, data_indexes=None) if lossy else dict(data_indexes={'x': i / n})
        if lossy:
            kw.pop('data_indexes')
        if isinstance(step, str):
            s.append(DataTimeSlot(start=p, unit=TimeUnit(step), data=d, **kw))
            p = s[-1].end
        else:
            s.append(DataTimePoint(t=start + (step * i if step else 60 * i * (i + 3)), data=d, **kw))
    return s


def file():
    return '{}/w01-{}.csv'.format(core.scratch(), os.getpid())


def csv(s):
    s.save(file(), overwrite=True)
    return TimeSeries.load(file())


def step_of(s):
    return s[1].t - s[0].t


def model(factory, op, fit=None, **kw):
    def use(s):
        m = factory()
        if fit is not None:
            m.fit(s, **fit)
        return getattr(m, op)(s, **kw)
    return use


def labels_of(s):
    return s.data_labels()


FUNCTIONS = {k: OPS[k][0] for k in ('min', 'max', 'avg', 'sum', 'derivative', 'derivative(no)', 'derivative(diffs)', 'integral', 'integral(c)', 'integral(offset)', 'diff', 'csum', 'csum(offset)', 'normalize', 'normalize(range)', 'rescale', 'offset', 'mavg', 'slice', 'slice(t)', 'merge(self)', 'duplicate', 'view')}
FUNCTIONS.update({
    'items': list, 'csv': csv, 'json': lambda s: TimeSeries.from_json(s.to_json()), 'df': lambda s: TimeSeries.from_df(s.to_df()), 'dict': lambda s: TimeSeries.from_dict(s.to_dict()), 'merge': lambda s: merge(s, s.duplicate().offset(4)),
    'resample': lambda s: s.resample(600), 'resample(2)': lambda s: s.resample(1200), 'uniform': lambda s: Resampler(600, interpolator_class=UniformInterpolator).process(s), 'aggregate': lambda s: s.aggregate('1h'), 'aggregate(ops)': lambda s: Aggregator('30m', operations=[min_, max_, sum_, avg]).process(s), 'aggregate(max)': lambda s: Aggregator('30m', operations=[max_]).process(s),
    'interpolate': lambda s: LinearInterpolationReconstructor().apply(s),
    'forecast': model(PeriodicAverageForecaster, 'apply', dict(periodicity=4), steps=7), 'forecast(window)': model(lambda: PeriodicAverageForecaster(window=2), 'predict', dict(periodicity=5), steps=3), 'forecast(1)': model(PeriodicAverageForecaster, 'predict', dict(periodicity=3)),
    'rescale labels': lambda s: s.rescale({l: 2 + len(l) for l in labels_of(s)}), 'offset labels': lambda s: s.offset({l: 2 - len(l) for l in labels_of(s)}), 'normalize sources': lambda s: s.normalize(range=[-2, 5], source_range={l: [-60, 40 + len(l)] for l in labels_of(s)}),
    'in place rescale': lambda s: s.rescale(-2, inplace=True) or s, 'in place offset': lambda s: s.offset(0.5, inplace=True) or s, 'in place normalize': lambda s: s.normalize(inplace=True) or s, 'in place csum': lambda s: s.csum(inplace=True) or s, 'in place derivative': lambda s: s.derivative(inplace=True) or s, 'in place integral': lambda s: s.integral(inplace=True) or s,
})
# With a label given, only what is for that label
ONE = {'min': lambda s, l: s.min(l), 'max': lambda s, l: s.max(l), 'avg': lambda s, l: s.avg(l), 'sum': lambda s, l: s.sum(l)}
FEW = ['a', 'ab', 'A', 'a_avg', '10', '9', 'è', 'b']


def choices(tier):
    out = [c for c in itertools.permutations(NAMES, 2)]
    out += list(itertools.permutations(FEW if tier == 'quick' else FEW + ['t', 'value', '0', 'epoch'], 3))
    if tier == 'thorough':
        out += list(itertools.permutations(FEW[:7], 4))
    return out


def cases(tier):
    for kind in KINDS:
        for name in FUNCTIONS:
            yield dict(what='labels', kind=kind, name=name, tier=tier)
            if name not in ('rescale labels', 'offset labels', 'normalize sources'):
                yield dict(what='lists', kind=kind, name=name, tier=tier)
        yield dict(what='edits', kind=kind, tier=tier)


def run(ctx, case):
    globals()[case['what']](ctx, **{k: v for k, v in case.items() if k != 'what'})


def norm(v):
    """The rest, and a list with the data of each item."""
    if isinstance(v, (Series, list)):
        out = [norm(i) for i in v]
        return [(str(v.resolution), str(v.tz)) if isinstance(v, Series) else None] + [o[0] for o in out], [d for o in out for d in o[1]]
    if isinstance(v, (Point, Slot)):
        return [(type(v).__name__, v.start.t, v.end.t, str(v.unit)) if isinstance(v, Slot) else (type(v).__name__, v.t), dict(v.data_indexes)], [held(v.data)]
    if isinstance(v, dict):
        return None, [held(v)]
    raise TypeError(type(v))


def held(data):
    return {k: float(x) for k, x in data.items()} if isinstance(data, dict) else [float(x) for x in data]


def outcome(fn, s):
    got = outcome_of(lambda: norm(fn(s)))
    return got if got[0] == 'ok' else got[:2]


def together(refs):
    """What the results for each one give together."""
    if any(r[0] == 'err' for r in refs):
        return ('err', None)
    rest = refs[0][1][0]
    data = []
    for one in zip(*(r[1][1] for r in refs)):
        if isinstance(one[0], dict):
            d = {}
            for x in one:
                if set(d) & set(x):
                    return None
                d.update(x)
        else:
            d = [v for x in one for v in x]
        data.append(d)
    return ('ok', (rest, data))


def agree(got, exp):
    if exp[0] == 'err':
        return got[0] == 'err'
    return got[0] == 'ok' and repr(got[1][0]) == repr(exp[1][0]) and close(got[1][1], exp[1][1], 1e-9, 1e-8)


def labels(ctx, kind, name, tier):
    fn = FUNCTIONS[name]
    refs = {}
    for chosen in choices(tier):
        for l in chosen:
            if l not in refs:
                refs[l] = outcome(fn, build(kind, [l]))
        exp = together([refs[l] for l in chosen])
        if exp is None:
            continue
        s = build(kind, list(chosen))
        got = outcome(fn, s)
        ctx.step()
        ctx.check(agree(got, exp), 'labels', lambda: '{} of {} with labels {}: {} instead of {}'.format(name, kind, chosen, got, exp))
        if name in ONE:
            for l in chosen:
                one = outcome_of(ONE[name], s, l)
                ctx.check(one[0] == 'ok' and close(one[1], refs[l][1][1][0][l]), 'label', lambda: '{} of {} with labels {}, for {}: {} instead of {}'.format(name, kind, chosen, l, one, refs[l]))
        ctx.state((kind, name, chosen))
        ctx.outcome(repr(exp))
        ctx.ok()


def numbered(ref, position):
    """For the functions giving the positions as labels, the right one."""
    return 'ok', (ref[1][0], [{str(position) + k[1:]: v for k, v in d.items()} if isinstance(d, dict) else d for d in ref[1][1]])


def lists(ctx, kind, name, tier):
    fn = FUNCTIONS[name]
    refs = {}
    for size in range(2, 13):
        for columns in ([list(range(size)), list(range(size))[::-1]] if size > 3 else [list(c) for c in itertools.permutations(range(4), size)]):
            for k in columns:
                if k not in refs:
                    refs[k] = outcome(fn, build(kind, [k]))
            if any(r[0] == 'err' for r in refs.values()):
                # What cannot be done on lists
                return
            exp = together([numbered(refs[k], p) for p, k in enumerate(columns)])
            got = outcome(fn, build(kind, columns))
            ctx.step()
            ctx.check(agree(got, exp), 'lists', lambda: '{} of {} with columns {}: {} instead of {}'.format(name, kind, columns, got, exp))
            ctx.state((kind, name, tuple(columns)))
            ctx.outcome(repr(exp))
            ctx.ok()


def edits(ctx, kind, tier):
    """What is done on a label leaves the other ones as they are."""
    for chosen in choices(tier):
        for l in chosen:
            rest = [x for x in chosen if x != l]
            alone = norm(build(kind, rest))
            for what, do in (('remove', lambda s: s.remove_data_label(l)), ('filter', lambda s: None), ('rename', lambda s: s.rename_data_label(l, 'new')), ('getitem', lambda s: None)):
                s = build(kind, list(chosen))
                got = outcome_of(do, s)
                if what == 'filter':
                    got = outcome_of(lambda: s.filter(*rest))
                    s = got[1]
                if what == 'getitem':
                    got = outcome_of(lambda: s[l])
                    s = got[1]
                ctx.step()
                if not ctx.check(got[0] == 'ok', 'edits', lambda: '{} of {} with labels {}, for {}: {}'.format(what, kind, chosen, l, got)):
                    continue
                now = norm(s)
                exp = norm(build(kind, [l])) if what == 'getitem' else alone
                if what == 'rename':
                    exp = exp[0], [dict(d, new=x[l]) for d, x in zip(exp[1], norm(build(kind, [l]))[1])]
                ctx.check(agree(('ok', now), ('ok', exp)) and sorted(s.data_labels()) == sorted(exp[1][0]), 'edits', lambda: '{} of {} with labels {}, for {}: {} instead of {}'.format(what, kind, chosen, l, now, exp))
                ctx.state((kind, chosen, l, what))
                ctx.outcome((kind, tuple(sorted(rest)), what))
                ctx.ok()
