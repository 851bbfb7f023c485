"""O01: operations never alter their input, and in-place is the same as not in-place."""
import copy
import itertools
import pickle
from mc.lib import *
from mc.gen import SHAPES, make, labels_of, val, frame
from timeseria.operations import merge

PROPERTY = 'O01'
LEVEL = 'model_checking'
RULE = ('every operation, and every ordered pair of operations (the second on the result of the first), on every series of a family (points and slots of physical and calendar units, even and uneven, one or more labels, '
        'dictionary or list data, with no indexes, data losses, or indexes on some of the items only): the source is compared before and after, also once the result has been altered; the operation is repeated; '
        'its in-place form is compared; the outcome on an intermediate result is compared with that on a series rebuilt from scratch with the same items. A non-trivial outcome is a distinct (series, operations, result)')
ASSUMPTIONS = ['slicing, selecting and accessing items give the items themselves, not copies of them',
               'in-place derivative, integral and cumulative sum add their results to dictionary data, and replace list data']
BOUNDS = {'quick': '10 shapes, 3 and 4 items, 2 value patterns, 3 index patterns, 38 operations, all pairs with 3 and 4 items',
          'thorough': '10 shapes, 2 to 6 items, 4 value patterns, 3 index patterns, 38 operations, all pairs on all the patterns'}
CHUNK = 1
TIMEOUT = 300

PATTERNS = [[1, -2, 4, 0.5, 7, 3], [0, 0, 5, 5, 2, 0], [-3, -1.5, -1, 0, 2, 6], [1e6, 1, -1e6, 3, 2, 1]]
INDEXES = ['none', 'loss', 'mixed']


def cases(tier):
    for shape in SHAPES:
        for n in (3, 4) if tier == 'quick' else range(2, 7):
            for pattern in (range(2) if tier == 'quick' else range(4)):
                for mode in INDEXES:
                    yield dict(shape=shape, n=n, pattern=pattern, mode=mode, pairs=False)
                    if tier == 'thorough':
                        if n in (3, 5):
                            yield dict(shape=shape, n=n, pattern=pattern, mode=mode, pairs=True)
                    elif n in (3, 4) and pattern < 2:
                        yield dict(shape=shape, n=n, pattern=pattern, mode=mode, pairs=True)


def index(mode, k):
    if mode == 'none':
        return {}
    if mode == 'loss':
        return {'data_loss': [0, 0.5, 1, 0.25][k % 4]}
    return [{'data_loss': 0.5}, {'x': 0.25}, {}, {'data_loss': 1, 'x': 0.75}][k % 4]


def build(case):
    k = len(labels_of(case['shape']))
    p = PATTERNS[case['pattern']]
    values = [tuple(p[(i + 2 * l) % len(p)] for l in range(k)) for i in range(case['n'])]
    return make(case['shape'], values, indexes=[index(case['mode'], i) for i in range(case['n'])])


def rebuild(series):
    """A series with the same items, all made anew."""
    out = TimeSeries()
    for i in series:
        kw = dict(data=copy.deepcopy(i.data), data_indexes=copy.deepcopy(i.data_indexes))
        if isinstance(i, Slot):
            out.append(i.__class__(start=TimePoint(t=i.start.t, tz=i.start.tz), unit=i.unit, **kw))
        else:
            out.append(i.__class__(t=i.t, tz=i.tz, **kw))
    return out


# name -> (function of the series, whether the items of the result are those of the source)
OPS = {
    'min': (lambda s: s.min(), 0), 'max': (lambda s: s.max(), 0), 'avg': (lambda s: s.avg(), 0), 'sum': (lambda s: s.sum(), 0),
    'min(label)': (lambda s: s.min(s.data_labels()[0]), 0), 'avg(label)': (lambda s: s.avg(s.data_labels()[-1]), 0),
    'derivative': (lambda s: s.derivative(), 0), 'derivative(no)': (lambda s: s.derivative(normalize=False), 0), 'derivative(diffs)': (lambda s: s.derivative(diffs=True), 0),
    'integral': (lambda s: s.integral(), 0), 'integral(c)': (lambda s: s.integral(c=3), 0), 'integral(offset)': (lambda s: s.integral(offset=3), 0),
    'diff': (lambda s: s.diff(), 0), 'csum': (lambda s: s.csum(), 0), 'csum(offset)': (lambda s: s.csum(offset=-2), 0),
    'normalize': (lambda s: s.normalize(), 0), 'normalize(range)': (lambda s: s.normalize(range=[-1, 3]), 0),
    'rescale': (lambda s: s.rescale(2.5), 0), 'offset': (lambda s: s.offset(-3), 0), 'mavg': (lambda s: s.mavg(2), 0),
    'rescale(label)': (lambda s: s.rescale({s.data_labels()[0]: 2}), 0), 'offset(label)': (lambda s: s.offset({s.data_labels()[-1]: 2}), 0),
    'filter': (lambda s: s.filter(s.data_labels()[0]), 0), 'slice': (lambda s: s.slice(1, 3), 1), 'slice(t)': (lambda s: s.slice(from_t=s[1].t if isinstance(s[1], Point) else s[1].start.t), 1),
    'select': (lambda s: s.select('{}={}'.format(s.data_labels()[0], val(s[1], s.data_labels()[0]))), 1),
    'get': (lambda s: s.get(at_i=1), 1), 'getitem': (lambda s: s[-1], 1), 'getslice': (lambda s: s[0:2], 1),
    'merge': (lambda s: merge(s, rebuild(s)), 0), 'merge(self)': (lambda s: merge(s, s), 0),
    'resample': (lambda s: s.resample(s.resolution if isinstance(s.resolution, (int, float)) else 30), 0),
    'resample(2)': (lambda s: s.resample(2 * s.resolution if isinstance(s.resolution, (int, float)) else 60), 0),
    'aggregate': (lambda s: s.aggregate(coarse(s)), 0), 'aggregate(ops)': (lambda s: s.aggregate(coarse(s), operations=['avg', 'min', 'max', 'sum']), 0),
    'duplicate': (lambda s: s.duplicate(), 0),
    'as_tz': (lambda s: s.as_tz('Asia/Tokyo'), 0),
    'view': (lambda s: s.view(from_i=0, to_i=2), 1), 'materialize': (lambda s: s.view(from_i=1, to_i=3).materialize(), 0),
    'resolution': (lambda s: (str(s.resolution), str(s.guess_resolution())), 0), 'to_dict': (lambda s: s.to_dict(), 1),
}


def coarse(s):
    step = s[1].t - s[0].t
    return '{}s'.format(int(2 * step)) if step < 1000 else ('2h' if step < 86400 else '1M')


INPLACE = {
    'derivative': dict(), 'derivative(no)': dict(normalize=False), 'integral': dict(), 'integral(c)': dict(c=3), 'csum': dict(), 'normalize': dict(), 'normalize(range)': dict(range=[-1, 3]),
    'rescale': dict(value=2.5), 'offset': dict(value=-3),
}
REFUSED_INPLACE = {'diff': dict(), 'mavg': dict(window=2), 'csum(offset)': dict(offset=-2), 'integral(offset)': dict(offset=-2)}


def picture(value):
    """A plain picture of any result."""
    if isinstance(value, Series):
        # An operation on a view gives a series of the view class, not looking at any other series
        head, items = snap(value)
        return ('series', head[1:], items, sorted(value.data_labels()) if len(value) else None)
    if isinstance(value, list):
        return ('list', [picture(v) for v in value])
    if isinstance(value, (Point, Slot)):
        return ('item', snap_item(value))
    return ('value', repr(value))


def result(fn, s):
    r = outcome_of(fn, s)
    return (r[0], picture(r[1]) if r[0] == 'ok' else r[1]), r[1]


def spoil(value):
    """Alter whatever can be altered in a result."""
    if isinstance(value, TimeSeriesView):
        return
    if isinstance(value, Series):
        for i in value.contents():
            spoil(i)
        if len(value):
            value.pop()
        value.clear()
    elif isinstance(value, (Point, Slot)):
        for k in (list(value.data) if isinstance(value.data, dict) else range(len(value.data))):
            value.data[k] = 987
        if isinstance(value.data, dict):
            value.data['new'] = 1
        else:
            value.data.append(1)
        for k in list(value.data_indexes):
            value.data_indexes[k] = 0.123
        value.data_indexes['new'] = 0.5
    elif isinstance(value, dict):
        for k in list(value):
            v = value[k]
            if isinstance(v, (dict, list)):
                spoil(v)
            else:
                value[k] = 'spoiled'
    elif isinstance(value, list):
        for v in value:
            spoil(v)
        del value[:]


def deep(s):
    """Everything reachable from a series, but what is only computed when asked."""
    return (snap(s), str(s.resolution), list(s.contents()[0].data) if isinstance(s.contents()[0].data, dict) else len(s.contents()[0].data), [id(i) for i in s.contents()], [sorted(vars(i)) for i in s.contents()])


def run(ctx, case):
    if case['pairs']:
        return pairs(ctx, case)
    s = build(case)
    # A copy that nothing has ever been asked to
    for name, (fn, shared) in OPS.items():
        s = build(case)
        old = deep(s)
        first, value = result(fn, s)
        ctx.step()
        ctx.state((case['shape'], case['n'], case['pattern'], case['mode'], name))
        ctx.outcome((case['shape'], case['mode'], name, repr(first)))
        if first[0] == 'err' and first[1] in ('AttributeError', 'NameError', 'UnboundLocalError', 'ConsistencyException'):
            ctx.fail(name + '-error', '{} on {} failed: {}'.format(name, case, value))
        ctx.check(deep(s) == old, name + '-source', lambda: '{} changed its source from {} to {}'.format(name, old, deep(s)))
        again, value2 = result(fn, s)
        ctx.step()
        ctx.check(again == first, name + '-again', lambda: '{} gave first {} and then {}'.format(name, first, again))
        if not shared and first[0] == 'ok':
            spoil(value)
            ctx.check(deep(s) == old, name + '-sharing', lambda: 'changing the result of {} changed its source from {} to {}'.format(name, old, deep(s)))
            third, _ = result(fn, s)
            ctx.step()
            ctx.check(third == first, name + '-sharing', lambda: 'after changing its result, {} gave {} and then {}'.format(name, first, third))
        ctx.ok()
        if name in INPLACE:
            inplace(ctx, case, name, first)
        elif name in REFUSED_INPLACE:
            s = build(case)
            old = deep(s)
            r = outcome_of(getattr(s, name.split('(')[0]), inplace=True, **REFUSED_INPLACE[name])
            ctx.step()
            ctx.check(r[0] == 'err', name + '-inplace', lambda: 'in-place {} was not refused'.format(name))
            ctx.check(deep(s) == old, name + '-inplace', lambda: 'a refused in-place {} changed the series'.format(name))
            ctx.ok()
    ctx.sample(case)


def inplace(ctx, case, name, first):
    s = build(case)
    old = deep(s)
    res = outcome_of(OPS[name][0], build(case))
    ids = [id(i) for i in s.contents()]
    r = outcome_of(getattr(s, name.split('(')[0]), inplace=True, **INPLACE[name])
    ctx.step()
    if res[0] == 'err':
        ctx.check(r[0] == 'err', name + '-inplace', lambda: '{} failed with {} but not in place'.format(name, res))
        ctx.check(deep(s) == old, name + '-inplace', lambda: 'a refused in-place {} changed the series'.format(name))
        return
    if not ctx.check(r == ('ok', None), name + '-inplace', lambda: 'in-place {} gave {}'.format(name, r)):
        return
    ref = build(case)
    good = [id(i) for i in s.contents()] == ids and len(s) == len(res[1])
    for mine, other, source in zip(s.contents(), res[1].contents(), ref.contents()):
        good = good and frame(mine) == frame(other) == frame(source)
        exp = other.data
        if isinstance(exp, dict) and name.split('(')[0] in ('derivative', 'integral', 'csum'):
            exp = dict(source.data, **exp)
        good = good and mine.data == exp
    ctx.check(good, name + '-inplace', lambda: 'in-place {} gave {} instead of {}'.format(name, [(i.data, i.data_indexes) for i in s], [(i.data, i.data_indexes) for i in res[1]]))
    ctx.ok()


def pairs(ctx, case):
    for a, (fa, shared) in OPS.items():
        s = build(case)
        old = deep(s)
        mid = outcome_of(fa, s)
        ctx.step()
        if mid[0] == 'err' or not isinstance(mid[1], TimeSeries) or not len(mid[1]):
            continue
        mid = mid[1]
        if a == 'as_tz' and SHAPES[case['shape']].get('unit', '1h')[-1] in 'DWMY':
            # The days of a time zone are no longer days on another one, and cannot be built from scratch
            continue
        if a == 'view' and str(mid.resolution) != str(rebuild(mid).resolution):
            # The resolution of a view is the one of the series it is on
            continue
        before = picture(mid)
        for b, (fb, _) in OPS.items():
            r1, _ = result(fb, mid)
            ctx.step()
            ctx.state((case['shape'], case['mode'], case['n'], case['pattern'], a, b))
            ctx.check(picture(mid) == before, b + '-after', lambda: '{} changed the result of {}'.format(b, a))
            ctx.check(deep(s) == old, b + '-after', lambda: '{} on the result of {} changed the source'.format(b, a))
            r2, _ = result(fb, rebuild(mid))
            ctx.step()
            ctx.outcome((case['shape'], a, b, repr(r2)))
            ctx.check(r1 == r2, a + '-then', lambda: '{} of {}({}) gave {}, and {} on a series with the same items'.format(b, a, case, r1, r2))
            ctx.ok()
    ctx.sample(case)
