"""S04: access and slicing by position or time return exactly the right items."""
import itertools
from mc.lib import *
from propertime import Time

PROPERTY = 'S04'
LEVEL = 'model_checking'
RULE = ('every series shape x every position, instant and pair of slice bounds of the grid, in every way they can be expressed (brackets, get, slice; '
        'epoch as integer or float, datetime on different timezones, Time); the reference is the list of items. '
        'A non-trivial outcome is a distinct (shape, access, indexes of the items returned)')
ASSUMPTIONS = ['slicing an empty series is refused by the library and is not checked',
               'slots are in a time slice only if entirely in it, as documented by the tests']
BOUNDS = {'quick': 'series up to 5 items of 8 shapes', 'thorough': 'series up to 8 items of 8 shapes'}
CHUNK = 1
SHAPES = ['points', 'uneven', 'subsecond', 'list', 'timepoints', 'hslots', 'dslots', 'timeslots']


def cases(tier):
    for shape in SHAPES:
        for n in range(1, 6 if tier == 'quick' else 9):
            yield dict(shape=shape, n=n)
    for n in range(0, 6 if tier == 'quick' else 9):
        yield dict(shape='plain', n=n)


def make(shape, n):
    if shape == 'points':
        return points([600 + 60 * k for k in range(n)], list(range(n)))
    if shape == 'uneven':
        return points([0, 60, 90, 240, 241, 1000, 4000, 4001][:n], list(range(n)), tz='Europe/Rome')
    if shape == 'subsecond':
        return points([-1 + 0.25 * k for k in range(n)], list(range(n)))
    if shape == 'list':
        return points([1600000000.5 + 60 * k for k in range(n)], list(range(n)), kind='list')
    if shape == 'timepoints':
        return TimeSeries(*[TimePoint(t=3600 * k, tz='America/New_York') for k in range(n)])
    if shape == 'hslots':
        return slots(0, '1h', list(range(n)))
    if shape == 'dslots':
        return slots(epoch(2019, 10, 25, tz='Europe/Rome'), '1D', list(range(n)), tz='Europe/Rome')
    if shape == 'timeslots':
        return TimeSeries(*[TimeSlot(start=TimePoint(t=900 * k), end=TimePoint(t=900 * (k + 1))) for k in range(n)])


def end_t(item):
    return item.end.t if isinstance(item, Slot) else None


def run(ctx, case):
    if case['shape'] == 'plain':
        return plain(ctx, case)
    n = case['n']
    s = make(case['shape'], n)
    items = s.contents()
    snaps = [snap_item(i) for i in items]
    before = snap(s)
    tag = case['shape']

    def same_item(key, got, expected, what):
        ctx.step()
        ctx.state((tag, n, what))
        if expected is None:
            good = got[0] == 'err'
        else:
            good = got[0] == 'ok' and snap_item(got[1]) == snaps[expected]
        ctx.outcome((tag, n, key, expected))
        if ctx.check(good, key, lambda: '{} of {} items: {} gave {} instead of item {}'.format(tag, n, what, got, expected)):
            ctx.ok()

    def same_items(key, got, expected, what, cls=TimeSeries):
        ctx.step()
        ctx.state((tag, n, what))
        good = got[0] == 'ok' and isinstance(got[1], cls) and [snap_item(i) for i in got[1]] == [snaps[i] for i in expected] and len(got[1]) == len(expected)
        ctx.outcome((tag, n, key, tuple(expected)))
        if ctx.check(good, key, lambda: '{} of {} items: {} gave {} instead of items {}'.format(tag, n, what, got if got[0] == 'err' else list(got[1]), list(expected))):
            ctx.ok()

    # positions
    for i in range(-n - 3, n + 3):
        exp = i % n if -n <= i < n else None
        same_item('getitem', outcome_of(lambda: s[i]), exp, 's[{}]'.format(i))
        same_item('get_at_i', outcome_of(s.get, at_i=i), exp, 'get(at_i={})'.format(i))
    # instants
    marks = sorted({i.t for i in items} | {(a.t + b.t) / 2 for a, b in zip(items, items[1:])} | {items[0].t - 1, items[-1].t + 1e5} | {end_t(i) for i in items if end_t(i) is not None} | {0})
    for t in marks:
        exp = next((k for k, i in enumerate(items) if i.t == t), None)
        for name, val in forms(t):
            if name.startswith('dt'):
                same_item('get_at_dt', outcome_of(s.get, at_dt=val), exp, 'get(at_dt={!r})'.format(val))
                same_item('getitem_dt', outcome_of(lambda: s[val]), exp, 's[{!r}]'.format(val))
            else:
                same_item('get_at_t', outcome_of(s.get, at_t=val), exp, 'get(at_t={!r})'.format(val))
                if not isinstance(val, int):
                    same_item('getitem_t', outcome_of(lambda: s[val]), exp, 's[{!r}]'.format(val))
    ctx.check(outcome_of(s.get)[0] == 'err' and outcome_of(s.get, at_i=0, at_t=items[0].t)[0] == 'err', 'get-arguments', 'get() without or with too many arguments accepted')
    # slices by position
    bounds = [None] + list(range(-n - 2, n + 3))
    idx = list(range(n))
    for a, b in itertools.product(bounds, bounds):
        same_items('slice_i', outcome_of(lambda: s[a:b]), idx[a:b], 's[{}:{}]'.format(a, b))
        same_items('slice(i)', outcome_of(s.slice, from_i=a, to_i=b), idx[a:b], 'slice({},{})'.format(a, b))
        same_items('slice_step1', outcome_of(lambda: s[a:b:1]), idx[a:b], 's[{}:{}:1]'.format(a, b))
        for step in (2, 3):
            exp = idx[a:b:step]
            if isinstance(items[0], Slot) and len(exp) > 1:
                ctx.check(outcome_of(lambda: s[a:b:step])[0] == 'err', 'slice_step_slots', lambda: 's[{}:{}:{}] of slots was not refused'.format(a, b, step))
            else:
                same_items('slice_step', outcome_of(lambda: s[a:b:step]), exp, 's[{}:{}:{}]'.format(a, b, step))
    # slices by time
    tb = [None] + marks
    for a, b in itertools.product(tb, tb):
        exp = [k for k, i in enumerate(items) if (a is None or i.t >= a) and (b is None or (i.t < b if end_t(i) is None else i.end.t <= b))]
        if a is None and b is None:
            continue
        same_items('slice(t)', outcome_of(s.slice, from_t=a, to_t=b), exp, 'slice(from_t={}, to_t={})'.format(a, b))
        fa, fb = (None if a is None else float(a)), (None if b is None else float(b))
        same_items('slice_t', outcome_of(lambda: s[fa:fb]), exp, 's[{!r}:{!r}]'.format(fa, fb))
        for z in ('UTC', 'Asia/Kolkata'):
            da = None if a is None else datetime.fromtimestamp(a, pytz.timezone(z))
            db = None if b is None else datetime.fromtimestamp(b, pytz.timezone(z))
            same_items('slice(dt)', outcome_of(s.slice, from_dt=da, to_dt=db), exp, 'slice(from_dt={}, to_dt={})'.format(da, db))
            same_items('slice_dt', outcome_of(lambda: s[da:db]), exp, 's[{}:{}]'.format(da, db))
    for bad in (dict(from_i=0, to_t=10), dict(from_t=0, to_i=1), dict(from_i=0, from_t=0), dict(to_i=0, to_t=0), dict(from_i=0.5), dict(from_t='a'), dict(from_dt=5)):
        ctx.check(outcome_of(s.slice, **bad)[0] == 'err', 'slice-arguments', lambda: 'slice({}) accepted'.format(bad))
        ctx.step()
    # inspection
    for m in range(0, n + 3):
        same_items('head', outcome_of(s.head, m), idx[:m], 'head({})'.format(m), list)
        same_items('tail', outcome_of(s.tail, m), idx[-m:] if m else [], 'tail({})'.format(m), list)
    same_items('contents', outcome_of(s.contents), idx, 'contents()', list)
    same_items('iter', outcome_of(lambda: [i for i in s]), idx, 'iteration', list)
    nested = [(i.t, j.t) for i in s for j in s]
    ctx.check(nested == [(i.t, j.t) for i in items for j in items], 'nested-iteration', 'nested iteration gave {}'.format(nested))
    for k, i in enumerate(items):
        ctx.check(outcome_of(s.index, i) == ('ok', k), 'index', lambda: 'index of item {} is {}'.format(k, outcome_of(s.index, i)))
        ctx.check(i in s, 'contains', 'item {} not in series'.format(k))
    ctx.check(snap(s) == before, 'series-changed', lambda: 'series changed by accessing it: {} -> {}'.format(before, snap(s)))
    ctx.sample(case)


def forms(t):
    yield 'float', float(t)
    if t == int(t):
        yield 'int', int(t)
    yield 'Time', Time(t)
    yield 'dtUTC', datetime.fromtimestamp(t, pytz.UTC)
    yield 'dtRome', datetime.fromtimestamp(t, pytz.timezone('Europe/Rome'))
    yield 'dtzone', datetime.fromtimestamp(t, ZoneInfo('America/New_York'))


def plain(ctx, case):
    """Series other than time series: access as for lists."""
    n = case['n']
    for kind in ('ints', 'points'):
        vals = list(range(10, 10 + n)) if kind == 'ints' else [DataPoint(10 + k, data={'a': k}) for k in range(n)]
        s = Series(*vals)
        for i in range(-n - 2, n + 2):
            a, b = outcome_of(lambda: s[i]), outcome_of(lambda: vals[i])
            ctx.step()
            ctx.state((kind, n, i))
            ctx.check(a[0] == b[0] and (a[0] == 'err' or a[1] is b[1]), 'plain-getitem', lambda: '{}[{}] gave {} instead of {}'.format(vals, i, a, b))
        bounds = [None] + list(range(-n - 2, n + 3))
        for a, b in itertools.product(bounds, bounds):
            for step in (None, 1, 2):
                got = outcome_of(lambda: s[a:b:step])
                ctx.step()
                ctx.outcome((kind, n, a, b, step))
                ctx.check(got[0] == 'ok' and isinstance(got[1], Series) and list(got[1]) == vals[a:b:step], 'plain-slice', lambda: '{}[{}:{}:{}] gave {}'.format(vals, a, b, step, got))
                ctx.ok()
