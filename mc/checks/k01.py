"""K01: what is computed does not depend on when the data is."""
import os
import warnings
from mc import core
from mc.lib import *
from mc.checks.h01 import FUNCTIONS as COMMON, ALL_MODELS, EDITS, make, uses_of
from timeseria.operations import merge
from timeseria.interpolators import UniformInterpolator
from timeseria.transformations import Resampler, Aggregator
from timeseria.models.reconstructors import LinearInterpolationReconstructor

PROPERTY = 'K01'
LEVEL = 'model_checking'
RULE = ('every function and edit on series of each spacing and unit, on UTC and on fixed offsets, and every model fit and used on them, with the series placed in each way such that one of its items is at the epoch (so that some of the items are before it), across or after the instants where 32 bits timestamps '
        'and unsigned ones end, and moved by centuries: the result is the one on the same series elsewhere, moved in the same way; as well as every unit from every instant around these ones. A non-trivial outcome is a distinct result')
ASSUMPTIONS = ['the results on series in 2025 and 2026 are right, as decided by the other properties', 'the time zone library in use has no changes of offset after 2037, so time zones with them are left out', 'data frames are between years 1678 and 2262, as from their documentation']
BOUNDS = {'quick': '11 spacings and units, 12 items, 4 kinds of series, 86 functions, 23 edits and 16 models, an item out of each 3 at the epoch, 7 other places from year 1226 to year 2826', 'thorough': 'each of the items at the epoch, 4 time zones, 13 other places'}
CHUNK = 1
TIMEOUT = 800
warnings.simplefilter('ignore')

# 56 years are a whole number of weeks, of days by 2, 3, 6 and 7 and two turns of the calendar; 400 years are a turn of the calendar as well
D0 = epoch(2026, 1, 1)
BACK = -int(D0)
TURN, CENTURIES = 10227 * 86400, 146097 * 86400
KINDS = {'quarters': 0.25, 'seconds': 1, 'minutes': 600, 'hours': 3600, 'days': 86400, 'mslots': '15m', 'hslots': '1h', 'dslots': '1D', 'wslots': '1W', 'moslots': '1M', 'yslots': '1Y'}
VALUES = [3, 1, 4, 1.5, 5, 9, 2, 6, 5.5, 3, 5, 8]
SORTS = ('plain', 'lossy', 'two', 'gap')
N = 12


def others(kind, tier):
    """The other places."""
    step = KINDS[kind]
    if kind in ('quarters', 'seconds', 'minutes', 'mslots'):
        # Right across the end of 31 and 32 bits
        size = {'quarters': 2, 'seconds': 2, 'minutes': 7200, 'mslots': 7200}[kind]
        out = [round((e - D0) / size) * size for e in (2 ** 31, 2 ** 32)]
    elif kind in ('hours', 'days', 'hslots', 'dslots'):
        size = 86400 if kind[0] == 'h' else 14 * 86400
        out = [(e - int(D0)) // size * size for e in (2 ** 31, 2 ** 32)]
    else:
        out = [TURN, 2 * TURN]
    out += [CENTURIES, -CENTURIES, 2 * CENTURIES, -2 * CENTURIES, -4 * TURN]
    if tier == 'thorough':
        out += [-TURN, 3 * CENTURIES, 10 * CENTURIES, -3 * CENTURIES, CENTURIES + BACK, 2 * BACK]
    # Daily ones are also taken by two and by week
    return [d for d in out if kind not in ('days', 'dslots') or not d % (14 * 86400)]


def starts(kind, first, tz, n):
    step = KINDS[kind]
    if isinstance(step, str):
        ts = [D0]
        if first:
            ts = [ref_shift(D0, step, 'UTC', times=-first)]
        while len(ts) < n:
            ts.append(ref_shift(ts[-1], step, 'UTC'))
        return ts
    return [D0 + step * (i - first) for i in range(n)]


def build(kind, sort, first, d, tz, n=N, only_a=False):
    """The series with the item number `first` at D0 + d."""
    ts = starts(kind, first, tz, n)
    values = [(VALUES * 3)[i] for i in range(n)]
    labels = ('b', 'a') if sort == 'two' and not only_a else ('a',)
    rows = [tuple(v + 10 * k for k in range(len(labels))) for v in values]
    losses = ([None, None, 1, 0.5, None, 1, 1, 0.25] * 3 + [0.5] * n)[:n] if sort == 'lossy' else None
    if losses and n > N:
        losses[-1] = None
    indexes = [{'x': 0.5} if i % 3 else {} for i in range(n)] if sort == 'two' else None
    if isinstance(KINDS[kind], str):
        return slots(ts[0] + d, KINDS[kind], rows, labels=labels, tz=tz, losses=losses, indexes=indexes)
    keep = [i for i in range(n) if i not in {'two': (4, 5), 'gap': (3, 4, 5, 6, 7, 8)}.get(sort, ())]
    return points([ts[i] + d for i in keep], [rows[i] for i in keep], labels=labels, tz=tz, losses=[losses[i] for i in keep] if losses else None, indexes=[indexes[i] for i in keep] if indexes else None)


def file():
    return '{}/k01-{}.csv'.format(core.scratch(), os.getpid())


def csv(s):
    s.save(file(), overwrite=True)
    return TimeSeries.load(file())


def step_of(s):
    return s[1].t - s[0].t


NOT = ('str', 'repr', 'contents', 'summary', 'csv', 'json', 'df', 'items', 'to_dict', 'as_tz', 'Resampler', 'Aggregator', 'Aggregator(ops)')
FUNCTIONS = {k: f() for k, f in COMMON.items() if k not in NOT}
FUNCTIONS.update({
    'items': list, 'backwards': lambda s: list(reversed(s.contents())), 'csv': csv, 'json': lambda s: TimeSeries.from_json(s.to_json()) if not isinstance(s[0], Slot) else TimeSeries.from_json(s.to_json(), slot_unit=s.resolution), 'df': lambda s: TimeSeries.from_df(s.to_df()),
    'dict': lambda s: TimeSeries.from_dict(s.to_dict()), 'each': lambda s: [s.get(at_t=i.start.t if isinstance(i, Slot) else i.t) for i in s], 'each dt': lambda s: [s.get(at_dt=(i.start if isinstance(i, Slot) else i).dt) for i in s],
    'slices': lambda s: [s.slice(from_t=(i.start if isinstance(i, Slot) else i).t) for i in s], 'slices to': lambda s: [s.slice(to_t=(i.start if isinstance(i, Slot) else i).t) for i in list(s)[2:]], 'slices both': lambda s: [s.slice(from_t=s[0].t if not isinstance(s[0], Slot) else s[0].start.t, to_t=(i.start if isinstance(i, Slot) else i).t) for i in list(s)[1:]],
    'slices dt': lambda s: [s.slice(from_dt=(i.start if isinstance(i, Slot) else i).dt) for i in s], 'aggregate(4)': lambda s: s.aggregate('{}s'.format(int(4 * step_of(s))) if step_of(s) < 900 else '4h' if step_of(s) < 21600 else '1W'), 'aggregate(1h)': lambda s: s.aggregate('1h'), 'aggregate(1D)': lambda s: s.aggregate('1D'), 'aggregate(1M)': lambda s: s.aggregate('1M'),
    'resample(half)': lambda s: s.resample(step_of(s) / 2), 'resample(unit)': lambda s: s.resample('1h'), 'uniform': lambda s: Resampler(step_of(s), interpolator_class=UniformInterpolator).process(s), 'interpolate': lambda s: LinearInterpolationReconstructor().apply(s),
    'next': lambda s: [i.start + i.unit if isinstance(i, Slot) else i + TimeUnit('1h') for i in s], 'previous': lambda s: [(i.start if isinstance(i, Slot) else i) - TimeUnit('1h') for i in s], 'day after': lambda s: [(i.start if isinstance(i, Slot) else i) + TimeUnit('1D') for i in s],
    'merges': lambda s: [outcome_of(lambda: norm(merge(x, y), 0))[0] == 'ok' and merge(x, y) for k in range(len(s) - 2) for x, y in ((s[k:], s[:k + 3]), (s[:k + 3], s[k:]))],
    'ordered': lambda s: [(a.start if isinstance(a, Slot) else a) < (b.start if isinstance(b, Slot) else b) for a in s for b in s], 'same': lambda s: [a == b for a in s for b in s], 'as_tz(Lagos)': lambda s: s.as_tz('Etc/GMT-1'),
    'from instants': lambda s: [TimePoint(dt=(i.start if isinstance(i, Slot) else i).dt) for i in s], 'offset of clock': lambda s: [str((i.start if isinstance(i, Slot) else i).dt.utcoffset()) for i in s], 'time of day': lambda s: [(i.start if isinstance(i, Slot) else i).dt.strftime('%H:%M:%S.%f') for i in s],
})
CHANGES = dict(EDITS)
CHANGES.pop('tz')
CHANGES.update({'del last': lambda s: s.__delitem__(-1), 'pop first': lambda s: s.pop(0), 'insert again': lambda s: s.insert(0, s.pop(0)), 'append again': lambda s: s.append(s[-1]), 'append first': lambda s: s.append(s[0]), 'zone': lambda s: s.change_tz('Etc/GMT+3'), 'clear': lambda s: s.clear()})
UNITS = ['0.5s', '1s', '7s', '5m', '15m', '30m', '1h', '6h', '1D', '2D', '1W', '1M', '3M', '1Y', 900]
FORMS = {'shift': lambda u, p: u.shift(p), 'plus': lambda u, p: p + u, 'minus': lambda u, p: p - u, 'floor': lambda u, p: u.floor(p), 'ceil': lambda u, p: u.ceil(p), 'round': lambda u, p: u.round(p), 'floor dt': lambda u, p: u.floor(p.dt), 'ceil dt': lambda u, p: u.ceil(p.dt), 'round dt': lambda u, p: u.round(p.dt), 'shift dt': lambda u, p: u.shift(p.dt),
         'slot': lambda u, p: TimeSlot(start=p, unit=u), 'seconds': lambda u, p: u.as_seconds(p.dt)}
MULTIPLE = ('1W', '2D', '7s', '3M')


def zones(tier):
    return [None, 'Etc/GMT-5'] if tier == 'quick' else [None, 'Etc/GMT-5', 'Etc/GMT+11', 'UTC']


def cases(tier):
    for kind in KINDS:
        for sort in SORTS:
            for tz in zones(tier):
                if sort == 'gap' and isinstance(KINDS[kind], str):
                    continue
                if tz and isinstance(KINDS[kind], str) and KINDS[kind][-1] not in 'hm':
                    # Their items are not at midnight UTC
                    continue
                yield dict(what='functions', kind=kind, sort=sort, tz=tz, tier=tier)
                yield dict(what='edits', kind=kind, sort=sort, tz=tz, tier=tier)
    for kind in ('hours', 'hslots', 'days', 'dslots', 'minutes', 'moslots') + (('seconds', 'mslots', 'wslots', 'yslots') if tier == 'thorough' else ()):
        for name in ALL_MODELS:
            yield dict(what='models', kind=kind, name=name, tier=tier)
    for unit in UNITS:
        yield dict(what='units', unit=unit, tier=tier)


def run(ctx, case):
    globals()[case['what']](ctx, **{k: v for k, v in case.items() if k != 'what'})


def norm(v, d):
    """What is there, with all of the times moved back."""
    if isinstance(v, Series):
        return ('series', str(v.resolution), str(v.tz), sorted(map(str, v.data_labels())) if len(v) and hasattr(v[0], 'data') else None, [norm(i, d) for i in v])
    if isinstance(v, Slot):
        return (type(v).__name__, v.start.t - d, v.end.t - d, str(v.unit), str(v.tz)) + held(v)
    if isinstance(v, TimePoint):
        return (type(v).__name__, v.t - d, str(v.tz)) + held(v)
    if hasattr(v, 'timestamp'):
        return ('dt', v.timestamp() - d, str(v.tzinfo))
    if isinstance(v, dict):
        return {str(k): norm(x, d) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x, d) for x in v]
    if v is None or isinstance(v, (str, bool)):
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def held(i):
    if not hasattr(i, 'data'):
        return ()
    data = i.data if isinstance(i.data, dict) else dict(enumerate(i.data))
    return ({str(k): norm(x, 0) for k, x in data.items()}, {k: norm(x, 0) for k, x in i.data_indexes.items()})


def outcome(fn, d):
    got = outcome_of(lambda: norm(fn(), d))
    return got if got[0] == 'ok' else got[:2]


def same(a, b):
    try:
        return close(a, b, 1e-9, 1e-6)
    except TypeError:
        return False


def places(kind, tier, n=N):
    """Which item is at the origin, and how much it is moved."""
    for first in range(n) if tier == 'thorough' else sorted({0, 1, n - 1} | set(range(0, n, 3))):
        yield first, BACK
    for d in others(kind, tier):
        yield 0, d
        yield n // 2, d


def beyond(d):
    return not epoch(1680, 1, 1) < D0 + d < epoch(2240, 1, 1)


def functions(ctx, kind, sort, tz, tier):
    refs = {}
    for first, d in places(kind, tier):
        for name, fn in FUNCTIONS.items():
            if name == 'df' and beyond(d) or name == 'time of day' and d % 86400:
                continue
            if (name, first) not in refs:
                refs[name, first] = outcome(lambda: fn(build(kind, sort, first, 0, tz)), 0)
            s = build(kind, sort, first, d, tz)
            before = snap(s)
            got = outcome(lambda: fn(s), d)
            ctx.step(2)
            ctx.check(same(got, refs[name, first]), name, lambda: '{} of {} {} on {} with item {} at {}: {} instead of {}'.format(name, sort, kind, tz, first, D0 + d, got, refs[name, first]))
            ctx.check(snap(s) == before, 'source', lambda: '{} of {} {} on {} with item {} at {} changed the series'.format(name, sort, kind, tz, first, D0 + d))
            ctx.state((kind, sort, tz, first, d, name))
            ctx.outcome(repr(refs[name, first]))
            ctx.ok()


def edits(ctx, kind, sort, tz, tier):
    refs = {}
    for first, d in places(kind, tier):
        for name, edit in CHANGES.items():
            def after(d):
                s = build(kind, sort, first, d, tz)
                done = outcome_of(edit, s)[0]
                return [done, norm(s, d), str(s.guess_resolution()) if len(s) > 1 else None, norm(s.max(), d) if len(s) and s.data_labels() else None]
            if (name, first) not in refs:
                refs[name, first] = outcome(lambda: after(0), 0)
            got = outcome(lambda: after(d), 0)
            ctx.step(2)
            ctx.check(same(got, refs[name, first]), 'edit', lambda: '{} of {} {} on {} with item {} at {}: {} instead of {}'.format(name, sort, kind, tz, first, D0 + d, got, refs[name, first]))
            ctx.state((kind, sort, tz, first, d, name))
            ctx.outcome(repr(refs[name, first]))
            ctx.ok()


def models(ctx, kind, name, tier):
    kw = make(name)[1]
    n = 24
    calendar = isinstance(KINDS[kind], str) and KINDS[kind][-1] not in 'hm'

    def trained(first, d):
        model, kw = make(name)
        if kw is not None:
            model.fit(build(kind, 'plain', first, d, None, n, True), **kw)
        return model

    def used(model, op, kw, sort, first, d):
        s = build(kind, sort, first, d, None, n, True)
        got = getattr(model, op)(s, **kw)
        return norm(s if kw.get('inplace') else got, d)
    every = uses_of(name)
    refs = {}
    aligned = not calendar and kind != 'days'
    for first, d in places(kind, tier, n):
        if name == 'LSTM' and d % 86400:
            # The hour of the day is one of the features
            continue
        model = outcome_of(trained, first, d)
        known = outcome_of(trained, first, 0)
        if not ctx.check(model[:1] == known[:1], 'fit', lambda: '{} fit on {} with item {} at {}: {}'.format(name, kind, first, D0 + d, model)):
            continue
        if model[0] == 'err':
            ctx.outcome(repr(model[1]))
            continue
        for k, (op, args) in enumerate(every):
            for sort in ('plain', 'lossy'):
                key = (first, k, sort)
                if key not in refs:
                    refs[key] = outcome(lambda: used(known[1], op, args, sort, first, 0), 0)
                got = outcome(lambda: used(model[1], op, args, sort, first, d), 0)
                ctx.step(2)
                ctx.check(same(got, refs[key]), 'model', lambda: '{} of {} on {} {} with item {} at {}: {} instead of {}'.format(op, name, sort, kind, first, D0 + d, got, refs[key]))
                if aligned and d in (BACK, CENTURIES, -CENTURIES) and name != 'LSTM':
                    # Fit somewhere, used somewhere else
                    got = outcome(lambda: used(known[1], op, args, sort, first, d), 0)
                    ctx.step()
                    ctx.check(same(got, refs[key]), 'model-moved', lambda: '{} of {} (fit elsewhere) on {} {} with item {} at {}: {} instead of {}'.format(op, name, sort, kind, first, D0 + d, got, refs[key]))
                ctx.state((kind, name) + key + (d,))
                ctx.outcome(repr(refs[key]))
                ctx.ok()


def units(ctx, unit, tier):
    u = TimeUnit(unit) if isinstance(unit, str) else TimeUnit('{}s'.format(unit))
    near = [0, 0.25, -0.25, 0.5, 1, -1, 3, -3.5, 59, -59, 60, 449.5, 450, 451, -449, -450, -451, 899, 900, 1800, -1800, 3599, -3599, 3600, -3600, 7200, 10800, -10800, 43200, -43200, 86399, 86400, -86400, 2 * 86400, -2 * 86400, 3.5 * 86400, -3.5 * 86400, 7 * 86400, 31 * 86400, -31 * 86400, 59 * 86400, 200 * 86400, -200 * 86400, 365 * 86400, -365 * 86400]
    for tz in zones('thorough'):
        for d in [BACK] + others('hours' if unit not in ('1M', '3M', '1Y', '1W', '2D', '7s') else 'moslots', 'thorough'):
            if unit == '7s' and d % 7:
                continue
            for offset in near:
                for name, fn in FORMS.items():
                    p = lambda d: TimePoint(t=D0 + offset + d, tz=tz) if tz else TimePoint(t=D0 + offset + d)
                    ref = outcome(lambda: fn(u, p(0)), 0)
                    got = outcome(lambda: fn(u, p(d)), d if name != 'seconds' else 0)
                    ctx.step()
                    ctx.check(same(got, ref), 'unit', lambda: '{} by {} from {} on {}: {} instead of {}, moved by {}'.format(name, unit, D0 + offset + d, tz, got, ref, d))
                    ctx.state((unit, tz, d, offset, name))
                    ctx.outcome(repr(ref))
                    ctx.ok()
