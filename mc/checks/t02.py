"""T02: aggregation gives one slot per calendar unit, with the right values."""
import itertools
import math
from mc.lib import *
from mc import windows as W
from timeseria.transformations import Aggregator
from timeseria.operations import avg, min as tmin, max as tmax, sum as tsum

PROPERTY = 'T02'
LEVEL = 'model_checking'
RULE = ('(a) every pattern of present and missing points on a regular grid, for each phase with respect to the slots and each unit (from several points per slot down to less than one), (b) every irregular sequence of spacings over a small set, '
        '(c) every starting phase and pattern of up to two missing points for days, weeks, months and years in several time zones, around DST changes: the slots of the result, their boundaries and the values of each set of operations are compared with '
        'the exact ones on the piecewise function defined by the source. A non-trivial outcome is a distinct aggregated series')
ASSUMPTIONS = ['sums are only compared on slots with no gap between their points (interpolated points are included in the sums otherwise)', 'values compared with a relative tolerance of 1e-9',
               'hours and below divide the hour, except on UTC (rounding to longer ones on other time zones is a limit of the propertime dependency)', 'explicit start and end are within the series']
BOUNDS = {'quick': '(a) 11 positions, 3 phases, 4 units (b) up to 4 spacings (3 on other scales down to 1/16th of second) (c) 4 time zones, all of the phases', 'thorough': '(a) 14 positions, 4 phases, 5 units (b) up to 6 spacings (3 on other scales down to 1/16th of second) (c) 6 time zones, all of the phases, longer series'}
CHUNK = 4
TIMEOUT = 300

OPS = {'avg': avg, 'min': tmin, 'max': tmax, 'sum': tsum}
SETS = [['avg'], ['avg', 'min', 'max', 'sum'], ['sum', 'max'], ['min'], ['max'], ['sum', 'avg']]
VALUES = [lambda i: [1, 2, 4, 8, 16, 32, 64, 128][i % 8] * (1 + i // 8), lambda i: [0, -3, 7, 0.5, -1, 2, 100, -100, 3][i % 9], lambda i: 5]
UNITS = ['30m', '1h', '10m', '5m', '20m']
ZONES = ['Europe/Rome', 'America/New_York', 'UTC', 'Australia/Sydney', 'America/Sao_Paulo', 'Asia/Tokyo']
# Days around which the calendar changes
DAYS = {'Europe/Rome': ['2019-03-31', '2019-10-27'], 'America/New_York': ['2019-03-10', '2019-11-03'], 'UTC': ['2020-02-28', '2019-12-31'], 'Australia/Sydney': ['2019-10-06', '2019-04-07'],
        'America/Sao_Paulo': ['2017-10-15', '2018-02-18'], 'Asia/Tokyo': ['2020-02-28', '1970-01-01']}


def cases(tier):
    n = 11 if tier == 'quick' else 14
    for rest in itertools.product((0, 1), repeat=n - 5):
        yield dict(kind='grid', rest=list(rest), n=n, tier=tier)
    for k in range(1, 5 if tier == 'quick' else 7):
        for gaps in itertools.product([1, 2, 3.5, 0.5] if k < 6 else [1, 3.5, 0.5], repeat=k):
            yield dict(kind='irregular', gaps=list(gaps), tier=tier)
    for step in (0.0625, 20) if tier == 'quick' else (0.0625, 0.25, 1, 20):
        for k in (2, 3):
            for gaps in itertools.product([1, 2, 3.5, 0.5], repeat=k):
                yield dict(kind='irregular', gaps=list(gaps), step=step, tier=tier)
    for z in ZONES[:4] if tier == 'quick' else ZONES:
        for day in DAYS[z]:
            for phase in range(24):
                for step in (21600, 3600 * 5, 86400):
                    if tier != 'quick' or step == 21600 or phase % 6 == 0:
                        yield dict(kind='days', tz=z, day=day, phase=phase, step=step, tier=tier)
            for unit in ('1W', '1M', '1Y'):
                for phase in range(0, 31, 2 if tier == 'quick' else 1):
                    yield dict(kind='long', unit=unit, tz=z, day=day, phase=phase, tier=tier)
    yield dict(kind='refused')


def run(ctx, case):
    kind = case['kind']
    if kind == 'refused':
        return refused(ctx)
    tier = case['tier']
    if kind == 'grid':
        for head in itertools.product((0, 1), repeat=3):
            present = [1] + list(head) + case['rest'] + [1]
            for p, phase in enumerate([0, 0.5, 2] if tier == 'quick' else [0, 0.5, 2, 1.75]):
                base = -1800 if sum(present) % 2 else 1500001200
                ts = num([base + 600 * (phase + k) for k, on in enumerate(present) if on])
                for u, unit in enumerate(UNITS[:4] if tier == 'quick' else UNITS):
                    v = sum(present) + p + u
                    explore(ctx, ts, unit, [None, 'Europe/Rome', 'America/New_York'][v % 3], 600, v)
    elif kind == 'irregular':
        for phase in (0, 0.5, 0.25, 1.9):
            step = case.get('step', 600)
            ts = [1500001200 + phase * step]
            for g in case['gaps']:
                ts.append(ts[-1] + g * step)
            ts = [round(t, 6) for t in ts]
            for u, unit in enumerate(UNITS if step == 600 else ['{}s'.format(num([round(r * step, 6)])[0]) for r in (3, 6, 1, 0.5, 2)]):
                explore(ctx, num(ts), unit, [None, 'Europe/Rome'][u % 2], step, u + int(4 * phase), extra=True)
                if W.dominant(ts):
                    explore(ctx, num(ts), unit, [None, 'Europe/Rome'][u % 2], None, u + 1)
    elif kind == 'days':
        tz, step = case['tz'], case['step']
        y, m, d = map(int, case['day'].split('-'))
        start = datetime(y, m, d, tzinfo=ZoneInfo(tz)).timestamp() - 2 * 86400 + 3600 * case['phase']
        n = int(4 * 86400 // step) + 2
        for gone in itertools.chain([()], itertools.combinations(range(1, n - 1), 1), itertools.combinations(range(1, n - 1), 2) if case['phase'] % 6 == 0 else []):
            ts = num([start + step * k for k in range(n) if k not in gone])
            explore(ctx, ts, '1D', tz, step, sum(gone) + case['phase'], extra=not gone)
    else:
        tz, unit = case['tz'], case['unit']
        y, m, d = map(int, case['day'].split('-'))
        step = {'1W': 43200, '1M': 3 * 86400, '1Y': 86400 * 30}[unit]
        n = {'1W': 48, '1M': 28, '1Y': 30}[unit]
        start = datetime(y, m, d, tzinfo=ZoneInfo(tz)).timestamp() - 86400 * 31 * (12 if unit == '1Y' else 1) + 86400 * case['phase']
        for gone in [(), (5,), (9, 10, 11, 12)]:
            explore(ctx, num([start + step * k for k in range(n) if k not in gone]), unit, tz, step, case['phase'], extra=not gone)
    ctx.sample(case)


def num(ts):
    return [int(t) if t == int(t) else t for t in ts]


def boundaries(first, last, unit, tz):
    """Consecutive boundaries of the slots within the series."""
    n, k = parse_unit(unit)
    if k in PHYSICAL:
        sec = n * PHYSICAL[k]
        out = [math.ceil(first / sec) * sec]
        while out[-1] + sec <= last:
            out.append(out[-1] + sec)
        return out
    w = wall(first, tz)
    day = datetime(w.year, w.month, w.day)
    if k == 'W':
        day -= timedelta(days=day.weekday())
    elif k == 'M':
        day = day.replace(day=1)
    elif k == 'Y':
        day = day.replace(month=1, day=1)
    out = []
    while True:
        t = unwall(day, tz)
        if t > last:
            return out or [t]
        if t >= first:
            out.append(t)
        if k == 'D':
            day += timedelta(days=1)
        elif k == 'W':
            day += timedelta(days=7)
        elif k == 'M':
            day = day.replace(year=day.year + day.month // 12, month=day.month % 12 + 1)
        else:
            day = day.replace(year=day.year + 1)


def reference(ts, values, si, a, b):
    """operation -> value (None if not to be compared)."""
    mean = W.average(ts, values, si, a, b)
    inside = [i for i, t in enumerate(ts) if a <= t < b]
    if inside:
        v = [values[i] for i in inside]
        regs = W.regions(ts, si)
        gap = any(regs[i][1] < regs[i + 1][0] - 1e-9 for i in inside[:-1])
        return {'avg': mean, 'min': min(v), 'max': max(v), 'sum': None if gap else sum(v)}
    return {'avg': mean, 'min': mean, 'max': mean, 'sum': mean}


def differs(res, bounds, ref, ops, labels, unit, tz):
    if len(res) != max(len(bounds) - 1, 0):
        return '{} slots ({}) instead of {} ({})'.format(len(res), [(i.start.t, i.end.t) for i in res], len(bounds) - 1, bounds)
    for k, i in enumerate(res):
        if not (isinstance(i, DataTimeSlot) and close(i.start.t, bounds[k]) and close(i.end.t, bounds[k + 1]) and i.unit == TimeUnit(unit) and str(i.tz) == str(tz or 'UTC')
                and str(i.start.tz) == str(tz or 'UTC') and str(i.end.tz) == str(tz or 'UTC')):
            return '{} instead of the slot from {} to {}'.format(i, bounds[k], bounds[k + 1])
        if set(i.data) != {'{}_{}'.format(l, o) for l in labels for o in ops}:
            return 'labels {}'.format(list(i.data))
        for l in labels:
            for o in ops:
                exp = ref[l][k][o]
                if exp is not None and not close(i.data['{}_{}'.format(l, o)], exp):
                    return '{} for {} {} in the slot from {} to {} instead of {}'.format(i.data['{}_{}'.format(l, o)], o, l, bounds[k], bounds[k + 1], exp)
    return None


def twice(series):
    """A custom operation: the values of the first item, twice."""
    for item in series:
        return {l: 2 * (item.data[l] if isinstance(item.data, dict) else item.data[int(l)]) for l in series.data_labels()}


def explore(ctx, ts, unit, tz, validity, v, extra=False):
    n = len(ts)
    labels = [('a',), ('b', 'a'), ('a',), ('0', '1')][v % 4]
    vals = {l: [(f if k == 0 else 3 - 2 * f) for f in (VALUES[v % 3](i) for i in range(n))] for k, l in enumerate(labels)}
    make = lambda: points(ts, list(zip(*[vals[l] for l in labels])), labels=labels, tz=tz, kind='list' if v % 4 == 3 else 'dict')
    si = validity or W.dominant(ts)
    # When there is no doubt on it, the sampling interval is autodetected
    kw = {} if W.dominant(ts) == si else dict(validity=si)
    bounds = boundaries(ts[0], ts[-1], unit, tz or 'UTC')
    ref = {l: [reference(ts, vals[l], si, a, b) for a, b in zip(bounds, bounds[1:])] for l in labels}
    ctx.state((tuple(ts), unit, tz, si, v))
    where = lambda: 'aggregating in {} on {} (validity {}) points at {} with {} '.format(unit, tz, kw, ts, vals)
    for ops in SETS if extra else (SETS[1], SETS[(v % 5) + 1] if v % 2 else SETS[0]):
        s = make()
        got = outcome_of(Aggregator(unit, operations=ops if v % 2 else [OPS[o] for o in ops]).process, s, **kw)
        ctx.step()
        bad = str(got) if got[0] == 'err' else differs(got[1], bounds, ref, ops, labels, unit, tz)
        ctx.check(bad is None, 'aggregate', lambda: where() + 'with {} gave {}'.format(ops, bad))
        ctx.ok()
    if got[0] == 'ok':
        ctx.outcome(snap(got[1]))
    if not extra:
        return
    if not kw:
        other = outcome_of(make().aggregate, unit if v % 2 else TimeUnit(unit), operations=['avg', 'max'])
        ctx.step()
        bad = str(other) if other[0] == 'err' else differs(other[1], bounds, ref, ['avg', 'max'], labels, unit, tz)
        ctx.check(bad is None, 'method', lambda: where() + 'with the method gave {}'.format(bad))
        other = outcome_of(make().aggregate, unit, operations=[twice, avg])
        ctx.step()
        bad = str(other) if other[0] == 'err' else None
        if bad is None:
            for k, i in enumerate(other[1]):
                for l in labels:
                    inside = [x for x, t in zip(vals[l], ts) if bounds[k] <= t < bounds[k + 1]]
                    if not close(i.data['{}_twice'.format(l)], 2 * (inside[0] if inside else ref[l][k]['avg'])) or not close(i.data['{}_avg'.format(l)], ref[l][k]['avg']):
                        bad = 'item {}'.format(i)
        ctx.check(bad is None, 'custom', lambda: where() + 'with a custom operation gave {}'.format(bad))
    # Slots entirely in a gap are filled with the value given, the others are not changed
    lost = [W.loss(ts, si, a, b) for a, b in zip(bounds, bounds[1:])]
    for fill in (0, -7):
        filled = outcome_of(Aggregator(unit, operations=['avg', 'max']).process, make(), fill_with=fill, **kw)
        ctx.step()
        exp = {l: [dict.fromkeys(OPS, fill) if close(lost[k], 1) else ref[l][k] for k in range(len(lost))] for l in labels}
        bad = str(filled) if filled[0] == 'err' else differs(filled[1], bounds, exp, ['avg', 'max'], labels, unit, tz)
        ctx.check(bad is None, 'fill', lambda: where() + 'filling with {} gave {}'.format(fill, bad))
    # Explicit start and end on boundaries
    for a in range(min(2, len(bounds) - 1)):
        for b in range(max(a + 1, len(bounds) - 2), len(bounds)):
            for form in (float, lambda t: datetime.fromtimestamp(t, ZoneInfo(tz or 'UTC'))):
                for kw2 in (dict(start=form(bounds[a]), end=form(bounds[b])), dict(start=form(bounds[a])) if b == len(bounds) - 1 else dict(end=form(bounds[b]))):
                    x, y = (a if 'start' in kw2 else 0), (b if 'end' in kw2 else len(bounds) - 1)
                    res = outcome_of(Aggregator(unit).process, make(), **kw2, **kw)
                    ctx.step()
                    bad = str(res) if res[0] == 'err' else differs(res[1], bounds[x:y + 1], {l: ref[l][x:y] for l in labels}, ['avg'], labels, unit, tz)
                    ctx.check(bad is None, 'start-end', lambda: where() + 'with {} gave {}'.format(kw2, bad))
                    ctx.ok()


def refused(ctx):
    for s in (slots(0, '1m', [1, 2, 3]), TimeSeries()):
        ctx.check(outcome_of(s.aggregate, '1h')[0] == 'err', 'refused', 'aggregating {} was not refused'.format(s))
        ctx.step()
    s = points([60 * k for k in range(200)], range(200))
    ctx.check(outcome_of(s.aggregate, '1h', operations=[])[0] == 'err', 'refused', 'no operations accepted')
    ctx.check(outcome_of(s.aggregate, '1h', operations=['nothing'])[0] == 'err', 'refused', 'a not existing operation accepted')
    for x in (30, 1801, datetime.fromtimestamp(1801, UTC)):
        for w in ('start', 'end'):
            ctx.check(outcome_of(Aggregator('1h').process, s, **{w: x})[0] == 'err', 'refused', '{} {} not on a boundary was accepted'.format(w, x))
            ctx.step()
    ctx.ok()
