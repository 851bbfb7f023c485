"""T03: data losses are the fraction of time not covered by data."""
import itertools
import math
from mc.lib import *
from mc import windows as W
from mc.checks.t01 import grid
from mc.checks.t02 import boundaries, num
from timeseria.transformations import Aggregator, Resampler

PROPERTY = 'T03'
LEVEL = 'model_checking'
RULE = ('(a) every pattern of missing points and every assignment of data losses (none, zero, partial, full) to the items, (b) every assignment of another index (none, some values) and (c) every irregular sequence of spacings, for each phase with respect to the '
        'grid and target interval (above, equal and below the sampling interval), resampling and aggregating: the data losses and the indexes of the result are compared with the exact measure of the interval not covered by the validity of the points. '
        '(d) days, weeks and hours around DST changes; the forced data losses and the filling values; (e) transformations of what has been transformed. A non-trivial outcome is a distinct list of data losses and indexes')
ASSUMPTIONS = ['losses compared with an absolute tolerance of 1e-9']
BOUNDS = {'quick': 'up to 5 points over 6 positions, 4 losses, 3 phases, 4 target intervals', 'thorough': 'up to 6 points over 8 positions, 4 losses, 4 phases, 6 target intervals'}
CHUNK = 2
TIMEOUT = 300
LOSSES = [None, 0, 0.25, 1]
INDEX = [None, 0, 0.5]
ABSENT = 'absent'


def cases(tier):
    n = 6 if tier == 'quick' else 8
    for mid in itertools.product((0, 1), repeat=n - 2):
        present = [1] + list(mid) + [1]
        if sum(present) > (5 if tier == 'quick' else 6):
            continue
        yield dict(kind='losses', present=present, tier=tier)
        yield dict(kind='index', present=present, tier=tier)
    for k in range(1, 4 if tier == 'quick' else 6):
        for gaps in itertools.product([1, 2, 3.5, 0.5, 0.25], repeat=k):
            yield dict(kind='irregular', gaps=list(gaps), tier=tier)
    for tz, day in (('Europe/Rome', '2019-03-31'), ('Europe/Rome', '2019-10-27'), ('America/New_York', '2019-03-10'), ('UTC', '2019-10-27')):
        for phase in range(0, 24, 3 if tier == 'quick' else 1):
            for step in (3600, 10800) if tier == 'quick' else (3600, 7200, 10800, 18000):
                yield dict(kind='calendar', tz=tz, day=day, phase=phase, step=step)
    yield dict(kind='remove')


def phases(tier):
    return [0, 0.5, 0.25] if tier == 'quick' else [0, 0.5, 0.25, 0.9]


def units(tier):
    return [60, 120, 180, 30] if tier == 'quick' else [60, 120, 180, 30, 20, 300]


def run(ctx, case):
    if case['kind'] == 'remove':
        return remove(ctx)
    if case['kind'] == 'calendar':
        return calendar(ctx, case)
    tier = case['tier']
    for p, phase in enumerate(phases(tier)):
        base = -120 if p % 2 else 1500000000
        if case['kind'] == 'irregular':
            ts = [base + 60 * phase]
            for g in case['gaps']:
                ts.append(ts[-1] + 60 * g)
            ts = num(ts)
            n = len(ts)
            for pattern in ([None] * n, [0.5] * n, [1 if k % 2 else 0.25 for k in range(n)], [1] * n):
                for unit in units(tier):
                    explore(ctx, ts, unit, pattern, [ABSENT] * n, 60)
        else:
            ts = num([base + 60 * (phase + k) for k, on in enumerate(case['present']) if on])
            n = len(ts)
            if case['kind'] == 'losses':
                for losses in itertools.product(LOSSES if n < 5 or tier != 'quick' else LOSSES[1:], repeat=n):
                    for unit in units(tier):
                        explore(ctx, ts, unit, losses, [ABSENT] * n, 60)
            else:
                for values in itertools.product([ABSENT] + INDEX if n < 5 else [ABSENT, 0.5, None], repeat=n):
                    for unit in units(tier)[1:]:
                        explore(ctx, ts, unit, [None] * n, values, 60)
    ctx.sample(case)


def explore(ctx, ts, unit, losses, index, si):
    n = len(ts)
    indexes = []
    for k in range(n):
        d = {}
        if losses[k] is not None:
            d['data_loss'] = losses[k]
        if index[k] != ABSENT:
            d['x'] = index[k]
        indexes.append(d)
    has = any(i != ABSENT for i in index)
    make = lambda: points(ts, list(range(n)), indexes=indexes)
    kw = {} if W.dominant(ts) == si else dict(validity=si)
    ctx.state((tuple(ts), unit, tuple(losses), tuple(index)))
    for how in ('resampling', 'aggregating'):
        if how == 'resampling':
            intervals = [(c - unit / 2, c + unit / 2) for c in grid(ts[0], ts[-1], unit)]
            fn = Resampler('{}s'.format(unit)).process
        else:
            b = boundaries(ts[0], ts[-1], '{}s'.format(unit), 'UTC')
            intervals = list(zip(b, b[1:]))
            fn = Aggregator('{}s'.format(unit)).process
        got = outcome_of(fn, make(), **kw)
        ctx.step()
        where = lambda: '{} at {}s points at {} with losses {} and index {} '.format(how, unit, ts, losses, index)
        if not ctx.check(got[0] == 'ok' and len(got[1]) == len(intervals), how + '-failed', lambda: where() + 'gave {}'.format(got)):
            continue
        for i, (a, b) in zip(got[1], intervals):
            exp = W.loss(ts, si, a, b, losses)
            ctx.check(i.data_loss is not None and close(i.data_loss, exp) and -1e-9 <= i.data_loss <= 1 + 1e-9, how, lambda: where() + 'gave a data loss of {} instead of {} from {} to {}'.format(i.data_loss, exp, a, b))
            ctx.check(set(i.data_indexes) == ({'data_loss', 'x'} if has else {'data_loss'}), how + '-indexes', lambda: where() + 'gave indexes {}'.format(i.data_indexes))
            if has:
                exp = W.index(ts, si, a, b, [None if x == ABSENT else x for x in index])
                ctx.check(close(i.data_indexes.get('x'), exp), how + '-index', lambda: where() + 'gave an index of {} instead of {} from {} to {}'.format(i.data_indexes.get('x'), exp, a, b))
        ctx.outcome((how, [sorted(i.data_indexes.items()) for i in got[1]]))
        ctx.ok()
        if has or unit < si or not intervals:
            continue
        # Forced data losses and filling values
        forced = outcome_of(fn, make(), force_data_loss=0.125, **kw)
        ctx.step()
        ctx.check(forced[0] == 'ok' and [i.data_loss for i in forced[1]] == [0.125] * len(intervals) and [i.data for i in forced[1]] == [i.data for i in got[1]], how + '-forced', lambda: where() + 'with a forced data loss gave {}'.format(forced))
        if how == 'aggregating':
            for fill in (-7, 0):
                filled = outcome_of(fn, make(), fill_with=fill, **kw)
                ctx.step()
                good = filled[0] == 'ok' and [i.data_indexes for i in filled[1]] == [i.data_indexes for i in got[1]]
                good = good and all(f.data == {l: fill for l in g.data} if g.data_loss == 1 else f.data == g.data or close(g.data_loss, 1) for f, g in zip(filled[1], got[1]))
                ctx.check(good, how + '-filled', lambda: where() + 'filling with {} gave {}'.format(fill, [(i.data, i.data_loss) for i in filled[1]] if filled[0] == 'ok' else filled))
        # Again, on what has been resampled
        if how == 'resampling' and len(intervals) > 2 and all(x is None for x in losses):
            mine = [i.t for i in got[1]]
            lost = [i.data_loss for i in got[1]]
            for u2 in (2 * unit, 3 * unit):
                for cls in (Resampler, Aggregator):
                    if cls is Resampler:
                        iv = [(c - u2 / 2, c + u2 / 2) for c in grid(mine[0], mine[-1], u2)]
                    else:
                        b = boundaries(mine[0], mine[-1], '{}s'.format(u2), 'UTC')
                        iv = list(zip(b, b[1:]))
                    again = outcome_of(cls('{}s'.format(u2)).process, got[1])
                    ctx.step()
                    exp = [W.loss(mine, unit, a, b, lost) for a, b in iv]
                    ctx.check(again[0] == 'ok' and close([i.data_loss for i in again[1]], exp), 'again', lambda: where() + 'and again at {} gave {} instead of {}'.format(u2, [i.data_loss for i in again[1]] if again[0] == 'ok' else again, exp))
                    ctx.ok()


def calendar(ctx, case):
    """Days, weeks and hours around DST changes, for every run of missing points."""
    tz, step = case['tz'], case['step']
    y, m, d = map(int, case['day'].split('-'))
    start = datetime(y, m, d, tzinfo=ZoneInfo(tz)).timestamp() - 86400 - 3600 * case['phase']
    n = int(86400 * 4 // step)
    runs = [(), (n // 2, n // 2 + 1)] + [(a, a + size) for a in range(1, n - 2, max(1, 10800 // step)) for size in (1, 5, 86400 // step + 3) if a + size < n - 1]
    for unit in ('1D', '1W', '1h'):
        for run_ in runs if unit == '1D' else runs[:4]:
            gone = range(*run_) if run_ else ()
            keep = [k for k in range(n if unit != '1W' else n * 4) if k not in gone]
            ts = num([start + step * k for k in keep])
            losses = [[None, 0.5, 1, 0][k % 4] if k % 3 == 0 else None for k in keep]
            for pattern in (None, losses):
                series = points(ts, list(range(len(ts))), losses=pattern, tz=tz)
                b = boundaries(ts[0], ts[-1], unit, tz)
                got = outcome_of(Aggregator(unit).process, series, validity=step)
                ctx.step()
                ctx.state((tz, case['day'], case['phase'], step, unit, run_, pattern is None))
                exp = [W.loss(ts, step, x, z, pattern) for x, z in zip(b, b[1:])]
                if ctx.check(got[0] == 'ok' and close([i.data_loss for i in got[1]], exp), 'calendar', lambda: 'aggregating in {} on {} points every {} from {} missing {} with losses {} gave {} instead of {}'.format(
                        unit, tz, step, start, run_, pattern, [i.data_loss for i in got[1]] if got[0] == 'ok' else got, exp)):
                    ctx.ok()
                ctx.outcome((unit, [round(x, 9) for x in exp]))


def remove(ctx):
    """Data losses and indexes are removed from all of the items, and only them."""
    for n in range(1, 4):
        for kinds in itertools.product([{}, {'data_loss': 0.5}, {'x': 1}, {'data_loss': 0, 'x': None}, {'data_loss': None}], repeat=n):
            for what, fn in (('data_loss', lambda s: s.remove_data_loss()), ('x', lambda s: s.remove_data_index('x'))):
                for s in (points([60 * k for k in range(n)], list(range(n)), indexes=kinds), slots(0, '1h', list(range(n)), indexes=kinds)):
                    ref = [snap_item(i)[:-1] for i in s]
                    r = outcome_of(fn, s)
                    ctx.step()
                    ctx.state((n, repr(kinds), what, s.item_type.__name__))
                    ctx.check(r[0] == 'ok' and all(i.data_indexes == {k: v for k, v in kinds[j].items() if k != what} for j, i in enumerate(s)) and [snap_item(i)[:-1] for i in s] == ref, 'remove-' + what,
                              lambda: 'removing {} from {} gave {} {}'.format(what, kinds, r, [i.data_indexes for i in s]))
                    ctx.outcome((what, [i.data_indexes for i in s]))
                    ctx.ok()
