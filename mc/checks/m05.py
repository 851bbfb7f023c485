"""M05: periodic averages are those of the data."""
import itertools
from mc.lib import *
from timeseria.models.reconstructors import PeriodicAverageReconstructor
from timeseria.models.forecasters import PeriodicAverageForecaster

PROPERTY = 'M05'
LEVEL = 'model_checking'
RULE = ('every pattern of values over a period, starting phase and number of items, on points (also before the epoch, not aligned, sub-second) and slots of physical and calendar units (also across DST changes): on the exactly periodic series, with any '
        'level shift, both periodic average models have to give exactly that series for every gap and for every number of steps; and for every placement of lost items and of a deviating value the averages used are those of the items of each position. '
        'A non-trivial outcome is a distinct set of averages')
ASSUMPTIONS = ['positions with no fit data at all are not asked for', 'DST effects can be taken into account for resolutions up to one hour only (longer physical ones are refused by the models)', 'the periodicity is given (its detection is not part of this property)',
               'values compared with a tolerance of 1e-9']
BOUNDS = {'quick': 'periods up to 3 over 3 values, 2 to 3 repetitions plus a tail, 11 kinds of series, plus daily patterns on hours across DST changes', 'thorough': 'periods up to 5 over 3 values, 2 to 4 repetitions plus a tail, 11 kinds of series, plus daily patterns on hours across DST changes'}
CHUNK = 1
ROME = 'Europe/Rome'
KINDS = {
    'points': dict(ts=lambda i: 60 * i),
    'negative': dict(ts=lambda i: 60 * i - 330),
    'odd': dict(ts=lambda i: 7 * i + 1000000.25),
    'tenths': dict(ts=lambda i: round(0.1 * i, 1)),
    'hours': dict(ts=lambda i: 3600 * i + 1553994000 + 1800, tz=ROME),
    'hslots': dict(start=epoch(2019, 3, 30, 22, tz=ROME), unit='1h', tz=ROME),
    'dslots': dict(start=epoch(2019, 3, 28, tz=ROME), unit='1D', tz=ROME),
    'dslots2': dict(start=epoch(2019, 10, 24, tz='America/New_York'), unit='1D', tz='America/New_York'),
    'wslots': dict(start=epoch(2019, 3, 18, tz=ROME), unit='1W', tz=ROME),
    'mslots': dict(start=epoch(2019, 1, 1, tz=ROME), unit='1M', tz=ROME),
    'yslots': dict(start=epoch(1968, 1, 1), unit='1Y'),
}
NEXT = {}


def instants(kind):
    if kind not in NEXT:
        c = KINDS[kind]
        out = [c['start']]
        for _ in range(40):
            out.append(ref_shift(out[-1], c['unit'], c.get('tz', 'UTC')))
        NEXT[kind] = out
    return NEXT[kind]


def build(kind, values, first=0, losses=None):
    c = KINDS[kind]
    if 'ts' in c:
        return points([c['ts'](first + i) for i in range(len(values))], values, tz=c.get('tz'), losses=losses)
    return slots(instants(kind)[first], c['unit'], values, tz=c.get('tz'), losses=losses)


def cases(tier):
    top = 3 if tier == 'quick' else 5
    for kind in KINDS:
        for period in range(1, top + 1):
            for head in (1, 2, 5) if period > 1 else (1,):
                yield dict(kind=kind, period=period, head=head, top=3 if tier == 'quick' else 4)
    for tz, day in ((ROME, (2019, 3, 29)), (ROME, (2019, 10, 25)), ('Australia/Lord_Howe', (2019, 4, 5)), ('Australia/Lord_Howe', (2019, 10, 4)), ('America/New_York', (2019, 3, 8)), ('America/New_York', (2019, 11, 1))):
        for unit in ('1h', '30m') if tier == 'thorough' or tz == 'Australia/Lord_Howe' else ('1h',):
            if tz == 'Australia/Lord_Howe' and unit == '1h':
                continue
            for affected in (True, False):
                for form in ('points', 'slots'):
                    yield dict(tz=tz, day=list(day), unit=unit, affected=affected, form=form)


def run(ctx, case):
    if 'tz' in case:
        return across(ctx, case)
    kind, period = case['kind'], case['period']
    for rest in itertools.product((1, 2, 5), repeat=period - 1):
        pattern = (case['head'],) + rest
        for first in range(period):
            for n in range(2 * period, case['top'] * period + 1):
                periodic(ctx, kind, pattern, first, n)
                deviating(ctx, kind, pattern, first, n)


def periodic(ctx, kind, pattern, first, n):
    p = len(pattern)
    more = 2 * p + 2
    values = [pattern[(first + i) % p] for i in range(n + more)]
    series = build(kind, values[:n], first)

    def where():
        return '{} of pattern {} from position {} with {} items'.format(kind, pattern, first, n)

    rec = PeriodicAverageReconstructor()
    fit = outcome_of(rec.fit, series, periodicity=p)
    ctx.step()
    ctx.state((kind, pattern, first, n))
    if not ctx.check(fit[0] == 'ok', 'fit', lambda: '{}: reconstructor fit failed: {}'.format(where(), fit)):
        return
    ctx.outcome(tuple(sorted(map(str, rec.data['averages'].values()))))
    for level in (0, -3.5):
        other = build(kind, [v + level for v in values[:n]], first)
        for a in range(1, n - 1):
            for b in range(a, n - 1):
                got = outcome_of(rec.predict, other, a, b)
                ctx.step()
                exp = [v + level for v in values[a:b + 1]]
                ctx.check(got[0] == 'ok' and close(got[1]['a'], exp, abs_=1e-9), 'reconstruct', lambda: '{} at level {}: items {}-{} reconstructed as {} instead of {}'.format(where(), level, a, b, got[1:], exp))
                ctx.ok()
        # Elsewhere in time
        if n + p <= 3 * p + 2 and n > 2:
            other = build(kind, [v + level for v in values[p - 1:p - 1 + n]], first + p - 1)
            got = outcome_of(rec.predict, other, 1, n - 2)
            exp = [v + level for v in values[p:p - 2 + n]]
            ctx.step()
            ctx.check(got[0] == 'ok' and close(got[1]['a'], exp, abs_=1e-9), 'reconstruct', lambda: '{}: reconstructed later as {} instead of {}'.format(where(), got[1:], exp))
    for window in ['auto'] + list(range(1, p + 1)):
        fc = PeriodicAverageForecaster(window=window)
        fit = outcome_of(fc.fit, series, periodicity=p)
        ctx.step()
        if not ctx.check(fit[0] == 'ok', 'fit', lambda: '{}: forecaster fit with window {} failed: {}'.format(where(), window, fit)):
            continue
        w = p if window == 'auto' else window
        ctx.check(fc.window == w, 'window', lambda: '{}: window {} instead of {}'.format(where(), fc.window, w))
        for level in (0, -3.5):
            for upto in sorted({max(w, 2) + 1, n}):
                if upto > n:
                    continue
                other = build(kind, [v + level for v in values[:upto]], first)
                steps = p + 2
                got = outcome_of(fc.predict, other, steps=steps)
                ctx.step()
                exp = [{'a': v + level} for v in values[upto:upto + steps]]
                ctx.check(got[0] == 'ok' and close(got[1], exp, abs_=1e-9), 'forecast', lambda: '{} at level {}, window {}: after {} items forecast {} instead of {}'.format(where(), level, window, upto, got[1:], exp))
                ctx.ok()


def deviating(ctx, kind, pattern, first, n):
    """With a value differing from the pattern and lost items the averages are those of what is left."""
    p = len(pattern)
    for odd in range(n):
        values = [pattern[(first + i) % p] + (7 if i == odd else 0) for i in range(n)]
        for lost in {None, 0, odd, n - 1}:
            for limit, loss in ((1.0, 1), (0.5, 0.5), (1.0, 0.9), (None, 1)):
                if lost is None and loss != 1:
                    continue
                skipped = lost is not None and limit is not None and loss >= limit
                losses = [loss if i == lost else (0 if i % 2 else None) for i in range(n)]
                sums = {}
                for i in range(n):
                    if not (skipped and i == lost):
                        sums.setdefault(i % p, []).append(values[i])
                avg = {i: sum(v) / len(v) for i, v in sums.items()}
                if len(avg) < p:
                    continue
                series = build(kind, values, first, losses=losses)

                def where():
                    return '{} with values {} from position {}, lost {} with loss {} and limit {}'.format(kind, values, first, lost, loss, limit)

                rec, fc = PeriodicAverageReconstructor(), PeriodicAverageForecaster()
                fits = [outcome_of(m.fit, series, periodicity=p, data_loss_limit=limit) for m in (rec, fc)]
                ctx.step(2)
                ctx.state((kind, pattern, first, n, odd, lost, loss, limit))
                if not ctx.check(all(f[0] == 'ok' for f in fits), 'fit', lambda: '{}: fit failed: {}'.format(where(), fits)):
                    continue
                ctx.outcome(tuple(sorted(avg.values())))
                for m, got in ((rec, rec.data['averages']), (fc, fc.data['averages']['a'])):
                    ctx.check(close(sorted(got.values()), sorted(avg.values())), 'averages', lambda: '{}: averages {} instead of {}'.format(where(), got, avg))
                off = sum(values[j] - avg[j % p] for j in (0, n - 1)) / 2
                exp = [avg[i % p] + off for i in range(1, n - 1)]
                got = outcome_of(rec.predict, series, 1, n - 2) if n > 2 else ('ok', {'a': []})
                ctx.check(got[0] == 'ok' and close(got[1]['a'], exp), 'reconstruct', lambda: '{}: reconstructed {} instead of {}'.format(where(), got[1:], exp))
                got = outcome_of(fc.predict, series, steps=p + 1)
                ctx.step(2)
                # All of the steps have the same offset
                ctx.check(got[0] == 'ok' and close([s['a'] - got[1][0]['a'] for s in got[1]], [avg[(n + k) % p] - avg[n % p] for k in range(p + 1)]), 'forecast',
                          lambda: '{}: forecast {}, not following the averages {}'.format(where(), got[1:], avg))
                ctx.ok()


def across(ctx, case):
    """Daily patterns on hours, by wall clock or by elapsed time, over a DST change."""
    tz, unit, affected, form = case['tz'], case['unit'], case['affected'], case['form']
    res = 3600 if unit == '1h' else 1800
    start = epoch(*case['day'], tz=tz)
    per = 86400 // res

    def position(t):
        if not affected:
            return int(t // res) % per
        w = wall(t, tz)
        return (w.hour * 3600 + w.minute * 60) // res

    def pattern(t):
        return (position(t) * 7) % 11 + position(t) / per

    for shift in range(0, 24, 5):
        t0 = start + shift * 3600
        for n in (3 * per, 4 * per + 3):
            ts = [t0 + i * res for i in range(n + 2 * per)]
            vs = [pattern(t) for t in ts]

            def make(a, b):
                if form == 'points':
                    return points(ts[a:b], vs[a:b], tz=tz)
                return slots(ts[a], unit, vs[a:b], tz=tz)

            series = make(0, n)
            rec, fc = PeriodicAverageReconstructor(), PeriodicAverageForecaster()
            fits = [outcome_of(m.fit, series, periodicity=per, dst_affected=affected) for m in (rec, fc)]
            ctx.step(2)
            ctx.state((tz, tuple(case['day']), unit, affected, form, shift, n))
            if not ctx.check(all(f[0] == 'ok' for f in fits), 'fit', lambda: '{}: fit failed: {}'.format(case, fits)):
                continue
            ctx.outcome((tuple(sorted(map(str, rec.data['averages'].values())))))
            for a in range(1, n - 1, 5):
                for b in (a, min(a + per, n - 2)):
                    got = outcome_of(rec.predict, series, a, b)
                    ctx.step()
                    ctx.check(got[0] == 'ok' and close(got[1]['a'], vs[a:b + 1]), 'reconstruct-dst', lambda: '{}: items {}-{} reconstructed as {} instead of {}'.format(case, a, b, got[1:], vs[a:b + 1]))
                    ctx.ok()
            for upto in (per + 1, per + 7, 2 * per + 1, n):
                got = outcome_of(fc.predict, make(0, upto), steps=2 * per)
                ctx.step()
                exp = [{'a': v} for v in vs[upto:upto + 2 * per]]
                ctx.check(got[0] == 'ok' and close(got[1], exp), 'forecast-dst', lambda: '{}: after {} items forecast {} instead of {}'.format(case, upto, got[1:], exp))
                ctx.ok()
