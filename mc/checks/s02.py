"""S02: resolution and timezone of a series are those of its items."""
import itertools
from fractions import Fraction
from mc.lib import *
from propertime.utils import dt as pdt

PROPERTY = 'S02'
LEVEL = 'model_checking'
RULE = ('every spacing of the list x start x length, every pattern of spacings over {d, 2d, d/2}, every slot unit, every assignment '
        'of timezones to 1-3 items x timezone set on the series, each built in every way a series can be built; '
        'states are distinct (construction, items), a non-trivial outcome is a distinct (input class, reported resolution/timezone); every chain of up to two derivations (slices, views, copies, operations, transformations) from a series with a timezone of its own')
ASSUMPTIONS = ['spacings are multiples of a microsecond', 'epochs up to 2e9 with microsecond precision']
BOUNDS = {'quick': '~300 spacings, spacing patterns up to 6 points, 3 timezones on up to 3 items',
          'thorough': '~7000 spacings, spacing patterns up to 8 points, 4 timezones on up to 4 items'}
CHUNK = 40

BASE = ['0.000001', '0.000025', '0.001', '0.004', '0.005', '0.01', '0.05', '0.1', '0.105', '0.2', '0.25', '0.3', '0.5', '1', '1.0005', '1.01', '1.05',
        '1.1', '1.5', '2', '2.000001', '5', '10', '10.05', '10.5', '15', '20.01', '30', '59', '60', '60.5', '61', '90', '100', '100.001', '105', '120',
        '300', '600', '600.05', '601', '900', '1000', '1800', '3600', '3600.5', '3660', '6000', '7200', '36000', '43200', '82800', '86400',
        '90000', '100000', '604800', '2592000', '31536000']


def cases(tier):
    sp = list(BASE)
    if tier == 'quick':
        sp += ['%d.%02d' % divmod(k, 100) for k in range(1, 200)] + [str(k) for k in range(1, 70)]
    else:
        sp += ['%d.%02d' % divmod(k, 100) for k in range(1, 3000)] + [str(k) for k in range(1, 4000)]
    seen = set()
    for d in sp:
        if d not in seen:
            seen.add(d)
            yield dict(kind='spacing', d=d)
    n = 6 if tier == 'quick' else 8
    for m in range(0, n):
        for pat in itertools.product((1, 2, 0.5), repeat=m):
            yield dict(kind='pattern', pat=list(pat))
    for u in ['1s', '0.5s', '10s', '1m', '15m', '900s', '1h', '3600s', '6h', '24h', '1D', '1W', '1M', '1Y', '90s']:
        for tz in [None, 'Europe/Rome', 'America/New_York']:
            yield dict(kind='slots', unit=u, tz=tz)
    zones = [None, 'Europe/Rome', 'America/New_York'] + (['Asia/Kolkata'] if tier != 'quick' else [])
    for first in DERIVE:
        for stz in ['Europe/Rome', 'America/New_York', 'Asia/Kolkata']:
            for itz in [None, 'Europe/Rome']:
                for how in ('init', 'change'):
                    yield dict(kind='derived', first=first, series_tz=stz, item_tz=itz, how=how)
    for m in range(1, 4 if tier == 'quick' else 5):
        for zs in itertools.product(zones, repeat=m):
            for stz in zones:
                yield dict(kind='tz', zones=list(zs), series_tz=stz)


# What gives a new series from a series: the timezone set on the series goes with it
DERIVE = {
    'slice': lambda s: s.slice(from_i=1), 'slice[]': lambda s: s[1:4], 'slice_t': lambda s: s.slice(from_t=600, to_t=2400), 'step': lambda s: s[::2],
    'view': lambda s: s.view(1, 5), 'materialize': lambda s: s.view(0, 5).materialize(), 'filter': lambda s: s.filter('a'), 'filter[]': lambda s: s['a'],
    'duplicate': lambda s: s.duplicate(), 'copy': lambda s: s.copy(), 'diff': lambda s: s.diff(),
    'csum': lambda s: s.csum(), 'derivative': lambda s: s.derivative(), 'integral': lambda s: s.integral(), 'normalize': lambda s: s.normalize(),
    'rescale': lambda s: s.rescale(2), 'offset': lambda s: s.offset(1), 'mavg': lambda s: s.mavg(2), 'resample': lambda s: s.resample('5m'),
    'resample-up': lambda s: s.resample('20m'), 'aggregate': lambda s: s.aggregate('20m'), 'merge': lambda s: s.merge(_renamed(s)),
}


def _renamed(s):
    t = s.duplicate()
    t.rename_data_label('a', 'z')
    return t


def derived(ctx, case):
    """Chains of up to two derivations from a series with a timezone of its own."""
    def build():
        items = [DataTimePoint(t=600 * k, data={'a': v}, **(dict(tz=case['item_tz']) if case['item_tz'] else {})) for k, v in enumerate((5, 2, 5, 7, 1, 5, 3))]
        if case['how'] == 'init':
            return TimeSeries(*items, tz=case['series_tz'])
        s = TimeSeries(*items)
        s.change_tz(case['series_tz'])
        return s
    for second in [None] + list(DERIVE):
        what = '{}+{}'.format(case['first'], second)
        s = build()
        try:
            d = DERIVE[case['first']](s)
            if second:
                d = DERIVE[second](d)
        except Exception as e:
            # Not all of the chains are meaningful (i.e. aggregating slots, or the label is gone)
            ctx.outcome((what, 'err', type(e).__name__))
            ctx.check(second is not None, 'derived:{}:refused'.format(what), '{} of {}: {!r}'.format(what, case, e))
            continue
        ctx.step(2)
        ctx.state((what, case['series_tz'], case['item_tz'], case['how']))
        ctx.outcome((what, case['series_tz'], len(d)))
        # nothing may be left: then there is no timezone to report
        good = ctx.check(str(d.tz) == case['series_tz'] or (not d and d.tz is None), 'derived:{}:tz'.format(what), 'timezone {} instead of {} after {} of {}'.format(d.tz, case['series_tz'], what, case))
        good &= ctx.check(str(s.tz) == case['series_tz'], 'derived:{}:source-tz'.format(what), 'the source is now on {} instead of {}'.format(s.tz, case['series_tz']))
        if d and isinstance(d[0], TimeSlot):
            for i in d:
                good &= ctx.check(str(i.tz) == case['series_tz'], 'derived:{}:slot-tz'.format(what), 'slot on {} instead of {} after {} of {}'.format(i.tz, case['series_tz'], what, case))
        if good:
            ctx.ok()


def builders(items):
    yield 'constructor', lambda: TimeSeries(*items)

    def app():
        s = TimeSeries()
        for i in items:
            s.append(i)
        return s
    yield 'append', app

    def ins():
        s = TimeSeries()
        for i in reversed(items):
            s.insert(0, i)
        return s
    yield 'insert', ins
    yield 'duplicate', lambda: TimeSeries(*items).duplicate()
    yield 'slice', lambda: TimeSeries(*items).slice(from_i=0, to_i=len(items))
    yield 'filter', lambda: TimeSeries(*items).filter('a')
    yield 'pop', lambda: _popped(items)


def _popped(items):
    s = TimeSeries(*items)
    if items:
        last = items[-1]
        extra = last.__class__(t=last.t + 12345.5, data={'a': 1}) if isinstance(last, TimePoint) else DataTimeSlot(start=last.end, unit=last.unit, data={'a': 1})
        s.append(extra)
        s.pop()
    return s


def check(ctx, case, items, expected, what):
    """expected: None, 'variable', seconds, or a unit string"""
    for name, b in builders(items):
        if name in ('filter', 'slice') and not items:  # operations refuse empty series
            continue
        ctx.step(len(items))
        s = b()
        ctx.state((what, name, tuple(snap_item(i) for i in items)))
        r = s.resolution
        if expected is None:
            good = r is None
        elif expected == 'variable':
            good = isinstance(r, str) and r == 'variable'
        elif isinstance(expected, str):
            good = isinstance(r, TimeUnit) and r == TimeUnit(expected) and str(r) == str(TimeUnit(expected))
        else:
            good = isinstance(r, TimeUnit) and close(r.as_seconds(), expected, 1e-12, 1e-9) and r == TimeUnit(seconds=int(expected) if float(expected).is_integer() else float(expected))
        ctx.outcome((what, name, str(r)))
        if ctx.check(good, '{}:{}:resolution'.format(what, name),
                     'resolution {!r} instead of {!r} for items at {} ({})'.format(r, expected, [i.t for i in items], case)):
            ctx.ok()


def run(ctx, case):
    if case['kind'] == 'spacing':
        d = Fraction(case['d'])
        for start in (0, 1600000000, Fraction('1600000000.25'), -7200):
            for n in (2, 3, 5):
                items = [DataTimePoint(t=float(start + k * d), data={'a': k}) for k in range(n)]
                check(ctx, case, items, float(d), 'spacing')
                if d >= Fraction('0.001'):
                    # break it
                    for gap in range(1, n):
                        if n < 3:
                            continue
                        its = [DataTimePoint(t=float(start + k * d + (d / 2 if k >= gap else 0)), data={'a': k}) for k in range(n)]
                        check(ctx, case, its, 'variable', 'broken')
            s = TimeSeries(*[DataTimeSlot(start=TimePoint(t=float(start + k * d)), end=TimePoint(t=float(start + (k + 1) * d)), data={'a': k}) for k in range(3)])
            ctx.step(3)
            ctx.check(close(s.resolution.as_seconds(), float(d)), 'slot-spacing:resolution', 'slots of {} s report {!r}'.format(case['d'], s.resolution))
            ctx.ok()
        for v in ([float(d)] + ([int(d)] if d.denominator == 1 else [])):
            ctx.check(close(TimeUnit(v).as_seconds(), float(d)), 'unit-from-number', 'TimeUnit({!r}) lasts {}'.format(v, TimeUnit(v).as_seconds()))
        ctx.sample(case)
    elif case['kind'] == 'derived':
        derived(ctx, case)
    elif case['kind'] == 'pattern':
        t = 600.0
        items = [DataTimePoint(t=t, data={'a': 0})]
        for k, p in enumerate(case['pat']):
            t += 60 * p
            items.append(DataTimePoint(t=t, data={'a': k + 1}))
        ds = set(case['pat'])
        expected = None if not ds else ('variable' if len(ds) > 1 else 60.0 * ds.pop())
        check(ctx, case, items, expected, 'pattern')
        if not case['pat']:
            check(ctx, case, [], None, 'empty')
    elif case['kind'] == 'slots':
        u = TimeUnit(case['unit'])
        tz = case['tz'] or 'UTC'
        start = epoch(2019, 1, 7, tz=tz) if case['unit'] == '1W' else epoch(2019, 1, 1, tz=tz)
        s0 = slots(start, u, [1, 2, 3], tz=case['tz'])
        for n in (1, 2, 3):
            check(ctx, case, s0.contents()[:n], case['unit'], 'slots')
            s = TimeSeries(*s0.contents()[:n])
            ctx.check(str(s.tz) == tz, 'slots:tz', 'timezone {} instead of {}'.format(s.tz, tz))
    else:
        for kind in ('TimePoint', 'DataTimePoint', 'dt'):
            items = []
            for k, z in enumerate(case['zones']):
                kw = {} if kind == 'TimePoint' else dict(data={'a': k})
                cls = TimePoint if kind == 'TimePoint' else DataTimePoint
                # instants on both sides of a DST change
                t = 1571961600 + 86400 * 2 * k
                if kind == 'dt':
                    items.append(cls(dt=datetime.fromtimestamp(t, pytz.timezone(z or 'UTC')), **kw))
                else:
                    items.append(cls(t=t, tz=z, **kw) if z else cls(t=t, **kw))
            s = TimeSeries(*items, tz=case['series_tz']) if case['series_tz'] else TimeSeries(*items)
            ctx.step(len(items))
            names = {z or 'UTC' for z in case['zones']}
            expected = case['series_tz'] or (names.pop() if len(names) == 1 else 'UTC')
            ctx.state((kind, tuple(case['zones']), case['series_tz']))
            ctx.outcome((kind, expected, len(items)))
            if ctx.check(str(s.tz) == expected, 'tz:' + kind, 'timezone {} instead of {} ({})'.format(s.tz, expected, case)):
                ctx.ok()
            for i, z in zip(s, case['zones']):
                ctx.check(str(i.tz) == (z or 'UTC'), 'item-tz:' + kind, 'item timezone {} instead of {}'.format(i.tz, z))
                ctx.check(i.dt.timestamp() == i.t and i.dt.utcoffset() == datetime.fromtimestamp(i.t, ZoneInfo(z or 'UTC')).utcoffset(),
                          'item-dt:' + kind, 'item datetime {} is not at {} on {}'.format(i.dt, i.t, z))
