"""U01: time unit arithmetic."""
import itertools
from mc.lib import *
from propertime import Time

PROPERTY = 'U01'
LEVEL = 'model_checking'
RULE = ('every (timezone, unit, instant) with instants on a grid around DST changes, month ends, leap days and year ends: shift, addition, '
        'subtraction (physical units), floor, ceil, round and duration compared with wall clock arithmetic on zoneinfo; every pair of units for '
        'sums and equality; every spelling of each unit; every pair of small numbers for generic units. A non-trivial outcome is a distinct (operation, unit, result offset)')
ASSUMPTIONS = ['adding months to the 29th of February is not checked (propertime dependency)',
               'rounding to units of more than one hour (or several days, months, years) is only checked on UTC (it is done by the propertime dependency)',
               'calendar subtraction is not supported by the propertime dependency and is not checked']
BOUNDS = {'quick': '5 timezones, 20 units, ~1500 instants each', 'thorough': '8 timezones, 34 units, ~8000 instants each'}
CHUNK = 4
ZONES = ['UTC', 'Europe/Rome', 'America/New_York', 'Australia/Sydney', 'Asia/Kolkata']
UNITS = ['1s', '0.5s', '2s', '30s', '1m', '15m', '90m', '1h', '3h', '24h', '1D', '2D', '1W', '1M', '3M', '11M', '1Y', '2Y', '0.25s', '3600s']
MORE = ['10s', '5m', '30m', '60m', '6h', '12h', '36h', '7D', '30D', '2W', '2M', '6M', '4Y']


def instants(tier):
    days = []
    for y in (2019, 2020):
        for mo, d in ((1, 1), (1, 29), (1, 30), (1, 31), (2, 28), (3, 1), (3, 9), (3, 10), (3, 30), (3, 31), (4, 6), (4, 7), (10, 5), (10, 26), (10, 27), (11, 2), (11, 3), (12, 31)):
            days.append(datetime(y, mo, d))
    days.append(datetime(2020, 2, 29))
    days += [datetime(2020, 3, 8), datetime(2020, 3, 29), datetime(2020, 10, 25), datetime(2020, 4, 5), datetime(2020, 10, 4), datetime(2020, 11, 1)]
    hours = [0, 60, 89, 90, 120, 150, 180, 425, 720, 1380, 1439]
    if tier != 'quick':
        d = datetime(2019, 1, 1)
        days = []
        while d < datetime(2021, 1, 1):
            days.append(d)
            d += timedelta(days=1)
    for d in days:
        for h in hours:
            for s in (0, 0.5, 29.75):
                if s and h not in (0, 425):
                    continue
                yield d + timedelta(minutes=h, seconds=s)


def cases(tier):
    zones = ZONES + ([] if tier == 'quick' else ['America/Sao_Paulo', 'Pacific/Apia', 'Africa/Casablanca'])
    for z in zones:
        for u in UNITS + ([] if tier == 'quick' else MORE):
            yield dict(kind='instants', tz=z, unit=u, tier=tier)
    for u in UNITS + MORE:
        yield dict(kind='pairs', unit=u)
    for u in UNITS + MORE:
        yield dict(kind='spelling', unit=u)
    for a in (-7, -1, 0.5, 1, 3, 60):
        yield dict(kind='generic', a=a)


def boundary(naive, unit):
    """Latest wall clock boundary not after naive, for simple calendar units."""
    if unit == '1D':
        return datetime(naive.year, naive.month, naive.day)
    if unit == '1W':
        d = datetime(naive.year, naive.month, naive.day)
        return d - timedelta(days=d.weekday())
    if unit == '1M':
        return datetime(naive.year, naive.month, 1)
    if unit == '1Y':
        return datetime(naive.year, 1, 1)


def run(ctx, case):
    if case['kind'] == 'instants':
        for naive in instants(case['tier']):
            try:
                t = unwall(naive, case['tz'])
            except NoSuchTime:
                continue
            instant(ctx, t, case['unit'], case['tz'])
        ctx.sample(case)
    elif case['kind'] == 'pairs':
        pairs(ctx, case['unit'])
    elif case['kind'] == 'spelling':
        spelling(ctx, case['unit'])
    else:
        generic(ctx, case['a'])


def instant(ctx, t, unit, tz):
    u = TimeUnit(unit)
    z = pytz.timezone(tz)
    d = datetime.fromtimestamp(t, z)
    me = '{} {} ({})'.format(unit, d, tz)
    ctx.state((t, unit, tz))
    try:
        end = ref_shift(t, unit, tz)
    except NoSuchTime:
        end = None
    w = wall(t, tz)
    if unit[-1] == 'M' and (w.month, w.day) == (2, 29):
        # The propertime dependency moves the year before the month, and refuses when going through a 29th of February that does not exist
        return
    p = TimePoint(t=t, tz=tz)
    forms = [('shift', lambda: u.shift(d)), ('dt+', lambda: d + u), ('point+', lambda: p + u), ('datapoint+', lambda: DataTimePoint(t=t, tz=tz, data={'a': 1}) + u),
             ('time+', lambda: Time.from_dt(d) + u)]
    for name, f in forms:
        ctx.step()
        r = outcome_of(f)
        if end is None:
            ctx.check(r[0] == 'err', name + ':nowhere', lambda: '{}: {} gave {} but that time does not exist (or is ambiguous)'.format(me, name, r))
            continue
        if not ctx.check(r[0] == 'ok', name + ':refused', lambda: '{}: {} raised {}'.format(me, name, r)):
            continue
        got = r[1]
        gt = got.t if isinstance(got, TimePoint) else float(got) if isinstance(got, Time) else got.timestamp()
        ctx.check(close(gt, end, 0, 1e-6), name + ':wrong', lambda: '{}: {} gave {} instead of {}'.format(me, name, gt, end))
        if isinstance(got, TimePoint):
            ctx.check(str(got.tz) == tz, name + ':tz', lambda: '{}: {} is on {}'.format(me, name, got.tz))
            ctx.check(type(got) is TimePoint, name + ':type', lambda: '{}: {}'.format(me, got))
        ctx.outcome((name, unit, gt - t))
    if end is not None:
        r = outcome_of(u.as_seconds, d)
        ctx.check(r[0] == 'ok' and close(r[1], end - t, 0, 1e-6), 'as_seconds', lambda: '{}: lasts {} instead of {}'.format(me, r, end - t))
    n, k = parse_unit(unit)
    if k in PHYSICAL:
        sec = n * PHYSICAL[k]
        ctx.step(3)
        for name, f in (('dt-', lambda: (d - u).timestamp()), ('point-', lambda: (p - u).t), ('number+', lambda: t + u), ('shift-2', lambda: u.shift(d, times=-2).timestamp()), ('shift3', lambda: u.shift(d, times=3).timestamp()),
                        ('number-', lambda: t - u), ('undo', lambda: ((p + u) - u).t)):
            r = outcome_of(f)
            exp = {'dt-': t - sec, 'point-': t - sec, 'number+': t + sec, 'number-': t - sec, 'undo': t, 'shift-2': t - 2 * sec, 'shift3': t + 3 * sec}[name]
            ctx.check(r[0] == 'ok' and close(float(r[1]), exp, 0, 1e-6), name, lambda: '{}: {} gave {} instead of {}'.format(me, name, r, exp))
        ctx.check(str((p - u).tz) == tz, 'point-:tz', lambda: '{}: {}'.format(me, (p - u).tz))
        ctx.check(close(u.as_seconds(), sec), 'as_seconds', lambda: '{}: {}'.format(me, u.as_seconds()))
    # rounding
    rounds = None
    if unit in ('1D', '1W', '1M', '1Y'):
        try:
            f = unwall(boundary(wall(t, tz), unit), tz)
            rounds = (f, ref_shift(f, unit, tz))
        except NoSuchTime:
            pass
    elif k in PHYSICAL and (tz == 'UTC' or (sec <= 3600 and not datetime.fromtimestamp(t, ZoneInfo(tz)).utcoffset().total_seconds() % 3600)):
        f = (t // sec) * sec
        rounds = (f, f + sec)
    if rounds:
        f, c = rounds
        h = f if t - f <= c - t else c
        for name, fn, exp in (('floor', u.floor, f), ('ceil', u.ceil, c), ('round', u.round, h)):
            ctx.step()
            r = outcome_of(fn, d)
            ctx.check(r[0] == 'ok' and close(r[1].timestamp(), exp, 0, 1e-6), name, lambda: '{}: {} gave {} instead of {}'.format(me, name, r, datetime.fromtimestamp(exp, z)))
            r = outcome_of(fn, Time.from_dt(d))
            ctx.check(r[0] == 'ok' and close(float(r[1]), exp, 0, 1e-6), name + '(Time)', lambda: '{}: {} gave {} instead of {}'.format(me, name, r, datetime.fromtimestamp(exp, z)))
            ctx.outcome((name, unit, exp - t))
    ctx.ok()


COMPONENT = {'Y': 'years', 'M': 'months', 'W': 'weeks', 'D': 'days', 'h': 'hours', 'm': 'minutes', 's': 'seconds'}


def comps(u):
    return {c: getattr(u, c) for c in COMPONENT.values()}


def pairs(ctx, a):
    for b in UNITS + MORE:
        ctx.step()
        ctx.state((a, b))
        ua, ub = TimeUnit(a), TimeUnit(b)
        s = ua + ub
        exp = {c: comps(ua)[c] + comps(ub)[c] for c in COMPONENT.values()}
        ctx.check(comps(s) == exp, 'sum', lambda: '{} + {} = {}'.format(a, b, s))
        ctx.check(comps(ua) == comps(TimeUnit(a)) and comps(ub) == comps(TimeUnit(b)), 'sum-altered-operands', lambda: '{} + {}'.format(a, b))
        na, ka = parse_unit(a)
        nb, kb = parse_unit(b)
        if ka in PHYSICAL and kb in PHYSICAL:
            eq = na * PHYSICAL[ka] == nb * PHYSICAL[kb]
            ctx.check(close(s.as_seconds(), na * PHYSICAL[ka] + nb * PHYSICAL[kb]), 'sum-duration', lambda: '{} + {} lasts {}'.format(a, b, s.as_seconds()))
        else:
            eq = a == b
        ctx.check((ua == ub) == eq and (ua != ub) == (not eq), 'equality', lambda: '{} == {} is {}'.format(a, b, ua == ub))
        ctx.outcome((a, b, eq))
        ctx.ok()


def spelling(ctx, a):
    n, k = parse_unit(a)
    num = int(n) if n == int(n) else n
    ref = TimeUnit(a)
    forms = {'components': lambda: TimeUnit(**{COMPONENT[k]: num}), 'value': lambda: TimeUnit(value=a), 'str(str)': lambda: TimeUnit(str(ref))}
    if k in PHYSICAL:
        sec = n * PHYSICAL[k]
        forms['number'] = lambda: TimeUnit(int(sec) if sec == int(sec) else sec)
        forms['float'] = lambda: TimeUnit(float(sec))
        forms['value number'] = lambda: TimeUnit(value=int(sec) if sec == int(sec) else sec)
        forms['seconds'] = lambda: TimeUnit(seconds=int(sec) if sec == int(sec) else sec)
        forms['string of seconds'] = lambda: TimeUnit('{}s'.format(int(sec) if sec == int(sec) else sec))
    for name, f in forms.items():
        ctx.step()
        ctx.state((a, name))
        r = outcome_of(f)
        if not ctx.check(r[0] == 'ok', 'spelling:' + name, lambda: '{} as {}: {}'.format(a, name, r)):
            continue
        u = r[1]
        ctx.check(u == ref and isinstance(u, TimeUnit), 'spelling-equal:' + name, lambda: '{} as {} is {}'.format(a, name, u))
        for t in (0, 1546300800, 1551312000.5):
            for tz in ('UTC', 'Europe/Rome'):
                x = outcome_of(lambda: (TimePoint(t=t, tz=tz) + u).t)
                y = outcome_of(lambda: (TimePoint(t=t, tz=tz) + ref).t)
                ctx.check(x[:2] == y[:2], 'spelling-shift:' + name, lambda: '{} as {}: {} instead of {}'.format(a, name, x, y))
        ctx.outcome((a, name, str(u)))
        ctx.ok()
    for bad in (a + 'x', 'x' + a, a[:-1] + 'q', a[:-1]):
        r = outcome_of(TimeUnit, bad)
        ctx.step()
        ctx.check(r[0] == 'err', 'bad-spelling', lambda: 'TimeUnit({!r}) accepted as {}'.format(bad, r))


def generic(ctx, a):
    for b in (-7, -1, 0.5, 1, 3, 60):
        u, v = Unit(a), Unit(b)
        ctx.state((a, b))
        for name, f, exp in (('u+n', lambda: u + b, a + b), ('n+u', lambda: b + u, a + b), ('u-n', lambda: u - b, a - b), ('n-u', lambda: b - u, b - a),
                             ('u+v', lambda: u + v, a + b), ('u-v', lambda: u - v, a - b), ('u/n', lambda: u / b, a / b), ('n/u', lambda: b / u, b / a),
                             ('u*n', lambda: u * b, a * b), ('n*u', lambda: b * u, a * b), ('p+u', lambda: (Point(b) + u).coordinates[0], a + b),
                             ('p-u', lambda: (Point(b) - u).coordinates[0], b - a),
                             ('slot end', lambda: Slot(start=Point(b), unit=u).end.coordinates[0] if a > 0 else a + b, a + b), ('u==v', lambda: u == v, a == b), ('u==n', lambda: u == b, a == b)):
            ctx.step()
            r = outcome_of(f)
            ctx.check(r[0] == 'ok' and close(r[1], exp), 'generic:' + name, lambda: 'Unit({}), {}: {} instead of {}'.format(a, b, r, exp))
            ctx.outcome((name, a, b))
        ctx.ok()
