"""S03: slots tile the calendar with no gaps across DST and month lengths."""
from mc.lib import *

PROPERTY = 'S03'
LEVEL = 'model_checking'
RULE = ('every (timezone, unit, starting day in the range, starting hour): a run of consecutive slots is built and appended in four ways, '
        'and at each state of the run every ill-formed next slot of a fixed alphabet is tried; the reference is wall clock arithmetic on zoneinfo; '
        'a non-trivial outcome is a distinct (unit, timezone, slot duration, accepted/refused)')
ASSUMPTIONS = ['zoneinfo and pytz agree on the timezone rules of 2018-2021', 'slot starts that do not exist or are ambiguous on the wall clock must be refused with an error']
BOUNDS = {'quick': '5 timezones, 10 units, every 1st/14th/28th-31st of each month plus all days around DST changes and year ends of 2019-2020, 3 hours, runs of 3 slots',
          'thorough': '9 timezones, 14 units, every day of 2019-2020, 7 hours, runs of 4 slots'}
CHUNK = 60
ZONES = ['UTC', 'Europe/Rome', 'America/New_York', 'Australia/Sydney', 'Asia/Kolkata']
UNITS = ['1D', '1W', '1M', '1Y', '2D', '1h', '6h', '24h', '15m', '0.5s']


def cases(tier):
    zones = ZONES + ([] if tier == 'quick' else ['America/Sao_Paulo', 'Pacific/Apia', 'Africa/Casablanca', 'Asia/Tehran'])
    units = UNITS + ([] if tier == 'quick' else ['3M', '2W', '90m', '86400s'])
    day = datetime(2019, 1, 1)
    while day < datetime(2021, 1, 1):
        around = (day.month in (3, 4, 10, 11) and (day.day >= 24 or day.day <= 10)) or (day.month == 2 and day.day >= 26)
        if tier != 'quick' or around or day.day in (1, 14, 28, 29, 30, 31):
            for z in zones:
                yield dict(day=[day.year, day.month, day.day], tz=z, units=units, hours=[0, 150, 720] if tier == 'quick' else [0, 60, 120, 150, 180, 720, 1430],
                           n=3 if tier == 'quick' else 4)
        day += timedelta(days=1)


def build(how, k, t, unit, tz, prev):
    u = TimeUnit(unit)
    if how == 'chain' and prev is not None:
        return DataTimeSlot(start=prev.end, unit=u, data={'a': k})
    if how == 't':
        return DataTimeSlot(t=t, tz=tz, unit=u, data={'a': k})
    if how == 'dt':
        return DataTimeSlot(dt=datetime.fromtimestamp(t, pytz.timezone(tz)), unit=u, data={'a': k})
    if how == 'plain':
        return TimeSlot(start=TimePoint(t=t, tz=tz), unit=u)
    return DataTimeSlot(start=TimePoint(t=t, tz=tz), unit=u, data={'a': k})


def run(ctx, case):
    tz = case['tz']
    y, m, d = case['day']
    for minutes in case['hours']:
        try:
            t0 = unwall(datetime(y, m, d) + timedelta(minutes=minutes), tz)
        except NoSuchTime:
            continue
        for unit in case['units']:
            for how in ('chain', 't', 'dt', 'plain'):
                one(ctx, case, how, unit, tz, t0)
    ctx.sample(dict(day=case['day'], tz=tz))


def one(ctx, case, how, unit, tz, t0):
    s = TimeSeries()
    t = t0
    prev = None
    me = '{} from {} ({} {})'.format(unit, datetime.fromtimestamp(t0, ZoneInfo(tz)), tz, how)
    for k in range(case['n']):
        try:
            end = ref_shift(t, unit, tz)
        except NoSuchTime as e:
            out = outcome_of(build, how, k, t, unit, tz, prev)
            ctx.step()
            ctx.outcome((unit, tz, 'refused'))
            ctx.check(out[0] == 'err', 'slot-to-nowhere:' + how, '{}: slot #{} accepted although its end does not exist ({})'.format(me, k, e))
            return
        slot = build(how, k, t, unit, tz, prev)
        ctx.step()
        ctx.state((unit, tz, t, how))
        good = ctx.check(slot.start.t == t and close(slot.end.t, end, 0, 1e-6), 'slot-boundaries:' + how, lambda: '{}: slot #{} is [{}, {}] instead of [{}, {}]'.format(me, k, slot.start.t, slot.end.t, t, end))
        good &= ctx.check(close(slot.length, end - t, 0, 1e-6), 'slot-length:' + how, lambda: '{}: slot #{} lasts {} instead of {}'.format(me, k, slot.length, end - t))
        good &= ctx.check(close(slot.unit.as_seconds(slot.start.dt), end - t, 0, 1e-6) and slot.unit == TimeUnit(unit), 'slot-unit:' + how, lambda: '{}: unit {} lasting {}'.format(me, slot.unit, slot.unit.as_seconds(slot.start.dt)))
        good &= ctx.check(str(slot.tz) == tz and str(slot.start.tz) == tz and str(slot.end.tz) == tz, 'slot-tz:' + how, lambda: '{}: timezones {} {} {}'.format(me, slot.tz, slot.start.tz, slot.end.tz))
        good &= ctx.check(wall(end, tz) == slot.end.dt.replace(tzinfo=None), 'slot-end-dt:' + how, lambda: '{}: end {}'.format(me, slot.end.dt))
        if not good:
            return
        before = snap(s)
        if k:
            # ill-formed next slots: all refused, leaving the series as it was
            for name, bad in wrong(how, k, t, unit, tz, end):
                ctx.step()
                r = outcome_of(s.append, bad)
                ctx.check(r[0] == 'err', 'ill-formed-accepted:' + name, lambda: '{}: series of {} slots accepted {}'.format(me, k, bad))
                ctx.check(snap(s) == before, 'ill-formed-changed-series:' + name, lambda: '{}: {}'.format(me, bad))
        r = outcome_of(s.append, slot)
        if not ctx.check(r[0] == 'ok', 'consecutive-refused:' + how, lambda: '{}: slot #{} refused: {}'.format(me, k, r)):
            return
        ctx.outcome((unit, tz, end - t, 'accepted'))
        ctx.ok()
        prev = slot
        t = end
    ctx.check(str(s.tz) == tz and s.resolution == TimeUnit(unit) and len(s) == case['n'], 'series:' + how, lambda: '{}: series {}'.format(me, s))


def wrong(how, k, t, unit, tz, end):
    u = TimeUnit(unit)
    if how == 'plain':
        mk = lambda a, b=None, u=None, z=tz: TimeSlot(start=TimePoint(t=a, tz=z), end=TimePoint(t=b, tz=z)) if b else TimeSlot(start=TimePoint(t=a, tz=z), unit=u)
    else:
        mk = lambda a, b=None, u=None, z=tz: (DataTimeSlot(start=TimePoint(t=a, tz=z), end=TimePoint(t=b, tz=z), unit=u, data={'a': k}) if b else
                                              DataTimeSlot(start=TimePoint(t=a, tz=z), unit=u, data={'a': k}))
    length = end - t
    for name, a in (('gap', t + 0.25), ('overlap', t - 0.25), ('gap-one-unit', end)):
        try:
            ref_shift(a, unit, tz)
        except NoSuchTime:
            continue
        yield name, mk(a, u=u)
    yield 'other-unit', mk(t, u=TimeUnit('7s'))
    if unit in ('1D', '2D', '1W', '1M', '1Y', '3M', '2W'):
        # same duration, but physical and not calendar unit
        yield 'physical-unit', mk(t, u=TimeUnit(int(length)))
    yield 'other-tz', mk(t, u=TimeUnit('1h') if unit not in ('1h',) else u, z='Asia/Tokyo')
    if unit in ('1h', '6h', '24h', '15m', '0.5s'):
        yield 'other-tz-same-unit', mk(t, u=u, z='Asia/Tokyo')
