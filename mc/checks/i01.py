"""I01: points and slots are sound values: positions, comparisons, succession, well-formedness.

Every item that can be built from small families of coordinates, timezones, data and indexes, in every way the
constructors offer, and every pair (and triple) of them, compared with plain tuples.
"""
import itertools
from mc.lib import *

PROPERTY = 'I01'
LEVEL = 'model_checking'
RULE = ('states: distinct items (class, position, timezone, data, indexes) and, for timezone changes, distinct contents after every sequence of changes; transitions: constructions (well and ill-formed), '
        'comparisons of every pair, timezone changes; a non-trivial outcome is a distinct (constructor or comparison, arguments, result)')
ASSUMPTIONS = ['coordinates are numbers', 'whether an item with data equals one without data, or a point a time point, in the same position is not specified, only that it is the same both ways round',
               'the indexes do not count in comparisons, nor do timezones']
BOUNDS = {'quick': '61 instants (negative, zero, fractional, around DST changes, far), 10 timezones, pytz, zoneinfo and fixed-offset datetimes; 12 data and 5 index values; every pair of about 250 items; every slot between 6 starts and 6 ends or units; all sequences of up to 3 timezone changes',
          'thorough': 'the same, with every sequence of up to 4 timezone changes'}
CHUNK = 1
TIMEOUT = 600

TZS = [None, 'UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe']
TS = [0, -0.0, 60, -60, -86399.5, 0.5, 1e-6, 1572134400 - 3600, 1572134400 + 1800, 1572139800, 1585443599.999999, 951782400, 4102444800]
IDX = [None, {}, {'data_loss': 0}, {'data_loss': None, 'x': 1}, {'x': 0.25}]
DATA = [{'a': 1}, {'a': 2}, {'b': 1}, {'a': 1, 'b': 0}, {}, [1], [2], [1, 2], [], 0, 1, 'x']


def cases(tier):
    tzs = TZS + ['Pacific/Apia', 'America/Sao_Paulo', 'Africa/Casablanca', 'Asia/Kathmandu']
    ts = TS + [1572134400 + 1800 * k + 0.25 * (k % 3) for k in range(-12, 12)] + [1585440000 + 1800 * k for k in range(-12, 12)]
    for t in ts:
        for tz in tzs:
            yield dict(part='point', t=t, tz=tz, tzs=tzs)
    for tz in tzs:
        yield dict(part='change', tz=tz, tzs=tzs, depth=4 if tier == 'thorough' else 3)
    for k in range(32):
        yield dict(part='pairs', k=k, of=32)
    yield dict(part='bad')
    for tz in tzs:
        yield dict(part='slots', tz=tz)
    yield dict(part='indexes')


def zone(tz):
    return ZoneInfo(tz or 'UTC')


def datetimes(t, tz):
    """All the ways of saying the instant t in tz, as datetimes."""
    d = datetime.fromtimestamp(t, zone(tz))
    yield 'zoneinfo', d, True
    p = datetime.fromtimestamp(t, pytz.utc).astimezone(pytz.timezone(tz or 'UTC'))
    yield 'pytz', p, True
    yield 'fixed', datetime.fromtimestamp(t, timezone(d.utcoffset())), False


def run_point(ctx, case):
    t, tz = case['t'], case['tz']
    name = tz or 'UTC'
    kw = dict(tz=tz) if tz else {}
    data = {'a': 1}

    def look(tag, make, where, exact=True, at=t):
        for cls, extra in ((TimePoint, {}), (DataTimePoint, dict(data=data))):
            got = outcome_of(make, cls, extra)
            ctx.step()
            if not ctx.check(got[0] == 'ok', 'point:' + tag + ':refused', lambda: '{} {}: {}'.format(tag, cls.__name__, got)):
                continue
            p = got[1]
            here = (p.t, str(p.tz), p.dt)
            ok = ctx.check(p.t == at if exact else abs(p.t - at) < 1e-6, 'point:' + tag + ':t', lambda: '{} gives {} must be {}'.format(tag, here, at))
            if where is not None:
                ok = ctx.check(str(p.tz) == where, 'point:' + tag + ':tz', lambda: '{} gives {} must be in {}'.format(tag, here, where)) and ok
                naive = datetime.fromtimestamp(at, zone(where)).replace(tzinfo=None)
                ok = ctx.check(abs((p.dt.replace(tzinfo=None) - naive).total_seconds()) < 2e-6, 'point:' + tag + ':wall', lambda: '{} gives {} must be {}'.format(tag, here, naive)) and ok
            ok = ctx.check(abs(p.dt.timestamp() - at) < 2e-6, 'point:' + tag + ':dt', lambda: '{} gives {} must be {}'.format(tag, here, at)) and ok
            if cls is DataTimePoint:
                ok = ctx.check(p.data == data and p.data_indexes == {}, 'point:' + tag + ':data', lambda: '{} {}'.format(p.data, p.data_indexes)) and ok
            if ok:
                ctx.ok()
            ctx.state((tag, snap_item(p)))
            ctx.outcome((tag, cls.__name__, here))

    look('t', lambda cls, e: cls(t=t, **kw, **e), name)
    look('arg', lambda cls, e: cls(t, **kw, **e), name)
    for how, d, named in datetimes(t, tz):
        look('dt-' + how, lambda cls, e: cls(dt=d, **e), name if named else None, exact=False)
        for other in case['tzs']:
            if other:
                # The timezone given explicitly wins
                look('dt-tz-' + how, lambda cls, e: cls(dt=d, tz=other, **e), other, exact=False)
    for other in case['tzs']:
        if other:
            look('point-tz', lambda cls, e: cls(TimePoint(t=t, **kw), tz=other, **e), other)
            src = TimePoint(t=t, **kw)
            cp = TimePoint(src)
            cp.change_tz(other)
            ctx.check(str(src.tz) == name, 'point:shared-tz', lambda: 'changing the timezone of a point changed that of the point it was made from')
    look('point', lambda cls, e: cls(TimePoint(t=t, **kw), **e), name)
    # Slots by t and dt, with a unit
    for unit in ('1h', '30s', '1D'):
        try:
            end = ref_shift(t, unit, name)
        except NoSuchTime:
            continue
        for make in (lambda: TimeSlot(start=TimePoint(t=t, **kw), unit=TimeUnit(unit)),
                     lambda: TimeSlot(t=t, tz=tz, unit=TimeUnit(unit)),
                     lambda: DataTimeSlot(start=TimePoint(t=t, **kw), unit=TimeUnit(unit), data=[1])):
            got = outcome_of(make)
            ctx.step()
            if ctx.check(got[0] == 'ok', 'slot:refused', lambda: '{} {} {}: {}'.format(t, name, unit, got)):
                s = got[1]
                ok = ctx.check(s.start.t == t and s.t == t and abs(s.end.t - end) < 1e-5, 'slot:bounds', lambda: '{} must be {} {}'.format(s, t, end))
                ok = ctx.check(str(s.tz) == name and str(s.start.tz) == name and str(s.end.tz) == name, 'slot:tz', lambda: '{} {} {} must be {}'.format(s.tz, s.start.tz, s.end.tz, name)) and ok
                ok = ctx.check(s.dt == s.start.dt and str(s.unit) == unit and abs(s.length - (end - t)) < 1e-5, 'slot:derived', lambda: '{} {} {} must be {} {}'.format(s.dt, s.unit, s.length, unit, end - t)) and ok
                if ok:
                    ctx.ok()
                ctx.state(('slot', snap_item(s)))


def run_change(ctx, case):
    tz = case['tz']
    kw = dict(tz=tz) if tz else {}
    mk = [lambda: TimePoint(t=1572134400.5, **kw), lambda: DataTimePoint(t=1572134400.5, data=[1], data_loss=0.5, **kw),
          lambda: TimeSlot(start=TimePoint(t=1572130800, **kw), unit=TimeUnit('1h')),
          lambda: DataTimeSlot(start=TimePoint(t=1572130800, **kw), unit=TimeUnit('1h'), data={'a': 1}, data_loss=0.5)]
    for n, make in enumerate(mk):
        for depth in range(1, case['depth'] + 1):
            for seq in itertools.product([z for z in case['tzs'] if z], repeat=depth):
                item = make()
                twin = make()
                neighbour = TimeSlot(start=item.end, unit=TimeUnit('1h')) if isinstance(item, Slot) else TimePoint(item)
                nb = snap_item(neighbour)
                for z in seq:
                    item.change_tz(z)
                    ctx.step()
                a, b = snap_item(item), snap_item(twin)
                ok = ctx.check(str(item.tz) == seq[-1], 'change:tz', lambda: '{} after {}'.format(item.tz, seq))
                ok = ctx.check(item == twin and twin == item, 'change:equal', lambda: '{} and {} after {}'.format(a, b, seq)) and ok
                drop = lambda x: [v for v in x if v != str(item.tz) and v != str(twin.tz)]
                ok = ctx.check(drop(a) == drop(b), 'change:moved', lambda: '{} from {} after {}'.format(a, b, seq)) and ok
                ok = ctx.check(snap_item(neighbour) == nb, 'change:neighbour', lambda: '{} was {} after {}'.format(snap_item(neighbour), nb, seq)) and ok
                ends = [item] if isinstance(item, Point) else [item.start, item.end]
                for e in ends:
                    want = datetime.fromtimestamp(e.t, zone(seq[-1])).replace(tzinfo=None)
                    ok = ctx.check(e.dt.replace(tzinfo=None) == want and str(e.tz) == seq[-1], 'change:dt', lambda: '{} must be {}'.format(e.dt, want)) and ok
                if ok:
                    ctx.ok()
                ctx.state((n, seq, a))
                ctx.outcome((n, seq, a))


def family():
    """(description, item): description = (kind, class name, position, data or None)."""
    out = []

    def add(kind, pos, data, make):
        item = make()
        out.append(((kind, type(item).__name__, pos, data), item))

    for c in (0, 1, -1, 1.5):
        add('point', (c,), None, lambda: Point(c))
        for d in DATA[:8]:
            add('point', (c,), d, lambda: DataPoint(c, data=d))
    add('point', (0,), [1], lambda: DataPoint(0, data=[1], data_loss=0.5))
    for c in ((0, 1), (1, 0), (1, 1)):
        add('point', c, None, lambda: Point(*c))
        add('point', c, [1], lambda: DataPoint(*c, data=[1]))
        add('point', c, [2], lambda: DataPoint(*c, data=[2]))
    for t in (0, 60, -60, 0.5, 1572134400):
        for tz in (None, 'Europe/Rome', 'America/New_York'):
            kw = dict(tz=tz) if tz else {}
            add('time', (t,), None, lambda: TimePoint(t=t, **kw))
            for d in ({'a': 1}, {'a': 2}, [1]):
                add('time', (t,), d, lambda: DataTimePoint(t=t, data=d, **kw))
    add('time', (0,), [1], lambda: DataTimePoint(t=0, data=[1], data_indexes={'data_loss': 1, 'x': 0}))
    for a, b in ((0, 1), (1, 2), (0, 2), (-1, 0), (0.5, 1)):
        add('slot', (a, b), None, lambda: Slot(start=Point(a), end=Point(b)))
        add('slot', (a, b), [1], lambda: DataSlot(start=Point(a), end=Point(b), data=[1]))
        add('slot', (a, b), [2], lambda: DataSlot(start=Point(a), unit=Unit(b - a), data=[2]))
    for a, b in ((0, 60), (60, 120), (-60, 0), (0, 120), (120, 3720), (0.5, 60)):
        for tz in (None, 'Europe/Rome'):
            kw = dict(tz=tz) if tz else {}
            add('timeslot', (a, b), None, lambda: TimeSlot(start=TimePoint(t=a, **kw), end=TimePoint(t=b, **kw)))
            for d in ([1], {'a': 1}, {'a': 2}):
                add('timeslot', (a, b), d, lambda: DataTimeSlot(start=TimePoint(t=a, **kw), end=TimePoint(t=b, **kw), data=d))
    return out


FOREIGN = [None, 0, 60, 1.5, 'x', '', [], {}, (0,), object(), float('nan')]


def run_pairs(ctx, case):
    items = family()
    for n, (da, a) in enumerate(items):
        if n % case['of'] != case['k']:
            continue
        before = snap_item(a)
        for x in FOREIGN:
            for what, fn in (('==', lambda: a == x), ('==r', lambda: x == a), ('!=', lambda: a != x)):
                got = outcome_of(fn)
                ctx.step()
                ctx.check(got == ('ok', what == '!='), 'pairs:foreign:' + what, lambda: '{} {} {!r}: {}'.format(da, what, x, got))
        for db, b in items:
            eq, qe, ne = outcome_of(lambda: a == b), outcome_of(lambda: b == a), outcome_of(lambda: a != b)
            ctx.step(3)
            desc = lambda: '{} and {}: == {} {} != {}'.format(da, db, eq, qe, ne)
            tag = 'pairs:{}:{}'.format(da[1], db[1])
            ok = ctx.check(eq[0] == 'ok' and qe[0] == 'ok' and ne[0] == 'ok', tag + ':raises', desc)
            ok = ctx.check(eq == qe and ne[1] == (not eq[1]), tag + ':symmetric', desc) and ok
            if da[1] == db[1]:
                ok = ctx.check(eq[1] == (da[2] == db[2] and da[3] == db[3]), tag + ':equal', desc) and ok
            elif da[2] != db[2]:
                # Never equal in different positions, nor points with slots
                ok = ctx.check(eq[1] is False, tag + ':different', desc) and ok
            if da[0] in ('point', 'time') and da[0] == db[0]:
                gt, lt = outcome_of(lambda: a > b), outcome_of(lambda: a < b)
                ctx.step(2)
                more = lambda: '{} and {}: > {} < {}'.format(da, db, gt, lt)
                if len(da[2]) == 1 and len(db[2]) == 1:
                    ok = ctx.check(gt == ('ok', da[2] > db[2]) and lt == ('ok', da[2] < db[2]), tag + ':order', more) and ok
                else:
                    ok = ctx.check(gt[0] == 'err' and lt[0] == 'err', tag + ':order-multi', more) and ok
                ctx.outcome((da, db, gt))
            if 'slot' in da[0] and da[0] == db[0]:
                # Succession shows in what a series accepts
                if da[1] == db[1] and (da[3] is None or type(da[3]) is type(db[3])) and str(getattr(a, 'tz', '')) == str(getattr(b, 'tz', '')) and a.unit == b.unit:
                    got = outcome_of(lambda: len((TimeSeries if da[0] == 'timeslot' else Series)(a, b)))
                    ctx.step()
                    ok = ctx.check(got[0] == ('ok' if da[2][1] == db[2][0] else 'err'), tag + ':succession', lambda: '{} then {}: {}'.format(da, db, got)) and ok
                ok = ctx.check(a.length == da[2][1] - da[2][0], tag + ':length', lambda: '{} {}'.format(da, a.length)) and ok
            if ok:
                ctx.ok()
            ctx.outcome((da, db, eq[1]))
        ctx.check(snap_item(a) == before, 'pairs:touched', lambda: '{} is now {}'.format(before, snap_item(a)))
        ctx.state(before)


def run_bad(ctx, case):
    P, T = Point, TimePoint
    bad = {
        'point none': lambda: Point(), 'point str': lambda: Point('x'), 'point None': lambda: Point(None), 'point mixed': lambda: Point(1, 'x'), 'point list': lambda: Point([1]),
        'timepoint none': lambda: TimePoint(), 'timepoint str': lambda: TimePoint(t='x'), 'timepoint None': lambda: TimePoint(t=None), 'timepoint two': lambda: TimePoint(1, 2),
        'timepoint tz': lambda: TimePoint(t=1, tz='Nowhere/City'), 'change tz': lambda: TimePoint(t=1).change_tz('Nowhere/City'),
        'datapoint no data': lambda: DataPoint(1), 'datatimepoint no data': lambda: DataTimePoint(t=1), 'datapoint indexes': lambda: DataPoint(1, data=[1], data_indexes=[1]),
        'datatimepoint indexes': lambda: DataTimePoint(t=1, data=[1], data_indexes='x'),
        'slot empty': lambda: Slot(), 'slot start': lambda: Slot(start=P(1)), 'slot end': lambda: Slot(end=P(1)), 'slot number': lambda: Slot(start=1, end=2), 'slot end number': lambda: Slot(start=P(1), end=2),
        'slot unit number': lambda: Slot(start=P(1), unit=1), 'slot same': lambda: Slot(start=P(1), end=P(1)), 'slot before': lambda: Slot(start=P(2), end=P(1)),
        'slot dims': lambda: Slot(start=P(1), end=P(1, 2)), 'slot unit 2d': lambda: Slot(start=P(1, 2), unit=Unit(1)), 'slot zero': lambda: Slot(start=P(1), unit=Unit(0)), 'slot negative': lambda: Slot(start=P(1), unit=Unit(-1)),
        'dataslot no data': lambda: DataSlot(start=P(1), end=P(2)), 'dataslot same': lambda: DataSlot(start=P(1), end=P(1), data=[1]), 'dataslot before': lambda: DataSlot(start=P(1), end=P(0), data=[1]),
        'dataslot indexes': lambda: DataSlot(start=P(1), end=P(2), data=[1], data_indexes=[1]),
        'timeslot empty': lambda: TimeSlot(), 'timeslot start': lambda: TimeSlot(start=T(1)), 'timeslot point': lambda: TimeSlot(start=P(1), end=P(2)), 'timeslot end point': lambda: TimeSlot(start=T(1), end=P(2)),
        'timeslot unit': lambda: TimeSlot(start=T(1), unit=Unit(60)), 'timeslot same': lambda: TimeSlot(start=T(1), end=T(1)), 'timeslot before': lambda: TimeSlot(start=T(61), end=T(1)),
        'timeslot zero before': lambda: TimeSlot(start=T(60), end=T(0)), 'timeslot negative': lambda: TimeSlot(start=T(60), unit=TimeUnit('-60s')),
        'timeslot tz': lambda: TimeSlot(start=T(t=0), end=T(t=60, tz='Europe/Rome')), 'timeslot tz2': lambda: TimeSlot(start=T(t=0, tz='America/New_York'), end=T(t=60, tz='Europe/Rome')),
        'datatimeslot no data': lambda: DataTimeSlot(start=T(0), end=T(60)), 'datatimeslot before': lambda: DataTimeSlot(start=T(0), end=T(-60), data=[1]), 'datatimeslot same': lambda: DataTimeSlot(start=T(0), end=T(0), data=[1]),
        'datatimeslot tz': lambda: DataTimeSlot(start=T(t=0), end=T(t=60, tz='Europe/Rome'), data=[1]), 'datatimeslot indexes': lambda: DataTimeSlot(start=T(0), end=T(60), data=[1], data_indexes=3),
    }
    for name, fn in bad.items():
        got = outcome_of(fn)
        ctx.step()
        if ctx.check(got[0] == 'err', 'bad:' + name, lambda: '{} accepted: {}'.format(name, got)):
            ctx.ok()
        ctx.outcome((name, got[0]))
    good = {
        'multi slot': lambda: Slot(start=P(0, 0), end=P(1, 2)), 'negative': lambda: Slot(start=P(-2), end=P(-1)), 'zero end': lambda: Slot(start=P(-1), end=P(0)), 'zero start': lambda: Slot(start=P(0), end=P(1)),
        'zero time': lambda: TimeSlot(start=T(0), end=T(1)), 'end zero time': lambda: TimeSlot(start=T(-60), end=T(0)), 'unit': lambda: Slot(start=P(0), unit=Unit(0.5)), 'indexes none': lambda: DataPoint(0, data=0, data_indexes=None),
        'none data': lambda: DataTimePoint(t=0, data=None), 'both': lambda: DataTimeSlot(start=T(0), end=T(3600), unit=TimeUnit('1h'), data=[1]),
    }
    for name, fn in good.items():
        got = outcome_of(fn)
        ctx.step()
        if ctx.check(got[0] == 'ok', 'good:' + name, lambda: '{} refused: {}'.format(name, got)):
            ctx.ok()
        ctx.outcome((name, got[0]))


def run_slots(ctx, case):
    tz = case['tz'] or 'UTC'
    kw = dict(tz=case['tz']) if case['tz'] else {}
    starts = [0, -3600, 1572127200, 1572134400, 1585436400, 0.25]
    for a in starts:
        for length in (0.5, 1, 60, 3600, 86400, 90, -60, 0):
            for cls, e in ((TimeSlot, {}), (DataTimeSlot, dict(data={'a': 0}, data_loss=0))):
                got = outcome_of(lambda: cls(start=TimePoint(t=a, **kw), end=TimePoint(t=a + length, **kw), **e))
                ctx.step()
                if length <= 0:
                    ctx.check(got[0] == 'err', 'slots:ill-formed', lambda: '{} {} {}'.format(a, length, got))
                    continue
                if not ctx.check(got[0] == 'ok', 'slots:refused', lambda: '{} {} {}'.format(a, length, got)):
                    continue
                s = got[1]
                ok = ctx.check((s.start.t, s.end.t, s.length, str(s.tz)) == (a, a + length, length, tz), 'slots:bounds', lambda: '{} {}'.format(s, s.length))
                # The unit, added to the start, gives the end, if it has not to do with the calendar
                got = outcome_of(lambda: (s.start + s.unit).t)
                ok = ctx.check(got[0] == 'ok' and abs(got[1] - s.end.t) < 1e-6, 'slots:unit', lambda: '{} unit {}: {}'.format(s, s.unit, got)) and ok
                # The next one is in succession, and only it
                for gap in (0, 0.5, -0.5, 3600, length, -length):
                    nxt = cls(start=TimePoint(t=a + length + gap, **kw), end=TimePoint(t=a + 2 * length + gap, **kw), **e)
                    got = outcome_of(lambda: len(TimeSeries(s, nxt)))
                    ctx.step()
                    ok = ctx.check(got[0] == ('ok' if gap == 0 else 'err'), 'slots:succession', lambda: '{} then {}: {}'.format(s, nxt, got)) and ok
                if ok:
                    ctx.ok()
                ctx.state((cls.__name__, a, length, tz))
                ctx.outcome((cls.__name__, a, length, tz, str(s.unit)))


def run_indexes(ctx, case):
    makers = {'DataPoint': lambda **k: DataPoint(0, data=[1], **k), 'DataTimePoint': lambda **k: DataTimePoint(t=0, data=[1], **k),
              'DataSlot': lambda **k: DataSlot(start=Point(0), end=Point(1), data=[1], **k), 'DataTimeSlot': lambda **k: DataTimeSlot(start=TimePoint(0), end=TimePoint(60), data=[1], **k)}
    for name, make in makers.items():
        for idx in IDX + ['absent']:
            for loss in ('absent', None, 0, 0.5, 1):
                given = dict(idx) if isinstance(idx, dict) else idx
                kw = {}
                if idx != 'absent':
                    kw['data_indexes'] = given
                if loss != 'absent':
                    kw['data_loss'] = loss
                want = dict(idx) if isinstance(idx, dict) else {}
                if loss != 'absent':
                    want['data_loss'] = loss
                got = outcome_of(lambda: (make(**kw), make(**kw)))
                ctx.step()
                desc = lambda: '{} {}: {} must be {}'.format(name, kw, got, want)
                if not ctx.check(got[0] == 'ok', 'indexes:refused', desc):
                    continue
                one, two = got[1]
                ok = ctx.check(one.data_indexes == want and one.data_loss == want.get('data_loss'), 'indexes:value', lambda: '{} {} {}'.format(desc(), one.data_indexes, one.data_loss))
                # Neither shared with each other nor with what was given
                one.data_indexes['new'] = 7
                if isinstance(given, dict):
                    given['given'] = 8
                ok = ctx.check(two.data_indexes == want and (one.data_indexes == dict(want, new=7)), 'indexes:shared', lambda: '{}: {} {}'.format(desc(), one.data_indexes, two.data_indexes)) and ok
                one.data_indexes = {'data_loss': 0.125}
                ok = ctx.check(one.data_loss == 0.125 and two.data_loss == want.get('data_loss'), 'indexes:set', desc) and ok
                one.data_indexes.pop('data_loss')
                ok = ctx.check(one.data_loss is None, 'indexes:unset', desc) and ok
                if ok:
                    ctx.ok()
                ctx.state((name, repr(want)))
                ctx.outcome((name, repr(kw), repr(want)))
        for d in DATA:
            labels = sorted(d) if isinstance(d, dict) else [str(k) for k in range(len(d))] if isinstance(d, list) else None
            if labels is None:
                continue
            mk = {'DataPoint': lambda: DataPoint(0, data=d), 'DataTimePoint': lambda: DataTimePoint(t=0, data=d), 'DataSlot': lambda: DataSlot(start=Point(0), end=Point(1), data=d),
                  'DataTimeSlot': lambda: DataTimeSlot(start=TimePoint(0), end=TimePoint(60), data=d)}[name]
            got = outcome_of(lambda: mk().data_labels())
            ctx.step()
            if ctx.check(got == ('ok', labels), 'labels', lambda: '{} {}: {}'.format(name, d, got)):
                ctx.ok()


def run(ctx, case):
    globals()['run_' + case['part']](ctx, case)
