"""Z01: changing timezone never moves an item in time."""
import copy
import itertools
from datetime import timezone as fixed
from mc.lib import *
from timeseria.operations import merge

PROPERTY = 'Z01'
LEVEL = 'model_checking'
RULE = ('(histories) every sequence of time zone changes (in place or on a copy, given as a string or as an object), copies, views and edits up to a depth, on series of points and slots with instants before, in and after DST changes, '
        'against a machine holding instants, contents and the current time zone; (programs) every operation on the series before and after any change of time zone, the instants and values of the results have to be the same, and on the new time zone; '
        '(items) every kind of item and time zone, with shared points. A non-trivial outcome is a distinct (kind, operation, time zones, result)')
ASSUMPTIONS = ['resampling and aggregations by units whose boundaries do not depend on the time zone (15 minutes)',
               'items are shared with the results of slices and selections, which are not compared after changing the time zone of the series in place',
               'zoneinfo and pytz agree on the time zone rules of 2018-2021']
BOUNDS = {'quick': '7 kinds of series, 4 time zones, histories of 3 operations, 28 operations for each pair of time zones',
          'thorough': '9 kinds of series, 7 time zones, histories of 4 operations, 28 operations for each pair of time zones'}
CHUNK = 1
TIMEOUT = 800

DST = epoch(2019, 10, 27, 1)          # UTC instant of the end of the DST in Europe
SPRING = epoch(2019, 3, 31, 1)

TZS = {'quick': ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kathmandu'],
       'thorough': ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Asia/Tokyo', 'America/St_Johns']}
KINDS = {'quick': ['points', 'hidden', 'mixed', 'hslots', 'dslots', 'mslots', 'list', 'one', 'empty'],
         'thorough': ['points', 'hidden', 'mixed', 'hslots', 'dslots', 'mslots', 'list', 'one', 'empty', 'bare', 'spring']}


def build(kind, tz):
    losses = [None, 0.5, 0, 1]
    if kind == 'points':      # two items in the hour repeated
        return points([DST - 3600, DST - 1800, DST, DST + 1800], [(1, 5), (2, -4), (4, 3), (3, 7)], labels=('a', 'b'), tz=tz, losses=losses)
    if kind == 'spring':
        return points([SPRING - 900, SPRING, SPRING + 900, SPRING + 2700], [1, 2, 4, 3], tz=tz, losses=losses)
    if kind == 'hidden':      # the time zone is the one of the series only
        s = points([DST - 900, DST, DST + 900, DST + 1800], [1, 2, 4, 3])
        s.change_tz(tz)
        return s
    if kind == 'mixed':
        s = TimeSeries()
        for n, z in enumerate([tz, 'Asia/Tokyo', tz, 'UTC']):
            s.append(DataTimePoint(t=DST + 900 * n, data={'a': [1, 2, 4, 3][n]}, tz=z))
        return s
    if kind == 'hslots':
        return slots(DST - 3600, '1h', [1, 2, 4, 3], tz=tz, losses=losses)
    if kind == 'dslots':
        return slots(epoch(2019, 10, 25, tz=tz), '1D', [(1, 5), (2, -4), (4, 3), (3, 7)], labels=('a', 'b'), tz=tz, losses=losses)
    if kind == 'mslots':
        return slots(epoch(2019, 9, 1, tz=tz), '1M', [1, 2, 4, 3], tz=tz)
    if kind == 'list':
        return points([DST - 900, DST, DST + 900, DST + 1800], [(1, 5), (2, -4), (4, 3), (3, 7)], labels=('0', '1'), tz=tz, kind='list')
    if kind == 'one':
        return points([DST - 0.25], [1], tz=tz, losses=[0.5])
    if kind == 'empty':
        return TimeSeries(tz=tz)
    if kind == 'bare':
        return TimeSeries(*[TimePoint(t=DST + 600 * n, tz=tz) for n in range(3)])


def tz_name(z):
    return str(z)


def instants(item):
    return (item.start.t, item.end.t) if isinstance(item, Slot) else (item.t,)


def wall(t, name):
    d = datetime.fromtimestamp(t, UTC).astimezone(ZoneInfo(name))
    return d.replace(tzinfo=None), d.utcoffset()


def content(item):
    return (type(item).__name__, instants(item), str(item.unit) if isinstance(item, Slot) else None,
            repr(item.data) if hasattr(item, 'data') else None, repr(sorted(item.data_indexes.items())) if hasattr(item, 'data') else None)


def check_item(ctx, item, name, key):
    good = str(item.tz) == name
    pts = [item] if isinstance(item, Point) else [item.start, item.end]
    for p in pts:
        good = good and str(p.tz) == name and (p.dt.replace(tzinfo=None), p.dt.utcoffset()) == wall(p.t, name) and p.dt.timestamp() == p.t
    if isinstance(item, Slot):
        good = good and item.dt == item.start.dt and item.t == item.start.t
    ctx.check(good, key, 'item {} not on {}'.format(item, name))


def check_series(ctx, s, name, expected, key, mixed=None):
    """name: the time zone of the series; mixed: those of the items if not all the same."""
    ctx.check(str(s.tz) == name, key + ':tz', 'the series is on {} and not {}'.format(s.tz, name))
    got = [content(i) for i in s]
    ctx.check(got == expected, key + ':contents', 'contents {} and not {}'.format(got, expected))
    for n, i in enumerate(s):
        check_item(ctx, i, mixed[n] if mixed else name, key + ':items')


# ---------------------------------------------------------------- histories

def as_object(name):
    return pytz.timezone(name)


def moves(tier):
    for z in TZS['quick']:
        yield ('change', z)
        yield ('change_obj', z)
        yield ('as', z)
    yield ('duplicate',)
    yield ('view_as',)
    yield ('append',)
    yield ('insert',)
    yield ('pop',)
    yield ('reject',)


class Machine:
    def __init__(self, kind, tz):
        self.kind = kind
        self.s = build(kind, tz)
        self.contents = [content(i) for i in self.s]
        self.tz = tz
        self.mixed = [tz, 'Asia/Tokyo', tz, 'UTC'] if kind == 'mixed' else None
        if kind == 'mixed':
            self.tz = 'UTC'
        self.others = []   # (series, tz, contents, mixed) which must not change any more


def apply(ctx, m, move):
    s = m.s
    op = move[0]
    key = m.kind + ':' + op
    if op in ('change', 'change_obj'):
        s.change_tz(move[1] if op == 'change' else as_object(move[1]))
        m.tz, m.mixed = move[1], None
    elif op == 'as':
        new = s.as_tz(move[1])
        ctx.check(type(new) is type(s), key + ':type', 'copy of type {}'.format(type(new)))
        m.others.append((s, m.tz, list(m.contents), m.mixed))
        m.s, m.tz, m.mixed = new, move[1], None
    elif op == 'duplicate':
        new = s.duplicate()
        m.others.append((s, m.tz, list(m.contents), m.mixed))
        m.s = new
    elif op == 'view_as':
        # A copy of a view on another time zone leaves the series as it was
        v = s.view(from_i=0, to_i=len(s))
        new = v.as_tz('Asia/Tokyo')
        check_series(ctx, new, 'Asia/Tokyo', m.contents, key)
    elif op in ('append', 'insert', 'reject'):
        if not len(s):
            return
        last, first = s[len(s) - 1], s[0]
        if isinstance(last, Slot):
            if m.kind != 'hslots':
                return  # calendar slots end on the boundaries of the original time zone
            z = m.tz if op != 'reject' else ('Asia/Tokyo' if m.tz != 'Asia/Tokyo' else 'UTC')
            t = last.end.t if op != 'insert' else first.start.t - 3600
            item = DataTimeSlot(start=TimePoint(t=t, tz=z), unit=last.unit, data={'a': 9})
        else:
            if op == 'reject':
                return
            t = last.t + 900 if op == 'append' else first.t - 900
            data = None if not hasattr(last, 'data') else copy.deepcopy(last.data)
            item = DataTimePoint(t=t, data=data, tz=m.tz) if hasattr(last, 'data') else TimePoint(t=t, tz=m.tz)
        c = content(item)
        try:
            if op == 'insert':
                s.insert(0, item)
            else:
                s.append(item)
        except Exception as e:
            ctx.check(op == 'reject', key + ':refused', 'refused an item on the time zone of the series: {}'.format(e))
        else:
            ctx.check(op != 'reject', key + ':accepted', 'accepted a slot on another time zone')
            m.contents = [c] + m.contents if op == 'insert' else m.contents + [c]
            if m.mixed:
                m.mixed = [m.tz] + m.mixed if op == 'insert' else m.mixed + [m.tz]
    elif op == 'pop':
        if len(s) < 2:
            return
        s.pop()
        m.contents = m.contents[:-1]
        if m.mixed:
            m.mixed = m.mixed[:-1]
            if len(set(m.mixed)) == 1:
                m.tz = m.mixed[0]


def histories(ctx, case):
    depth = 3 if case['tier'] == 'quick' else 4
    alphabet = list(moves(case['tier']))
    first = tuple(case['first'])
    if first not in alphabet:
        return
    seen = {}
    for rest in itertools.product(alphabet, repeat=depth - 1):
        m = Machine(case['kind'], case['tz'])
        # Execute all of it, checking at the last step only (the previous ones are checked by the shorter prefixes)
        for n, move in enumerate((first,) + rest):
            prefix = (first,) + rest[:n]
            apply(ctx, m, move)
            if prefix not in seen:
                seen[prefix] = True
                ctx.state((case['kind'], case['tz'], m.tz, len(m.contents), len(m.others)))
                ctx.step()
                key = m.kind + ':' + move[0]
                check_series(ctx, m.s, m.tz, m.contents, key, m.mixed)
                for s, tz, contents, mixed in m.others:
                    check_series(ctx, s, tz, contents, key + ':original', mixed)
                ctx.ok()
                ctx.outcome((m.kind, move, case['tz'], m.tz))


# ---------------------------------------------------------------- programs

OPS = {
    'min': lambda s: s.min(), 'max': lambda s: s.max(), 'avg': lambda s: s.avg(), 'sum': lambda s: s.sum(),
    'derivative': lambda s: s.derivative(), 'derivative(diffs)': lambda s: s.derivative(diffs=True), 'integral': lambda s: s.integral(c=3),
    'integral(offset)': lambda s: s.integral(offset=3),
    'diff': lambda s: s.diff(), 'csum': lambda s: s.csum(), 'csum(offset)': lambda s: s.csum(offset=-2), 'normalize': lambda s: s.normalize(),
    'rescale': lambda s: s.rescale(2.5), 'offset': lambda s: s.offset(-3), 'mavg': lambda s: s.mavg(2), 'filter': lambda s: s.filter(s.data_labels()[0]),
    'slice(i)': lambda s: s.slice(1, 3), 'slice(t)': lambda s: s.slice(from_t=instants(s[1])[0]), 'slice(to_t)': lambda s: s.slice(to_t=instants(s[len(s) - 1])[0]),
    'slice(dt)': lambda s: s.slice(from_dt=datetime.fromtimestamp(instants(s[1])[0], pytz.timezone('Asia/Tokyo'))),
    'get(t)': lambda s: s.get(at_t=instants(s[1])[0]), 'get(dt)': lambda s: s.get(at_dt=datetime.fromtimestamp(instants(s[1])[0], pytz.UTC)),
    'brackets(dt)': lambda s: s[(s[1].start if isinstance(s[1], Slot) else s[1]).dt], 'head': lambda s: s.head(2), 'tail': lambda s: s.tail(2),
    'merge': lambda s: merge(s, s.duplicate()),
    'resolution': lambda s: (s.resolution if not isinstance(s.resolution, TimeUnit) else str(s.resolution)),
    'resample': lambda s: s.resample(900), 'aggregate': lambda s: s.aggregate('15m', operations=['avg', 'min', 'max']),
    'dict': lambda s: TimeSeries.from_dict(s.to_dict()) if False else [i.t for i in s],
}


def picture(v):
    if isinstance(v, Series):
        return ('series', [content(i) for i in v])
    if isinstance(v, list):
        return ('list', [picture(i) for i in v])
    if isinstance(v, (Point, Slot)):
        return ('item', content(v))
    return ('value', repr(v))


def run_op(op, s):
    r = outcome_of(OPS[op], s)
    return (r[0], picture(r[1])) if r[0] == 'ok' else (r[0], r[1]), r[1]


def like(a, b):
    """Same up to rounding of the values."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(like(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return close(a, b)
    return a == b


def programs(ctx, case):
    kind, a, b = case['kind'], case['tz'], case['to']
    for op in OPS:
        for how in ('change', 'as', 'view'):
            before, _ = run_op(op, build(kind, a))
            s = build(kind, a)
            if how == 'change':
                s.change_tz(b)
            elif how == 'as':
                s = s.as_tz(b)
            else:
                s = s.as_tz(b).view(from_i=0, to_i=len(s))
            after, value = run_op(op, s)
            ctx.state((kind, a, b, op, how))
            ctx.step()
            ctx.check(like(before, after), '{}:{}'.format(op, how), '{} on a series {} from {} to {}: {} and not {}'.format(op, kind, a, b, after, before))
            if after[0] == 'ok' and isinstance(value, TimeSeries) and len(value):
                ctx.check(str(value.tz) == b, '{}:{}:result-tz'.format(op, how), '{} on a series {} from {} to {}: result on {}'.format(op, kind, a, b, value.tz))
                for i in value:
                    check_item(ctx, i, b, '{}:{}:result-items'.format(op, how))
            ctx.ok()
            ctx.outcome((kind, op, how, b, repr(after)))


# ---------------------------------------------------------------- items

def items(ctx, case):
    a, b = case['tz'], case['to']
    for t in [DST - 3600.5, DST - 1, DST, DST + 1800, SPRING - 1, SPRING, 0, -0.25]:
        for name, make in [('TimePoint', lambda: TimePoint(t=t, tz=a)), ('DataTimePoint', lambda: DataTimePoint(t=t, tz=a, data=[1], data_loss=0.5)),
                           ('TimeSlot', lambda: TimeSlot(start=TimePoint(t=t, tz=a), end=TimePoint(t=t + 3600, tz=a))),
                           ('DataTimeSlot', lambda: DataTimeSlot(start=TimePoint(t=t, tz=a), unit=TimeUnit('1h'), data={'a': 1}, data_loss=0.5)),
                           ('dt', lambda: DataTimePoint(dt=datetime.fromtimestamp(t, pytz.timezone(a)), data=[1]))]:
            for to in (b, as_object(b)):
                i = make()
                c = content(i)
                hash_before = (i == make())
                i.change_tz(to)
                ctx.state((name, t, a, b))
                ctx.step()
                ctx.check(content(i) == c, name + ':moved', '{} at {} from {} to {}: {} and not {}'.format(name, t, a, b, content(i), c))
                check_item(ctx, i, b, name + ':tz')
                ctx.check((i == make()) == hash_before or a != b, name + ':equality', 'not equal to itself after a change to the same time zone')
                ctx.ok()
        # A point shared by two slots, or by a slot and the user, stays where it was
        p, q = TimePoint(t=t, tz=a), TimePoint(t=t + 3600, tz=a)
        x = TimeSlot(start=p, end=q)
        y = TimeSlot(start=q, unit=TimeUnit('1h'))
        x.change_tz(b)
        ctx.step()
        check_item(ctx, x, b, 'shared:slot')
        check_item(ctx, y, a, 'shared:other')
        check_item(ctx, p, a, 'shared:point')
        check_item(ctx, q, a, 'shared:point')
        ctx.outcome((a, b, t, str(x.start.dt)))


def cases(tier):
    for kind in KINDS[tier]:
        for tz in TZS[tier][:3] if tier == 'quick' else TZS[tier]:
            for first in moves(tier):
                if tier == 'quick' or tz in TZS['quick'][:2]:
                    yield dict(part='histories', kind=kind, tz=tz, first=list(first), tier=tier)
            for to in TZS[tier]:
                yield dict(part='programs', kind=kind, tz=tz, to=to)
    for a in TZS[tier]:
        for b in TZS[tier]:
            yield dict(part='items', tz=a, to=b)


def run(ctx, case):
    globals()[case['part']](ctx, case)
