"""P03: dictionary, JSON and data frame conversions are lossless."""
import itertools
import json
import warnings
import numpy as np
import pandas as pd
from mc.lib import *
from mc.checks.p01 import build, POINTS, SLOTS, TZS

warnings.simplefilter('ignore')

PROPERTY = 'P03'
LEVEL = 'model_checking'
RULE = ('every series of the product of kinds (points at regular, uneven, sub-second and negative instants; slots of each unit, also across DST changes) x time zones x label sets x values x patterns of data losses x lengths, '
        'converted to a dictionary, JSON and a data frame, each compared with what it has to contain and then converted back. A non-trivial outcome is a distinct converted series')
ASSUMPTIONS = ['instants are multiples of a microsecond', 'JSON and data frames have no slot units: they are given, or inferred from at least three items', 'the data losses are the only index in the data frames, and no index is in dictionaries and JSON',
               'data frames at calendar frequencies are always slots, as documented when refusing to make points']
BOUNDS = {'quick': 'up to 4 items, 20 kinds of series, 5 time zones, 4 label sets, every pattern of data losses over 3 values up to 3 items', 'thorough': 'up to 5 items, every pattern of data losses over 4 values'}
CHUNK = 2
LABELS = [('a',), ('b', 'a'), ('0', '1'), ('temperature (C)', 'è', '1')]
VALUES = [1.5, -2.25, 0.1, 1e-9, 1e12, 3.0, 1 / 3, -0.5]
INTS = [0, 1, -7, 2, 10 ** 9, 5, 3, 8]


def cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for kind in list(POINTS) + [str(k) for k in range(len(SLOTS))]:
            if kind in POINTS and n > len(POINTS[kind]):
                continue
            for tz in TZS:
                yield dict(kind=kind, n=n, tz=tz, tier=tier)
    yield dict(kind='given')
    yield dict(kind='frames')


def run(ctx, case):
    if case['kind'] == 'given':
        return given(ctx)
    if case['kind'] == 'frames':
        return frames(ctx)
    kind, n, tz = case['kind'], case['n'], case['tz']
    for k, (labels, data) in enumerate([(l, 'dict') for l in LABELS] + [(('0',), 'list'), (('0', '1'), 'list')]):
        for v in (VALUES, INTS):
            values = [tuple(v[(i * 2 + j) % 8] for j in range(len(labels))) for i in range(n)]
            domain = (None, 0.5, 0) if case['tier'] == 'quick' else (None, 0.5, 0, 1)
            for losses in itertools.product(domain, repeat=n) if k == 0 and n < 4 else [(None,) * n, (0.25,) * n, (None,) * (n - 1) + (0,)]:
                s = build(kind, n, labels, values=values, losses=list(losses), tz=tz, data=data)
                if ctx.state(snap(s)):
                    convert(ctx, s, kind, tz, labels, data)
    ctx.sample(case)


def at(item):
    return item.start if isinstance(item, Slot) else item


def same(s, got, labels, data, losses, slots, tz=None, tolerance=2e-6):
    """Why the series converted back is not the original one."""
    if len(got) != len(s):
        return '{} items instead of {}'.format(len(got), len(s))
    for a, b in zip(s, got):
        if isinstance(b, Slot) is not slots:
            return 'item {}'.format(b)
        if abs(at(a).t - at(b).t) > tolerance:
            return 'instant {} instead of {}'.format(at(b).t, at(a).t)
        if slots and isinstance(a, Slot) and (abs(a.end.t - b.end.t) > tolerance):
            return 'end {} instead of {}'.format(b.end.t, a.end.t)
        if slots and isinstance(a, Slot) and str(a.unit) != str(b.unit):
            return 'unit {} instead of {}'.format(b.unit, a.unit)
        v = lambda i: {l: (i.data[l] if isinstance(i.data, dict) else i.data[int(l)]) for l in labels}
        if data is not None and type(b.data) is not data:
            return 'data {}'.format(b.data)
        if len(b.data) != len(labels) or v(a) != v(b):
            return 'data {} instead of {}'.format(b.data, a.data)
        if losses and a.data_loss != b.data_loss:
            return 'data loss {} instead of {}'.format(b.data_loss, a.data_loss)
        if tz and str(b.tz) != tz:
            return 'time zone {} instead of {}'.format(b.tz, tz)
    return None


def convert(ctx, s, kind, tz, labels, data):
    pic = snap(s)
    slot = kind not in POINTS
    unit = SLOTS[int(kind)][0] if slot else None
    type_ = dict if data == 'dict' else list
    n = len(s)

    # Dictionary
    d = s.to_dict()
    ctx.step(2)
    good = list(k.timestamp() for k in d) == [round(at(i).t, 6) for i in s] and list(d.values()) == [i.data for i in s] and all(str(k.utcoffset()) == str(datetime.fromtimestamp(at(i).t, ZoneInfo(tz)).utcoffset()) for k, i in zip(d, s))
    ctx.check(good, 'dict', lambda: '{} as a dictionary is {}'.format(pic, d))
    units = [unit, TimeUnit(unit)] if slot else [None]
    for u in units:
        for made in (d, {k.timestamp(): v for k, v in d.items()}) if not slot or tz == 'UTC' or unit[-1] in 'hms' else (d,):
            back = outcome_of(TimeSeries.from_dict, made, slot_unit=u)
            why = same(s, back[1], labels, type_, False, slot, tz if made is d else None) if back[0] == 'ok' else back
            ctx.check(why is None, 'dict', lambda: '{} to a dictionary and back ({}): {}'.format(pic, made, why))
            ctx.ok()

    # JSON
    j = s.to_json()
    ctx.step(2)
    parsed = json.loads(j)
    good = [round(datetime.fromisoformat(k.replace('Z', '+00:00')).timestamp(), 6) for k in parsed] == [round(at(i).t, 6) for i in s] and list(parsed.values()) == [i.data for i in s]
    ctx.check(good, 'json', lambda: '{} as JSON is {}'.format(pic, j))
    for u in units:
        back = outcome_of(TimeSeries.from_json, j, slot_unit=u)
        why = same(s, back[1], labels, type_, False, slot) if back[0] == 'ok' else back
        ctx.check(why is None, 'json' if not slot or tz == 'UTC' or unit[-1] in 'hms' else 'json:calendar-slots-on-other-time-zones', lambda: '{} to JSON and back ({}): {}'.format(pic, j, why))
        ctx.ok()

    # Data frame
    res = outcome_of(s.to_df)
    ctx.step(2)
    if not ctx.check(res[0] == 'ok', 'df', lambda: '{} to a data frame: {}'.format(pic, res)):
        return
    df = res[1]
    lossy = any(i.data_loss is not None for i in s)
    good = (len(df) == n and sorted(df.columns) == sorted(list(labels) + (['data_loss'] if lossy else [])) and [round(x.timestamp(), 6) for x in df.index] == [round(at(i).t, 6) for i in s]
            and all(list(df[l]) == [i.data[l] if isinstance(i.data, dict) else i.data[int(l)] for i in s] for l in labels)
            and (not lossy or [None if x is None or x != x else x for x in df['data_loss']] == [i.data_loss for i in s]))
    ctx.check(good, 'df', lambda: '{} as a data frame is\n{}'.format(pic, df))
    ctx.check(n < 2 or len({str(x.tzinfo) for x in df.index}) == 1 or tz != 'UTC', 'df', 'time zones of the data frame')
    ways = [dict(item_type=DataTimeSlot)] if slot else [dict(item_type=DataTimePoint), {}]
    for way in ways:
        back = outcome_of(TimeSeries.from_df, df, **way)
        calendar = not slot and df.index.inferred_freq == 'D'
        ctx.step()
        if slot and n < 3:
            ctx.check(back[0] == 'err', 'df', lambda: '{} from {}'.format(back, df))
        elif slot and unit in ('3M', '1W', '0.5s') and back[0] == 'err':
            pass  # not supported, but told so
        elif calendar and way:
            ctx.check(back[0] == 'err', 'df', lambda: '{} from {}'.format(back, df))
        else:
            why = same(s, back[1], labels, dict, True, slot or calendar, tz) if back[0] == 'ok' else back
            ctx.check(why is None, 'df', lambda: '{} to a data frame and back with {}: {}'.format(pic, way, why))
            ctx.outcome(snap(back[1]) if back[0] == 'ok' else 0)
        ctx.ok()
    ctx.check(snap(s) == pic, 'altered', lambda: 'converting altered {} in {}'.format(pic, snap(s)))
    # What has been made does not change afterwards with the series
    before = (df.copy(), j)
    s[0].data_indexes['data_loss'] = 0.75
    ctx.check(df.equals(before[0]), 'altered', 'the data frame changed')


def given(ctx):
    """Dictionaries and JSON with each kind of key and of value."""
    for base in (0, 1571961600, 1571961600.5, -3600):
        for n in (1, 2, 3):
            ts = [base + 3600 * k for k in range(n)]
            keys = {'number': lambda t: t, 'float': float, 'string': str, 'iso': lambda t: datetime.fromtimestamp(t, UTC).isoformat().replace('+00:00', 'Z'), 'offset': lambda t: datetime.fromtimestamp(t, ZoneInfo('Asia/Kolkata')).isoformat(),
                    'datetime': lambda t: datetime.fromtimestamp(t, UTC), 'zoned': lambda t: datetime.fromtimestamp(t, pytz.timezone('Europe/Rome'))}
            for k, key in keys.items():
                for vals in ([5.5, -1, 0], [{'a': 1, 'b': 2}, {'a': 3, 'b': 4}, {'a': 0, 'b': -1}], [[1, 2], [3, 4], [5, 6]]):
                    for unit in (None, '1h', TimeUnit('1h')):
                        d = {key(t): v for t, v in zip(ts, vals)}
                        made = [outcome_of(TimeSeries.from_dict, d, slot_unit=unit)]
                        if all(isinstance(x, str) for x in d):
                            made.append(outcome_of(TimeSeries.from_json, json.dumps(d), slot_unit=unit))
                        for got in made:
                            ctx.step()
                            ctx.state((base, n, k, repr(vals), str(unit)))
                            good = got[0] == 'ok' and len(got[1]) == n and all(at(i).t == t and isinstance(i, Slot) == bool(unit) and i.data == (v if isinstance(v, (dict, list)) else {'value': v}) for i, t, v in zip(got[1], ts, vals))
                            good = good and (not unit or all(i.end.t == t + 3600 for i, t in zip(got[1], ts)))
                            ctx.check(good, 'given:' + k, lambda: 'from {} with unit {}: {}'.format(d, unit, got))
                            ctx.outcome(repr(d))
                            ctx.ok()
            # Out of order: refused
            if n > 1:
                for key in keys.values():
                    got = outcome_of(TimeSeries.from_dict, {key(t): 1 for t in reversed(ts)})
                    ctx.step()
                    ctx.check(got[0] == 'err', 'given:order', lambda: 'from out of order keys: {}'.format(got))
                    ctx.ok()
    for key in (None, (1,), b'1', 'yesterday'):
        got = outcome_of(TimeSeries.from_dict, {key: 1})
        ctx.check(got[0] == 'err', 'given:key', lambda: 'from key {!r}: {}'.format(key, got))
        ctx.ok()


FREQS = [('H', '1h', DataTimePoint), ('15T', '15m', DataTimePoint), ('T', '1m', DataTimePoint), ('min', '1m', DataTimePoint), ('S', '1s', DataTimePoint), ('30S', '30s', DataTimePoint), ('6H', '6h', DataTimePoint), ('D', '1D', DataTimeSlot),
         ('MS', '1M', DataTimeSlot), ('AS', '1Y', DataTimeSlot), ('YS', '1Y', DataTimeSlot), ('2D', '2D', DataTimeSlot), ('2H', '2h', DataTimePoint), ('QS', None, None), ('W-MON', None, None), ('L', '0.001s', DataTimePoint), ('B', None, None), ('AS-APR', '1Y', DataTimeSlot)]


def frames(ctx):
    """Data frames made by others."""
    for freq, unit, type_ in FREQS:
        for tz in (None, 'UTC', 'Europe/Rome', 'America/New_York'):
            for n in (3, 4, 8):
                index = pd.date_range('2020-03-02' if freq[0] != 'A' else '2015-03-02', periods=n, freq=freq, tz=tz)
                df = pd.DataFrame({'b': [k * 1.5 for k in range(n)], 'a': list(range(n))}, index=index)
                pic = df.copy()
                starts = [x.timestamp() for x in index]
                for way in ('auto', DataTimePoint, DataTimeSlot):
                    got = outcome_of(TimeSeries.from_df, df, way)
                    ctx.step()
                    ctx.state((freq, tz, n, str(way)))
                    where = lambda: 'from a data frame at {} on {} as {}: '.format(freq, tz, way)
                    ctx.check(df.equals(pic), 'frames:altered', 'the data frame changed')
                    if got[0] == 'err':
                        # Only for what cannot be
                        fine = type_ is None or (way is DataTimePoint and type_ is DataTimeSlot) or freq == 'L'
                        ctx.check(fine, 'frames', lambda: where() + str(got))
                    else:
                        res = got[1]
                        exp = (type_ or type(res[0])) if way == 'auto' else way
                        good = [at(i).t for i in res] == starts and [i.data for i in res] == [{'a': k, 'b': k * 1.5} for k in range(n)] and all(type(i) is exp for i in res) and all(str(i.tz) == (tz or 'UTC') for i in res)
                        if exp is DataTimeSlot:
                            good = good and all(close(a.end.t, b) for a, b in zip(res, starts[1:])) and (unit is None or all(i.unit == TimeUnit(unit) for i in res))
                        ctx.check(good, 'frames', lambda: where() + 'got {}'.format(snap(res)))
                        ctx.outcome((freq, tz, n, str(way)))
                    ctx.ok()
    for index in ([1, 2, 3], ['a', 'b', 'c']):
        got = outcome_of(TimeSeries.from_df, pd.DataFrame({'a': [1, 2, 3]}, index=index))
        ctx.check(got[0] == 'err', 'frames:index', lambda: 'from index {}: {}'.format(index, got))
        ctx.ok()
