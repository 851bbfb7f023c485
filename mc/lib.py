"""Helpers shared by the checks: builders, reference arithmetic, observation."""

import math
import pickle
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import pytz
from timeseria.datastructures import (Point, TimePoint, DataPoint, DataTimePoint, Slot, TimeSlot, DataSlot,
                                      DataTimeSlot, Series, TimeSeries, TimeSeriesView)
from timeseria.units import Unit, TimeUnit

UTC = timezone.utc


def close(a, b, rel=1e-9, abs_=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(close(a[k], b[k], rel, abs_) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def outcome_of(fn, *a, **k):
    """Run fn; ('ok', value) or ('err', exception class name)."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('err', e.__class__.__name__, str(e)[:200])


def snap_item(item):
    """A plain, comparable picture of an item: type, position, timezone, data, indexes."""
    d = [item.__class__.__name__]
    if isinstance(item, (Slot,)):
        d.append(tuple(item.start.coordinates))
        d.append(tuple(item.end.coordinates))
        d.append(str(item.unit))
    elif isinstance(item, Point):
        d.append(tuple(item.coordinates))
    else:
        return (type(item).__name__, item)
    if hasattr(item, 'tz'):
        d.append(str(item.tz))
    if hasattr(item, 'data'):
        data = item.data
        d.append(repr(sorted(data.items())) if isinstance(data, dict) else repr(data))
        d.append(repr(sorted(item.data_indexes.items(), key=lambda kv: kv[0])))
    return tuple(d)


def snap(series):
    """A plain picture of a whole series."""
    head = [series.__class__.__name__]
    if isinstance(series, TimeSeries):
        head += [str(series.resolution), str(series.tz)]
    return (tuple(head), tuple(snap_item(i) for i in series))


def pickled(obj):
    try:
        return pickle.dumps(obj)
    except Exception:
        return repr(obj)


def hidden(series):
    """Everything a series carries besides its items, whatever the implementation calls it."""
    d = dict(vars(series))
    return pickled(sorted((k, pickled(v)) for k, v in d.items()))


def points(ts, values, labels=('a',), indexes=None, tz=None, losses=None, kind='dict'):
    """Build a point series; values is a list of numbers or of per-label tuples."""
    s = TimeSeries()
    for n, t in enumerate(ts):
        v = values[n]
        if not isinstance(v, (tuple, list)):
            v = (v,)
        data = dict(zip(labels, v)) if kind == 'dict' else list(v)
        kw = {}
        if losses is not None and losses[n] is not None:
            kw['data_loss'] = losses[n]
        if indexes is not None:
            kw['data_indexes'] = dict(indexes[n])
        if tz:
            kw['tz'] = tz
        s.append(DataTimePoint(t=t, data=data, **kw))
    return s


def slots(start, unit, values, labels=('a',), tz=None, indexes=None, losses=None, kind='dict'):
    """Build a slot series starting at `start` (epoch seconds)."""
    s = TimeSeries()
    unit = unit if isinstance(unit, TimeUnit) else TimeUnit(unit)
    p = TimePoint(t=start, tz=tz) if tz else TimePoint(t=start)
    for n, v in enumerate(values):
        if not isinstance(v, (tuple, list)):
            v = (v,)
        data = dict(zip(labels, v)) if kind == 'dict' else list(v)
        kw = {}
        if losses is not None and losses[n] is not None:
            kw['data_loss'] = losses[n]
        if indexes is not None:
            kw['data_indexes'] = dict(indexes[n])
        s.append(DataTimeSlot(start=p, unit=unit, data=data, **kw))
        p = s.contents()[-1].end
    return s


def epoch(y, mo, d, h=0, mi=0, s=0, tz='UTC', fold=0):
    return datetime(y, mo, d, h, mi, s, tzinfo=ZoneInfo(tz), fold=fold).timestamp()


class NoSuchTime(Exception):
    """Wall clock time that does not exist or is ambiguous."""


def wall(t, tz):
    return datetime.fromtimestamp(t, ZoneInfo(tz)).replace(tzinfo=None)


def unwall(naive, tz):
    z = ZoneInfo(tz)
    a = naive.replace(tzinfo=z, fold=0)
    b = naive.replace(tzinfo=z, fold=1)
    if a.utcoffset() != b.utcoffset():
        # gap or overlap
        if datetime.fromtimestamp(a.timestamp(), z).replace(tzinfo=None) != naive:
            raise NoSuchTime('gap')
        raise NoSuchTime('overlap')
    return a.timestamp()


PHYSICAL = {'h': 3600, 'm': 60, 's': 1}


def parse_unit(unit):
    return float(unit[:-1]), unit[-1]


def ref_shift(t, unit, tz, times=1):
    """Independent reference: the instant `times` units after t on the wall clock of tz (or physically)."""
    n, k = parse_unit(unit)
    if k in PHYSICAL:
        return t + n * PHYSICAL[k] * times
    n = int(n) * times
    w = wall(t, tz)
    if k == 'D':
        w = w + timedelta(days=n)
    elif k == 'W':
        w = w + timedelta(days=7 * n)
    else:
        m = w.month - 1 + (n if k == 'M' else 12 * n)
        try:
            w = w.replace(year=w.year + m // 12, month=m % 12 + 1)
        except ValueError:
            raise NoSuchTime('no such day')
    return unwall(w, tz)
