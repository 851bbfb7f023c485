"""Everything computed by a process in its own environment, for Y01: python -m mc.envjob PART-AS-JSON FOLDER OUT."""
import json
import os
import pickle
import sys
import warnings

warnings.simplefilter('ignore')


def main():
    part, folder, out = json.loads(sys.argv[1]), sys.argv[2], sys.argv[3]
    from mc import core
    core._fixed_scratch = folder
    got = {}
    globals()[part['what']](got, folder, **{k: v for k, v in part.items() if k != 'what'})
    with open(out, 'wb') as f:
        pickle.dump(got, f)


def picture_of(value):
    """A picture of a result, with data in the order of their labels."""
    from mc.lib import snap_item, Point, Slot, Series
    from mc.checks.o01 import picture
    if isinstance(value, dict):
        return ('dict', sorted((str(k), picture_of(v)) for k, v in value.items()))
    if isinstance(value, (list, tuple)) and not isinstance(value, Series):
        return (type(value).__name__, [picture_of(v) for v in value])
    if isinstance(value, Series):
        try:
            return picture(value)
        except TypeError:
            return [snap_item(i) for i in value]
    if isinstance(value, (set, frozenset)):
        return ('set', sorted(repr(v) for v in value))
    if isinstance(value, (Point, Slot)):
        return ('item', snap_item(value))
    return ('value', type(value).__name__, str(value) if isinstance(value, str) else repr(value))


def ask(got, key, fn, *a, **k):
    from mc.lib import outcome_of
    r = outcome_of(fn, *a, **k)
    assert key not in got, key
    # Not the message, which is free
    got[key] = repr(('ok', picture_of(r[1]))) if r[0] == 'ok' else repr(r[:2])


def names(all_):
    return [n for n in ('base', 'first', 'losses', 'index', 'label', 'labels', 'zone', 'clock', 'far', 'gap') if n in all_]


def functions(got, folder, family):
    from mc.checks import h01
    all_ = h01.specs(family)
    for f, make in h01.FUNCTIONS.items():
        fn = make()
        if f == 'json':
            fn = lambda s: json.loads(s.to_json())
        for n in names(all_):
            ask(got, (f, n), fn, h01.build(all_[n]))
    for f in ('avg', 'diff', 'csv', 'as_tz', 'resample'):
        for e in h01.EDITS:
            for n in ('base', 'labels'):
                s = h01.build(all_[n])
                ask(got, (e, n, f, 'edit'), h01.EDITS[e], s)
                if f in h01.FUNCTIONS:
                    ask(got, (e, n, f), h01.FUNCTIONS[f](), s)


def more(got, folder, kind):
    from mc.checks import k01
    for sort in k01.SORTS:
        for tz in (None, 'Etc/GMT-5'):
            for f, fn in k01.FUNCTIONS.items():
                ask(got, (f, sort, tz), fn, k01.build(kind, sort, 3, 0, tz))


def models(got, folder, family):
    from mc.checks import h01
    all_ = h01.specs(family)
    longer = {n: dict(s, values=s['values'] * 2, losses=s['losses'] * 2 if s['losses'] else None, indexes=s['indexes'] * 2 if s['indexes'] else None) for n, s in all_.items()}
    for name in h01.ALL_MODELS:
        for on in ('base', 'labels', 'zone'):
            model = h01.fitted(name, longer[on])
            for u in h01.uses_of(name):
                for n in (on, 'losses', 'gap'):
                    if n in longer:
                        s = h01.build(longer[n])
                        ask(got, (name, on, str(u), n), getattr(model, u[0]), s, **u[1])
                        if u[1].get('inplace'):
                            ask(got, (name, on, str(u), n, 'series'), lambda: s)
    # Parameters and labels of context
    from timeseria.models.forecasters import PeriodicAverageForecaster
    from timeseria.utilities import detect_periodicity
    for n in names(all_):
        s = h01.build(longer[n])
        model = PeriodicAverageForecaster()
        ask(got, ('fit', n), model.fit, s, periodicity=4)
        ask(got, ('data', n), lambda: {k: v for k, v in model.data.items() if k not in ('id', 'fitted_at')})
        ask(got, ('periodicity', n), detect_periodicity, s)


def read(got, folder, kind, tz):
    """Files with each format of the timestamps."""
    from mc.checks import p02
    from timeseria.storages import CSVFileStorage
    from timeseria.datastructures import TimeSeries
    import itertools
    for size in (1, 2, 3):
        for picked in itertools.combinations(p02.INSTANTS, size):
            head = {'date-time': ['day', 'hour'], 'date': ['day'], 'day-first': ['day']}.get(kind, ['timestamp'])
            rows = [','.join(head + ['wind', 'a', 'rain', 'b'])]
            for n, t in enumerate(picked):
                rows.append(','.join(p02.formatted(kind, t, tz) + [str(n + 0.25), str(-n), '7', str(n * n)]))
            name = os.path.join(folder, 'read.csv')
            with open(name, 'wb') as f:
                f.write(('\n'.join(rows) + '\n').encode())
            variants = [dict(p02.ARGS.get(kind, {}))]
            if kind in p02.EXPLICIT:
                variants += [dict(timestamp_format=p02.EXPLICIT[kind])]
            for k, args in enumerate(variants):
                for zone in (None, tz, 'Asia/Tokyo'):
                    for what in ('points', 'slots', None):
                        kw = dict(args)
                        if zone:
                            kw['tz'] = zone
                        if what:
                            kw['series_type'] = what
                        ask(got, (picked, k, zone, what), lambda: CSVFileStorage(name, **kw).get())
                        ask(got, (picked, k, zone, what, 'from_csv'), lambda: TimeSeries.from_csv(name, **kw))


def units(got, folder):
    from mc.checks import h01, k01
    from mc.lib import TimeUnit, TimePoint, DataTimePoint, DataTimeSlot, TimeSlot
    from datetime import datetime, timezone, timedelta
    import pytz
    from zoneinfo import ZoneInfo
    instants = h01.instants() + [(t, None) for t, _ in h01.instants()[::6]] + [(0, None), (-1.5, 'Europe/Rome'), (1e9, 'America/New_York')]
    for n, (t, tz) in enumerate(instants):
        p = TimePoint(t=t, tz=tz) if tz else TimePoint(t=t)
        for u in h01.UNITS:
            for f, fn in k01.FORMS.items():
                ask(got, (n, u, f), lambda: fn(TimeUnit(u), p))
        dt = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=t)
        for k, zone in enumerate((timezone.utc, timezone(timedelta(hours=3)), ZoneInfo('Europe/Rome'), pytz.timezone('Asia/Kolkata'), pytz.utc)):
            aware = dt.astimezone(zone)
            ask(got, (n, 'dt', k), lambda: TimePoint(dt=aware))
            ask(got, (n, 'dt of', k), lambda: str(TimePoint(dt=aware).dt))
            ask(got, (n, 'data dt', k), lambda: DataTimePoint(dt=aware, data={'b': 1, 'a': 2}))
            ask(got, (n, 'slot', k), lambda: DataTimeSlot(dt=aware, unit=TimeUnit('1h'), data={'b': 1, 'a': 2}))
            ask(got, (n, 'between', k), lambda: TimeSlot(start=TimePoint(dt=aware), end=TimePoint(dt=aware) + TimeUnit('1h')))
        # Naive
        ask(got, (n, 'naive'), lambda: TimePoint(dt=dt.replace(tzinfo=None)))
        ask(got, (n, 'naive tz'), lambda: TimePoint(dt=dt.replace(tzinfo=None), tz='Europe/Rome'))
        ask(got, (n, 'naive data'), lambda: DataTimePoint(dt=dt.replace(tzinfo=None), data={'a': 1}))
        ask(got, (n, 'texts'), lambda: [str(p), repr(p), str(p.dt), p.dt.isoformat(), str(p.tz)])
        ask(got, (n, 'weekday'), lambda: [p.dt.weekday(), p.dt.hour, str(p.dt.utcoffset())])


def frames(got, folder):
    """Data frames and dictionaries made elsewhere, of each type of index."""
    import pandas as pd
    from datetime import datetime, timedelta
    from timeseria.datastructures import TimeSeries, TimeUnit
    for zone in (None, 'UTC', 'Europe/Rome', 'America/New_York'):
        for freq in ('15min', 'h', 'D', 'MS'):
            for start in ('2019-03-30 22:00', '2019-10-26 22:00', '2020-01-01'):
                df = pd.DataFrame({'wind': [1, 2, 3, 4.5], 'a': [5, 6, 7, 8], 'data_loss': [0, None, 0.5, 1]}, index=pd.date_range(start, periods=4, freq=freq, tz=zone))
                for items in (None, 'points', 'slots'):
                    ask(got, (zone, freq, start, items), lambda: TimeSeries.from_df(df, items_type=items) if items else TimeSeries.from_df(df))
                ask(got, (zone, freq, start, 'back'), lambda: TimeSeries.from_df(TimeSeries.from_df(df).to_df()).to_df().to_csv())
                ask(got, (zone, freq, start, 'dict'), lambda: TimeSeries.from_dict(TimeSeries.from_df(df).to_dict()))
    # Keys as texts, and dates which are naive
    for form in ('%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%SZ', '%Y-%m-%dT%H:%M:%S.250000+02:00', '%Y-%m-%dT%H:%M:%S-0500'):
        for start in (datetime(2019, 3, 30, 22), datetime(2019, 10, 26, 22), datetime(2020, 1, 1), datetime(1970, 1, 1)):
            keys = [start + timedelta(hours=k) for k in range(4)]
            for unit in (None, '1h'):
                kw = dict(slot_unit=TimeUnit(unit)) if unit else {}
                ask(got, (form, start, unit), lambda: TimeSeries.from_dict({k.strftime(form): {'wind': 1, 'a': 2} for k in keys}, **kw))
                ask(got, (form, start, unit, 'json'), lambda: TimeSeries.from_json(json.dumps({k.strftime(form): {'wind': 1, 'a': 2} for k in keys}), **kw))
                if form == '%Y-%m-%dT%H:%M:%S':
                    ask(got, (start, unit, 'naive'), lambda: TimeSeries.from_dict({k: {'wind': 1, 'a': 2} for k in keys}, **kw))


SAVED = ('base', 'losses', 'labels', 'zone', 'accents')


def stored_series():
    from mc.checks import h01
    for family in h01.FAMILIES:
        all_ = h01.specs(family)
        all_['accents'] = dict(all_['base'], labels=['è', 'a', '温度 (°C)'])
        for n in SAVED:
            yield family + '-' + n, all_[n]


def write(got, folder):
    """What other processes then load."""
    from mc.checks import h01
    for name, spec in stored_series():
        s = h01.build(spec)
        ask(got, ('save', name), s.save, '{}/{}.csv'.format(folder, name), overwrite=True)
        with open('{}/{}.json'.format(folder, name), 'w', encoding='utf-8') as f:
            f.write(s.to_json())
        if name.endswith(('base', 'labels', 'accents')):
            longer = dict(spec, values=spec['values'] * 2)
            for m in h01.ALL_MODELS:
                if m != 'LSTM' and h01.make(m)[1] is not None:
                    model = h01.fitted(m, longer)
                    ask(got, ('save', name, m), model.save, '{}/{}-{}'.format(folder, name, m.replace(':', '_')))


def load(got, folder):
    from mc.checks import h01
    from timeseria.datastructures import TimeSeries, Slot
    from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector
    for name, spec in stored_series():
        path = '{}/{}'.format(folder, name)
        ask(got, ('load', name), TimeSeries.load, path + '.csv')
        ask(got, ('again', name), resaved, path + '.csv')
        s = h01.build(spec)
        ask(got, ('same', name), lambda: TimeSeries.load(path + '.csv') == s)
        with open(path + '.json', encoding='utf-8') as f:
            text = f.read()
        ask(got, ('json', name), lambda: TimeSeries.from_json(text, **(dict(slot_unit=s.resolution) if isinstance(s[0], Slot) else {})))
        if name.endswith(('base', 'labels', 'accents')):
            for m in h01.ALL_MODELS:
                saved = '{}-{}'.format(path, m.replace(':', '_'))
                if os.path.isdir(saved):
                    cls = type(h01.make(m)[0])
                    loaded = cls.load(saved, model_class=h01.make(m)[0].model_class) if cls is ModelBasedAnomalyDetector else cls.load(saved)
                    for u in h01.uses_of(m):
                        s = h01.build(dict(spec, values=spec['values'] * 2))
                        ask(got, ('model', name, m, str(u)), getattr(loaded, u[0]), s, **u[1])
                        ask(got, ('model', name, m, str(u), 'series'), lambda: s)


def resaved(path):
    from timeseria.datastructures import TimeSeries
    out = '{}.{}.again'.format(path, os.getpid())
    TimeSeries.load(path).save(out)
    with open(out, 'rb') as f, open(path, 'rb') as g:
        strip = lambda h: [l for l in h.read().split(b'\n') if not l.startswith(b'# Generated')]
        a, b = strip(g), strip(f)
    os.remove(out)
    return [l.decode() for l in a], [l.decode() for l in b]


if __name__ == '__main__':
    main()
