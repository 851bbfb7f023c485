"""P01: what is saved to CSV is what is loaded back."""
import itertools
import os
import numpy as np
from mc import core
from mc.lib import *
from timeseria.storages import CSVFileStorage

PROPERTY = 'P01'
LEVEL = 'model_checking'
RULE = ('every series of the product of kinds (points at regular, uneven, sub-second and negative instants; slots of each unit, also across DST changes) x time zones x label sets x patterns of '
        'data indexes (each subset of the items, with and without a value) x lengths, saved, compared byte for byte with what was there before if refused, and loaded back with each way of reading; every value and label of a list '
        'of hard ones in each position; every sequence of saves, loads and refused saves up to a depth on the same file, against a model of the content. A non-trivial outcome is a distinct loaded series')
ASSUMPTIONS = ['items without an index and with the index set to None are the same', 'list data are loaded back as key-value data with the positions as labels', 'the operating system writes what it is told to write']
BOUNDS = {'quick': 'up to 3 items, 14 kinds of series, 5 time zones, 45 labels, 30 values, histories of 3 operations',
          'thorough': 'up to 4 items, all index patterns on 2 indexes, histories of 4 operations'}
CHUNK = 4

POINTS = {'regular': [0, 60, 120, 180], 'far': [1571961600.0, 1571961660.0, 1571961720.0, 1571961780.0], 'uneven': [-120, -60.5, 0.25, 7], 'micro': [1500000000.000001, 1500000000.000002, 1500000000.5, 1500000001.123457],
          'sparse': [-86400 * 365 * 30, 0, 86400, 2e9], 'daily': [0, 86400, 172800, 259200], 'hours': [3600, 7200, 10800, 14400]}
SLOTS = [('1h', (2019, 10, 26, 23)), ('10m', (2019, 10, 27, 1, 30)), ('1D', (2019, 3, 30)), ('1D', (2019, 10, 26)), ('1M', (2020, 1, 1)), ('1Y', (2019, 1, 1)), ('2h', (2020, 2, 28, 22)), ('30s', (2020, 1, 1)), ('90s', (2020, 1, 1)),
         ('0.5s', (2020, 1, 1)), ('3M', (2020, 1, 1)), ('1D', (2020, 2, 28)), ('1W', (2020, 1, 6))]
TZS = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Sydney']
LABELS = [('a',), ('b', 'a'), ('value', 'temperature (C)', 'x1')]
HARD_LABELS = ['epoch', 'timestamp', 'time', 'date', 'a,b', 'a;b', ';a', '#a', '"a"', "'a'", 'a"b', 'a"', ' a', 'a ', 'a  b', 'a b', 'a\tb', 'a\nb', 'a\r', '__a', '_a', 'a__', 'na', 'nan', 'N.A', 'null', 'nd', 'undef', '', ' ', '1', '1.5', '2020-01-01T00:00:00Z',
               'temperatura è', '\u6e29\u5ea6', '°C', 'a' * 300, 'True', 'None', 'data_loss', '__data_loss', '\ufeffa', 'a\u00a0b', '\u200b', 'µ', 'é' * 60]
VALUES = [0, -0.0, 1, -1, 0.1, 1 / 3, 1e-300, 5e-324, 1e300, 1.7976931348623157e308, 123456789.123456789, 2 ** 53, -2 ** 53 + 1, 1e22, 1e16, True, False, float('inf'), float('-inf'),
          np.float64(0.1), np.float64(1e-7), np.int64(7), np.float32(0.5), np.bool_(True), -1e-9, 100000000000000000000, 0.30000000000000004, 2.5e-8]
INDEXES = [None, 0.0, 1.0, 0.5, 1 / 3, 1e-12]


def build(kind, n, labels, values=None, losses=None, indexes=None, tz='UTC', data='dict'):
    values = values or [tuple((3 * i + k) * 0.1 for k in range(len(labels))) for i in range(n)]
    if kind in POINTS:
        return points(POINTS[kind][:n], values, labels=labels, tz=tz, losses=losses, indexes=indexes, kind=data)
    unit, date = SLOTS[int(kind)]
    return slots(epoch(*date, tz=tz), unit, values, labels=labels, tz=tz, losses=losses, indexes=indexes, kind=data)


def expected(series):
    """What has to be loaded back, as plain data."""
    out = []
    for i in series:
        data = dict(i.data) if isinstance(i.data, dict) else {str(k): v for k, v in enumerate(i.data)}
        indexes = {k: v for k, v in i.data_indexes.items() if v is not None}
        place = (i.start.t, i.end.t, str(i.unit)) if isinstance(i, Slot) else (i.t,)
        out.append((isinstance(i, Slot), place, data, indexes))
    return out


def bad(series, exp, tz):
    if str(series.tz) != str(tz):
        return 'time zone {} instead of {}'.format(series.tz, tz)
    got = expected(series)
    if len(got) != len(exp):
        return '{} items instead of {}'.format(len(got), len(exp))
    for k, (g, e) in enumerate(zip(got, exp)):
        if g != e:
            return 'item {}: {} instead of {}'.format(k, g, e)
        if str(series[k].tz) != str(tz):
            return 'item {} on {}'.format(k, series[k].tz)
        if any(not isinstance(v, float) for v in list(g[2].values()) + list(g[3].values())):
            return 'item {}: not numbers in {}'.format(k, g)
    return None


def cases(tier):
    quick = tier == 'quick'
    kinds = list(POINTS) + [str(k) for k in range(len(SLOTS))]
    for n in range(1, 4 if quick else 5):
        for kind in kinds:
            yield dict(what='shape', kind=kind, n=n, tier=tier)
    for label in range(len(HARD_LABELS)):
        yield dict(what='label', label=label)
    for v in range(len(VALUES)):
        yield dict(what='value', v=v)
    yield dict(what='nan')
    yield dict(what='storage')
    yield dict(what='refused')
    depth = 3 if quick else 4
    for first in OPS:
        for second in OPS:
            yield dict(what='history', start=[first, second], depth=depth)


def path(name='f.csv'):
    return os.path.join(core.scratch(), name)


def content(name):
    if not os.path.exists(name):
        return None
    with open(name, 'rb') as f:
        return f.read()


def clean(name):
    if os.path.exists(name):
        os.remove(name)


def round_trip(ctx, series, key, refusable=False, before=None):
    """Save and load back, or be refused with nothing changed."""
    name = path()
    clean(name)
    if before is not None:
        with open(name, 'wb') as f:
            f.write(before)
    pic = snap(series)
    exp = expected(series)
    tz = str(series.tz)
    res = outcome_of(series.save, name, overwrite=before is not None)
    ctx.step()
    ctx.check(snap(series) == pic, key + ':altered', lambda: 'saving altered {}'.format(pic))
    if res[0] == 'err':
        ctx.check(refusable, key, lambda: 'saving {} failed: {}'.format(pic, res))
        ctx.check(content(name) == before, key + ':file', lambda: 'the file changed from {} to {} when refusing to save {}'.format(before, content(name), pic))
        ctx.outcome((key, res[1]))
        ctx.ok()
        return None
    # Saving the same again gives the same, and nothing of what was there before
    got = outcome_of(TimeSeries.load, name)
    ctx.step()
    if not ctx.check(got[0] == 'ok', key, lambda: 'loading back {} failed: {}'.format(pic, got)):
        return None
    loaded = got[1]
    wrong = bad(loaded, exp, tz)
    ctx.check(wrong is None, key, lambda: 'loading back {} gave {}'.format(pic, wrong))
    ctx.check(type(loaded) is TimeSeries, key, lambda: 'loaded a {}'.format(type(loaded)))
    if key != 'view' and series.resolution is not None and str(series.resolution) != 'variable' and wrong is None:
        ctx.check(str(loaded.resolution) == str(series.resolution), key + ':resolution', lambda: 'resolution {} instead of {}'.format(loaded.resolution, series.resolution))
    ctx.outcome(snap(loaded))
    ctx.ok()
    return loaded


def on_the_clock(series, tz):
    """If the slots are those of their unit on the wall clock of the time zone."""
    try:
        return all(close(ref_shift(i.start.t, str(i.unit), tz), i.end.t) for i in series)
    except NoSuchTime:
        return False


class Sub(TimeSeries):
    pass


def run(ctx, case):
    {'shape': shape, 'label': label, 'value': value, 'nan': nan, 'storage': storage, 'refused': refused, 'history': history}[case['what']](ctx, case)


def shape(ctx, case):
    kind, n = case['kind'], case['n']
    full = case['tier'] != 'quick'
    slot = kind not in POINTS
    count = 0
    for tz in TZS:
        for labels in LABELS:
            for pattern in itertools.product(range(3), repeat=n):
                for second in ((0,) * n, tuple(reversed(pattern)))[:1 if not any(pattern) else 2] if not full else itertools.product(range(2), repeat=n):
                    # 0: no index, 1: index with a value, 2: index set to None
                    indexes = []
                    for i in range(n):
                        d = {}
                        if pattern[i]:
                            d['data_loss'] = None if pattern[i] == 2 else INDEXES[1 + (i + count) % 5]
                        if second[i]:
                            d['data_reconstructed'] = None if second[i] == 2 else INDEXES[1 + (i + count + 2) % 5]
                        indexes.append(d)
                    count += 1
                    if not full and count % 3 and tz not in ('UTC', 'Europe/Rome'):
                        continue
                    s = build(kind, n, labels, indexes=indexes, tz=tz)
                    if not ctx.state(snap(s)):
                        continue
                    loaded = round_trip(ctx, s, 'slots' if slot else 'points')
                    if count % 7 == 0 and loaded is not None:
                        # Again, over the other file; what has been loaded can be saved as well
                        before = content(path())
                        round_trip(ctx, loaded, 'again', before=before)
                        head = lambda c: [[float(x) for x in l.split(b',')] if not l.startswith((b'#', b'epoch')) else l[:25] for l in c.replace(b'None', b'nan').split(b'\n') if l]
                        ctx.check(repr(head(content(path()))) == repr(head(before)), 'again:same', lambda: 'saving what has been loaded gave {} instead of {}'.format(content(path()), before))
                    if count % 5 == 0:
                        sub = outcome_of(Sub.load, path())
                        ctx.step()
                        ctx.check(sub[0] == 'ok' and type(sub[1]) is Sub and bad(sub[1], expected(s), tz) is None, 'subclass', lambda: 'loading as a subclass gave {}'.format(sub))
        # As lists, and from a view
        for data, labels in (('list', ('0',)), ('list', ('0', '1'))):
            s = build(kind, n, labels, tz=tz, data=data, losses=[INDEXES[k % 6] for k in range(n)])
            round_trip(ctx, s, 'list')
        s = build(kind, n, ('a', 'b'), tz=tz, losses=[INDEXES[(k + 1) % 6] for k in range(n)])
        for a in range(n):
            for b in range(a + 1, n + 1):
                round_trip(ctx, s.view(from_i=a, to_i=b), 'view')
                part = s.slice(from_i=a, to_i=b)
                round_trip(ctx, part, 'slice')
        if n > 1:
            # The time zone set on the series
            s.change_tz('Europe/London')
            round_trip(ctx, s, 'changed-tz' if not slot or on_the_clock(s, 'Europe/London') else 'changed-tz:calendar-slots')
            # Items on different time zones end up on the one of the series
            if not slot:
                mixed = TimeSeries(*[DataTimePoint(t=t, tz=z, data={'a': k}) for k, (t, z) in enumerate(zip(POINTS[kind][:n], [tz, 'America/New_York', 'UTC', tz]))])
                round_trip(ctx, mixed, 'mixed-tz')
    ctx.sample(case)


def label(ctx, case):
    label = HARD_LABELS[case['label']]
    for labels in ((label,), (label, 'a'), ('b', label), ('a', label, 'zz')):
        for before in (None, b'something else\n'):
            for kind in ('regular', 'daily', '0'):
                s = build(kind, 2, labels)
                ctx.state(snap(s))
                round_trip(ctx, s, 'label', refusable=not ordinary(label), before=before)
        # As an index
        s = build('regular', 2, ('a',), indexes=[{label: 0.5}, {label: 0.25}])
        round_trip(ctx, s, 'index-name', refusable=not ordinary(label))
    s = build('regular', 2, ('a', label))
    name = path()
    for sep in (';', '\t', '|'):
        # And with other separators, with the storage
        clean(name)
        res = outcome_of(CSVFileStorage(name, separator=sep, comment_chars=['#'], timestamp_column=0, timestamp_format='epoch', series_type='points').put, s)
        ctx.step()
        if res[0] == 'err':
            ctx.check(not ordinary(label), 'separator', lambda: 'refused label {!r} with separator {!r}: {}'.format(label, sep, res))
            ctx.check(content(name) is None, 'separator', 'file left behind when refusing')
        else:
            got = outcome_of(CSVFileStorage(name, separator=sep, comment_chars=['#'], timestamp_column=0, timestamp_format='epoch', series_type='points').get)
            wrong = bad(got[1], expected(s), 'UTC') if got[0] == 'ok' else got
            ctx.check(wrong is None, 'separator', lambda: 'label {!r} with separator {!r}: {}'.format(label, sep, wrong))
        ctx.ok()


def ordinary(label):
    """Labels for which refusing would be a loss of functionality."""
    return label.replace(' ', '').replace('_', '').isalnum() and label == label.strip() and '  ' not in label and not label.startswith('__') and label.lower() not in ('na', 'nan', 'null', 'nd', 'undef')


def value(ctx, case):
    v = VALUES[case['v']]
    for w in VALUES:
        for kind in ('regular', 'uneven', '0', '2'):
            s = build(kind, 3, ('a', 'b'), values=[(v, w), (w, v), (1, v)])
            ctx.state(snap(s))
            round_trip(ctx, s, 'value')
    if 0 <= v <= 1:
        for kind in ('regular', '0'):
            round_trip(ctx, build(kind, 2, ('a',), losses=[v, None]), 'loss-value')
            round_trip(ctx, build(kind, 2, ('a',), indexes=[{}, {'anomaly': v}]), 'index-value')
    t = 1571961600 + v if abs(v) < 1e8 else None
    if t is not None:
        s = TimeSeries(DataTimePoint(t=t, data={'a': 1}), DataTimePoint(t=t + 0.5, data={'a': 2}))
        round_trip(ctx, s, 'instant')


def nan(ctx, case):
    s = build('regular', 2, ('a',), values=[float('nan'), 1])
    name = path()
    clean(name)
    res = outcome_of(s.save, name)
    ctx.step()
    got = outcome_of(TimeSeries.load, name) if res[0] == 'ok' else None
    ctx.check(res[0] == 'err' or (got[0] == 'ok' and len(got[1]) == 2 and math.isnan(got[1][0].data['a'])), 'nan', 'a series with a NaN value is saved but cannot be loaded back: {}'.format(got))
    ctx.ok()


def storage(ctx, case):
    """Directly with the storage, and with from_csv/to_csv."""
    name = path()
    for labels in LABELS:
        for kind in list(POINTS) + ['0', '1', '2', '4', '5', '7']:
            for losses in ([None, None, None], [0.5, None, 1], [0, 0, 0]):
                s = build(kind, 3, labels, losses=losses)
                exp = expected(s)
                slot = kind not in POINTS
                for sep, encoding in ((',', 'auto'), (';', 'auto'), ('\t', 'utf-8'), ('|', 'utf-16'), (',', 'latin-1')):
                    clean(name)
                    args = dict(separator=sep, encoding=encoding, comment_chars=['#'])
                    ctx.step(2)
                    ctx.state((kind, labels, sep, encoding, repr(losses)))
                    res = outcome_of(CSVFileStorage(name, **args).put, s)
                    if not ctx.check(res[0] == 'ok', 'put', lambda: 'storing {} with {} failed: {}'.format(snap(s), args, res)):
                        continue
                    st = CSVFileStorage(name, **args)
                    kw = dict(force_slots=True, force_slot_unit=SLOTS[int(kind)][0]) if slot else dict(force_points=True)
                    for filt in [[]] + [[l] for l in labels] + [[]] + [list(labels)] + [[]]:
                        got = outcome_of(st.get, filter_data_labels=filt, **kw)
                        ctx.step()
                        keep = filt or labels
                        # With a filter, only the requested labels and no other column
                        e = [(a, b, {k: v for k, v in c.items() if k in keep}, {} if filt else d) for a, b, c, d in exp]
                        wrong = bad(got[1], e, 'UTC') if got[0] == 'ok' else got
                        ctx.check(wrong is None, 'get', lambda: 'reading {} with {} and filter {} gave {}'.format(snap(s), args, filt, wrong))
                        ctx.ok()
                    for limit in (1, 2, 3, 10):
                        got = outcome_of(st.get, limit=limit, **kw)
                        ctx.step()
                        wrong = bad(got[1], exp[:limit], 'UTC') if got[0] == 'ok' else got
                        ctx.check(wrong is None, 'limit', lambda: 'reading the first {} of {} gave {}'.format(limit, snap(s), wrong))
                        ctx.ok()
                    for tz in TZS:
                        if slot:
                            continue
                        for got in (outcome_of(st.get, force_tz=tz, **kw), outcome_of(CSVFileStorage(name, tz=tz, series_type='points', **args).get)):
                            ctx.step()
                            wrong = bad(got[1], exp, tz) if got[0] == 'ok' else got
                            ctx.check(wrong is None, 'tz', lambda: 'reading {} on {} gave {}'.format(snap(s), tz, wrong))
                            ctx.ok()
                # The convenience methods
                clean(name)
                s.to_csv(name)
                ctx.step(2)
                for cls in (TimeSeries, Sub):
                    got = outcome_of(cls.from_csv, name, series_type='slots' if slot else 'points')
                    if slot and kind in ('7',):
                        continue
                    wrong = (bad(got[1], exp, 'UTC') or (None if type(got[1]) is cls else 'a {}'.format(type(got[1])))) if got[0] == 'ok' else got
                    ctx.check(wrong is None, 'from_csv', lambda: '{} back from CSV: {}'.format(snap(s), wrong))
                    ctx.ok()


def refused(ctx, case):
    name = path()
    for before in (None, b'', b'something\n'):
        things = [TimeSeries(), TimeSeries(TimePoint(t=0), TimePoint(t=60)), TimeSeries(TimeSlot(start=TimePoint(0), unit=TimeUnit('1h')))]
        for s in things:
            clean(name)
            if before is not None:
                with open(name, 'wb') as f:
                    f.write(before)
            res = outcome_of(s.save, name, overwrite=before is not None)
            ctx.step()
            ctx.check(res[0] == 'err', 'unsupported', lambda: 'saved {}'.format(snap(s)))
            ctx.check(content(name) == before, 'unsupported:file', lambda: 'file changed to {} when refusing to save {}'.format(content(name), snap(s)))
            ctx.ok()
    for text in (b'', b'\n', b'a,b\n1,2\n', b'# comment\n', b'epoch,a\n0,1\n'):
        with open(name, 'wb') as f:
            f.write(text)
        res = outcome_of(TimeSeries.load, name)
        ctx.step()
        ctx.check(res[0] == 'err', 'not-timeseria', lambda: 'loaded {} from {!r}'.format(res, text))
        ctx.ok()
    ctx.check(outcome_of(TimeSeries.load, path('missing.csv'))[0] == 'err', 'missing', 'loaded a missing file')


OPS = ['saveA', 'saveB', 'overA', 'overB', 'overEmpty', 'overBare', 'overHard', 'load', 'mutate', 'loadmutate']


def history(ctx, case):
    for rest in itertools.product(OPS, repeat=case['depth'] - 2):
        name = path()
        clean(name)
        series = {'A': build('regular', 3, ('a', 'b'), losses=[0.5, None, 0]), 'B': build('2', 2, ('x',), tz='Europe/Rome')}
        model = None
        ops = case['start'] + list(rest)
        for n, op in enumerate(ops):
            ctx.step()
            before = content(name)
            key = 'history:' + op
            where = lambda: '{} (step {} of {})'.format(op, n, ops)
            if op in ('saveA', 'saveB', 'overA', 'overB'):
                s = series[op[-1]]
                res = outcome_of(s.save, name, overwrite=op.startswith('over'))
                if op.startswith('save') and before is not None:
                    ctx.check(res[0] == 'err' and content(name) == before, key, lambda: where() + ' overwrote without being asked to')
                else:
                    ctx.check(res[0] == 'ok', key, lambda: where() + ' failed: {}'.format(res))
                    model = (expected(s), str(s.tz))
            elif op in ('overEmpty', 'overBare', 'overHard'):
                s = {'overEmpty': TimeSeries(), 'overBare': TimeSeries(TimePoint(t=1)), 'overHard': build('regular', 2, ('a,b', 'c'))}[op]
                res = outcome_of(s.save, name, overwrite=True)
                ctx.check(res[0] == 'err' and content(name) == before, key, lambda: where() + ' did not leave the file as it was: {}'.format(res))
            elif op == 'load':
                res = outcome_of(TimeSeries.load, name)
                if model is None:
                    ctx.check(res[0] == 'err', key, lambda: where() + ' loaded {}'.format(res))
                else:
                    wrong = bad(res[1], *model) if res[0] == 'ok' else res
                    ctx.check(wrong is None, key, lambda: where() + ': {}'.format(wrong))
                ctx.check(content(name) == before, key, lambda: where() + ' changed the file')
            elif op == 'mutate':
                # What is in the file does not depend on the series any more
                series['A'].append(DataTimePoint(t=series['A'][-1].t + 60, data={'a': 9, 'b': 8}))
                series['A'][0].data['a'] = 77
            elif op == 'loadmutate' and model is not None:
                # Nor on what has been loaded
                loaded = TimeSeries.load(name)
                loaded[0].data[loaded.data_labels()[0]] = -1
                ctx.check(bad(TimeSeries.load(name), *model) is None, key, lambda: where() + ': the file depends on the loaded series')
        ctx.state(tuple(ops))
        if model is not None:
            res = outcome_of(TimeSeries.load, name)
            wrong = bad(res[1], *model) if res[0] == 'ok' else res
            ctx.check(wrong is None, 'history:content', lambda: 'after {}: {}'.format(ops, wrong))
            ctx.outcome((tuple(ops), repr(model)))
        ctx.ok()
