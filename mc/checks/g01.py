"""G01: plots show every value at its own time."""
import itertools
import json
import os
import shutil
import subprocess
import tempfile
from mc.lib import *
from timeseria import plots

PROPERTY = 'G01'
LEVEL = 'model_checking'
RULE = ('every kind of series (points and slots, also across DST changes, on mixed time zones and as views), length, time zone, value pattern, index pattern, aggregation factor (given or automatic, on any threshold), selection of labels and indexes, '
        'precision, mark and value range, and every label of a list of hard ones: the page generated is executed (in Node.js, with a stand-in for the plotting library which records what it is given) and the entries, labels, ranges and marks received are compared '
        'with those computed independently from the items. A non-trivial outcome is a distinct set of entries')
ASSUMPTIONS = ['the plotting library (Dygraphs) draws what it is given', 'rounding to two digits (four for the indexes) unless in full precision', 'items at the end of the series not filling an aggregated entry are left out',
               'values are finite numbers']
BOUNDS = {'quick': 'series of up to 4 items (up to 12 if aggregated, up to 45 with the automatic aggregation), 7 kinds, 4 time zones, 6 value patterns, 6 index patterns, aggregation by 1 to 5, 16 labels',
          'thorough': 'series of up to 6 items (up to 24 if aggregated, up to 130 with the automatic aggregation), 7 kinds, 7 time zones, 6 value patterns, 6 index patterns, aggregation by 1 to 9, 16 labels'}
CHUNK = 1
TIMEOUT = 300

DST = epoch(2019, 10, 27, 1)
TZS = {'quick': ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kathmandu'],
       'thorough': ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Asia/Tokyo', 'America/St_Johns']}
KINDS = ['points', 'uneven', 'mixed', 'list', 'hslots', 'dslots', 'view']
VALUES = [[1, -2, 4, 0.5, 7, 3], [0, 0, 0, 0, 0, 0], [-5, -5, -5, -5, -5, -5], [1234.56789, 0.004, -0.126, 3, 1e6, 2], [-1, -3, -2, -7, -4, -1.5], [1e-3, 2e-3, 5e-3, 1e-3, 3e-3, 2e-3]]
INDEXES = [lambda k: {}, lambda k: {'data_loss': [0, 0.5, 1, 0.123456][k % 4]}, lambda k: [{'data_loss': 0.5}, {'x': 0.25}, {}, {'data_loss': 1, 'x': None}][k % 4],
           lambda k: {'data_loss': None}, lambda k: {'forecast': k % 2, 'data_loss': 0.25, 'anomaly_index': 0.75}, lambda k: {'x': 0.1 * (k % 5)} if k else {}]
LABELS = ['b', 'a,b', "it's", 'a"b', 'back\\slash', 'à €', 'with space', '0', 'value', 'x' * 60, 'a\nb', '<b>', 'data_loss2', 'é,\'"', 'null', '1.5']


def labels_of(kind, label=None):
    if label is not None:
        return (label, 'z')
    return {'mixed': ('a',), 'list': ('0', '1'), 'view': ('a',), 'hslots': ('a', 'b'), 'points': ('b', 'a')}.get(kind, ('a',))


def build(kind, n, tz, values, index, label=None):
    """The series, and for each item: (instant, end, {label: value}, indexes)."""
    labels = labels_of(kind, label)
    rows = [tuple(values[(k + 2 * l) % len(values)] for l in range(len(labels))) for k in range(n + 2)]
    idx = [index(k) for k in range(n + 2)]
    if kind in ('points', 'list'):
        ts = [DST - 3600 + 1800 * k for k in range(n)]
        s = points(ts, rows, labels=labels, tz=tz, indexes=idx, kind='list' if kind == 'list' else 'dict')
        o = 0
    elif kind == 'uneven':
        ts = [[0, 0.25, 60, 90.5, 4000][k % 5] + 5000 * (k // 5) for k in range(n)]
        s, o = points(ts, rows, labels=labels, tz=tz, indexes=idx), 0
    elif kind == 'mixed':
        s, o = TimeSeries(), 0
        for k in range(n):
            s.append(DataTimePoint(t=DST + 900 * k, data=dict(zip(labels, rows[k])), data_indexes=dict(idx[k]), tz=[tz, 'Asia/Tokyo'][k % 2]))
    elif kind == 'hslots':
        s, o = slots(DST - 3600, '1h', rows[:n], labels=labels, tz=tz, indexes=idx), 0
    elif kind == 'dslots':
        s, o = slots(epoch(2019, 10, 25, tz=tz), '1D', rows[:n], labels=labels, tz=tz, indexes=idx), 0
    elif kind == 'view':
        s = points([DST - 3600 + 1800 * k for k in range(n + 2)], rows, labels=labels, tz=tz, indexes=idx)
        s, o = s.view(from_i=1, to_i=n + 1), 1
    # The data, from what was given
    facts = []
    for k, i in enumerate(s.contents() if kind != 'view' else [s.series[k + 1] for k in range(n)]):
        slot = isinstance(i, Slot)
        facts.append((i.start.t if slot else i.t, i.end.t if slot else i.t, dict(zip(labels, rows[k + o])), dict(idx[k + o])))
    name = tz if kind != 'mixed' or n < 2 or tz == 'Asia/Tokyo' else 'UTC'
    return s, facts, name


def millis(t, name):
    """Milliseconds of the wall clock as if it was on UTC."""
    d = datetime.fromtimestamp(t, UTC).astimezone(ZoneInfo(name))
    return (d.replace(tzinfo=UTC).timestamp()) * 1000


def order(indexes):
    legacy = ['data_reconstructed', 'data_loss', 'anomaly', 'forecast']
    return sorted(indexes)


def close_to(value, wanted, digits, full):
    if wanted is None or value is None:
        return wanted is None and value is None
    if full:
        return close(value, wanted, rel=1e-9, abs_=1e-12)
    return abs(value - wanted) <= 0.5 * 10 ** -digits + 1e-9 * max(1, abs(wanted))


def expected_factor(n, args, threshold):
    if args.get('aggregate') is False:
        return None
    if args.get('aggregate_by') is not None:
        return args['aggregate_by']
    if n > threshold:
        return 10 ** len(str(int(n / threshold)))
    return None


class Batch:
    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, key, what, s, facts, name, args, labels, threshold=10000, mark=None):
        ctx = self.ctx
        ctx.state((key, what))
        ctx.step()
        before = snap(s)
        saved = plots.AGGREGATE_THRESHOLD
        plots.AGGREGATE_THRESHOLD = threshold
        try:
            html = s.plot(html=True, **args)
        except Exception as e:
            ctx.fail(key + ':error', '{}: {} {}'.format(what, type(e).__name__, e))
            return
        finally:
            plots.AGGREGATE_THRESHOLD = saved
        ctx.check(snap(s) == before, key + ':altered', '{}: the series has changed'.format(what))
        a = html.find('<script>')
        b = html.rfind('</script>')
        self.items.append((html[a + len('<script>'):b], key, what, facts, name, args, labels, expected_factor(len(facts), args, threshold), mark))

    def finish(self):
        if not self.items:
            return
        folder = tempfile.mkdtemp()
        try:
            src, dst = os.path.join(folder, 'in'), os.path.join(folder, 'out')
            with open(src, 'w') as f:
                json.dump([i[0] for i in self.items], f)
            subprocess.run(['node', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'plotjs.js'), src, dst], check=True)
            with open(dst) as f:
                results = json.load(f)
        finally:
            shutil.rmtree(folder)
        for result, item in zip(results, self.items):
            self.verify(result, *item[1:])

    def verify(self, result, key, what, facts, name, args, labels, factor, mark):
        ctx = self.ctx
        got = result['got']
        if result['error'] or got is None:
            ctx.fail(key + ':script', '{}: {}'.format(what, result['error']))
            return
        full = args.get('full_precision', False)
        if 'data_labels' in args:
            plotted = args['data_labels']
        else:
            plotted = sorted(labels)
        present = []
        for f in facts:
            for i in f[3]:
                if i not in present:
                    present.append(i)
        indexes = args['data_indexes'] if 'data_indexes' in args else present
        indexes = indexes or []
        is_list = 'list' in key.split(':')
        # Labels: the data ones in the order asked for, then the indexes in any order
        wanted = (['value'] if len(plotted) == 1 else ['value ' + l for l in plotted]) if is_list else list(plotted)
        k = len(wanted)
        ok = ctx.check(got['labels'][0] == 'Timestamp' and got['labels'][1:1 + k] == wanted and sorted(got['labels'][1 + k:]) == sorted(indexes),
                       key + ':labels', '{}: labels {} and not {} with {}'.format(what, got['labels'], wanted, indexes))
        ctx.check(len(got['colors']) == k, key + ':colors', '{}: {} colors for {} labels'.format(what, len(got['colors']), k))
        ctx.check(set(indexes) <= set(got['indexes']) and not set(wanted) & set(got['indexes']), key + ':axes', '{}: on the axis of the indexes {} and not {}'.format(what, got['indexes'], indexes))
        ctx.check(got['customBars'] == bool(factor), key + ':bars', '{}: ranges {}'.format(what, got['customBars']))
        indexes = got['labels'][1 + k:]
        # Entries
        rows = []
        if not factor:
            for t, _, data, idx in facts:
                rows.append(((millis(t, name), millis(t, name)), [data[l] for l in plotted], [idx.get(i) for i in indexes]))
        else:
            for j in range(len(facts) // factor):
                part = facts[j * factor:(j + 1) * factor]
                cells = [(min(f[2][l] for f in part), sum(f[2][l] for f in part) / factor, max(f[2][l] for f in part)) for l in plotted]
                means = []
                for i in indexes:
                    known = [f[3][i] for f in part if f[3].get(i) is not None]
                    means.append((0, sum(known) / len(known), sum(known) / len(known)) if known else (None, None, None))
                rows.append(((part[0][0], part[-1][1]), cells, means))
        ok = ok and ctx.check(len(got['data']) == len(rows), key + ':entries', '{}: {} entries and not {}'.format(what, len(got['data']), len(rows)))
        if ok:
            for n, (row, (when, cells, means)) in enumerate(zip(got['data'], rows)):
                if not factor:
                    good = abs(row[0] - when[0]) < 1
                else:
                    # In the middle of what it covers
                    lo, hi = when
                    good = abs(row[0] - millis(lo + (hi - lo) / 2, name)) < 1.01
                ctx.check(good, key + ':time', '{}: entry {} at {} and not {}'.format(what, n, row[0], when))
                flat_ok = len(row) == 1 + len(cells) + len(means)
                for c, (g, w) in enumerate(zip(row[1:], list(cells) + list(means))):
                    digits = 2 if c < len(cells) else 4
                    if factor:
                        flat_ok = flat_ok and isinstance(g, list) and len(g) == 3 and all(close_to(x, y, digits, full) for x, y in zip(g, w))
                    else:
                        flat_ok = flat_ok and close_to(g, w, digits, full)
                ctx.check(flat_ok, key + ':values', '{}: entry {} is {} and not {} {}'.format(what, n, row[1:], cells, means))
        # The range covers everything shown
        lo, hi = float(got['valueRange'][0]), float(got['valueRange'][1])
        if 'value_range' in args:
            a, b = args['value_range']
            ctx.check(lo <= a and b <= hi and lo < hi, key + ':range', '{}: range {} for {}'.format(what, got['valueRange'], args['value_range']))
        elif 'height' not in args:
            shown = [f[2][l] for f in facts for l in plotted]
            ctx.check(lo <= min(shown) and max(shown) <= hi and lo < hi, key + ':range', '{}: range {} for values from {} to {}'.format(what, got['valueRange'], min(shown), max(shown)))
        if mark:
            m = got.get('mark')
            w = [millis(x, name) for x in mark]
            ctx.check(m is not None and abs(m[0] - w[0]) < 1 and abs(m[1] - w[1]) < 1, key + ':mark', '{}: mark {} and not {}'.format(what, m, w))
        else:
            ctx.check(got.get('mark') is None, key + ':mark', '{}: mark {}'.format(what, got.get('mark')))
        if not args.get('minimal_legend'):
            ctx.check('#{} '.format(len(facts)) in got['legend'], key + ':legend', '{}: legend {}'.format(what, got['legend']))
            ctx.check(str(name) in got['legendAt'] and 'AT' in got['legendAt'], key + ':legend-tz', '{}: legend {}'.format(what, got['legendAt']))
        ctx.check(all('<{}>'.format(j) in got['legend'] and '<{}>'.format(j) in got['legendAt'] for j in range(len(got['labels']) - 1)), key + ':legend-labels', '{}: legend {}'.format(what, got['legend']))
        ctx.ok()
        ctx.outcome((key, name, repr(got['data']), tuple(got['labels'])))


def plain(batch, case):
    kind, tz = case['kind'], case['tz']
    for n in range(1, case['top'] + 1):
        for v, values in enumerate(VALUES):
            for x, index in enumerate(INDEXES):
                s, facts, name = build(kind, n, tz, values, index)
                labels = labels_of(kind)
                what = '{} items of {} on {}, values {}, indexes {}'.format(n, kind, tz, v, x)
                options = [{}, dict(full_precision=True)]
                if v == 0:
                    options += [dict(data_labels=[l]) for l in labels] + ([dict(data_labels=list(reversed(labels))), dict(data_labels=list(labels))] if len(labels) > 1 else [])
                    present = sorted({i for f in facts for i in f[3]})
                    options += [dict(data_indexes=None), dict(data_indexes=[])] + [dict(data_indexes=[i]) for i in present] + ([dict(data_indexes=present[::-1])] if len(present) > 1 else [])
                    options += [dict(minimal_legend=True), dict(title='A title'), dict(aggregate=False), dict(value_range=[-10, 10]), dict(value_range=[1, 3]), dict(value_range=[-7, -2]), dict(value_range=[0, 5]), dict(color='red'), dict(mini_plot=False)]
                for args in options:
                    batch.add('plain:' + kind, '{} {}'.format(what, args), s, facts, name, args, labels)


def aggregated(batch, case):
    kind, tz = case['kind'], case['tz']
    for n in range(1, case['top'] + 1):
        for v in (0, 2, 3) if n <= 6 else (0,):
            for x, index in enumerate(INDEXES):
                s, facts, name = build(kind, n, tz, VALUES[v], index)
                for factor in range(1, case['factors'] + 1):
                    if n < factor:
                        continue   # nothing but a tail
                    for args in [dict(aggregate_by=factor), dict(aggregate_by=factor, full_precision=True), dict(aggregate_by=factor, aggregate=True), dict(aggregate_by=factor, aggregate=False)][:4 if v == 0 else 2]:
                        batch.add('aggregated:' + kind, '{} items of {} on {}, values {}, indexes {} {}'.format(n, kind, tz, v, x, args), s, facts, name, args, labels_of(kind))


def automatic(batch, case):
    kind = case['kind']
    for n in range(1, case['top'] + 1):
        s, facts, name = build(kind, n, 'Europe/Rome', VALUES[0], INDEXES[2])
        for threshold in (1, 2, 4, 10, 44):
            factor = expected_factor(n, {}, threshold)
            for args in [{}, dict(aggregate=True), dict(aggregate=False), dict(aggregate_by=2)]:
                f = expected_factor(n, args, threshold)
                if f and n < f:
                    continue
                batch.add('automatic:' + kind, '{} items of {} threshold {} {}'.format(n, kind, threshold, args), s, facts, name, args, labels_of(kind), threshold=threshold)


def marks(batch, case):
    kind, tz = case['kind'], case['tz']
    s, facts, name = build(kind, 4, tz, VALUES[0], INDEXES[1])
    ts = [f[0] for f in facts] + [facts[-1][1] + 7200, facts[0][0] - 0.5]
    for a, b in itertools.product(sorted(set(ts)), repeat=2):
        if a >= b:
            continue
        for mz in TZS['thorough']:
            mark = [datetime.fromtimestamp(t, pytz.timezone(mz)) for t in (a, b)]
            for args in [dict(mark=mark), dict(mark=tuple(mark), mark_title='A mark', mark_color='red', aggregate_by=2)]:
                batch.add('mark:' + kind, '{} on {} from {} to {}'.format(kind, tz, *mark), s, facts, name, args, labels_of(kind), mark=(a, b))


def names(batch, case):
    label = case['label']
    for kind in ('points', 'hslots'):
        for index in INDEXES[:3] + [lambda k: {label + 'i': 0.5}]:
            s, facts, name = build(kind, 3, 'Europe/Rome', VALUES[0], index, label=label)
            for args in [{}, dict(aggregate_by=2), dict(data_labels=[label]), dict(data_labels=['z', label])]:
                batch.add('names:' + kind, 'label {!r} {}'.format(label, args), s, facts, name, args, (label, 'z'))


def cases(tier):
    quick = tier == 'quick'
    for kind in KINDS:
        for tz in TZS[tier]:
            yield dict(part='plain', kind=kind, tz=tz, top=4 if quick else 6)
            yield dict(part='aggregated', kind=kind, tz=tz, top=12 if quick else 24, factors=5 if quick else 9)
            yield dict(part='marks', kind=kind, tz=tz)
        yield dict(part='automatic', kind=kind, top=45 if quick else 130)
    for label in LABELS:
        yield dict(part='names', label=label)


def run(ctx, case):
    batch = Batch(ctx)
    globals()[case['part']](batch, case)
    batch.finish()
