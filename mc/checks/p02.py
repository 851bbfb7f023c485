"""P02: reading a CSV file never loses, alters or invents data silently."""
import itertools
import os
from mc import core
from mc.lib import *
from timeseria.storages import CSVFileStorage

PROPERTY = 'P02'
LEVEL = 'fault_enumeration'
RULE = ('every file made of up to N lines, each one good or one of the faults (comment, empty, blank, no separator, bad or placeholder or missing value, bad or missing timestamp, duplicate, out of order) in every position, read with and without skipping the errors and '
        'sorting, as points and as slots; every pattern of missing slots for each unit; every timestamp format x time zone x arrangement of the columns, and each way of choosing the columns; every limit, order of the lines (also within the second), separator, comment character, type of the data and way of quoting: the items are compared with those of an '
        'independent reading of the lines. A non-trivial outcome is a distinct series or refusal')
ASSUMPTIONS = ['lines without any separator are taken as comments, as in the sample files', 'the first line of files without a header is good', 'timestamps are not in the hour repeated or skipped by a DST change if naive', 'fractions of seconds are given with six digits', 'white space in labels is normalized', 'limits are on the good lines, in the order of the file']
BOUNDS = {'quick': 'up to 4 lines after the header, 16 kinds of line, 5 arrangements of 5 columns, 9 timestamp formats, gaps patterns on up to 6 slots of 6 units, and up to 4 of months and years starting anywhere in 2 and 4 years',
          'thorough': 'up to 5 lines after the header, gaps patterns on up to 9 slots'}
CHUNK = 4
TIMEOUT = 200

# g: good line. The others are faults
FAULTS = ['comment', 'comment2', 'empty', 'blank', 'noseparator', 'badvalue', 'novalue', 'placeholder', 'missing', 'short', 'long', 'badtime', 'notime', 'duplicate', 'earlier']
IGNORED = ('comment', 'comment2', 'empty', 'blank', 'noseparator')
ERRORS = ('badvalue', 'novalue', 'placeholder', 'missing', 'short', 'long', 'badtime', 'notime')


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for m in range(1, n):
        for lines in itertools.product(['g'] + FAULTS, repeat=m):
            yield dict(what='lines', lines=list(lines), tail=m == n - 1)
    for f in range(len(FORMATS)):
        for tz in TZS:
            yield dict(what='format', f=f, tz=tz)
    for u in range(len(UNITS)):
        for n in range(2, 7 if tier == 'quick' else 10):
            if u < SOME or n in (2, 3, 4, 7):
                yield dict(what='gaps', unit=u, n=n)
    for arrangement in itertools.permutations(range(4)):
        yield dict(what='columns', order=list(arrangement))
    for m in range(1, 4 if tier == 'quick' else 6):
        for gaps_ in itertools.product(('g', 'comment', 'blank', 'badvalue'), repeat=m):
            yield dict(what='limits', lines=list(gaps_))
    for n in range(2, 5 if tier == 'quick' else 6):
        yield dict(what='sorting', n=n)
    for sep in (',', ';', '\t', '|', '::'):
        yield dict(what='options', sep=sep)
        yield dict(what='quoted', sep=sep)
    yield dict(what='encodings')
    yield dict(what='values')


def run(ctx, case):
    {'lines': lines, 'format': formats, 'gaps': gaps, 'columns': columns, 'encodings': encodings, 'values': values, 'limits': limits, 'sorting': sorting, 'options': options, 'quoted': quoted}[case['what']](ctx, case)
    ctx.sample(case)


def write(text, encoding='utf-8'):
    name = os.path.join(core.scratch(), 'f.csv')
    with open(name, 'wb') as f:
        f.write(text.encode(encoding) if isinstance(text, str) else text)
    return name


def picture(series):
    out = []
    for i in series:
        out.append((i.start.t if isinstance(i, Slot) else i.t, i.data, {k: v for k, v in i.data_indexes.items() if v is not None}))
    return out


def differs(got, exp, tz='UTC', exact=True):
    """Why the outcome is not the expected list of (t, data, indexes), or the expected refusal."""
    if exp == 'err':
        return None if got[0] == 'err' else 'was not refused, and gave {}'.format(picture(got[1]))
    if got[0] == 'err':
        return 'failed: {}'.format(got)
    pic = picture(got[1])
    if len(pic) != len(exp):
        return '{} items instead of {}: {} instead of {}'.format(len(pic), len(exp), pic, exp)
    for p, e in zip(pic, exp):
        if (p != e) if exact else not (close(p[0], e[0]) and type(p[1]) is type(e[1]) and close(p[1], e[1]) and p[2] == e[2]):
            return '{} instead of {}'.format(p, e)
    if any(str(i.tz) != tz for i in got[1]):
        return 'on {} instead of {}'.format({str(i.tz) for i in got[1]}, tz)
    return None


def render(kinds, step, header, base=1571961600):
    """Text and, for each line, what it stands for: (t, data) or the kind of fault."""
    text, meaning = (['epoch,a,b'] if header else []), []
    t = base
    for n, kind in enumerate(kinds):
        a, b = n + 0.5, -n * 10.0
        row = (t, {'a': a, 'b': b})
        line = '{},{},{}'.format(t, a, b)
        line = {'g': line, 'comment': '# ' + line, 'comment2': ';' + line, 'empty': '', 'blank': '   ', 'noseparator': 'end of data', 'badvalue': '{},{},x1'.format(t, a), 'novalue': '{},,{}'.format(t, b),
                'placeholder': '{},NaN,{}'.format(t, b), 'missing': '{},{}'.format(t, a), 'short': '{},{},'.format(t, a), 'long': '{},{},{},7'.format(t, a, b), 'badtime': '12h,{},{}'.format(a, b), 'notime': ',{},{}'.format(a, b),
                'duplicate': '{},{},{}'.format(t - step, a, b), 'earlier': '{},{},{}'.format(t - 2.5 * step, a, b)}[kind]
        if kind == 'duplicate':
            row = (t - step, row[1])
        if kind == 'earlier':
            row = (t - 2.5 * step, row[1])
        meaning.append((kind, row))
        text.append(line)
        if kind not in IGNORED and kind not in ('duplicate', 'earlier'):
            t += step
    return text, meaning


def reference(meaning, skip, sort, first=()):
    """The independent reading: the items expected, or the refusal."""
    rows = list(first)
    for kind, row in meaning:
        if kind in IGNORED:
            continue
        if kind in ERRORS:
            if not skip:
                return 'err'
            continue
        rows.append(row)
    if not rows:
        return 'err'
    if sort:
        rows = sorted(rows, key=lambda r: r[0])
    out = []
    for t, data in rows:
        if out and t <= out[-1][0]:
            if not skip:
                return 'err'
            continue
        out.append((t, data, {}))
    return out


def lines(ctx, case):
    kinds = case['lines']
    last = [None] if not case['tail'] else [None] + ['g'] + FAULTS[::3]
    for tail in last:
        ks = kinds + ([tail] if tail else [])
        for header in (True, False):
            # Without a header the first line has to be good
            ks2 = ks if header else ['g'] + ks
            text, meaning = render(ks2, 60, header)
            for ending in ('\n', '\r\n'):
                if ending == '\r\n' and len(ks) > 2:
                    continue
                for final in (True, False):
                    if not final and len(ks) > 3:
                        continue
                    name = write(ending.join(text) + (ending if final else ''))
                    for skip in (False, True):
                        for sort in (False, True):
                            exp = reference(meaning, skip, sort)
                            if not header and exp != 'err':
                                exp = [(t, list(d.values()), i) for t, d, i in exp]
                            got = outcome_of(CSVFileStorage(name, skip_errors=skip, silence_errors=True, sort=sort, series_type='points').get)
                            ctx.step()
                            why = differs(got, exp)
                            ctx.check(why is None, 'lines', lambda: 'reading {!r} skipping errors {} sorting {}: {}'.format(text, skip, sort, why))
                            ctx.state((tuple(ks2), header, ending, final, skip, sort))
                            ctx.outcome(repr(exp) if exp != 'err' else ('err', tuple(ks2), skip, sort))
                            ctx.ok()
                            if len(ks) < 3 and final:
                                # Once again with the same storage, and with other ways to get the same
                                st = CSVFileStorage(name, skip_errors=skip, silence_errors=True, sort=sort)
                                for k in range(2):
                                    again = outcome_of(st.get, force_points=True)
                                    ctx.step()
                                    why = differs(again, exp)
                                    ctx.check(why is None, 'again', lambda: 'reading {!r} skipping errors {} sorting {}: {}'.format(text, skip, sort, why))
                                    ctx.ok()
            if len(ks2) > 3:
                continue
            # As slots: the duplicates are never accepted, and the missing ones are filled
            text, meaning = render(ks2, 3600, header)
            name = write('\n'.join(text) + '\n')
            for skip in (False, True):
                for sort in (False, True):
                    exp = reference(meaning, False, sort) if not skip else reference([m for m in meaning if m[0] not in ERRORS], False, sort)
                    if exp != 'err':
                        exp = filled([(t, d) for t, d, _ in exp], lambda t: t + 3600)
                    if not header and exp != 'err':
                        exp = [(t, list(d.values()), i) for t, d, i in exp]
                    got = outcome_of(CSVFileStorage(name, skip_errors=skip, silence_errors=True, sort=sort).get, force_slots=True, force_slot_unit='1h')
                    ctx.step()
                    why = differs(got, exp, exact=False)
                    ctx.check(why is None, 'slot-lines', lambda: 'reading slots from {!r} skipping errors {} sorting {}: {}'.format(text, skip, sort, why))
                    ctx.outcome(repr(exp))
                    ctx.ok()


def filled(rows, after):
    """Slots starting at the rows, with the missing ones in between."""
    out = []
    for n, (t, data) in enumerate(rows):
        if out:
            missing = []
            m = after(out[-1][0])
            while m < t - 1e-6:
                missing.append(m)
                m = after(m)
            if abs(m - t) > 1e-6:
                return 'err'
            before = rows[n - 1][1]
            for k, m in enumerate(missing):
                out.append((m, {l: before[l] + (data[l] - before[l]) * (k + 1) / (len(missing) + 1) for l in data}, {'data_loss': 1}))
        out.append((t, data, {}))
    return out


TZS = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata']
INSTANTS = [epoch(2019, 10, 26, 22), epoch(2019, 10, 27, 12, 30), epoch(2019, 12, 31, 23, 59, 59), epoch(2020, 2, 29, 0, 0, 1), epoch(2020, 3, 29, 12), epoch(2020, 7, 1)]
FORMATS = ['epoch', 'epochms', 'iso-z', 'iso-z-us', 'iso-offset', 'iso-naive', 'iso-space', 'custom', 'custom-ampm', 'date-time', 'date', 'day-first']


def formatted(kind, t, tz):
    u = datetime.fromtimestamp(t, UTC)
    z = datetime.fromtimestamp(t, ZoneInfo(tz))
    iso = '%Y-%m-%dT%H:%M:%S'
    if kind == 'epoch':
        return [str(int(t))]
    if kind == 'epochms':
        return [repr(t + 0.125)]
    if kind == 'iso-z':
        return [u.strftime(iso) + 'Z']
    if kind == 'iso-z-us':
        return [u.strftime(iso) + '.000250Z']
    if kind == 'iso-offset':
        o = z.strftime('%z')
        return [z.strftime(iso) + o[:3] + ':' + o[3:]]
    if kind == 'iso-naive':
        return [z.strftime(iso)]
    if kind == 'iso-space':
        return [z.strftime(iso).replace('T', ' ')]
    if kind == 'custom':
        return [z.strftime('%d/%m/%Y %H.%M.%S')]
    if kind == 'custom-ampm':
        return [z.strftime('%b %d %Y %I:%M:%S %p')]
    if kind == 'date-time':
        return [z.strftime('%Y%m%d'), z.strftime('%H:%M:%S')]
    if kind == 'date':
        return [z.strftime('%d-%m-%y')]
    return [z.strftime('%d/%m/%Y')]


ARGS = {'custom': dict(timestamp_format='%d/%m/%Y %H.%M.%S'), 'custom-ampm': dict(timestamp_format='%b %d %Y %I:%M:%S %p'), 'date-time': dict(date_column='day', date_format='%Y%m%d', time_column='hour', time_format='%H:%M:%S'),
        'date': dict(date_column='day', date_format='%d-%m-%y'), 'day-first': dict(timestamp_column='day', timestamp_format='%d/%m/%Y')}
EXPLICIT = {'epoch': 'epoch', 'epochms': 'epoch', 'iso-z': 'iso8601', 'iso-z-us': 'iso8601', 'iso-offset': 'iso8601', 'iso-naive': 'iso8601', 'iso-space': 'iso8601'}
SHIFT = {'epochms': 0.125, 'iso-z-us': 0.00025}


def formats(ctx, case):
    kind, tz = FORMATS[case['f']], case['tz']
    for size in (1, 2, 3):
        for picked in itertools.combinations(INSTANTS, size):
            for quote in ('', '"', "'", ' '):
                head = {'date-time': ['day', 'hour'], 'date': ['day'], 'day-first': ['day']}.get(kind, ['timestamp'])
                rows, exp = [','.join(head + ['a', 'b'])], []
                for n, t in enumerate(picked):
                    if kind in ('date', 'day-first'):
                        z = datetime.fromtimestamp(t, ZoneInfo(tz))
                        t = unwall(z.replace(hour=0, minute=0, second=0, tzinfo=None), tz)
                    rows.append(','.join(quote + x + quote for x in formatted(kind, t, tz) + [str(n + 0.25), str(-n)]))
                    exp.append((t + SHIFT.get(kind, 0), {'a': n + 0.25, 'b': float(-n)}, {}))
                if len({e[0] for e in exp}) != len(exp):
                    continue
                name = write('\n'.join(rows) + '\n')
                variants = [dict(ARGS.get(kind, {}))]
                if kind in EXPLICIT:
                    variants += [dict(timestamp_format=EXPLICIT[kind]), dict(timestamp_column='timestamp'), dict(timestamp_column=0, timestamp_format=EXPLICIT[kind])]
                for args in variants:
                    for got, on in ((outcome_of(CSVFileStorage(name, tz=tz, series_type='points', **args).get), tz), (outcome_of(TimeSeries.from_csv, name, tz=tz, series_type='points', **args), tz)) + \
                            (((outcome_of(CSVFileStorage(name, tz=tz, **args).get, force_points=True, force_tz='Europe/London'), 'Europe/London'),) if kind in ('epoch', 'iso-z', 'iso-offset') else ()):
                        ctx.step()
                        why = differs(got, exp, on)
                        ctx.check(why is None, 'format:' + kind, lambda: 'reading {} on {} with {}: {}'.format(rows, on, args, why))
                        ctx.ok()
                ctx.state((kind, tz, picked, quote))
                ctx.outcome(repr((exp, tz)))


UNITS = [('1h', (2019, 10, 26, 20)), ('15m', (2019, 10, 27, 0)), ('1D', (2019, 3, 29)), ('1D', (2019, 10, 25)), ('1M', (2019, 12, 1)), ('1Y', (2015, 1, 1))]
# Months and years of any length, which have to be detected from a few items as well
SOME = len(UNITS)
UNITS += [('1M', (2019 + m // 12, m % 12 + 1, 1)) for m in range(24)] + [('1Y', (y, 1, 1)) for y in range(2016, 2020)]


def gaps(ctx, case):
    unit, date = UNITS[case['unit']]
    n = case['n']
    for tz in TZS[:3] if case['unit'] < SOME else ['UTC']:
        t0 = epoch(*date, tz=tz)
        after = lambda t: ref_shift(t, unit, tz)
        starts = [t0]
        for k in range(n - 1):
            starts.append(after(starts[-1]))
        for present in itertools.product((True, False), repeat=n - 2):
            present = (True,) + present + (True,)
            rows = [(t, {'a': float(2 ** k), 'b': -3.0 * k}) for k, (t, p) in enumerate(zip(starts, present)) if p]
            exp = filled(rows, after)
            assert len(exp) == n
            for index in (False, True):
                text = ['epoch,a,b' + (',__data_loss,__x' if index else '')] + ['{},{},{}'.format(t, d['a'], d['b']) + (',0.25,None' if index else '') for t, d in rows]
                e = [(t, d, {'data_loss': 0.25} if index and not i else i) for t, d, i in exp]
                name = write('\n'.join(text) + '\n')
                ways = [dict(force_slots=True, force_slot_unit=unit), dict(force_slots=True, force_slot_unit=TimeUnit(unit))]
                d = [b[0] - a[0] for a, b in zip(rows, rows[1:])]
                first = [x for x in d if any(x == b - a for a, b in zip(starts, starts[1:]))]
                if len(first) == len(d) or any(d.count(x) > 1 and all(d.count(y) < d.count(x) for y in d if y != x) for x in first):
                    # The unit can be detected
                    ways.append(dict(force_slots=True))
                    if unit[-1] in 'DMY':
                        ways.append({})
                for way in ways:
                    got = outcome_of(CSVFileStorage(name, tz=tz).get, **way)
                    ctx.step()
                    why = differs(got, e, tz, exact=False)
                    if why is None and not all(isinstance(i, DataTimeSlot) and i.unit == TimeUnit(unit) and close(i.end.t, after(i.start.t)) for i in got[1]):
                        why = 'items {}'.format([str(i) for i in got[1]])
                    ctx.check(why is None, 'gaps', lambda: 'reading {} slots on {} from {} with {}: {}'.format(unit, tz, text, way, why))
                    ctx.state((unit, tz, present, index, str(way)))
                    ctx.outcome(repr((unit, tz, e)))
                    ctx.ok()
                # As points nothing is filled
                got = outcome_of(CSVFileStorage(name, tz=tz).get, force_points=True)
                ctx.step()
                why = differs(got, [(t, d, {'data_loss': 0.25} if index else {}) for t, d in rows], tz)
                ctx.check(why is None, 'gaps-points', lambda: 'reading points from {}: {}'.format(text, why))
                ctx.ok()
        # Off the grid: nothing can be put in between
        rows = [(t, {'a': 1.0}) for t in starts]
        for k in range(1, n):
            text = ['epoch,a'] + ['{},1'.format(t + (7 if i == k else 0)) for i, (t, d) in enumerate(rows)]
            got = outcome_of(CSVFileStorage(write('\n'.join(text)), tz=tz).get, force_slots=True, force_slot_unit=unit)
            ctx.step()
            ctx.check(got[0] == 'err', 'gaps-off', lambda: 'reading {} slots from {} gave {}'.format(unit, text, picture(got[1])))
            ctx.ok()


def columns(ctx, case):
    """Columns in any order, any of them empty or with an empty label, chosen by name or by number."""
    names = ['when', 'a', 'b', 'c']
    order = case['order']
    when = order.index(0)
    rows = [[1000 + 60 * k, 1.5 * k, -2.0 * k, 100.0 + k] for k in range(3)]
    for unnamed in (None, 1, 2, 3):
        for extra in (False, True):
            head = [names[i] if i != unnamed else '' for i in order] + (['epoch'] if extra else [])
            body = [[str(r[i]) for i in order] + ([str(77 + k)] if extra else []) for k, r in enumerate(rows)]
            text = [','.join(head)] + [','.join(b) for b in body]
            name = write('\n'.join(text) + '\n')
            labels = [l for l in names[1:] if names.index(l) != unnamed]
            full = labels + (['epoch'] if extra else [])
            value = lambda k, l: 77.0 + k if l == 'epoch' else rows[k][names.index(l)]
            for column in ('when', when):
                for size in range(0, len(full) + 1):
                    for chosen in itertools.permutations(full, size):
                        keep = list(chosen) or full
                        exp = [(r[0], {l: value(k, l) for l in keep}, {}) for k, r in enumerate(rows)]
                        base = dict(timestamp_column=column, series_type='points')
                        ways = [lambda: CSVFileStorage(name, **base, **(dict(data_labels=list(chosen)) if chosen else {})).get(),
                                lambda: CSVFileStorage(name, **base).get(filter_data_labels=list(chosen))]
                        for w, way in enumerate(ways):
                            got = outcome_of(way)
                            ctx.step()
                            why = differs(got, exp)
                            ctx.check(why is None, 'columns', lambda: 'reading {} with {} and labels {}: {}'.format(text, base, chosen, why))
                            ctx.ok()
                        ctx.state((tuple(order), unnamed, extra, column, chosen))
                        ctx.outcome(repr(exp))
                        if chosen:
                            # By number, as lists
                            positions = [head.index(l) for l in chosen]
                            got = outcome_of(CSVFileStorage(name, **base, data_labels=positions).get)
                            ctx.step()
                            why = differs(got, [(t, [d[l] for l in chosen], i) for t, d, i in exp])
                            ctx.check(why is None, 'columns-number', lambda: 'reading {} with {} and columns {}: {}'.format(text, base, positions, why))
                            ctx.ok()
                for missing in (['zz'], ['a', 'zz']):
                    got = outcome_of(CSVFileStorage(name, timestamp_column=column, series_type='points', data_labels=missing).get)
                    ctx.step()
                    ctx.check(got[0] == 'err', 'columns-missing', lambda: 'reading the labels {} from {} gave {}'.format(missing, text, got))
                    ctx.ok()
            got = outcome_of(CSVFileStorage(name, timestamp_column='nope', series_type='points').get)
            ctx.check(got[0] == 'err', 'columns-missing', lambda: 'reading {} with a missing timestamp column gave {}'.format(text, got))
            if when == 0 and not extra:
                # Autodetected
                got = outcome_of(CSVFileStorage(name, series_type='points').get)
                ctx.step()
                why = differs(got, [(r[0], {l: value(k, l) for l in full}, {}) for k, r in enumerate(rows)])
                ctx.check(why is None, 'columns', lambda: 'reading {}: {}'.format(text, why))
            # Without the header, as lists
            if unnamed is None and not extra:
                bare = write('\n'.join(text[1:]) + '\n')
                got = outcome_of(CSVFileStorage(bare, timestamp_column=when, series_type='points').get)
                ctx.step()
                why = differs(got, [(r[0], [r[i] for i in order if i], {}) for r in rows])
                ctx.check(why is None, 'columns-bare', lambda: 'reading {}: {}'.format(text[1:], why))
                ctx.ok()


def encodings(ctx, case):
    for label in ('temperatura è', '°C', '\u6e29\u5ea6', 'a'):
        text = 'epoch,{},b\n'.format(label) + ''.join('{},{},1\n'.format(60 * k, k) for k in range(3))
        exp = [(60.0 * k, {label: float(k), 'b': 1.0}, {}) for k in range(3)]
        for encoding in ('utf-8', 'utf-8-sig', 'utf-16', 'latin-1', 'cp1252'):
            try:
                name = write(text, encoding)
            except UnicodeEncodeError:
                continue
            for given in (encoding, 'auto'):
                if given == 'auto' and encoding not in ('utf-8', 'utf-8-sig', 'utf-16'):
                    continue
                st = CSVFileStorage(name, encoding=given, series_type='points')
                for k in range(2):
                    got = outcome_of(st.get)
                    ctx.step()
                    why = differs(got, exp)
                    ctx.check(why is None, 'encoding', lambda: 'reading {!r} in {} as {}: {}'.format(text, encoding, given, why))
                    ctx.ok()
                ctx.state((label, encoding, given))
                ctx.outcome((label, encoding))


def values(ctx, case):
    good = {'1': 1, '-1.5': -1.5, '1e3': 1000, '+7': 7, '.5': 0.5, '5.': 5, '007': 7, ' 3 ': 3, '"4"': 4, "'4.5'": 4.5, '1E-3': 0.001, '\t8': 8, '123456789.987654321': 123456789.987654321, '0': 0, '-0': 0}
    bad = ['', ' ', 'x', '1.2.3', '1 2', '--1', '0x10', 'NaN', 'nan', 'NA', 'n.a.', 'null', 'ND', 'undef', '#REF', '1%', 'one', '""', '1;2']
    for sep in (',', ';', '\t', '|'):
        for pos in range(3):
            for v in list(good) + (['1,5', '-0,25'] if sep != ',' else []) + bad:
                if sep in v:
                    continue
                rows = ['epoch{0}a{0}b'.format(sep)] + [sep.join([str(60 * k), v if k == pos else '9', '2']) for k in range(3)]
                name = write('\n'.join(rows) + '\n')
                x = good[v] if v in good else (None if v in bad else float(v.replace(',', '.')))
                exp = [(60.0 * k, {'a': float(x) if k == pos else 9.0, 'b': 2.0}, {}) for k in range(3)] if x is not None else 'err'
                for skip in (False, True):
                    e = exp if exp != 'err' or not skip else [(60.0 * k, {'a': 9.0, 'b': 2.0}, {}) for k in range(3) if k != pos]
                    got = outcome_of(CSVFileStorage(name, separator=sep, comment_chars=['#'], skip_errors=skip, series_type='points').get)
                    ctx.step()
                    why = differs(got, e)
                    ctx.check(why is None, 'values', lambda: 'reading {} skipping errors {}: {}'.format(rows, skip, why))
                    ctx.state((sep, pos, v, skip))
                    ctx.outcome((v, skip, pos))
                    ctx.ok()


def limits(ctx, case):
    """Only the first good lines, in the order of the file."""
    text, meaning = render(case['lines'] + ['g'], 60, True)
    name = write('\n'.join(text) + '\n')
    for limit in range(0, len(text) + 1):
        for skip in (False, True):
            kept, exp = [], None
            for m in meaning:
                if limit and len(kept) == limit:
                    break
                if m[0] in ERRORS and not skip:
                    exp = 'err'
                    break
                if m[0] == 'g':
                    kept.append(m)
            exp = exp or reference(kept, skip, False)
            for sort in (False, True):
                got = outcome_of(CSVFileStorage(name, skip_errors=skip, silence_errors=True, sort=sort).get, limit=limit or None, force_points=True)
                ctx.step()
                why = differs(got, exp)
                ctx.check(why is None, 'limits', lambda: 'reading {} of {!r} skipping errors {}: {}'.format(limit, text, skip, why))
                ctx.state(('limits', tuple(case['lines']), limit, skip, sort))
                ctx.outcome(repr(exp))
                ctx.ok()


def sorting(ctx, case):
    """Every order of the lines, also with timestamps of less than a second or negative."""
    n = case['n']
    for grid in ([0.25 * k for k in range(n)], [-1.5 * k for k in range(n)], [1e9 + 60 * k for k in range(n)], [0, 0.001, 1, 1.5, 10][:n], [9, 10, 100, 1000, 20][:n]):
        for order in itertools.permutations(range(n)):
            rows = [(grid[i], {'a': float(i), 'b': -0.5 * i}, {}) for i in order]
            text = ['epoch,a,b'] + ['{!r},{},{}'.format(t, d['a'], d['b']) for t, d, _ in rows]
            name = write('\n'.join(text) + '\n')
            ordered = sorted(rows, key=lambda r: r[0])
            for sort in (True, False):
                exp = ordered if sort or rows == ordered else 'err'
                for way in (lambda: CSVFileStorage(name, sort=sort, series_type='points').get(), lambda: CSVFileStorage(name, sort=sort).get(force_points=True), lambda: TimeSeries.from_csv(name, sort=sort, series_type='points')):
                    got = outcome_of(way)
                    ctx.step()
                    why = differs(got, exp)
                    ctx.check(why is None, 'sorting', lambda: 'reading {} sorting {}: {}'.format(text, sort, why))
                    ctx.ok()
            ctx.state(('sorting', n, tuple(grid), order))
            ctx.outcome(repr((ordered, order)))


def options(ctx, case):
    """Comment characters, types of the data, and columns of indexes."""
    sep = case['sep']
    for chars in (['#'], ['#', ';'], ['%'], ['/', '*'], []):
        if sep in chars or sep[0] in chars:
            continue
        for mark in ('#', ';', '%', '*', '/'):
            if mark == sep:
                continue
            for at in range(4):
                text = ['epoch{0}a{0}b'.format(sep)] + [sep.join([str(60 * k), str(k + 0.5), '-1']) for k in range(3)]
                text.insert(at, '{}60{}1{}1'.format(mark, sep, sep))
                name = write('\n'.join(text) + '\n')
                exp = [(60.0 * k, {'a': k + 0.5, 'b': -1.0}, {}) for k in range(3)]
                if mark not in chars:
                    if at == 0:
                        # It is the header, and the actual header is then not a line of data
                        continue
                    exp = 'err'
                got = outcome_of(CSVFileStorage(name, separator=sep, comment_chars=chars, series_type='points').get)
                ctx.step()
                why = differs(got, exp)
                ctx.check(why is None, 'comments', lambda: 'reading {} with comments {}: {}'.format(text, chars, why))
                ctx.state(('comments', sep, tuple(chars), mark, at))
                ctx.ok()
    for labels in (('a',), ('a', 'b'), ('b', 'a', 'c')):
        for header in (True, False):
            rows = [(60.0 * k, [k + 0.5 * i for i in range(len(labels))]) for k in range(3)]
            text = ([sep.join(('epoch',) + labels)] if header else []) + [sep.join(str(x) for x in [t] + v) for t, v in rows]
            name = write('\n'.join(text) + '\n')
            for kind in (list, dict, 'auto'):
                if kind is dict and not header:
                    continue
                exp = [(t, dict(zip(labels, v)) if (kind is dict or kind == 'auto' and header) else v, {}) for t, v in rows]
                for force in (dict(force_points=True), dict(force_slots=True, force_slot_unit='1m'), dict(force_slots=True)):
                    got = outcome_of(CSVFileStorage(name, separator=sep, data_type=kind).get, **force)
                    ctx.step()
                    why = differs(got, exp)
                    if why is None and any(isinstance(i, Slot) != ('force_slots' in force) for i in got[1]):
                        why = 'items {}'.format([str(i) for i in got[1]])
                    ctx.check(why is None, 'types', lambda: 'reading {} as {} with {}: {}'.format(text, kind, force, why))
                    ctx.state(('types', sep, labels, header, str(kind), str(force)))
                    ctx.outcome(repr((exp, force)))
                    ctx.ok()
            got = outcome_of(CSVFileStorage(name, separator=sep).get, force_points=True, force_slots=True)
            ctx.check(got[0] == 'err', 'types', lambda: 'reading as both points and slots gave {}'.format(got))
    # Columns of indexes, with or without a value, and selecting the labels
    for pattern in itertools.product(('0', '0.5', '1', 'None', ''), repeat=3):
        rows = [(60.0 * k, {'a': k + 0.5, 'b': -1.0 * k}, p) for k, p in enumerate(pattern)]
        text = [sep.join(['epoch', 'a', '__data_loss', 'b'])] + [sep.join([repr(t), repr(d['a']), p, repr(d['b'])]) for t, d, p in rows]
        name = write('\n'.join(text) + '\n')
        exp = [(t, d, {'data_loss': float(p)} if p not in ('None', '') else {}) for t, d, p in rows]
        got = outcome_of(CSVFileStorage(name, separator=sep, series_type='points').get)
        ctx.step()
        why = differs(got, exp)
        ctx.check(why is None, 'indexes', lambda: 'reading {}: {}'.format(text, why))
        got = outcome_of(CSVFileStorage(name, separator=sep, series_type='points').get, filter_data_labels=['b', '__data_loss'])
        ctx.step()
        why = differs(got, [(t, {'b': d['b']}, i) for t, d, i in exp])
        ctx.check(why is None, 'indexes', lambda: 'reading only b and the data losses of {}: {}'.format(text, why))
        ctx.state(('indexes', sep, pattern))
        ctx.outcome(repr(exp))
        ctx.ok(2)


def quoted(ctx, case):
    """Quoted records, also containing the separator or a quote of the other kind."""
    sep = case['sep']
    for quote in ('"', "'"):
        for which in itertools.product((False, True), repeat=3):
            q = lambda x, k: quote + x + quote if which[k] else x
            for label in ('a', 'a b', 'a' + sep + 'b', 'x' + sep, sep + 'x', 'm ({})'.format(sep)):
                if sep in label and not which[1] or label.strip() != label:
                    continue
                for value, x in (('1.5', 1.5), ('-2', -2.0), ('1,5', 1.5)):
                    if sep in value and not which[1]:
                        continue
                    text = [sep.join([q('epoch', 0), q(label, 1), q('z', 2)])] + [sep.join([q(str(60 * k), 0), q(value, 1), q(str(k), 2)]) for k in range(3)]
                    name = write('\n'.join(text) + '\n')
                    exp = [(60.0 * k, {label.replace('\t', ' '): x, 'z': float(k)}, {}) for k in range(3)]
                    got = outcome_of(CSVFileStorage(name, separator=sep, comment_chars=['#'], series_type='points').get)
                    ctx.step()
                    why = differs(got, exp)
                    ctx.check(why is None, 'quoted', lambda: 'reading {}: {}'.format(text, why))
                    ctx.state(('quoted', sep, quote, which, label, value))
                    ctx.outcome(repr(exp))
                    ctx.ok()
