"""N01: what is computed for a period does not depend on how long the series is."""
import math
import os
import statistics
import warnings
from mc import core
from mc.lib import *
from timeseria.interpolators import UniformInterpolator
from timeseria.transformations import Resampler, Aggregator
from timeseria.operations import avg, min as min_, max as max_, sum as sum_
from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.models.reconstructors import PeriodicAverageReconstructor, LinearInterpolationReconstructor
from timeseria.models.anomaly_detectors import PeriodicAverageAnomalyDetector
from timeseria.storages import CSVFileStorage

PROPERTY = 'N01'
LEVEL = 'model_checking'
RULE = ('every length of series (all of the short ones, and around the powers of two and the round numbers), kind of series (points with gaps, points and slots across a change of offset, days) and function: each item of the result on the whole series is compared with the one '
        'on a part of it containing the items around, for parts covering all of the series; totals, searches, slices, cumulative operations and models are compared with those computed from the plain values. A non-trivial outcome is a distinct result')
ASSUMPTIONS = ['the results on short series are right, as decided by the other properties']
BOUNDS = {'quick': '6 kinds of series, 33 functions, lengths from 2 to 40, around the powers of two from 64 to 1024, and of 100 and 1000', 'thorough': '6 kinds of series, 33 functions, lengths from 2 to 130, around the powers of two from 256 to 4096, and of 500, 1000, 2000 and 5000'}
CHUNK = 1
TIMEOUT = 800
ROME = 'Europe/Rome'
warnings.simplefilter('ignore')
KINDS = {'minutes': ('points', 600, 86400 * 17897, None), 'hours': ('points', 3600, epoch(2019, 3, 30, 5, tz=ROME), ROME), 'hslots': ('slots', '1h', epoch(2019, 10, 26, 5, tz=ROME), ROME), 'days': ('slots', '1D', epoch(2018, 12, 30, tz=ROME), ROME)}
# Sparser and sparser, or denser and denser
UNEVEN = {'sparser': ('points', None, 0, None), 'denser': ('points', None, 0, None)}
KINDS.update(UNEVEN)
LENGTHS = {'quick': [63, 65, 100, 101, 127, 129, 255, 257, 511, 513, 1000, 1001, 1023, 1025], 'thorough': [255, 256, 257, 499, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2001, 2047, 2049, 4095, 4097, 5000, 5001]}
SHORT = {'quick': 40, 'thorough': 130}


def value(i, k):
    return ((i * 7919 + k * 31) % 101) / 4 - 5 * k + 0.0625


def loss(i):
    return 1 if i % 19 in (7, 8, 9) else 0.25 if i % 7 == 3 else 0


STARTS = {}


def at(kind, i):
    what, step, start, tz = KINDS[kind]
    if kind in UNEVEN:
        return 60 * i * i if kind == 'sparser' else int(60000 * math.sqrt(i))
    if kind == 'days':
        ts = STARTS.setdefault(kind, [start])
        while len(ts) <= i:
            ts.append(ref_shift(ts[-1], step, tz))
        return ts[i]
    return start + (600 if kind == 'minutes' else 3600) * i


def present(kind, n, gaps):
    return [i for i in range(n) if not (gaps and kind == 'minutes' and i % 41 in (20, 21))]


def part(kind, indexes, losses=False, only_a=False):
    """A series with the items in the given positions."""
    what, step, start, tz = KINDS[kind]
    rows = [(value(i, 0), value(i, 1))[:1 if only_a else 2] for i in indexes]
    labels = ('a',) if only_a else ('a', 'b')
    lost = [loss(i) for i in indexes] if losses else None
    if what == 'points':
        return points([at(kind, i) for i in indexes], rows, labels=labels, tz=tz, losses=lost)
    return slots(at(kind, indexes[0]), step, rows, labels=labels, tz=tz, losses=lost)


def file(name='n01'):
    return '{}/{}-{}.csv'.format(core.scratch(), name, os.getpid())


def csv(s):
    s.save(file(), overwrite=True)
    return TimeSeries.load(file())


def through_json(s):
    return TimeSeries.from_json(s.to_json())


def renamed(s):
    s = s.duplicate()
    s.rename_data_label('a', 'c')
    return s


def zoned(s):
    s = s.duplicate()
    s.change_tz('America/New_York')
    return s


def increments(fn):
    """Of cumulative values."""
    def use(s):
        out = list(fn(s))
        return [(b.start.t if isinstance(b, Slot) else b.t, {k: b.data[k] - a.data[k] for k in b.data}) for a, b in zip(out, out[1:])]
    return use


def merged(s):
    other = s.duplicate()
    other.rename_data_label('a', 'c')
    other.rename_data_label('b', 'd')
    other.rescale(3, inplace=True)
    return s.merge(other)


def inplace(name, *a, **k):
    def use(s):
        s = s.duplicate()
        getattr(s, name)(*a, inplace=True, **k)
        return s
    return use


def sliced(s):
    return s.slice(from_t=s[0].t + 1, to_t=s[-1].t)


# What is done, on series with gaps and losses (if any), and how many items next to the extremes are left out of the comparison
BOTH, POINTS = ('minutes', 'hours', 'hslots', 'days'), ('minutes', 'hours')
FUNCTIONS = {
    'diff': (lambda s, k: s.diff(), 1, BOTH), 'derivative': (lambda s, k: s.derivative(), 1, BOTH), 'csum': (lambda s, k: increments(lambda x: x.csum())(s), 1, BOTH),
    'mavg(2)': (lambda s, k: s.mavg(2), 2, BOTH), 'mavg(5)': (lambda s, k: s.mavg(5), 5, BOTH), 'normalize': (lambda s, k: s.normalize(range=[-1, 3], source_range={'a': [-10, 40], 'b': [-20, 50]}), 0, BOTH),
    'rescale': (lambda s, k: s.rescale(2.5), 0, BOTH), 'offset': (lambda s, k: s.offset({'a': -7, 'b': 1}), 0, BOTH), 'rescale in place': (lambda s, k: inplace('rescale', 2.5)(s), 0, BOTH), 'offset in place': (lambda s, k: inplace('offset', 3)(s), 0, BOTH),
    'filter': (lambda s, k: s.filter('b'), 0, BOTH), 'label': (lambda s, k: s['a'], 0, BOTH), 'duplicate': (lambda s, k: s.duplicate(), 0, BOTH), 'items': (lambda s, k: [i for i in s], 0, BOTH), 'view': (lambda s, k: [i for i in s.view(0, len(s))], 0, BOTH),
    'slice': (lambda s, k: s.slice(from_i=1, to_i=len(s) - 1), 1, BOTH), 'slice(t)': (lambda s, k: sliced(s), 1, BOTH), '[:]': (lambda s, k: s[1:-1], 1, BOTH), 'merge': (lambda s, k: merged(s), 0, BOTH), 'rename': (lambda s, k: renamed(s), 0, BOTH),
    'change tz': (lambda s, k: zoned(s), 0, BOTH), 'csv': (lambda s, k: csv(s), 0, BOTH), 'json': (lambda s, k: through_json(s), 0, BOTH), 'df': (lambda s, k: TimeSeries.from_df(s.to_df()), 0, ('minutes', 'hours')),
    'losses': (lambda s, k: [(i.start.t if isinstance(i, Slot) else i.t, {'loss': i.data_loss}) for i in s], 0, BOTH),
    'resample': (lambda s, k: s.resample(600 if k == 'minutes' else 3600), 8, POINTS), 'upsample': (lambda s, k: s.resample(300 if k == 'minutes' else 1200), 8, POINTS), 'downsample': (lambda s, k: s.resample(1200 if k == 'minutes' else 1800), 8, POINTS),
    'uniform': (lambda s, k: Resampler('10m' if k == 'minutes' else '30m', interpolator_class=UniformInterpolator).process(s), 8, POINTS),
    'aggregate': (lambda s, k: s.aggregate('1h'), 9, POINTS), 'aggregate(ops)': (lambda s, k: Aggregator('30m' if k == 'minutes' else '1h', operations=[min_, max_, sum_, avg]).process(s), 9, POINTS),
    'aggregate(D)': (lambda s, k: s.aggregate('1D') if k != 'minutes' else s.aggregate('2h'), 26, POINTS),
    'interpolate': (lambda s, k: LinearInterpolationReconstructor().apply(s), 4, BOTH),
}
WIDTH = 72
# On these the text of each item is compared as well
EVEN = ('merge', 'interpolate', 'diff', 'csum', 'mavg(2)', 'mavg(5)')
TEXT = ('items', 'csv', 'json')


def cases(tier):
    for name, (_, _, kinds) in FUNCTIONS.items():
        for kind in kinds:
            for lengths in [list(range(2, SHORT[tier] + 1))] + split(LENGTHS[tier]):
                yield dict(what='local', name=name, kind=kind, lengths=lengths)
    for kind in KINDS:
        for lengths in split(list(range(2, SHORT[tier] + 1)), 4) + split(LENGTHS[tier]):
            yield dict(what='totals', kind=kind, lengths=lengths)
            yield dict(what='access', kind=kind, lengths=lengths)
            if kind not in UNEVEN:
                yield dict(what='models', kind=kind, lengths=lengths)


def split(lengths, parts=2):
    return [lengths[k::parts] for k in range(parts)]


def run(ctx, case):
    globals()[case['what']](ctx, **{k: v for k, v in case.items() if k != 'what'})


def table(result, text=False):
    """By time, what is in each item."""
    out = {}
    for i in result:
        if isinstance(i, tuple):
            out[i[0]] = (i[1],)
        else:
            t = i.start.t if isinstance(i, Slot) else i.t
            assert t not in out, 'two items at {}'.format(t)
            out[t] = (dict(i.data), dict(i.data_indexes), str(i.tz), i.end.t if isinstance(i, Slot) else None) + ((str(i),) if text else ())
    return out


def equal(a, b):
    return len(a) == len(b) and all(close(x, y, 1e-9, 1e-7) for x, y in zip(a, b))


def local(ctx, name, kind, lengths):
    fn, margin, _ = FUNCTIONS[name]
    gaps = name not in EVEN
    margin += 2 * gaps
    cache = {}
    for n in lengths:
        for losses in (False, True):
            if name == 'interpolate' and losses and loss(n - 1) == 1:
                # Nothing to interpolate with
                continue
            where = lambda: '{} on {} {}{}'.format(name, n, kind, ' with losses' if losses else '')
            ids = present(kind, n, gaps)
            s = part(kind, ids, losses)
            before = snap(s)
            got = outcome_of(lambda: table(fn(s, kind), name in TEXT))
            ctx.step()
            ctx.check(snap(s) == before, 'source', lambda: '{}: changed the series'.format(where()))
            if n <= WIDTH:
                # The longer one against the shorter one
                if got[0] == 'err':
                    ctx.check(n < 2 * margin + 4, 'error', lambda: '{}: {}'.format(where(), got))
                    continue
                lo, hi = at(kind, ids[0]), at(kind, max(0, n - 1 - margin))
                if (losses,) in cache:
                    previous, top = cache[(losses,)]
                    for t in previous:
                        if t < top:
                            ctx.check(t in got[1] and equal(got[1][t], previous[t]), 'local', lambda: '{}: at {}, {} instead of {}'.format(where(), t, got[1].get(t), previous[t]))
                cache[(losses,)] = (got[1], hi)
                ctx.state((name, kind, n, losses))
                ctx.outcome(repr(sorted(got[1])))
                ctx.ok()
                continue
            if not ctx.check(got[0] == 'ok', 'error', lambda: '{}: {}'.format(where(), got)):
                continue
            seen = {}
            stride = WIDTH - 2 * margin - 8
            a = 0
            while True:
                last = a + WIDTH >= n
                a0 = max(0, n - WIDTH) if last else a
                b = min(n, a0 + WIDTH)
                while losses and a0 and loss(a0) == 1:
                    a0 -= 1
                while losses and b < n and loss(b - 1) == 1:
                    b += 1
                key = (losses, a0, b)
                if key not in cache:
                    sub = [i for i in ids if a0 <= i < b]
                    cache[key] = table(fn(part(kind, sub, losses), kind), name in TEXT)
                    ctx.step()
                lo = -math.inf if a0 == 0 else at(kind, a0 + margin)
                hi = math.inf if b == n else at(kind, b - 1 - margin)
                for t, v in cache[key].items():
                    if lo < t < hi:
                        seen[t] = v
                if last:
                    break
                a += stride
            missing = [t for t in seen if t not in got[1]]
            extra = [t for t in got[1] if t not in seen]
            ctx.check(not missing and not extra, 'items', lambda: '{}: not there {}, and not to be there {}'.format(where(), missing[:5], extra[:5]))
            ctx.check(list(got[1]) == sorted(got[1]), 'order', lambda: '{}: not in order'.format(where()))
            for t, v in seen.items():
                if t in got[1]:
                    if not ctx.check(equal(got[1][t], v), 'local', lambda: '{}: at {}, {} instead of {}'.format(where(), t, got[1][t], v)):
                        break
            ctx.state((name, kind, n, losses))
            ctx.outcome((name, kind, n, losses, len(seen)))
            ctx.ok()


def totals(ctx, kind, lengths):
    """Over the whole series."""
    for n in lengths:
        ids = present(kind, n, True)
        s = part(kind, ids)
        where = lambda: '{} {}'.format(n, kind)
        columns = {'a': [value(i, 0) for i in ids], 'b': [value(i, 1) for i in ids]}
        plain = present(kind, n, False)
        whole = part(kind, plain)
        for name, fn, ref in (('max', lambda: s.max(), max), ('min', lambda: s.min(), min), ('sum', lambda: s.sum(), math.fsum)):
            got = outcome_of(fn)
            ctx.check(got[0] == 'ok' and close(got[1], {l: ref(v) for l, v in columns.items()}), name, lambda: '{} of {}: {}'.format(name, where(), got))
            ctx.step()
        # With no gaps, and slots all of the same length, the average is the mean
        if kind != 'days' and kind not in UNEVEN:
            got = outcome_of(whole.avg)
            exp = {}
            for k, l in enumerate('ab'):
                v = [value(i, k) for i in plain]
                exp[l] = math.fsum(v) / n
                if KINDS[kind][0] == 'points':
                    mid = math.fsum((x + y) / 2 for x, y in zip(v, v[1:])) / (n - 1)
                    exp[l] = mid
            ok = got[0] == 'ok' and close(got[1], exp)
            alternative = got[0] == 'ok' and close(got[1], {l: math.fsum(value(i, k) for i in plain) / n for k, l in enumerate('ab')})
            ctx.check(ok or alternative, 'avg', lambda: 'average of {}: {} instead of {}'.format(where(), got, exp))
        for l, k in (('a', 0), ('b', 1)):
            low, high = min(columns[l]), max(columns[l])
            if low == high:
                continue
            got = outcome_of(s.normalize)
            if max(columns['a']) > min(columns['a']) and max(columns['b']) > min(columns['b']):
                ctx.check(got[0] == 'ok' and close([i.data[l] for i in got[1]], [(v - low) / (high - low) for v in columns[l]]), 'normalize', lambda: 'normalizing {}: {}'.format(where(), got))
            got = outcome_of(whole.csum)
            if kind in UNEVEN:
                ctx.check(n < 3 or got[0] == 'err', 'csum', lambda: 'cumulative sum of {}: {}'.format(where(), got))
                continue
            run_, out = 0, []
            for i in plain:
                run_ += value(i, k)
                out.append(run_)
            values = [i.data.get(l + '_csum', i.data.get(l)) for i in got[1]] if got[0] == 'ok' else None
            ctx.check(values is not None and close(values, out, 1e-9, 1e-6), 'csum', lambda: 'cumulative sum of {}: {} instead of {}'.format(where(), values, out))
            ctx.step(2)
        ctx.state((kind, n))
        ctx.outcome((kind, n, repr(columns['a'][-1])))
        ctx.ok()


def access(ctx, kind, lengths):
    """Every item, by position and by time, and slices between any of several positions."""
    for n in lengths:
        ids = present(kind, n, True)
        s = part(kind, ids)
        where = lambda: '{} {}'.format(n, kind)
        items = s.contents() if hasattr(s, 'contents') else list(s)
        m = len(ids)
        ts = [at(kind, i) for i in ids]
        ctx.check(len(s) == m and [value(i, 0) for i in ids] == [i.data['a'] for i in items], 'contents', lambda: 'contents of {}'.format(where()))
        positions = range(m) if m <= 80 else sorted({p for p in list(range(0, m, 37)) + [m - 1, m - 2, 1, 2, 63, 64, m // 2]})
        for p in positions:
            ok = s[p].data['a'] == value(ids[p], 0) and s[p - m].data['a'] == value(ids[p], 0)
            got = outcome_of(s.get, at_t=ts[p])
            ok = ok and got[0] == 'ok' and got[1].data['a'] == value(ids[p], 0)
            if kind == 'minutes':
                ok = ok and outcome_of(s.get, at_t=ts[p] + 1)[0] == 'err'
            ctx.check(ok, 'get', lambda: 'item {} of {}: {}'.format(p, where(), got))
            ctx.check(s.index(s[p]) == p and s[p] in s, 'index', lambda: 'index of item {} of {}'.format(p, where()))
            ctx.step(3)
        few = sorted({0, 1, m // 3, m // 2, m - 1, max(0, m - 64), min(m - 1, 64)})
        for a in few:
            for b in few:
                if a >= b:
                    continue
                for name, got in (('positions', outcome_of(s.slice, from_i=a, to_i=b)), ('times', outcome_of(s.slice, from_t=ts[a], to_t=ts[b])), ('view', outcome_of(lambda: list(s.view(a, b)))), ('[]', outcome_of(lambda: s[a:b]))):
                    ctx.step()
                    ok = got[0] == 'ok' and [i.data['a'] for i in got[1]] == [value(i, 0) for i in ids[a:b]]
                    ctx.check(ok, 'slice', lambda: 'slice by {} from {} to {} of {}: {}'.format(name, a, b, where(), got))
        # What follows is accepted, what does not is refused
        i = ids[-1] + 1
        new = part(kind, [i])[0]
        for name, bad in (('repeated', part(kind, [ids[-1]])[0]), ('before', part(kind, [ids[0]])[0]), ('other labels', points([at(kind, i)], [(1,)], tz=KINDS[kind][3])[0] if KINDS[kind][0] == 'points' else slots(at(kind, i), KINDS[kind][1], [(1,)], tz=KINDS[kind][3])[0])):
            got = outcome_of(s.append, bad)
            ctx.check(got[0] == 'err' and len(s) == m, 'append', lambda: '{} item appended to {}: {}'.format(name, where(), got))
        got = outcome_of(s.append, new)
        ctx.check(got[0] == 'ok' and len(s) == m + 1 and s[-1].data == new.data, 'append', lambda: 'appending to {}: {}'.format(where(), got))
        ctx.step(4)
        ctx.state((kind, n))
        ctx.outcome((kind, m))
        ctx.ok()


def models(ctx, kind, lengths):
    """Averages over the whole series, and forecasts which are the same however many items come before or are forecasted."""
    period = 8
    for n in lengths:
        if n < 2 * period:
            continue
        where = lambda: '{} {}'.format(n, kind)
        ids = list(range(n))
        s = part(kind, ids, only_a=True)
        m = PeriodicAverageForecaster()
        got = outcome_of(m.fit, s, periodicity=period)
        ctx.step()
        if not ctx.check(got[0] == 'ok', 'fit', lambda: 'fitting on {}: {}'.format(where(), got)):
            continue
        steps = min(n, 200)
        long = outcome_of(m.apply, s, steps=steps)
        ctx.step()
        if not ctx.check(long[0] == 'ok' and len(long[1]) == n + steps, 'apply', lambda: '{} steps after {}: {}'.format(steps, where(), long if long[0] == 'err' else len(long[1]))):
            continue
        ctx.check([(i.start.t if isinstance(i, Slot) else i.t) for i in long[1]] == [at(kind, i) for i in range(n + steps)], 'apply', lambda: '{} steps after {}: not at the right times'.format(steps, where()))
        ahead = [i.data for i in list(long[1])[n:]]
        for k in sorted({1, 2, period, steps // 2}):
            got = outcome_of(m.predict, s, steps=k)
            data = got[1] if got[0] == 'ok' and isinstance(got[1], list) else [got[1]]
            ctx.step()
            ctx.check(got[0] == 'ok' and all(close(x, y) for x, y in zip(data, ahead)) and len(data) == k, 'steps', lambda: '{} steps after {}: {} instead of {}'.format(k, where(), got, ahead[:k]))
        # Without changes of offset the forecast repeats itself, with the shape of the averages
        if kind == 'minutes':
            for k in range(steps - period):
                ctx.check(close(ahead[k], ahead[k + period], 1e-9, 1e-7), 'period', lambda: '{} after {}: {} and {}'.format(k, where(), ahead[k], ahead[k + period]))
            for l, c in (('a', 0),):
                means = [statistics.fmean(value(i, c) for i in range(n) if i % period == r) for r in range(period)]
                shape = [ahead[(r - n) % period][l] - means[r] for r in range(period)] if steps >= period else []
                ctx.check(not shape or close(shape, [shape[0]] * period, 1e-9, 1e-6), 'averages', lambda: 'after {}: {} for averages {}'.format(where(), ahead[:period], means))
        # Lost items anywhere are replaced, the other ones are not
        lost = part(kind, ids, True, True)
        r = PeriodicAverageReconstructor()
        got = outcome_of(r.fit, s, periodicity=period)
        if ctx.check(got[0] == 'ok', 'fit', lambda: 'fitting on {}: {}'.format(where(), got)):
            got = outcome_of(r.apply, lost)
            ctx.step(2)
            if loss(n - 1) == 1:
                ctx.check(got[0] == 'err', 'reconstruct', lambda: 'reconstructing {}, with nothing after the last gap: {}'.format(where(), got))
            elif ctx.check(got[0] == 'ok' and len(got[1]) == n, 'reconstruct', lambda: 'reconstructing {}: {}'.format(where(), got)):
                kept = all(close(i.data, {'a': value(p, 0)}) for p, i in enumerate(got[1]) if loss(p) < 1)
                done = [p for p, i in enumerate(got[1]) if (i.data_indexes.get('data_reconstructed') or 0) > 0]
                ctx.check(kept and done == [p for p in range(n) if loss(p) == 1], 'reconstruct', lambda: 'reconstructing {}: {}'.format(where(), done))
        # The anomaly of each item against the mean of its position
        d = PeriodicAverageAnomalyDetector()
        got = outcome_of(d.fit, s, periodicity=period)
        got = outcome_of(d.apply, s) if got[0] == 'ok' else got
        ctx.step(2)
        if n > 40:
            ctx.check(got[0] == 'ok' and [(i.start.t if isinstance(i, Slot) else i.t) for i in got[1]] == [at(kind, i) for i in range(n)][n - len(got[1]):] and n - len(got[1]) <= period + 1, 'detect', lambda: 'detecting in {}: {}'.format(where(), got))
        ctx.state((kind, n))
        ctx.outcome((kind, n, repr(ahead[0])))
        ctx.ok()
