"""O05: merging keeps every value, only over the common period."""
import itertools
from mc.lib import *
from timeseria.operations import merge

PROPERTY = 'O05'
LEVEL = 'model_checking'
RULE = ('every combination of two or three series, each covering any range of a common grid (points, hourly slots, daily slots across a DST change, monthly slots), for each assignment of labels (disjoint or shared) and '
        'presence of indexes, in every order and also as views, against a reference merge by instant; plus every way of being incompatible (resolution, kind, variable resolution, misalignment, list data, no common item), which has to be refused. '
        'A non-trivial outcome is a distinct merged series or refusal')
ASSUMPTIONS = ['series with no item in common are refused or give an empty series', 'values of labels shared by more series are averaged', 'values compared with a relative tolerance of 1e-9']
BOUNDS = {'quick': 'grid of 4 positions, 2 and 3 series, 4 kinds', 'thorough': 'grid of 6 positions with 2 series, of 5 with 3 series, 6 kinds'}
CHUNK = 4

KINDS = {
    'points': dict(ts=[60, 120, 180, 240, 300, 360]),
    'points0': dict(ts=[-0.5, 0, 0.5, 1, 1.5, 2], tz='America/New_York'),
    'hslots': dict(start=3600 * 5, unit='1h', n=6, tz='Europe/Rome'),
    'dslots': dict(start=epoch(2019, 3, 30, tz='Europe/Rome'), unit='1D', tz='Europe/Rome', n=6),
    'mslots': dict(start=epoch(2020, 1, 1), unit='1M', n=6),
    'pointstz': dict(ts=[60, 120, 180, 240, 300, 360], tzs=['UTC', 'Asia/Tokyo', 'Europe/Rome']),
}
LABELS = {
    2: [(('a',), ('b',)), (('b', 'a'), ('c',)), (('a', 'b'), ('b', 'c')), (('a',), ('a',))],
    3: [(('c',), ('a',), ('b',)), (('a',), ('a', 'b'), ('a', 'c'))],
}
INDEXES = ['none', 'loss', 'mixed']


def ranges(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n + 1)]


def cases(tier):
    kinds = ['points', 'points0', 'hslots', 'dslots'] if tier == 'quick' else list(KINDS)
    for kind in kinds:
        for k, n in ((2, 4), (3, 4)) if tier == 'quick' else ((2, 6), (3, 5)):
            for first in ranges(n):
                yield dict(kind=kind, k=k, n=n, first=list(first))
    for kind in kinds:
        yield dict(kind=kind, refuse=True)


def grid(kind):
    """The instants of the grid, the following one last for slots."""
    c = KINDS[kind]
    if 'ts' in c:
        return c['ts']
    out = [c['start']]
    for _ in range(c['n']):
        out.append(ref_shift(out[-1], c['unit'], c.get('tz', 'UTC')))
    return out


def value(s, label, pos):
    return {'a': 1, 'b': -2, 'c': 0.5}[label] * (pos + 1) ** 2 + 10 * s


def index(mode, s, pos):
    if mode == 'none':
        return {}
    if mode == 'loss':
        return {'data_loss': [0, 0.5, 1, 0.25][(pos + s) % 4]}
    return [{'data_loss': 0.5}, {'x': 0.25 * s}, {}, {'data_loss': 1, 'x': 0.75, 'y': s / 4}, {'data_loss': None}][(2 * pos + s) % 5]


def build(kind, rng, s, labels, mode, tz=None):
    c = KINDS[kind]
    pos = range(*rng)
    values = [tuple(value(s, l, p) for l in labels) for p in pos]
    idx = [index(mode, s, p) for p in pos]
    tz = tz or c.get('tz') or (c['tzs'][s] if 'tzs' in c else None)
    if 'ts' in c:
        return points([c['ts'][p] for p in pos], values, labels=labels, indexes=idx, tz=tz)
    return slots(grid(kind)[rng[0]], c['unit'], values, labels=labels, indexes=idx, tz=tz)


def run(ctx, case):
    kind = case['kind']
    if case.get('refuse'):
        return refused(ctx, kind)
    k, n = case['k'], case['n']
    for rest in itertools.product(ranges(n), repeat=k - 1):
        rngs = [tuple(case['first'])] + list(rest)
        for labels in LABELS[k]:
            for mode in INDEXES:
                one(ctx, kind, rngs, labels, mode)


def one(ctx, kind, rngs, labels, mode):
    g = grid(kind)
    is_slots = 'unit' in KINDS[kind]
    k = len(rngs)
    series = [build(kind, r, s, labels[s], mode) for s, r in enumerate(rngs)]
    old = [snap(s) for s in series]
    lo, hi = max(r[0] for r in rngs), min(r[1] for r in rngs)
    # For points, the resolution of one point alone is not defined: merging it with more points may be refused
    single = [r[1] - r[0] == 1 for r in rngs]
    free = not is_slots and any(single) and not all(single)
    ok = lo < hi
    got = outcome_of(merge, *series)
    ctx.step()
    ctx.state((kind, tuple(rngs), labels, mode))
    if not ok:
        ctx.check(got[0] == 'err' or (lo >= hi and len(got[1]) == 0), 'not-refused', lambda: 'merging {} over {} gave {}'.format(kind, rngs, got))
        ctx.check([snap(s) for s in series] == old, 'source', 'a refused merge changed its inputs')
        ctx.outcome((kind, got[0], got[1] if got[0] == 'err' else ''))
        ctx.ok()
        return
    if free and got[0] == 'err':
        ctx.check([snap(s) for s in series] == old, 'source', 'a refused merge changed its inputs')
        ctx.ok()
        return
    if not ctx.check(got[0] == 'ok' and isinstance(got[1], TimeSeries), 'merge', lambda: 'merging {} over {} failed: {}'.format(kind, rngs, got)):
        return

    def matches(res, tz):
        if len(res) != hi - lo:
            return 'length {}'.format(len(res))
        for p, item in zip(range(lo, hi), res):
            if is_slots:
                if not (isinstance(item, DataTimeSlot) and close(item.start.t, g[p]) and close(item.end.t, g[p + 1]) and item.unit == series[0][0].unit):
                    return 'slot {}'.format(item)
            elif not (isinstance(item, DataTimePoint) and close(item.t, g[p])):
                return 'point {}'.format(item)
            if str(item.tz) != tz:
                return 'time zone {}'.format(item.tz)
            exp = {l: [value(s, l, p) for s in range(k) if l in labels[s]] for l in set(itertools.chain(*labels))}
            exp = {l: sum(v) / len(v) for l, v in exp.items()}
            if not close(item.data, exp):
                return 'data {} instead of {}'.format(item.data, exp)
            every = [index(mode, s, p) for s in range(k)]
            names = set(itertools.chain(*every))
            exp = {name: [e[name] for e in every if e.get(name) is not None] for name in names}
            for name in names:
                v = item.data_indexes.get(name)
                if not close(v, sum(exp[name]) / len(exp[name]) if exp[name] else None):
                    return 'index {}={} instead of the average of {}'.format(name, v, exp[name])
            if not set(item.data_indexes) <= names:
                return 'indexes {}'.format(item.data_indexes)
        return None

    bad = matches(got[1], str(series[0][0].tz))
    ctx.check(bad is None, 'merge', lambda: 'merging {} over {} with labels {} and indexes {}: {}'.format(kind, rngs, labels, mode, bad))
    ctx.check([snap(s) for s in series] == old, 'source', lambda: 'merging changed its inputs')
    ctx.outcome(snap(got[1]))
    ctx.ok()
    if k == 2:
        other = outcome_of(series[0].merge, series[1])
        ctx.step()
        ctx.check(other[0] == 'ok' and snap(other[1]) == snap(got[1]), 'method', 'the merge method differs from the operation')
    # The other orders, and views over a longer series
    for perm in itertools.permutations(range(k)):
        if perm == tuple(range(k)):
            continue
        other = outcome_of(merge, *[series[j] for j in perm])
        ctx.step()
        if free and other[0] == 'err':
            continue
        bad = other[1:] if other[0] == 'err' else matches(other[1], str(series[perm[0]][0].tz))
        ctx.check(bad is None, 'order', lambda: 'merging {} over {} in the order {}: {}'.format(kind, rngs, perm, bad))
        ctx.ok()
    if is_slots or not any(single):
        views = []
        for s, r in enumerate(rngs):
            whole = build(kind, (0, len(KINDS[kind].get('ts', g[1:]))), s, labels[s], mode)
            views.append(whole.view(from_i=r[0], to_i=r[1]))
        other = outcome_of(merge, *views)
        ctx.step()
        bad = other[1:] if other[0] == 'err' else matches(other[1], str(series[0][0].tz))
        ctx.check(bad is None, 'views', lambda: 'merging views of {} over {}: {}'.format(kind, rngs, bad))
        ctx.ok()
    # What is merged is independent from the sources
    for item in got[1]:
        item.data['a'] = 1234
        item.data_indexes['z'] = 1
    ctx.check([snap(s) for s in series] == old, 'sharing', 'changing what has been merged changed its inputs')


def refused(ctx, kind):
    c = KINDS[kind]
    n = 5

    def both(name, a, b):
        for x, y in ((a, b), (b, a)):
            for extra in ([], [build(kind, (0, n), 2, ('c',), 'none')]):
                for group in ([x, y] + extra, extra + [x, y]):
                    old = [snap(s) for s in group]
                    got = outcome_of(merge, *group)
                    ctx.step()
                    ctx.state((kind, name))
                    ctx.outcome((kind, name, got[0], got[1] if got[0] == 'err' else ''))
                    ctx.check(got[0] == 'err', 'not-refused', lambda: '{}: {} gave {}'.format(kind, name, [i for i in got[1]] if got[0] == 'ok' else got))
                    ctx.check([snap(s) for s in group] == old, 'source', 'a refused merge changed its inputs')
                    ctx.ok()

    ref = build(kind, (0, n), 0, ('a',), 'none')
    for other in KINDS:
        if other == kind or {other, kind} == {'points', 'pointstz'}:
            continue
        both('kind {}'.format(other), ref, build(other, (0, n), 1, ('b',), 'none'))
    if 'ts' in c:
        step = c['ts'][1] - c['ts'][0]
        for factor in (2, 0.5, 1.5, 1.001):
            both('resolution', ref, points([c['ts'][0] + factor * step * k for k in range(n)], list(range(n)), labels=('b',)))
            both('misaligned', ref, points([c['ts'][0] + factor % 1 * step + step * k for k in range(n)], list(range(n)), labels=('b',))) if factor % 1 else None
        for hole in range(1, n - 1):
            both('variable', ref, points([c['ts'][k] for k in range(n) if k != hole], list(range(n - 1)), labels=('b',)))
        both('list', ref, points(c['ts'][:n], list(range(n)), kind='list'))
        both('slots', ref, slots(c['ts'][0], '{}s'.format(step) if step >= 1 else '1s', list(range(n)), labels=('b',)))
    else:
        for unit in ('2h', '1m', '30m'):
            both('resolution', ref, slots(c['start'], unit, list(range(n)), labels=('b',), tz=c.get('tz')))
        if kind == 'hslots':
            for off in (1800, 1, 3599):
                both('misaligned', ref, slots(c['start'] + off, c['unit'], list(range(n)), labels=('b',), tz=c.get('tz')))
        both('list', ref, slots(c['start'], c['unit'], list(range(n)), tz=c.get('tz'), kind='list'))
        both('points', ref, points(grid(kind)[:n], list(range(n)), labels=('b',)))
    both('empty', ref, TimeSeries())
    ctx.sample(dict(kind=kind, refused=True))
