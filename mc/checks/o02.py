"""O02: minimum, maximum, average and sum."""
import itertools
from mc.lib import *
from mc.gen import SHAPES, make, labels_of, values_for, val
from timeseria import operations as ops

PROPERTY = 'O02'
LEVEL = 'model_checking'
RULE = ('every assignment of the values of a small domain to the items of every series shape; each scalar operation, as method and as function, for all the labels and for each one, on the series and on the '
        'same values reached as a slice, a view, a filtered series, a duplicate, after having been resampled or aggregated, and in a different order of labels. A non-trivial outcome is a distinct (shape, operation, result)')
ASSUMPTIONS = ['the order of the sums is not specified: averages and sums are compared with a relative tolerance of 1e-9']
BOUNDS = {'quick': '10 shapes, up to 3 items, 4 values (full product on both labels up to 2 items)', 'thorough': '10 shapes, up to 5 items, 5 values (full product on both labels up to 3 items)'}
CHUNK = 1
DOMAIN = {'quick': [-3, 0, 2.5, 7], 'thorough': [-3, -0.5, 0, 2.5, 7]}


def cases(tier):
    for shape in SHAPES:
        for n in range(1, 4 if tier == 'quick' else 6):
            for first in range(len(DOMAIN[tier])):
                yield dict(shape=shape, n=n, tier=tier, first=first)


def reference(series, label):
    vals = [val(i, label) for i in series.contents()]
    return dict(min=min(vals), max=max(vals), sum=sum(vals), avg=sum(vals) / len(vals))


def routes(ctx, shape, values):
    s = make(shape, values)
    n = len(values)
    yield 'series', s
    # The same values, as a part of a longer series
    if n <= 6:
        longer = make(shape, list(values) + [tuple(100 for _ in values[0])])
        yield 'slice', longer[0:n]
        yield 'view', longer.view(0, n)
        yield 'nested view', longer.view(0, n + 1).view(0, n)
    yield 'duplicate', s.duplicate()
    if 1 < n <= 3:
        # The source of a transformation, afterwards
        r = make(shape, values)
        if isinstance(r[0], Slot):
            outcome_of(r.aggregate, '1D')
            outcome_of(r.aggregate, '2h')
        else:
            step = r[1].t - r[0].t
            outcome_of(r.resample, step / 2)
            outcome_of(r.resample, step * 2)
            outcome_of(r.aggregate, step)
        yield 'source of a transformation', r
        yield 'slice of the source of a transformation', r[0:n]


def run(ctx, case):
    shape, n, tier = case['shape'], case['n'], case['tier']
    labels = sorted(labels_of(shape))
    for values in values_for(shape, n, DOMAIN[tier], full=n <= (2 if tier == 'quick' else 3)):
        if values[0][0] != DOMAIN[tier][case['first']]:
            continue
        for how, s in routes(ctx, shape, values):
            verify(ctx, shape, how, s, labels, values)
            if how == 'series' and isinstance(s[0].data, dict):
                for l in labels:
                    verify(ctx, shape, 'filter', s.filter(l), [l], values)
                    verify(ctx, shape, 'filter[]', s[l], [l], values)
            if how == 'series' and 1 < n <= 4 and not isinstance(s[0], Slot) and s.resolution != 'variable':
                r = s.resample(s[1].t - s[0].t)
                if len(r):
                    verify(ctx, shape, 'resampled', r, labels, values)
    ctx.sample(dict(case, values=values))


def verify(ctx, shape, how, s, labels, values):
    before = snap(s)
    ref = {l: reference(s, l) for l in labels}
    for op in ('min', 'max', 'sum', 'avg'):
        for form, fn in (('method', getattr(s, op)), ('function', lambda *a, **k: getattr(ops, op)(s, *a, **k))):
            got = outcome_of(fn)
            ctx.step()
            ctx.outcome((shape, op, repr(got[1])))
            exact = op in ('min', 'max')
            exp = {l: ref[l][op] for l in labels}
            ctx.check(got[0] == 'ok' and isinstance(got[1], dict) and set(got[1]) == set(labels) and (got[1] == exp if exact else close(got[1], exp)), op,
                      lambda: '{} ({}) {} of {} is {} instead of {}'.format(op, form, how, values, got, exp))
            for l in labels:
                got = outcome_of(fn, data_label=l)
                ctx.step()
                ctx.check(got[0] == 'ok' and (got[1] == exp[l] if exact else close(got[1], exp[l])), op + '-label',
                          lambda: '{} ({}) {} of {} for label {} is {} instead of {}'.format(op, form, how, values, l, got, exp[l]))
            ctx.ok()
    ctx.state((shape, how, tuple(values)))
    ctx.check(outcome_of(s.min, data_label='nope')[0] == 'err', 'wrong-label', 'a label not in the series was accepted')
    ctx.check(snap(s) == before, 'changed', lambda: 'the series changed: {} -> {}'.format(before, snap(s)))
