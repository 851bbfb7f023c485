"""O03: element-wise operations transform each value as defined and nothing else."""
import itertools
from fractions import Fraction
from mc.lib import *
from mc.gen import SHAPES, make, labels_of, values_for, val, frame

PROPERTY = 'O03'
LEVEL = 'model_checking'
RULE = ('every assignment of the values of a small domain to the items of every series shape, every pattern of data losses and indexes over them, and every parameter of a small set for each of the operations '
        '(single numbers, dictionaries on all or on some of the labels, ranges, source ranges, windows, label subsets, queries), not in place and in place. '
        'A non-trivial outcome is a distinct (shape, operation, parameter, result)')
ASSUMPTIONS = ['normalizing a constant label with no source range given is not defined, and is expected to be refused', 'values compared with a relative tolerance of 1e-9',
               'moving averages do not carry the data indexes, and the selection returns None if nothing matches']
BOUNDS = {'quick': '10 shapes, up to 3 items, 4 values, 3 index patterns', 'thorough': '10 shapes, up to 5 items, 5 values, 6 index patterns'}
CHUNK = 1
DOMAIN = {'quick': [-3, 0, 2.5, 7], 'thorough': [-3, -0.5, 0, 2.5, 7]}


def patterns(n, tier):
    pats = [None, [{'data_loss': 0.25 * (k % 3)} if k % 2 == 0 else {} for k in range(n)], [{'data_loss': None, 'x': k} for k in range(n)]]
    if tier == 'thorough':
        pats += [[{'x': -k, 'y': 0.5} for k in range(n)], [{'anomaly': 1} if k == n - 1 else {} for k in range(n)], [{'forecast': 0, 'data_loss': 1} for k in range(n)]]
    return pats


def cases(tier):
    for shape in SHAPES:
        for n in range(1, 4 if tier == 'quick' else 6):
            for first in DOMAIN[tier]:
                yield dict(shape=shape, n=n, first=first, tier=tier)


def pick(param, label, neutral):
    return param.get(label, neutral) if isinstance(param, dict) else param


def run(ctx, case):
    shape, n, tier = case['shape'], case['n'], case['tier']
    labels = sorted(labels_of(shape))
    for values in values_for(shape, n, DOMAIN[tier], full=n <= 2):
        if values[0][0] != case['first']:
            continue
        for p, indexes in enumerate(patterns(n, tier)):
            if p and n > 3 and values[-1][0] not in (0, 7):
                continue
            explore(ctx, case, shape, labels, values, indexes)
    ctx.sample(dict(case, values=values))


def explore(ctx, case, shape, labels, values, indexes):
    def new():
        return make(shape, values, indexes=indexes)
    ref = new()
    items = ref.contents()
    n = len(items)
    columns = {l: [val(i, l) for i in items] for l in labels}
    is_dict = isinstance(items[0].data, dict)

    def elementwise(name, fn, expected, what, keep_labels=True):
        """expected: label -> list of values, or None if it has to be refused."""
        for inplace in (False, True):
            s = new()
            before = snap(s)
            got = outcome_of(fn, s, inplace)
            ctx.step()
            ctx.state((shape, tuple(values), repr(indexes), name, what, inplace))
            r = s if inplace else got[1]
            if expected is None:
                ctx.check(got[0] == 'err', name + '-refused', lambda: '{} {} of {} was not refused'.format(name, what, values))
                ctx.check(snap(s) == before, name + '-refused-changed', lambda: '{} {} of {} was refused but changed the series'.format(name, what, values))
                continue
            if not ctx.check(got[0] == 'ok' and (got[1] is None) == inplace, name, lambda: '{} {} of {} (inplace={}) gave {}'.format(name, what, values, inplace, got)):
                continue
            res = r.contents()
            good = isinstance(r, TimeSeries) and len(res) == n
            good = good and all(set(i.data) == set(labels) if is_dict else len(i.data) == len(labels) for i in res)
            good = good and all(close(val(i, l), expected[l][k]) for k, i in enumerate(res) for l in labels)
            ctx.outcome((shape, name, what, repr([i.data for i in res])))
            ctx.check(good, name, lambda: '{} {} of {} (inplace={}) gave {} instead of {}'.format(name, what, values, inplace, [i.data for i in res], expected))
            ctx.check([frame(i) for i in res] == [frame(i) for i in items], name + '-frame',
                      lambda: '{} {} (inplace={}) changed positions, timezones or indexes: {} -> {}'.format(name, what, inplace, [frame(i) for i in items], [frame(i) for i in res]))
            ctx.check(str(r.resolution) == str(ref.resolution) and str(r.tz) == str(ref.tz), name + '-series', lambda: '{} changed resolution or timezone'.format(name))
            if not inplace:
                ctx.check(snap(s) == before, name + '-source', lambda: '{} {} changed the source'.format(name, what))
            ctx.ok()

    params = [0, 1, -2, 0.5, {labels[0]: 3}, {labels[0]: 0}, {labels[-1]: 0.0, labels[0]: -1}, {l: 10.0 + k for k, l in enumerate(labels)}, {'nope': 5}]
    for p in params:
        elementwise('rescale', lambda s, ip: s.rescale(p, inplace=ip), {l: [v * pick(p, l, 1) for v in columns[l]] for l in labels}, repr(p))
        elementwise('offset', lambda s, ip: s.offset(p, inplace=ip), {l: [v + pick(p, l, 0) for v in columns[l]] for l in labels}, repr(p))
    for rng in ([0, 1], [-1, 1], [1, 0], [10, 15.5], [0, 2]):
        sources = [None, {l: [-10, 10] for l in labels}, {l: [0, 4 + k] for k, l in enumerate(labels)}]
        for source in sources:
            def lin(v, l):
                a, b = source[l] if source else (min(columns[l]), max(columns[l]))
                f = (Fraction(v) - Fraction(a)) / (Fraction(b) - Fraction(a))
                return float(f * (Fraction(rng[1]) - Fraction(rng[0])) + Fraction(rng[0]))
            try:
                exp = {l: [lin(v, l) for v in columns[l]] for l in labels}
            except ZeroDivisionError:
                exp = None
            elementwise('normalize', lambda s, ip: s.normalize(range=list(rng), source_range=source, inplace=ip), exp, '{} {}'.format(rng, source))
            if rng == [0, 1] and not source:
                elementwise('normalize', lambda s, ip: s.normalize(inplace=ip), exp, 'default')

    # Moving average
    s = new()
    before = snap(s)
    for w in range(0, n + 2):
        got = outcome_of(s.mavg, w)
        ctx.step()
        if w == 0:
            ctx.check(got[0] == 'err', 'mavg-window', 'window of zero accepted')
            continue
        exp = {l: [sum(columns[l][k - w + 1:k + 1]) / w for k in range(w - 1, n)] for l in labels}
        m = max(0, n - w + 1)
        if not ctx.check(got[0] == 'ok' and len(got[1]) == m, 'mavg', lambda: 'mavg({}) of {} gave {}'.format(w, values, got)):
            continue
        res = got[1].contents()
        key = (lambda l: '{}_mavg_{}'.format(l, w)) if is_dict else (lambda l: l)
        good = all((set(i.data) == {key(l) for l in labels}) if is_dict else len(i.data) == len(labels) for i in res)
        good = good and all(close(val(i, key(l)), exp[l][k]) for k, i in enumerate(res) for l in labels)
        ctx.outcome((shape, 'mavg', w, repr([i.data for i in res])))
        ctx.check(good, 'mavg', lambda: 'mavg({}) of {} gave {} instead of {}'.format(w, values, [i.data for i in res], exp))
        ctx.check([frame(i)[:-1] for i in res] == [frame(i)[:-1] for i in items[w - 1:]], 'mavg-frame', lambda: 'mavg({}) moved the items: {}'.format(w, [frame(i) for i in res]))
        ctx.ok()
    ctx.check(outcome_of(s.mavg, 2, inplace=True)[0] == 'err', 'mavg-inplace', 'in-place moving average accepted')

    # Filter
    if is_dict:
        for k in range(1, len(labels) + 1):
            for subset in itertools.permutations(labels, k):
                for fn in ((lambda: s.filter(*subset)), (lambda: s[subset[0]] if k == 1 else s.filter(*subset))):
                    got = outcome_of(fn)
                    ctx.step()
                    good = got[0] == 'ok' and len(got[1]) == n and all(i.data == {l: columns[l][j] for l in subset} for j, i in enumerate(got[1]))
                    if ctx.check(good, 'filter', lambda: 'filter({}) of {} gave {}'.format(subset, values, got)):
                        ctx.check([frame(i) for i in got[1]] == [frame(i) for i in items] and str(got[1].resolution) == str(s.resolution) and got[1].data_labels() == sorted(subset), 'filter-frame', 'filter({}) changed positions or indexes'.format(subset))
                        ctx.outcome((shape, 'filter', subset, repr([i.data for i in got[1]])))
                        ctx.ok()
        ctx.check(outcome_of(s.filter, 'nope')[0] == 'err' and outcome_of(lambda: s['nope'])[0] == 'err', 'filter-refused', 'filtering on a label not present was accepted')
    else:
        ctx.check(outcome_of(s.filter, '0')[0] == 'err', 'filter-refused', 'filtering lists was accepted')

    # Select
    for l in labels:
        for v in sorted(set(columns[l]) | {99}):
            for query in ('{}={}', '{} = {}', '"{}"={}', '"{}" = {}'):
                got = outcome_of(s.select, query.format(l, v))
                ctx.step()
                exp = [i for i, x in zip(s, columns[l]) if x == v] or None
                good = got[0] == 'ok' and (got[1] is None if exp is None else got[1] is not None and len(got[1]) == len(exp) and all(a is b for a, b in zip(got[1], exp)))
                ctx.outcome((shape, 'select', v, exp and [i.t for i in exp]))
                if ctx.check(good, 'select', lambda: 'select({}) of {} gave {} instead of {}'.format(query.format(l, v), values, got, exp)):
                    ctx.ok()
        for bad in ('{}=1 and {}=2', '{}=1 or {}=2', '{}=1 AND {}=2', '{}=1 OR {}=2', '{}>1', '{}<1', '{}>=1', '{}<=1', '{}!=1'):
            ctx.check(outcome_of(s.select, bad.format(l, l))[0] == 'err', 'select-refused', lambda: 'select({}) was not refused: {}'.format(bad.format(l, l), outcome_of(s.select, bad.format(l, l))))
    ctx.check(outcome_of(s.select, 'nope=1')[0] == 'err', 'select-refused', 'selecting on a label not present was accepted')
    ctx.check(snap(s) == before, 'source-changed', lambda: 'the series changed: {} -> {}'.format(before, snap(s)))
