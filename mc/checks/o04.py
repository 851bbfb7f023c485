"""O04: differences, sums, derivatives and integrals match their definitions."""
import itertools
from mc.lib import *
from mc.gen import SHAPES, make, labels_of, values_for, val, frame

PROPERTY = 'O04'
LEVEL = 'model_checking'
RULE = ('every assignment of the values of a small domain to the items of every series shape (evenly and unevenly spaced points, slots of physical and calendar units across DST and months of different '
        'length, one or two labels, dictionary or list data), for each operation, parameter combination and offset form, not in place and in place, plus the round trips between operations. '
        'The reference computes everything from the instants of the items. A non-trivial outcome is a distinct (shape, operation, result)')
ASSUMPTIONS = ['starting from an offset adds an item before the first, which is refused for slots with calendar units and for points with variable resolution', 'values compared with a relative tolerance of 1e-9']
BOUNDS = {'quick': '10 shapes, up to 4 items, 4 values', 'thorough': '10 shapes, up to 6 items, 5 values'}
CHUNK = 1
DOMAIN = {'quick': [-3, 0, 2.5, 7], 'thorough': [-3, -0.5, 0, 2.5, 7]}


def cases(tier):
    for shape in SHAPES:
        for n in range(1, 5 if tier == 'quick' else 7):
            for first in DOMAIN[tier]:
                for second in (DOMAIN[tier] if n > 4 else [None]):
                    yield dict(shape=shape, n=n, first=first, second=second, tier=tier)


def run(ctx, case):
    shape, n, tier = case['shape'], case['n'], case['tier']
    labels = sorted(labels_of(shape))
    k = 0
    for values in values_for(shape, n, DOMAIN[tier], full=n <= 2):
        if values[0][0] != case['first'] or (case['second'] is not None and values[1][0] != case['second']):
            continue
        k += 1
        explore(ctx, case, shape, labels, values, [{'data_loss': 0.25 * (j % 2), 'x': j} if (j + k) % 3 else {} for j in range(n)])
    ctx.sample(dict(case, values=values))


def explore(ctx, case, shape, labels, values, indexes):
    def new():
        return make(shape, values, indexes=indexes)
    ref = new()
    items = ref.contents()
    n = len(items)
    is_dict = isinstance(items[0].data, dict)
    is_slots = isinstance(items[0], Slot)
    variable = ref.resolution == 'variable'
    calendar = is_slots and str(SHAPES[shape]['unit'])[-1] in 'DWMY'
    x = {l: [val(i, l) for i in items] for l in labels}
    t = [i.t for i in items]

    def outputs(name, fn, postfix, expected, skip=0, before_first=None, inplace=True, labels=labels, series=new, items=items):
        """expected: label -> values (None if to be refused); before_first: instant of the item added by the offset."""
        s = series()
        old = snap(s)
        got = outcome_of(fn, s, False)
        ctx.step()
        ctx.state((shape, tuple(values), name))
        key = (lambda l: '{}_{}'.format(l, postfix)) if is_dict else (lambda l: l)
        if expected is None:
            ctx.check(got[0] == 'err', name.split('(')[0] + '-refused', lambda: '{} of {} was not refused: {}'.format(name, values, got))
            ctx.check(snap(s) == old, name.split('(')[0] + '-source', 'a refused operation changed the series')
            return None
        if not ctx.check(got[0] == 'ok' and isinstance(got[1], TimeSeries), name, lambda: '{} of {} gave {}'.format(name, values, got)):
            return None
        res = got[1].contents()
        m = len(next(iter(expected.values())))
        good = len(res) == m and all((set(i.data) == {key(l) for l in labels}) if is_dict else len(i.data) == len(labels) for i in res)
        good = good and all(close(val(i, key(l)), expected[l][k]) for k, i in enumerate(res) for l in labels)
        ctx.outcome((shape, name, repr([i.data for i in res])))
        ctx.check(good, name, lambda: '{} of {} at {} gave {} instead of {}'.format(name, x, t, [i.data for i in res], expected))
        frames = [frame(i) for i in items[skip:]]
        rest = res
        if before_first is not None:
            ctx.check(close(res[0].t, before_first) and (not is_slots or (res[0].end.t == items[0].start.t and res[0].unit == items[0].unit)) and str(res[0].tz) == str(items[0].tz), name + '-first',
                      lambda: '{}: the item added is {}, while {} was expected'.format(name, res[0], before_first))
            rest = res[1:]
        ctx.check([frame(i) for i in rest] == frames, name + '-frame', lambda: '{} changed the items: {} -> {}'.format(name, frames, [frame(i) for i in rest]))
        ctx.check(snap(s) == old, name + '-source', lambda: '{} changed the source'.format(name))
        ctx.ok()
        if inplace:
            s = series()
            r = outcome_of(fn, s, True)
            ctx.step()
            good = r == ('ok', None)
            for k, i in enumerate(s.contents()):
                if is_dict:
                    exp = dict({l: x[l][k] for l in labels}, **{key(l): expected[l][k] for l in labels})
                else:
                    exp = [expected[l][k] for l in labels]
                good = good and close(i.data, exp)
            good = good and [frame(i) for i in s.contents()] == [frame(i) for i in items]
            ctx.check(good, name + '-inplace', lambda: '{} in place of {} gave {} {}'.format(name, x, r, [i.data for i in s]))
        return got[1]

    ratio = {l: [(x[l][k + 1] - x[l][k]) / (t[k + 1] - t[k]) for k in range(n - 1)] for l in labels}
    delta = {l: [x[l][k + 1] - x[l][k] for k in range(n - 1)] for l in labels}

    def both_sides(r):
        return None if n < 2 else {l: [r[l][0]] + [(r[l][k - 1] + r[l][k]) / 2 for k in range(1, n - 1)] + [r[l][-1]] for l in labels}

    # Derivative
    der = outputs('derivative', lambda s, ip: s.derivative(inplace=ip), 'derivative', both_sides(ratio))
    outputs('derivative(normalize=False)', lambda s, ip: s.derivative(normalize=False, inplace=ip), 'diff', both_sides(delta))
    outputs('derivative(diffs=True)', lambda s, ip: s.derivative(diffs=True), 'derivative', None if n < 2 else ratio, skip=1, inplace=False)
    # Diff and csum
    if not variable:
        dif = outputs('diff', lambda s, ip: s.diff(), 'diff', None if n < 2 else delta, skip=1, inplace=False)
        cum = {l: list(itertools.accumulate(x[l])) for l in labels}
        outputs('csum', lambda s, ip: s.csum(inplace=ip), 'csum', cum)
        outputs('csum(zero)', lambda s, ip: s.csum(offset=0, inplace=ip), 'csum', cum)
    else:
        outputs('diff', lambda s, ip: s.diff(), 'diff', None)
        outputs('csum', lambda s, ip: s.csum(), 'csum', None)
    ctx.check(outcome_of(new().diff, inplace=True)[0] == 'err', 'diff-inplace', 'in-place diff accepted')
    # Integral: the function whose incremental ratios, averaged on the two sides, are the values
    right = {l: [x[l][0]] for l in labels}
    for l in labels:
        for k in range(1, n):
            right[l].append(2 * x[l][k] - right[l][-1])
    integ = {l: [0] for l in labels}
    for l in labels:
        for k in range(1, n):
            # between k-1 and k: the right ratio at k-1
            prev = right[l][k - 1] if k > 1 else x[l][0]
            integ[l].append(integ[l][-1] + prev * (t[k] - t[k - 1]))

    outputs('integral', lambda s, ip: s.integral(inplace=ip), 'integral', integ)
    for c in (5, -1.5):
        outputs('integral(c)', lambda s, ip: s.integral(c=c, inplace=ip), 'integral', {l: [v + c for v in integ[l]] for l in labels})
    cs = {l: 10.0 * k + 1 for k, l in enumerate(labels)}
    outputs('integral(c=dict)', lambda s, ip: s.integral(c=cs, inplace=ip), 'integral', {l: [v + cs[l] for v in integ[l]] for l in labels})
    if not variable:
        outputs('integral(normalize=False)', lambda s, ip: s.integral(normalize=False, inplace=ip), 'csum', cum)
    # Offsets
    for off in (4, -2.5, {l: 7.0 + k for k, l in enumerate(labels)}, {l: 7.0 + k * k for k, l in reversed(list(enumerate(labels)))}, {l: float(k) for k, l in enumerate(labels)}):
        o = off if isinstance(off, dict) else {l: off for l in labels}
        step = (items[0].end.t - t[0]) if is_slots else (t[1] - t[0] if n > 1 else None)
        can = not calendar and not variable and (is_slots or n > 1)
        if can:
            outputs('csum(offset)', lambda s, ip: s.csum(offset=off), 'csum', {l: [o[l]] + [o[l] + v for v in cum[l]] for l in labels}, before_first=t[0] - step, inplace=False)
            outputs('integral(offset)', lambda s, ip: s.integral(offset=off), 'integral', {l: [o[l]] + [o[l] + v for v in integ[l]] for l in labels}, before_first=t[0] - step, inplace=False)
        s = new()
        old = snap(s)
        ctx.check(outcome_of(s.csum, offset=off, inplace=True)[0] == 'err' and snap(s) == old, 'offset-inplace', 'in place cumulative sum with an offset not refused')

    # Round trips
    if n >= 2:
        back = outcome_of(lambda: der.integral(c={('{}_derivative'.format(l) if is_dict else l): x[l][0] for l in labels}))
        ctx.step()
        key = (lambda l: '{}_derivative_integral'.format(l)) if is_dict else (lambda l: l)
        ctx.check(back[0] == 'ok' and all(close(val(i, key(l)), x[l][k], 1e-6, 1e-6) for k, i in enumerate(back[1]) for l in labels), 'derivative-integral',
                  lambda: 'integral of the derivative of {} at {} is {}'.format(x, t, back if back[0] == 'err' else [i.data for i in back[1]]))
        ctx.ok()
        if not variable and not calendar and n >= 3:
            back = outcome_of(lambda: dif.csum(offset={('{}_diff'.format(l) if is_dict else l): x[l][0] for l in labels}))
            ctx.step()
            key = (lambda l: '{}_diff_csum'.format(l)) if is_dict else (lambda l: l)
            ctx.check(back[0] == 'ok' and len(back[1]) == n and all(i.t == items[k].t and close(val(i, key(l)), x[l][k], 1e-6, 1e-6) for k, i in enumerate(back[1]) for l in labels), 'diff-csum',
                      lambda: 'cumulative sum of the differences of {} is {}'.format(x, back if back[0] == 'err' else [i.data for i in back[1]]))
            ctx.ok()
