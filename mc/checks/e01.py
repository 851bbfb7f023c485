"""E01: error measures, rescaling and error distributions."""
import itertools
import math
import numpy
import scipy.stats
from mc.lib import *
from timeseria import utilities as ut
from timeseria.utilities import DistributionFunction

PROPERTY = 'E01'
LEVEL = 'model_checking'
RULE = ('every pair of lists of values up to a length, for each error measure, as lists or arrays, against its definition; every value and pair of ranges for rescaling; every distribution, center, scale and point for density, adherence and inverse, '
        'against the standard library formulas or numerical identities. A non-trivial outcome is a distinct value')
ASSUMPTIONS = ['percentage errors are not defined on zeros, and logarithmic ones on ratios which are not positive', 'ranges are not negative and not empty when rescaling', 'distributions are those symmetric around their center']
BOUNDS = {'quick': 'lists of up to 3 values out of 5, rescaling over 6 values, 5 distributions in 9 places', 'thorough': 'lists of up to 4 values out of 5 and 3 out of 8, rescaling over 9 values, 8 distributions in 15 places'}
CHUNK = 1
VALUES = (-2, -0.5, 0, 1, 3)
MORE = (-1e6, -2, -0.5, 0, 1e-3, 1, 3, 7)
MEASURES = ('mean_absolute_error', 'max_absolute_error', 'mean_squared_error', 'mean_absolute_percentage_error', 'max_absolute_percentage_error', 'mean_absolute_log_error', 'max_absolute_log_error')
DISTS = {'norm': {}, 'laplace': {}, 'logistic': {}, 'gennorm': dict(beta=0.8), 't': dict(df=4)}
MORE_DISTS = {'cauchy': {}, 'gennorm ': dict(beta=3.5), 't ': dict(df=30)}


def cases(tier):
    for m in MEASURES:
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for first in VALUES:
                yield dict(kind='measure', measure=m, n=n, first=first, values=list(VALUES))
        if tier != 'quick':
            for n in (1, 2, 3):
                for first in MORE:
                    yield dict(kind='measure', measure=m, n=n, first=first, values=list(MORE))
    grid = [0, 0.5, 1, 3, 7, 100] + ([] if tier == 'quick' else [1e-6, 2, 1e6])
    for a in grid:
        yield dict(kind='rescale', a=a, grid=grid)
    for d in list(DISTS) + ([] if tier == 'quick' else list(MORE_DISTS)):
        for loc in (-40, 0, 5) if tier == 'quick' else (-4000, -5, 0, 0.3, 7000):
            for scale in (0.01, 1, 3):
                yield dict(kind='dist', dist=d, loc=loc, scale=scale)


def run(ctx, case):
    globals()[case['kind']](ctx, **{k: v for k, v in case.items() if k != 'kind'})


def measure(ctx, measure, n, first, values):
    func = getattr(ut, measure)
    for rest in itertools.product(values, repeat=n - 1):
        actual = (first,) + rest
        for predicted in itertools.product(values, repeat=n):
            if 'percentage' in measure:
                each = [abs((a - p) / a) if a else None for a, p in zip(actual, predicted)]
            elif 'log' in measure:
                each = [abs(math.log(a / p)) if p and a / p > 0 else None for a, p in zip(actual, predicted)]
            elif 'squared' in measure:
                each = [(a - p) ** 2 for a, p in zip(actual, predicted)]
            else:
                each = [abs(a - p) for a, p in zip(actual, predicted)]
            if None in each:
                continue
            exp = max(each) if measure.startswith('max') else math.fsum(each) / n
            got = outcome_of(func, list(actual), list(predicted))
            arr = outcome_of(func, numpy.array(actual, dtype=float), numpy.array(predicted, dtype=float))
            ctx.step(2)
            ctx.state((measure, actual, predicted))
            for how, g in (('lists', got), ('arrays', arr)):
                ctx.check(g[0] == 'ok' and close(float(g[1]), exp, rel=1e-9, abs_=1e-12), 'measure', lambda: '{} of {} {} and {} is {} instead of {}'.format(measure, how, actual, predicted, g, exp))
            ctx.ok()
            ctx.outcome((measure, round(exp, 9)))
        # Different lengths
        for other in (actual + (1,), actual[:-1]):
            for one, two in ((actual, other), (other, actual)):
                if one and two:
                    got = outcome_of(func, list(one), list(two))
                    ctx.step()
                    ctx.check(got[0] == 'err', 'lengths', lambda: '{} of {} and {} is {}'.format(measure, one, two, got))


def rescale(ctx, a, grid):
    for b in grid:
        for v in grid:
            for c, d in itertools.product(grid, repeat=2):
                got = outcome_of(ut.rescale, v, a, b, c, d)
                ctx.step()
                ctx.state((v, a, b, c, d))
                if a <= v <= b and a < b:
                    exp = c + (v - a) / (b - a) * (d - c)
                    ctx.check(got[0] == 'ok' and close(got[1], exp, rel=1e-9, abs_=1e-9), 'rescale', lambda: 'rescaling {} from {} to {} is {} instead of {}'.format(v, (a, b), (c, d), got, exp))
                    ctx.outcome(round(exp, 9))
                    ctx.ok()
                else:
                    ctx.check(got[0] == 'err', 'refusals', lambda: 'rescaling {} from {} to {} is {}'.format(v, (a, b), (c, d), got))
            if a <= v <= b and a < b:
                got = outcome_of(ut.rescale, v, a, b)
                ctx.step()
                ctx.check(got[0] == 'ok' and close(got[1], (v - a) / (b - a)), 'rescale', lambda: 'rescaling {} from {} is {}'.format(v, (a, b), got))
    for args in ((-1, 0, 1), (1, -1, 2), (0, 0, -1), (1, 0, 2, -1, 1), (1, 0, 2, 0, -1)):
        got = outcome_of(ut.rescale, *args)
        ctx.step()
        ctx.check(got[0] == 'err', 'refusals', lambda: 'rescaling {} is {}'.format(args, got))


def dist(ctx, dist, loc, scale):
    shape = dict(DISTS, **MORE_DISTS)[dist]
    dist = dist.strip()
    where = '{} {}'.format(dist, dict(shape, loc=loc, scale=scale))
    got = outcome_of(DistributionFunction, dist, dict(shape, loc=loc, scale=scale))
    ctx.step()
    if not ctx.check(got[0] == 'ok', 'new', lambda: '{}: {}'.format(where, got)):
        return
    d = got[1]
    ref = getattr(scipy.stats, dist)

    def pdf(z):
        if dist == 'norm':
            return math.exp(-z * z / 2) / math.sqrt(2 * math.pi) / scale
        if dist == 'laplace':
            return math.exp(-abs(z)) / 2 / scale
        if dist == 'logistic':
            return math.exp(-z) / (1 + math.exp(-z)) ** 2 / scale
        if dist == 'cauchy':
            return 1 / (math.pi * (1 + z * z)) / scale
        if dist == 'gennorm':
            b = shape['beta']
            return b / (2 * math.gamma(1 / b)) * math.exp(-abs(z) ** b) / scale
        k = shape['df']
        return math.gamma((k + 1) / 2) / math.sqrt(k * math.pi) / math.gamma(k / 2) * (1 + z * z / k) ** (-(k + 1) / 2) / scale

    def tails(z):
        """Probability of being as far from the center, or more."""
        if dist == 'norm':
            return math.erfc(abs(z) / math.sqrt(2))
        if dist == 'laplace':
            return math.exp(-abs(z))
        if dist == 'logistic':
            return 2 / (1 + math.exp(abs(z)))
        if dist == 'cauchy':
            return 1 - 2 / math.pi * math.atan(abs(z))
        return 2 * float(ref.sf(abs(z), **shape))

    last = None
    for k in range(0, 41):
        z = k / 8
        for s in (1, -1):
            x = loc + s * z * scale
            got, adh = outcome_of(d, x), outcome_of(d.adherence, x)
            ctx.step(2)
            ctx.state((where, x))
            ctx.check(got[0] == 'ok' and close(float(got[1]), pdf(z), rel=1e-6), 'density', lambda: '{}: at {} is {} instead of {}'.format(where, x, got, pdf(z)))
            ctx.check(adh[0] == 'ok' and close(float(adh[1]), tails(z), rel=1e-6, abs_=1e-9) and 0 <= adh[1] <= 1, 'adherence', lambda: '{}: adherence of {} is {} instead of {}'.format(where, x, adh, tails(z)))
            ctx.outcome(round(tails(z), 9))
            ctx.ok()
        if z:
            for side, s in (('right', 1), ('left', -1), (None, 1)):
                y = pdf(z)
                got = outcome_of(d.find_x, y, **(dict(side=side) if side else {}))
                ctx.step()
                ctx.check(got[0] == 'ok' and close(got[1], loc + s * z * scale, rel=1e-6, abs_=1e-6 * scale), 'inverse', lambda: '{}: on the {} {} is at {} instead of {}'.format(where, side, y, got, loc + s * z * scale))
    got = outcome_of(d.find_x, pdf(1), side='up')
    ctx.check(got[0] == 'err', 'refusals', lambda: '{}: found {} up'.format(where, got))
    for bad, params in (('nothing', dict(loc=loc, scale=scale)), (dist, dict(shape, loc=loc, scale=scale, unknown=1))):
        got = outcome_of(DistributionFunction, bad, params)
        ctx.step()
        ctx.check(got[0] == 'err', 'refusals', lambda: 'accepted {} {}'.format(bad, params))
