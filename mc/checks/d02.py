"""D02: periodicity detection finds the period of periodic data."""
import math
from mc.lib import *
from timeseria.utilities import detect_periodicity
from timeseria.models.forecasters import PeriodicAverageForecaster
from timeseria.models.reconstructors import PeriodicAverageReconstructor

PROPERTY = 'D02'
LEVEL = 'model_checking'
RULE = ('every period, number of repetitions, phase, amplitude, level and secondary harmonic of a sinusoidal pattern over whole repetitions, on points and slots of several resolutions: the period detected, and the models fit with the automatic detection '
        'against those fit giving the period, also with a different period for each label. A non-trivial outcome is a distinct detected period or refusal')
ASSUMPTIONS = ['whole repetitions only, at least three', 'the secondary harmonic is weaker (up to a half of the main one)', 'periods of two items, and of three items repeated less than four times, can be refused, but never detected as something else']
BOUNDS = {'quick': 'periods 2 to 16, 3 to 6 repetitions, 4 phases, 3 amplitudes, 3 levels, 4 harmonics', 'thorough': 'periods 2 to 48, 3 to 12 repetitions, 6 phases, 3 amplitudes, 3 levels, 4 harmonics'}
CHUNK = 2
ROME = 'Europe/Rome'


def build(kind, values, labels=('a',)):
    if kind == 'points':
        return points([60 * i for i in range(len(values))], values, labels=labels)
    if kind == 'tenths':
        return points([0.125 * i - 20 for i in range(len(values))], values, labels=labels)
    if kind == 'hours':
        return slots(epoch(2019, 3, 30, 20, tz=ROME), '1h', values, labels=labels, tz=ROME)
    return slots(epoch(2019, 3, 28, tz=ROME), '1D', values, labels=labels, tz=ROME)


def wave(n, p, phase, amplitude, level, harmonic):
    out = []
    for i in range(n):
        x = 2 * math.pi * (i + phase) / p
        v = math.sin(x)
        if harmonic:
            v += harmonic[1] * math.sin(harmonic[0] * x + 1)
        out.append(level + amplitude * v)
    return out


def cases(tier):
    quick = tier == 'quick'
    for p in range(2, 17 if quick else 49):
        for k in range(3, 7 if quick else 13):
            yield dict(p=p, k=k, phases=4 if quick else 6)


def run(ctx, case):
    p, k = case['p'], case['k']
    n = p * k
    for h in range(case['phases']):
        phase = h * p / case['phases'] + h * 0.1
        for amplitude in (1, 0.01, 5000):
            for level in (0, 12.5, -300):
                for harmonic in (None, (2, 0.3), (3, 0.5), (2, -0.5)):
                    if harmonic and p / harmonic[0] < 3:
                        continue
                    values = wave(n, p, phase, amplitude, level, harmonic)
                    for kind in ('points', 'tenths', 'hours', 'days') if level == 0 and amplitude == 1 else ('points',):
                        series = build(kind, values)
                        before = snap(series)
                        got = outcome_of(detect_periodicity, series)
                        ctx.step()
                        ctx.state((p, k, phase, amplitude, level, harmonic, kind))

                        def where():
                            return '{} repetitions of a period of {} on {} (phase {}, amplitude {}, level {}, harmonic {})'.format(k, p, kind, phase, amplitude, level, harmonic)

                        # At the border of the spectrum there can be nothing to detect
                        refusable = p < 3 or (p == 3 and k < 4)
                        ctx.check(got == ('ok', p) or (refusable and got[0] == 'err'), 'period', lambda: '{}: {}'.format(where(), got))
                        ctx.check(snap(series) == before, 'source', lambda: '{}: the series changed'.format(where()))
                        ctx.outcome((p, got[0]))
                        ctx.ok()
    # The models
    for kind in ('points', 'hours', 'days'):
        for phase in (0, 1, 1.5):
            q = p + 3
            n = p * q if p * q <= 400 else p * k
            a, b = wave(n, p, phase, 3, 20, None), wave(n, q, phase, 2, 9, (2, 0.2))
            if p > 3 and n == p * q:
                two = build(kind, list(zip(b, a)), labels=('b', 'a'))
                m = PeriodicAverageForecaster()
                got = outcome_of(m.fit, two)
                ctx.step()
                ctx.check(got[0] == 'ok' and m.data['periodicities'] == {'a': p, 'b': q} and m.window == max(p, q), 'labels', lambda: 'two labels with periods {} and {} on {}: {} {}'.format(p, q, kind, got, m.data.get('periodicities')))
                ctx.ok()
            if p > 3:
                series = build(kind, a)
                for cls in (PeriodicAverageForecaster, PeriodicAverageReconstructor):
                    auto, given = cls(), cls()
                    auto.fit(series)
                    given.fit(series, periodicity=p)
                    ctx.step(2)
                    ctx.check({x: v for x, v in auto.data.items() if x not in ('id', 'fitted_at')} == {x: v for x, v in given.data.items() if x not in ('id', 'fitted_at')}, 'automatic',
                              lambda: 'period {} on {}: {} with the automatic detection, {} giving it'.format(p, kind, auto.data, given.data))
                    ctx.ok()
    for constant in (0, 5):
        got = outcome_of(detect_periodicity, build('points', [constant] * n))
        ctx.step()
        ctx.check(got[0] == 'err', 'constant', lambda: 'a constant series of {} items has a period of {}'.format(n, got))
