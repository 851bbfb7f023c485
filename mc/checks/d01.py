"""D01: sampling interval detection finds the dominant spacing."""
import itertools
import signal
from collections import Counter
from mc.lib import *
from timeseria.utilities import detect_sampling_interval

PROPERTY = 'D01'
LEVEL = 'model_checking'
RULE = ('(short) every sequence of spacings over a set up to a length, at several origins, (long) every number of items around the one from which nearly all different spacings are rounded, every number and placement of repeated spacings and every jitter, (histories) every sequence of edits and '
        'detections: interval and confidence against a direct count, with a watchdog on termination. A non-trivial outcome is a distinct (interval, confidence) or refusal')
ASSUMPTIONS = ['spacings are exactly representable', 'when nearly all of the spacings (more than 95% of the items) differ, spacings rounded to the second are considered', 'on ties any of the most frequent is fine']
BOUNDS = {'quick': 'up to 6 spacings over 5, 17 to 26 items with up to 4 repeated spacings, histories of 5 operations', 'thorough': 'up to 8 spacings over 5, 15 to 45 items with up to 5 repeated spacings, histories of 7 operations'}
CHUNK = 4
SPACINGS = [1, 2.5, 60, 61, 0.25]
OPS = ['append 1', 'append 2', 'append 4', 'insert', 'pop first', 'pop last', 'remove', 'detect', 'slice', 'duplicate']


class Hang(Exception):
    pass


def limited(f, *a, **k):
    def late(*_):
        raise Hang('still running after 5 s')
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 5)
    try:
        return outcome_of(f, *a, **k)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def reference(spacings, items):
    """The acceptable intervals and the confidence, or None if it has to be refused."""
    count = Counter(spacings)
    if len(count) / items > 0.95:
        # Nearly all different
        rounded = Counter()
        for s in spacings:
            rounded[round(s)] += 1
        count = rounded
        if len(count) / items > 0.95:
            return None
    top = sorted(count.values())[::-1]
    best = [s for s, c in count.items() if c == top[0]]
    return best, 1.0 if len(top) == 1 else 1 - top[1] / top[0]


def cases(tier):
    top = 6 if tier == 'quick' else 8
    for n in range(1, top + 1):
        for first in range(5):
            yield dict(part='short', n=n, first=first)
    for n in range(17, 27) if tier == 'quick' else range(15, 46):
        for same in range(0, 5 if tier == 'quick' else 6):
            yield dict(part='long', n=n, same=same)
    depth = 5 if tier == 'quick' else 7
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            yield dict(part='histories', depth=depth, first=a, second=b)


def run(ctx, case):
    globals()['run_' + case['part']](ctx, case)


def check(ctx, spacings, start=0, key='detection', value=lambda i: i, labels=('a',), tz=None):
    ts = [start]
    for s in spacings:
        ts.append(ts[-1] + s)
    series = points(ts, [value(i) for i in range(len(ts))], labels=labels, tz=tz)
    before = snap(series)
    got = limited(detect_sampling_interval, series, confidence=True)
    got2 = limited(detect_sampling_interval, series)
    ctx.step(2)
    ref = reference(spacings, len(ts))

    def where():
        return '{} items from {} with spacings {}'.format(len(ts), start, spacings)

    ctx.check('Hang' not in (got[1], got2[1]), 'termination', lambda: '{}: not terminating'.format(where()))
    if ref is None:
        ctx.check(got[0] == got2[0] == 'err', key, lambda: '{}: detected {} with no predominant spacing'.format(where(), got))
        return 'refused'
    if not ctx.check(got[0] == got2[0] == 'ok', key, lambda: '{}: {}'.format(where(), got)):
        return None
    ctx.check(got[1][0] in ref[0] and got2[1] == got[1][0], key, lambda: '{}: detected {}, {} instead of {}'.format(where(), got, got2, ref))
    ctx.check(close(got[1][1], ref[1]) and 0 <= got[1][1] <= 1, 'confidence', lambda: '{}: confidence {} instead of {}'.format(where(), got, ref))
    ctx.check(snap(series) == before, 'source', lambda: '{}: the series changed'.format(where()))
    ctx.ok()
    return got[1]


def run_short(ctx, case):
    for rest in itertools.product(SPACINGS, repeat=case['n'] - 1):
        spacings = [SPACINGS[case['first']]] + list(rest)
        results = set()
        for start in (0, 1554000000, -500.5):
            results.add(check(ctx, spacings, start))
        results.add(check(ctx, spacings, 1554000000, value=lambda i: (5, i * 1e6), labels=('b', 'a'), tz='Europe/Rome'))
        results.add(check(ctx, spacings, 0, value=lambda i: 'x' if i else 'y'))
        ctx.check(len(results) == 1, 'values', lambda: 'spacings {}: results {} depend on something else'.format(spacings, results))
        ctx.state(tuple(spacings))
        ctx.outcome(tuple(results))
        # The guess of the resolution is the detected interval
        ts = [0]
        for s in spacings:
            ts.append(ts[-1] + s)
        series = points(ts, list(range(len(ts))))
        got = outcome_of(series.guess_resolution, confidence=True)
        ctx.step()
        if len(set(spacings)) == 1:
            ctx.check(got[0] == 'err', 'guess', lambda: 'resolution guessed for a well defined one: {}'.format(got))
        else:
            best, confidence = reference(spacings, len(ts))
            ctx.check(got[0] == 'ok' and any(close(got[1]['value'].as_seconds(), b) for b in best) and close(got[1]['confidence'], confidence), 'guess', lambda: 'spacings {}: guessed {} instead of {}'.format(spacings, got, (best, confidence)))
            repeated = outcome_of(series.guess_resolution)
            ctx.check(repeated[0] == 'ok' and repeated[1] == got[1]['value'], 'guess', lambda: 'spacings {}: guessed {} then {}'.format(spacings, got, repeated))
        ctx.ok()


def run_long(ctx, case):
    n, same = case['n'], case['same']
    m = n - 1
    for jitter in (0, 0.25, 0.03125):
        for base in (10, 1000):
            for placement in ('start', 'end', 'middle', 'spread'):
                # All different, but for the repeated ones: with the jitter they are equal once rounded
                if jitter:
                    spacings = [base + jitter * (k - m // 2) / 8 for k in range(m)]
                else:
                    spacings = [base + 3 * k for k in range(m)]
                where = {'start': range(same), 'end': range(m - same, m), 'middle': range((m - same) // 2, (m - same) // 2 + same), 'spread': range(0, m, max(m // max(same, 1), 1))}[placement]
                for k in list(where)[:same]:
                    spacings[k] = base * 2 + 1
                got = check(ctx, spacings, 0, 'long')
                ctx.state(tuple(spacings))
                ctx.outcome(got)
                # Whatever it is, the series can be shown
                ts = [0]
                for s in spacings:
                    ts.append(ts[-1] + s)
                shown = limited(lambda: str(points(ts, list(range(n)))))
                ctx.step()
                ctx.check(shown[0] == 'ok', 'shown', lambda: 'a series with spacings {} cannot be shown: {}'.format(spacings, shown))
    # Sub-second spacings all different cannot be rounded to nothing
    for base in (0.25, 0.5, 0.125):
        spacings = [base + k / 1024 for k in range(m)]
        ts = [0]
        for s in spacings:
            ts.append(ts[-1] + s)
        got = limited(detect_sampling_interval, points(ts, list(range(n))))
        ctx.step()
        ctx.check(got[1] != 'Hang' and (got[0] == 'err' or got[1] > 0), 'positive', lambda: 'spacings {}: detected {}'.format(spacings, got))


def run_histories(ctx, case):
    for rest in itertools.product(range(len(OPS)), repeat=case['depth'] - 2):
        history = (case['first'], case['second']) + rest
        series, ts, new = points([0, 1, 2, 4], [0, 1, 2, 3]), [0, 1, 2, 4], 100
        for h in history:
            op = OPS[h].split()
            ctx.step()
            if op[0] == 'append':
                t = (ts[-1] if ts else 0) + int(op[1])
                series.append(DataTimePoint(t=t, data={'a': new}))
                ts.append(t)
            elif op[0] == 'insert':
                if len(ts) < 2:
                    continue
                t = (ts[0] + ts[1]) / 2
                series.insert(1, DataTimePoint(t=t, data={'a': new}))
                ts.insert(1, t)
            elif op[0] == 'pop':
                if not ts:
                    continue
                k = 0 if op[1] == 'first' else len(ts) - 1
                series.pop(k)
                ts.pop(k)
            elif op[0] == 'remove':
                if len(ts) < 3:
                    continue
                series.remove(series[1])
                ts.pop(1)
            elif op[0] == 'slice':
                if len(ts) < 3:
                    continue
                series, ts = series[1:], ts[1:]
            elif op[0] == 'duplicate':
                series = series.duplicate()
            elif op[0] == 'detect':
                if len(ts) > 2:
                    outcome_of(series.guess_resolution)
                    outcome_of(str, series)
        if len(ts) < 2:
            continue
        spacings = [b - a for a, b in zip(ts, ts[1:])]
        ref = reference(spacings, len(ts))
        # Also as the transformations use it, even if the resolution is not variable
        got = (getattr(series, '_autodetected_sampling_interval', None), getattr(series, '_autodetected_sampling_interval_confidence', None))
        ctx.check(None in got or got[0] in ref[0] and close(got[1], ref[1]), 'history', lambda: 'after {}: {} instead of {} for {}'.format([OPS[h] for h in history], got, ref, ts))
        ctx.state(tuple(ts))
        ctx.outcome(got)
        if len(set(spacings)) > 1:
            guess = outcome_of(series.guess_resolution, confidence=True)
            ctx.check(guess[0] == 'ok' and any(close(guess[1]['value'].as_seconds(), b) for b in ref[0]) and close(guess[1]['confidence'], ref[1]), 'history', lambda: 'after {}: guessed {} instead of {} for {}'.format([OPS[h] for h in history], guess, ref, ts))
        ctx.ok()
