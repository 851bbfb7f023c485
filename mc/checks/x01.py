"""X01: what is done in a thread is not affected by what is done in another one."""
import os
import shutil
import sys
import threading
import warnings
import timeseria
from mc import core
from mc.lib import *
from mc.checks import h01
from mc.checks.h01 import ALL_MODELS
from timeseria.operations import min as min_, max as max_, sum as sum_, avg, merge
from timeseria.transformations import Resampler, Aggregator
from timeseria.models.reconstructors import LinearInterpolationReconstructor
from timeseria.utilities import detect_periodicity, detect_sampling_interval

PROPERTY = 'X01'
LEVEL = 'model_checking'
RULE = ('every ordered pair of functions, the second one run entirely by another thread at a point of the first one, for every such point (before each line of the package executed by the first one, the first times it is executed), under a scheduler controlling both: on the same series and on different ones, with models fit and used on them, and saving and loading files. '
        'Each of the two must give what it gives on its own, and the series and models must be as they were. A non-trivial outcome is a distinct pair of results')
ASSUMPTIONS = ['one preemption at a time, at the beginning of a line of the package, with the other thread then running until its end (or until it waits for the first one)', 'the same objects are only read by the two threads: editing a series, or fitting a model, while it is in use elsewhere is up to the user']
BOUNDS = {'quick': '3 kinds of series of 6 items, 30 functions by 9, 5 models and all of their uses, 6 saves and loads, each line the first time and the first after', 'thorough': '5 kinds of series, 36 by 12 functions, each line the first two times, 16 models'}
CHUNK = 1
TIMEOUT = 850
warnings.simplefilter('ignore')

PACKAGE = os.path.dirname(os.path.abspath(timeseria.__file__)) + os.sep
KINDS = {'points': lambda k=0: points([600 * i for i in range(6)], [(3 + k, 1), (1, 4), (4, 1), (1.5, 5 + k), (5, 9), (9, 2)], labels=('b', 'a'), indexes=[{'x': i / 8} for i in range(6)]),
         'slots': lambda k=0: slots(epoch(2019, 3, 30, tz='Europe/Rome'), '1D', [3 + k, 1, 4, 1, 5, 9], tz='Europe/Rome', losses=[0, 0.5, 1, None, 1, 0]),
         'uneven': lambda k=0: points([0, 600, 1200, 3000, 3600, 4260.5], [2 + k, 7, 1, 8, 2, 8], tz='America/New_York'),
         'lists': lambda k=0: points([60 * i for i in range(6)], [(3 + k, 1, 2), (1, 4, 2), (4, 1, 2), (1.5, 5, 7), (5, 9, 1), (9, 2, 2)], kind='list'),
         'hours': lambda k=0: slots(epoch(2019, 10, 26, 23, tz='Europe/Rome'), '1h', [(3 + k, 1), (1, 4), (4, 1), (1, 5), (5, 9), (9, 2)], labels=('b', 'a'), tz='Europe/Rome')}


def at(i):
    return i.start if isinstance(i, Slot) else i


def folder():
    return core.scratch() + '/x01-{}'.format(os.getpid())


def file():
    """A file of the thread."""
    return '{}/{}.csv'.format(folder(), threading.get_ident())


def csv(s):
    path = file()
    s.save(path, overwrite=True)
    try:
        return TimeSeries.load(path)
    finally:
        os.remove(path)


FUNCTIONS = {
    'items': lambda s: [i for i in s], 'resolution': lambda s: [str(s.resolution), str(s.tz), s.data_labels(), len(s)], 'min': lambda s: s.min(), 'avg': lambda s: s.avg(), 'sampling': lambda s: detect_sampling_interval(s), 'csv': csv, 'resample': lambda s: s.resample(300), 'aggregate': lambda s: s.aggregate('20m'),
    'dict': lambda s: TimeSeries.from_dict(s.to_dict()), 'slice(t)': lambda s: s.slice(from_t=at(s[1]).t, to_t=at(s[4]).t), 'diff': lambda s: s.diff(), 'interpolate': lambda s: LinearInterpolationReconstructor().apply(s),
    # Only as the first one
    'max': lambda s: s.max(), 'sum': lambda s: s.sum(), 'derivative': lambda s: s.derivative(), 'integral': lambda s: s.integral(), 'csum': lambda s: s.csum(), 'normalize': lambda s: s.normalize(), 'rescale': lambda s: s.rescale(2.5), 'offset': lambda s: s.offset(-3), 'mavg': lambda s: s.mavg(2), 'merge': lambda s: merge(s[1:], s[:-1]),
    'slice': lambda s: s.slice(1, 4), 'view': lambda s: [s.view(1, 4).avg(), list(s.view(1, 4))], 'get': lambda s: s.get(at_t=at(s[3]).t), 'filter': lambda s: s.filter(s.data_labels()[0]), 'select': lambda s: s.select('{}=1'.format(s.data_labels()[0])), 'json': lambda s: TimeSeries.from_json(s.to_json()), 'df': lambda s: TimeSeries.from_df(s.to_df()),
    'aggregate(ops)': lambda s: Aggregator('30m', operations=[min_, max_, sum_, avg]).process(s), 'duplicate': lambda s: s.duplicate(), 'as_tz': lambda s: s.as_tz('Asia/Tokyo'), 'str': lambda s: [str(s), repr(s), s.summary()], 'guess': lambda s: str(s.guess_resolution()), 'equal': lambda s: [s == s, s[0] == s[1], s[2] in s], 'resample(2)': lambda s: s.resample(1200),
}
SECOND = list(FUNCTIONS)[:12]
NAMES = {'quick': list(FUNCTIONS)[:30], 'thorough': list(FUNCTIONS)}
MODELS = {'quick': ['PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'PeriodicAverageAnomalyDetector', 'LinearInterpolationReconstructor', 'LSTM'], 'thorough': list(ALL_MODELS)}


def cases(tier):
    for kind in list(KINDS)[:3 if tier == 'quick' else None]:
        for a in NAMES[tier]:
            yield dict(what='functions', kind=kind, a=a, tier=tier)
    for name in MODELS[tier]:
        if name in ALL_MODELS:
            yield dict(what='models', name=name, tier=tier)
    for a in FILES:
        yield dict(what='files', a=a, tier=tier)


def run(ctx, case):
    os.makedirs(folder(), exist_ok=True)
    try:
        globals()[case['what']](ctx, **{k: v for k, v in case.items() if k != 'what'})
    finally:
        shutil.rmtree(folder(), ignore_errors=True)


# The scheduler

def lines(fn):
    """The lines of the package executed by a function, in order."""
    seen = []

    def local(frame, event, arg):
        if event == 'line':
            seen.append((frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno))
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PACKAGE) else None
    sys.settrace(trace)
    try:
        outcome_of(fn)
    finally:
        sys.settrace(None)
    return seen


def moments(fn, times):
    """Where to switch: before each line, the first times it is executed."""
    count, out = {}, []
    for n, where in enumerate(lines(fn)):
        count[where] = count.get(where, 0) + 1
        if count[where] <= times:
            out.append(n)
    return out


def switched(a, b, when):
    """The outcome of both, the second one run by another thread at that moment of the first one."""
    left = [when]
    results = {}
    thread = threading.Thread(target=lambda: results.update(b=outcome_of(b)))

    def local(frame, event, arg):
        if event == 'line':
            if not left[0]:
                sys.settrace(None)
                thread.start()
                # If it waits for the first one it has to go on
                thread.join(20)
            left[0] -= 1
        return local if left[0] >= 0 else None

    def trace(frame, event, arg):
        return local if left[0] >= 0 and frame.f_code.co_filename.startswith(PACKAGE) else None
    sys.settrace(trace)
    try:
        results['a'] = outcome_of(a)
    finally:
        sys.settrace(None)
    if left[0] >= 0:
        # Not reached, as it may be if something is computed only once
        thread.start()
    thread.join(60)
    return results['a'], results.get('b', ('err', 'stuck'))


def picture(v):
    if isinstance(v, Series):
        return ('series', snap(v)[1], sorted(map(str, v.data_labels())) if len(v) and hasattr(v[0], 'data') else None)
    if isinstance(v, (Point, Slot)):
        return snap_item(v)
    if isinstance(v, (list, tuple)):
        return [picture(x) for x in v]
    if isinstance(v, dict):
        return sorted((str(k), picture(x)) for k, x in v.items())
    return repr(v)


def shown(got):
    return ('ok', picture(got[1])) if got[0] == 'ok' else got[:2]


# On series

def functions(ctx, kind, a, tier):
    fa = FUNCTIONS[a]
    ref_a = shown(outcome_of(fa, KINDS[kind]()))
    when = moments((lambda s: lambda: fa(s))(KINDS[kind]()), 2)
    for b in SECOND[:9] if tier == 'quick' else SECOND:
        fb = FUNCTIONS[b]
        for other in (False, True):
            ref_b = shown(outcome_of(fb, KINDS[kind](1 if other else 0)))
            if ref_b[0] == 'err' and not other:
                # What is not possible on this series
                continue
            for n in when[::1 if not other else 8 if tier == 'quick' else 3]:
                s = KINDS[kind]()
                t = KINDS[kind](1) if other else s
                got = switched(lambda: fa(s), lambda: fb(t), n)
                ctx.step()
                report(ctx, '{} of {} with {} {} at {}'.format(a, kind, b, 'of another' if other else 'of it', n), (ref_a, ref_b), (shown(got[0]), shown(got[1])))
                ctx.check(snap(s) == snap(KINDS[kind]()), 'altered', lambda: '{} of {} with {} at {}: left {}'.format(a, kind, b, n, snap(s)))
                ctx.state((kind, a, b, other, n))
                ctx.ok()
        ctx.outcome(repr((kind, a, b, ref_a, ref_b)))


def report(ctx, what, refs, got):
    for k in (0, 1):
        ctx.check(got[k] == refs[k], ('first', 'second')[k], lambda: '{}: the {} gives {} instead of {}'.format(what, ('first', 'second')[k], got[k], refs[k]))


# With models

def source(k=0, n=12):
    return points([600 * i for i in range(n)], [10 + (i % 4) * 2 + (k if i % 3 else 0.5) + i / 16 for i in range(n)], labels=('a',), indexes=[{'data_loss': 1 if i in (5, 6) else 0} for i in range(n)])


def create(name):
    model, kw = h01.make(name)
    if kw is not None:
        model.fit(source(), **kw)
    return model


def save(model):
    path = '{}/m-{}'.format(folder(), threading.get_ident())
    try:
        model.save(path)
        return sorted((f, open(os.path.join(d, f)).read()) for d, _, files in os.walk(path) for f in files if f.endswith('json'))
    finally:
        shutil.rmtree(path, ignore_errors=True)


def uses(name):
    out = {}
    for op, kw in h01.uses_of(name):
        if op != 'cross_validate' and not kw.get('inplace'):
            out['{} {}'.format(op, sorted(kw.items()))] = lambda m, k, op=op, kw=kw: getattr(m, op)(source(k), **kw)
    out['save'] = lambda m, k: save(m)
    if h01.make(name)[1] is not None:
        # Another one
        out['fit'] = lambda m, k: (lambda other: other.fit(source(k), **h01.make(name)[1]) or other.predict(source(k)))(h01.make(name)[0]) if hasattr(m, 'window') else None
    return out


def kept(model):
    """What is in a saved model, but for the moment and the identifiers."""
    return repr(sorted((k, repr(v)) for k, v in model.data.items()))


def models(ctx, name, tier):
    every = uses(name)
    model = create(name)
    before = kept(model)
    for a, fa in every.items():
        ref_a = shown(outcome_of(fa, model, 0))
        when = moments(lambda: fa(model, 0), 1 if tier == 'quick' else 2)
        for b, fb in every.items():
            ref_b = shown(outcome_of(fb, model, 3))
            for n in when:
                got = switched(lambda: fa(model, 0), lambda: fb(model, 3), n)
                ctx.step()
                report(ctx, '{} {} with {} at {}'.format(name, a, b, n), (ref_a, ref_b), (shown(got[0]), shown(got[1])))
                ctx.check(kept(model) == before, 'model', lambda: '{} {} with {} at {}: left {} instead of {}'.format(name, a, b, n, kept(model), before))
                ctx.state((name, a, b, n))
                ctx.ok()
            ctx.outcome(repr((name, a, b, ref_a, ref_b)))


# With files

def series(k):
    return [points([600 * i for i in range(5)], [(3, 1), (1, 4), (4, 1), (1.5, 5), (5, 9)], labels=('b', 'a'), indexes=[{'x': i / 8} for i in range(5)]),
            slots(epoch(2019, 3, 30, tz='Europe/Rome'), '1D', [3, 1, 4, 1, 5, 9, 2], tz='Europe/Rome', labels=('c',), losses=[0, 0.5, 1, None, 1, 0, 0])][k]


def path(k):
    return '{}/file{}.csv'.format(folder(), k)


FILES = {'save the first': lambda: series(0).save(path(0), overwrite=True), 'save the second': lambda: series(1).save(path(1), overwrite=True), 'save the second as the first': lambda: series(1).save(path(0), overwrite=True), 'save it as new': lambda: series(1).save(path(2)),
         'load the first': lambda: TimeSeries.load(path(0)), 'load the second': lambda: TimeSeries.load(path(1))}


def files(ctx, a, tier):
    def prepare():
        shutil.rmtree(folder(), ignore_errors=True)
        os.makedirs(folder())
        series(0).save(path(0))
        series(1).save(path(1))

    prepare()
    good = [shown(outcome_of(TimeSeries.load, path(k))) for k in (0, 1)]
    when = moments(FILES[a], 2 if tier == 'quick' else 6)
    for b in FILES:
        for n in when:
            prepare()
            got = switched(FILES[a], FILES[b], n)
            ctx.step()
            where = '{} with {} at {}'.format(a, b, n)
            for name, one, other in ((a, got[0], b), (b, got[1], a)):
                if name.startswith('load'):
                    # What was there before or what is there after
                    allowed = [good[0 if name == 'load the first' else 1]] + ([good[1]] if name == 'load the first' and other == 'save the second as the first' else [])
                    ctx.check(shown(one) in allowed, 'load', lambda: '{}: {} gives {}'.format(where, name, shown(one)))
                elif not (name == 'save it as new' == other):
                    ctx.check(one[0] == 'ok', 'save', lambda: '{}: {} gives {}'.format(where, name, one))
                else:
                    # Both may find it not to be there yet
                    ctx.check('ok' in (got[0][0], got[1][0]), 'save', lambda: '{}: {}'.format(where, got))
            now = [shown(outcome_of(TimeSeries.load, path(k))) for k in (0, 1)]
            expected = [good] if 'save the second as the first' not in (a, b) else [[good[1], good[1]]] + ([good] if 'save the first' in (a, b) else [])
            ctx.check(now in expected, 'file', lambda: '{}: left {}'.format(where, now))
            names = {'file0.csv', 'file1.csv'} | ({'file2.csv'} if 'save it as new' in (a, b) else set())
            ctx.check(set(os.listdir(folder())) == names, 'left', lambda: '{}: left {}'.format(where, sorted(os.listdir(folder()))))
            if 'save it as new' in (a, b):
                ctx.check(shown(outcome_of(TimeSeries.load, path(2))) == good[1], 'new', lambda: '{}: loads {}'.format(where, outcome_of(TimeSeries.load, path(2))))
            ctx.state((a, b, n))
            ctx.outcome((a, b, got[0][0], got[1][0], now == good))
            ctx.ok()
