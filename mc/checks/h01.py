"""H01: what is computed depends only on the data, and not on what has been done before."""
import hashlib
import os
import pickle
import signal
import sys
import warnings
from datetime import datetime
import pytz
from mc import core
from mc.lib import *
from mc.checks.o01 import OPS, picture
from mc.checks.m01 import MODELS, SLOW, uses
from mc.checks.m02 import show
from mc.checks import m09
from timeseria import operations
from timeseria.models.forecasters import LSTMForecaster, PeriodicAverageForecaster
from timeseria.models.reconstructors import PeriodicAverageReconstructor
from timeseria.transformations import Resampler, Aggregator
from timeseria.units import TimeUnit
from timeseria.utilities import detect_periodicity, detect_sampling_interval

PROPERTY = 'H01'
LEVEL = 'model_checking'
RULE = ('every function on every ordered pair of series of families of nearly identical ones (differing in one value, label, loss, index, item, time zone, phase), one after the other in the same process and with the same objects; every ordered pair of functions on all of the series of a family; '
        'every function, then every edit of the series, then every function; every model fit on a series (also after a fit on another one, and with another model in between) and used on every ordered pair of series, and on the same series edited; every unit of time on every ordered pair of instants; '
        'each result is compared with the one in a new process where nothing has been done before. A non-trivial outcome is a distinct result')
ASSUMPTIONS = ['the models needing TensorFlow use a stand-in for Keras; ARIMA and Prophet are covered in M01 only']
BOUNDS = {'quick': '5 families of 14 to 16 series of 8 items, 69 functions, 17 edits, 16 models on half of the series, 11 units on 35 instants', 'thorough': 'same, on all of the series, with all of the pairs of functions, and each result compared with the one in a process on its own'}
CHUNK = 1
TIMEOUT = 800
ROME = 'Europe/Rome'

warnings.simplefilter('ignore')

VALUES = [3, 1, 4, 1.5, 5, 9, 2, 6]
FAMILIES = {'minutes': ('points', 60, 600000, None), 'hours': ('points', 3600, epoch(2019, 10, 26, 21, tz=ROME), ROME), 'hslots': ('slots', '1h', epoch(2019, 3, 30, 21, tz=ROME), ROME),
            'days': ('slots', '1D', epoch(2019, 3, 29, tz=ROME), ROME), 'two': ('points', 60, 0, None)}


def specs(family):
    """Nearly identical series."""
    what, step, start, tz = FAMILIES[family]
    base = dict(family=family, start=start, tz=tz, values=list(VALUES), labels=['b', 'a'] if family == 'two' else ['a'], losses=None, indexes=None, drop=None)
    out = {'base': base}

    def variant(name, **kw):
        out[name] = dict(base, **kw)

    def but(i, v):
        return [v if k == i else x for k, x in enumerate(VALUES)]
    variant('middle', values=but(3, 7))
    variant('middle2', values=but(4, -5))
    variant('first', values=but(0, 2.5))
    variant('last', values=but(7, 6.5))
    variant('swapped', values=[3, 4, 1, 1.5, 5, 9, 2, 6])
    variant('zero', values=[0] + VALUES[1:])
    variant('label', labels=['c', 'a'] if family == 'two' else ['c'])
    variant('labels', labels=['a', 'b', 'c'])
    variant('loss', losses=[None, None, 1, 0.5] + [None] * 4)
    variant('losses', losses=[0, None, 0.25, 0.5] + [1] * 4)
    variant('index', indexes=[{}, {'x': 1}] + [{}] * 6)
    # The same wall clock, with the same offset at the beginning but no changes
    if tz:
        variant('clock', tz='Africa/Algiers' if family != 'hours' else 'Africa/Johannesburg')
        variant('zone', tz='Asia/Kolkata' if what == 'points' else 'Europe/Berlin')
    else:
        variant('zone', tz='America/New_York')
    if family == 'hslots':
        variant('far', tz='Asia/Tokyo')
    if what == 'points':
        variant('gap', drop=3)
        variant('gap2', drop=4)
    return out


def build(spec):
    what, step = FAMILIES[spec['family']][:2]
    rows = [tuple(v + 10 * k for k in range(len(spec['labels']))) for v in spec['values']]
    kw = dict(labels=tuple(spec['labels']), tz=spec['tz'], losses=spec['losses'])
    ids = spec['indexes']
    if what == 'points':
        keep = [i for i in range(len(rows)) if i != spec['drop']]
        kw['losses'] = [spec['losses'][i] for i in keep] if spec['losses'] else None
        s = points([spec['start'] + step * i for i in keep], [rows[i] for i in keep], indexes=[ids[i] for i in keep] if ids else None, **kw)
    else:
        s = slots(spec['start'], step, rows, indexes=ids, **kw)
    return s


def lab(s):
    return s.data_labels()[0]


def step_of(s):
    return s[1].t - s[0].t


# Each one makes what is kept between an use and the other, and gives the function
def plain(fn):
    return lambda: fn


def with_object(make, fn):
    def prepared():
        o = {}

        def use(s):
            k = int(2 * step_of(s))
            if k not in o:
                o[k] = make(k)
            return fn(o[k], s)
        return use
    return prepared


FUNCTIONS = {k: plain(f[0]) for k, f in OPS.items() if not k.startswith('resample')}
FUNCTIONS.update({
    'max(label)': plain(lambda s: s.max(lab(s))), 'labels': plain(lambda s: s.data_labels()), 'tz': plain(lambda s: str(s.tz)), 'len': plain(lambda s: len(s)),
    'str': plain(lambda s: str(s)), 'repr': plain(lambda s: repr(s)), 'contents': plain(lambda s: [snap_item(i) for i in s.contents()]), 'summary': plain(lambda s: s.summary()), 'csv': plain(lambda s: csv(s)), 'json': plain(lambda s: s.to_json()), 'df': plain(lambda s: s.to_df().to_csv()),
    'periodicity': plain(lambda s: detect_periodicity(s)), 'sampling': plain(lambda s: detect_sampling_interval(s, confidence=True)),
    'items': plain(lambda s: [snap_item(i) for i in s]), 'losses': plain(lambda s: [i.data_loss for i in s]), 'all indexes': plain(lambda s: [dict(i.data_indexes) for i in s]),
    'resample': plain(lambda s: s.resample(step_of(s))), 'resample(2)': plain(lambda s: s.resample(2 * step_of(s))),
    'getitem(label)': plain(lambda s: s[lab(s)]), 'slice(i)': plain(lambda s: s.slice(from_i=2, to_i=6)), 'slice(t,t)': plain(lambda s: s.slice(from_t=s[1].t, to_t=s[-2].t)), 'get(t)': plain(lambda s: s.get(at_t=s[3].t)),
    'item': plain(lambda s: s[3]), 'head': plain(lambda s: s.head(3)), 'views': plain(lambda s: s.view(from_i=1, to_i=7).avg()), 'equal': plain(lambda s: (s == s.duplicate(), s == s[:-1])), 'contains': plain(lambda s: (s[3] in s, s.index(s[3]))),
    'Resampler': with_object(Resampler, lambda r, s: r.process(s)), 'Aggregator': with_object(lambda k: Aggregator('{}s'.format(k)), lambda a, s: a.process(s)), 'Aggregator(ops)': with_object(lambda k: Aggregator('{}s'.format(k), operations=[operations.max, operations.avg]), lambda a, s: a.process(s)),
})


def csv(s):
    path = core.scratch() + '/h01-%d.csv' % os.getpid()
    s.to_csv(path, overwrite=True)
    with open(path) as f:
        return [l for l in f.read().splitlines() if not l.startswith('# Generated')]


def middle(s):
    return len(s) // 2


def replaced(s, i, v, loss=None):
    old = s[i]
    data = {k: v for k in old.data}
    if isinstance(old, Slot):
        s[i] = old.__class__(start=old.start, unit=old.unit, data=data, data_loss=loss)
    else:
        s[i] = old.__class__(t=old.t, tz=old.tz, data=data, data_loss=loss)


def following(s):
    last = s[-1]
    data = {k: 11 for k in last.data}
    if isinstance(last, Slot):
        return last.__class__(start=last.end, unit=last.unit, data=data)
    return last.__class__(t=last.t + (last.t - s[-2].t), tz=last.tz, data=data)


def setall(s, i, v):
    for k in s[i].data:
        s[i].data[k] = v


def popfirst(s):
    del s[0]


EDITS = {
    'value': lambda s: setall(s, middle(s), 77), 'value-first': lambda s: setall(s, 0, 0.5), 'value-last': lambda s: setall(s, -1, -3), 'one label': lambda s: s[2].data.update({lab(s): 55}),
    'item': lambda s: replaced(s, middle(s), 33), 'item with loss': lambda s: replaced(s, 2, 4, loss=0.75), 'append': lambda s: s.append(following(s)), 'pop': lambda s: s.pop(), 'del first': popfirst, 'loss': lambda s: s[2].data_indexes.update({'data_loss': 0.5}),
    'index': lambda s: s[3].data_indexes.update({'y': 0.5}), 'tz': lambda s: s.change_tz('Europe/London'), 'rename': lambda s: s.rename_data_label(lab(s), 'zz'), 'remove loss': lambda s: s.remove_data_loss(), 'remove label': lambda s: s.remove_data_label(lab(s)),
    'inplace': lambda s: s.rescale(3, inplace=True), 'all': lambda s: [i.data.update({k: v + 1 for k, v in i.data.items()}) for i in s][:0],
}
ALL_MODELS = dict({k: v[:2] for k, v in MODELS.items() if k not in SLOW}, LSTM=None)
ALL_MODELS['PeriodicAverageForecaster:dst'] = (PeriodicAverageForecaster, dict(periodicity=4, dst_affected=True))
ALL_MODELS['PeriodicAverageReconstructor:dst'] = (PeriodicAverageReconstructor, dict(periodicity=4, dst_affected=True))
TZ = [None, 'UTC', ROME, 'Africa/Algiers', 'America/New_York', 'Asia/Kolkata', 'Europe/London']
WALLS = [(2019, 3, 30, 12), (2019, 3, 31, 1), (2019, 10, 26, 12), (2019, 10, 27, 0, 30), (2020, 1, 31), (2020, 2, 29, 23)]
UNITS = ['1s', '15m', '1h', '6h', '1D', '2D', '1W', '1M', '3M', '1Y', 900]


def cases(tier):
    for family in FAMILIES:
        for f in FUNCTIONS:
            yield dict(what='pairs', family=family, function=f, tier=tier)
            yield dict(what='edited', family=family, function=f, tier=tier)
        for edit in [None] + list(EDITS):
            yield dict(what='everything', family=family, edit=edit, tier=tier)
    for family in FAMILIES:
        for name in ALL_MODELS:
            yield dict(what='models', family=family, name=name, tier=tier)
    for u in UNITS:
        yield dict(what='units', unit=u, tier=tier)


def run(ctx, case):
    globals()[case['what']](ctx, **{k: v for k, v in case.items() if k != 'what'})


# Processes

def isolated(fn, *a):
    """The result of the function in a process where nothing else is done."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(600)
            os.close(r)
            data = pickle.dumps(fn(*a))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            import traceback
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(RuntimeError(traceback.format_exc()[-1500:])))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('no answer')
    out = pickle.loads(data)
    if isinstance(out, RuntimeError):
        raise out
    return out


def references(tier, fn, keys):
    """The result for each key, in a process for each of them or (quick) in another order than the one of the histories, each on new objects."""
    if tier == 'thorough':
        return {k: isolated(fn, *k) for k in keys}
    return isolated(lambda: {k: fn(*k) for k in list(keys)[::-1]})


def outcome(fn, s):
    got = outcome_of(fn, s)
    if got[0] == 'ok':
        try:
            return repr(('ok', picture(got[1])))
        except TypeError:
            # Items with no data left
            return repr(('ok', [snap_item(i) for i in got[1]]))
    return repr(got)


def judge(ctx, key, where, got, ref):
    ctx.step()
    ctx.check(got == ref, key, lambda: '{}: {} instead of {}'.format(where(), got[:1200], ref[:1200]))


def report(ctx, found):
    """What comes from a process doing a history."""
    steps, bad, seen = found
    ctx.step(steps)
    ctx.ok(steps)
    for o in seen:
        ctx.outcome(o)
    for key, message in bad[:3]:
        ctx.fail(key, message)
    ctx.fail_count += max(0, len(bad) - 3)


class Found:
    def __init__(self):
        self.steps, self.bad, self.seen = 0, [], set()

    def compare(self, key, where, got, ref):
        self.steps += 1
        self.seen.add(hashlib.md5(got.encode()).hexdigest()[:12])
        if got != ref:
            self.bad.append((key, '{}: {} instead of {}'.format(where, got[:1200], ref[:1200])))

    def out(self):
        return self.steps, self.bad[:50], self.seen


# One series after the other

def pairs(ctx, family, function, tier):
    all_ = specs(family)
    refs = {k[0]: r for k, r in references(tier, lambda n: outcome(FUNCTIONS[function](), build(all_[n])), [(n,) for n in all_]).items()}
    for n in all_:
        ctx.state(('pairs', family, function, n))

    def history():
        found = Found()
        fn = FUNCTIONS[function]()
        for a in all_:
            for b in all_:
                x, y = build(all_[a]), build(all_[b])
                found.compare('pair', '{} of {} {}'.format(function, family, a), outcome(fn, x), refs[a])
                found.compare('pair', '{} of {} {}, after {}'.format(function, family, b, a), outcome(fn, y), refs[b])
                found.compare('again', '{} of {} {}, after {}, again'.format(function, family, b, a), outcome(fn, y), refs[b])
        return found.out()
    report(ctx, isolated(history))
    # Another function before
    if tier == 'quick':
        return

    def others():
        found = Found()
        fn = FUNCTIONS[function]()
        for other in FUNCTIONS:
            if other == function:
                continue
            first = FUNCTIONS[other]()
            series = {a: build(all_[a]) for a in all_}
            for a in all_:
                outcome(first, series[a])
            for b in all_:
                found.compare('after', '{} of {} {}, after {} on all of them'.format(function, family, b, other), outcome(fn, build(all_[b])), refs[b])
                found.compare('after-same', '{} of {} {}, after {} of the same series'.format(function, family, b, other), outcome(fn, series[b]), refs[b])
        return found.out()
    report(ctx, isolated(others))


def everything(ctx, family, edit, tier):
    """All of the functions, then an edit if any, then each function."""
    all_ = specs(family)
    names = list(all_) if tier == 'thorough' or edit is None else ['base']
    names = [n for n in names if n in all_]

    def reference(name, function):
        s = build(all_[name])
        if edit:
            outcome_of(EDITS[edit], s)
        return outcome(FUNCTIONS[function](), s)
    refs = references(tier, reference, [(n, f) for n in names for f in FUNCTIONS])
    for key in refs:
        ctx.state(('everything', family, edit) + key)

    def history(backwards):
        found = Found()
        fns = {f: FUNCTIONS[f]() for f in FUNCTIONS}
        order = list(fns)[::-1] if backwards else list(fns)
        series = {n: build(all_[n]) for n in names}
        for n in names:
            for f in order:
                outcome(fns[f], series[n])
        for n in names:
            if edit:
                outcome_of(EDITS[edit], series[n])
            for f in order:
                found.compare('everything', '{} of {} {}, after all of the functions{}'.format(f, family, n, ' and then ' + edit if edit else ''), outcome(fns[f], series[n]), refs[n, f])
        return found.out()
    for backwards in (False, True):
        report(ctx, isolated(history, backwards))


# The same series, edited

def edited(ctx, family, function, tier):
    all_ = specs(family)
    names = ['base', 'losses'] if tier == 'quick' else ['base', 'middle', 'losses', 'labels', 'zone']

    def reference(name, edit):
        s = build(all_[name])
        done = outcome_of(EDITS[edit], s)
        return done[0], outcome(FUNCTIONS[function](), s)
    refs = references(tier, reference, [(n, e) for n in names for e in EDITS])
    for name, edit in refs:
        ctx.state(('edited', family, function, name, edit))

    def history():
        found = Found()
        for name in names:
            for edit in EDITS:
                for before in FUNCTIONS if tier == 'thorough' else [function]:
                    fn = FUNCTIONS[function]()
                    first = fn if before == function else FUNCTIONS[before]()
                    s = build(all_[name])
                    outcome(first, s)
                    done = outcome_of(EDITS[edit], s)
                    where = '{} of {} {}, after {} and then {}'.format(function, family, name, before, edit)
                    if done[0] != refs[name, edit][0]:
                        found.bad.append(('edit', '{}: the edit gives {}'.format(where, done)))
                    found.compare('edited', where, outcome(fn, s), refs[name, edit][1])
        return found.out()
    report(ctx, isolated(history))


# Models

def make(name):
    if name == 'LSTM':
        m09.stubs()
        net = m09.Network()
        return LSTMForecaster(window=3, features=['values', 'diffs', 'hours'], keras_model=net), {}
    factory, kw = ALL_MODELS[name]
    return factory(), kw


def fitted(name, spec):
    model, kw = make(name)
    if kw is not None:
        fit(model, kw, spec)
    return model


def fit(model, kw, spec):
    done = outcome_of(model.fit, build(spec), **kw)
    return done[0]


def used(model, op, kw, s):
    got = outcome_of(getattr(model, op), s, **kw)
    if got[0] == 'ok' and kw.get('inplace'):
        return repr(('ok', snap(s)))
    if got[0] == 'ok' and isinstance(got[1], dict):
        return repr(('ok', sorted((k, repr(v)) for k, v in got[1].items())))
    return repr(show(got))


def uses_of(name):
    out = [u for u in uses(make(name)[0]) if u[1].get('steps') != 2 or name != 'LSTM']
    return out


def models(ctx, family, name, tier):
    all_ = specs(family)
    if tier == 'quick':
        all_ = {n: all_[n] for n in ('base', 'middle', 'first', 'last', 'losses', 'clock', 'gap', 'zone', 'far') if n in all_}
    # More items to fit on
    longer = {n: dict(s, values=s['values'] * 2, losses=s['losses'] * 2 if s['losses'] else None, indexes=s['indexes'] * 2 if s['indexes'] else None) for n, s in all_.items()}
    first = longer['base']
    every = uses_of(name)
    kw = make(name)[1]
    trained = [n for n in ('base', 'middle', 'losses')[:2 if tier == 'quick' else 3]] if kw is not None else ['base']

    kept = {}

    def known(on):
        """Fit models, kept in the process computing all of the references in the other order."""
        if tier == 'thorough':
            return fitted(name, longer[on])
        if on not in kept:
            kept[on] = fitted(name, longer[on])
        return kept[on]

    def reference(on, n, k):
        model = known(on)
        return used(model, every[k][0], every[k][1], build(longer[n]))
    refs = references(tier, reference, [(on, n, k) for on in trained for n in all_ for k in range(len(every))])
    for key in refs:
        ctx.state(('models', family, name) + key)

    def history(on, k):
        u = every[k]
        found = Found()
        model = fitted(name, longer[on])
        for a in all_:
            for b in all_:
                found.compare('model', '{} fit on {} {}, {} of {}'.format(name, family, on, u, a), used(model, u[0], u[1], build(longer[a])), refs[on, a, k])
                found.compare('model', '{} fit on {} {}, {} of {} after {}'.format(name, family, on, u, b, a), used(model, u[0], u[1], build(longer[b])), refs[on, b, k])
        # With the other ways of using it, and other models, in between
        for j, v in enumerate(every):
            for a in all_:
                used(model, v[0], v[1], build(longer[a]))
                found.compare('model-uses', '{} fit on {} {}, {} of base after {} of {}'.format(name, family, on, u, v, a), used(model, u[0], u[1], build(longer['base'])), refs[on, 'base', k])
        if kw is not None:
            for other in trained:
                second = fitted(name, longer[other])
                for n in all_:
                    found.compare('model-other', '{} fit on {} {}, {} of {} with another one fit on {}'.format(name, family, on, u, n, other), used(model, u[0], u[1], build(longer[n])), refs[on, n, k])
                    found.compare('model-other', '{} fit on {} {}, {} of {} after the other one, fit on {}'.format(name, family, other, u, n, on), used(second, u[0], u[1], build(longer[n])), refs[other, n, k])
                again = fitted(name, longer[other])
                used(again, u[0], u[1], build(longer['base']))
                fit(again, kw, longer[on])
                for n in all_:
                    found.compare('model-refit', '{} fit on {} {} after a fit on {}, {} of {}'.format(name, family, on, other, u, n), used(again, u[0], u[1], build(longer[n])), refs[on, n, k])
        return found.out()

    def edited_reference(edit, k):
        model = known('base')
        s = build(first)
        done = outcome_of(EDITS[edit], s)
        return done[0], used(model, every[k][0], every[k][1], s)
    edited_refs = references(tier, edited_reference, [(e, k) for e in EDITS for k in range(len(every))])

    def on_edited(k):
        u = every[k]
        found = Found()
        model = fitted(name, first)
        if u[1].get('inplace'):
            return found.out()
        for edit in EDITS:
            ref = edited_refs[edit, k]
            if tier == 'thorough':
                model = fitted(name, first)
            s = build(first)
            used(model, u[0], u[1], s)
            done = outcome_of(EDITS[edit], s)
            if done[0] == ref[0]:
                found.compare('model-edited', '{} fit on {}, {} of the same series before and after {}'.format(name, family, u, edit), used(model, u[0], u[1], s), ref[1])
        return found.out()
    for k in range(len(every)):
        for on in trained:
            report(ctx, isolated(history, on, k))
        report(ctx, isolated(on_edited, k))


# Units

def instants():
    out = []
    for w in WALLS:
        for tz in TZ[1:]:
            naive = datetime(*w)
            try:
                out.append((unwall(naive, tz), tz))
            except NoSuchTime:
                pass
    return out


def unit_uses(unit):
    def make():
        return TimeUnit(unit)
    return {
        'shift': lambda u, d: u.shift(d), 'back': lambda u, d: u.shift(d, -1), 'twice': lambda u, d: u.shift(d, 2), 'ceil': lambda u, d: u.ceil(d), 'floor': lambda u, d: u.floor(d), 'round': lambda u, d: u.round(d),
        'seconds': lambda u, d: u.as_seconds(d), 'plus': lambda u, d: d + u, 'minus': lambda u, d: d - u,
        'point': lambda u, d: TimePoint(dt=d) + u, 'slot': lambda u, d: (lambda s: (s.start.t, s.end.t, str(s.end.tz), str(s.unit)))(TimeSlot(start=TimePoint(dt=d), unit=u)),
    }


def spelled(got):
    v = got[1]
    if got[0] == 'ok' and hasattr(v, 'tzinfo'):
        return repr(('ok', v.isoformat(), str(v.tzinfo)))
    if got[0] == 'ok' and hasattr(v, 'tz'):
        return repr(('ok', v.t, str(v.tz)))
    return repr(got)


def units(ctx, unit, tier):
    # No library function for what is given
    times = [datetime.fromtimestamp(t, pytz.timezone(tz)) for t, tz in instants()]
    for what, fn in unit_uses(unit).items():
        refs = references(tier, lambda i: spelled(outcome_of(fn, TimeUnit(unit), times[i])), [(i,) for i in range(len(times))])
        for d in times:
            ctx.state(('units', unit, what, str(d), str(d.tzinfo)))

        def history():
            found = Found()
            u = TimeUnit(unit)
            for i, a in enumerate(times):
                for j, b in enumerate(times):
                    found.compare('unit', '{} {} of {} ({})'.format(unit, what, a, a.tzinfo), spelled(outcome_of(fn, u, a)), refs[i,])
                    found.compare('unit', '{} {} of {} ({}) after {} ({})'.format(unit, what, b, b.tzinfo, a, a.tzinfo), spelled(outcome_of(fn, u, b)), refs[j,])
            return found.out()
        report(ctx, isolated(history))
