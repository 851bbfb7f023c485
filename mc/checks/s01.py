"""S01: series invariants survive every edit history.

Explicit-state exploration of the real Series/TimeSeries: breadth-first over every operation sequence on a small
alphabet of items, states deduplicated on (contents, everything else the object carries), until no new state shows
up. Every transition is compared with a plain list model that knows which edits must be accepted and which refused.
"""
import copy
from mc.lib import *

PROPERTY = 'S01'
LEVEL = 'model_checking'
RULE = ('states: distinct (contents, hidden attributes) of the real series reached by any sequence of append/insert/pop/'
        'remove/clear, copies and every form of the list protocol (setting, deleting and slicing in place) over the item alphabet of a configuration; every transition compared with a list model; '
        'a non-trivial outcome is a distinct (operation, accepted/refused, resulting contents)')
ASSUMPTIONS = ['item alphabets of 4-5 well-formed items and up to 4 ill-formed ones per configuration',
               'edits go through the methods of the series and the list protocol']
BOUNDS = {'quick': '5 items per alphabet, full fixpoint (at most 12000 states per configuration)',
          'thorough': '7 items per alphabet, full fixpoint (at most 60000 states per configuration)'}
CHUNK = 1
TIMEOUT = 700


def config(name, n):
    """(factory for an empty series, {label: item factory}, ordering: 'points'|'slots', bad labels)"""
    good, bad = {}, {}
    ts = [0, 60, 120, 180, 210, 300, 1000][:n]
    kind = 'points'
    mk = TimeSeries
    if name == 'ints':
        mk = Series
        for t in ts:
            good[t] = t
        bad['str'] = 'x'
    elif name == 'datapoints':
        mk = Series
        for t in ts:
            good[t] = DataPoint(t, data={'a': t})
        bad['label'] = DataPoint(90, data={'b': 1})
        bad['list'] = DataPoint(90, data=[1])
        bad['int'] = 90
    elif name == 'timepoints':
        for t in ts:
            good[t] = TimePoint(t=t)
        bad['point'] = Point(90)
        bad['slot'] = TimeSlot(start=TimePoint(90), end=TimePoint(150))
        bad['withdata'] = DataTimePoint(t=90, data={'a': 1})
        bad['withdata2'] = DataTimePoint(t=130, data={'b': 1})
    elif name == 'timeslots':
        kind = 'slots'
        for k in range(n):
            good[k] = TimeSlot(start=TimePoint(t=60 * k), end=TimePoint(t=60 * k + 60))
        bad['gap'] = TimeSlot(start=TimePoint(t=90), end=TimePoint(t=150))
        bad['unit'] = TimeSlot(start=TimePoint(t=60), end=TimePoint(t=90))
        bad['withdata'] = DataTimeSlot(start=TimePoint(t=60), end=TimePoint(t=120), data={'a': 1})
        bad['tz'] = TimeSlot(start=TimePoint(t=60, tz='Europe/Rome'), end=TimePoint(t=120, tz='Europe/Rome'))
    elif name == 'dict':
        for t in ts:
            good[t] = DataTimePoint(t=t, data={'a': t, 'b': 1})
        bad['label'] = DataTimePoint(t=90, data={'a': 1})
        bad['label2'] = DataTimePoint(t=400, data={'a': 1, 'c': 2})
        bad['list'] = DataTimePoint(t=90, data=[1, 2])
        bad['slot'] = DataTimeSlot(start=TimePoint(90), end=TimePoint(150), data={'a': 1, 'b': 1})
        bad['nodata'] = TimePoint(t=90)
    elif name == 'list':
        for t in ts:
            good[t] = DataTimePoint(t=t, data=[t, 1])
        bad['len'] = DataTimePoint(t=90, data=[1])
        bad['len2'] = DataTimePoint(t=400, data=[1, 2, 3])
        bad['dict'] = DataTimePoint(t=90, data={'a': 1, 'b': 2})
    elif name == 'scalar':
        for n_, t in enumerate(ts):
            good[t] = DataTimePoint(t=t, data=n_)
        bad['str'] = DataTimePoint(t=90, data='x')
        bad['dict'] = DataTimePoint(t=400, data={'a': 1})
    elif name == 'empty':
        for t in ts[:3]:
            good[t] = DataTimePoint(t=t, data={})
        bad['dict'] = DataTimePoint(t=90, data={'a': 1})
        bad['list'] = DataTimePoint(t=400, data=[])
    elif name == 'hslots':
        kind = 'slots'
        for k in range(n):
            good[k] = DataTimeSlot(start=TimePoint(t=3600 * k), unit=TimeUnit('1h'), data={'a': k})
        bad['gap'] = DataTimeSlot(start=TimePoint(t=1800), unit=TimeUnit('1h'), data={'a': 1})
        bad['label'] = DataTimeSlot(start=TimePoint(t=3600 * 1), unit=TimeUnit('1h'), data={'b': 1})
        bad['unit'] = DataTimeSlot(start=TimePoint(t=3600 * 1), unit=TimeUnit('30m'), data={'a': 1})
        bad['unit2'] = DataTimeSlot(start=TimePoint(t=0), unit=TimeUnit('2h'), data={'a': 1})
        bad['tz'] = DataTimeSlot(start=TimePoint(t=3600 * 1, tz='Europe/Rome'), unit=TimeUnit('1h'), data={'a': 1})
        bad['prevunit'] = DataTimeSlot(start=TimePoint(t=-3600), unit=TimeUnit('2h'), data={'a': 1})
        bad['prevtz'] = DataTimeSlot(start=TimePoint(t=0, tz='Europe/Rome'), unit=TimeUnit('1h'), data={'a': 1})
        bad['point'] = DataTimePoint(t=3600, data={'a': 1})
    elif name == 'dslots':
        kind = 'slots'
        p = TimePoint(t=epoch(2019, 10, 25, tz='Europe/Rome'), tz='Europe/Rome')
        for k in range(n):
            good[k] = DataTimeSlot(start=p, unit=TimeUnit('1D'), data=[k])
            p = good[k].end
        q = good[1].end
        bad['24h'] = DataTimeSlot(start=q, unit=TimeUnit('24h'), data=[1])
        bad['len'] = DataTimeSlot(start=q, unit=TimeUnit('1D'), data=[1, 2])
        bad['first24h'] = DataTimeSlot(start=good[0].start, unit=TimeUnit('24h'), data=[1])
    elif name == 'unitslots':
        mk = Series
        kind = 'slots'
        for k in range(n):
            good[k] = DataSlot(start=Point(k), end=Point(k + 1), data={'a': k})
        bad['gap'] = DataSlot(start=Point(1.5), end=Point(2.5), data={'a': k})
        bad['label'] = DataSlot(start=Point(1), end=Point(2), data={'z': k})
    items = dict(good)
    for k, v in bad.items():
        items['!' + k] = v
    return mk, items, kind


CONFIGS = ['ints', 'datapoints', 'timepoints', 'timeslots', 'dict', 'list', 'scalar', 'empty', 'hslots', 'dslots', 'unitslots']


def cases(tier):
    n = 5 if tier == 'quick' else 7
    for c in CONFIGS:
        yield dict(config=c, n=n, cap=12000 if tier == 'quick' else 60000)


def kindkey(item):
    """What must be uniform across a series: item class, shape of the data, unit and timezone for slots."""
    d = getattr(item, 'data', None)
    shape = type(d).__name__
    if isinstance(d, dict):
        shape = ('dict', tuple(sorted(d)))
    elif isinstance(d, list):
        shape = ('list', len(d))
    extra = ()
    if isinstance(item, TimeSlot):
        extra = (str(item.unit), str(item.tz))
    return (item.__class__.__name__, shape, extra)


def pos(item):
    if isinstance(item, Slot):
        return (item.start.coordinates[0], item.end.coordinates[0])
    if isinstance(item, Point):
        return item.coordinates[0]
    return item


def compatible(kind, a, b):
    """b may directly follow a."""
    if kindkey(a) != kindkey(b):
        return False
    if kind == 'slots':
        return pos(a)[1] == pos(b)[0]
    return pos(b) > pos(a)


def well_formed(kind, contents):
    return all(compatible(kind, a, b) for a, b in zip(contents, contents[1:]))


def same(a, b):
    return type(a) is type(b) and a == b


def operations(model, labels):
    n = len(model)
    all_labels = labels  # the ill-formed items are tried only against a non-empty series
    labels = [l for l in labels if l != '!nodata' and (n or not str(l).endswith('tz'))]
    if n:
        for l in all_labels:
            yield ('append', l)
    else:
        for l in labels:
            yield ('append', l)
    for i in range(-n - 1, n + 2):
        for l in (all_labels if n else labels):
            yield ('insert', i, l)
    yield ('pop',)
    for i in range(-n - 1, n + 2):
        yield ('popi', i)
    for l in labels:
        yield ('remove', l)
    for l in labels:
        yield ('index', l)
    yield ('clear',)
    yield ('duplicate',)
    yield ('copy',)
    # The list protocol
    first = [l for l in all_labels if l != '!nodata' and not str(l).endswith('tz')]
    for i in range(-n - 1, n + 1):
        for l in first if n < 2 or i in (0, -n) else all_labels if i in (n // 2, n - 1, -1, n) else labels[:2]:
            yield ('set', i, l)
        yield ('del', i)
    for a in range(n + 1):
        for b in range(a, n + 1):
            yield ('delslice', a, b)
            yield ('setslice', a, b)
            for l in all_labels if a and b - a < 3 else first:
                yield ('setslice', a, b, l)
    yield ('delstep',)
    for l in labels[:3]:
        yield ('iadd', l)
    yield ('iadd',)
    for k in (0, 1, 2):
        yield ('imul', k)


def apply_op(series, op, items):
    if op[0] == 'append':
        return series.append(items[op[1]])
    if op[0] == 'insert':
        return series.insert(op[1], items[op[2]])
    if op[0] == 'pop':
        return series.pop()
    if op[0] == 'popi':
        return series.pop(op[1])
    if op[0] == 'remove':
        return series.remove(items[op[1]])
    if op[0] == 'index':
        return series.index(items[op[1]])
    if op[0] == 'clear':
        return series.clear()
    if op[0] == 'duplicate':
        return series.duplicate()
    if op[0] == 'copy':
        return series.copy()
    if op[0] == 'set':
        series[op[1]] = items[op[2]]
    elif op[0] == 'del':
        del series[op[1]]
    elif op[0] == 'delslice':
        del series[op[1]:op[2]]
    elif op[0] == 'setslice':
        series[op[1]:op[2]] = [items[l] for l in op[3:]]
    elif op[0] == 'delstep':
        del series[::2]
    elif op[0] == 'iadd':
        series += [items[l] for l in op[1:]]
    elif op[0] == 'imul':
        series *= op[1]


def expect(kind, model, op, items, mk):
    """-> (set of allowed verdicts, contents if accepted, return value if accepted)"""
    n = len(model)
    if not model and op[0] in ('append', 'insert') and isinstance(items[op[-1]], TimeSlot):
        # an emptied slot series may or may not stick to its timezone
        return {'ok', 'err'} if str(op[-1]).endswith('tz') else {'ok'}, [op[-1]], None
    if model:
        kind = 'slots' if isinstance(items[model[0]], Slot) else 'points'
    if op[0] == 'append':
        x = op[1]
        new = model + [x]
        ok = well_formed(kind, [items[i] for i in new])
        if mk is TimeSeries and not isinstance(items[x], (TimePoint, TimeSlot)):
            ok = False
        return ({'ok'} if ok else {'err'}), new, None
    if op[0] == 'insert':
        i, x = op[1], op[2]
        new = list(model)
        new.insert(i, x)
        ok = well_formed(kind, [items[j] for j in new])
        if mk is TimeSeries and not isinstance(items[x], (TimePoint, TimeSlot)):
            ok = False
        if not ok:
            return {'err'}, model, None
        # positions outside 0..len may be refused; inside they have to be accepted when in order
        return ({'ok'} if 0 <= i <= n else {'ok', 'err'}), new, None
    if op[0] == 'pop':
        if not n:
            return {'err'}, model, None
        return {'ok'}, model[:-1], model[-1]
    if op[0] == 'popi':
        i = op[1]
        if not -n <= i < n:
            return {'err'}, model, None
        j = i % n
        new = model[:j] + model[j + 1:]
        if not well_formed(kind, [items[k] for k in new]):
            return {'err'}, model, None
        if kind == 'slots' and i != 0:
            return {'ok', 'err'}, new, model[j]
        return {'ok'}, new, model[j]
    if op[0] == 'remove':
        at = [j for j, m in enumerate(model) if same(items[m], items[op[1]])]
        if not at:
            return {'err'}, model, None
        new = model[:at[0]] + model[at[0] + 1:]
        if kind == 'slots':
            return {'err'} if not well_formed(kind, [items[k] for k in new]) else {'ok', 'err'}, new, None
        return {'ok'}, new, None
    if op[0] == 'index':
        at = [j for j, m in enumerate(model) if same(items[m], items[op[1]])]
        if not at:
            return {'err'}, model, None
        return {'ok'}, model, at[0]
    if op[0] == 'clear':
        return {'ok'}, [], None
    if op[0] in ('duplicate', 'copy'):
        return {'ok'}, model, None
    new = list(model)
    try:
        if op[0] == 'set':
            new[op[1]] = op[2]
        elif op[0] == 'del':
            del new[op[1]]
        elif op[0] == 'delslice':
            del new[op[1]:op[2]]
        elif op[0] == 'setslice':
            new[op[1]:op[2]] = op[3:]
        elif op[0] == 'delstep':
            del new[::2]
        elif op[0] == 'iadd':
            new += op[1:]
        elif op[0] == 'imul':
            new *= op[1]
    except IndexError:
        return {'err'}, model, None
    ok = not new or well_formed('slots' if isinstance(items[new[0]], Slot) else 'points', [items[l] for l in new])
    if mk is TimeSeries and not all(isinstance(items[l], (TimePoint, TimeSlot)) for l in new):
        ok = False
    if not ok:
        return {'err'}, model, None
    # Adding in place may be refused, and so changing slots in ways not covered by the other operations
    optional = op[0] in ('iadd', 'imul') or (any(isinstance(items[l], Slot) for l in list(model) + new) and op[0] != 'set')
    if op[0] == 'set' and any(str(l).endswith('tz') for l in list(model) + new):
        optional = True
    return ({'ok', 'err'} if optional else {'ok'}), new, None


def observe(series):
    o = [len(series), str(series.item_type)]
    if isinstance(series, TimeSeries):
        o += [str(series.resolution)]
        if series.resolution == 'variable':
            o += [str(series.guess_resolution(confidence=True))]
    return o


def fresh(mk, model, items):
    s = mk()
    for l in model:
        s.append(items[l])
    return s


def execute(mk, items, history):
    s = mk()
    for op in history:
        try:
            got = apply_op(s, op, items)
            if op[0] in ('duplicate', 'copy'):
                s = got
        except Exception:
            pass
    return s


def run(ctx, case):
    name = case['config']
    if 'history' in case:
        histories = [[tuple(o) if isinstance(o, (list, tuple)) else o for o in case['history']]]
        mk, items, kind = config(name, case['n'])
        model = []
        s = mk()
        for op in histories[0]:
            model, s = transition(ctx, mk, items, kind, s, model, op, case, histories[0])
            if model is None:
                return
        return
    mk, items, kind = config(name, case['n'])
    labels = list(items)
    frontier = [((), [])]
    ctx.state((name, (), hidden(mk())))
    count = 1
    while frontier:
        nxt = []
        for history, model in frontier:
            for op in operations(model, labels):
                if op[0] in ('remove', 'index') and any(items[m] is not items[op[1]] and type(items[m]) is not type(items[op[1]])
                                                        and hasattr(items[m], 'data') != hasattr(items[op[1]], 'data') for m in model):
                    continue  # items with and without data: whether they are equal is not specified
                s = execute(mk, items, history)
                new, s = transition(ctx, mk, items, kind, s, model, op, case, history + (op,))
                if new is None:
                    continue
                if ctx.state((name, tuple(new), hidden(s))) and count < case['cap']:
                    count += 1
                    nxt.append((history + (op,), new))
            if len(ctx.fails) > 12:
                return
        frontier = nxt
        if nxt and len(ctx.samples) < 2:
            ctx.sample(dict(config=name, history=[list(o) for o in nxt[len(nxt) // 2][0]]))


def transition(ctx, mk, items, kind, s, model, op, case, history):
    """Apply op on the real series, compare with the model; returns the new model or None."""
    verdicts, new, ret = expect(kind, model, op, items, mk)
    rcase = dict(config=case['config'], n=case['n'], cap=case.get('cap', 0), history=[list(o) for o in history])
    before = observe(s)
    ctx.step()
    try:
        got = apply_op(s, op, items)
        verdict = 'ok'
    except Exception as e:
        got = e
        verdict = 'err'
    key = '{}:{}'.format(case['config'], op[0])
    if verdict not in verdicts:
        ctx.fail(key + ':' + ('accepted' if verdict == 'ok' else 'refused'),
                 'history {} : {} was {} but must be {} ({!r})'.format(history, op, verdict, verdicts, got), rcase)
        return None, s
    expected = new if verdict == 'ok' else model
    if op[0] in ('duplicate', 'copy'):
        if got is s or type(got) is not type(s):
            ctx.fail(key + ':not-a-copy', 'history {}: got {}'.format(history, type(got)), rcase)
            return None, s
        s = got
    actual = list(s)
    if len(actual) != len(expected) or any(snap_item(a) != snap_item(items[e]) for a, e in zip(actual, expected)):
        ctx.fail(key + ':contents', 'history {}: contents {} expected {}'.format(history, [str(a) for a in actual], expected), rcase)
        return None, s
    if verdict == 'ok' and ret is not None:
        good = got == ret if op[0] == 'index' else snap_item(got) == snap_item(items[ret])
        if not good:
            ctx.fail(key + ':returned', 'history {}: returned {!r}, expected {}'.format(history, got, ret), rcase)
    if verdict == 'err' and observe(s) != before:
        ctx.fail(key + ':refused-edit-changed-series', 'history {}: {} -> {}'.format(history, before, observe(s)), rcase)
    ref = fresh(mk, expected, items)
    if observe(s) != observe(ref):
        ctx.fail(key + ':state', 'history {}: series reports {} while one built from the same items reports {}'.format(history, observe(s), observe(ref)), rcase)
    ctx.outcome((case['config'], op, verdict, tuple(expected)))
    ctx.ok()
    return expected, s
