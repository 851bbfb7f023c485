"""L01: data labels and indexes of a series are edited as a whole, touching nothing else.

Breadth-first exploration of the histories of label and index edits on the real series, in lock-step with a model of
plain dictionaries.
"""
import itertools
from mc.lib import *

PROPERTY = 'L01'
LEVEL = 'model_checking'
RULE = ('states: distinct contents (positions, values per label, indexes) of the real series reached by any history of label renames and removals, index and data loss removals and appends; '
        'a non-trivial outcome is a distinct (operation, accepted or refused, resulting contents)')
ASSUMPTIONS = ['items do not share their data or their indexes with each other',
               'removing labels or indexes not there may either do nothing or be refused; the last label is not removed',
               'labels of list-like data are their positions: they cannot be renamed']
BOUNDS = {'quick': 'four labels (two there at first, one empty), two indexes and the data loss, 0-3 items, points and slots, generic and in time, with dictionaries (also of values which are zero, None or empty), lists and no data; all histories up to depth 4 (states deduplicated)',
          'thorough': 'the same, to the fixpoint of the reachable states with up to 5 items'}
CHUNK = 1
TIMEOUT = 800

LABELS = ['a', 'b', 'c', '']
KINDS = ['time points', 'time slots', 'points', 'slots']
SHAPES = ['dict', 'dict3', 'empties', 'list', 'none']
DICTS = ('dict', 'dict3', 'empties')


def cases(tier):
    for kind in KINDS:
        for shape in SHAPES:
            for n in (0, 1, 2, 3):
                yield dict(kind=kind, shape=shape, n=n, depth=4 if tier == 'quick' else 12, cap=3 if tier == 'quick' else 5)


def build(kind, k, data, idx):
    data = dict(data) if isinstance(data, dict) else list(data) if isinstance(data, list) else data
    kw = {} if data is None else dict(data=data, data_indexes=dict(idx))
    if kind == 'time points':
        return (TimePoint if data is None else DataTimePoint)(t=60 * k, tz='Europe/Rome', **kw)
    if kind == 'time slots':
        return (TimeSlot if data is None else DataTimeSlot)(start=TimePoint(t=60 * k, tz='Europe/Rome'), unit=TimeUnit('1m'), **kw)
    if kind == 'points':
        return (Point if data is None else DataPoint)(k, **kw)
    return (Slot if data is None else DataSlot)(start=Point(k), end=Point(k + 1), **kw)


def initial(shape, k):
    data = {'dict': {'a': 10 + k, 'b': -k}, 'dict3': {'a': 0, 'b': k, '': 2 * k + 1}, 'empties': {'a': [None, 1, ''][k % 3], 'b': [False, None, 0.0][k % 3]}, 'list': [k, 0], 'none': None}[shape]
    # The indexes are not the same on all of the items
    idx = [{'data_loss': 0, 'i': 0.5, 'j': 0}, {'data_loss': None, 'j': 1}, {'i': 0.25}][k % 3]
    return data, idx


def operations(model, shape, cap):
    """Operations, as tuples."""
    for old, new in itertools.product(LABELS, LABELS):
        yield ('rename', old, new)
    for l in LABELS:
        yield ('remove', l)
    for i in ('i', 'j', 'data_loss', 'nope'):
        yield ('index', i)
    yield ('loss',)
    if len(model) < cap:
        yield ('append', 'same')
        if model:
            yield ('append', 'other')
            yield ('append', 'more')
    yield ('duplicate',)
    if shape == 'list':
        for l in ('0', '1', '2', 0, 1, -1):
            yield ('rename', l, 'x')
            yield ('remove', l)


def expect(model, op, shape):
    """(allowed verdicts, new model). The model is a list of (position, data, indexes)."""
    new = [(k, dict(d) if isinstance(d, dict) else d, dict(i)) for k, d, i in model]
    if op[0] == 'duplicate':
        return {'ok'}, new
    if op[0] == 'append':
        k = model[-1][0] + 1 if model else 0
        k, data, idx = appended(model, op, shape, k)
        new.append((k, data, idx))
        if model and op[1] != 'same' and shape != 'none':
            return {'err'}, model
        return {'ok'}, new
    if not model:
        return {'ok', 'err'}, model
    if shape == 'none':
        return {'err'}, model
    if op[0] in ('index', 'loss'):
        what = 'data_loss' if op[0] == 'loss' else op[1]
        there = any(what in i for _, _, i in new)
        for _, _, i in new:
            i.pop(what, None)
        return ({'ok'} if there else {'ok', 'err'}), new
    if shape == 'list':
        return ({'err'} if op[0] == 'rename' else {'ok', 'err'}), model
    labels = set(model[0][1])
    if op[0] == 'rename':
        old, to = op[1:]
        if old not in labels:
            return {'err'}, model
        if to in labels and to != old:
            return {'err'}, model
        for _, d, _ in new:
            d[to] = d.pop(old)
        return {'ok'}, new
    if op[0] == 'remove':
        if op[1] not in labels:
            return {'ok', 'err'}, model
        for _, d, _ in new:
            del d[op[1]]
        return {'ok'}, new
    raise ValueError(op)


def apply_op(s, op, new, kind):
    if op[0] == 'rename':
        return s.rename_data_label(op[1], op[2])
    if op[0] == 'remove':
        return s.remove_data_label(op[1])
    if op[0] == 'index':
        return s.remove_data_index(op[1])
    if op[0] == 'loss':
        return s.remove_data_loss()
    if op[0] == 'append':
        return s.append(new)


def make(kind, model):
    s = (TimeSeries if 'time' in kind else Series)()
    for k, d, i in model:
        s.append(build(kind, k, d, i))
    return s


def picture(s):
    return tuple(snap_item(i) for i in s)


def run(ctx, case):
    kind, shape, cap = case['kind'], case['shape'], case['cap']
    start = [(k,) + initial(shape, k) for k in range(case['n'])]
    frontier = [((), start)]
    ctx.state((kind, shape, picture(make(kind, start))))
    only = case.get('history')
    depth = 0
    while frontier and depth < case['depth']:
        depth += 1
        nxt = []
        for history, model in frontier:
            for op in operations(model, shape, cap):
                if op[0] == 'remove' and model and isinstance(model[0][1], dict) and set(model[0][1]) == {op[1]}:
                    continue
                h = history + (op,)
                if only is not None and [list(o) for o in h] != only[:len(h)]:
                    continue
                rcase = dict(case, history=[list(o) for o in h])
                s = make(kind, model)
                kept = make(kind, model)
                dup = s.duplicate()
                before = picture(s)
                verdicts, new = expect(model, op, shape)
                item = None
                if op[0] == 'append':
                    # The item is what the model says it would be, accepted or not
                    k = model[-1][0] + 1 if model else 0
                    item = build(kind, *appended(model, op, shape, k))
                if op[0] == 'duplicate':
                    s, dup = dup, s
                    got = ('ok', None)
                else:
                    got = outcome_of(apply_op, s, op, item, kind)
                ctx.step()
                after = picture(s)
                want = picture(make(kind, new if got[0] == 'ok' else model))
                tag = '{}:{}:{}'.format(shape, kind, op[0])
                what = lambda: '{} history {} on {}: {}, was {}, now {}, must be {}'.format(kind, h, model, got[0], before, after, want)
                ok = ctx.check(got[0] in verdicts, tag + ':accepted', what, rcase)
                ok = ctx.check(after == want, tag + ':contents', what, rcase) and ok
                ok = ctx.check(picture(dup) == before, tag + ':duplicate-touched', what, rcase) and ok
                if ok and len(s):
                    m = new if got[0] == 'ok' else model
                    if shape in DICTS:
                        ok = ctx.check(s.data_labels() == sorted(m[0][1]), tag + ':labels', what, rcase) and ok
                        for l in m[0][1]:
                            one = outcome_of(lambda: [tuple(i.data.items()) for i in s.filter(l)])
                            ok = ctx.check(one == ('ok', [((l, d[l]),) for _, d, _ in m]), tag + ':filter', lambda: 'label {!r}: {} {}'.format(l, one, what()), rcase) and ok
                            if shape == 'empties':
                                continue
                            top = outcome_of(lambda: s.max(l))
                            best = max(d[l] for _, d, _ in m)
                            ok = ctx.check(top[0] == 'ok' and (top[1] == best or top[1] == {l: best}), tag + ':max', lambda: 'label {!r}: {} {}'.format(l, top, what()), rcase) and ok
                    elif shape == 'list':
                        ok = ctx.check(s.data_labels() == ['0', '1'], tag + ':labels', what, rcase) and ok
                    if shape != 'none':
                        ok = ctx.check([i.data_loss for i in s] == [i.get('data_loss') for _, _, i in m], tag + ':loss', what, rcase) and ok
                        ok = ctx.check([i.data_indexes for i in s] == [i for _, _, i in m], tag + ':indexes', what, rcase) and ok
                if ok:
                    ctx.ok()
                ctx.outcome((kind, op, got[0], after))
                if got[0] == 'ok' and ok:
                    if ctx.state((kind, shape, after)):
                        nxt.append((h, new))
            if len(ctx.fails) > 12:
                return
        frontier = nxt
        if nxt and len(ctx.samples) < 2:
            ctx.sample(dict(kind=kind, shape=shape, history=[list(o) for o in nxt[len(nxt) // 2][0]]))


def appended(model, op, shape, k):
    data, idx = initial(shape, k)
    if shape in DICTS:
        if model:
            data = {l: 100 * k + n for n, l in enumerate(sorted(model[0][1]))}
        if op[1] == 'other':
            data = {l + 'x': v for l, v in data.items()}
        elif op[1] == 'more':
            data = dict(data, more=1)
    elif shape == 'list':
        data = data[:1] if op[1] == 'other' else data + [1] if op[1] == 'more' else data
    return k, data, idx
