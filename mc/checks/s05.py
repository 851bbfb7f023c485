"""S05: a view behaves as the corresponding part of the series."""
import copy
import itertools
from mc.lib import *

PROPERTY = 'S05'
LEVEL = 'model_checking'
RULE = ('every range (open, negative, out of bounds, empty) over every small series of each kind, and over the views of it: all the reading operations on the view are compared '
        'with the same operations on a series built from the items in the range; for iterations, every interleaving of the steps of two iterators, of indexing, and of abandoned iterations. '
        'A non-trivial outcome is a distinct (series, range, operation, result)')
ASSUMPTIONS = ['views are made over non-empty series, and edits through them are tried with one item of each kind (appended, inserted, set) and every position', 'the resolution of a view is that of the underlying series, as the tests require']
BOUNDS = {'quick': 'series up to 4 items of 5 kinds, every range and nested range; all interleavings of two iterators on ranges up to 3 items',
          'thorough': 'series up to 6 items of 6 kinds, every range and nested range; all interleavings of two iterators on ranges up to 5 items'}
CHUNK = 1


def build(kind, n):
    if kind == 'points':
        return points([600 + 60 * k for k in range(n)], [5, -2, 7.5, 0, 3, 1][:n])
    if kind == 'uneven':
        return points([0, 1, 60, 90, 4000, 4001][:n], [(5, 1), (-2, 2), (7.5, 0), (0, 0), (3, 1), (1, 9)][:n], labels=('a', 'b'), tz='Europe/Rome')
    if kind == 'list':
        return points([60 * k for k in range(n)], [(5, 1), (-2, 2), (7.5, 0), (0, 0), (3, 1), (1, 9)][:n], labels=('a', 'b'), kind='list')
    if kind == 'hslots':
        return slots(3600, '1h', [5, -2, 7.5, 0, 3, 1][:n], losses=[0.5, None, 0, 1, None, 0.25][:n])
    if kind == 'dslots':
        return slots(epoch(2019, 10, 25, tz='Europe/Rome'), '1D', [5, -2, 7.5, 0, 3, 1][:n], tz='Europe/Rome')
    if kind == 'bare':
        return TimeSeries(*[TimePoint(t=10 * k) for k in range(n)])


def cases(tier):
    kinds = ['points', 'uneven', 'list', 'hslots', 'dslots'] + (['bare'] if tier == 'thorough' else [])
    top = 4 if tier == 'quick' else 6
    for kind in kinds:
        for n in range(1, top + 1):
            bounds = [None] + list(range(-n - 1, n + 2))
            for a in bounds:
                yield dict(kind=kind, n=n, a=a, deep=top)


def result(value):
    if isinstance(value, TimeSeries):
        return ('series', tuple(snap_item(i) for i in value))
    if isinstance(value, list):
        return ('list', tuple(result(v) for v in value))
    if isinstance(value, (Point, Slot)):
        return snap_item(value)
    if isinstance(value, dict):
        return ('dict', repr(sorted(value.items())))
    return repr(value)


def observed(fn, series):
    try:
        return ('ok', result(fn(series)))
    except Exception as e:
        return ('err',)


def reads(items, m):
    """The reading operations, on a range of m items."""
    yield 'len', len
    yield 'list', list
    yield 'contents', lambda s: s.contents()
    yield 'bool', bool
    yield 'data_labels', lambda s: s.data_labels()
    if m:
        yield 'tz', lambda s: str(s.tz)
    for k in range(-m - 2, m + 2):
        yield 'getitem', lambda s, k=k: s[k]
        yield 'get', lambda s, k=k: s.get(at_i=k)
    bounds = [None] + list(range(-m - 2, m + 3))
    for a, b in itertools.product(bounds, bounds):
        yield 'slice', lambda s, a=a, b=b: s[a:b]
        yield 'slice()', lambda s, a=a, b=b: s.slice(from_i=a, to_i=b)
        yield 'slice2', lambda s, a=a, b=b: s[a:b:2]
    ts = sorted({i.t for i in items})
    for t in ts:
        yield 'get_t', lambda s, t=t: s.get(at_t=t)
        yield 'get_f', lambda s, t=t: s[float(t)]
        yield 'get_dt', lambda s, t=t: s[datetime.fromtimestamp(t, pytz.UTC)]
    for a, b in itertools.product([None] + ts, [None] + ts):
        if not (a is None and b is None):
            yield 'slice_t', lambda s, a=a, b=b: s.slice(from_t=a, to_t=b)
            yield 'slice_dt', lambda s, a=a, b=b: s[None if a is None else datetime.fromtimestamp(a, UTC):None if b is None else datetime.fromtimestamp(b, UTC)]
    for op in ('min', 'max', 'avg', 'sum', 'diff', 'csum', 'derivative', 'integral', 'normalize'):
        yield op, lambda s, op=op: getattr(s, op)()
    yield 'rescale', lambda s: s.rescale(2)
    yield 'offset', lambda s: s.offset(2)
    yield 'filter', lambda s: s.filter('a')
    yield 'filter[]', lambda s: s['a']
    yield 'select', lambda s: s.select('a=5')
    yield 'mavg', lambda s: s.mavg(2)
    yield 'to_dict', lambda s: s.to_dict()
    yield 'to_json', lambda s: s.to_json()
    for h in range(0, m + 2):
        yield 'head', lambda s, h=h: s.head(h)
        yield 'tail', lambda s, h=h: s.tail(h)
    for i in items:
        yield 'index', lambda s, i=i: s.index(i)
        yield 'contains', lambda s, i=i: i in s
    yield 'nested', lambda s: [[i.t, j.t] for i in s for j in s]
    yield 'break', lambda s: [[next(iter(s)).t, j.t] for j in s]
    yield 'zip', lambda s: [[i.t, j.t] for i, j in zip(s, s)]
    yield 'shared', lambda s: (lambda it: [[i.t, j.t] for i, j in zip(it, it)])(iter(s))
    yield 'indexes', lambda s: s._all_data_indexes()
    yield 'reversed', lambda s: [i.t for i in reversed(s)]
    yield 'max-min', lambda s: [max(i.t for i in s), min(i.t for i in s)]


def compare(ctx, tag, view, ref, items):
    m = len(ref)
    for name, fn in reads(items, m):
        if m == 0 and name in ('slice', 'slice()', 'slice2', 'slice_t', 'slice_dt'):
            # Slicing an empty series is refused: anything but exposing items is fine
            got = observed(fn, view)
            ctx.check(got == ('err',) or got == ('ok', ('series', ())), 'empty-' + name, lambda: '{}: {} on an empty view gave {}'.format(tag, name, got))
            continue
        if name in ('diff', 'csum', 'derivative', 'integral') and str(view.resolution) != str(ref.resolution):
            # These depend on the resolution, which for a view is that of the underlying series
            continue
        a, b = observed(fn, view), observed(fn, ref)
        ctx.step()
        ctx.outcome((tag, name, b))
        if ctx.check(a == b, 'read-' + name, lambda: '{}: {} gave {} on the view and {} on the part'.format(tag, name, a, b)):
            ctx.ok()


def interleavings(ctx, tag, view, ref, deep):
    """All interleavings of two iterators on the view, one step at a time, with an access between the steps."""
    m = len(ref)
    if not 0 < m <= deep:
        return
    for sched in itertools.product((0, 1), repeat=2 * m):
        if sched[0] == 1:
            continue
        its, refs = [iter(view), iter(view)], [iter(ref), iter(ref)]
        for n, w in enumerate(sched):
            a, b = next(its[w], None), next(refs[w], None)
            ctx.step()
            if n == m:
                view[0], view[-1], len(view)
            if not ctx.check((a is None) == (b is None) and (a is None or snap_item(a) == snap_item(b)), 'interleaved-iteration',
                             lambda: '{}: step {} of schedule {} gave {} instead of {}'.format(tag, n, sched, a, b)):
                return
        ctx.state((tag, sched))
        ctx.ok()


def edits(m, item):
    """Everything that would change the items of a view of m items."""
    yield 'append', lambda v: v.append(item)
    yield 'pop', lambda v: v.pop()
    yield 'clear', lambda v: v.clear()
    yield 'extend', lambda v: v.extend([item])
    yield 'sort', lambda v: v.sort()
    yield 'reverse', lambda v: v.reverse()
    for k in range(-m - 1, m + 2):
        yield 'insert', lambda v, k=k: v.insert(k, item)
        yield 'pop-i', lambda v, k=k: v.pop(k)

        def setitem(v, k=k):
            v[k] = item

        def delitem(v, k=k):
            del v[k]
        yield 'set', setitem
        yield 'del', delitem
    if m:
        yield 'remove', lambda v: v.remove(v[0])

    def setslice(v):
        v[0:1] = [item]

    def delslice(v):
        del v[0:1]

    def iadd(v):
        v += [item]

    def imul(v):
        v *= 0
    yield 'set-slice', setslice
    yield 'del-slice', delslice
    yield 'iadd', iadd
    yield 'imul', imul


def refused(ctx, tag, series, view, part):
    before = snap(series)
    for item in (series[-1].__class__(start=series[-1].end, unit=series[-1].unit, data=series[-1].data) if isinstance(series[-1], Slot) else
                 series[-1].__class__(t=series[-1].t + 60, **({'data': series[-1].data} if hasattr(series[-1], 'data') else {})),):
        for name, fn in edits(len(part), item):
            try:
                fn(view)
                verdict = 'ok'
            except Exception:
                verdict = 'err'
            ctx.step()
            ctx.outcome((name, verdict))
            # Edits changing nothing may be accepted
            good = ctx.check(snap(series) == before, 'edit-changed-series', lambda: '{}: {} changed the series'.format(tag, name))
            good &= ctx.check(verdict == 'err' or not part or name in ('sort', 'reverse'), 'edit-accepted', lambda: '{}: {} was accepted'.format(tag, name))
            good &= ctx.check(len(view) == len(part) and all(a is b for a, b in zip(view, part)) and list(view) == part and [i for i in list.__iter__(view)] == [],
                              'edit-changed-view', lambda: '{}: {} left {}'.format(tag, name, list(view)))
            if not good:
                return
            ctx.ok()


def copies(ctx, tag, series, view, part):
    for name, fn in (('copy', lambda v: v.copy()), ('copy.copy', copy.copy), ('deepcopy', copy.deepcopy)):
        before = snap(series)
        got = outcome_of(fn, view)
        ctx.step()
        if ctx.check(got[0] == 'ok' and isinstance(got[1], TimeSeries) and got[1] is not view and [snap_item(i) for i in got[1]] == [snap_item(i) for i in part] and
                     len(got[1]) == len(part) and str(got[1].tz) == str(view.tz),
                     name, lambda: '{}: {} gave {}'.format(tag, name, got)):
            ctx.ok()
        if got[0] == 'ok' and name == 'deepcopy' and part and hasattr(part[0], 'data'):
            for i in got[1]:
                i.data_indexes['x'] = 1
            ctx.check(snap(series) == before, name + '-independent', lambda: '{}: changing the result of {} changed the series'.format(tag, name))


def run(ctx, case):
    series = build(case['kind'], case['n'])
    n, a = case['n'], case['a']
    items = series.contents()
    before = snap(series)
    cls = series.__class__
    for b in [None] + list(range(-n - 1, n + 2)):
        tag = '{} #{} view({},{})'.format(case['kind'], n, a, b)
        part = items[slice(a, b)]
        ref = cls(*part)
        view = series.view(from_i=a, to_i=b)
        ctx.state(tag)
        compare(ctx, tag, view, ref, items)
        interleavings(ctx, tag, view, ref, case['deep'] - 1)
        ctx.check((view == ref) and not (view != ref) and view == part, 'equality', lambda: '{} is not equal to its items'.format(tag))
        if part != items:
            ctx.check(view != series, 'equality', lambda: '{} is equal to the whole series'.format(tag))
        refused(ctx, tag, series, view, part)
        copies(ctx, tag, series, view, part)
        # Materialize
        for how in ('materialize', 'duplicate'):
            m = getattr(view, how)()
            ctx.step()
            ctx.check([snap_item(i) for i in m] == [snap_item(i) for i in part] and m == part, how, lambda: '{}: {} gave {}'.format(tag, how, list(m)))
            if part and part[0].__class__ is not TimePoint:
                for i in m:
                    if isinstance(i.data, dict):
                        i.data['a'] = 999
                    else:
                        i.data[0] = 999
                    i.data_indexes['x'] = 1
                m.change_tz('America/New_York')
                m.pop()
                ctx.check(snap(series) == before and len(view) == len(part), how + '-independent', lambda: '{}: changing the result of {} changed the series'.format(tag, how))
        # Views of the view
        for c, d in itertools.product([None] + list(range(-2, len(part) + 2)), repeat=2):
            if not part:
                break
            sub = part[slice(c, d)]
            ntag = tag + '.view({},{})'.format(c, d)
            nested = view.view(c, d)
            ctx.state(ntag)
            ctx.step()
            ctx.check(len(nested) == len(sub) and [snap_item(i) for i in nested] == [snap_item(i) for i in sub], 'nested-view', lambda: '{} gave {}'.format(ntag, list(nested)))
            for k in range(-len(sub) - 1, len(sub) + 1):
                x, y = outcome_of(lambda: nested[k]), outcome_of(lambda: sub[k])
                ctx.check(x[0] == y[0] and (x[0] == 'err' or x[1] is y[1]), 'nested-view-getitem', lambda: '{}[{}] gave {}'.format(ntag, k, x))
        ctx.check(snap(series) == before and series.contents() == items, 'series-changed', lambda: '{}: the series changed: {} -> {}'.format(tag, before, snap(series)))
    ctx.sample(case)
