"""M06: anomalous events are marked exactly where they are."""
import itertools
from mc.lib import *
from timeseria.models.anomaly_detectors import AnomalyDetector

PROPERTY = 'M06'
LEVEL = 'model_checking'
RULE = ('every word of anomalous, normal, exactly-at-threshold and not-scored items up to a length, as series of points and of slots, for every threshold, minimum persistence, maximum gap, replacement of the index and in-place setting, '
        'against events computed independently from the runs of anomalous items. A non-trivial outcome is a distinct marking')
ASSUMPTIONS = ['items with no anomaly index are not anomalous', 'a series where no item has an anomaly index is refused', 'the index marked is 1 in the events and 0 elsewhere, on every item']
BOUNDS = {'quick': 'binary words up to 10 items with persistence 0..4 and gap 0..4, words over 5 kinds of items up to 4', 'thorough': 'binary words up to 14 items with persistence 0..6 and gap 0..6, words over 5 kinds of items up to 7'}
CHUNK = 1

# The kinds of items: normal, anomalous, exactly on the threshold, with no index, with an index set to None
WIDE = ['n', 'a', 't', '-', 'N']


def cases(tier):
    n, w = (10, 4) if tier == 'quick' else (14, 7)
    top = 4 if tier == 'quick' else 6
    for k in range(0, n + 1):
        for head in itertools.product('na', repeat=min(k, 4 if k > 8 else 1)):
            yield dict(k=k, head=''.join(head), alphabet='na', top=top, wide=False)
    for k in range(1, w + 1):
        for head in WIDE:
            yield dict(k=k, head=head, alphabet=''.join(WIDE), top=3, wide=True)


def build(word, threshold, kind):
    level = {'n': threshold - 0.25, 'a': threshold + 0.25, 't': threshold}
    indexes = []
    for i, c in enumerate(word):
        index = {'data_loss': 0.25, 'other': i}
        if c == 'N':
            index['anomaly'] = None
        elif c != '-':
            index['anomaly'] = level[c]
        indexes.append(index)
    values = [(i, -i) for i in range(len(word))]
    if kind == 'points':
        return points([60 * i - 120 for i in range(len(word))], values, labels=('a', 'b'), indexes=indexes, tz='Europe/Rome')
    return slots(0, '1h', values, labels=('a', 'b'), indexes=indexes)


def events(anomalous, persistence, gap):
    """The marked positions: anomalous items grouped while not farther than the gap, and kept if lasting enough."""
    groups = []
    for i, a in enumerate(anomalous):
        if not a:
            continue
        if groups and i - groups[-1][-1] - 1 <= gap:
            groups[-1].append(i)
        else:
            groups.append([i])
    return {i for g in groups if g[-1] - g[0] + 1 >= persistence for i in range(g[0], g[-1] + 1)}


def run(ctx, case):
    for rest in itertools.product(case['alphabet'], repeat=case['k'] - len(case['head'])):
        word = case['head'] + ''.join(rest)
        anomalous = [c in 'at' for c in word]
        for threshold in ((1.0, 0.5) if case['wide'] else (1.0,)):
            for kind in (('points', 'slots') if case['wide'] else ('points',)):
                for persistence in range(case['top'] + 1):
                    for gap in range(case['top'] + 1):
                        one(ctx, word, anomalous, threshold, kind, persistence, gap, case['wide'])


def one(ctx, word, anomalous, threshold, kind, persistence, gap, wide):
    expected = events(anomalous, persistence, gap)
    scored = any(c != '-' for c in word) or not word
    series = build(word, threshold, kind)
    old = [snap_item(item) for item in series]
    for replace, inplace in (itertools.product((False, True), repeat=2) if wide else ((False, False), )):
        args = dict(index_treshold=threshold, min_persistence=persistence, max_gap=gap, replace_index=replace, inplace=inplace)
        if inplace:
            series = build(word, threshold, kind)
        got = outcome_of(AnomalyDetector.mark_events, series, **args)
        ctx.step()
        ctx.state((word, kind, threshold, persistence, gap, replace, inplace))
        if not scored:
            ctx.check(got[0] == 'err' and [snap_item(item) for item in series] == old, 'refused', lambda: '{} with no anomaly index gave {}'.format(word, got))
            ctx.ok()
            continue
        if not ctx.check(got[0] == 'ok', 'events', lambda: '{} with {} failed: {}'.format(word, args, got)):
            continue
        res = got[1]
        name = 'anomaly' if replace else 'anomaly_event'
        marks = [item.data_indexes.get(name) for item in res]
        exp = [int(i in expected) for i in range(len(word))]
        ctx.check(marks == exp, 'events', lambda: '{} with {}: marked {} instead of {}'.format(word, args, marks, exp))
        ctx.outcome((tuple(marks)))
        ctx.ok()
        if inplace:
            ctx.check(res is series, 'inplace', 'the series returned is not the one marked in place')
        else:
            ctx.check([snap_item(item) for item in series] == old, 'source', lambda: '{} with {}: the source changed'.format(word, args))
        ctx.check(type(res) is type(series) and len(res) == len(old), 'shape', 'class or length changed')
        # Nothing else has changed
        for item in res:
            item.data_indexes.pop(name, None)
        ref = build(word, threshold, kind)
        if replace:
            for item in ref:
                item.data_indexes.pop('anomaly', None)
        ctx.check([snap_item(item) for item in res] == [snap_item(item) for item in ref], 'else', lambda: '{} with {}: something else changed'.format(word, args))
        if not inplace:
            ctx.check([snap_item(item) for item in series] == old, 'sharing', 'what has been marked shares its indexes with the source')
    if not wide and word:
        defaults = outcome_of(AnomalyDetector.mark_events, build(word, 1.0, kind))
        exp = [int(i in events(anomalous, 2, 2)) for i in range(len(word))]
        ctx.check(defaults[0] == 'ok' and [i.data_indexes['anomaly_event'] for i in defaults[1]] == exp, 'defaults', lambda: '{}: wrong marking with the default arguments'.format(word)) if (persistence, gap) == (2, 2) else None
