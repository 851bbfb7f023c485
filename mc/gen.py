"""Bounded families of series shared by the checks on the operations."""
import itertools
from mc.lib import *

# name -> (instants or start, unit, timezone, labels, kind)
SHAPES = {
    'points': dict(ts=[60, 120, 180, 240, 300, 360, 420]),
    'points0': dict(ts=[0, 0.5, 1, 1.5, 2, 2.5, 3]),
    'uneven': dict(ts=[-60, 0, 60, 90, 400, 460, 520], tz='Europe/Rome'),
    'two': dict(ts=[600, 1200, 1800, 2400, 3000, 3600, 4200], labels=('b', 'a'), tz='America/New_York'),
    'list': dict(ts=[10, 20, 30, 40, 50, 60, 70], labels=('0', '1'), kind='list'),
    'unevenlist': dict(ts=[10, 20, 70, 80, 200, 201, 300], labels=('0', '1'), kind='list'),
    'hslots': dict(start=3600 * 5, unit='1h'),
    'dslots': dict(start=epoch(2019, 3, 30, tz='Europe/Rome'), unit='1D', tz='Europe/Rome', labels=('a', 'b')),
    'mslots': dict(start=epoch(2020, 1, 1), unit='1M'),
    'listslots': dict(start=0, unit='10m', labels=('0',), kind='list'),
}


def make(shape, values, losses=None, indexes=None):
    """values: one tuple (a value per label) per item."""
    c = SHAPES[shape]
    labels = c.get('labels', ('a',))
    if 'ts' in c:
        return points(c['ts'][:len(values)], values, labels=labels, tz=c.get('tz'), losses=losses, indexes=indexes, kind=c.get('kind', 'dict'))
    return slots(c['start'], c['unit'], values, labels=labels, tz=c.get('tz'), losses=losses, indexes=indexes, kind=c.get('kind', 'dict'))


def labels_of(shape):
    return SHAPES[shape].get('labels', ('a',))


def values_for(shape, n, domain, full=False):
    """Every assignment of the domain to the items; further labels get the full product too if full, or a rotation."""
    k = len(labels_of(shape))
    for first in itertools.product(domain, repeat=n):
        if k == 1:
            yield [(v,) for v in first]
        elif full:
            for second in itertools.product(domain, repeat=n):
                yield list(zip(first, second))
        else:
            rot = first[1:] + first[:1]
            yield [(a, 3 - 2 * b) for a, b in zip(first, rot)]


def val(item, label):
    return item.data[label] if isinstance(item.data, dict) else item.data[int(label)]


def frame(item):
    """Everything of an item but its values."""
    s = snap_item(item)
    return s[:-2] + s[-1:]
