"""C01: a save which fails or is interrupted loses nothing, and leaves nothing which can be taken for good."""
import os
import resource
import shutil
import signal
import sys
from mc import core
from mc.lib import *
from mc.checks import m02
from timeseria.storages import CSVFileStorage

PROPERTY = 'C01'
LEVEL = 'fault_enumeration'
RULE = ('every save of the product of series (or models) x what is already there, interrupted or made fail at every byte written (with the limit of the operating system on the size of the files, so with real torn writes) and at every '
        'operation on the file system (from the audit events of the interpreter), each one in a process on its own: what is there afterwards is compared with what was there before and with a complete save, also by loading it, and the '
        'save is then repeated. A non-trivial outcome is a distinct state left by an interrupted or failed save')
ASSUMPTIONS = ['what has been written before the crash of a process stays written, in order (crashes of the process, not of the machine)', 'one failure at a time', 'an interrupted save can leave other files, if not taken for something saved']
BOUNDS = {'quick': 'every byte of the small files for crashes creating or replacing a file (one every 23 otherwise) and one every 211 for the large ones, every operation, 5 series, 7 previous contents, 6 models', 'thorough': 'every byte, up to one every 7 for the large ones'}
CHUNK = 1
TIMEOUT = 600

SERIES = {'points': lambda: points([0, 60, 180.5], [(1, 2.25), (3, -4), (5, 1e-7)], labels=('a', 'b'), losses=[0.5, None, 0]),
          'slots': lambda: slots(epoch(2019, 10, 26, tz='Europe/Rome'), '1D', [1, 2, 3], labels=('x',), tz='Europe/Rome', losses=[0, 1, None]),
          'single': lambda: points([7], [(1,)], tz='America/New_York'),
          'list': lambda: points([0, 3600], [(1, 2), (3, 4)], kind='list'),
          'large': lambda: points([60 * i for i in range(900)], [(i / 7, -i) for i in range(900)], labels=('a', 'b'))}
# What does not fit in the encoding fails while writing
REFUSED = {'encoding': (lambda: points([0, 60], [(1,), (2,)], labels=('\u6e29',)), 'latin-1'),
           'encoding-late': (lambda: points([60 * i for i in range(600)], [(i,) for i in range(600)], labels=('a',), tz=None, indexes=[{} for i in range(599)] + [{'\u6e29': 1}]), 'ascii')}
PREVIOUS = ['none', 'same', 'other', 'longer', 'foreign', 'link', 'readonly']
MODELS = ['PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'Scaled', 'Preset', 'PeriodicAverageAnomalyDetector', 'Generic:Scaled']


def cases(tier):
    for s in SERIES:
        for p in PREVIOUS:
            for how in ('crash', 'fail'):
                yield dict(kind='series', series=s, previous=p, how=how, tier=tier)
    for s in REFUSED:
        for p in PREVIOUS:
            yield dict(kind='refused', series=s, previous=p)
    for name in MODELS:
        for how in ('crash', 'fail'):
            yield dict(kind='model', name=name, how=how, tier=tier)


def run(ctx, case):
    globals()['run_' + case['kind']](ctx, **{k: v for k, v in case.items() if k != 'kind'})


# The faults

EVENTS = ('open', 'os.', 'shutil.', 'tempfile.')
# Only looking at what is there
LOOKING = ('os.listdir', 'os.scandir', 'os.walk', 'os.fwalk', 'os.putenv', 'os.unsetenv')


def hook(top, at, how):
    """Fail or die at the n-th operation altering what is under a folder."""
    state = [0]

    def audit(event, args):
        if not event.startswith(EVENTS) or event in LOOKING:
            return
        if not any(isinstance(a, (str, bytes)) and os.fsdecode(a).startswith(top) for a in args):
            return
        if event == 'open' and not (len(args) > 2 and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            return
        state[0] += 1
        if state[0] == at:
            if how == 'crash':
                os._exit(9)
            raise OSError(28, 'No space left on device')
    sys.addaudithook(audit)


def attempt(fn, top, how, size=None, at=None):
    """Run in a process on its own: 'done', 'failed' (with an error) or 'dead'."""
    pid = os.fork()
    if not pid:
        code = 8
        try:
            signal.setitimer(signal.ITIMER_REAL, 60)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == 'crash' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if at is not None:
                hook(top, at, how)
            if size is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            try:
                fn()
                code = 0
            except Exception:
                code = 3
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return 'dead' if os.WTERMSIG(status) == signal.SIGXFSZ else 'killed by {}'.format(os.WTERMSIG(status))
    return {0: 'done', 3: 'failed', 9: 'dead'}.get(os.WEXITSTATUS(status), 'exit {}'.format(os.WEXITSTATUS(status)))


def everything(top):
    """What is in a folder: every file with its content, and links."""
    out = {}
    for d, folders, files in os.walk(top):
        for f in folders + files:
            path = os.path.join(d, f)
            if os.path.islink(path):
                out[os.path.relpath(path, top)] = ('link', os.readlink(path))
            elif os.path.isdir(path):
                out[os.path.relpath(path, top)] = ('folder',)
            else:
                with open(path, 'rb') as fp:
                    out[os.path.relpath(path, top)] = ('file', fp.read(), os.stat(path).st_mode)
    return out


def restore(top):
    """The folder as it was set."""
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(top + '-template', top, symlinks=True)


def setting(top, previous, name):
    """The folder with what is already there."""
    path = make_there(top, previous, name)
    shutil.rmtree(top + '-template', ignore_errors=True)
    shutil.copytree(top, top + '-template', symlinks=True)
    return path


def make_there(top, previous, name):
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + '/elsewhere')
    with open(top + '/bystander.csv', 'w') as f:
        f.write('epoch,a\n1,2\n')
    path = top + '/data.csv'
    if previous == 'foreign':
        with open(path, 'w') as f:
            f.write('not a series at all\n' * 40)
    elif previous != 'none':
        target = path
        if previous == 'link':
            target = top + '/elsewhere/real.csv'
            os.symlink(target, path)
        old = {'same': SERIES[name]() if name in SERIES else SERIES['points'](), 'longer': points([3600 * i for i in range(2000)], [(i,) for i in range(2000)])}.get(previous) or SERIES['slots' if name != 'slots' else 'points']()
        old.save(target)
        if previous == 'readonly':
            os.chmod(target, 0o440)
    return path


def loaded(path):
    got = outcome_of(TimeSeries.load, path)
    return ('ok', snap(got[1])) if got[0] == 'ok' else ('err',)


def sizes(total, tier, every=True):
    """Where to interrupt: everywhere if small."""
    if total <= 4000 and tier != 'quick' or total <= 900 and every:
        return range(0, total + 1)
    if total <= 900:
        return sorted(set(range(0, total + 1, 23)) | {1, total - 1, total})
    step = 211 if tier == 'quick' else 7
    # Around the borders of the buffers as well
    return sorted(set(range(0, total + 1, step)) | {b + d for b in range(0, total + 1, 4096) for d in (-1, 0, 1) if 0 <= b + d <= total} | {total - 1, total})


def run_series(ctx, series, previous, how, tier):
    top = core.scratch() + '/c01'
    source = SERIES[series]()
    path = setting(top, previous, series)
    before, was = everything(top), loaded(path)
    # Without failures
    done = attempt(lambda: source.save(path, overwrite=True), top, how)
    after, new = everything(top), loaded(path)
    what = '{} over {}'.format(series, previous)
    if not ctx.check(done == 'done' and new[0] == 'ok' and new[1][1] == loaded_snap(source, top), 'save', lambda: '{}: {} and then {}'.format(what, done, new)):
        return
    target = 'elsewhere/real.csv' if previous == 'link' else 'data.csv'
    ctx.check(set(after) == set(before) | {target} and all(after[k] == before[k] for k in before if k != target), 'others', lambda: '{}: left {} from {}'.format(what, sorted(after), sorted(before)))
    total = len(after[target][1])
    points_ = [dict(size=k) for k in sizes(total + 40, tier, how == 'crash' and previous in ('none', 'other'))] + [dict(at=k) for k in range(1, 40)]
    for fault in points_:
        restore(top)
        got = attempt(lambda: source.save(path, overwrite=True), top, how, **fault)
        ctx.step()
        after = everything(top)
        where = lambda: '{}, {} with {}'.format(what, 'interrupted' if how == 'crash' else 'failing', fault)
        ctx.check(got in ('done', 'dead' if how == 'crash' else 'failed'), 'attempt', lambda: '{}: {}'.format(where(), got))
        ctx.state((series, previous, how, str(fault)))
        now = loaded(path)
        kept = all(after.get(k) == v for k, v in before.items())
        if got == 'done':
            ctx.check(now == new, 'done', lambda: '{}: saved, but then {}'.format(where(), now))
        else:
            # Either what was there or what was being saved, in full
            ctx.check(kept or (how == 'crash' and now == new and all(after.get(k) == v for k, v in before.items() if k != target)), 'lost', lambda: '{}: {} left instead of {}'.format(where(), sorted(after.items()), sorted(before.items())))
            ctx.check(now in (was, new, ('err',)), 'mistaken', lambda: '{}: loads {}'.format(where(), now))
            if how == 'fail':
                ctx.check(after == before, 'left', lambda: '{}: {} left from {}'.format(where(), sorted(after), sorted(before)))
        # And the save can be done again
        if 'at' in fault or fault['size'] % 10 == 0:
            again = outcome_of(source.save, path, overwrite=True)
            now2 = loaded(path)
            ctx.check(again[0] == 'ok' and now2 == new, 'again', lambda: '{}: saving again {} and then {}'.format(where(), again, now2))
        ctx.outcome((series, previous, got, sorted(after)  if how == 'fail' else len(after), now == new))
        ctx.ok()
        if got == 'done' and 'at' in fault:
            break
    shutil.rmtree(top, ignore_errors=True)


def loaded_snap(source, top):
    """What is expected to be loaded: the items, with the indexes of the others if not set."""
    indexes = sorted({i for item in source for i in item.data_indexes})
    path = core.scratch() + '/c01-reference.csv'
    if os.path.exists(path):
        os.remove(path)
    source.save(path)
    ref = TimeSeries.load(path)
    assert [i.data_indexes.get(k) for i in ref for k in indexes] == [i.data_indexes.get(k) for i in source for k in indexes]
    return snap(ref)[1]


def run_refused(ctx, series, previous):
    """What fails on its own half way."""
    top = core.scratch() + '/c01'
    path = setting(top, previous, series)
    source, encoding = REFUSED[series][0](), REFUSED[series][1]
    before = everything(top)
    got = outcome_of(source.save, path, overwrite=True, encoding=encoding)
    ctx.step()
    after = everything(top)
    ctx.state((series, previous))
    ctx.outcome((got[0], series, previous))
    ctx.check(got[0] == 'err', 'refused', lambda: '{} over {}: {}'.format(series, previous, got))
    ctx.check(after == before, 'lost', lambda: 'a save refused half way ({} over {}) left {} instead of {}'.format(series, previous, {k: str(v)[:200] for k, v in after.items()}, {k: str(v)[:200] for k, v in before.items()}))
    ctx.ok()


def run_model(ctx, name, how, tier):
    top = core.scratch() + '/c01'
    labels = ('a',) if name != 'Generic:Scaled' else ('a', 'b')
    model = m02.create(name, {})
    if m02.FIT[name] is not None:
        model.fit(m02.source('minutes', labels), **m02.FIT[name], **(dict(error_metric='E') if 'Anomaly' in name or 'Generic' in name else {}))
    probes = [m02.source('minutes', labels, k=3, n=7)]
    expected, data = m02.probe(ctx, model, probes), m02.plain(model.data)
    path = top + '/model'

    shutil.rmtree(top, ignore_errors=True)
    shutil.rmtree(top + '-template', ignore_errors=True)
    os.makedirs(top + '-template')
    model.save(top + '-template/previous')
    restore(top)
    before = everything(top)
    if not ctx.check(attempt(lambda: model.save(path), top, how) == 'done', 'save', lambda: '{}: not saved'.format(name)):
        return
    total = max(len(v[1]) for v in everything(top).values() if v[0] == 'file')
    for fault in [dict(size=k) for k in sizes(total, tier, how == 'crash')] + [dict(at=k) for k in range(1, 40)]:
        restore(top)
        got = attempt(lambda: model.save(path), top, how, **fault)
        ctx.step()
        after = everything(top)
        where = lambda: '{}, {} with {}'.format(name, 'interrupted' if how == 'crash' else 'failing', fault)
        ctx.check(got in ('done', 'dead' if how == 'crash' else 'failed'), 'attempt', lambda: '{}: {}'.format(where(), got))
        ctx.check(all(after.get(k) == v for k, v in before.items()), 'lost', lambda: '{}: altered what was elsewhere'.format(where()))
        ctx.state((name, how, str(fault)))
        back = outcome_of(m02.load, name, path)
        good = back[0] == 'ok' and m02.plain(back[1].data) == data and (how == 'crash' or m02.probe(ctx, back[1], probes) == expected)
        ctx.check(good if got == 'done' else good or back[0] == 'err', 'mistaken', lambda: '{}: {} and loads {}'.format(where(), got, back))
        # Elsewhere it can always be saved again
        again = outcome_of(model.save, path + '-again')
        ctx.check(again[0] == 'ok' and outcome_of(m02.load, name, path + '-again')[0] == 'ok', 'again', lambda: '{}: saving again {}'.format(where(), again))
        ctx.outcome((name, got, back[0], len(after)))
        ctx.ok()
        if got == 'done' and 'at' in fault:
            break
    shutil.rmtree(top, ignore_errors=True)
