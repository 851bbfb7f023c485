"""Y01: what is computed does not depend on the environment of the process."""
import hashlib
import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from mc import core
from mc.checks import p02
from mc.checks.h01 import FAMILIES
from mc.checks.k01 import KINDS

PROPERTY = 'Y01'
LEVEL = 'model_checking'
RULE = ('every function, edit and model (fit and used) on the series of each family, every function on series of each spacing and unit, every timestamp format read from files, every unit and way of making an instant, data frames of each index, and series and models saved by another process and loaded, '
        'each computed by a process in every combination of local time zone and seed of the hashes (which decides the order of sets), and in every locale, with optimizations, with logging on, and from another working directory: the result is the one of the process in the reference environment. A non-trivial outcome is a distinct result')
ASSUMPTIONS = ['messages of the errors are free', 'the machine and the installed libraries are the same', 'settings of the plots are meant to be taken from the environment, and plots are not computed']
BOUNDS = {'quick': '5 local time zones and 3 seeds in pairs such that each value of one is with at least two of the other, and 5 other environments, on 10 series of 5 families and 4 series of 11 kinds', 'thorough': 'all combinations of 10 local time zones, 6 seeds and 2 settings of the others'}
CHUNK = 1
TIMEOUT = 850
BASE = dict(TZ='UTC', PYTHONHASHSEED='0')
LOCALS = ['Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Pacific/Apia', 'Africa/Algiers', 'Australia/Lord_Howe', 'Etc/GMT+11', 'Europe/London', 'Asia/Tokyo', 'UTC']
OTHERS = {'ascii': dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'), 'utf8': dict(LC_ALL='C.utf8'), 'optimized': dict(PYTHONOPTIMIZE='1'), 'debug': dict(TIMESERIA_LOGLEVEL='DEBUG'), 'elsewhere': dict(cwd='new', HOME='/nonexistent')}


def environments(tier):
    if tier == 'quick':
        # One of the two seeds for each time zone, and the time zones with another one
        out = [dict(TZ=tz, PYTHONHASHSEED=str(1 + (k + j) % 3)) for j in (0, 1) for k, tz in enumerate(LOCALS[:3] + ['Pacific/Apia', 'UTC'])]
    else:
        out = [dict(TZ=tz, PYTHONHASHSEED=str(h)) for tz in LOCALS for h in range(1, 7)]
    out += [dict(BASE, **o) for o in OTHERS.values()]
    if tier != 'quick':
        out += [dict(TZ='Pacific/Apia', PYTHONHASHSEED='4', **dict(a, **b)) for a, b in itertools.combinations(OTHERS.values(), 2)]
    return out


PARTS = [dict(what='functions', family=f) for f in FAMILIES] + [dict(what='models', family=f) for f in FAMILIES] + [dict(what='more', kind=k) for k in KINDS] + \
    [dict(what='read', kind=k, tz=tz) for k in p02.FORMATS for tz in ('Europe/Rome', 'UTC')] + [dict(what='units'), dict(what='frames'), dict(what='load')]


def cases(tier):
    for part in sorted(PARTS, key=lambda p: p['what'] != 'models'):
        yield dict(part=part, tier=tier)


def process(part, env, folder):
    """Compute a part in an environment."""
    number, out = tempfile.mkstemp(dir=folder)
    os.close(number)
    cwd = tempfile.mkdtemp(dir=folder)
    settings = {k: v for k, v in os.environ.items() if k not in ('TZ', 'PYTHONHASHSEED', 'LC_ALL', 'LANG', 'LC_CTYPE', 'PYTHONUTF8', 'PYTHONOPTIMIZE', 'TIMESERIA_LOGLEVEL')}
    settings.update({k: v for k, v in env.items() if k != 'cwd'})
    job = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.envjob', json.dumps(part), folder, out], env=settings, cwd=cwd if 'cwd' in env else core.VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if job.returncode:
        raise RuntimeError('{} in {}: {}'.format(part, env, job.stderr.decode(errors='replace')[-1500:]))
    with open(out, 'rb') as f:
        return pickle.load(f)


def run(ctx, case):
    part = case['part']
    folder = tempfile.mkdtemp(dir=core.scratch())
    try:
        written = None
        if part['what'] == 'load':
            written = process(dict(what='write'), BASE, folder)
        ref = process(part, BASE, folder)
        ctx.check(ref, 'empty', 'nothing computed')
        for o in ref.values():
            ctx.outcome(hashlib.md5(o.encode()).hexdigest())
        for env in environments(case['tier']):
            compare(ctx, part, env, process(part, env, folder), ref)
            if written is not None:
                # Saved there, and loaded here
                other = tempfile.mkdtemp(dir=folder)
                compare(ctx, dict(what='write'), env, process(dict(what='write'), env, other), {k: v for k, v in written.items()})
                compare(ctx, dict(what='load saved there'), env, process(part, BASE, other), ref)
                shutil.rmtree(other)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    ctx.sample(case)


def compare(ctx, part, env, got, ref):
    ctx.state((str(part), str(env)))
    ctx.step(len(got))
    ctx.ok(len(got))
    if ctx.check(set(got) == set(ref), 'computed', lambda: '{} in {}: {} results instead of {}'.format(part, env, len(got), len(ref))):
        for k in ref:
            if got[k] != ref[k]:
                ctx.fail('environment:' + part['what'], '{} {} in {}: {} instead of {} in {}'.format(part, k, env, got[k][:1000], ref[k][:1000], BASE))
