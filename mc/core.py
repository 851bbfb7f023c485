"""Common machinery: bounded-exhaustive exploration of the real code against a reference model.

A check module (mc/checks/<id>.py) defines

    PROPERTY   the property id
    LEVEL      'model_checking' | 'exploration' | 'fault_enumeration'
    RULE       how the explored space is made, and what counts as a non-trivial case
    ASSUMPTIONS  list of strings
    cases(tier)        generator of JSON-able cases: the WHOLE bounded space, in a fixed order
    run(ctx, case)     explore one case on the real code, reporting through ctx

There is no sampling anywhere: `cases` enumerates the bounded space completely, and VERIF_SEED only rotates
the order in which the shards are handed out. Every reported violation has a replay file with the case, and
`python -m mc.run <ID> --replay FILE` re-runs exactly that case.
"""

import hashlib
import json
import logging
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 90
MAX_VIOLATIONS = 5


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def h64(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big')


class Ctx:
    """What a case run reports to."""

    def __init__(self):
        self.states = set()        # canonical states (hashed)
        self.outcomes = set()      # distinct outcomes of non-trivial executions (hashed)
        self.transitions = 0       # operations executed on the real code
        self.validated = 0         # executions whose observations were all compared with the reference model
        self.trivial = 0
        self.fails = {}            # key -> (message, case)
        self.fail_count = 0
        self.samples = []
        self.case = None

    def state(self, key):
        h = h64(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def ok(self, n=1):
        self.validated += n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def fail(self, key, message, case=None):
        """Report a disagreement. `key` identifies what fails (matched against KNOWN_FINDINGS)."""
        self.fail_count += 1
        if key not in self.fails:
            self.fails[key] = (str(message)[:3000], self.case if case is None else case)

    def check(self, cond, key, message, case=None):
        if not cond:
            self.fail(key, message() if callable(message) else message, case)
        return bool(cond)


def run_case(module, ctx, case):
    ctx.case = case
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(module, 'TIMEOUT', CASE_TIMEOUT))
    try:
        module.run(ctx, case)
    except CaseTimeout:
        ctx.fail('no-termination', 'did not finish within the time limit; stack:\n' + traceback.format_exc()[-1500:])
    except MemoryError:
        ctx.fail('memory', 'memory limit exceeded:\n' + traceback.format_exc()[-1500:])
    except Exception as e:
        ctx.fail('unexpected-exception:' + type(e).__name__, traceback.format_exc()[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_module = None
_fixed_scratch = None


def scratch():
    """A scratch directory for this process, removed when the check ends."""
    path = os.path.join(_fixed_scratch, 'p%d' % os.getpid())
    os.makedirs(path, exist_ok=True)
    return path


def _worker(chunk):
    ctx = Ctx()
    start = time.time()
    for case in chunk:
        run_case(_module, ctx, case)
        if len(ctx.fails) >= MAX_VIOLATIONS * 4:
            break
    return (len(chunk), ctx.states, ctx.outcomes, ctx.transitions, ctx.validated, ctx.trivial, ctx.fails, ctx.fail_count, ctx.samples, time.time() - start)


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('open: property={} key='.format(prop)):
                    rest = line.split(' key=', 1)[1]
                    key, _, what = rest.partition(' ')
                    known[key] = what
    return known


def jobs():
    try:
        n = len(os.sched_getaffinity(0))
    except Exception:
        n = os.cpu_count() or 1
    return max(1, min(8, int(os.environ.get('VERIF_JOBS', n))))


def main(module, tier, seed, replay=None, evidence=True):
    global _module, _fixed_scratch
    logging.disable(logging.CRITICAL)
    _module = module
    prop = module.PROPERTY
    known = load_known(prop)
    start = time.time()
    _fixed_scratch = tempfile.mkdtemp(prefix='mc_{}_'.format(prop))
    try:
        return _main(module, prop, known, start, tier, seed, replay, evidence)
    finally:
        shutil.rmtree(_fixed_scratch, ignore_errors=True)


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import warnings
    warnings.simplefilter('ignore')


def _main(module, prop, known, start, tier, seed, replay, evidence):
    if replay:
        with open(replay) as f:
            doc = json.load(f)
        ctx = Ctx()
        run_case(module, ctx, doc['case'])
        bad = {k: v for k, v in ctx.fails.items() if k not in known}
        for k, v in ctx.fails.items():
            print('REPLAY property={} key={} {}'.format(prop, k, v[0]))
        if bad:
            print('VIOLATION property={} replay={}'.format(prop, replay))
            return 1
        print('replay: property held' if not ctx.fails else 'replay: only known findings')
        return 0

    if hasattr(module, 'prepare'):
        module.prepare(tier)
    all_cases = list(module.cases(tier))
    ncases = len(all_cases)
    per = max(1, min(getattr(module, 'CHUNK', 200), ncases // (jobs() * 8) or 1))
    chunks = [all_cases[i:i + per] for i in range(0, ncases, per)]
    if chunks:
        # The seed only rotates the order of the shards: the whole space is explored whatever it is
        r = seed % len(chunks)
        chunks = chunks[r:] + chunks[:r]
    total = Ctx()
    done = 0
    stopped = False
    pool = multiprocessing.get_context('fork').Pool(jobs(), initializer=_init)
    it = pool.imap_unordered(_worker, chunks)
    deadline = start + (820 if tier == 'quick' else 6 * 3600)
    first_fail_at = None
    while True:
        try:
            res = it.next(timeout=5)
        except StopIteration:
            break
        except multiprocessing.TimeoutError:
            if first_fail_at and time.time() - first_fail_at > 20:
                stopped = True
                break
            if time.time() > deadline:
                total.fail('exploration-deadline', 'the exploration did not complete within its time limit: some execution is not terminating in time')
                stopped = True
                break
            continue
        n, states, outcomes, tr, va, triv, fails, fc, samples, _ = res
        done += n
        total.states |= states
        total.outcomes |= outcomes
        total.transitions += tr
        total.validated += va
        total.trivial += triv
        total.fail_count += fc
        for s in samples:
            total.sample(s)
        for k, v in fails.items():
            total.fails.setdefault(k, v)
        if any(k not in known for k in total.fails):
            if first_fail_at is None:
                first_fail_at = time.time()
            if sum(1 for k in total.fails if k not in known) >= MAX_VIOLATIONS or time.time() - first_fail_at > 20:
                stopped = True
                break
    if stopped:
        pool.terminate()
    else:
        pool.close()
    pool.join()

    bad = {k: v for k, v in total.fails.items() if k not in known}
    wall = time.time() - start
    for k in sorted(total.fails):
        if k in known:
            print('KNOWN-FINDING: property={} {} [{}]'.format(prop, known[k], k))
    if evidence:
        common = dict(cases=ncases, cases_done=done, distinct_outcomes=len(total.outcomes),
                      exhaustive=not stopped and done == ncases, rule=module.RULE,
                      bounds=module.BOUNDS[tier] if hasattr(module, 'BOUNDS') else '',
                      samples=total.samples or [{'case': all_cases[0]}] if all_cases else [])
        if module.LEVEL == 'model_checking':
            cov = dict(states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.validated, **common)
        else:
            cov = dict(evaluations=total.transitions, distinct_nontrivial=len(total.outcomes), **common)
        ev = dict(property=prop, tier=tier, seed=seed, level=module.LEVEL, coverage=cov,
                  assumptions=module.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(bad))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('{} tier={} cases={}/{} states={} transitions={} validated={} outcomes={} fails={} wall={:.1f}s'.format(
        prop, tier, done, ncases, len(total.states), total.transitions, total.validated, len(total.outcomes), total.fail_count, wall))
    if not bad:
        if done != ncases:
            print('exploration incomplete')
            return 2
        return 0
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for n, k in enumerate(sorted(bad)[:MAX_VIOLATIONS]):
        msg, case = bad[k]
        path = os.path.join(rdir, '{}-{:016x}.json'.format(prop, h64(k)))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, key=k, message=msg, case=case), f, indent=1, default=str)
        print('  key={} {}'.format(k, msg[:1500]))
        print('VIOLATION property={} replay={}'.format(prop, os.path.relpath(path, VERIF)))
    return 1
