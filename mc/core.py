"""Exploration engine: choice points, exhaustive path enumeration, explicit-state search, job runner.

Every check is a finite list of jobs (configurations).  A job drives the real code in /repo/src through
every choice sequence / operation sequence of its bounded space and compares with a reference model.
"""
import collections
import contextlib
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from fractions import Fraction
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get('MC_DEV_SRC', '/repo/src')      # the variable serves trials of planted bugs only
JOB_TIMEOUT = 300


class Violation(Exception):
    """The property is broken.  sig identifies the failing input / history (used for known findings)."""

    def __init__(self, msg, sig=None, detail=None):
        Exception.__init__(self, msg)
        self.msg, self.sig, self.detail = msg, sig, detail


class Hang(Exception):
    pass


class TooManyChoices(Exception):
    pass


# ---------------------------------------------------------------- choice points
class Chooser:
    """Owns every nondeterministic answer of one execution: replays a prefix, then takes choice 0."""

    def __init__(self):
        self.prefix, self.trail, self.cap, self.active = (), [], 10000, False
        self.diverged = False

    def start(self, prefix=(), cap=10000):
        self.prefix, self.trail, self.cap, self.active = tuple(prefix), [], cap, True
        self.diverged = False

    def pick(self, n, weights=None, tag=None):
        i = len(self.trail)
        if i >= self.cap:
            raise TooManyChoices('more than %d environment answers requested' % self.cap)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:                       # the execution prefix did not reproduce
                self.diverged = True
                c = n - 1
        else:
            c = 0
        w = weights[c] if weights is not None else Fraction(1, n)
        self.trail.append((c, n, w, tag))
        return c

    @property
    def choices(self):
        return tuple(t[0] for t in self.trail)

    @property
    def weight(self):
        w = Fraction(1)
        for t in self.trail:
            w *= t[2]
        return w

    def stop(self):
        self.active = False


CH = Chooser()


def paths(execute, cap=10000, bound=None, max_paths=None):
    """Depth-first enumeration of every choice sequence of `execute()`.

    bound: maximal number of non-default answers (deviations) per execution; None = all.
    Yields (choices, weight, result).
    """
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        CH.start(prefix, cap)
        try:
            res = execute()
        except Violation as v:
            v.detail = dict(v.detail or {}, choices=list(CH.choices))
            raise
        except TooManyChoices as e:
            raise Violation('no termination within the horizon: %s' % e, sig='horizon',
                            detail={'choices': list(CH.choices[:60])})
        trail = list(CH.trail)
        if CH.diverged or tuple(t[0] for t in trail[:len(prefix)]) != tuple(prefix):
            raise Violation('execution is not a function of its inputs and random answers: '
                            'replaying a recorded prefix diverged', sig='divergence',
                            detail={'prefix': list(prefix)})
        w = CH.weight
        CH.stop()
        n += 1
        yield tuple(t[0] for t in trail), w, res
        dev = sum(1 for t in trail[:len(prefix)] if t[0])
        for i in range(len(trail) - 1, len(prefix) - 1, -1):
            if bound is not None and dev + 1 > bound:
                break
            for alt in range(trail[i][1] - 1, 0, -1):
                stack.append(tuple(t[0] for t in trail[:i]) + (alt,))
        if max_paths is not None and n >= max_paths:
            if stack:
                raise RuntimeError('path cap %d hit' % max_paths)
            return


def law(execute, key=lambda r: r, cap=10000):
    """Exact law (outcome -> Fraction) of an execution over all of its random answers."""
    res = collections.defaultdict(Fraction)
    k = 0
    for _, w, r in paths(execute, cap):
        res[key(r)] += w
        k += 1
    return dict(res), k


# ---------------------------------------------------------------- accounting
class Stats:
    def __init__(self):
        self.c = collections.Counter()
        self.states = set()
        self.outcomes = set()
        self.samples = []

    def state(self, x):
        self.states.add(hash64(x))

    def outcome(self, x):
        self.outcomes.add(hash64(x))

    def sample(self, x, k=4):
        if len(self.samples) < k:
            self.samples.append(x)

    def dump(self):
        return dict(self.c), self.states, self.outcomes, self.samples


def hash64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big')


ST = Stats()


def tick(name, n=1):
    ST.c[name] += n


# ---------------------------------------------------------------- helpers used by checks
def expect(cond, msg, sig=None, **detail):
    if not cond:
        raise Violation(msg, sig, detail)


def expect_raises(excs, fn, msg, sig=None, **detail):
    try:
        r = fn()
    except excs:
        return True
    except (Violation, TooManyChoices, Hang):
        raise
    except Exception as e:
        raise Violation('%s: raised %s(%s) instead of %s' % (msg, type(e).__name__, e, excs), sig, detail)
    raise Violation('%s: returned %r instead of raising' % (msg, r), sig, detail)


def close(a, b, tol=1e-9):
    try:
        if a == b:
            return True
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a != a or b != b:
        return a != a and b != b
    if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- job runner
def load_sut():
    if REPO_SRC not in sys.path[:1]:
        sys.path.insert(0, REPO_SRC)
    import warnings
    warnings.simplefilter('ignore')
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import logging
    logging.disable(logging.CRITICAL)
    import sims_pars
    assert os.path.realpath(sims_pars.__file__).startswith(REPO_SRC), sims_pars.__file__
    return sims_pars


_MOD = None
_KNOWN = ()


def _alarm(*_):
    raise Hang('no answer within %d s' % JOB_TIMEOUT)


def run_one(mod, job):
    """Run one job; returns None or a violation record."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_TIMEOUT)
    try:
        with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
            mod.run(job)
        return None
    except Violation as v:
        tb = traceback.format_exc()
        return {'msg': v.msg, 'sig': v.sig or hash_sig(job), 'detail': jsonable(v.detail), 'job': jsonable(job),
                'traceback': tb[-3000:]}
    except Hang as e:
        return {'msg': 'no termination: %s' % e, 'sig': 'hang', 'detail': None, 'job': jsonable(job),
                'traceback': traceback.format_exc()[-3000:]}
    except RecursionError as e:
        return {'msg': 'unexpected RecursionError: %s' % e, 'sig': hash_sig(job), 'detail': None,
                'job': jsonable(job), 'traceback': traceback.format_exc()[-1500:]}
    except Exception as e:
        return {'msg': 'unexpected %s: %s' % (type(e).__name__, e), 'sig': hash_sig(job),
                'detail': {'choices': list(CH.choices)}, 'job': jsonable(job),
                'traceback': traceback.format_exc()[-3000:]}
    finally:
        signal.alarm(0)
        CH.stop()


def hash_sig(job):
    return 'job-%016x' % hash64(jsonable(job))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=repr)
    if isinstance(x, (str, int, float, bool)) or x is None:
        if type(x) in (str, int, float, bool) or x is None:
            return x
        return x.item() if hasattr(x, 'item') else str(x)
    return repr(x)


def _batch(args):
    name, jobs, limit = args
    global ST
    mod = importlib.import_module('mc.checks.' + name)
    ST.__init__()
    out = []
    for job in jobs:
        r = run_one(mod, job)
        ST.c['jobs'] += 1
        if r is not None:
            out.append(r)
            if len(out) >= limit:
                break
    return out, ST.dump()


def detuple(x):
    return x


def run_check(pid, tier, workers=None):
    """Explore all jobs of property pid.  Returns (violations, stats, meta)."""
    load_sut()
    name = pid.lower()
    mod = importlib.import_module('mc.checks.' + name)
    jobs = list(mod.jobs(tier))
    workers = workers or min(8, os.cpu_count() or 1)
    size = getattr(mod, 'BATCH', None) or max(1, min(200, len(jobs) // (workers * 6) or 1))
    batches = [(name, jobs[i:i + size], 3) for i in range(0, len(jobs), size)]
    tot = Stats()
    viol = []
    if len(batches) == 1 or workers == 1:
        results = (_batch(b) for b in batches)
        for out, dump in results:
            merge(tot, dump)
            viol += out
            if len(viol) >= 40:
                break
    else:
        ctx = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(workers, mp_context=ctx) as ex:
            futs = [ex.submit(_batch, b) for b in batches]
            stop = False
            for f in as_completed(futs):
                if stop and f.cancelled():
                    continue
                out, dump = f.result()
                merge(tot, dump)
                viol += out
                if len(viol) >= 40 and not stop:
                    stop = True
                    for g in futs:
                        g.cancel()
                    break
    return viol, tot, mod, len(jobs)


def merge(tot, dump):
    c, s, o, sm = dump
    tot.c.update(c)
    tot.states |= s
    tot.outcomes |= o
    for x in sm:
        tot.sample(x, 5)
