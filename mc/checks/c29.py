"""Results are a function of definitions, calls and random numbers: processes that iterate sets in every possible order agree."""
import json
import math
import os
import subprocess
import sys
from .. import core, repro
from ..core import ST, expect, tick

BOUNDS = {
    'quick': 'one process for each of the 6 orders in which a set of the variable names can be iterated (hash seeds searched for them) x all networks of '
             '<=3 nodes (half of them defined children first; script, open, JSON) with all target sets and interventions; simulation cores of requests on the four '
             'hierarchies (all for 1 node, 1/4 to 1/9 for 2, 1/70 to 1/600 for 3), with one deviation per random answer; fits of the three fitters, genetic '
             'operators, shipped distributions, tables, parsing with three fixed streams; everything repeated in reverse order in the first process',
    'thorough': 'the 24 orders of four names; five times as many requests, one eighth of the 4-node networks',
}
ASSUMPTIONS = ['processes differ in nothing but the order in which sets are iterated; that of a set of names is fixed by its hash seed']
PARTS = {'quick': 8, 'thorough': 45}


def jobs(tier):
    k = 3 if tier == 'quick' else 4
    seeds = repro.seeds_for(k)
    assert len(seeds) == math.factorial(k), seeds
    return [[tier, p, PARTS[tier], seeds] for p in range(PARTS[tier])]


def work(args, seed, label=None):
    env = dict(os.environ, PYTHONHASHSEED=str(seed), MC_REPEAT='1' if label is None and seed == args[3][0] else '')
    cmd = [sys.executable, '-W', 'ignore', '-m', 'mc.repro', json.dumps(args[:3])] + ([label] if label else [])
    r = subprocess.run(cmd, env=env, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), capture_output=True, text=True)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise core.Violation('a process with hash seed %s gave no results: %s' % (seed, (r.stderr or r.stdout)[-600:]))


def where(a, b, path=()):
    """First difference of two transcripts."""
    if type(a) != type(b) or not isinstance(a, list) or len(a) != len(b) or a != b and not any(isinstance(x, list) for x in a):
        return (path, a, b) if a != b else None
    for i, (x, y) in enumerate(zip(a, b)):
        d = where(x, y, path + (i,))
        if d:
            return d


def run(job):
    seeds = job[3]
    ref = work(job, seeds[0])
    expect(not ref['errors'], 'failed: %s' % list(ref['errors'].items())[:2])
    expect(not ref['unstable'], 'done again in the same process, the results differ: %s' % ref['unstable'][:4])
    for k, v in ref['digests'].items():
        ST.state((k, v))
        ST.outcome(v)
    tick('traces', len(ref['digests']))
    tick('transitions', ref['paths'])
    for s in seeds[1:]:
        r = work(job, s)
        expect(set(r['digests']) == set(ref['digests']), 'cases of the processes differ')
        for k, v in r['digests'].items():
            if v != ref['digests'][k]:
                try:
                    d = where(work(job, seeds[0], k), work(job, s, k))
                except core.Violation:
                    d = ('', '', '')
                expect(False, '%s: results in two processes differ (hash seeds %s and %s): %s / %s' % (k, seeds[0], s, str(d[1])[:300], str(d[2])[:300]) if d else k, case=k, seeds=[seeds[0], s], at=str(d and d[0]))
        tick('traces', len(r['digests']))
        tick('transitions', r['paths'])
    ST.sample({'seeds': seeds, 'cases': sorted(ref['digests'])[:6]})
