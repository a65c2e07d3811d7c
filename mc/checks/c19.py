"""Targets: forms accepted, distances, likelihoods, observation variance over grids of targets and simulations."""
import itertools
import math
from .. import fitkit
from ..core import ST, close, expect, expect_raises, tick

VALS = (2, 0.5, -3, 100.0, 1e-3, -0.25)
ERRS = (0.1, 0.5, 0.02)
SIMS = (-100, -3, -1.5, -0.25, 0, 1e-3, 0.3, 0.5, 0.75, 1, 2, 2.2, 5.5, 100, 1e4)
RANGES = ((0.5, 0.2, 0.8), (3, 1, 10), (-2.0, -5, -1), (0, -1, 4))
DISTS = {
    'unif(0.2, 0.8)': (0.5, 0.6 / math.sqrt(12), lambda x: -math.log(0.6) if 0.2 <= x <= 0.8 else -math.inf),
    'norm(1, 2)': (1, 2, lambda x: -0.5 * ((x - 1) / 2) ** 2 - math.log(2 * math.sqrt(2 * math.pi))),
    'exp(0.5)': (2, 2, lambda x: math.log(0.5) - 0.5 * x if x >= 0 else -math.inf),
    'binom(5, 0.5)': (2.5, math.sqrt(1.25), lambda x: math.log(math.comb(5, int(x)) / 32) if x == int(x) and 0 <= x <= 5 else -math.inf),
    'pois(2)': (2, math.sqrt(2), lambda x: -2 + x * math.log(2) - math.lgamma(x + 1) if x == int(x) and x >= 0 else -math.inf),
}
BOUNDS = {
    'quick': 'all lists of <=2 targets over 6 values x 3 errors x 3 forms, 4 ranges, 5 distributions; 15 simulated values each '
             '(and as numpy numbers); 20 malformed sources',
}
BOUNDS['thorough'] = BOUNDS['quick'] + '; lists of 3'
ASSUMPTIONS = ['a share of the value as error is undefined for a target of zero', 'densities at the edges of a support are left out']


def forms():
    for v in VALS:
        yield ['num', v, None]
        for e in ERRS:
            yield ['err', v, e]
            yield ['half', v, e]                   # one limit only: no range
        yield ['m', v, None]
    for r in RANGES:
        yield ['range', list(r), None]
    for d in DISTS:
        yield ['dist', d, None]
    yield ['obj', 1.5, None]


def jobs(tier):
    fs = list(forms())
    out = [['one', [f], e] for f in fs for e in (None, 0.3)]
    for a in fs[::3]:
        out.append(['pairs', a, None])
    if tier != 'quick':
        for a, b in itertools.product(fs[::4], repeat=2):
            out.append(['triple', a, b])
    out.append(['bad', None, None])
    return out


def make(f):
    from sims_pars.fit.targets import AbsSingleData
    kind, v, e = f
    if kind == 'num':
        return v
    if kind == 'err':
        return {'m': v, 'error': e}
    if kind == 'half':
        return {'m': v, 'error': e, 'l': v - 1}
    if kind == 'm':
        return {'m': v}
    if kind == 'range':
        return {'m': v[0], 'l': v[1], 'u': v[2]}
    if kind == 'dist':
        return v

    class Own(AbsSingleData):
        def get_var_obs(self):
            return 9.0

        def calc_distance(self, sim):
            return 2.0 * abs(sim[self.Name] - self.Value)

        def calc_likelihood(self, sim):
            return -5.0
    return Own('own', v)


def run(job):
    fitkit.quiet()
    from sims_pars.fit.targets import read_targets
    mode, f, e = job
    if mode == 'bad':
        return bad(read_targets)
    if mode == 'one':
        return group(f, e, read_targets)
    fs = list(forms())
    if mode == 'pairs':
        for b in fs:
            group([f, b], None, read_targets)
    else:
        for c in fs[::4]:
            group([f, e, c], None, read_targets)


def group(fs, error, read_targets):
    src, by = {}, {}
    for i, f in enumerate(fs):
        k = 'own' if f[0] == 'obj' else 't%d' % i
        src[k], by[k] = make(f), f
    keep = {k: dict(v) if isinstance(v, dict) else v for k, v in src.items()}
    ts = read_targets(src) if error is None else read_targets(src, error=error)
    info = dict(source=fs, error=error)
    expect(list(ts) == list(src), 'targets %s, expected %s' % (list(ts), list(src)), **info)
    expect(all(src[k] == keep[k] for k in keep), 'the source was altered', **info)
    for rep in range(2):                            # asking twice gives the same answers
        for k, t in ts.items():
            check(by[k], k, t, 0.1 if error is None else error, info, src)
    tick('traces')
    ST.state((fs, error))
    ST.sample({'targets': [repr(t) for t in ts.values()]}) if fs[0][0] != 'dist' else None


def check(f, k, t, error, info, src):
    kind, v, e = f
    expect(t.Name == k, 'target %s is named %s' % (k, t.Name), **info)
    if kind in ('num', 'err', 'half', 'm'):
        e = error if e is None else e
        sd = abs(v) * e / 2 / 1.96
        value = v

        def dist(x):
            return (x - v) ** 2 / sd
        lik = None
    elif kind == 'range':
        value = v[0]
        sd = (v[2] - v[1]) / 2 / 1.96

        def dist(x):
            return (x - v[0]) ** 2 / sd
        lik = None
    elif kind == 'dist':
        value, sd, lik = DISTS[v]

        def dist(x):
            return -lik(x)
    else:
        expect(t is src[k], 'an own target is replaced', **info)
        value, sd = v, 3.0

        def dist(x):
            return 2.0 * abs(x - v)

        def lik(x):
            return -5.0
    expect(close(t.Value, value), '%s: value %s, expected %s' % (k, t.Value, value), **info)
    expect(close(t.get_var_obs(), sd ** 2, 1e-9), '%s: observation variance %s, expected %s' % (k, t.get_var_obs(), sd ** 2), **info)
    ev = t.ev()
    expect(close(ev[0], value) and close(ev[1], sd ** 2), '%s: ev() %s, expected %s' % (k, ev, (value, sd ** 2)), **info)
    import numpy as np
    for x in SIMS + (value,):
        if kind == 'dist' and x in (0.2, 0.8, 0) and not v.startswith(('b', 'p')):
            continue
        for y in (x, np.float64(x)):
            sim = {k: y, 'other': 17.0}
            d = t.calc_distance(sim)
            want = dist(x)
            tick('transitions')
            expect(close(d, want), '%s: distance %s at %s, expected %s' % (k, d, x, want), **info)
            if kind not in ('dist',):
                expect(d >= 0 and (d == 0) == (x == value), '%s: distance %s at %s of target %s' % (k, d, x, value), **info)
            if lik is None:
                expect_raises(AttributeError, lambda: t.calc_likelihood(sim), '%s: likelihood of a point' % k, **info)
            else:
                expect(close(t.calc_likelihood(sim), lik(x)), '%s: likelihood %s at %s, expected %s' % (k, t.calc_likelihood(sim), x, lik(x)), **info)
            ST.outcome(round(float(d), 6) if math.isfinite(d) else repr(d))
    expect_raises(KeyError, lambda: t.calc_distance({'other': 1.0}), '%s: distance of a simulation without it' % k, **info)


def bad(read_targets):
    cases = [
        ({'a': [1, 2]}, ValueError), ({'a': None}, ValueError), ({'a': (0.5,)}, ValueError), ({'a': {}}, ValueError),
        ({'a': {'l': 1, 'u': 2}}, ValueError), ({'a': {'error': 0.1}}, ValueError), ({'a': {'mean': 3}}, ValueError),
    ] + [({'a': {'m': m, 'l': l, 'u': u}}, (AssertionError, ValueError)) for m, l, u in (
        (1, 1, 2), (2, 1, 2), (0, 1, 2), (3, 1, 2), (1.5, 2, 1), (1, 1, 1), (-1, 0, 5))]
    for src, exc in cases:
        for full in (src, dict({'ok': 1.0}, **src), dict(src, ok=1.0)):
            expect_raises(exc, lambda: read_targets(full), 'malformed target %s' % src)
            tick('transitions')
            ST.state(repr(full))
    expect(read_targets({}) == {}, 'no targets')
    tick('traces')
    ST.sample({'malformed sources': len(cases)})
