"""The example models: exact law of their simulations over all draws on a grid of parameters, or their equations."""
import itertools
import math
from fractions import Fraction
from .. import core, fitkit, rnd
from ..core import ST, close, expect, law, tick
from .c28 import FINE, MID, draw, near, num

BOUNDS = {
    'quick': 'beta-binomial: 5 x 5 probabilities, 4 data, all pairs of 20 quantiles of the two counts; two normals: 5 means x 3 spreads, samples of 1..2, 6 quantiles of every draw; '
             'SIR: 6 x 5 rates (simulations) and 4 sets of true rates; priors, domains and distances of each',
    'thorough': 'beta-binomial: 9 x 9 probabilities; normals: samples of 1..3; SIR: 12 x 9 rates',
}
ASSUMPTIONS = ['the SIR model is integrated to the default tolerance of the solver: prevalence within 2% of a fine Runge-Kutta integration']
PS = (0.1, 0.35, 0.5, 0.8, 0.95)
STD = 2 * 1.96


def jobs(tier):
    deep = tier != 'quick'
    ps = PS if not deep else PS + (0.02, 0.2, 0.65, 1.0)
    out = [['bb', p, list(ps)] for p in ps]
    out += [['n2', m, n] for m in (0.0, 2.5, -1.0, 30.0, 0.3) for n in ((1, 2) if not deep else (1, 2, 3))]
    bes = (1.0, 1.5, 3.0, 7.0, 12.0, 20.0) + ((2.0, 4.0, 5.5, 9.0, 15.0, 17.0) if deep else ())
    gas = (0.1, 0.2, 0.4, 0.7, 1.0) + ((0.15, 0.3, 0.55, 0.85) if deep else ())
    out += [['sir', b, list(gas)] for b in bes]
    return out


def run(job):
    fitkit.quiet()
    {'bb': beta_binomial, 'n2': normals, 'sir': epidemic}[job[0]](*job[1:])
    ST.sample({'job': job})


def grow(fn, uni=(0.5,)):
    with rnd.owned(rnd.Rnd(uni=uni)):
        core.CH.start(())
        try:
            return fn()
        finally:
            core.CH.stop()


def beta_binomial(p1, ps):
    from sims_pars.fit.toys import get_betabin
    for data in ((7, 14), (3, 1), (10, 20), (1, 5)):
        m = grow(lambda: get_betabin(list(data)))
        expect(m.FreeParameters == ['p1', 'p2'], 'free parameters %s' % m.FreeParameters)
        for d in grow(lambda: m.Domain):
            expect((d.Lower, d.Upper) == (0, 1) and close(d.Location, 0.5), 'domain %s' % d)
        for p2 in ps:
            info = dict(data=data, p1=p1, p2=p2)
            pars = grow(lambda: m.serve({'p1': p1, 'p2': p2}))
            expect(close(pars.LogProb, 0), 'the prior is uniform, its density at %s is exp(%s)' % (info, pars.LogProb), **info)
            if data != (7, 14):
                pt = grow(lambda: m.simulate(pars))
                keep = dict(pt.Sims)
                want = sum((keep['x%d' % (i + 1)] - data[i]) ** 2 / (0.1 * data[i] / STD) for i in (0, 1))
                expect(close(grow(lambda: m.calc_distance(pt)), want), 'distance of %s from %s' % (keep, data), **info)
                continue
            seen = {}

            def once():
                pt = m.simulate(pars)
                x = int(pt.Sims['x1']), int(pt.Sims['x2'])
                expect(pt.Pars is pars or dict(pt.Pars) == dict(pars), 'the particle has other parameters', **info)
                expect(0 <= x[0] <= 10 and 0 <= x[1] <= 20, 'counts %s' % (x,), **info)
                seen[x] = pt
                return x
            got = draw(once, FINE)
            for i, (n, p) in enumerate(((10, p1), (20, p2))):
                one = {}
                for x, w in got.items():
                    one[x[i]] = one.get(x[i], 0) + w
                expect(near(one, {k: math.comb(n, k) * p ** k * (1 - p) ** (n - k) for k in range(n + 1)}),
                       'law of count %d is %s, expected binom(%d, %s)' % (i + 1, {k: str(v) for k, v in one.items()}, n, p), **info)
            a = {x: sum(w for k, w in got.items() if k[0] == x) for x in {k[0] for k in got}}
            b = {x: sum(w for k, w in got.items() if k[1] == x) for x in {k[1] for k in got}}
            expect(all(w == a[x] * b[y] for (x, y), w in got.items()) and len(got) == len(a) * len(b), 'the counts are not independent', **info)
            for x, pt in seen.items():
                want = sum((x[i] - data[i]) ** 2 / (0.1 * data[i] / STD) for i in (0, 1))
                expect(close(grow(lambda: m.calc_distance(pt)), want), 'distance of %s is %s, expected %s' % (x, pt['distance'], want), **info)
            ST.state((data, p1, p2))
            ST.outcome(sorted(got))


def normals(mu, n):
    import scipy.stats as sts
    from sims_pars.fit.toys import get_normal2
    m = grow(lambda: get_normal2([mu, -mu / 2], n), (0.7,))
    expect(m.FreeParameters == ['std'], 'free parameters %s' % m.FreeParameters)
    z = sts.norm.ppf(0.7)
    expect(close(m.Data['x1'].Value, mu + z) and close(m.Data['x2'].Value, -mu / 2 + z), 'data %s' % m.Data, mu=mu, n=n)
    for sd in (0.5, 1.0, 3.0):
        info = dict(mean=mu, n=n, sd=sd)
        pars = grow(lambda: m.serve({'mu1': mu, 'mu2': 1.5 - mu, 'std': sd}))
        want = sts.gamma.logpdf(sd, 0.1, scale=10) + sts.norm.logpdf(mu, 0, sd) + sts.norm.logpdf(1.5 - mu, 0, sd)
        expect(close(pars.LogProb, want, 1e-7), 'prior density %s, expected %s' % (pars.LogProb, want), **info)
        us = MID if n < 3 else MID[::2]
        got = draw(lambda: (lambda sims: (num(sims['x1']), num(sims['x2'])))(m.simulate(pars).Sims), us)
        one = {}
        for zs in itertools.product(us, repeat=n):
            v = sum(sts.norm.ppf(u) for u in zs) / n
            one[v] = one.get(v, 0) + Fraction(1, len(us) ** n)
        ref = {}
        for (a, w), (b, q) in itertools.product(one.items(), repeat=2):
            k = num(mu + sd * a), num(1.5 - mu + sd * b)
            ref[k] = ref.get(k, 0) + w * q
        table = lambda d: sorted((round(a, 6) + 0.0, round(b, 6) + 0.0, w) for (a, b), w in merge(d).items())
        expect(table(got) == table(ref), 'law of the means: %s, expected %s' % (sorted(got.items())[:5], sorted(ref.items())[:5]), **info)
        pt = grow(lambda: m.simulate(pars))
        want = sum((pt.Sims[k] - m.Data[k].Value) ** 2 / (0.1 * abs(m.Data[k].Value) / STD) for k in ('x1', 'x2'))
        expect(close(grow(lambda: m.calc_distance(pt)), want), 'distance', **info)
        ST.state((mu, n, sd))
        ST.outcome(sorted(got)[:3])


def merge(d):
    out = {}
    for (a, b), w in d.items():
        k = round(a, 6), round(b, 6)
        out[k] = out.get(k, 0) + w
    return out


def integrate(be, ga):
    y = [990.0, 10.0, 0.0]
    f = lambda s, i, r: (-be * s * i / 1000, be * s * i / 1000 - ga * i, ga * i)
    h, out = 0.001, {}
    for k in range(7001):
        if k % 1000 == 0 and k >= 2000:
            out[k // 1000] = tuple(y)
        a = f(*y)
        b = f(*[v + h / 2 * d for v, d in zip(y, a)])
        c = f(*[v + h / 2 * d for v, d in zip(y, b)])
        d4 = f(*[v + h * d for v, d in zip(y, c)])
        y = [v + h / 6 * (p + 2 * q + 2 * r + s) for v, p, q, r, s in zip(y, a, b, c, d4)]
    return out


def epidemic(be, gas):
    from sims_pars.fit.toys import get_sir
    for ga in gas:
        info = dict(beta=be, gamma=ga)
        m = grow(lambda: get_sir(be, ga))
        expect(sorted(m.FreeParameters) == ['beta', 'gamma'], 'free parameters %s' % m.FreeParameters)
        doms = {d.Name: (d.Lower, d.Upper) for d in grow(lambda: m.Domain)}
        expect(doms == {'beta': (1, 20), 'gamma': (0.1, 1)}, 'domains %s' % doms)
        pars = grow(lambda: m.serve({'beta': be, 'gamma': ga}))
        expect(close(pars.LogProb, -math.log(19 * 0.9)), 'prior density', **info)
        pt = m.simulate(pars)
        keys = ['%s_%d' % (k, t) for t in range(2, 8) for k in ('Inc', 'Prev', 'Rec')]
        expect(sorted(pt.Sims) == sorted(keys) == sorted(m.Data), 'outputs %s' % sorted(pt.Sims), **info)
        ref = integrate(be, ga)
        for t, (s, i, r) in ref.items():
            inc, prev, rec = (float(pt.Sims['%s_%d' % (k, t)]) for k in ('Inc', 'Prev', 'Rec'))
            tol = lambda a, b: abs(a - b) <= 0.02 * abs(b) + 2e-3
            expect(tol(prev, i / 1000), 'prevalence at %d is %s, expected %s' % (t, prev, i / 1000), **info)
            expect(close(rec, ga * prev), 'recoveries at %d are %s, expected %s' % (t, rec, ga * prev), **info)
            expect(tol(inc, be * s * i / 1e6), 'incidence at %d is %s, expected %s' % (t, inc, be * s * i / 1e6), **info)
            expect(close(m.Data['Prev_%d' % t].Value, prev) and close(m.Data['Inc_%d' % t].Value, inc), 'the data are not the simulation at the true rates', **info)
        expect(close(grow(lambda: m.calc_distance(pt)), 0), 'distance of the truth', **info)
        p2 = grow(lambda: m.serve({'beta': 2.2, 'gamma': 0.35}))
        pt2 = m.simulate(p2)
        want = sum((pt2.Sims[k] - m.Data[k].Value) ** 2 / (0.05 * abs(m.Data[k].Value) / STD) for k in keys)
        expect(close(grow(lambda: m.calc_distance(pt2)), want), 'distance', **info)
        expect(repr(m.simulate(pars).Sims) == repr(pt.Sims), 'the epidemic is not a function of its rates', **info)
        tick('transitions', 3)
        tick('traces')
        ST.state((be, ga))
        ST.outcome(round(float(pt.Sims['Prev_4']), 6))
