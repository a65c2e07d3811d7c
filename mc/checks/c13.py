"""Weighted resampling: exact law over all draws, alignment, treatment of non-finite weights, mean weight."""
import itertools
import math
from .. import rnd
from ..core import CH, ST, close, expect, law, tick

INF, NAN = math.inf, math.nan
LOGW = (0.0, -1.0, -700.0, -INF, NAN, 3.5, -4000.0)
WTS = (1.0, 0.0, 2.5, INF, NAN, 7.0)
TINY = (1e-12, 0.0, 5e-12, 1e-9)
BOUNDS = {
    'quick': 'all vectors of <=3 weights over 7 log weights / 6 weights (including zero, infinite and NaN) / 4 tiny weights and shifted '
             'copies (by +-1000), with and without parameters, new sizes none/1/2/3: exact law of every call',
    'thorough': 'vectors of <=4 weights',
}
ASSUMPTIONS = ['numpy.random.choice draws independently with the probabilities it is given']


def jobs(tier):
    out = []
    for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
        for lg, alpha in ((True, LOGW), (False, WTS)):
            vs = list(itertools.product(alpha, repeat=n))
            for i in range(0, len(vs), 8):
                out.append([lg, vs[i:i + 8]])
        out.append([False, list(itertools.product(TINY, repeat=n))])
    return out


def run(job):
    lg, vs = job
    for v in vs:
        v = [float(x) for x in v]
        one(lg, v, 0)
        if lg and any(math.isfinite(x) for x in v):
            one(lg, v, 1000)
            one(lg, v, -1000)
    ST.sample({'log': lg, 'weights': [repr(x) for x in v]})


def one(lg, wts, shift):
    from sims_pars.util import resample
    n = len(wts)
    wts = [w + shift for w in wts]
    live = [i for i in range(n) if math.isfinite(wts[i])]
    if not lg and not any(wts[i] > 0 for i in live):
        return                      # no weight at all: nothing to draw from
    hs = ['h%d' % i for i in range(n)]
    pars = [{'id': i} for i in range(n)]
    if live:
        m = max(wts[i] for i in live) if lg else 0
        raw = {i: (math.exp(wts[i] - m) if lg else wts[i]) for i in live}
        tot = sum(raw.values())
        prob = {i: raw[i] / tot for i in live}
        mean = (math.log(tot) + m if lg else math.log(tot)) - math.log(n)
    for size in (None, 1, 2, 3):
        k = size or n
        if live and len([p for p in prob.values() if p > 0]) ** k > 30:
            continue
        for with_pars in (0, 1):
            info = dict(weights=[repr(w) for w in wts], log=lg, new_size=size, pars=with_pars)

            def call():
                a, b, c = list(wts), list(hs), list(pars)
                with rnd.owned():
                    kw = dict(log=lg) if not lg else {}
                    if size is not None:
                        kw['new_size'] = size
                    r = resample(a, b, c, **kw) if with_pars else resample(a, b, **kw)
                expect(repr(a) == repr(wts) and b == hs and c == pars, 'the caller\'s lists were altered', **info)
                expect(len(r) == 2 + with_pars, 'result %r' % (r,), **info)
                if with_pars:
                    expect(len(r[0]) == len(r[1]), 'parameters and hypotheses differ in number', **info)
                    if live:
                        expect(all(h == 'h%d' % p['id'] for h, p in zip(r[0], r[1])), 'hypotheses %s and parameters %s are not '
                               'aligned' % (r[0], r[1]), **info)
                if not live:
                    expect(list(r[0]) == hs and r[-1] == -INF, 'without any finite weight: %r' % (r,), **info)
                    return None
                if size is None:
                    expect(close(r[-1], mean, 1e-9), 'mean log weight %r, expected %r' % (r[-1], mean), **info)
                expect(len(r[0]) == k, '%d drawn, %d requested' % (len(r[0]), k), **info)
                return tuple(r[0])
            got, c = law(call)
            tick('transitions', c)
            tick('traces')
            ST.state((lg, repr(wts), size, with_pars))
            if not live:
                continue
            ref = {}
            for t in itertools.product([i for i in live if prob[i] > 0], repeat=k):
                ref[tuple('h%d' % i for i in t)] = math.prod(prob[i] for i in t)
            expect(all(close(float(got.get(t, 0)), p, 1e-9) for t, p in ref.items()) and
                   all(t in ref for t in got), 'law of the new sample: %s, expected %s' % (
                       {str(a): float(b) for a, b in got.items()}, ref), **info)
            ST.outcome(sorted(got))
