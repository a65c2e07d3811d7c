"""Transforms between the unit interval and the domain of a parameter."""
import itertools
import math
from .. import fitkit, rnd
from ..core import CH, ST, close, expect, tick

INF = math.inf
LOW = (-INF, -7.0, 0.0, 2.5, -1e3)
UPP = (INF, 7.0, 0.0, 3.0, 1e3)
LOC = (0.0, 7.0, -20.0)
SCA = (1.0, 30.0, 0.1, 2.0)
DISTS = ['unif(2, 6)', 'unif(-3, -1)', 'norm(1, 3)', 'norm(-40, 0.2)', 'exp(0.5)', 'exp(30)', 'gamma(2, 4)', 'gamma(0.1, 0.1)', 'beta(2, 2)',
         'beta(0.5, 8)', 'triangle(1, 2, 3)', 'chisq(3)', 'lnorm(0, 0.2)', 'invgamma(3, 2)', 'mcflip(4, 2)']
BOUNDS = {
    'quick': '5 x 5 limits x 3 locations x 4 scales, 129 points of the unit interval, 60 points of each domain; domains of 15 '
             'shipped distributions',
}
BOUNDS['thorough'] = BOUNDS['quick'] + '; 2049 points'
ASSUMPTIONS = ['numbers within the resolution of floating point (1e-9 relative)', 'scales are finite and positive']


def jobs(tier):
    n = 128 if tier == 'quick' else 2048
    out = [['dom', lo, up, n] for lo in range(len(LOW)) for up in range(len(UPP)) if LOW[lo] < UPP[up]]
    out += [['dist', d, n] for d in DISTS]
    return out


def run(job):
    fitkit.quiet()
    from sims_pars.fit.base import Domain
    if job[0] == 'dom':
        lo, up = LOW[job[1]], UPP[job[2]]
        for loc, sc in itertools.product(LOC, SCA):
            check(Domain('p', 'Double', lower=lo, upper=up, loc=loc, scale=sc), lo, up, loc, sc, job[3])
        # defaults
        check(Domain('p', 'Double', lower=lo, upper=up), lo, up, 0, 1, job[3])
        check(Domain('p', 'Double', lo, up, 7.0, 2.0), lo, up, 7.0, 2.0, job[3])
        return
    from sims_pars.fit.base import DataModel

    class M(DataModel):
        def simulate(self, pars):
            return None
    CH.start(())
    with rnd.owned():
        doms = M({}, 'PCore M {\np ~ %s\n}' % job[1]).Domain
    CH.stop()
    expect(len(doms) == 1, 'domains %s of %s' % (doms, job[1]))
    d = doms[0]
    check(d, d.Lower, d.Upper, d.Location, d.Scale, job[2])
    ST.sample({'distribution': job[1], 'domain': str(d)})


def check(dom, lo, up, loc, sc, n):
    from sims_pars.fit.converter import get_converter
    c = get_converter(dom)
    info = dict(lower=lo, upper=up, loc=loc, scale=sc)
    # documented endpoints
    expect(close(float(c.uniform2value(0.0)), lo) and close(float(c.uniform2value(1.0)), up),
           'the ends of the unit interval go to %s, %s' % (c.uniform2value(0.0), c.uniform2value(1.0)), **info)
    us = [i / n for i in range(1, n)]
    if math.isinf(lo) or math.isinf(up):
        us = [1e-6, 1e-4] + us + [1 - 1e-4, 1 - 1e-6]
    prev = None
    for u in us:
        v = float(c.uniform2value(u))
        tick('transitions')
        expect(math.isfinite(v) and lo <= v <= up, '%s goes to %s outside of the domain' % (u, v), **info)
        expect(prev is None or v > prev, 'not increasing: %s at %s after %s' % (v, u, prev), **info)
        prev = v
        w = float(c.value2uniform(v))
        expect(close(w, u, 1e-9 * max(1, abs(v) / sc if math.isinf(lo) or math.isinf(up) else max(abs(lo), abs(up)) / (up - lo))),
               '%s goes to %s and back to %s' % (u, v, w), **info)
    prev = None
    for v in points(lo, up, loc, sc):
        u = float(c.value2uniform(v))
        tick('transitions')
        expect(0 <= u <= 1, '%s goes to %s' % (v, u), **info)
        expect(prev is None or u > prev, 'not increasing: %s at %s after %s' % (u, v, prev), **info)
        prev = u
        if 1e-9 < u < 1 - 1e-6:
            w = float(c.uniform2value(u))
            expect(close(w, v, 1e-8 * max(1, sc)), '%s goes to %s and back to %s' % (v, u, w), **info)
    # the measure spread over an unbounded side is set by the scale: half of it lies within log(2) scales
    if math.isinf(lo) and math.isinf(up):
        ref = {0.5: loc, 0.75: loc + sc * math.log(2), 0.25: loc - sc * math.log(2)}
    elif math.isinf(up):
        ref = {0.5: lo + sc * math.log(2)}
    elif math.isinf(lo):
        ref = {0.5: up - sc * math.log(2)}
    else:
        ref = {0.5: (lo + up) / 2, 0.25: lo + (up - lo) / 4}
    for u, v in ref.items():
        expect(close(float(c.uniform2value(u)), v), '%s goes to %s, expected %s' % (u, c.uniform2value(u), v), **info)
    tick('traces')
    ST.state((lo, up, loc, sc))
    ST.outcome(type(c).__name__)


def points(lo, up, loc, sc):
    k = 60
    if math.isinf(lo) and math.isinf(up):
        return [loc + sc * 9 * (i - k / 2) / k for i in range(k + 1)]
    if math.isinf(up):
        return [lo + sc * 9 * i / k for i in range(k + 1)]
    if math.isinf(lo):
        return [up - sc * 9 * i / k for i in range(k, -1, -1)]
    return [lo + (up - lo) * i / k for i in range(k + 1)]
