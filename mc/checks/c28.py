"""Regression models and hazards: expectations, predictors and samplers agree - over all small models and inputs."""
import copy
import itertools
import math
from fractions import Fraction
from .. import core, rnd
from ..core import ST, close, expect, expect_raises, law, tick

BOOL = [('Boolean', 0.5), ('Boolean', -1.25), ('Boolean', 0)]
CONT = [('Continuous', 2), ('Continuous', -0.5)]
CATS = [('Categorical', r) for r in 'abc']
ALPHA = BOOL + CONT + CATS
DOM = {'Boolean': (True, False, 1, 0), 'Continuous': (-1.0, 0, 0.75, 2), 'Categorical': (0, 1, 2)}
COEF = [0.0, 1.0, -2.0]
FINE = tuple((i + 0.5) / 20 for i in range(20))
MID = tuple((i + 0.5) / 6 for i in range(6))
GRID = (0.0, 0.01, 0.1, 0.4, 1.0, 1.5, 3.0, 7.0, 20.0)
BOUNDS = {
    'quick': 'all ordered lists of <= 2 regressors from 8 (3 kinds), all values of their inputs; linear, logistic, Poisson and multinomial regressions, '
             'Cox and zero-inflated Cox models over them with all baselines (6 exponential, 9 Weibull, 5 empirical in all row orders); exact laws on a grid of quantiles',
    'thorough': 'as quick with all lists of <= 3 regressors',
}
ASSUMPTIONS = ['categorical inputs are given by the index of their category', 'the multinomial model is held to sum to one and to grow with the score only',
               'empirical hazards: strictly increasing, starting at zero']


def baselines():
    out = [{'Type': 'exp', 'Rate': r} for r in (0.01, 0.3, 0.5, 1, 2.5, 7)]
    out += [{'Type': 'weibull', 'Lambda': la, 'K': k} for la in (0.1, 1, 2.5) for k in (0.7, 1, 2)]
    return out


EMP = [([0, 1, 2], [0, 0.5, 2.0]), ([0, 10], [0, 0.1]), ([0, 1, 4, 5], [0, 0.2, 0.9, 3]), ([0, 0.5, 1], [0, 3, 3.5]), ([0, 2, 3], [0, 0.1, 5])]


def jobs(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for k in range(0, n + 1):
        for combo in itertools.product(range(len(ALPHA)), repeat=k):
            out.append(['lc', list(combo)])
    for i in range(len(baselines())):
        out.append(['haz', i])
    for i in range(len(EMP)):
        out.append(['emp', i])
    for i in range(len(ALPHA)):
        out.append(['mult', i])
    out.append(['same', n])
    return out


def build(combo):
    js = []
    for i, a in enumerate(combo):
        tp, v = ALPHA[a]
        name = 'V%d' % i
        if tp == 'Categorical':
            js.append({'Name': name, 'Type': tp, 'Values': [c * (i + 1) for c in COEF], 'Labels': ['a', 'b', 'c'], 'Ref': v})
        else:
            js.append({'Name': name, 'Type': tp, 'Value': v})
    return js


def inputs(combo):
    for vs in itertools.product(*[DOM[ALPHA[a][0]] for a in combo]):
        yield {'V%d' % i: v for i, v in enumerate(vs)}


def score(combo, xs):
    s = 0.0
    for i, a in enumerate(combo):
        tp, v = ALPHA[a]
        x = xs['V%d' % i]
        s += COEF[x] * (i + 1) if tp == 'Categorical' else (v if x else 0) if tp == 'Boolean' else v * x
    return s


def run(job):
    core.load_sut()
    import sims_pars.data.reg                                   # noqa
    {'lc': regress, 'haz': hazards, 'emp': empirical, 'mult': multinomial, 'same': same_name}[job[0]](job[1])
    ST.sample({'job': job})


def draw(fn, uni=FINE, key=lambda r: r):
    def once():
        with rnd.owned(rnd.Rnd(uni=uni)):
            return fn()
    got, n = law(once, key)
    tick('transitions', n)
    tick('traces')
    return got


def num(x):
    return round(float(x), 9)


def one(x):
    import numpy as np
    a = np.ravel(x)
    expect(a.size == 1, 'one draw returned %s' % (x,))
    return a[0]


def near(got, want, tol=0.051):
    return all(abs(float(got.get(k, 0)) - want.get(k, 0)) <= tol for k in set(got) | set(want))


def expit(x):
    return 1 / (1 + math.exp(-x))


def regress(combo):
    from sims_pars.data.reg.linear import LinearCombination, LinearRegression
    from sims_pars.data.reg.glm import LogisticRegression, PoissonRegression
    from sims_pars.data.reg.survival import CoxRegression, ZeroInflatedCoxRegression
    js = build(combo)
    was = copy.deepcopy(js)
    names = [r['Name'] for r in js]
    lc = LinearCombination(js)
    back = LinearCombination([r.to_json() for r in lc.Regressors])
    flip = LinearCombination(js[::-1])
    expect(lc.list_regressors() == names and back.list_regressors() == names and all(n in str(lc) for n in names), 'regressors %s' % lc.list_regressors(), js=js)
    expect([r.to_json() for r in back.Regressors] == [r.to_json() for r in lc.Regressors], 'JSON of regressors', js=js)
    models = {}
    for inc in (0, -0.8, 1.5):
        models[inc] = (LinearRegression({'Intercept': inc, 'SE': 0.5 + abs(inc), 'Regressors': js}), LogisticRegression({'Intercept': inc, 'Regressors': js}),
                       PoissonRegression({'Intercept': inc, 'Regressors': js}))
    for k, xs in enumerate(inputs(combo)):
        s = score(combo, xs)
        given = dict(xs)
        info = dict(js=js, inputs=xs)
        for l in (lc, back, flip):
            expect(close(l.predict(xs), s), 'linear combination %s, expected %s' % (l.predict(xs), s), **info)
        expect(close(lc.predict(dict(xs, Other='x')), s), 'other inputs matter', **info)
        for n in names:
            expect_raises(KeyError, lambda: lc.predict({a: b for a, b in xs.items() if a != n}), 'missing input %s' % n, **info)
        ST.state((tuple(combo), tuple(xs.values())))
        for inc, (lin, logi, poi) in models.items():
            if k % 3 and inc:
                continue
            mu = s + inc
            expect(close(lin.expectation(xs), mu), 'linear expectation %s, expected %s' % (lin.expectation(xs), mu), **info)
            sd = 0.5 + abs(inc)
            d = lin.get_sampler(xs)
            expect(close(d.mean(), mu) and close(d.std(), sd), 'linear sampler N(%s, %s), expected N(%s, %s)' % (d.mean(), d.std(), mu, sd), **info)
            expect(close(d.logpdf(mu + 0.3), -0.5 * (0.3 / sd) ** 2 - math.log(sd * math.sqrt(2 * math.pi))), 'linear density', **info)
            a = draw(lambda: tuple(num(x) for x in lin.predict(xs, 2)), MID)
            b = draw(lambda: tuple(num(x) for x in d.sample(2)), MID)
            expect(a == b and len({x for x, _ in a}) == 6 and close(sum(float(w) * x for (x, _), w in a.items()), mu), 'predictions and sampler differ', **info)
            p = expit(mu)
            expect(close(float(logi.expectation(xs)), p), 'logistic expectation %s, expected %s' % (logi.expectation(xs), p), **info)
            d = logi.get_sampler(xs)
            expect(close(d.mean(), p) and close(math.exp(d.logpdf(1)), p) and close(math.exp(d.logpdf(0)), 1 - p), 'logistic sampler', **info)
            for w, fn in (('predict', lambda: int(one(logi.predict(xs)))), ('sample', lambda: int(one(d.sample())))):
                got = draw(fn)
                expect(near(got, {1: p, 0: 1 - p}), 'logistic %s: %s, expected %s' % (w, got, p), **info)
            lam = math.exp(mu)
            expect(close(float(poi.expectation(xs)), lam), 'Poisson expectation %s, expected %s' % (poi.expectation(xs), lam), **info)
            if lam < 50:
                d = poi.get_sampler(xs)
                expect(close(d.mean(), lam) and close(d.std() ** 2, lam) and close(d.logpdf(2), 2 * math.log(lam) - lam - math.log(2)), 'Poisson sampler', **info)
                pm = {i: math.exp(-lam + i * math.log(lam) - math.lgamma(i + 1)) for i in range(200)}
                for w, fn in (('predict', lambda: int(one(poi.predict(xs)))), ('sample', lambda: int(one(d.sample())))):
                    got = draw(fn)
                    expect(near(got, pm), 'Poisson %s: %s, expected rate %s' % (w, got, lam), **info)
            ST.outcome((num(p), num(lam)))
        if k % 2 == 0:
            for base in (baselines()[3], baselines()[8 + k % 6], None):
                survival(combo, js, xs, s, base, info)
        expect(xs == given, 'the inputs changed', **info)
    expect(js == was, 'the description changed', js=js)
    for m in models[0]:
        expect(all(n in str(m) for n in names), 'text form', js=js)
    expect([m.get_variable_type() for m in models[0]] == ['Double', 'Integer', 'Integer'], 'variable types', js=js)
    expect_raises(KeyError, lambda: CoxRegression({'Baseline': {'Type': 'gompertz', 'Rate': 1}, 'Regressors': js}), 'an unknown baseline', js=js)
    expect_raises(KeyError, lambda: ZeroInflatedCoxRegression({'PrZero': {'Intercept': 0, 'Regressors': []},
                                                               'PrTTE': {'Baseline': {'Type': 'none'}, 'Regressors': js}}), 'an unknown baseline', js=js)


def same_name(n):
    """Several regressors of one variable (a boolean with a continuous part, say): each contributes."""
    from sims_pars.data.reg.linear import LinearCombination, LinearRegression
    from sims_pars.data.reg.glm import LogisticRegression, PoissonRegression
    for k in range(2, n + 2):
        for combo in itertools.product(range(len(ALPHA)), repeat=k):
            for same in ((0,) * k, (0,) * (k - 1) + (1,)):
                js = build(combo)
                for r, i in zip(js, same):
                    r['Name'] = 'V%d' % i
                lc = LinearCombination(js)
                models = [(m({'Intercept': 0.25, 'SE': 1, 'Regressors': js}), f) for m, f in
                          ((LinearRegression, lambda x: x), (LogisticRegression, expit), (PoissonRegression, math.exp))]
                for x, y in itertools.product((0, 1, 2), (0, 1)):
                    xs = {'V0': x, 'V1': y}
                    want = score(combo, {'V%d' % j: xs['V%d' % i] for j, i in enumerate(same)})
                    info = dict(js=js, inputs=xs)
                    expect(close(lc.predict(xs), want), 'linear combination %s, expected %s' % (lc.predict(xs), want), **info)
                    for m, f in models:
                        e = float(m.expectation(xs))
                        expect(close(e, f(want + 0.25)), '%s: expectation %s, expected %s' % (type(m).__name__, e, f(want + 0.25)), **info)
                    tick('traces')
                ST.state((combo, same))


def ref(base):
    """cumulative hazard, its inverse, hazard, mean(rr), sd(rr)"""
    if base['Type'] == 'exp':
        r = base['Rate']
        return (lambda t: r * t), (lambda h: h / r), (lambda t: r), (lambda rr: 1 / (r * rr)), (lambda rr: 1 / (r * rr))
    la, k = base['Lambda'], base['K']
    m1, m2 = math.gamma(1 + 1 / k), math.gamma(1 + 2 / k)
    return ((lambda t: (la * t) ** k), (lambda h: h ** (1 / k) / la), (lambda t: k * la * (la * t) ** (k - 1) if t or k >= 1 else math.inf),
            (lambda rr: m1 / la * rr ** (-1 / k)), (lambda rr: math.sqrt(m2 - m1 * m1) / la * rr ** (-1 / k)))


def dist_laws(d, inv, rr, info, p=None, uni=MID):
    """Law of one and of two draws: inverse cumulative hazard of an exponential with the risk ratio as its rate (or zero)."""
    for label, size in (('one', 1), ('two', 2)):
        if size == 2 and uni is not MID:
            continue
        us = uni if size == 1 else MID[::2]
        base = {}
        for u in us:
            x = num(inv(-math.log(1 - u) / rr))
            base[x] = base.get(x, 0) + Fraction(1, len(us))
        if size == 1:
            got = draw(lambda: (num(one(d.sample())),), us)
        else:
            got = draw(lambda: tuple(num(x) for x in d.sample(2)), us)
        if p is not None:
            q = sum(Fraction(1, len(us)) for u in us if u < p)
            base = {k: v * (1 - q) for k, v in base.items()}
            base[0.0] = base.get(0.0, 0) + q
        want = {}
        for k in itertools.product(base, repeat=size):
            w = Fraction(1)
            for x in k:
                w *= base[x]
            if w:
                want[k] = w
        ok = set(got) == set(want) and all(abs(float(got[k]) - float(want[k])) < 1e-9 for k in want)
        expect(ok, 'law of %s: %s, expected %s' % (label, sorted(got.items())[:8], sorted(want.items())[:8]), **info)


def density(d, base, rr, info, p=None):
    cum, _, haz, _, _ = ref(base)
    expect(d.logpdf(-0.5) == -math.inf, 'density below zero is exp(%s)' % d.logpdf(-0.5), **info)
    for t in GRID[2:]:
        want = rr * haz(t) * math.exp(-rr * cum(t)) * (1 if p is None else 1 - p)
        if want < 1e-5:
            continue
        got = math.exp(float(d.logpdf(t)))
        expect(abs(got - want) <= 2e-3 * want, 'density at %s is %s, expected %s' % (t, got, want), **info)
    if p is not None:
        expect(close(math.exp(d.logpdf(0)), p), 'mass of zero is %s, expected %s' % (math.exp(d.logpdf(0)), p), **info)


def survival(combo, js, xs, s, base, info):
    from sims_pars.data.reg.survival import CoxRegression, ZeroInflatedCoxRegression
    rr = math.exp(s)
    info = dict(info, baseline=base)
    if base is None:
        b = {'Type': 'Empirical', 'Time': EMP[0][0], 'CumHaz': EMP[0][1]}
        inv = emp_inv(*EMP[0])
        d = CoxRegression({'Baseline': b, 'Regressors': js}).get_sampler(xs)
        dist_laws(d, inv, rr, info)
        return
    _, inv, _, mean, sd = ref(base)
    m = CoxRegression({'Baseline': dict(base, Type=base['Type'].upper() if s > 0 else base['Type']), 'Regressors': js})
    expect(m.get_variable_type() == 'Double' and all(r['Name'] in str(m) for r in js), 'text form', **info)
    expect(close(m.expectation(xs), mean(rr)), 'Cox expectation %s, expected %s' % (m.expectation(xs), mean(rr)), **info)
    d = m.get_sampler(xs)
    expect(close(d.mean(), mean(rr)) and close(d.std(), sd(rr)), 'mean %s, sd %s, expected %s, %s' % (d.mean(), d.std(), mean(rr), sd(rr)), **info)
    expect(list(d.Interval) == [0, math.inf] and d.Type == 'Double', 'interval and type', **info)
    dist_laws(d, inv, rr, info)
    got = draw(lambda: num(one(m.predict(xs))), MID)
    expect(got == draw(lambda: num(one(d.sample())), MID), 'predict and sampler differ', **info)
    density(d, base, rr, info)
    for inc, other in ((0.2, js[:1]), (-1.1, [])):
        p = expit(inc + (score(combo[:1], xs) if other else 0))
        z = ZeroInflatedCoxRegression({'PrZero': {'Intercept': inc, 'Regressors': other}, 'PrTTE': {'Baseline': base, 'Regressors': js}})
        mz = (1 - p) * mean(rr)
        vz = (1 - p) * (sd(rr) ** 2 + mean(rr) ** 2) - mz ** 2
        dz = z.get_sampler(xs)
        expect(close(z.expectation(xs), mz), 'zero-inflated expectation %s, expected %s' % (z.expectation(xs), mz), **info)
        expect(close(dz.mean(), mz) and close(dz.std(), math.sqrt(vz), 1e-6), 'zero-inflated mean %s, sd %s, expected %s, %s' % (dz.mean(), dz.std(), mz, math.sqrt(vz)), **info)
        dist_laws(dz, inv, rr, info, p)
        got = draw(lambda: num(one(z.predict(xs))), MID)
        expect(got == draw(lambda: num(one(dz.sample())), MID), 'predict and sampler differ', **info)
        density(dz, base, rr, info, p)
        expect(z.get_variable_type() == 'Double' and str(z), 'text form', **info)


def hazards(i):
    from sims_pars.data.reg.hazard import HazardDistribution, ExponentialHazard, WeibullHazard, ZeroInflatedHazardDistribution
    base = baselines()[i]
    h = ExponentialHazard(base['Rate']) if base['Type'] == 'exp' else WeibullHazard(base['Lambda'], base['K'])
    cum, inv, haz, mean, sd = ref(base)
    for t in GRID:
        expect(close(float(h.cum_hazard(t)), cum(t)), 'cumulative hazard at %s is %s, expected %s' % (t, h.cum_hazard(t), cum(t)), baseline=base)
        expect(close(float(h.inv_cum_hazard(t)), inv(t)), 'inverse at %s is %s, expected %s' % (t, h.inv_cum_hazard(t), inv(t)), baseline=base)
        expect(close(float(h.inv_cum_hazard(h.cum_hazard(t))), t), 'inverse of the cumulative hazard at %s' % t, baseline=base)
        tick('transitions')
    expect(close(h.mean(), mean(1)) and close(h.std(), sd(1)), 'mean and sd without risk ratio', baseline=base)
    for rr in (0.2, 1, 3.0):
        info = dict(baseline=base, rr=rr)
        expect(close(h.mean(rr), mean(rr)) and close(h.std(rr), sd(rr)), 'mean %s, sd %s, expected %s, %s' % (h.mean(rr), h.std(rr), mean(rr), sd(rr)), **info)
        d = HazardDistribution(h, rr)
        dist_laws(d, inv, rr, info)
        dist_laws(d, inv, rr, info, uni=FINE)
        density(d, base, rr, info)
        expect(close(d.mean(), mean(rr)) and close(d.std(), sd(rr)), 'mean %s, sd %s' % (d.mean(), d.std()), **info)
        # mean and spread are those of the draws, roughly: 2000 quantiles
        q = [inv(-math.log(1 - (j + 0.5) / 2000) / rr) for j in range(2000)]
        expect(abs(sum(q) / 2000 - d.mean()) < 0.03 * d.mean(), 'mean %s, of quantiles %s' % (d.mean(), sum(q) / 2000), **info)
        for p in (0.1, 0.45, 0.8):
            z = ZeroInflatedHazardDistribution(p, h, rr)
            dist_laws(z, inv, rr, dict(info, p=p), p)
            density(z, base, rr, dict(info, p=p), p)
        ST.state((i, rr))
        ST.outcome(num(mean(rr)))


def lin(xs, ys):
    def f(x):
        if x <= xs[0]:
            return ys[0]
        if x >= xs[-1]:
            return ys[-1]
        for (a, c), (b, d) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
            if a <= x <= b:
                return c + (d - c) * (x - a) / (b - a)
    return f


def emp_inv(ts, hs):
    return lin(hs, ts)


def empirical(i):
    from sims_pars.data.reg.hazard import EmpiricalHazard, HazardDistribution, ZeroInflatedHazardDistribution
    ts, hs = EMP[i]
    cum, inv = lin(ts, hs), lin(hs, ts)
    for order in itertools.permutations(range(len(ts))):
        a, b = [ts[j] for j in order], [hs[j] for j in order]
        h = EmpiricalHazard(a, b)
        info = dict(times=a, hazards=b)
        for t in sorted(set(GRID) | set(ts) | set(hs)):
            expect(close(float(h.cum_hazard(t)), cum(t)), 'cumulative hazard at %s is %s, expected %s' % (t, h.cum_hazard(t), cum(t)), **info)
            expect(close(float(h.inv_cum_hazard(t)), inv(t)), 'inverse at %s is %s, expected %s' % (t, h.inv_cum_hazard(t), inv(t)), **info)
            if t <= max(ts):
                expect(close(float(h.inv_cum_hazard(h.cum_hazard(t))), t), 'inverse of the cumulative hazard at %s' % t, **info)
            tick('transitions')
        for rr in (0.3, 1, 2.0):
            d = HazardDistribution(h, rr)
            dist_laws(d, inv, rr, dict(info, rr=rr))
            dist_laws(ZeroInflatedHazardDistribution(0.4, h, rr), inv, rr, dict(info, rr=rr), 0.4)
            for (t0, h0), (t1, h1) in zip(zip(ts, hs), zip(ts[1:], hs[1:])):
                t = 0.5 * (t0 + t1)
                g = (h1 - h0) / (t1 - t0)
                want = rr * g * math.exp(-rr * cum(t))
                expect(abs(math.exp(float(d.logpdf(t))) - want) <= 2e-3 * want + 1e-9, 'density at %s' % t, **dict(info, rr=rr))
        ST.state((i, order))
        tick('traces')


def multinomial(i):
    from sims_pars.data.reg.glm import MultinomialLogisticRegression
    for j, k in itertools.product(range(len(ALPHA)), (0, 3, 7)):
        combos = [(i,), (j,), (k,)]
        tps = {ALPHA[i][0], ALPHA[j][0], ALPHA[k][0]}
        if 'Categorical' in tps and len(tps) > 1:
            continue
        dom = DOM['Categorical'] if 'Categorical' in tps else (0, 1)
        for incs in ((0, 0, 0), (0, 2, -1)):
            js = {'Intercepts': incs, 'Regressions': [build(c) for c in combos]}
            for labels in (None, ['A', 'B', 'C']):
                m = MultinomialLogisticRegression(dict(js, Labels=labels) if labels else js)
                names = labels or ['0', '1', '2']
                for x in dom:
                    xs = {'V0': x}
                    info = dict(js=js, inputs=xs)
                    sc = [score(c, xs) + n for c, n in zip(combos, incs)]
                    ps = [float(p) for p in m.expectation(xs)]
                    expect(close(sum(ps), 1) and min(ps) > 0, 'probabilities %s' % ps, **info)
                    for a, b in itertools.combinations(range(3), 2):
                        if abs(sc[a] - sc[b]) > 1e-9:
                            expect((ps[a] > ps[b]) == (sc[a] > sc[b]), 'probabilities %s of scores %s' % (ps, sc), **info)
                        else:
                            expect(close(ps[a], ps[b]), 'probabilities %s of scores %s' % (ps, sc), **info)
                    want = dict(zip(names, ps))
                    got = draw(lambda: str(one(m.predict(xs))))
                    expect(near(got, want, 1e-9), 'predictions %s, expected %s' % (got, want), **info)
                    d = m.get_sampler(xs)
                    got = draw(lambda: str(one(d.sample())))
                    expect(near(got, want, 1e-9), 'samples %s, expected %s' % (got, want), **info)
                    for n, p in want.items():
                        expect(close(math.exp(d.logpdf(n)), p), 'density of %s' % n, **info)
                    ST.state((i, j, k, incs, x))
                    ST.outcome(tuple(num(p) for p in ps))
                expect(m.get_variable_type() == 'Category' and 'V0' in str(m), 'text form', js=js)
