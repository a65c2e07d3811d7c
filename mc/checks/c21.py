"""ABC rejection: threshold, accepted particles, notes, over all prior draws with a bounded number of misses."""
import itertools
import math
from .. import fitkit, gen
from ..core import CH, ST, close, expect, paths, tick

INF = math.inf
# distance by value of x; the first answer of the prior, 0, is the nearest
TABLES = {
    'plain': (0.0, 1.0, 2.0, 4.0),
    'ties': (1.0, 1.0, 2.0, 2.0),
    'inf': (0.5, INF, 3.0, INF),
    'flat': (2.0, 2.0, 2.0),
    'neg': (-3.0, -1.0, 0.0, INF),
}
PT = (0.05, 0.5, 0.3, 1.0, 0.0)
BOUNDS = {
    'quick': '5 distance tables x 5 quantiles x 1..3 test runs x 1..2 posterior samples (twice) x serial / parallel; all sequences of prior '
             'draws with <= 3 (2 for the largest) draws other than the first answer',
    'thorough': 'as quick with <= 5 such draws and up to 4 test runs, 3 posterior samples',
}
ASSUMPTIONS = ['the pool of workers is replaced by an in-order one; workers are independent of each other',
               'mcpick stands for any prior']
SCR = 'PCore M {\nx ~ mcpick(%d)\nw = x * 3\n}'


def jobs(tier):
    out = []
    t, c = ((1, 2, 3), (1, 2)) if tier == 'quick' else ((1, 2, 3, 4), (1, 2, 3))
    for tab in TABLES:
        for p in PT:
            for n in t:
                for k in c:
                    for par in (True, False):
                        out.append([tab, p, n, k, par, (3 if n + 2 * k < 6 else 2) if tier == 'quick' else 5])
    return out


def quantile(xs, p):
    xs = sorted(xs)
    h = (len(xs) - 1) * p
    i = int(math.floor(h))
    j = min(i + 1, len(xs) - 1)
    return xs[i] + (xs[j] - xs[i]) * (h - i)


def run(job):
    fitkit.quiet()
    from sims_pars.fit.base import DataModel, Domain, Particle
    from sims_pars.fit.targets import AbsSingleData
    from sims_pars.fit import ApproxBayesCom
    tab, p_test, n_test, n_collect, par, bound = job
    table = TABLES[tab]
    log = []
    doms = [Domain('x', 'Double', 0, len(table) - 1)]

    class T(AbsSingleData):
        def get_var_obs(self):
            return 1.0

        def calc_distance(self, sim):
            return sim[self.Name]

        def calc_likelihood(self, sim):
            return -sim[self.Name]

    class M(DataModel):
        def simulate(self, pars):
            d = table[int(pars['x'])]
            log.append((dict(pars), pars.LogProb, d))
            return Particle(pars, {'y': d / 2, 'z': d / 2, 'rest': 5.0})

        Domain = doms       # the inherited one draws from the prior (see C18)
    CH.start(())
    model = M({'y': T('y', 0), 'z': T('z', 0)}, SCR % len(table))
    info = dict(job=job)

    def take(i, ok):
        """The first acceptable simulation from position i on."""
        while i < len(log) and not ok(log[i][2]):
            i += 1
        expect(i < len(log), 'sampling stopped before an acceptable simulation: %s' % [d for _, _, d in log], **info)
        return i + 1

    def once():
        del log[:]
        alg = ApproxBayesCom(parallel=par, n_test=n_test, p_test=p_test, n_core=2, verbose=0)
        alg.fit(model)
        i, ds = 0, []
        for _ in range(n_test):
            i = take(i, math.isfinite)
            ds.append(log[i - 1][2])
        expect(i == len(log), '%d simulations for the test runs, %d needed' % (len(log), i), **info)
        eps = quantile(ds, p_test)
        expect(close(alg.State.Eps, eps), 'threshold %s, expected the %s quantile of %s' % (alg.State.Eps, p_test, ds), **info)
        for rnd in range(2):
            i0 = i
            po = alg.sample_posteriors(n_collect)
            want = []
            for _ in range(n_collect):
                i = take(i, lambda d: d <= alg.State.Eps)
                want.append(log[i - 1])
            expect(i == len(log), '%d simulations for the posterior, %d needed' % (len(log) - i0, i - i0), **info)
            expect(len(po) == n_collect, '%d particles, %d requested' % (len(po), n_collect), **info)
            for pt, (ps, lp, d) in zip(po.Particles, want):
                expect(gen.canon(pt.Pars.Locus) == gen.canon(ps), 'posterior particle %s, expected %s' % (dict(pt.Pars), ps), **info)
                expect(close(pt.Pars.LogProb, -math.log(len(table))), 'log probability of a posterior particle', **info)
                expect(d <= eps + 1e-12 and close(model.calc_distance(pt), d), 'distance of a posterior particle', **info)
                expect(dict(pt['Ys']) == {'y': d / 2, 'z': d / 2} and [float(v) for v in pt['Xs']] == [float(ps['x'])],
                       'a posterior particle is not summarised: %s' % pt.Notes, **info)
            expect(close(po['Eps'], eps) and close(po['Acceptance'], n_collect / (i - i0)) and po['ESS'] == n_collect,
                   'notes %s, expected threshold %s, acceptance %s' % (po.Notes, eps, n_collect / (i - i0)), **info)
            rows = po.to_df().to_dict('records')
            expect([gen.canon(r) for r in rows] == [gen.canon(ps) for ps, _, _ in want], 'table of the posterior', **info)
            expect(close(alg.State.Eps, eps), 'sampling changed the threshold', **info)
        return [d for _, _, d in log], eps
    n = 0
    with fitkit.in_process(par and n_test == 2):
        for ch, _, (ds, eps) in paths(once, cap=60, bound=bound):
            n += 1
            ST.state((tab, p_test, n_test, n_collect, par, ch))
            ST.outcome((tab, ds, round(eps, 6)))
            tick('transitions', len(ds))
            tick('traces')
    ST.sample({'job': job, 'executions': n})
