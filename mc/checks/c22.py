"""ABC-SMC: every round of the real sampler against the transition relation of the algorithm, over initial populations and
the answers of resampling, perturbation and prior draws (bounded number of answers other than the default ones)."""
import itertools
import math
from .. import core, fitkit, gen, rnd
from ..core import CH, ST, close, expect, law, paths, tick

INF = math.inf
US = (1 / 16, 5 / 16, 7 / 16, 11 / 16, 15 / 16)         # x = 0.5, 2.5, 3.5, 5.5, 7.5: exact distances
MODELS = {
    # script, free parameters, distance of the values
    'line': ('PCore M {\nx ~ mcunif(0, 8)\n}', ('x',), lambda p: abs(p['x'] - 3)),
    'ties': ('PCore M {\nx ~ mcunif(0, 8)\n}', ('x',), lambda p: float(int(abs(p['x'] - 3)))),
    'flat': ('PCore M {\nx ~ mcunif(0, 8)\n}', ('x',), lambda p: 1.0),
    'hole': ('PCore M {\nx ~ mcunif(0, 8)\n}', ('x',), lambda p: INF if p['x'] > 6.5 or 3.1 < p['x'] < 3.6 else abs(p['x'] - 4)),
    'neg': ('PCore M {\nx ~ mcunif(0, 8)\n}', ('x',), lambda p: -p['x']),
    'spot': ('PCore M {\nx ~ mcunif(0, 8)\n}', ('x',), lambda p: abs(p['x'] - 3) if any(abs(p['x'] - 8 * u) < 1e-9 for u in US) else INF),
    'two': ('PCore M {\nx ~ mcunif(0, 8)\nw ~ mcunif(0, 2)\nq = x * 2\n}', ('x', 'w'), lambda p: abs(p['q'] - 6) + p['w']),
    'hier': ('PCore M {\ns ~ mcunif(0.5, 4)\nm ~ mcnorm(1, s)\n}', ('s',), lambda p: abs(p['m'] - 2) + p['s'] / 4),
}
BOUNDS = {
    'quick': '8 models (ties, constant, negative and infinite distances, two parameters, invalid proposals) x initial populations of 4..5 from 5 '
             'values (strides) x 3 quantiles x 3 thresholds x serial/parallel; 3 rounds; all executions with <= 1 answer (2 for 4 particles) other '
             'than the default one; 7 rounds of the default execution x 3 x 4 limits of the stopping rules; 5 rounds from tied worst particles with one such answer; posterior law of single draws exact',
    'thorough': 'all populations of 5 and 6; 5 rounds; <= 2 such answers',
}
ASSUMPTIONS = ['the pool of workers is replaced by an in-order one (which copies arguments and results in a part of the runs)', 'perturbations take the values 0, +-1, 5 standard deviations',
               'the acceptance variable takes values next to 0 and next to 1', 'populations with fewer than 3 surviving particles may be refused']


def jobs(tier):
    out = []
    cfg = list(itertools.product((0.9, 0.5, 0.7), (0.6, 0.95, 0.1)))
    k = 0
    for name in MODELS:
        for n in ((5, 4) if tier == 'quick' else (6, 5, 4)):
            for i, pop in enumerate(itertools.combinations_with_replacement(range(5), n)):
                if tier == 'quick' and i % (9 if n == 5 else 7):
                    continue
                if tier != 'quick' and n == 6 and i % 5:
                    continue
                k += 1
                a, t = cfg[k % 9]
                out.append([name, list(pop), a, t, bool(k // 9 % 2), (3 if n > 4 or k % 5 else 2) if tier == 'quick' else 4,
                            1 if name in ('spot', 'two') or tier == 'quick' and (n > 4 or k % 5) else 2])
    for name in MODELS:                                # long runs with all stopping rules
        for i, pop in enumerate(itertools.combinations_with_replacement(range(5), 4)):
            if tier != 'quick' or i % 10 == 3:
                for stay in (1, 2, 4):
                    for acc in (0.0, 0.25, 0.5, 1.0):
                        out.append([name, list(pop), 0.9 if i % 3 else 0.5, 0.6 if i % 2 else 0.1, False, 7, 0, stay, acc])
    for name in MODELS:                                # rounds without progress, then progress by one move
        if name not in ('two', 'hier') or tier != 'quick':
            pops = [(0, 0, 1, 2), (1, 2, 4, 4), (0, 1, 1, 2), (2, 3, 3, 3)]
            for pop in pops if tier != 'quick' else pops[:2]:
                out.append([name, list(pop), 0.9, 0.1, False, 5, 1, 9, 0.0])
    for name in ('line', 'two', 'hole'):
        for par in (True, False):
            out.append(['parents', name, par])
    return out


class R(rnd.Rnd):
    """Prior draws follow a script first; resampling picks spread out by default; acceptance variables alternate at the extremes."""

    def __init__(self, script, z=(0.0, 1.0, -1.0, 5.0), uni=(0.3, 0.7)):
        rnd.Rnd.__init__(self, uni=uni, z=z)
        self.script, self.k, self.spread = list(script), 0, 0
        gen.DRAW[0] = self.u

    def u(self):
        if self.script:
            return self.script.pop(0)
        return rnd.Rnd.u(self)

    def random(self, size=None):
        def one():
            self.k += 1
            return (0.0, 1 - 1e-9)[self.k % 2]
        return self.arr(one, size)

    def index(self, n, p=None):
        from fractions import Fraction
        cand = [j for j in range(n) if p is None or p[j] > 0]
        s = self.spread % len(cand)
        self.spread += 1
        cand = cand[s:] + cand[:s]
        i = cand[CH.pick(len(cand), [Fraction(1, n) if p is None else Fraction(float(p[j])) for j in cand], 'p')]
        self.log.append(('i', n, i))
        return i

    rand = None


def make(name, log):
    from sims_pars.fit.base import DataModel, Domain, Particle
    from sims_pars.fit.targets import AbsSingleData
    scr, free, dist = MODELS[name]
    lims = {'x': (0, 8), 'w': (0, 2), 's': (0.5, 4)}
    doms = [Domain(f, 'Double', *lims[f]) for f in free]

    class T(AbsSingleData):
        def get_var_obs(self):
            return 1.0

        def calc_distance(self, sim):
            return sim[self.Name]

        def calc_likelihood(self, sim):
            return -sim[self.Name]

    class M(DataModel):
        def simulate(self, pars):
            d = dist(pars)
            log.append((dict(pars), float(pars.LogProb), d))
            return Particle(pars, {'y': d, 'rest': 5.0})

        Domain = doms              # the inherited one draws from the prior (see C18)
    r = R([0.5, 0.5])
    with rnd.owned(r):
        return M({'y': T('y', 0)}, scr)


def valid(pars, name):
    if name == 'hier':
        return 0.5 <= pars['s'] <= 4
    ok = 0 <= pars['x'] <= 8
    return ok and (name != 'two' or (0 <= pars['w'] <= 2 and close(pars['q'], 2 * pars['x'])))


def key(pars):
    return tuple(sorted((k, round(float(v), 9)) for k, v in dict(pars).items()))


def snapshot(alg, name):
    s = alg.State
    dist = MODELS[name][2]
    pts = []
    for p in s.Particles:
        d = dist(p.Pars)
        pts.append((key(p.Pars), d))
    return dict(eps=float(s.Eps), w=[float(x) for x in s.Wts], pts=pts, rnd=s.Round, stay=s.Stay, ess=float(s.ESS), acc=float(s.Acceptance))


def run(job):
    fitkit.quiet()
    if job[0] == 'parents':
        return parents(*job[1:])
    name, pop, alpha, thres, par, rounds, bound = job[:7]
    max_stay, min_acc = job[7:] or (2, 0.3)
    log = []
    CH.start(())
    model = make(name, log)
    CH.stop()
    script = [US[i] for i in pop]
    if name in ('two', 'hier'):
        script = [v for i, u in enumerate(pop) for v in (US[u], (0.3, 0.7)[i % 2])]
    if name in ('hole', 'spot'):
        script = script + [0.3] * len(pop)             # infinite distances are drawn again
    info = dict(job=job)

    def fresh(**kw):
        from sims_pars.fit import ApproxBayesComSMC
        st = dict(n_iter=len(pop), parallel=par, alpha=alpha, p_thres=thres, max_round=1, max_stay=max_stay, min_acc=min_acc, n_core=2, verbose=0)
        st.update(kw)
        return ApproxBayesComSMC(**st)

    def once():
        del log[:]
        r = R(script)
        states, end = [], None
        with rnd.owned(r):
            alg = fresh()
            alg.attach(model)
            alg.initialise()
            states.append(snapshot(alg, name))
            initial(alg, states[0], log, len(pop), info)
            for k in range(1, rounds + 1):
                r.script = []
                n0, l0 = len(log), len(r.log)
                alg.update_settings(max_round=k)
                before = states[-1]
                ref = plan(before, alpha, thres, len(pop))
                if ref['near']:                      # decided by rounding
                    tick('near_ties')
                    end = 'near'
                    break
                try:
                    alg.update()
                except AssertionError:
                    expect(sum(1 for w in ref['w'] if w > 0) <= 2, 'a round failed although %s' % ref, **info)
                    end = 'died'
                    break
                states.append(snapshot(alg, name))
                step(alg, model, name, before, states[-1], ref, log[n0:], r.log[l0:], thres, info)
                check_particles(alg, model, name, info)
            if end is None:
                posterior(alg, model, name, states[-1], info)
            rows = alg.Monitor.Trajectories
            got = [(a, float(b), float(c), float(d)) for a, b, c, d in zip(rows['Round'], rows['Eps'], rows['ESS'], rows['Acc'])]
            want = [(s['rnd'], s['eps'], s['ess'], s['acc']) for s in states]
            expect(len(got) == len(want) and all(close(a, b) for g, w in zip(got, want) for a, b in zip(g, w)),
                   'trace %s, expected %s' % (got, want), **info)
        ch = CH.choices
        # the same draws with the stopping rules on
        stop = None
        for s in states[1:]:
            if s['rnd'] >= rounds or (s['rnd'] >= 3 and s['stay'] >= max_stay) or s['acc'] < min_acc - 1e-12:
                stop = s
                tick('stop_' + ('rounds' if s['rnd'] >= rounds else 'acceptance' if s['acc'] < min_acc - 1e-12 else 'stay'))
                break
        if stop is not None:
            saved = (CH.prefix, CH.trail, CH.cap, CH.active, CH.diverged)
            CH.start(ch)
            try:
                r = R(script)
                with rnd.owned(r):
                    alg = fresh(max_round=rounds)
                    alg.attach(model)
                    alg.initialise()
                    r.script = []
                    alg.update()
                    alg.terminate()
                    s = snapshot(alg, name)
                    expect(repr(s) == repr(stop), 'stopped at %s, expected at %s' % (s, stop), **info)
            finally:
                CH.prefix, CH.trail, CH.cap, CH.active, CH.diverged = saved
        return [(s['eps'], s['stay'], tuple(s['pts'])) for s in states], end
    n = 0
    with fitkit.in_process(rounds == 2):
        for ch, _, (res, end) in paths(once, cap=600, bound=bound):
            n += 1
            ST.state((name, tuple(pop), alpha, thres, ch))
            ST.outcome((name, repr(res)))
            tick('transitions', len(res))
            tick('traces')
    ST.sample({'job': job, 'executions': n})


def initial(alg, s, log, n, info):
    """The first population: the first n simulations with a finite distance, equally weighted."""
    fin = [(key(p), d) for p, _, d in log if math.isfinite(d)]
    expect(s['pts'] == fin and len(fin) == n, 'first population %s, expected %s' % (s['pts'], fin), **info)
    expect(all(close(w, 1 / n) for w in s['w']) and close(s['ess'], n) and s['eps'] == INF and s['rnd'] == 0 and s['stay'] == 0,
           'first state %s' % s, **info)


def plan(before, alpha, thres, n):
    """Deterministic part of a round."""
    ds = [d for _, d in before['pts']]
    e0 = sum(1 for d in ds if d <= before['eps']) / len(ds)
    import numpy as np
    eps = float(np.quantile(ds, alpha * e0))
    stay = 0
    if eps >= before['eps']:
        eps, stay = before['eps'], before['stay'] + 1
    w = [a if d <= eps else 0.0 for a, d in zip(before['w'], ds)]
    t = sum(w)
    w = [a / t for a in w] if t > 0 else w
    ess = 1 / sum(a * a for a in w) if t > 0 else 0
    return dict(eps=eps, stay=stay, w=w, ess=ess, resample=ess < n * thres - 1e-9, edge=abs(ess - n * thres) < 1e-9,
                near=any(0 < abs(d - x) < 1e-7 for d in ds for x in (eps, before['eps'])))


def step(alg, model, name, before, after, ref, sims, draws, thres, info):
    n = len(before['pts'])
    info = dict(info, before=before, after=after)
    tick('rounds')
    expect(after['rnd'] == before['rnd'] + 1, 'round %s after %s' % (after['rnd'], before['rnd']), **info)
    expect(close(after['eps'], ref['eps']), 'threshold %s, expected %s' % (after['eps'], ref['eps']), **info)
    expect(after['eps'] <= before['eps'], 'the threshold rose from %s to %s' % (before['eps'], after['eps']), **info)
    expect(after['stay'] == ref['stay'], 'rounds without progress %s, expected %s' % (after['stay'], ref['stay']), **info)
    uniform = all(close(w, 1 / n) for w in after['w'])
    kept = all(close(a, b) for a, b in zip(after['w'], ref['w']))
    if not ref['edge']:
        expect(uniform if ref['resample'] else kept, 'weights %s, expected %s' % (after['w'], '1/%d' % n if ref['resample'] else ref['w']), **info)
    expect(uniform or kept, 'weights %s, expected %s or equal ones' % (after['w'], ref['w']), **info)
    expect(close(sum(after['w']), 1) and all(w >= 0 for w in after['w']), 'weights %s' % after['w'], **info)
    expect(close(after['ess'], 1 / sum(w * w for w in after['w'])), 'effective size %s of weights %s' % (after['ess'], after['w']), **info)
    resampled = not kept or (uniform and ref['resample'])
    expect(len(after['pts']) == n, '%d particles' % len(after['pts']), **info)
    # every simulation is of valid parameters
    for p, lp, d in sims:
        expect(valid(p, name) and math.isfinite(lp), 'a proposal outside of the prior was simulated: %s' % p, **info)
    # proposals of the particles in turn
    groups, cur = [], 0
    for p, lp, d in sims:
        cur += 1
        if math.isfinite(d):
            groups.append((key(p), d))
            cur = 0
        elif cur > 20:
            groups.append(None)
            cur = 0
    expect(cur == 0 and len(groups) == n, '%d proposals of %d particles' % (len(groups), n), sims=sims, **info)
    alive = {p for (p, d), w in zip(before['pts'], ref['w']) if w > 0}
    good = lo = 0
    for i, ((p, d), g) in enumerate(zip(after['pts'], groups)):
        if g is not None and g[1] <= ref['eps']:
            good += 1
            lo += 1
            expect(p == g[0], 'particle %d is %s; its proposal %s is within the threshold' % (i, p, g[0]), **info)
        else:
            lo += g is None
            expect(p == before['pts'][i][0] if not resampled else p in alive,
                   'particle %d is %s; its proposal was not acceptable' % (i, p), groups=groups, **info)
        if after['w'][i] > 0:
            expect(d <= after['eps'] + 1e-12, 'particle %d has weight %s at distance %s, threshold %s' % (i, after['w'][i], d, after['eps']), **info)
    expect(good / n - 1e-9 <= after['acc'] <= lo / n + 1e-9, 'acceptance %s, expected %s..%s' % (after['acc'], good / n, lo / n), **info)
    # steps follow the weighted spread of the particles to be moved
    theta = before['pts']
    if resampled:
        picks = [i for k, m, i in [x for x in draws if x[0] == 'i'][:n]] if sum(1 for x in draws if x[0] == 'i') == n else None
        theta = None if picks is None else [before['pts'][i] for i in picks]
        ps = [x[4] for x in draws if x[0] == 'choice']
        if ps and ps[0] is not None:
            expect(len(ps) == 1 and all(close(a, b) for a, b in zip(ps[0], ref['w'])), 'resampled with %s, expected %s' % (ps, ref['w']), **info)
    if theta is not None:
        sds = set()
        for f in MODELS[name][1]:
            vs = [dict(p)[f] for p, _ in theta]
            mu = sum(a * b for a, b in zip(vs, after['w']))
            sds.add(round(math.sqrt(max(sum(b * (a - mu) ** 2 for a, b in zip(vs, after['w'])), 0)), 6))
        got = {round(float(x[2]), 6) for x in draws if x[0] == 'z'}
        expect(got <= sds and (got or not any(s > 1e-6 for s in sds)), 'step sizes %s, expected %s' % (got, sds), **info)


def check_particles(alg, model, name, info):
    """Parameters, simulation, score and log probability of a particle belong together."""
    for p in alg.State.Particles:
        d = MODELS[name][2](p.Pars)
        expect(close(p.Sims['y'], d) and close(model.calc_distance(p), d) and p.Sims['rest'] == 5.0, 'particle %s: simulation %s, score %s, expected %s' % (
            dict(p.Pars), p.Sims, model.calc_distance(p), d), **info)
        expect(valid(p.Pars, name) and math.isfinite(p.Pars.LogProb), 'particle %s: log probability %s' % (dict(p.Pars), p.Pars.LogProb), **info)


def posterior(alg, model, name, s, info):
    saved = (CH.prefix, CH.trail, CH.cap, CH.active, CH.diverged)
    try:
        import sims_pars.fit.abc_smc.alg as mod

        def single():
            po = alg.sample_posteriors(1)
            expect(len(po) == 1, '%d posterior particles, 1 requested' % len(po), **info)
            expect(close(po['Eps'], s['eps']), 'posterior threshold %s' % po['Eps'], **info)
            expect(len(po['Trace']) == s['rnd'] + 1, 'trace of the posterior: %s' % po['Trace'], **info)
            pt = po.Particles[0]
            d = MODELS[name][2](pt.Pars)
            expect(d <= s['eps'] + 1e-12, 'posterior particle %s at distance %s, threshold %s' % (dict(pt.Pars), d, s['eps']), **info)
            return key(pt.Pars)
        # resampling answers vary, perturbations stay at the default
        r = R([], z=(0.0,), uni=(0.3,))
        with rnd.owned(r):
            def go():
                r.spread = 0
                return single()
            got, c = law(go)
            tick('transitions', c)
            ref = {}
            for (p, d), w in zip(s['pts'], s['w']):
                if w > 0:
                    ref[p] = ref.get(p, 0) + w
            if all(d <= s['eps'] for (_, d), w in zip(s['pts'], s['w']) if w > 0):
                expect(set(got) == set(ref) and all(close(float(got[k]), ref[k]) for k in ref),
                       'law of a posterior draw %s, expected %s' % ({k: float(v) for k, v in got.items()}, ref), **info)
            CH.start(())
            r.spread = 0
            po = alg.sample_posteriors(4)
            expect(len(po) == 4 and all(MODELS[name][2](p.Pars) <= s['eps'] + 1e-12 for p in po.Particles), 'posterior of 4', **info)
            expect([key(x) for x in po.to_df().to_dict('records')] == [key(p.Pars) for p in po.Particles], 'table of the posterior', **info)
    finally:
        CH.prefix, CH.trail, CH.cap, CH.active, CH.diverged = saved


def parents(name, par):
    """A population continued from given parameters keeps them."""
    from sims_pars.fit import ApproxBayesComSMC
    free = MODELS[name][1]
    for vals in itertools.product((1.0, 4.0, 5.5), repeat=2):
        log = []
        CH.start(())
        model = make(name, log)
        ps = [{'x': v} for v in vals]

        def once():
            del log[:]
            with rnd.owned(R([], uni=(0.3, 0.6))):
                alg = ApproxBayesComSMC(n_iter=3, parallel=par, verbose=0, n_core=1)
                alg.set_parents(ps)
                alg.attach(model)
                alg.initialise()
                return tuple(sorted(key(p.Pars) for p in alg.State.Particles)), [key(p.Pars) for p in alg.State.Particles], [
                    (key(p), d) for p, _, d in log]
        with fitkit.in_process(True):
            for ch, _, (pts, order, sims) in paths(once, cap=100):
                info = dict(parents=vals, model=name)
                fin = [k for k, d in sims if math.isfinite(d)]
                expect(order == fin, 'population %s, simulated %s' % (order, fin), **info)
                for p in order:
                    p = dict(p)
                    expect(p['x'] in vals, 'particle %s starts from none of the parents %s' % (p, vals), **info)
                    if name == 'two':
                        expect(close(p['q'], 2 * p['x']), 'particle %s: values depending on the parent were not updated' % p, **info)
                ST.state((name, vals, ch))
                ST.outcome(pts)
                tick('transitions', len(sims))
                tick('traces')
    ST.sample({'parents': name})
