"""History matching: every wave of the real algorithm against the relation it must satisfy, over the designs, candidate
points and emulator answers."""
import contextlib
import itertools
import math
import sys
from .. import core, fitkit, gen, rnd
from ..core import CH, ST, close, expect, paths, tick

INF = math.inf
MODELS = {
    # script, exogenous, domain (name, lower, upper, location, scale), outputs, targets
    'one': ('PCore M {\nx ~ mcunif(0, 8)\n}', {}, [('x', 0, 8, 0, 1)], {'y': lambda p: p['x']}, {'y': {'value': 3, 'error': 0.5}}),
    'half': ('PCore M {\nx ~ mcunif(-2, 0)\n}', {}, [('x', -2, 0, 0, 1)], {'y': lambda p: p['x'] * p['x']}, {'y': {'value': 1, 'range': (0.5, 1.5)}}),
    'two': ('PCore M {\nx ~ mcunif(-2, 2)\nw ~ mcunif(0, 10)\nq = x * 2 + k\n}', {'k': 1.0}, [('x', -2, 2, 0, 1), ('w', 0, 10, 0, 1)],
            {'a': lambda p: p['q'], 'b': lambda p: p['w'] - p['q']}, {'a': {'value': 2, 'error': 1.0}, 'b': {'value': -3, 'range': (-5, 5)}}),
    'inf': ('PCore M {\nx ~ mcnorm(1, 2)\n}', {}, [('x', -INF, INF, 1, 2)], {'y': lambda p: p['x'] + 10}, {'y': {'value': 10, 'error': 0.2}}),
}
EMUS = {
    'exact': lambda f, u: (f, 0.01),
    'bias': lambda f, u: (f + 3, 0.5),
    'flat': lambda f, u: (1.5, 0.2),
    'far': lambda f, u: (f + 60, 0.25),
    'farflat': lambda f, u: (70.0, 0.25),
    'doubt': lambda f, u: (f, 40 * u[0]),
}
BOUNDS = {
    'quick': '4 models (1-2 parameters, exogenous and derived values, bounded and unbounded) x 6 emulators x 5 pairs of numbers of simulations '
             'and candidates (given or not) x 3 acceptance limits x 3 cut-offs; 2-3 waves; all executions with <= 1 answer other than the default one '
             '(designs, candidate points)',
    'thorough': 'as quick with 4 waves and <= 2 such answers',
}
ASSUMPTIONS = ['emulators are table-driven stand-ins (the real one is run once, on smooth data)',
               'the Latin hypercube sampler is replaced by one that enumerates designs', 'point targets']


def jobs(tier):
    out = []
    sizes = ((2, 4), (3, 5), (0, 0), (1, 0), (0, 4))
    k = 0
    for m in MODELS:
        for e in EMUS:
            for s in sizes:
                for acc in (0.2, 0.5, 0.75):
                    k += 1
                    co = (3, 0.5, 1.5)[k % 3]
                    b = (0 if 0 in s else 1) if tier == 'quick' else (0 if 0 in s else 2 if s[0] == 2 and len(MODELS[m][2]) == 1 else 1)
                    if 0 in s and tier == 'quick' and k % 2:
                        continue
                    out.append([m, e, list(s), acc, co, (2 if k % 4 else 3) if tier == 'quick' else 4, b])
    out.append(['real'])
    return out


class R(rnd.Rnd):
    """Answers in the unit interval are spread out by default."""

    def __init__(self):
        rnd.Rnd.__init__(self)
        self.k = 0
        gen.DRAW[0] = self.u

    def u(self):
        self.k += 1
        base = (self.k * 0.6180339887498949) % 1
        v = (base, 0.02, 0.98)[CH.pick(3, tag='u')]
        self.log.append(('u', v))
        return v


class Latin:
    """Stands for scipy's LatinHypercube; enumerates the permutation of the strata of the later coordinates."""
    r = None

    def __init__(self, d, *a, **k):
        self.d = d

    def random(self, n=1, **k):
        import numpy as np
        cols = []
        for j in range(self.d):
            order = list(range(n))
            if j:
                i = CH.pick(2, tag='lhs')
                order = order[::-1] if i else order
            cols.append([(s + 0.3 + 0.4 * (s % 2)) / n for s in order])
        return np.array(cols, float).T.reshape(n, self.d)


@contextlib.contextmanager
def latin():
    import scipy.stats.qmc as qmc
    old = qmc.LatinHypercube
    saved = [(qmc, 'LatinHypercube', old)]
    qmc.LatinHypercube = Latin
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith('sims_pars'):
            continue
        for k, v in list(vars(mod).items()):
            if v is old:
                saved.append((mod, k, v))
                setattr(mod, k, Latin)
    try:
        yield
    finally:
        for mod, k, v in reversed(saved):
            setattr(mod, k, v)


def unit2value(dom, u):
    n, lo, hi, loc, sc = dom
    if not math.isinf(lo):
        return lo + u * (hi - lo)
    if u == 0.5:
        return loc
    if not 0 < u < 1:
        return math.copysign(INF, u - 0.5)
    return loc + math.copysign(math.log(1 - 2 * abs(u - 0.5)), u - 0.5) * sc


def quantile(xs, p):
    xs = sorted(xs)
    h = (len(xs) - 1) * p
    i = int(math.floor(h))
    j = min(i + 1, len(xs) - 1)
    return xs[i] + (xs[j] - xs[i]) * (h - i)


def make(name, log):
    from sims_pars.fit.base import DataModel, Domain, Particle
    from sims_pars.fit.targets import read_targets
    scr, exo, dom, outs, tar = MODELS[name]
    doms = [Domain(n, 'Double', lo, hi, loc, sc) for n, lo, hi, loc, sc in dom]

    class M(DataModel):
        def simulate(self, pars):
            ys = {k: f(pars) for k, f in outs.items()}
            log.append((dict(pars), ys))
            return Particle(pars, dict(ys, rest=5.0))

        Domain = doms
    with rnd.owned(R()):
        return M(read_targets(targets(tar)), scr, exo=exo)


def targets(tar):
    return {k: {'m': t['value'], 'error': t['error']} if 'error' in t else {'m': t['value'], 'l': t['range'][0], 'u': t['range'][1]}
            for k, t in tar.items()}


def var_obs(t):
    if 'error' in t:
        return (abs(t['value']) * t['error'] / 2 / 1.96) ** 2
    return ((t['range'][1] - t['range'][0]) / 2 / 1.96) ** 2


def full(name, vals):
    """All parameters of a model given its free ones."""
    p = dict(MODELS[name][1], **vals)
    if name == 'two':
        p['q'] = p['x'] * 2 + p['k']
    return p


def run(job):
    fitkit.quiet()
    if job[0] == 'real':
        return real()
    from sims_pars.fit.hme import BayesHistoryMatching
    emu = sys.modules['sims_pars.fit.hme.emulator'].GPREmulator
    name, ename, size, min_acc, cutoff, waves, bound = job
    scr, exo, dom, outs, tar = MODELS[name]
    p = len(dom)
    log, asked = [], []
    CH.start(())
    with latin():
        model = make(name, log)
    CH.stop()
    info = dict(job=job)
    n_sims = size[0] or 10 * p
    n_ems = size[1] or 100 * n_sims
    var_model = (1, 0.25)[len(ename) % 2]

    def values(us):
        return {d[0]: unit2value(d, float(u)) for d, u in zip(dom, us)}

    def answer(out, us):
        return EMUS[ename](outs[out](full(name, values(us))), us)

    def same(got, want):
        return set(want) <= set(got) and all(close(float(got[k]), float(want[k]), 1e-7) for k in want)

    def once():
        emu.answer, emu.log, emu.memory = staticmethod(answer), [], 0.0
        del log[:]
        r = R()
        res = []
        with rnd.owned(r), latin():
            st = dict(max_wave=1, cutoff=cutoff, min_acc=min_acc, var_model=var_model)
            st.update({k: v for k, v in zip(('n_sims', 'n_ems'), size) if v})
            alg = BayesHistoryMatching(**st)
            alg.attach(model)
            alg.initialise()
            bnd = [0.0] * p, [1.0] * p
            for w in range(1, waves + 1):
                alg.update_settings(max_wave=w)
                l0, e0, r0 = len(log), len(emu.log), len(r.log)
                alg.update()
                asked[:] = [a[1] for a in r.log[r0:] if a[0] == 'u']
                s = alg.State
                expect(s.Wave == w, 'after wave %d the count is %s' % (w, s.Wave), **info)
                bnd = wave(s, bnd, log[l0:], emu.log[e0:])
                res.append((bnd, round(float(s.Acc), 6), round(float(s.CutOff), 6)))
            posterior(alg, bnd)
        return res

    def wave(s, bnd, sims, asks):
        inf = dict(info, wave=s.Wave, bounds=bnd)
        expect(len(sims) == n_sims, '%d simulations, %d requested' % (len(sims), n_sims), **inf)
        lo, hi = values(bnd[0]), values(bnd[1])
        for ps, _ in sims:
            expect(same(ps, full(name, {d[0]: ps[d[0]] for d in dom})), 'simulated incomplete parameters %s' % ps, **inf)
            expect(all(lo[k] - 1e-9 <= ps[k] <= hi[k] + 1e-9 for k in lo), 'simulated outside of the bounds: %s' % ps, **inf)
        # one simulation per stratum of each parameter
        for j, d in enumerate(dom):
            us = sorted(inverse(d, ps[d[0]]) for ps, _ in sims)
            width = bnd[1][j] - bnd[0][j]
            if width > 1e-6:
                expect([int((u - bnd[0][j]) / width * n_sims + 1e-7) for u in us] == list(range(n_sims)), 'values of %s are not spread: %s' % (d[0], us), **inf)
        trains = {a[1]: a for a in asks if a[0] == 'train'}
        expect(set(trains) == set(outs), 'emulators trained: %s' % sorted(trains), **inf)
        for k, (_, _, xs, ys) in trains.items():
            got = sorted((tuple(round(v, 6) for v in x), round(y, 6)) for x, y in zip(xs, ys))
            want = sorted((tuple(round(inverse(d, ps[d[0]]), 6) for d in dom), round(float(o[k]), 6)) for ps, o in sims)
            expect(len(got) == len(want) and all(close(a, b, 1e-5) for g, w in zip(got, want) for a, b in zip(g[0] + (g[1],), w[0] + (w[1],))),
                   'emulator of %s trained on %s, simulated %s' % (k, got, want), **inf)
        preds = {}
        for a in asks:
            if a[0] == 'predict':
                preds.setdefault(a[1], []).extend(tuple(x) for x in a[2])
        expect(set(preds) == set(outs) and len({tuple(v) for v in preds.values()}) == 1, 'emulators were asked different points', **inf)
        cand = list(preds.values())[0]
        expect(len(cand) == n_ems, '%d candidates, %d requested' % (len(cand), n_ems), **inf)
        expect(all(l - 1e-12 <= u <= h + 1e-12 for x in cand for u, l, h in zip(x, *bnd)), 'candidate outside of the bounds', **inf)
        if len(asked) == n_ems * p:             # every answer is the place of one candidate between the bounds
            got = sorted(round((u - l) / (h - l), 6) if h - l > 1e-9 else None for x in cand for u, l, h in zip(x, *bnd) if h - l > 1e-9)
            want = sorted(round(u, 6) for u in asked)
            expect(len(got) < len(want) or all(close(a, b, 1e-4) for a, b in zip(got, want)),
                   'candidates at %s between the bounds, drawn %s' % (got[:9], want[:9]), **inf)
        rows = []
        for x in cand:
            im = 0
            for k, t in tar.items():
                y, v = answer(k, x)
                im = max(im, abs(t['value'] - y) / math.sqrt(var_model + var_obs(t) + v))
            rows.append((im, x))
        co = max(cutoff, quantile([a for a, _ in rows], min_acc))
        expect(close(float(s.CutOff), co, 1e-7), 'cut-off %s, expected %s' % (s.CutOff, co), **inf)
        sure = [x for a, x in rows if a <= co - 1e-9 or a == co]
        may = [x for a, x in rows if a <= co + 1e-9]
        got = [tuple(float(v) for v in pt['Xs']) for pt in s.Particles]
        expect(set(sure) <= set(got) <= set(may) and len(got) > 0 and len(sure) <= len(got) <= len(may),
               'kept %s, implausibilities %s, cut-off %s' % (got, rows[:12], co), **inf)
        expect([x for x in cand if x in set(got)] == got, 'order of the kept points', **inf)
        mses = []
        for pt, x in zip(s.Particles, got):
            ans = {k: answer(k, x) for k in outs}
            expect(same(dict(pt.Pars), values(x)), 'parameters of a kept point %s, expected %s' % (dict(pt.Pars), values(x)), **inf)
            expect(same(pt['Ys'], {k: a[0] for k, a in ans.items()}) and same(pt['Vs'], {k: a[1] for k, a in ans.items()}),
                   'outputs of a kept point %s' % pt.Notes, **inf)
            mses.append(sum((ans[k][0] - t['value']) ** 2 for k, t in tar.items()) / len(tar))
        expect(close(float(s.MSE), sum(mses) / len(mses), 1e-7), 'mean squared error %s, expected %s' % (s.MSE, sum(mses) / len(mses)), **inf)
        expect(close(float(s.Acc), len(got) / n_ems), 'acceptance %s: %d of %d' % (s.Acc, len(got), n_ems), **inf)
        expect(s.Acc >= min_acc - 1 / n_ems - 1e-9, 'acceptance %s below the limit %s' % (s.Acc, min_acc), **inf)
        new = [min(x[j] for x in got) for j in range(p)], [max(x[j] for x in got) for j in range(p)]
        expect(all(close(float(a), b) for g, w in zip(s.Bounds, new) for a, b in zip(g, w)), 'bounds %s, expected %s' % (s.Bounds, new), **inf)
        tick('waves')
        return new

    def posterior(alg, bnd):
        s = alg.State
        for n in (1, 4):
            l0 = len(log)
            po = alg.sample_posteriors(n)
            sims = log[l0:]
            expect(len(po) == n == len(sims), '%d posterior particles, %d requested' % (len(po), n), **info)
            lo, hi = values(bnd[0]), values(bnd[1])
            for pt, (ps, ys) in zip(po.Particles, sims):
                expect(same(dict(pt.Pars), ps) and same(ps, full(name, {d[0]: ps[d[0]] for d in dom})), 'posterior particle %s' % dict(pt.Pars), **info)
                expect(all(lo[k] - 1e-9 <= ps[k] <= hi[k] + 1e-9 for k in lo), 'posterior particle outside of the bounds: %s' % ps, **info)
                expect(same(pt['Ys'], ys) and set(pt['Ys']) == set(outs), 'outputs of a posterior particle', **info)
            got = [(b[0], float(b[1]), float(b[2])) for b in po['Bounds']]
            want = [(d[0], lo[d[0]], hi[d[0]]) for d in dom]
            expect(len(got) == p and all(g[0] == w[0] and close(g[1], w[1], 1e-7) and close(g[2], w[2], 1e-7) for g, w in zip(got, want)),
                   'reported bounds %s, expected %s' % (got, want), **info)
            expect(close(float(po['MSE']), float(s.MSE)) and close(float(po['Acceptance']), float(s.Acc)) and close(float(po['CutOff']), float(s.CutOff)),
                   'notes %s' % po.Notes, **info)
            expect([same(dict(r), ps) for r, (ps, _) in zip(po.to_df().to_dict('records'), sims)] == [True] * n, 'table of the posterior', **info)

    n = 0
    with fitkit.in_process():
        for ch, _, res in paths(once, cap=100000, bound=bound):
            if n == 0:
                whole(job, model, log, res, info)
            n += 1
            ST.state((tuple(map(repr, job)), ch))
            ST.outcome((name, repr(res)))
            tick('transitions', len(res))
            tick('traces')
    ST.sample({'job': job, 'executions': n})


def inverse(d, v):
    n, lo, hi, loc, sc = d
    if not math.isinf(lo):
        return (v - lo) / (hi - lo)
    v = (v - loc) / sc
    return 1 - math.exp(-v) / 2 if v > 0 else math.exp(v) / 2


def whole(job, model, log, res, info):
    """One call of fit runs the same waves."""
    from sims_pars.fit.hme import BayesHistoryMatching
    name, ename, size, min_acc, cutoff, waves, bound = job
    CH.start((), cap=100000)
    with rnd.owned(R()), latin():
        alg = BayesHistoryMatching(cutoff=cutoff, min_acc=min_acc, var_model=(1, 0.25)[len(ename) % 2])
        kw = {k: v for k, v in zip(('n_sims', 'n_ems'), size) if v}
        alg.fit(model, max_wave=waves, **kw)
        s = alg.State
        got = ([float(v) for v in s.Bounds[0]], [float(v) for v in s.Bounds[1]]), round(float(s.Acc), 6), round(float(s.CutOff), 6)
        expect(s.Wave == waves and repr(got[1:]) == repr(res[-1][1:]) and all(close(a, b) for g, w in zip(got[0], res[-1][0]) for a, b in zip(g, w)),
               'a run of %d waves ends with %s, expected %s' % (waves, got, res[-1]), **info)
    CH.stop()


def real():
    """The real emulator answers like the stand-in: same shapes, interpolating smooth data."""
    stub = sys.modules.pop('sims_pars.fit.hme.emulator')
    try:
        import os
        err, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)                     # the libraries of the emulator are talkative
        try:
            import sims_pars.fit.hme.emulator as mod
        except ImportError:
            tick('emulator_not_available')
            return
        import numpy as np
        for out, f in (('a', lambda x: x), ('b', lambda x: (x - 0.4) ** 2), ('c', lambda x: 0.5)):
            xs = [[i / 8] for i in range(9)]
            e = mod.GPREmulator(out)
            e.train(xs, [{'a': f(x[0]) if out == 'a' else 9, 'b': f(x[0]) if out == 'b' else 9, 'c': f(x[0]) if out == 'c' else 9} for x in xs])
            at = np.array([[i / 16] for i in range(17)])
            m, v = e.predict(at)
            expect(m.shape == (17, 1) and v.shape == (17, 1), 'shapes of predictions: %s, %s' % (m.shape, v.shape))
            for x, a, b in zip(at, m, v):
                expect(abs(a[0] - f(x[0])) < 0.1 and b[0] >= -1e-9, 'emulator of %s at %s: %s +- %s, expected %s' % (out, x, a, b, f(x[0])))
                tick('transitions')
            tick('traces')
            ST.state(('real', out))
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(null)
        sys.modules['sims_pars.fit.hme.emulator'] = stub
