"""Operators of the genetic algorithm: exact laws of crossover and selection, proposals of the mutator."""
import itertools
import math
from fractions import Fraction
from .. import fitkit, rnd
from ..core import CH, ST, close, expect, expect_raises, law, tick

INF = math.inf
VALS = (-2.0, 0.5, 3.0)
FIT = (-1.0, -2.5, -7.0, -2.0, -4.0, -1.5, -3.0)
BOUNDS = {
    'quick': 'crossover: all pairs of parents over 1-3 parameters x 3 values (exact law); selection: all populations of 3-7 individuals with fitness patterns '
             '(ties, infinite likelihoods), tournaments of 1-4, importance (exact law of up to 2 picks), both criteria; mutation: all populations of 2-5 over 4 '
             'values x 4 limits x steps of 0, +-1, 6 scales, shifted, scaled and reordered',
    'thorough': 'as quick with populations of 6 and 3 picks',
}
ASSUMPTIONS = ['individuals are dictionaries with log likelihood and log posterior', 'the run of the genetic algorithm itself rests on an interface '
               'of parameters that no longer exists; its operators do not']


def jobs(tier):
    out = [['cross', k] for k in (1, 2, 3)]
    out += [['names']]
    for n in (3, 4, 5, 6, 7):
        for pat in range(8):
            out.append(['sel', n, pat, 2 if tier == 'quick' else 3])
    for n in (2, 3, 4, 5) + ((6,) if tier != 'quick' else ()):
        for lim in range(4):
            out.append(['mut', n, lim])
    return out


class Dom:
    def __init__(self, name, lower=-INF, upper=INF):
        self.Name, self.Type, self.Lower, self.Upper = name, 'Double', lower, upper


class Obj:
    def __init__(self, *doms):
        self.Domain = list(doms)
        self.FreeParameters = [d.Name for d in doms]


class Ind(dict):
    """An individual."""

    def __init__(self, vals, like=0.0, post=0.0, tag=None):
        dict.__init__(self, vals)
        self.LogLikelihood, self.LogPosterior, self.LogPrior, self.tag = like, post, post - like, tag

    def clone(self):
        return Ind(self, self.LogLikelihood, self.LogPosterior, self.tag)

    @property
    def Locus(self):
        return self


def run(job):
    fitkit.quiet()
    {'cross': cross, 'sel': select, 'mut': mutate, 'names': names}[job[0]](*job[1:])
    ST.sample({'job': job})


def cross(k):
    from sims_pars.fit.ga.cross import get_crossover
    ps = ['p%d' % i for i in range(k)]
    obj = Obj(*[Dom(p) for p in ps])
    for a in itertools.product(VALS, repeat=k):
        for b in itertools.product(VALS, repeat=k):
            p1 = Ind(dict(zip(ps, a), other=1.0, far=2.0))
            p2 = Ind(dict(zip(ps, b), other=5.0, far=6.0))
            for name in ('average', 'shuffle', 'average()'):
                def once():
                    with rnd.owned(rnd.Rnd(uni=(0.3, 0.7))):
                        c1, c2 = get_crossover(name).crossover(p1, p2, obj)
                    expect(set(c1) == set(c2) == set(ps), 'children hold %s, %s' % (sorted(c1), sorted(c2)), parents=(a, b))
                    r = tuple(float(c1[p]) for p in ps), tuple(float(c2[p]) for p in ps)
                    c1[ps[0]] = 99
                    expect(c2[ps[0]] == r[1][0], 'the children share their values', parents=(a, b))
                    return r
                got, n = law(once)
                tick('transitions', n)
                tick('traces')
                want = {}
                if name.startswith('average'):
                    m = tuple((x + y) / 2 for x, y in zip(a, b))
                    want[m, m] = Fraction(1)
                else:
                    for bits in itertools.product((0, 1), repeat=k):
                        c = tuple((y, x)[i] for i, x, y in zip(bits, b, a)), tuple((x, y)[i] for i, x, y in zip(bits, b, a))
                        want[c] = want.get(c, 0) + Fraction(1, 2 ** k)
                expect(got == want, '%s crossover of %s and %s: %s, expected %s' % (name, a, b, got, want))
                expect(dict(p1) == dict(zip(ps, a), other=1.0, far=2.0) and dict(p2) == dict(zip(ps, b), other=5.0, far=6.0), 'the parents changed', parents=(a, b))
                ST.state((name, a, b))
                ST.outcome((name, repr(want)))


def population(n, pat):
    """Fitness patterns: likelihood and posterior order individuals differently."""
    out = []
    for i in range(n):
        post = FIT[i]
        like = FIT[-1 - i] if pat % 2 else FIT[(i + 3) % 7]
        if pat == 2 and i == n - 1 or pat == 3 and i % 3 == 1 or pat == 5 and i < 2:
            like = -INF
            post = -INF if i % 2 else 5.0
        if pat == 4:
            post = like = -2.0
        if pat == 6:                        # priors of very different size, on a likelihood far from zero
            post -= 1500
            like = post + (30 if i % 2 else -1)
        if pat == 7 and i % 2:              # impossible under the prior
            post = -INF
        out.append(Ind({'x': float(i)}, like, post, i))
    return out


def select(n, pat, picks):
    from sims_pars.fit.ga.select import get_selector
    obj = Obj(Dom('x'))
    pop = population(n, pat)
    ok = [p for p in pop if math.isfinite(p.LogLikelihood)]
    for name, k in (('tour', 3), ('tour(1)', 1), ('tour(2)', 2), ('tour(4)', 4), ('tour(3)', 3), ('importance', None)):
        for crit in ('MAP', 'MLE', None):
            fit = (lambda p: p.LogLikelihood) if crit == 'MLE' else (lambda p: p.LogPosterior)
            info = dict(selector=name, population=[(p.LogLikelihood, p.LogPosterior) for p in pop], fitness=crit)
            kw = {} if crit is None else {'fitness': crit}
            if len(ok) <= (k or 5):
                expect_raises(AssertionError, lambda: get_selector(name).select(pop, obj, **kw), 'too few individuals to select from', **info)
                continue

            class First(rnd.Rnd):
                """Only the first picks vary."""
                left = 0

                def choice(self, a, size=None, replace=True, p=None):
                    import numpy as np
                    self.log.append(('choice', len(np.arange(a)) if isinstance(a, (int, np.integer)) else len(a), size, replace))
                    if replace:
                        out, one = [], rnd.Rnd.index
                        m = a if isinstance(a, (int, np.integer)) else len(a)
                        if p is not None:
                            expect(abs(sum(p) - 1) < 1e-6 and all(x >= 0 for x in p) and len(p) == m, 'weights of selection %s' % p, **info)
                        cand = [j for j in range(m) if p is None or p[j] > 0]
                        for _ in range(size or 1):
                            if self.left < picks:
                                self.left += 1
                                out.append(one(self, m, p))
                            else:
                                out.append(cand[0])
                        seq = np.arange(m) if isinstance(a, (int, np.integer)) else a
                        out = [seq[i] for i in out]
                        return np.array(out) if size is not None else out[0]
                    self.left += 1
                    if self.left > (picks if len(ok) < 6 and k < 3 else 1):
                        seq = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
                        return seq[:size]
                    return rnd.Rnd.choice(self, a, size, replace, p)

            def once():
                r = First()
                with rnd.owned(r):
                    sel = get_selector(name).select(pop, obj, **kw)
                expect(len(sel) == n, '%d selected of %d' % (len(sel), n), **info)
                for s in sel:
                    o = pop[int(s['x'])]
                    expect(dict(s) == dict(o) and s.LogLikelihood == o.LogLikelihood and math.isfinite(o.LogLikelihood), 'selected %s' % s, **info)
                    expect(all(s is not p for p in pop), 'an individual was selected without copying it', **info)
                expect(len({id(s) for s in sel}) == n, 'selected individuals share their values', **info)
                m = picks if not k or len(ok) < 6 and k < 3 else 1
                return tuple(int(s['x']) for s in sel[:m])
            got, c = law(once, cap=200000)
            tick('transitions', c)
            tick('traces')
            one = {}
            if k:
                for combo in itertools.combinations(ok, k):
                    best = max(fit(p) for p in combo)
                    ties = [p for p in combo if fit(p) == best]
                    for p in ties:
                        one[p.tag] = one.get(p.tag, 0) + 1.0 / math.comb(len(ok), k) / len(ties)
            else:
                z = max(fit(p) for p in ok)
                t = sum(math.exp(fit(p) - z) for p in ok)
                one = {p.tag: math.exp(fit(p) - z) / t for p in ok if fit(p) > -INF}
            m = len(next(iter(got)))
            want = {}
            for tags in itertools.product(one, repeat=m):
                w = 1.0
                for t_ in tags:
                    w *= one[t_]
                want[tags] = w
            expect(set(got) == set(want) and all(close(float(got[t_]), want[t_], 1e-7) for t_ in want),
                   'law of selection %s, expected %s' % ({t_: float(v) for t_, v in got.items()}, want), **info)
            expect([dict(p) for p in pop] == [{'x': float(i)} for i in range(n)], 'selection changed the population', **info)
            ST.state((name, n, pat, crit))
            ST.outcome(repr(sorted(want.items()))[:500])


LIMS = ((-INF, INF), (0.0, 4.0), (-1.0, INF), (-INF, 2.5))


def iqr(xs):
    xs = sorted(xs)

    def q(p):
        h = (len(xs) - 1) * p
        i = int(h)
        j = min(i + 1, len(xs) - 1)
        return xs[i] + (xs[j] - xs[i]) * (h - i)
    return q(0.75) - q(0.25)


def mutate(n, lim):
    from sims_pars.fit.ga.mutate import get_mutator
    lo, hi = LIMS[lim]
    base = [v for v in (0.5, 1.0, 2.0, 2.25, 0.25) if lo < v < hi]
    for vs in itertools.combinations_with_replacement(base, n):
        ws = [10 * v - 3 for v in reversed(vs)]
        obj = Obj(Dom('x', lo, hi), Dom('w'))
        pop = [Ind({'x': v, 'w': w, 'other': 7.0}) for v, w in zip(vs, ws)]
        mu = get_mutator('rw')
        mu.set_scales(pop, obj)
        info = dict(values=vs, limits=(lo, hi))

        def scale(xs):
            m = sum(xs) / len(xs)
            sd = math.sqrt(sum((x - m) ** 2 for x in xs) / len(xs))
            out = set()
            for s in (iqr(xs) / 1.34, min(sd, iqr(xs) / 1.34)):
                out.add(0.9 * (s or sd or 0.1) * len(xs) ** -0.2)
            return out
        expect(set(mu.Scales) == {'x', 'w'} and any(close(float(mu.Scales['x']), s) for s in scale(vs)) and any(close(float(mu.Scales['w']), s) for s in scale(ws)),
               'scales %s, expected %s and %s' % (mu.Scales, scale(vs), scale(ws)), **info)
        # reordered and shifted populations
        mu2 = get_mutator('rw()')
        mu2.set_scales([Ind({'x': v + 100, 'w': 2 * w}) for v, w in zip(vs[::-1], ws)], obj)
        if len(set(vs)) > 1:
            expect(close(float(mu2.Scales['x']), float(mu.Scales['x']), 1e-7) and close(float(mu2.Scales['w']), 2 * float(mu.Scales['w']), 1e-7),
                   'scales %s of a shifted population, %s before' % (mu2.Scales, mu.Scales), **info)
        for p in pop[:2]:
            was = dict(p)

            def once():
                r = rnd.Rnd(z=(0.0, 1.0, -1.0, 6.0))
                with rnd.owned(r):
                    q = mu.propose(p, obj)
                steps = [(x[1], x[2], x[3]) for x in r.log if x[0] == 'z']
                return tuple(sorted(q.items())), tuple(steps)
            from ..core import paths
            for ch, _, (q, steps) in paths(once):
                q = dict(q)
                expect(set(q) == {'x', 'w'}, 'proposal of %s' % sorted(q), **info)
                expect(dict(p) == was, 'proposing changed the individual', **info)
                zs = [(0.0, 1.0, -1.0, 6.0)[i] for i in ch]
                expect(len(zs) == 2, '%d steps drawn for 2 parameters' % len(zs), **info)
                want = sorted((p['x'] + z1 * mu.Scales['x'], p['w'] + z2 * mu.Scales['w']) for z1, z2 in (zs, zs[::-1]))
                x = [min(max(a, lo), hi) for a, _ in want]
                w = [b for _, b in want]
                expect(any(close(float(q['x']), a) and close(float(q['w']), b) for a, b in zip(x, w)), 'proposal %s, expected one of %s' % (q, list(zip(x, w))), **info)
                expect(lo <= q['x'] <= hi, 'proposal %s outside of the limits' % q, **info)
                tick('transitions')
                tick('traces')
                ST.outcome(round(float(q['x']), 6))
        ST.state((vs, lim))


def names():
    from sims_pars.fit.ga.cross import get_crossover
    from sims_pars.fit.ga.mutate import get_mutator
    from sims_pars.fit.ga.select import get_selector
    for get in (get_crossover, get_mutator, get_selector):
        expect_raises(Exception, lambda: get('nothing'), 'an unknown operator was made')
        expect_raises(Exception, lambda: get('nothing(3)'), 'an unknown operator was made')
    for bad in ('tour(0)', 'tour(-1)'):
        expect_raises(Exception, lambda: get_selector(bad), 'an invalid tournament was made: %s' % bad)
    a, b = get_mutator('rw'), get_mutator('rw')
    a.set_scales([Ind({'x': 1.0}), Ind({'x': 3.0})], Obj(Dom('x')))
    expect(b.Scales == {}, 'two mutators share their scales')
    tick('transitions', 9)
    tick('traces')
    ST.state('names')
