"""Shipped distributions: support, moments, density and draws on a parameter grid, against closed forms."""
import itertools
import math
from .. import rnd
from ..core import CH, ST, close, expect, law, paths, tick

INF = math.inf
BOUNDS = {
    'quick': 'every shipped distribution x a grid of parameters x points inside, outside and at the edge of the support '
             'x 9 quantile cells for single draws and all pairs/triples of 3 cells for several draws; constants; '
             'categories: all weight vectors over {0,1,2,5}^3',
    'thorough': 'finer grid of parameters, points and quantiles; weight vectors over {0,1,2,5}^4',
}
ASSUMPTIONS = ['values are finite',
               'scipy draws are owned: a draw is the quantile function at an enumerated uniform',
               'parametrisations of lnorm and invgamma are those fixed by the existing tests']
QUANT = (0.001, 0.05, 0.2, 0.4, 0.5, 0.65, 0.8, 0.95, 0.999)


def lg(x):
    return math.lgamma(x)


def log(x):
    return math.log(x) if x > 0 else -INF


# name -> (fields grid, valid?, support, mean, sd, logpdf, integer?)
def d_gamma(shape, rate):
    return (0, INF), shape / rate, math.sqrt(shape) / rate, \
        lambda x: shape * math.log(rate) - lg(shape) + (shape - 1) * math.log(x) - rate * x


def d_exp(rate):
    return (0, INF), 1 / rate, 1 / rate, lambda x: math.log(rate) - rate * x


def d_lnorm(meanlog, sdlog):
    m, s = math.exp(meanlog), math.exp(sdlog)
    return (0, INF), math.exp(m + s * s / 2), math.sqrt((math.exp(s * s) - 1) * math.exp(2 * m + s * s)), \
        lambda x: -math.log(x * s * math.sqrt(2 * math.pi)) - (math.log(x) - m) ** 2 / (2 * s * s)


def d_unif(min, max):
    return (min, max), (min + max) / 2, (max - min) / math.sqrt(12), lambda x: -math.log(max - min)


def d_chisq(df):
    return (0, INF), df, math.sqrt(2 * df), \
        lambda x: (df / 2 - 1) * math.log(x) - x / 2 - df / 2 * math.log(2) - lg(df / 2)


def d_beta(shape1, shape2):
    a, b = shape1, shape2
    return (0, 1), a / (a + b), math.sqrt(a * b / (a + b + 1)) / (a + b), \
        lambda x: (a - 1) * math.log(x) + (b - 1) * math.log(1 - x) + lg(a + b) - lg(a) - lg(b)


def d_invgamma(a, rate):
    s = 1 / rate
    return (0, INF), s / (a - 1), s / (a - 1) / math.sqrt(a - 2), \
        lambda x: a * math.log(s) - lg(a) - (a + 1) * math.log(x) - s / x


def d_norm(mean, sd):
    return (-INF, INF), mean, sd, lambda x: -math.log(sd * math.sqrt(2 * math.pi)) - (x - mean) ** 2 / (2 * sd * sd)


def d_triangle(a, m, b):
    a, m, b = sorted((a, m, b))

    def lp(x):
        if x < m:
            return math.log(2 * (x - a) / ((b - a) * (m - a)))
        if x > m:
            return math.log(2 * (b - x) / ((b - a) * (b - m)))
        return math.log(2 / (b - a))
    return (a, b), (a + b + m) / 3, math.sqrt((a * a + b * b + m * m - a * b - a * m - b * m) / 18), lp


def d_binom(size, prob):
    n, p = size, prob

    def lp(x):
        if p in (0, 1):
            return 0.0 if x == n * p else -INF
        return lg(n + 1) - lg(x + 1) - lg(n - x + 1) + x * math.log(p) + (n - x) * math.log(1 - p)
    return (0, n), n * p, math.sqrt(n * p * (1 - p)), lp


def d_pois(lam):
    return (0, INF), lam, math.sqrt(lam), lambda x: x * math.log(lam) - lam - lg(x + 1)


GRID = {
    'gamma': dict(shape=(0.5, 1, 2.5, 7), rate=(0.2, 1, 3)), 'exp': dict(rate=(0.1, 1, 4)),
    'lnorm': dict(meanlog=(0, 0.5, 1), sdlog=(0.01, 0.3)), 'unif': dict(min=(-9, -3, 0, 0.5), max=(-2, 1, 2.5, 9)),
    'chisq': dict(df=(1, 2, 5.5)), 'beta': dict(shape1=(0.5, 1, 3), shape2=(0.7, 1, 4)),
    'invgamma': dict(a=(2.1, 3, 6), rate=(0.2, 1, 3)), 'norm': dict(mean=(-2, 0, 5), sd=(0.1, 1, 3)),
    'triangle': dict(a=(-6, -1, 0, 4), m=(-3, 2, 3.5), b=(-0.5, 1, 5)), 'binom': dict(size=(1, 2, 7), prob=(0, 0.1, 0.5, 0.9, 1)),
    'pois': dict(lam=(0.2, 1, 6.5)),
}
FINE = {
    'gamma': dict(shape=(0.1, 20), rate=(0.01, 10)), 'exp': dict(rate=(0.01, 25)), 'lnorm': dict(meanlog=(0.2, 1.5), sdlog=(0.1, 0.5)),
    'unif': dict(min=(-100, 0.9), max=(1.1, 100)), 'chisq': dict(df=(0.5, 30)), 'beta': dict(shape1=(0.2, 20), shape2=(1.5, 15)),
    'invgamma': dict(a=(2.5, 20), rate=(0.05, 10)), 'norm': dict(mean=(-100, 3.3), sd=(0.01, 50)),
    'triangle': dict(a=(-7, 0.5), m=(0.6, 8), b=(10, 0.1)), 'binom': dict(size=(3, 20), prob=(0.01, 0.99)), 'pois': dict(lam=(0.01, 30)),
}
PTS = (-8, -5, -4, -2.5, -1.25, -2, -1, -0.5, -1e-9, 0.01, 0.3, 0.5, 0.999, 1.5, 2, 3, 4.25, 6, 7.5, 8, 12, 40)


def jobs(tier):
    out = []
    for name, g in GRID.items():
        if tier != 'quick':
            g = {k: v + FINE[name][k] for k, v in g.items()}
        for vals in itertools.product(*g.values()):
            if name == 'unif' and vals[0] >= vals[1]:
                continue
            out.append(['dist', name, list(g), list(vals), 9 if tier == 'quick' else 41])
    out.append(['const', None, None, None, 0])
    n = 3 if tier == 'quick' else 4
    ws = [w for w in itertools.product((0, 1, 2, 5), repeat=n) if sum(w)]
    for i in range(0, len(ws), 16):
        out.append(['cat', ws[i:i + 16], None, None, 0])
    return out


def integral(lp, lo, hi, n=6000):
    """Midpoint rule on a transformed grid (reference distribution function)."""
    tot = 0.0
    for i in range(n):
        t = (i + 0.5) / n
        x = lo + (hi - lo) * t * t * (3 - 2 * t)
        tot += math.exp(lp(x)) * 6 * t * (1 - t) * (hi - lo) / n
    return tot


def run(job):
    kind, name, fields, vals, k = job
    if kind == 'dist':
        dist(name, dict(zip(fields, vals)), k)
    elif kind == 'const':
        const()
    else:
        cat(name)


def dist(name, pars, k):
    from sims_pars.prob import parse_distribution
    text = '%s(%s)' % (name, ', '.join('%s=%r' % x for x in pars.items()))
    info = dict(distribution=text)
    d = parse_distribution(text)
    (lo, hi), mean, sd, lp = globals()['d_' + name](**pars)
    whole = name in ('binom', 'pois')
    expect(close(d.Lower, lo) and close(d.Upper, hi), 'range [%r, %r], expected [%r, %r]' % (d.Lower, d.Upper, lo, hi), **info)
    a, b = d.Interval
    expect(close(a, lo) and close(b, hi), 'interval [%r, %r]' % (a, b), **info)
    expect(close(d.mean(), mean, 1e-7), 'mean %r, expected %r' % (d.mean(), mean), **info)
    expect(close(d.std(), sd, 1e-6), 'sd %r, expected %r' % (d.std(), sd), **info)
    expect(d.Type == ('Integer' if whole else 'Double'), 'type %r' % d.Type, **info)
    for x in PTS + ((int(lo), int(hi)) if whole and hi < INF else (lo,) if whole else ()):
        if not whole and x in (lo, hi):      # the density at the edge is a convention
            continue
        inside = lo <= x <= hi and abs(x) < INF and (not whole or x == int(x))
        ref = lp(x) if inside else -INF
        got = d.logpdf(x)
        expect(close(got, ref, 1e-7), 'log density at %r is %r, expected %r' % (x, got, ref), **info)
        tick('transitions')
    # draws
    qs = QUANT if k == 9 else tuple((i + 0.5) / k for i in range(k))
    memo = {}

    def cdf_ok(x, u):
        if (x, u) in memo:
            return memo[x, u]
        if whole:
            tot, j = 0.0, 0
            while j < x:
                tot += math.exp(lp(j))
                j += 1
            ok = tot < u + 1e-9 and tot + math.exp(lp(x)) >= u - 1e-9
        elif name == 'lnorm':                  # heavy tail: integrate on the log scale
            lo2 = math.exp(pars['meanlog']) - 12 * math.exp(pars['sdlog'])
            ok = abs(integral(lambda y: lp(math.exp(y)) + y, lo2, math.log(x), 3000) - u) < 1e-3
        elif name in ('gamma', 'chisq', 'invgamma', 'beta'):   # poles at the edges: integrate on the log scale
            ok = abs(integral(lambda y: max(lp(math.exp(y)) + y, -700), min(math.log(x), 0) - 120, math.log(x), 20000) - u) < 1e-3
        else:
            ok = abs(integral(lp, max(lo, mean - 40 * sd), x) - u) < 1e-3
        memo[x, u] = ok
        return ok

    def draw(n, grid=None):
        with rnd.owned(rnd.Rnd(uni=grid or (qs if n == 1 else qs[1:8:3]))) as r:
            try:
                x = d() if n == 0 else d.sample(n) if n > 1 else d.sample()
            except rnd.Unowned:
                return None, None
            return x, [e[1] for e in r.log if e[0] == 'u']

    for n in (1, 0, 2, 3):
        for _, _, (x, us) in paths(lambda: draw(n)):
            tick('transitions')
            if us is None:
                continue
            xs = [x] if n < 2 else list(x)
            expect(len(xs) == max(n, 1), '%d draws requested, %d returned' % (n, len(xs)), **info)
            expect(n > 1 or not hasattr(x, '__len__'), 'a single draw is %r' % (x,), **info)
            for i, v in enumerate(xs):
                expect(lo <= v <= hi and v == v, 'draw %r outside the range' % v, **info)
                expect(not whole or v == int(v), 'draw %r is not a whole number' % v, **info)
                if len(us) == len(xs):
                    if n < 2 or i == 0:
                        expect(cdf_ok(float(v), us[i]), 'draw %r at quantile %r of %s' % (v, us[i], text), **info)
                    else:
                        expect(close(v, first[us[i]]), 'draws of one call are not from the same distribution', **info)
            if len(us) == len(xs) and n < 2:
                first = dict(memo_first.get(text, {}))
                first[us[0]] = float(xs[0])
                memo_first[text] = first
            ST.outcome((text, tuple(map(float, xs))))
        first = memo_first.get(text, {})
    # several draws are independent draws of the law of one
    one, _ = law(lambda: key(draw(1, qs[1:8:3])[0]))
    for n in (2, 3):
        got, c = law(lambda: key(draw(n, qs[1:8:3])[0]))
        tick('transitions', c)
        if None in got or None in one:
            continue
        ref = {}
        for t in itertools.product(one, repeat=n):
            ref[tuple(x[0] for x in t)] = math.prod(one[x] for x in t)
        expect(got == ref, '%d draws of one call are not independent draws of the law of one draw: %s, expected %s' % (
            n, {str(a): str(b) for a, b in got.items()}, {str(a): str(b) for a, b in ref.items()}), **info)
    tick('traces')
    ST.state(text)
    ST.sample(text)


def key(x):
    if x is None:
        return None
    return tuple(float('%.10g' % v) for v in (x if hasattr(x, '__len__') else [x]))


memo_first = {}


def const():
    from sims_pars.prob import parse_distribution
    for v in (0, 2.5, -3, 1e9):
        d = parse_distribution('k(%r)' % v)
        expect(d.Lower == v and d.Upper == v and tuple(d.Interval) == (v, v) and d.mean() == v and d.std() == 0,
               'constant %r' % v)
        for x in PTS + (v, v + 1e-9 * max(1, abs(v))):
            expect(d.logpdf(x) == (0 if x == v else -INF), 'log density of constant %r at %r is %r' % (v, x, d.logpdf(x)))
            tick('transitions')
        for n in (1, 2, 5):
            x = d.sample(n)
            expect(list(x) == [v] * n if n > 1 else x == v, 'draws of a constant: %r' % (x,))
        expect(d() == v, 'draw of a constant')
        tick('traces')


def cat(ws):
    from sims_pars.prob import parse_distribution, CategoricalRV
    for w in ws:
        cats = ('M', 'B', 'Z', 'A')[:len(w)]
        kv = dict(zip(cats, w))
        t = float(sum(w))
        d = parse_distribution('cat({%s})' % ', '.join('"%s": %r' % x for x in kv.items()))
        info = dict(weights=kv)
        keep = {c: x for c, x in kv.items() if x}
        for c in cats:
            expect(close(d.logpdf(c), log(kv[c] / t)), 'log probability of %s is %r' % (c, d.logpdf(c)), **info)
        expect(d.logpdf('unknown') == -INF, 'log probability of an unknown category is %r' % d.logpdf('unknown'), **info)
        expect(d.Type == 'Category', 'type')
        first = [c for c in cats if kv[c]][0]
        counts = {c: i + 1 for i, c in enumerate(keep)}
        expect(close(d.logpdf(counts), sum(i * log(kv[c] / t) for c, i in counts.items())), 'log probability of counts', **info)

        def once(n):
            with rnd.owned():
                try:
                    x = d.sample(n) if n > 1 else d.sample()
                except rnd.Unowned:
                    return None
            return tuple(str(c) for c in x) if n > 1 else str(x)
        for n in (1, 2, 3):
            got, k = law(lambda: once(n))
            tick('transitions', k)
            if None in got:
                continue
            ref = {}
            for tup in itertools.product(keep, repeat=n):
                ref[tup if n > 1 else tup[0]] = math.prod(kv[c] / t for c in tup)
            expect(set(got) == set(ref) and all(close(float(got[c]), ref[c]) for c in ref),
                   'law of %d draws: %s, expected %s' % (n, {str(a): float(b) for a, b in got.items()}, ref), **info)
            ST.outcome((tuple(w), sorted(map(str, got))))
        tick('traces')
        ST.state(('cat', tuple(w)))
